// Contract language shared by all contract files.
//   VP_CONTRACT(name)  { ... }   one contract: nondeterministic inputs, requires, the call, ensures
// Symbolically every nondet is universally quantified; natively (-DVP_NATIVE) the same text replays a counterexample
// or runs a random search against the real library with the real standard library.
#pragma once
#ifdef VP_NATIVE
#include <cstddef>
#include <cstdint>
unsigned char  __vp_u8();
unsigned short __vp_u16();
unsigned int   __vp_u32();
unsigned long  __vp_u64();
bool           __vp_bool();
float          __vp_f32();
double         __vp_f64();
void           __vp_assume(bool);
void           __vp_assert(bool, const char*);
void           __vp_cover(const char*);
void           __vp_bytes(void*, size_t, unsigned char mask);
inline void    __vp_watch(size_t) {}
inline void    __vp_history() {}
size_t         __vp_len_hint(size_t);
bool           __vp_more();
unsigned int   __vp_word(unsigned mask, unsigned value);
struct vp_reg { vp_reg(const char*, void (*)()); };
#define VP_CONTRACT(name) static void vpc_##name(); static vp_reg vpr_##name(#name, vpc_##name); static void vpc_##name()
#else
#include "vp_prim.h"
#define VP_CONTRACT(name) extern "C" __attribute__((used)) void vpc_##name()
#endif

#define VP_REQUIRES(c) __vp_assume(c)
#define VP_STR2(x) #x
#define VP_STR1(x) VP_STR2(x)
#define VP_ENSURES(c) __vp_assert((c), __FILE__ ":" VP_STR1(__LINE__) " " #c)
#define VP_COVER(l) __vp_cover(l)
// contract of a replaced callee: only in the symbolic build
#ifdef VP_NATIVE
#define VP_REPLACES(target, stub)
#else
#define VP_REPLACES(target, stub) \
    __attribute__((used, section("vp_replaces"))) static const char* vp_rep_##stub = target "=>" #stub;
#endif

namespace vp {
inline unsigned char  u8() { return __vp_u8(); }
inline unsigned short u16() { return __vp_u16(); }
inline unsigned int   u32() { return __vp_u32(); }
inline unsigned long  u64() { return __vp_u64(); }
inline bool           flag() { return __vp_bool(); }
inline unsigned char  u4() { return __vp_u8() & 0x0F; }
inline unsigned char  u7() { return __vp_u8() & 0x7F; }
inline unsigned short u14() { return __vp_u16() & 0x3FFF; }
inline unsigned int   u28() { return __vp_u32() & 0x0FFFFFFF; }
inline unsigned int   u21() { return __vp_u32() & 0x1FFFFF; }
inline float          f32() { return __vp_f32(); }
inline double         f64() { return __vp_f64(); }
// arbitrary length below a limit; natively kept small
inline size_t len(size_t max)
{
#ifdef VP_NATIVE
    size_t n = __vp_len_hint(max);
#else
    size_t n = __vp_u64();
#endif
    __vp_assume(n <= max);
    return n;
}
// any bool / any 32 bit word; the random search prefers true / words with the given value under the mask
#ifdef VP_NATIVE
inline bool         more() { return __vp_more(); }
inline unsigned int word(unsigned mask, unsigned value) { return __vp_word(mask, value); }
#else
inline bool         more() { return __vp_bool(); }
inline unsigned int word(unsigned, unsigned) { return __vp_u32(); }
#endif
constexpr size_t any = size_t(1) << 32;
}
