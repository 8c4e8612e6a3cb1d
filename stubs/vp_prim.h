// engine intrinsics used by the container models and by the contract files
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
unsigned char      __vp_u8();
unsigned short     __vp_u16();
unsigned int       __vp_u32();
unsigned long      __vp_u64();
bool               __vp_bool();
float              __vp_f32();
double             __vp_f64();
unsigned long      __vp_havoc64();
void               __vp_assume(bool);
void               __vp_assert(bool, const char*);
void               __vp_pre(bool, const char*);
void               __vp_cover(const char*);
void               __vp_bytes(void*, size_t, unsigned char mask);
void*              __vp_buf_new(size_t);
void               __vp_buf_len(void*, size_t);
void               __vp_free(void*);
bool               __vp_range_eq(const void*, const void*, size_t);
void               __vp_watch(size_t);
void               __vp_history();
size_t             __vp_grow(size_t need, size_t cap);
size_t             __vp_shrink(size_t need, size_t cap);
}
