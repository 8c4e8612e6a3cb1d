// P02: fixed point pitch and controller arithmetic is exact and saturates at its range limits, it never wraps.
#include "vp.h"
#include <midi/types.h>
using namespace midi;

static int64_t clampi(int64_t v, int64_t lo, int64_t hi) { return v < lo ? lo : v > hi ? hi : v; }
static const int64_t i32min = -2147483647LL - 1, i32max = 2147483647LL, u32max = 4294967295LL;

VP_CONTRACT(increment_add)
{
    const int32_t   a = int32_t(vp::u32()), b = int32_t(vp::u32());
    pitch_increment x{ a };
    const auto      s = x + pitch_increment{ b };
    VP_ENSURES(s.value == clampi(int64_t(a) + b, i32min, i32max));
    VP_ENSURES(x.value == a);
    x += pitch_increment{ b };
    VP_ENSURES(x.value == clampi(int64_t(a) + b, i32min, i32max));
    VP_ENSURES(pitch_increment{}.value == 0 && controller_increment{}.value == 0);
    VP_ENSURES((pitch_increment{ a } == pitch_increment{ b }) == (a == b) && (pitch_increment{ a } != pitch_increment{ b }) == (a != b));
    VP_ENSURES((controller_increment{ a } == controller_increment{ b }) == (a == b) && (controller_increment{ a } != controller_increment{ b }) == (a != b));
    pitch_increment y{ a };
    y += y; // aliasing
    VP_ENSURES(y.value == clampi(int64_t(a) * 2, i32min, i32max));
}

VP_CONTRACT(pitch_add)
{
    const uint32_t a = vp::u32();
    const int32_t  b = int32_t(vp::u32());
    pitch_7_25     p{ a };
    const auto     s = p + pitch_increment{ b };
    VP_ENSURES(s.value == clampi(int64_t(a) + b, 0, u32max));
    VP_ENSURES(p.value == a);
    p += pitch_increment{ b };
    VP_ENSURES(p.value == clampi(int64_t(a) + b, 0, u32max));
}

VP_CONTRACT(controller_add)
{
    const uint32_t   a = vp::u32();
    const int32_t    b = int32_t(vp::u32());
    controller_value c{ a };
    const auto       s = c + controller_increment{ b };
    VP_ENSURES(s.value == clampi(int64_t(a) + b, 0, u32max));
    VP_ENSURES(c.value == a);
    c += controller_increment{ b };
    VP_ENSURES(c.value == clampi(int64_t(a) + b, 0, u32max));
}

VP_CONTRACT(bend_times_sensitivity)
{
    const uint32_t               v = vp::u32(), s = vp::u32();
    const pitch_bend             pb{ v };
    const pitch_bend_sensitivity ps{ s };
    const pitch_increment        r    = pb * ps;
    const int64_t                prod = (int64_t(v) - 2147483648LL) * int64_t(s);
    const int64_t                mag  = (prod < 0 ? -prod : prod) >> 31;
    VP_ENSURES(r.value == clampi(prod < 0 ? -mag : mag, i32min, i32max));
    VP_ENSURES((ps * pb).value == r.value);
    VP_ENSURES(v == 0x80000000u ? r.value == 0 : true);
    VP_ENSURES(s == 0 ? r.value == 0 : true);
}

VP_CONTRACT(pitch_conversions)
{
    const uint8_t  n = vp::u7();
    const uint16_t p = vp::u16(), p2 = vp::u16();
    const uint32_t q = vp::u32(), q2 = vp::u32();
    VP_ENSURES(pitch_7_9{ note_nr_t(n) }.value == n * 512 && pitch_7_9{ note_nr_t(n) }.note_nr() == n);
    VP_ENSURES(pitch_7_9{ p }.value == p && pitch_7_9{ p }.note_nr() == p / 512);
    VP_ENSURES(pitch_7_25{ note_nr_t(n) }.value == uint32_t(n) * 33554432u && pitch_7_25{ note_nr_t(n) }.note_nr() == n);
    VP_ENSURES(pitch_7_25{ q }.value == q && pitch_7_25{ q }.note_nr() == q / 33554432u);
    VP_ENSURES(pitch_7_25{ pitch_7_9{ p } }.value == uint32_t(p) * 65536u && pitch_7_25{ pitch_7_9{ p } }.note_nr() == pitch_7_9{ p }.note_nr());
    pitch_7_25 t{ q };
    VP_ENSURES(&(t = pitch_7_9{ p }) == &t && t.value == uint32_t(p) * 65536u);
    VP_ENSURES(pitch_7_25{ controller_value{ q } }.value == q && controller_value{ pitch_7_25{ q } }.value == q);
    VP_ENSURES(pitch_bend_sensitivity{}.value == 2u * 33554432u);
    VP_ENSURES((pitch_7_9{ p } == pitch_7_9{ p2 }) == (p == p2) && (pitch_7_9{ p } != pitch_7_9{ p2 }) == (p != p2));
    VP_ENSURES((pitch_7_25{ q } == pitch_7_25{ q2 }) == (q == q2) && (pitch_7_25{ q } != pitch_7_25{ q2 }) == (q != q2));
    VP_ENSURES(pitch_7_9{}.value == 0 && pitch_7_25{}.value == 0);
}
