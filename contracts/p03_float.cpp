// P03: floating point conversions are defined for every value (NaN included), clamped, exact at the landmarks, accurate, and round trip.
//@opt .* variant='B' lia=1 budget=200
//@opt .*_edges lia=0
//@opt (velocity|controller|bend)_(accuracy|roundtrip) merge=0
#include "vp.h"
#include <midi/types.h>
using namespace midi;

// ---- defined, clamped and exact at the ends and in the middle, for every float and double
template<class V, class F>
static void unit_edges(F f)
{
    const auto v = V{ f }.value;
    constexpr auto max = std::numeric_limits<decltype(V::value)>::max();
    VP_ENSURES(f > F(0) || v == 0);
    VP_ENSURES(!(f >= F(1)) || v == max);
    VP_ENSURES(f != F(0.5) || v == max / 2 + 1);
    VP_ENSURES(!(f <= F(0.5)) || v <= max / 2 + 1);
    VP_ENSURES(!(f >= F(0.5)) || v >= max / 2 + 1);
}
VP_CONTRACT(velocity_float_edges) { unit_edges<velocity>(vp::f32()); }
VP_CONTRACT(velocity_double_edges) { unit_edges<velocity>(vp::f64()); }
VP_CONTRACT(controller_float_edges) { unit_edges<controller_value>(vp::f32()); }
VP_CONTRACT(controller_double_edges) { unit_edges<controller_value>(vp::f64()); }
template<class F>
static void bend_edges(F f)
{
    const auto v = pitch_bend{ f }.value;
    VP_ENSURES(f > F(-1) || v == 0);
    VP_ENSURES(!(f >= F(1)) || v == 0xFFFFFFFF);
    VP_ENSURES(f != F(0) || v == 0x80000000);
}
VP_CONTRACT(bend_float_edges) { bend_edges(vp::f32()); }
VP_CONTRACT(bend_double_edges) { bend_edges(vp::f64()); }
template<class P, class F>
static void pitch_edges(F f)
{
    const auto v = P{ f }.value;
    VP_ENSURES(f > F(0) || v == 0);
    VP_ENSURES(!(f >= F(128)) || v == std::numeric_limits<decltype(P::value)>::max());
    VP_ENSURES(f != F(60) || P{ f } == P{ note_nr_t(60) });
}
VP_CONTRACT(pitch79_float_edges) { pitch_edges<pitch_7_9>(vp::f32()); }
VP_CONTRACT(pitch79_double_edges) { pitch_edges<pitch_7_9>(vp::f64()); }
VP_CONTRACT(pitch725_float_edges) { pitch_edges<pitch_7_25>(vp::f32()); }
VP_CONTRACT(pitch725_double_edges) { pitch_edges<pitch_7_25>(vp::f64()); }
template<class F>
static void increment_edges(F f)
{
    const auto v = pitch_increment{ f }.value;
    VP_ENSURES(!(f >= F(64)) || v == 0x7FFFFFFF);
    VP_ENSURES(!(f <= F(-64)) || v == -0x7FFFFFFF - 1);
    VP_ENSURES(!(f >= F(0)) || v >= 0);
    VP_ENSURES(!(f <= F(0)) || v <= 0);
    VP_ENSURES(f == f || v == 0);
}
VP_CONTRACT(increment_float_edges) { increment_edges(vp::f32()); }
VP_CONTRACT(increment_double_edges) { increment_edges(vp::f64()); }

// ---- accuracy: never further than one step from the exact value
VP_CONTRACT(velocity_accuracy)
{
    const double f = vp::f64();
    VP_REQUIRES(f > 0. && f < 1.);
    const double v = velocity{ f }.value;
    VP_ENSURES(v - f * 65535. < 1.001 && f * 65535. - v < 1.001);
}
VP_CONTRACT(controller_accuracy)
{
    const double f = vp::f64();
    VP_REQUIRES(f > 0. && f < 1.);
    const double v = controller_value{ f }.value;
    VP_ENSURES(v - f * 4294967295. < 1.001 && f * 4294967295. - v < 1.001);
}
VP_CONTRACT(bend_accuracy)
{
    const double f = vp::f64();
    VP_REQUIRES(f > -1. && f < 1.);
    const double v = pitch_bend{ f }.value;
    VP_ENSURES(v - (f + 1.) * 2147483647.5 < 1.001 && (f + 1.) * 2147483647.5 - v < 1.001);
}
VP_CONTRACT(pitch_accuracy)
{
    const double f = vp::f64();
    VP_REQUIRES(f > 0. && f < 128.);
    const double a = pitch_7_9{ f }.value, b = pitch_7_25{ f }.value;
    VP_ENSURES(a - f * 512. < 1.001 && f * 512. - a < 1.001);
    VP_ENSURES(b - f * 33554432. < 1.001 && f * 33554432. - b < 1.001);
}
VP_CONTRACT(increment_accuracy)
{
    const double f = vp::f64();
    VP_REQUIRES(f > -64. && f < 64.);
    const double b = pitch_increment{ f }.value;
    VP_ENSURES(b - f * 33554432. < 1.001 && f * 33554432. - b < 1.001);
}
VP_CONTRACT(detune_accuracy)
{
    const uint32_t n = vp::u32();
    const double   f = vp::f64();
    VP_REQUIRES(f > -128. && f < 128.);
    const double b = (pitch_7_25{ n } + f).value, x = n + f * 33554432.;
    VP_ENSURES(x <= 0. ? b <= 1.001 : x >= 4294967295. ? b >= 4294967293. : (b - x < 1.001 && x - b < 1.001));
}

// ---- every value survives the trip through floating point, and the float is in its range
VP_CONTRACT(velocity_roundtrip)
{
    const velocity n{ vp::u16() };
    const double   d = n.as_double();
    VP_ENSURES(d >= 0. && d <= 1. && velocity{ d }.value == n.value);
    const float    f = n.as_float();
    VP_ENSURES(f >= 0.f && f <= 1.f && velocity{ f }.value == n.value);
}
VP_CONTRACT(controller_roundtrip)
{
    const controller_value n{ vp::u32() };
    const double           d = n.as_double();
    VP_ENSURES(d >= 0. && d <= 1. && controller_value{ d }.value == n.value);
    const float            f = n.as_float();
    VP_ENSURES(f >= 0.f && f <= 1.f);
}
VP_CONTRACT(bend_range)
{
    const pitch_bend n{ vp::u32() };
    const double     d = n.as_double();
    VP_ENSURES(d >= -1. && d <= 1. && (n.value >= 0x80000000 ? d >= 0. : d < 0.));
}
VP_CONTRACT(pitch79_roundtrip)
{
    const pitch_7_9 n{ vp::u16() };
    VP_ENSURES(n.as_double() >= 0. && n.as_double() < 128. && pitch_7_9{ n.as_float() }.value == n.value);
    VP_ENSURES(pitch_7_9{ n.as_double() }.value == n.value);
}
VP_CONTRACT(pitch725_roundtrip)
{
    const pitch_7_25 n{ vp::u32() };
    VP_ENSURES(n.as_double() >= 0. && n.as_double() < 128. && pitch_7_25{ n.as_double() }.value == n.value);
}
