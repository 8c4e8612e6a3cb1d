// P01: resolution changes (7/14/16/32 bit) are lossless round trips, monotonic and keep minimum, centre and maximum.
#include "vp.h"
#include <midi/types.h>
using namespace midi;
//@opt generic.* unroll=40
//@opt spec.* unroll=40

// reference: min-center-max scaling of the MIDI 2.0 bit scaling recommendation, bit by bit
static uint32_t ref_up(uint32_t v, unsigned x, unsigned y)
{
    const unsigned scale = y - x;
    uint32_t       r     = scale >= 32 ? 0 : v << scale;
    if (v > (uint32_t(1) << (x - 1)))
        for (unsigned k = 0; k < scale; ++k)
            r |= ((v >> (x - 2 - k % (x - 1))) & 1u) << (scale - 1 - k);
    return r;
}

VP_CONTRACT(up_7_16)
{
    const uint8_t a = vp::u7(), b = vp::u7();
    const auto    ua = upsample_7_to_16bit(a), ub = upsample_7_to_16bit(b);
    VP_ENSURES(downsample_16_to_7bit(ua) == a);
    VP_ENSURES(a < b ? ua < ub : true);
    VP_ENSURES(a == 0 ? ua == 0 : true);
    VP_ENSURES(a == 64 ? ua == 0x8000 : true);
    VP_ENSURES(a == 127 ? ua == 0xFFFF : true);
    VP_ENSURES(ua == ref_up(a, 7, 16));
    VP_ENSURES(ua == upsample_x_to_ybit(a, 7, 16));
    VP_ENSURES(velocity{ uint7_t(a) }.value == ua && velocity{ uint7_t(a) }.as_uint7() == a);
}

VP_CONTRACT(up_7_32)
{
    const uint8_t a = vp::u7(), b = vp::u7();
    const auto    ua = upsample_7_to_32bit(a), ub = upsample_7_to_32bit(b);
    VP_ENSURES(downsample_32_to_7bit(ua) == a);
    VP_ENSURES(a < b ? ua < ub : true);
    VP_ENSURES(a == 0 ? ua == 0 : true);
    VP_ENSURES(a == 64 ? ua == 0x80000000u : true);
    VP_ENSURES(a == 127 ? ua == 0xFFFFFFFFu : true);
    VP_ENSURES(ua == ref_up(a, 7, 32));
    VP_ENSURES(ua == upsample_x_to_ybit(a, 7, 32));
    VP_ENSURES(controller_value{ uint7_t(a) }.value == ua && controller_value{ uint7_t(a) }.as_uint7() == a);
}

VP_CONTRACT(up_14_32)
{
    const uint16_t a = vp::u14(), b = vp::u14();
    const auto     ua = upsample_14_to_32bit(a), ub = upsample_14_to_32bit(b);
    VP_ENSURES(downsample_32_to_14bit(ua) == a);
    VP_ENSURES(a < b ? ua < ub : true);
    VP_ENSURES(a == 0 ? ua == 0 : true);
    VP_ENSURES(a == 8192 ? ua == 0x80000000u : true);
    VP_ENSURES(a == 16383 ? ua == 0xFFFFFFFFu : true);
    VP_ENSURES(ua == ref_up(a, 14, 32));
    VP_ENSURES(ua == upsample_x_to_ybit(a, 14, 32));
    VP_ENSURES(controller_value{ uint14_t(a) }.value == ua && controller_value{ uint14_t(a) }.as_uint14() == a);
    VP_ENSURES(pitch_bend{ uint14_t(a) }.value == ua && pitch_bend{ uint14_t(a) }.as_uint14() == a);
}

VP_CONTRACT(down)
{
    const uint32_t v = vp::u32(), w = vp::u32();
    VP_ENSURES(downsample_32_to_7bit(v) == v / (1u << 25) && downsample_32_to_14bit(v) == v / (1u << 18));
    VP_ENSURES(downsample_16_to_7bit(uint16_t(v)) == uint16_t(v) / 512);
    VP_ENSURES(v <= w ? downsample_32_to_7bit(v) <= downsample_32_to_7bit(w) : true);
    VP_ENSURES(v <= w ? downsample_32_to_14bit(v) <= downsample_32_to_14bit(w) : true);
    VP_ENSURES(velocity{ uint16_t(v) }.value == uint16_t(v) && velocity{ uint16_t(v) }.as_uint7() == uint16_t(v) >> 9);
    VP_ENSURES(controller_value{ v }.value == v && controller_value{ v }.as_uint7() == v >> 25 && controller_value{ v }.as_uint14() == v >> 18);
    VP_ENSURES(pitch_bend{ v }.value == v && pitch_bend{ v }.as_uint14() == v >> 18);
    VP_ENSURES(velocity{}.value == 0x8000 && pitch_bend{}.value == 0x80000000u && controller_value{}.value == 0);
    pitch_bend pb{ v };
    pb.reset();
    VP_ENSURES(pb == pitch_bend{});
    VP_ENSURES((velocity{ uint16_t(v) } == velocity{ uint16_t(w) }) == (uint16_t(v) == uint16_t(w)));
    VP_ENSURES((velocity{ uint16_t(v) } != velocity{ uint16_t(w) }) == (uint16_t(v) != uint16_t(w)));
    VP_ENSURES((pitch_bend{ v } == pitch_bend{ w }) == (v == w) && (pitch_bend{ v } != pitch_bend{ w }) == (v != w));
    VP_ENSURES((controller_value{ v } == controller_value{ w }) == (v == w) && (controller_value{ v } != controller_value{ w }) == (v != w));
}

// generic scaler, every source width X and every wider target width
//@opt generic.* variant="B"
static void generic(unsigned x)
{
    const uint8_t y = vp::u8();
    VP_REQUIRES(y > x && y <= 32);
    const uint32_t a = vp::u32(), b = vp::u32();
    VP_REQUIRES((a >> x) == 0 && (b >> x) == 0);
    const uint32_t ua = upsample_x_to_ybit(a, uint8_t(x), y);
    VP_ENSURES((ua >> (y - x)) == a);                        // plain truncation gets the value back
    VP_ENSURES(a == 0 ? ua == 0 : true);
    VP_ENSURES(a == (1u << (x - 1)) ? ua == (1u << (y - 1)) : true);
    VP_ENSURES(a == (1u << x) - 1 ? ua == (y == 32 ? 0xFFFFFFFFu : (1u << y) - 1) : true);
    VP_ENSURES(a < b ? ua < upsample_x_to_ybit(b, uint8_t(x), y) : true);
}
static void spec(unsigned x)
{
    const uint8_t y = vp::u8();
    VP_REQUIRES(y > x && y <= 32);
    const uint32_t a = vp::u32();
    VP_REQUIRES((a >> x) == 0);
    VP_ENSURES(upsample_x_to_ybit(a, uint8_t(x), y) == ref_up(a, x, y));
}
#define G(x) VP_CONTRACT(generic_##x) { generic(x); } VP_CONTRACT(spec_##x) { spec(x); }
G(2) G(3) G(4) G(5) G(6) G(7) G(8) G(9) G(10) G(11) G(12) G(13) G(14) G(15) G(16) G(17) G(18) G(19) G(20) G(21) G(22) G(23)
G(24) G(25) G(26) G(27) G(28) G(29) G(30) G(31)
