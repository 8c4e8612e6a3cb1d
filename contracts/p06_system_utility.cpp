// P06: system and utility messages: factories, views and predicates agree on every field.
#include "vpm.h"
#include <midi/system_message.h>
#include <midi/utility_message.h>
using namespace midi;

VP_CONTRACT(system_factories)
{
    const uint8_t  g = vp::u4(), s = vp::u8(), a = vp::u7(), b = vp::u7();
    const uint16_t pos = vp::u14();
    const uint32_t w = 0x10000000u | uint32_t(g) << 24 | uint32_t(s) << 16 | uint32_t(a) << 8 | b;
    VP_ENSURES(vpm::words(make_system_message(g, s, a, b), w) && vpm::words(system_message(g, s, a, b), w));
    VP_ENSURES(vpm::words(make_system_message(g, s), w & 0xFFFF0000u) && vpm::words(make_system_message(g, s, a), w & 0xFFFFFF00u));
    VP_ENSURES(vpm::words(system_message{}, 0x10000000u));
    const auto sp = make_song_position_message(g, pos);
    VP_ENSURES(vpm::words(sp, 0x10F20000u | uint32_t(g) << 24 | uint32_t(pos & 127) << 8 | pos >> 7));
    VP_ENSURES(system_message_view{ sp }.get_song_position() == pos && system_message_view{ sp }.group() == g && system_message_view{ sp }.status() == 0xF2);
}
VP_CONTRACT(system_view)
{
    const universal_packet p = vpm::any_packet();
    const auto             v = as_system_message_view(p);
    VP_ENSURES(v.has_value() == (p.data[0] >> 28 == 1) && is_system_message(p) == v.has_value());
    if (v)
    {
        VP_ENSURES(v->group() == (vpm::byte(p, 0) & 15) && v->status() == vpm::byte(p, 1) && v->data_byte_1() == (vpm::byte(p, 2) & 127) && v->data_byte_2() == (vpm::byte(p, 3) & 127));
        VP_ENSURES(v->get_song_position() == (v->status() == 0xF2 ? (vpm::byte(p, 2) & 127) + 128 * (vpm::byte(p, 3) & 127) : 0));
    }
}
VP_CONTRACT(utility)
{
    const uint8_t  s = vp::u8();
    const uint16_t d = vp::u16();
    const auto     m = make_utility_message(s, d);
    VP_ENSURES(vpm::words(m, uint32_t(s) << 16 | d) && vpm::words(utility_message(s), uint32_t(s) << 16) && vpm::words(utility_message{}, 0));
    VP_ENSURES(utility_message_view{ m }.status() == s && utility_message_view{ m }.payload() == d);
    const universal_packet p = vpm::any_packet_of_type(0);
    VP_ENSURES(utility_message_view{ p }.status() == vpm::byte(p, 1) && utility_message_view{ p }.payload() == (p.data[0] & 0xFFFF));
}
