// P04: packet accessors: every setter changes exactly its field, every getter reads it back, packet sizes follow the UMP table.
#include "vpm.h"
using namespace midi;

VP_CONTRACT(set_get_byte)
{
    const universal_packet o = vpm::any_packet();
    const size_t           i = vp::u8() & 15, k = vp::u8() & 15;
    const uint8_t          v = vp::u8();
    universal_packet       p = o;
    p.set_byte(i, v);
    VP_ENSURES(p.get_byte(i) == v);
    VP_ENSURES(k == i || p.get_byte(k) == o.get_byte(k));
    VP_ENSURES(o.get_byte(k) == vpm::byte(o, k) && p.get_byte(k) == (k == i ? v : vpm::byte(o, k)));
    VP_ENSURES(o.get_byte_7bit(k) == (vpm::byte(o, k) & 0x7F));
    universal_packet q = o;
    q.set_byte_7bit(i, v);
    VP_ENSURES(q.get_byte(i) == (v & 0x7F) && (k == i || q.get_byte(k) == o.get_byte(k)));
}
VP_CONTRACT(set_byte_out_of_range)
{
    const universal_packet o = vpm::any_packet();
    const size_t           i = vp::u64();
    VP_REQUIRES(i >= 16);
    universal_packet p = o;
    p.set_byte(i, vp::u8());
    VP_ENSURES(vpm::words(p, o.data[0], o.data[1], o.data[2], o.data[3]));
}
VP_CONTRACT(fields)
{
    const universal_packet o = vpm::any_packet();
    VP_ENSURES(unsigned(o.type()) == vpm::byte(o, 0) >> 4 && o.group() == (vpm::byte(o, 0) & 15));
    VP_ENSURES(o.status() == vpm::byte(o, 1) && o.byte2() == vpm::byte(o, 1) && o.byte3() == vpm::byte(o, 2) && o.byte4() == vpm::byte(o, 3));
    const unsigned t = unsigned(o.type());
    VP_ENSURES(o.has_channel() == (t == 2 || t == 4 || t == 0xD));
    VP_ENSURES(o.has_channel() ? o.channel() == (vpm::byte(o, 1) & 15) : true);
    VP_ENSURES(o.is_utility_message() == (t == 0) && o.is_system_message() == (t == 1) && o.is_channel_voice_message() == (t == 2 || t == 4) && o.is_data_message() == (t == 3 || t == 5));
    const uint8_t s = o.status();
    VP_ENSURES(o.is_midi1_protocol_message() == ((t == 2 && s >= 0x80 && s <= 0xEF) ||
        (t == 1 && (s == 0xF1 || s == 0xF2 || s == 0xF3 || s == 0xF6 || s == 0xF8 || s == 0xFA || s == 0xFB || s == 0xFC || s == 0xFE || s == 0xFF))));
    // UMP table: message type -> words
    const size_t w = t <= 2 || t == 6 || t == 7 ? 1 : t == 3 || t == 4 || (t >= 8 && t <= 10) ? 2 : t == 11 || t == 12 ? 3 : 4;
    VP_ENSURES(o.size() == w);
}
VP_CONTRACT(set_type_group)
{
    const universal_packet o = vpm::any_packet();
    const uint8_t          t = vp::u4(), g = vp::u4();
    universal_packet       p = o, q = o;
    p.set_type(packet_type(t));
    VP_ENSURES(vpm::words(p, (o.data[0] & 0x0FFFFFFFu) | uint32_t(t) << 28, o.data[1], o.data[2], o.data[3]) && unsigned(p.type()) == t && p.group() == o.group());
    q.set_group(g);
    VP_ENSURES(vpm::words(q, (o.data[0] & 0xF0FFFFFFu) | uint32_t(g) << 24, o.data[1], o.data[2], o.data[3]) && q.group() == g && q.type() == o.type());
    q.reset();
    VP_ENSURES(vpm::words(q, 0) && vpm::words(universal_packet{}, 0));
    const uint32_t a = vp::u32(), b = vp::u32(), c = vp::u32(), d = vp::u32();
    VP_ENSURES(vpm::words(universal_packet{ a }, a) && vpm::words(universal_packet{ a, b }, a, b));
    VP_ENSURES(vpm::words(universal_packet{ a, b, c }, a, b, c) && vpm::words(universal_packet{ a, b, c, d }, a, b, c, d));
}
VP_CONTRACT(equality)
{
    const universal_packet p = vpm::any_packet(), q = vpm::any_packet(), r = vpm::any_packet();
    bool                   same = p.data[0] == q.data[0];
    if (p.size() > 1) same = same && p.data[1] == q.data[1];
    if (p.size() > 2) same = same && p.data[2] == q.data[2];
    if (p.size() > 3) same = same && p.data[3] == q.data[3];
    VP_ENSURES((p == q) == same && (p != q) == !same);
    VP_ENSURES((q == p) == same);
    VP_ENSURES(p == p && !(p != p));
    VP_ENSURES((p == q) && (q == r) ? p == r : true);
}
