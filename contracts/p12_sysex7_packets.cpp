// P12: system exclusive (7 bit) packets: accessors, and cutting messages of any length into packets.
//@opt send.* unroll=2 budget=120
//@opt bounded_.* unroll=30
#include "vpm.h"
#include <midi/data_message.h>
#include <midi/sysex.h>
using namespace midi;

VP_CONTRACT(packet_factories)
{
    const uint8_t g = vp::u4(), st = vp::u8();
    VP_ENSURES(vpm::words(data_message{}, 0x30000000u) && vpm::words(data_message(st), 0x30000000u | uint32_t(st) << 16) && vpm::words(sysex7_packet{}, 0x30000000u));
    VP_ENSURES(vpm::words(sysex7_packet(st, g), 0x30000000u | uint32_t(g) << 24 | uint32_t(st) << 16));
    VP_ENSURES(vpm::words(make_sysex7_complete_packet(g), 0x30000000u | uint32_t(g) << 24) && vpm::words(make_sysex7_start_packet(g), 0x30100000u | uint32_t(g) << 24));
    VP_ENSURES(vpm::words(make_sysex7_continue_packet(g), 0x30200000u | uint32_t(g) << 24) && vpm::words(make_sysex7_end_packet(g), 0x30300000u | uint32_t(g) << 24));
}
VP_CONTRACT(packet_view)
{
    const universal_packet p = vpm::any_packet();
    const unsigned         st = vpm::byte(p, 1);
    VP_ENSURES(is_data_message(p) == (p.data[0] >> 28 == 3) && is_sysex7_packet(p) == (is_data_message(p) && st <= 0x3F && (st & 15) <= 6));
    const auto v = as_sysex7_packet_view(p);
    VP_ENSURES(v.has_value() == is_sysex7_packet(p));
    const unsigned b = vp::u8();
    VP_REQUIRES(b < 6);
    if (v) VP_ENSURES(v->group() == (vpm::byte(p, 0) & 15) && v->status() == (st & 0xF0) && unsigned(v->format()) == st >> 4 && v->payload_size() == (st & 15) && v->payload_byte(b) == vpm::byte(p, 2 + b));
}
VP_CONTRACT(packet_edit)
{
    const uint8_t  x = vp::u7();
    const unsigned b = vp::u8(), n = vp::u8(), i = vp::u4();
    sysex7_packet  p(vp::u8() & 0x36, vp::u4());
    p.data[0] |= vp::u16(); p.data[1] = vp::u32();
    VP_REQUIRES(b < 6 && n <= 6 && p.payload_size() < 6);
    sysex7_packet q = p, r = p, s = p;
    q.set_payload_byte(b, x);
    VP_ENSURES(q.payload_byte(b) == x && (i == 2 + b || vpm::byte(q, i) == vpm::byte(p, i)));
    r.set_payload_size(n);
    VP_ENSURES(r.payload_size() == n && r.format() == p.format() && (i == 1 || vpm::byte(r, i) == vpm::byte(p, i)));
    const size_t old = s.payload_size();
    s.add_payload_byte(x);
    VP_ENSURES(s.payload_size() == old + 1 && s.payload_byte(old) == x && s.format() == p.format() && (i == 1 || i == 2 + old || vpm::byte(s, i) == vpm::byte(p, i)));
}

static void any_message(sysex7& s)
{
    const size_t n = vp::len(vp::any);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, 0x7F);
}
// expected packet number j (first data position pos) of message s
struct cut
{
    const sysex7& s;
    size_t        id;
    size_t        total() const { return s.data.size() + id; }
    uint8_t       at(size_t i) const
    {
        if (i >= id) return s.data[i - id];
        return uint8_t(s.manufacturerID >> (16 - 8 * i));
    }
    bool is(const universal_packet& m, size_t pos, uint8_t g) const
    {
        const size_t   left = total() - pos, k = left < 6 ? left : 6;
        const uint32_t st = pos == 0 ? (left <= 6 ? 0 : 1) : (left <= 6 ? 3 : 2);
        bool           ok = (m.data[0] >> 16) == (0x3000u | uint32_t(g) << 8 | st << 4 | k) && m.data[2] == 0 && m.data[3] == 0;
        for (size_t i = 0; i < 6; ++i)
        {
            const uint8_t want = i < k ? at(pos + i) : 0;
            ok                 = ok && vpm::byte(m, 2 + unsigned(i)) == want;
        }
        return ok;
    }
};
static void send(sysex7& s, size_t id)
{
    const uint8_t g = vp::u4();
    any_message(s);
    const cut c{ s, id };
    size_t    pos = 0, count = 0;
    send_sysex7(s, g, [&](const data_message& m) {
        VP_ENSURES(pos < c.total());
        VP_ENSURES(c.is(m, pos, g));
        pos += c.total() - pos < 6 ? c.total() - pos : 6;
        ++count;
    });
    VP_ENSURES(pos == c.total());
    VP_ENSURES(6 * count - c.total() < 6);
}
VP_CONTRACT(send_short_id)
{
    sysex7 s(uint32_t(vp::u7()) << 16);
    VP_REQUIRES(s.manufacturerID);
    send(s, 1);
}
VP_CONTRACT(send_long_id)
{
    sysex7 s(uint32_t(vp::u7()) << 8 | vp::u7());
    VP_REQUIRES(s.manufacturerID);
    send(s, 3);
}
// the vector version holds the same packets (bounded: up to 20 data bytes)
VP_CONTRACT(bounded_packets_vector)
{
    sysex7 s(uint32_t(vp::u7()) << 16);
    VP_REQUIRES(s.manufacturerID);
    const size_t n = vp::len(20);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, 0x7F);
    const cut     c{ s, 1 };
    const uint8_t g = vp::u4();
    const auto    v = as_sysex7_packets(s, g);
    VP_ENSURES(v.size() == (c.total() + 5) / 6);
    for (size_t k = 0; k < 4; ++k)
        if (k < v.size()) VP_ENSURES(c.is(v[k], 6 * k, g));
}
