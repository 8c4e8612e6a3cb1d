// P13: system exclusive (8 bit) packets: accessors, and cutting messages of any length into packets.
//@opt send.* unroll=2 budget=400
//@opt bounded_.* unroll=30
#include "vpm.h"
#include <midi/extended_data_message.h>
#include <midi/sysex.h>
using namespace midi;

VP_CONTRACT(packet_factories)
{
    const uint8_t  g = vp::u4(), st = vp::u8(), id = vp::u8();
    const uint32_t w = 0x50010000u | uint32_t(g) << 24 | uint32_t(id) << 8;
    VP_ENSURES(vpm::words(extended_data_message{}, 0x50000000u) && vpm::words(extended_data_message(st), 0x50000000u | uint32_t(st) << 16) && vpm::words(sysex8_packet{}, 0x50010000u));
    VP_ENSURES(vpm::words(sysex8_packet(st, id, g), w | uint32_t(st) << 16));
    VP_ENSURES(vpm::words(make_sysex8_complete_packet(id, g), w) && vpm::words(make_sysex8_start_packet(id, g), w | 0x100000u));
    VP_ENSURES(vpm::words(make_sysex8_continue_packet(id, g), w | 0x200000u) && vpm::words(make_sysex8_end_packet(id, g), w | 0x300000u));
}
VP_CONTRACT(packet_view)
{
    const universal_packet p = vpm::any_packet();
    const unsigned         st = vpm::byte(p, 1);
    VP_ENSURES(is_extended_data_message(p) == (p.data[0] >> 28 == 5) && is_sysex8_packet(p) == (is_extended_data_message(p) && st <= 0x3F && (st & 15) >= 1 && (st & 15) <= 14));
    const auto v = as_sysex8_packet_view(p);
    VP_ENSURES(v.has_value() == is_sysex8_packet(p));
    const unsigned b = vp::u8();
    VP_REQUIRES(b < 13);
    if (v) VP_ENSURES(v->group() == (vpm::byte(p, 0) & 15) && v->stream_id() == vpm::byte(p, 2) && unsigned(v->format()) == st >> 4 && v->payload_size() == (st & 15) - 1 && v->payload_byte(b) == vpm::byte(p, 3 + b));
}
VP_CONTRACT(packet_edit)
{
    const uint8_t  x = vp::u8();
    const unsigned b = vp::u8(), n = vp::u8(), i = vp::u4();
    sysex8_packet  p(vp::u8() & 0x3F, vp::u8(), vp::u4());
    p.data[0] |= vp::u8(); p.data[1] = vp::u32(); p.data[2] = vp::u32(); p.data[3] = vp::u32();
    VP_REQUIRES(b < 13 && n <= 13 && vpm::byte(p, 1) % 16 >= 1 && vpm::byte(p, 1) % 16 <= 13);
    sysex8_packet q = p, r = p, s = p, t = p;
    q.set_payload_byte(b, x);
    VP_ENSURES(q.payload_byte(b) == x && (i == 3 + b || vpm::byte(q, i) == vpm::byte(p, i)));
    r.set_payload_size(n);
    VP_ENSURES(r.payload_size() == n && r.format() == p.format() && (i == 1 || vpm::byte(r, i) == vpm::byte(p, i)));
    t.set_stream_id(x);
    VP_ENSURES(t.stream_id() == x && (i == 2 || vpm::byte(t, i) == vpm::byte(p, i)));
    const size_t old = s.payload_size();
    s.add_payload_byte(x);
    VP_ENSURES(s.payload_size() == old + 1 && s.payload_byte(old) == x && s.format() == p.format() && (i == 1 || i == 3 + old || vpm::byte(s, i) == vpm::byte(p, i)));
}

static void any_message(sysex8& s)
{
    const size_t n = vp::len(vp::any);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, 0xFF);
}
// expected packets of message s: two identifier bytes, then the data
struct cut
{
    const sysex8& s;
    size_t        total() const { return s.data.size() + 2; }
    uint8_t       at(size_t i) const
    {
        const bool three = s.manufacturerID & 0xFFFF;
        if (i == 0) return three ? uint8_t(0x80 | s.manufacturerID >> 8) : 0;
        if (i == 1) return three ? uint8_t(s.manufacturerID) : uint8_t(s.manufacturerID >> 16);
        return s.data[i - 2];
    }
    bool is(const universal_packet& m, size_t pos, uint8_t id, uint8_t g) const
    {
        const size_t   left = total() - pos, k = left < 13 ? left : 13;
        const uint32_t st = pos == 0 ? (left <= 13 ? 0 : 1) : (left <= 13 ? 3 : 2);
        bool           ok = (m.data[0] >> 8) == (0x500000u | uint32_t(g) << 16 | st << 12 | uint32_t(k + 1) << 8 | id);
        for (size_t i = 0; i < 13; ++i)
        {
            const uint8_t want = i < k ? at(pos + i) : 0;
            ok                 = ok && vpm::byte(m, 3 + unsigned(i)) == want;
        }
        return ok;
    }
};
static void send(sysex8& s)
{
    const uint8_t g = vp::u4(), id = vp::u8();
    any_message(s);
    const cut c{ s };
    size_t    pos = 0, count = 0;
    send_sysex8(s, id, g, [&](const extended_data_message& m) {
        VP_ENSURES(pos < c.total());
        VP_ENSURES(c.is(m, pos, id, g));
        pos += c.total() - pos < 13 ? c.total() - pos : 13;
        ++count;
    });
    VP_ENSURES(pos == c.total());
    VP_ENSURES(13 * count - c.total() < 13);
}
VP_CONTRACT(send_short_id)
{
    sysex8 s(uint32_t(vp::u7()) << 16);
    send(s);
}
VP_CONTRACT(send_long_id)
{
    sysex8 s(uint32_t(vp::u7()) << 8 | vp::u7());
    VP_REQUIRES(s.manufacturerID);
    send(s);
}
// the vector version holds the same packets (bounded: up to 26 data bytes)
VP_CONTRACT(bounded_packets_vector)
{
    sysex8       s(uint32_t(vp::u7()) << 16);
    const size_t n = vp::len(26);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, 0xFF);
    const cut     c{ s };
    const uint8_t g = vp::u4(), id = vp::u8();
    const auto    v = as_sysex8_packets(s, id, g);
    VP_ENSURES(v.size() == (c.total() + 12) / 13);
    for (size_t k = 0; k < 3; ++k)
        if (k < v.size()) VP_ENSURES(c.is(v[k], 13 * k, id, g));
}
