// P16: what is sent arrives: packets to MIDI 1 bytes and back, system exclusive messages through packets, collectors and bytes.
// The end to end contracts bound the message length (stated below); for any length they follow from P12/P13 (exact packets),
// P14/P15 (collectors, every packet sequence), to_bytes below and P11 (parser, every byte sequence).
//@opt bounded_.* unroll=80 budget=200
#include "vpm.h"
#include <midi/data_message.h>
#include <midi/extended_data_message.h>
#include <midi/midi1_byte_stream.h>
#include <midi/sysex_collector.h>
using namespace midi;

// number of MIDI 1 bytes of a channel voice or system status, 0 if there is no such message
static unsigned bytes_of(unsigned type, unsigned s)
{
    if (type == 2) return s < 0x80 || s >= 0xF0 ? 0 : (s & 0xE0) == 0xC0 ? 2 : 3;
    if (type == 1) return s == 0xF2 ? 3 : s == 0xF1 || s == 0xF3 ? 2 : s == 0xF6 || s == 0xF8 || (s >= 0xFA && s != 0xFD) ? 1 : 0;
    return 0;
}
VP_CONTRACT(to_bytes)
{
    const universal_packet p = vpm::any_packet();
    const unsigned         t = p.data[0] >> 28, s = vpm::byte(p, 1);
    uint8_t                out[8], old[8];
    __vp_bytes(out, 8, 0xFF);
    for (unsigned i = 0; i < 8; ++i) old[i] = out[i];
    VP_REQUIRES(t != 1 || s >= 0xF0);
    const size_t n = to_midi1_byte_stream(p, out);
    if (t == 3 && s <= 0x3F && (s & 15) <= 6)
    {
        const unsigned k = s & 15, f = s >> 4, lead = f <= 1, trail = f == 0 || f == 3;
        VP_ENSURES(midi1_byte_stream_size(p) == k && n == lead + k + trail);
        VP_ENSURES(!lead || out[0] == 0xF0);
        for (unsigned i = 0; i < 6; ++i) VP_ENSURES(i >= k || out[lead + i] == vpm::byte(p, 2 + i));
        VP_ENSURES(!trail || out[n - 1] == 0xF7);
    }
    else
    {
        VP_ENSURES(n == bytes_of(t, s) && midi1_byte_stream_size(p) == n);
        for (unsigned i = 0; i < 3; ++i) VP_ENSURES(i >= n || out[i] == vpm::byte(p, 1 + i));
    }
    for (unsigned i = 0; i < 8; ++i) VP_ENSURES(i < n || out[i] == old[i]);
}
VP_CONTRACT(from_bytes)
{
    const uint8_t  s = vp::u8(), d1 = vp::u7(), d2 = vp::u7();
    const auto     p = from_midi1_byte_stream(s, d1, d2);
    const unsigned t = s < 0x80 ? 0 : s < 0xF0 ? 2 : 1;
    VP_ENSURES(vpm::words(p, bytes_of(t, s) ? uint32_t(t) << 28 | uint32_t(s) << 16 | uint32_t(d1) << 8 | d2 : 0));
}
// every MIDI 1 message: to bytes and through a parser in any idle state it is the same packet
VP_CONTRACT(packet_bytes_packet)
{
    const unsigned t = vp::flag() ? 1 : 2, s = vp::u8(), n = bytes_of(t, s);
    const uint8_t  g = vp::u4(), d1 = vp::u7(), d2 = vp::u7();
    VP_REQUIRES(n > 0);
    universal_packet p;
    p.data[0] = uint32_t(t) << 28 | uint32_t(g) << 24 | uint32_t(s) << 16 | (n > 1 ? uint32_t(d1) << 8 : 0) | (n > 2 ? d2 : 0);
    uint8_t  b[8];
    unsigned calls = 0; bool same = true;
    midi1_byte_stream_parser r(g, [&](universal_packet x) { ++calls; same = same && x == p && vpm::words(x, p.data[0]); });
    r.feed(b, to_midi1_byte_stream(p, b));
    VP_ENSURES(calls == 1 && same);
    r.feed(b, b + to_midi1_byte_stream(p, b));
    VP_ENSURES(calls == 2 && same);
    if (t == 2) // running status
    {
        r.feed(b + 1, n - 1);
        VP_ENSURES(calls == 3 && same);
    }
}
// feeding a block is feeding its bytes in order: with running status every data byte of the block posts one packet
VP_CONTRACT(feed_block)
{
    const size_t n = vp::len(vp::any);
    std::vector<uint8_t> v(n);
    __vp_bytes(v.data(), n, 0x7F);
    const uint8_t g = vp::u4(), c = 0xC0 | vp::u4();
    size_t k = 0;
    midi1_byte_stream_parser r(g, [&](universal_packet x) {
        VP_ENSURES(k < n);
        VP_ENSURES(vpm::words(x, 0x20000000u | uint32_t(g) << 24 | uint32_t(c) << 16 | uint32_t(v[k]) << 8));
        ++k;
    });
    r.feed(c);
    if (vp::flag()) r.feed(v.data(), n);
    else            r.feed(v.data(), v.data() + n);
    VP_ENSURES(k == n);
}
// any three bytes: the same packets as feeding them one by one
VP_CONTRACT(bounded_feed_block)
{
    uint8_t v[3];
    __vp_bytes(v, 3, 0xFF);
    universal_packet a[4], b[4];
    unsigned na = 0, nb = 0;
    midi1_byte_stream_parser r([&](universal_packet x) { if (na < 4) a[na] = x; ++na; });
    midi1_byte_stream_parser q([&](universal_packet x) { if (nb < 4) b[nb] = x; ++nb; });
    r.feed(v, 3);
    for (unsigned i = 0; i < 3; ++i) q.feed(v[i]);
    VP_ENSURES(na == nb && na <= 4);
    for (unsigned i = 0; i < 4; ++i) VP_ENSURES(vpm::words(a[i], b[i].data[0], b[i].data[1]));
}
static void any_message(sysex& s, uint8_t mask, size_t max)
{
    const size_t n = vp::len(max);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, mask);
}
static void through_collector7(sysex7& s)
{
    any_message(s, 0x7F, 60);
    unsigned calls = 0; bool same = false;
    sysex7_collector c([&](const sysex7& r) { ++calls; same = r.manufacturerID == s.manufacturerID && r.data == s.data; });
    send_sysex7(s, vp::u4(), [&](const data_message& m) { VP_ENSURES(calls == 0); c.feed(m); });
    VP_ENSURES(calls == 1 && same);
}
VP_CONTRACT(bounded_collector7_message)
{
    sysex7 s(uint32_t(vp::u7()) << 16);
    VP_REQUIRES(s.manufacturerID);
    through_collector7(s);
}
VP_CONTRACT(bounded_collector7_long_message)
{
    sysex7 s(uint32_t(vp::u7()) << 8 | vp::u7());
    VP_REQUIRES(s.manufacturerID);
    through_collector7(s);
}
VP_CONTRACT(bounded_collector8_message)
{
    sysex8 s(vp::flag() ? uint32_t(vp::u7()) << 16 : uint32_t(vp::u7()) << 8 | vp::u7());
    VP_REQUIRES(s.manufacturerID);
    any_message(s, 0xFF, 60);
    const uint8_t id = vp::u8();
    unsigned calls = 0; bool same = false;
    sysex8_collector c([&](const sysex8& r, uint8_t stream) { ++calls; same = r.manufacturerID == s.manufacturerID && r.data == s.data && stream == id; });
    send_sysex8(s, id, vp::u4(), [&](const extended_data_message& m) { VP_ENSURES(calls == 0); c.feed(m); });
    VP_ENSURES(calls == 1 && same);
}
static void through_bytes7(sysex7& s)
{
    any_message(s, 0x7F, 60);
    unsigned calls = 0; bool same = false;
    midi1_byte_stream_parser p([&](universal_packet) { VP_ENSURES(false); }, [&](const sysex7& r) { ++calls; same = r.manufacturerID == s.manufacturerID && r.data == s.data; });
    send_sysex7(s, vp::u4(), [&](const data_message& m) {
        VP_ENSURES(calls == 0);
        uint8_t b[8];
        p.feed(b, to_midi1_byte_stream(m, b));
    });
    VP_ENSURES(calls == 1 && same);
}
VP_CONTRACT(bounded_bytes7_message)
{
    sysex7 s(uint32_t(vp::u7()) << 16);
    VP_REQUIRES(s.manufacturerID);
    through_bytes7(s);
}
VP_CONTRACT(bounded_bytes7_long_message)
{
    sysex7 s(uint32_t(vp::u7()) << 8 | vp::u7());
    VP_REQUIRES(s.manufacturerID);
    through_bytes7(s);
}
