// P08: flex data messages: every factory has the specified layout, views return what was put in, texts read back.
//@opt text unroll=20
#include "vpm.h"
#include <midi/flex_data_message.h>
using namespace midi;

static packet_format any_format() { return packet_format(vp::u8() & 3); }
static uint32_t      w0(uint32_t g, unsigned f, unsigned a, unsigned c, unsigned bank, unsigned st)
{
    return 0xD0000000u | g << 24 | f << 22 | a << 20 | c << 16 | bank << 8 | st;
}
struct hdr
{
    uint8_t        g = vp::u4(), a = vp::u8() & 1, c = vp::u4(), bank = vp::u8(), st = vp::u8();
    packet_format  f = any_format();
    packet_address addr() const { return packet_address(a); }
    hdr() { VP_REQUIRES(a == 0 || c == 0); } // channel only with channel address (0)
    uint32_t word() const { return w0(g, unsigned(f), a, c, bank, st); }
};

VP_CONTRACT(message)
{
    hdr            h;
    const uint32_t x = vp::u32(), y = vp::u32(), z = vp::u32();
    VP_ENSURES(unsigned(packet_address::channel) == 0 && unsigned(packet_address::group) == 1);
    VP_ENSURES(unsigned(packet_format::complete) == 0 && unsigned(packet_format::start) == 1 && unsigned(packet_format::cont) == 2 && unsigned(packet_format::end) == 3);
    const auto m = make_flex_data_message(h.g, h.f, h.addr(), h.c, h.bank, h.st, x, y, z);
    VP_ENSURES(vpm::words(m, h.word(), x, y, z) && vpm::words(flex_data_message(h.g, h.f, h.addr(), h.c, h.bank, h.st, x, y, z), h.word(), x, y, z));
    VP_ENSURES(vpm::words(make_flex_data_message(h.g, h.f, h.addr(), h.c, h.bank, h.st), h.word()) && vpm::words(flex_data_message(h.g), 0xD0000000u | uint32_t(h.g) << 24) && vpm::words(flex_data_message(), 0xD0000000u));
    VP_ENSURES(m.format() == h.f && m.address() == h.addr() && m.status_bank() == h.bank && m.status() == h.st && m.group() == h.g && m.size() == 4);
    const auto v = as_flex_data_message_view(m);
    VP_ENSURES(v && v->group() == h.g && v->format() == h.f && v->address() == h.addr() && v->channel() == h.c && v->status_bank() == h.bank && v->status() == h.st);
    VP_ENSURES(v && v->data1() == x && v->data2() == y && v->data3() == z);
}
VP_CONTRACT(view)
{
    const universal_packet p = vpm::any_packet();
    const auto             v = as_flex_data_message_view(p);
    VP_ENSURES(is_flex_data_message(p) == (p.data[0] >> 28 == 0xD) && v.has_value() == is_flex_data_message(p));
    if (v)
        VP_ENSURES(v->group() == ((p.data[0] >> 24) & 15) && unsigned(v->format()) == ((p.data[0] >> 22) & 3) && unsigned(v->address()) == ((p.data[0] >> 20) & 3) &&
                   v->channel() == ((p.data[0] >> 16) & 15) && v->status_bank() == vpm::byte(p, 2) && v->status() == vpm::byte(p, 3) && v->data1() == p.data[1] && v->data2() == p.data[2] && v->data3() == p.data[3]);
}
VP_CONTRACT(setup_messages)
{
    const uint8_t g = vp::u4(), a = vp::u8(), b = vp::u8(), c = vp::u8(), d = vp::u8(), e = vp::u8(), f = vp::u8();
    const uint32_t t = vp::u32();
    VP_ENSURES(vpm::words(make_set_tempo_message(g, t), w0(g, 0, 1, 0, 0, 0), t));
    VP_ENSURES(vpm::words(make_set_time_signature_message(g, a, b, c), w0(g, 0, 1, 0, 0, 1), uint32_t(a) << 24 | uint32_t(b) << 16 | uint32_t(c) << 8));
    VP_ENSURES(vpm::words(make_set_metronome_message(g, a, b, c, d, e, f), w0(g, 0, 1, 0, 0, 2), uint32_t(a) << 24 | uint32_t(b) << 16 | uint32_t(c) << 8 | d, uint32_t(e) << 24 | uint32_t(f) << 16));
}
VP_CONTRACT(key_and_chord)
{
    hdr            h;
    const uint8_t  s = vp::u4(), t = vp::u4();
    const uint32_t x = vp::u32(), y = vp::u32(), z = vp::u32();
    VP_ENSURES(vpm::words(make_set_key_signature_message(h.g, h.addr(), h.c, s, t), w0(h.g, 0, h.a, h.c, 0, 5), uint32_t(s) << 28 | uint32_t(t) << 24));
    VP_ENSURES(vpm::words(make_set_chord_message(h.g, h.addr(), h.c, x, y, z), w0(h.g, 0, h.a, h.c, 0, 6), x, y, z));
}
VP_CONTRACT(text)
{
    hdr          h;
    const size_t n = vp::len(12);
    std::string  s;
    s.resize(n);
    __vp_bytes(&s[0], n, 0xFF);
    VP_REQUIRES(h.f == packet_format::complete || h.f == packet_format::end || n == 12);
    bool nonul = true;
    for (size_t i = 0; i < 12; ++i) nonul &= i >= n || s[i] != 0;
    const auto m  = make_flex_data_text_message(h.g, h.f, h.addr(), h.c, h.bank, h.st, s);
    bool       ok = m.data[0] == h.word();
    for (unsigned i = 0; i < 12; ++i)
    {
        const uint8_t want = i < n ? uint8_t(s[i]) : 0;
        ok &= vpm::byte(m, 4 + i) == want;
    }
    VP_ENSURES(ok);
    if (nonul) VP_ENSURES(m.payload_as_string() == s && as_flex_data_message_view(m)->payload_as_string() == s);
}
// the text of an arbitrary packet is the longest NUL-free prefix of its twelve payload bytes
VP_CONTRACT(text_of_any_packet)
{
    const universal_packet p = vpm::any_packet_of_type(0xD);
    const std::string      s = flex_data_message::payload_as_string(p);
    unsigned               n = 0;
    while (n < 12 && vpm::byte(p, 4 + n) != 0) ++n;
    VP_ENSURES(s.size() == n);
    const unsigned k = vp::u4();
    if (k < n) VP_ENSURES(uint8_t(s[k]) == vpm::byte(p, 4 + k));
}
