// P10: MIDI 1 byte stream parser, packet mode: whatever bytes arrive, the packets posted are exactly the messages of the stream.
//@opt .*history budget=300 join=1
#include "vpm.h"
#include <midi/midi1_byte_stream.h>
using namespace midi;

// reference machine over bytes: what has to be posted for the next byte
struct machine
{
    uint8_t  group;
    bool     sysex = false, first = true; // system exclusive running; no packet of it posted yet
    uint8_t  status = 0;                  // (running) status of the message being collected
    unsigned n = 0;                       // bytes collected
    uint8_t  d[6] = { 0, 0, 0, 0, 0, 0 };
    // what to expect
    bool     post = false;
    uint32_t w0 = 0, w1 = 0;

    explicit machine(uint8_t g) : group(g) {}
    void system(uint8_t s, uint8_t d1 = 0, uint8_t d2 = 0) { post = true; w0 = 0x10000000u | uint32_t(group) << 24 | uint32_t(s) << 16 | uint32_t(d1) << 8 | d2; w1 = 0; }
    void voice(uint8_t s, uint8_t d1, uint8_t d2) { system(s, d1, d2); w0 += 0x10000000u; }
    void packet(unsigned format)
    {
        post = true;
        w0 = 0x30000000u | uint32_t(group) << 24 | format << 20 | n << 16 | uint32_t(d[0]) << 8 | d[1];
        w1 = uint32_t(d[2]) << 24 | uint32_t(d[3]) << 16 | uint32_t(d[4]) << 8 | d[5];
    }
    void forget() { post = false; w0 = w1 = 0; }
    void clear() { n = 0; d[0] = d[1] = d[2] = d[3] = d[4] = d[5] = 0; }
    static unsigned need(uint8_t s)
    {
        if (s < 0xF0) return (s & 0xE0) == 0xC0 ? 1 : 2;
        return s == 0xF2 ? 2 : (s == 0xF1 || s == 0xF3) ? 1 : 0;
    }
    void feed(uint8_t b)
    {
        if (b >= 0xF8)
        {
            if (b != 0xF9 && b != 0xFD) system(b);
            return;
        }
        if (b < 0x80)
        {
            if (sysex)
            {
                d[n++] = b;
                if (n == 6) { packet(first ? 1 : 2); first = false; clear(); }
            }
            else if (status)
            {
                d[n++] = b;
                if (n == need(status))
                {
                    if (status < 0xF0) voice(status, d[0], d[1]);
                    else { system(status, d[0], d[1]); status = 0; }
                    clear();
                }
            }
            return;
        }
        if (sysex && b == 0xF7 && !(first && n == 0)) packet(first ? 0 : 3);
        sysex = b == 0xF0; first = true; status = 0;
        clear();
        if (b == 0xF6) system(b);
        else if (b < 0xF0 || need(b)) status = b;
    }
};

static uint8_t any_byte() { return uint8_t(vp::word(0x80u, 0)); }

VP_CONTRACT(packet_history)
{
    machine  m(vp::u4());
    unsigned calls = 0;
    universal_packet got;
    midi1_byte_stream_parser p(m.group, [&](universal_packet x) { ++calls; got = x; });
    __vp_history();
    while (vp::more())
    {
        if (!vp::more()) { p.reset(); m.sysex = false; m.status = 0; m.clear(); continue; }
        const uint8_t b = any_byte();
        m.feed(b);
        p.feed(b);
        VP_ENSURES(calls == (m.post ? 1 : 0));
        VP_ENSURES(!m.post || vpm::words(got, m.w0, m.w1));
        m.forget(); got = {}; calls = 0;
    }
}
// callbacks can be switched off and on at any time: what is posted meanwhile is lost, nothing else changes
VP_CONTRACT(muted_history)
{
    machine  m(0);
    unsigned calls = 0;
    universal_packet got;
    midi1_byte_stream_parser p([&](universal_packet x) { ++calls; got = x; });
    VP_ENSURES(p.callbacks_enabled() && p.group() == 0);
    m.group = vp::u4();
    p.set_group(m.group);
    VP_ENSURES(p.group() == m.group);
    __vp_history();
    while (vp::more())
    {
        const bool    on = vp::more();
        const uint8_t b = any_byte();
        p.enable_callbacks(on);
        m.feed(b);
        p.feed(b);
        VP_ENSURES(calls == (m.post && on ? 1 : 0) && p.callbacks_enabled() == on);
        VP_ENSURES(calls == 0 || vpm::words(got, m.w0, m.w1));
        p.enable_callbacks(true);
        m.forget(); got = {}; calls = 0;
    }
}
