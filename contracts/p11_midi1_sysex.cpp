// P11: MIDI 1 byte stream parser, callback mode for system exclusive: whatever bytes arrive, exactly the messages of the stream
// are delivered; and packets turned into bytes and parsed again are the same packets.
//@opt .*history budget=300 join=1
#include "vpm.h"
#include <midi/midi1_byte_stream.h>
using namespace midi;

static uint8_t any_byte() { return uint8_t(vp::word(0x80u, 0)); }

// reference: collects the bytes between F0 and F7
struct collector
{
    enum { IDLE, SKIP, RUN } state = IDLE;
    unsigned             idb = 0; // identifier bytes seen
    uint32_t             id = 0;
    std::vector<uint8_t> data;
    void clear() { state = IDLE; idb = 0; id = 0; data.clear(); }
    // true when the byte completes a message
    bool feed(uint8_t b, bool on)
    {
        if (b >= 0xF8) return false;
        if (b < 0x80)
        {
            if (state != RUN) return false;
            if (idb == 0)      { id = uint32_t(b) << 16; idb = b ? 3 : 1; }
            else if (idb == 1) { id |= uint32_t(b) << 8; idb = 2; }
            else if (idb == 2) { id |= b; idb = 3; }
            else               data.push_back(b);
            return false;
        }
        if (b == 0xF7) return state == RUN && idb == 3;
        clear();
        if (b == 0xF0) state = on ? RUN : SKIP;
        return false;
    }
};

VP_CONTRACT(callback_history)
{
    collector c;
    unsigned  calls = 0, packets = 0;
    bool      same = true;
    midi1_byte_stream_parser p(vp::u4(), [&](universal_packet x) { packets += x.type() == packet_type::data; },
                               [&](const sysex7& s) { ++calls; same = s.manufacturerID == c.id && s.data == c.data; });
    __vp_history();
    while (vp::more())
    {
        const bool on = vp::more();
        p.enable_callbacks(on);
        if (!vp::more()) { p.reset(); c.clear(); p.enable_callbacks(true); continue; }
        const uint8_t b = any_byte();
        const bool done = c.feed(b, on);
        p.feed(b);
        VP_ENSURES(calls == (done && on ? 1 : 0) && packets == 0);
        VP_ENSURES(same);
        if (b == 0xF7) c.clear();
        calls = 0;
        p.enable_callbacks(true);
    }
}
