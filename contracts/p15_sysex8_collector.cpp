// P15: sysex8_collector. Whatever packets are fed in whatever order, every delivered message is exactly the one described by
// the packets of its stream since the last start/complete packet, oversized messages are dropped and leave nothing behind.
//@opt .* budget=520 join=1
#include "vpm.h"
#include <midi/sysex_collector.h>
#include <midi/extended_data_message.h>
using namespace midi;

// reference assembler over raw packet words
struct ghost8
{
    bool                 active = false;
    uint8_t              stream = 0;
    enum { NONE, LONG, SHORT, BAD, DONE } idb = NONE; // what the first identifier byte said
    uint32_t             id     = 0;
    std::vector<uint8_t> data;

    void clear() { active = false; stream = 0; idb = NONE; id = 0; data.clear(); }
    bool feed(const universal_packet& p, size_t limit)
    {
        if (vpm::byte(p, 0) >> 4 != 5) return false;
        const unsigned st = vpm::byte(p, 1) >> 4, n1 = vpm::byte(p, 1) & 15;
        if (st > 3 || n1 < 1 || n1 > 14) return false;
        const unsigned n = n1 - 1;
        if (st <= 1) { clear(); active = true; stream = vpm::byte(p, 2); }
        else if (!active || stream != vpm::byte(p, 2)) return false;
        if (limit != 0 && data.size() + n > limit) { clear(); return false; }
        for (unsigned i = 0; i < n; ++i)
        {
            const uint8_t b = vpm::byte(p, 3 + i);
            if (idb == NONE)
            {
                if (b & 0x80)    { id = uint32_t(b & 0x7F) << 8; idb = LONG; }
                else if (b == 0) { id = 0; idb = SHORT; }
                else             { id = 0; idb = BAD; }
            }
            else if (idb == LONG)  { id |= b & 0x7F; idb = DONE; }
            else if (idb == SHORT) { id = uint32_t(b & 0x7F) << 16; idb = DONE; }
            else if (idb == BAD)   idb = DONE;
            else data.push_back(b);
        }
        return st == 0 || st == 3;
    }
};

VP_CONTRACT(collect8_history)
{
    ghost8 g;
    unsigned calls = 0; bool same = true;
    sysex8_collector c([&](const sysex8& s, uint8_t stream) {
        ++calls;
        same = s.manufacturerID == g.id && s.data == g.data && stream == g.stream;
    });
    __vp_history();
    while (vp::more())
    {
        if (!vp::more()) { c.reset(); g.clear(); continue; }
        auto p = vpm::any_packet();
        p.data[0] = vp::word(0xF0C8FE00u, 0x50000000u);
        const bool done = g.feed(p, 0);
        c.feed(p);
        VP_ENSURES(calls == (done ? 1 : 0));
        VP_ENSURES(same);
        if (done) g.clear();
        calls = 0;
    }
}
VP_CONTRACT(collect8_limited)
{
    ghost8 g;
    const size_t limit = vp::len(0xFFFFFFFFu);
    VP_REQUIRES(limit != 0);
    unsigned calls = 0; bool same = true;
    sysex8_collector c([&](const sysex8& s, uint8_t stream) {
        ++calls;
        same = s.manufacturerID == g.id && s.data == g.data && stream == g.stream;
        VP_ENSURES(s.data.size() <= limit);
    });
    c.set_max_sysex_data_size(limit);
    __vp_history();
    while (vp::more())
    {
        auto p = vpm::any_packet();
        p.data[0] = vp::word(0xF0C8FE00u, 0x50000000u);
        const bool done = g.feed(p, limit);
        c.feed(p);
        VP_ENSURES(calls == (done ? 1 : 0));
        VP_ENSURES(same);
        if (done) g.clear();
        calls = 0;
    }
}
VP_CONTRACT(no_callback)
{
    sysex8_collector c(nullptr);
    const uint8_t g = vp::u4(), k = vp::u7(), id = vp::u8();
    auto p = make_sysex8_complete_packet(id, g);
    p.add_payload_byte(0);
    p.add_payload_byte(k);
    c.feed(p);
    unsigned calls = 0; bool same = false;
    c.set_callback([&](const sysex8& s, uint8_t stream) { ++calls; same = s.manufacturerID == unsigned(k) << 16 && s.data.empty() && stream == id; });
    c.feed(p);
    VP_ENSURES(calls == 1 && same);
}
