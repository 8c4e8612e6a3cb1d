// P14: sysex7_collector. Whatever packets are fed in whatever order, every delivered message is exactly the one described by
// the packets since the last start/complete packet, oversized messages are dropped and leave nothing behind.
//@opt .* budget=400 join=1
#include "vpm.h"
#include <midi/sysex_collector.h>
#include <midi/data_message.h>
using namespace midi;

// reference assembler over raw packet words
struct ghost7
{
    bool                 active = false;
    unsigned             idb    = 0; // identifier bytes seen (0..3)
    uint32_t             id     = 0;
    std::vector<uint8_t> data;

    void clear() { active = false; idb = 0; id = 0; data.clear(); }
    // returns true when the packet completes a message
    bool feed(uint32_t w0, uint32_t w1, size_t limit)
    {
        if ((w0 >> 28) != 3) return false;
        const unsigned st = (w0 >> 20) & 0xF, n = (w0 >> 16) & 0xF;
        if (st > 3 || n > 6) return false;
        if (st <= 1) { clear(); active = true; }
        else if (!active) return false;
        if (limit != 0 && data.size() + n > limit) { clear(); return false; }
        const uint8_t b[6] = { uint8_t(w0 >> 8), uint8_t(w0), uint8_t(w1 >> 24), uint8_t(w1 >> 16), uint8_t(w1 >> 8), uint8_t(w1) };
        for (unsigned i = 0; i < n; ++i)
        {
            if (idb == 0)      { if (b[i]) { id = uint32_t(b[i]) << 16; idb = 3; } else idb = 1; }
            else if (idb == 1) { id = uint32_t(b[i]) << 8; idb = 2; }
            else if (idb == 2) { id |= b[i]; idb = 3; }
            else               data.push_back(b[i]);
        }
        return st == 0 || st == 3;
    }
};

VP_CONTRACT(collect7_history)
{
    ghost7 g;
    unsigned calls = 0; bool same = true;
    sysex7_collector c([&](const sysex7& s) {
        ++calls;
        same = s.manufacturerID == g.id && s.data == g.data;
    });
    __vp_history();
    while (vp::more())
    {
        if (!vp::more()) { c.reset(); g.clear(); continue; }
        auto p = vpm::any_packet();
        p.data[0] = vp::word(0xF0C80000u, 0x30000000u);
        const bool done = g.feed(p.data[0], p.data[1], 0);
        c.feed(p);
        VP_ENSURES(calls == (done ? 1 : 0));
        VP_ENSURES(same);
        if (done) g.clear();
        calls = 0;
    }
}
VP_CONTRACT(collect7_limited)
{
    ghost7 g;
    size_t limit = 0;
    unsigned calls = 0; bool same = true;
    sysex7_collector c([&](const sysex7& s) {
        ++calls;
        same = s.manufacturerID == g.id && s.data == g.data; VP_ENSURES(limit == 0 || s.data.size() <= limit);
    });
    __vp_history();
    while (vp::more())
    {
        if (!vp::more()) { limit = vp::len(0xFFFFFFFFu); c.set_max_sysex_data_size(limit); continue; }
        auto p = vpm::any_packet();
        p.data[0] = vp::word(0xF0C80000u, 0x30000000u);
        const bool done = g.feed(p.data[0], p.data[1], limit);
        c.feed(p);
        VP_ENSURES(calls == (done ? 1 : 0));
        VP_ENSURES(same);
        if (done) g.clear();
        calls = 0;
    }
}
VP_CONTRACT(no_callback)
{
    sysex7_collector c(nullptr);
    const uint8_t g = vp::u4(), k = vp::u7();
    auto p = make_sysex7_complete_packet(g);
    p.add_payload_byte(k);
    c.feed(p);
    unsigned calls = 0; bool same = false;
    c.set_callback([&](const sysex7& s) { ++calls; same = s.manufacturerID == unsigned(k) << 16 && s.data.empty(); });
    if (k) { c.feed(p); VP_ENSURES(calls == 1 && same); }
}
