// helpers shared by the contract files: independent view of a packet as sixteen bytes
#pragma once
#include "vp.h"
#include <midi/universal_packet.h>
namespace vpm {
inline midi::universal_packet any_packet()
{
    midi::universal_packet p;
    p.data[0] = vp::u32(); p.data[1] = vp::u32(); p.data[2] = vp::u32(); p.data[3] = vp::u32();
    return p;
}
inline midi::universal_packet any_packet_of_type(unsigned t)
{
    midi::universal_packet p = any_packet();
    p.data[0] = (p.data[0] & 0x0FFFFFFFu) | (uint32_t(t) << 28);
    return p;
}
inline bool words(const midi::universal_packet& p, uint32_t a, uint32_t b = 0, uint32_t c = 0, uint32_t d = 0)
{
    return (p.data[0] == a) & (p.data[1] == b) & (p.data[2] == c) & (p.data[3] == d);
}
inline uint8_t byte(const midi::universal_packet& p, unsigned i) { return uint8_t(p.data[i >> 2] >> (24 - 8 * (i & 3))); }
}
