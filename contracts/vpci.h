// helpers for the capability inquiry contracts: an independent reading of a MIDI-CI message as bytes
#pragma once
#include "vpm.h"
#include <midi/capability_inquiry.h>
namespace vpci {
using namespace midi;
inline void any_message(sysex7& s, uint8_t mask)
{
    s.manufacturerID = vp::flag() ? 0x7E0000u : vp::u32();
    const size_t n   = vp::len(vp::any);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, mask);
    if (vp::flag()) // natively most random messages should get past the sub id; no restriction: the other half is arbitrary
    {
        VP_REQUIRES(n > 2);
        s.data[1] = 0x0D;
        s.data[2] = vp::u7();
    }
}
inline uint32_t u14(const sysex7& s, size_t i) { return s.data[i] + (uint32_t(s.data[i + 1]) << 7); }
inline uint32_t u28(const sysex7& s, size_t i) { return u14(s, i) + (u14(s, i + 2) << 14); }
// message with universal id, CI sub id and one of the given subtypes, at least n bytes
inline bool is_ci(const sysex7& s, size_t n, unsigned first, unsigned last)
{
    return s.manufacturerID == 0x7E0000 && s.data.size() >= n && s.data[1] == 0x0D && s.data[2] >= first && s.data[2] <= last;
}
// what every CI view offers
template<typename V>
inline void common(const V& v, const sysex7& s)
{
    VP_ENSURES(v.device_id() == s.data[0] && v.subtype() == s.data[2] && v.message_version() == s.data[3] && v.source_muid() == u28(s, 4) && v.destination_muid() == u28(s, 8));
}
inline bool eq(const ci::profile_id& p, const sysex7& s, size_t i)
{
    return p.byte1 == s.data[i] && p.byte2 == s.data[i + 1] && p.byte3 == s.data[i + 2] && p.byte4 == s.data[i + 3] && p.byte5 == s.data[i + 4];
}
// header bytes of a message made by a factory
inline bool head(const ci::message& m, unsigned sub, uint32_t src, uint32_t dst, unsigned dev, unsigned ver = 2)
{
    return m.manufacturerID == 0x7E0000 && m.data.size() >= 12 && m.data[0] == dev && m.data[1] == 0x0D && m.data[2] == sub && m.data[3] == ver && u28(m, 4) == src && u28(m, 8) == dst &&
           m.data[4] < 128 && m.data[5] < 128 && m.data[6] < 128 && m.data[7] < 128 && m.data[8] < 128 && m.data[9] < 128 && m.data[10] < 128 && m.data[11] < 128;
}
inline device_identity any_identity()
{
    device_identity i;
    i.manufacturer = vp::u32() & 0x7F7F7F;
    i.family       = vp::u14();
    i.model        = vp::u14();
    i.revision     = vp::u28();
    return i;
}
inline bool same(const device_identity& a, const device_identity& b) { return a.manufacturer == b.manufacturer && a.family == b.family && a.model == b.model && a.revision == b.revision; }
inline ci::profile_id any_profile() { return ci::profile_id{ vp::u7(), vp::u7(), vp::u7(), vp::u7(), vp::u7() }; }
}
