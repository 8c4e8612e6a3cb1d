// P17: numbers and identities in system exclusive data, size/validity predicates, equality and copies.
#include "vpm.h"
#include <midi/sysex.h>
using namespace midi;

template<class S> static void any_data(S& s, uint8_t mask)
{
    const size_t n = vp::len(vp::any);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, mask);
}
// appended values: what was there stays (frame), the new bytes are seven bit and read back
struct frame
{
    sysex7  s;
    size_t  k;
    size_t  n;
    uint8_t old;
    frame() { s.manufacturerID = vp::u32(); any_data(s, 0xFF); n = s.data.size(); k = vp::len(vp::any); VP_REQUIRES(k < n || n == 0); old = n ? s.data[k] : 0; id = s.manufacturerID; }
    bool     kept(size_t added) const { return s.data.size() == n + added && (n == 0 || s.data[k] == old) && s.manufacturerID == id; }
    uint32_t id;
};
VP_CONTRACT(uint7)
{
    frame         f;
    const uint8_t v = vp::u7();
    f.s.add_uint7(v);
    VP_ENSURES(f.kept(1) && f.s.data[f.n] == v);
}
VP_CONTRACT(uint14)
{
    frame          f;
    const uint16_t v = vp::u14();
    f.s.add_uint14(v);
    VP_ENSURES(f.kept(2) && f.s.data[f.n] == (v & 127) && f.s.data[f.n + 1] == v >> 7);
    VP_ENSURES(f.s.make_uint14(f.n) == v);
}
VP_CONTRACT(uint28)
{
    frame          f;
    const uint32_t v = vp::u28();
    f.s.add_uint28(v);
    VP_ENSURES(f.kept(4) && f.s.data[f.n] == (v & 127) && f.s.data[f.n + 1] == (v >> 7 & 127) && f.s.data[f.n + 2] == (v >> 14 & 127) && f.s.data[f.n + 3] == v >> 21);
    VP_ENSURES(f.s.make_uint28(f.n) == v);
}
VP_CONTRACT(uint32)
{
    frame          f;
    const uint32_t v = vp::u32();
    f.s.add_uint32(v);
    VP_ENSURES(f.kept(5) && f.s.data[f.n] == (v & 127) && f.s.data[f.n + 1] == (v >> 7 & 127) && f.s.data[f.n + 2] == (v >> 14 & 127) && f.s.data[f.n + 3] == (v >> 21 & 127) && f.s.data[f.n + 4] == v >> 28);
    VP_ENSURES(f.s.make_uint32(f.n) == v);
}
VP_CONTRACT(identity)
{
    frame           f;
    device_identity i;
    i.manufacturer = vp::u32() & 0x7F7F7F; i.family = vp::u14(); i.model = vp::u14(); i.revision = vp::u28();
    f.s.add_device_identity(i);
    VP_ENSURES(f.kept(11) && f.s.data[f.n] == i.manufacturer >> 16 && f.s.data[f.n + 1] == (i.manufacturer >> 8 & 255) && f.s.data[f.n + 2] == (i.manufacturer & 255));
    VP_ENSURES(f.s.make_uint14(f.n + 3) == i.family && f.s.make_uint14(f.n + 5) == i.model && f.s.make_uint28(f.n + 7) == i.revision);
    const auto j = f.s.make_device_identity(f.n);
    VP_ENSURES(j.manufacturer == i.manufacturer && j.family == i.family && j.model == i.model && j.revision == i.revision);
}
VP_CONTRACT(add_data)
{
    frame        f;
    sysex7       d;
    any_data(d, 0xFF);
    const size_t m = d.data.size(), j = vp::len(vp::any);
    VP_REQUIRES(m > 0 && j < m);
    f.s.add_data(d.data.data(), m);
    VP_ENSURES(f.kept(m) && f.s.data[f.n + j] == d.data[j]);
}
// readers work at every position of every message (values formed from the bytes found there)
VP_CONTRACT(readers)
{
    sysex7 s;
    any_data(s, 0x7F);
    const size_t p = vp::len(vp::any);
    VP_REQUIRES(p < s.data.size());
    const size_t left = s.data.size() - p;
    if (left >= 2) VP_ENSURES(s.make_uint14(p) == s.data[p] + 128u * s.data[p + 1]);
    if (left >= 4) VP_ENSURES(s.make_uint28(p) == s.data[p] + (s.data[p + 1] << 7) + (s.data[p + 2] << 14) + (uint32_t(s.data[p + 3]) << 21));
    if (left >= 5) VP_ENSURES(s.make_uint32(p) == (s.make_uint28(p) | uint32_t(s.data[p + 4]) << 28));
    if (left >= 11)
    {
        const auto i = s.make_device_identity(p);
        VP_ENSURES(i.manufacturer == (uint32_t(s.data[p]) << 16 | uint32_t(s.data[p + 1]) << 8 | s.data[p + 2]));
        VP_ENSURES(i.family == s.make_uint14(p + 3) && i.model == s.make_uint14(p + 5) && i.revision == s.make_uint28(p + 7));
    }
}
// exact on every message: true only if all (no) bytes are seven bit, false only if there is a witness
VP_CONTRACT(is_7bit_sound)
{
    sysex7 s;
    any_data(s, 0xFF);
    const size_t k = vp::len(vp::any);
    VP_REQUIRES(k < s.data.size());
    __vp_watch(k);
    const bool r = s.is_7bit();
    VP_ENSURES(!r || s.data[k] < 0x80);
}
VP_CONTRACT(is_7bit_complete)
{
    sysex7 s;
    any_data(s, 0x7F);
    s.manufacturerID = vp::u32();
    VP_ENSURES(s.is_7bit() && !s.is_8bit());
    VP_ENSURES(s.is_valid() == ((s.manufacturerID & 0xFF808080u) == 0));
}
VP_CONTRACT(is_8bit_exact)
{
    sysex8 s;
    any_data(s, 0xFF);
    const size_t k = vp::len(vp::any);
    VP_REQUIRES(k < s.data.size());
    __vp_watch(k);
    const bool r = s.is_8bit();
    VP_ENSURES(r || s.data[k] < 0x80);
}
VP_CONTRACT(sizes)
{
    sysex7 s;
    any_data(s, 0xFF);
    s.manufacturerID = vp::u32() & 0x7F7F7F;
    const uint32_t m = s.manufacturerID;
    VP_ENSURES(s.total_data_size() == s.data.size() + (m == 0 ? 0 : m >> 16 ? 1 : 3));
    VP_ENSURES(s.empty() == (m == 0 && s.data.size() == 0));
    s.clear();
    VP_ENSURES(s.empty() && s.manufacturerID == 0 && s.data.size() == 0 && s.total_data_size() == 0);
}
VP_CONTRACT(equality)
{
    sysex7 a, b;
    a.manufacturerID = vp::u32();
    b.manufacturerID = vp::u32();
    any_data(a, 0xFF);
    any_data(b, 0xFF);
    const size_t k = vp::len(vp::any);
    VP_REQUIRES(k < a.data.size());
    __vp_watch(k);
    const bool e = a == b;
    VP_ENSURES((a != b) == !e && (b == a) == e);
    VP_ENSURES(!e || (a.manufacturerID == b.manufacturerID && a.data.size() == b.data.size() && a.data[k] == b.data[k]));
    VP_ENSURES(e || a.manufacturerID != b.manufacturerID || a.data != b.data);
    const sysex7 c = a;
    VP_ENSURES(c == a && !(c != a));
    sysex7 d;
    d = std::move(a);
    VP_ENSURES(d == c);
}
VP_CONTRACT(construction)
{
    const uint32_t m = vp::u32();
    sysex8         src;
    any_data(src, 0xFF);
    const size_t n = src.data.size(), k = vp::len(vp::any);
    VP_REQUIRES(k < n);
    const sysex8 a(m), b(m, n), c(m, src.data.data(), n), d(m, src.data);
    VP_ENSURES(a.manufacturerID == m && a.data.empty() && b.manufacturerID == m && b.data.empty() && b.data.capacity() >= n);
    VP_ENSURES(c.manufacturerID == m && c.data.size() == n && c.data[k] == src.data[k] && d == c);
    const sysex7 e(m, { 1, 2, 3 });
    VP_ENSURES(e.manufacturerID == m && e.data.size() == 3 && e.data[0] == 1 && e.data[1] == 2 && e.data[2] == 3);
    VP_ENSURES(sysex7{}.empty() && sysex8{}.empty());
}
