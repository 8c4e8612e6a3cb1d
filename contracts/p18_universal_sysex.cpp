// P18: universal system exclusive classification and identity request/reply, for messages of any length and content.
#include "vpm.h"
#include <midi/universal_sysex.h>
using namespace midi;

static void any_message(sysex7& s)
{
    s.manufacturerID = vp::u32();
    const size_t n = vp::len(vp::any);
    s.data.resize(n);
    __vp_bytes(s.data.data(), n, 0xFF);
}
VP_CONTRACT(classification)
{
    sysex7 s;
    any_message(s);
    const bool u = (s.manufacturerID == 0x7E0000 || s.manufacturerID == 0x7F0000) && s.data.size() >= 2;
    VP_ENSURES(is_universal_sysex_message(s) == u && as_universal_sysex_view(s).has_value() == u);
    const unsigned ty = u ? (s.manufacturerID >> 8 | s.data[1]) : 0, sub = u && s.data.size() > 2 ? s.data[2] : 0;
    VP_ENSURES(universal_sysex_type_of(s) == ty && universal_sysex_subtype_of(s) == sub && universal_sysex_device_id_of(s) == (u ? s.data[0] : 0xFF));
    if (const auto v = as_universal_sysex_view(s))
        VP_ENSURES(v->device_id() == s.data[0] && v->type() == ty && v->subtype() == sub && v->data_size() == s.data.size());
    VP_ENSURES(universal_sysex::is_identity_request(s) == (ty == 0x7E06 && sub == 1));
}
VP_CONTRACT(message_accessors)
{
    universal_sysex::message s;
    any_message(s);
    const size_t n = s.data.size();
    VP_ENSURES(s.device_id() == (n ? s.data[0] : 0xFF) && s.type() == (n < 2 ? 0 : (s.manufacturerID >> 8 | s.data[1]) & 0xFFFF) && s.subtype() == (n > 2 ? s.data[2] : 0));
    if (n)
    {
        const uint8_t d = vp::u7();
        const size_t  k = vp::len(vp::any);
        VP_REQUIRES(k < n && k > 0);
        const uint8_t old = s.data[k];
        s.set_device_id(d);
        VP_ENSURES(s.device_id() == d && s.data[k] == old && s.data.size() == n);
    }
}
VP_CONTRACT(identity_reply_reads)
{
    sysex7 s;
    any_message(s);
    const bool ok = universal_sysex::is_identity_reply(s);
    const auto v  = universal_sysex::as_identity_reply_view(s);
    const bool rep = universal_sysex_type_of(s) == 0x7E06 && universal_sysex_subtype_of(s) == 2;
    VP_ENSURES(v.has_value() == ok && (!ok || rep));
    VP_ENSURES(ok == (rep && ((s.data.size() == 12 && s.data[3] != 0) || s.data.size() == 14)));
    if (const auto b = as_universal_sysex_view(s)) VP_ENSURES(b->as<universal_sysex::identity_reply_view>().has_value() == ok);
    if (v)
    {
        const device_identity i = v->identity(); // in bounds for every accepted message
        const bool            three = s.data[3] == 0;
        VP_ENSURES(i.manufacturer == (three ? uint32_t(s.data[4]) << 8 | s.data[5] : uint32_t(s.data[3]) << 16));
        const size_t o = three ? 6 : 4;
        VP_ENSURES(i.family == s.make_uint14(o) && i.model == s.make_uint14(o + 2) && i.revision == s.make_uint28(o + 4));
    }
}
VP_CONTRACT(identity_request)
{
    const uint8_t d = vp::u7();
    const auto    m = universal_sysex::make_identity_request(d);
    VP_ENSURES(m.manufacturerID == 0x7E0000 && m.data.size() == 3 && m.data[0] == d && m.data[1] == 6 && m.data[2] == 1);
    VP_ENSURES(universal_sysex::is_identity_request(m) && !universal_sysex::is_identity_reply(m) && m.is_valid());
    VP_ENSURES(universal_sysex::make_identity_request().device_id() == 0x7F);
}
VP_CONTRACT(identity_reply)
{
    const uint8_t   d = vp::u7();
    device_identity i;
    const bool      three = vp::flag();
    i.manufacturer = three ? vp::u32() & 0x7F7F : (vp::u32() & 0x7F) << 16;
    i.family = vp::u14(); i.model = vp::u14(); i.revision = vp::u28();
    VP_REQUIRES(i.manufacturer);
    const auto m = universal_sysex::make_identity_reply(i.manufacturer, i.family, i.model, i.revision, d);
    VP_ENSURES(m.manufacturerID == 0x7E0000 && m.device_id() == d && m.type() == 0x7E06 && m.subtype() == 2 && m.data.size() == (three ? 14 : 12) && m.is_valid());
    const auto v = universal_sysex::as_identity_reply_view(m);
    VP_ENSURES(v.has_value() && universal_sysex::is_identity_reply(m) && !universal_sysex::is_identity_request(m));
    const auto j = v->identity();
    VP_ENSURES(j.manufacturer == i.manufacturer && j.family == i.family && j.model == i.model && j.revision == i.revision);
    const auto m2 = universal_sysex::make_identity_reply(i);
    VP_ENSURES(m2.device_id() == 0x7F && m2.data.size() == m.data.size());
    const auto j2 = universal_sysex::as_identity_reply_view(m2)->identity();
    VP_ENSURES(j2.manufacturer == i.manufacturer && j2.family == i.family && j2.model == i.model && j2.revision == i.revision);
}
