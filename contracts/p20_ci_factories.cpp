// P20: capability inquiry management and process inquiry messages: exact bytes, and the views read back every argument.
#include "vpci.h"
using namespace midi;
using namespace vpci;

VP_CONTRACT(message_header)
{
    const uint32_t src = vp::u28(), dst = vp::u28(), a = vp::u28(), b = vp::u28();
    const uint8_t  dev = vp::u7(), sub = vp::u7();
    ci::message    m(sub, src, dst, dev);
    VP_ENSURES(head(m, sub, src, dst, dev) && m.data.size() == 12 && m.source_muid() == src && m.destination_muid() == dst && m.message_version() == 2 && m.device_id() == dev && m.subtype() == sub);
    const size_t n = vp::len(vp::any);
    const auto   p = ci::message::make_with_payload_size(n, sub, src, dst, dev);
    VP_ENSURES(head(p, sub, src, dst, dev) && p.data.size() == 12);
    VP_ENSURES(head(ci::message(sub, src, dst), sub, src, dst, 0x7F) && is_capability_inquiry_message(m));
    m.set_source_muid(a);
    VP_ENSURES(head(m, sub, a, dst, dev) && m.data.size() == 12);
    m.set_destination_muid(b);
    VP_ENSURES(head(m, sub, a, b, dev) && m.data.size() == 12);
}
static bool disc(const ci::message& m, const device_identity& i, uint8_t cat, uint32_t mx)
{
    return m.data[12] == (i.manufacturer >> 16) && m.data[13] == ((i.manufacturer >> 8) & 0xFF) && m.data[14] == (i.manufacturer & 0xFF) && u14(m, 15) == i.family && u14(m, 17) == i.model && u28(m, 19) == i.revision &&
           m.data[23] == cat && u28(m, 24) == mx && m.data[15] < 128 && m.data[16] < 128 && m.data[24] < 128 && m.data[25] < 128 && m.data[26] < 128 && m.data[27] < 128;
}
VP_CONTRACT(discovery)
{
    const uint32_t src = vp::u28(), dst = vp::u28(), mx = vp::u28();
    const uint8_t  cat = vp::u7(), path = vp::u7(), fb = vp::u7();
    const auto     i = any_identity();
    const auto     m = ci::make_discovery_inquiry(src, i, cat, mx, path);
    VP_ENSURES(head(m, 0x70, src, 0x0FFFFFFF, 0x7F) && m.data.size() == 29 && disc(m, i, cat, mx) && m.data[28] == path);
    const auto v = ci::as<ci::discovery_inquiry_view>(m);
    VP_ENSURES(v && same(v->identity(), i) && v->categories() == cat && v->maximum_message_size() == mx && v->output_path_id() == path && v->source_muid() == src);
    VP_ENSURES(ci::make_discovery_inquiry(src, i, cat, mx).data[28] == 0);
    const auto m1 = ci::make_discovery_inquiry_v1(src, i, cat, mx);
    VP_ENSURES(head(m1, 0x70, src, 0x0FFFFFFF, 0x7F, 1) && m1.data.size() == 28 && disc(m1, i, cat, mx));
    const auto v1 = ci::as<ci::discovery_inquiry_view>(m1);
    VP_ENSURES(v1 && same(v1->identity(), i) && v1->maximum_message_size() == mx && v1->output_path_id() == 0);
    const auto r = ci::make_discovery_reply(src, dst, i, cat, mx, path, fb);
    VP_ENSURES(head(r, 0x71, src, dst, 0x7F) && r.data.size() == 30 && disc(r, i, cat, mx) && r.data[28] == path && r.data[29] == fb);
    const auto w = ci::as<ci::discovery_reply_view>(r);
    VP_ENSURES(w && same(w->identity(), i) && w->categories() == cat && w->maximum_message_size() == mx && w->output_path_id() == path && w->function_block() == fb && w->destination_muid() == dst);
    const auto r1 = ci::make_discovery_reply_v1(src, dst, i, cat, mx);
    VP_ENSURES(head(r1, 0x71, src, dst, 0x7F, 1) && r1.data.size() == 28 && disc(r1, i, cat, mx));
    const auto w1 = ci::as<ci::discovery_reply_view>(r1);
    VP_ENSURES(w1 && w1->output_path_id() == 0 && w1->function_block() == 0x7F);
}
VP_CONTRACT(endpoint_information)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const uint8_t  st = vp::u7();
    const auto     m = ci::make_endpoint_information_inquiry(src, dst, st);
    VP_ENSURES(head(m, 0x72, src, dst, 0x7F) && m.data.size() == 13 && m.data[12] == st && ci::as<ci::endpoint_information_inquiry_view>(m)->status() == st);
    sysex7 d;
    const size_t n = vp::len(0x3FFF), k = vp::u14();
    d.data.resize(n);
    __vp_bytes(d.data.data(), n, 0x7F);
    VP_REQUIRES(k < n || n == 0);
    const auto r = ci::make_endpoint_information_reply(src, dst, st, d.data.data(), n);
    VP_ENSURES(head(r, 0x73, src, dst, 0x7F) && r.data.size() == 15 + n && r.data[12] == st && u14(r, 13) == n && r.data[13] < 128 && r.data[14] < 128);
    if (n) VP_ENSURES(r.data[15 + k] == d.data[k]);
    const auto v = ci::as<ci::endpoint_information_reply_view>(r);
    VP_ENSURES(v && v->status() == st && v->information_data_length() == n);
    if (n) VP_ENSURES(v->information_data()[k] == d.data[k]);
}
struct nk
{
    uint32_t    src = vp::u28(), dst = vp::u28();
    uint8_t     dev = vp::u7(), tr = vp::u7(), code = vp::u7(), sd = vp::u7();
    uint8_t     det[5] = { vp::u7(), vp::u7(), vp::u7(), vp::u7(), vp::u7() };
    std::string text;
    size_t      k;
    nk()
    {
        const size_t n = vp::len(0x3FFF);
        k = vp::u14();
        text.resize(n);
        __vp_bytes(&text[0], n, 0x7F);
        VP_REQUIRES(k < n || n == 0);
    }
    bool ok(const ci::message& m, unsigned sub, uint32_t s, uint32_t d, uint8_t trans, uint8_t device) const
    {
        return head(m, sub, s, d, device) && m.data.size() == 22 + text.size() && m.data[12] == trans && m.data[13] == code && m.data[14] == sd && m.data[15] == det[0] && m.data[16] == det[1] && m.data[17] == det[2] &&
               m.data[18] == det[3] && m.data[19] == det[4] && u14(m, 20) == text.size() && m.data[20] < 128 && m.data[21] < 128 && (text.empty() || m.data[22 + k] == uint8_t(text[k]));
    }
    template<typename V> bool reads(const std::optional<V>& v, uint8_t trans) const
    {
        return v && v->transaction() == trans && v->status_code() == code && v->status_data() == sd && v->details()[0] == det[0] && v->details()[4] == det[4] && v->message_length() == text.size() &&
               v->message().size() == text.size() && (text.empty() || v->message()[k] == text[k]);
    }
};
VP_CONTRACT(ack)
{
    nk         a;
    const auto m = ci::make_ack_message(a.src, a.dst, a.dev, a.tr, a.code, a.sd, a.det, a.text);
    VP_ENSURES(a.ok(m, 0x7D, a.src, a.dst, a.tr, a.dev) && a.reads(ci::as<ci::ack_view>(m), a.tr));
}
VP_CONTRACT(nak)
{
    nk         a;
    const auto m = ci::make_nak_message(a.src, a.dst, a.dev, a.tr, a.code, a.sd, a.det, a.text);
    VP_ENSURES(a.ok(m, 0x7F, a.src, a.dst, a.tr, a.dev) && a.reads(ci::as<ci::nak_view>(m), a.tr));
}
// NAK of a received message goes back to its sender
VP_CONTRACT(nak_of_request)
{
    nk     a;
    sysex7 s;
    any_message(s, 0x7F);
    const auto r = as_capability_inquiry_view(s);
    if (!r) return;
    const auto m = ci::make_nak_message(*r, a.code, a.sd, a.det, a.text);
    VP_ENSURES(a.ok(m, 0x7F, u28(s, 8), u28(s, 4), s.data[2], s.data[0]) && a.reads(ci::as<ci::nak_view>(m), s.data[2]));
    const auto o = ci::make_nak_message_v1(*r);
    VP_ENSURES(head(o, 0x7F, u28(s, 8), u28(s, 4), s.data[0], 1) && o.data.size() == 12);
}
VP_CONTRACT(small_messages)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const uint8_t  dev = vp::u7(), a = vp::u7(), b = vp::u7(), c = vp::u7(), d = vp::u7();
    const auto     n1 = ci::make_nak_message_v1(src, dst, dev);
    VP_ENSURES(head(n1, 0x7F, src, dst, dev, 1) && n1.data.size() == 12);
    const auto inv = ci::make_invalidate_muid_message(src, dst);
    VP_ENSURES(head(inv, 0x7E, src, 0x0FFFFFFF, 0x7F) && inv.data.size() == 16 && u28(inv, 12) == dst && ci::as<ci::invalidate_muid_view>(inv)->target_muid() == dst);
    const auto pi = ci::make_process_inquiry_capabilities_inquiry(src, dst, dev);
    VP_ENSURES(head(pi, 0x40, src, dst, dev) && pi.data.size() == 12);
    const auto pr = ci::make_process_inquiry_capabilities_reply(src, dst, a, dev);
    VP_ENSURES(head(pr, 0x41, src, dst, dev) && pr.data.size() == 13 && pr.data[12] == a && ci::as<ci::process_inquiry_capabilities_reply_view>(pr)->supported_features() == a);
    const auto mi = ci::make_midi_message_report_inquiry(src, dst, a, b, c, d, dev);
    VP_ENSURES(head(mi, 0x42, src, dst, dev) && mi.data.size() == 17 && mi.data[12] == a && mi.data[13] == b && mi.data[14] == 0 && mi.data[15] == c && mi.data[16] == d);
    const auto vi = ci::as<ci::midi_message_report_inquiry_view>(mi);
    VP_ENSURES(vi && vi->message_data_control() == a && vi->system_message_types() == b && vi->channel_controller_message_types() == c && vi->note_data_message_types() == d);
    const auto mr = ci::make_midi_message_report_reply(src, a, b, c, dev);
    VP_ENSURES(head(mr, 0x43, src, 0x0FFFFFFF, dev) && mr.data.size() == 16 && mr.data[12] == a && mr.data[13] == 0 && mr.data[14] == b && mr.data[15] == c);
    const auto vr = ci::as<ci::midi_message_report_reply_view>(mr);
    VP_ENSURES(vr && vr->system_message_types() == a && vr->channel_controller_message_types() == b && vr->note_data_message_types() == c);
    const auto me = ci::make_midi_message_report_end(src, dev);
    VP_ENSURES(head(me, 0x44, src, 0x0FFFFFFF, dev) && me.data.size() == 12);
}
