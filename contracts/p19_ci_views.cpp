// P19: capability inquiry views: for every message of any length and content, a view is granted exactly when the message is
// long enough and of the right kind, and then every accessor stays inside the message and returns the specified bytes.
// v_*: 7 bit contents, exact acceptance and values.   safe_*: arbitrary bytes, memory safety of validate and all accessors.
#include "vpci.h"
using namespace midi;
using namespace vpci;

template<typename V>
static std::optional<V> get(const sysex7& s)
{
    auto v = ci::as<V>(s);
    VP_ENSURES(v.has_value() == V::validate(s));
    if (const auto c = as_capability_inquiry_view(s)) VP_ENSURES(ci::as<V>(*c).has_value() == v.has_value());
    return v;
}
VP_CONTRACT(v_base)
{
    sysex7 s; any_message(s, 0x7F);
    const bool ok = is_ci(s, 12, 0, 255);
    VP_ENSURES(is_capability_inquiry_message(s) == ok && capability_inquiry_view::validate(s) == ok && as_capability_inquiry_view(s).has_value() == ok);
    if (const auto v = as_capability_inquiry_view(s)) common(*v, s);
}
VP_CONTRACT(v_discovery_inquiry)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = get<ci::discovery_inquiry_view>(s);
    VP_ENSURES(v.has_value() == (is_ci(s, 28, 0x70, 0x70) && (s.data[3] < 2 || s.data.size() >= 29)));
    if (!v) return;
    common(*v, s);
    const auto i = v->identity();
    VP_ENSURES(i.manufacturer == (uint32_t(s.data[12]) << 16 | uint32_t(s.data[13]) << 8 | s.data[14]) && i.family == u14(s, 15) && i.model == u14(s, 17) && i.revision == u28(s, 19));
    VP_ENSURES(v->categories() == s.data[23] && v->maximum_message_size() == u28(s, 24) && v->output_path_id() == (s.data[3] >= 2 ? s.data[28] : 0));
}
VP_CONTRACT(v_discovery_reply)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = get<ci::discovery_reply_view>(s);
    VP_ENSURES(v.has_value() == (is_ci(s, 28, 0x71, 0x71) && (s.data[3] < 2 || s.data.size() >= 30)));
    if (!v) return;
    common(*v, s);
    const auto i = v->identity();
    VP_ENSURES(i.manufacturer == (uint32_t(s.data[12]) << 16 | uint32_t(s.data[13]) << 8 | s.data[14]) && i.family == u14(s, 15) && i.model == u14(s, 17) && i.revision == u28(s, 19));
    VP_ENSURES(v->categories() == s.data[23] && v->maximum_message_size() == u28(s, 24) && v->output_path_id() == (s.data[3] >= 2 ? s.data[28] : 0));
    VP_ENSURES(v->function_block() == (s.data[3] >= 2 ? s.data[29] : 0x7F));
}
VP_CONTRACT(v_endpoint_information)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = get<ci::endpoint_information_inquiry_view>(s);
    VP_ENSURES(v.has_value() == is_ci(s, 13, 0x72, 0x72));
    if (v) { common(*v, s); VP_ENSURES(v->status() == s.data[12]); }
    const auto r = get<ci::endpoint_information_reply_view>(s);
    VP_ENSURES(r.has_value() == (is_ci(s, 15, 0x73, 0x73) && s.data.size() >= 15 + u14(s, 13)));
    if (r) { common(*r, s); VP_ENSURES(r->status() == s.data[12] && r->information_data_length() == u14(s, 13) && r->information_data() == s.data.data() + 15); }
}
template<typename V>
static void nack(unsigned sub, unsigned minver)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = get<V>(s);
    VP_ENSURES(v.has_value() == (is_ci(s, 22, sub, sub) && s.data.size() >= 22 + u14(s, 20) && s.data[3] >= minver));
    if (!v) return;
    common(*v, s);
    VP_ENSURES(v->transaction() == s.data[12] && v->status_code() == s.data[13] && v->status_data() == s.data[14] && v->details() == s.data.data() + 15);
    VP_ENSURES(v->message_length() == u14(s, 20) && v->message_data() == s.data.data() + 22 && v->message().size() == u14(s, 20) && (const void*)v->message().data() == s.data.data() + 22);
}
VP_CONTRACT(v_ack) { nack<ci::ack_view>(0x7D, 0); }
VP_CONTRACT(v_nak) { nack<ci::nak_view>(0x7F, 2); }
VP_CONTRACT(v_invalidate_muid)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = get<ci::invalidate_muid_view>(s);
    VP_ENSURES(v.has_value() == is_ci(s, 16, 0x7E, 0x7E));
    if (v) { common(*v, s); VP_ENSURES(v->target_muid() == u28(s, 12)); }
}
VP_CONTRACT(v_process_inquiry)
{
    sysex7 s; any_message(s, 0x7F);
    const auto c = get<ci::process_inquiry_capabilities_reply_view>(s);
    const auto i = get<ci::midi_message_report_inquiry_view>(s);
    const auto r = get<ci::midi_message_report_reply_view>(s);
    VP_ENSURES(c.has_value() == is_ci(s, 13, 0x41, 0x41) && i.has_value() == is_ci(s, 17, 0x42, 0x42) && r.has_value() == is_ci(s, 16, 0x43, 0x43));
    if (c) { common(*c, s); VP_ENSURES(c->supported_features() == s.data[12]); }
    if (i) { common(*i, s); VP_ENSURES(i->message_data_control() == s.data[12] && i->system_message_types() == s.data[13] && i->channel_controller_message_types() == s.data[15] && i->note_data_message_types() == s.data[16]); }
    if (r) { common(*r, s); VP_ENSURES(r->system_message_types() == s.data[12] && r->channel_controller_message_types() == s.data[14] && r->note_data_message_types() == s.data[15]); }
}

// ---- arbitrary bytes: nothing is read outside the message
static unsigned sink;
template<typename V>
static void safe_common(const V& v) { sink += v.device_id() + v.subtype() + v.message_version() + v.source_muid() + v.destination_muid() + unsigned(v.type()); }
// [b, b+n) lies inside the message
static void inside(const sysex7& s, const uint8_t* b, size_t n)
{
    VP_ENSURES(size_t(b - s.data.data()) <= s.data.size() && n <= s.data.size() - size_t(b - s.data.data()));
}
VP_CONTRACT(safe_discovery)
{
    sysex7 s; any_message(s, 0xFF);
    if (const auto v = ci::as<ci::discovery_inquiry_view>(s)) { safe_common(*v); sink += v->identity().family + v->categories() + v->maximum_message_size() + v->output_path_id(); }
    if (const auto v = ci::as<ci::discovery_reply_view>(s)) { safe_common(*v); sink += v->identity().family + v->categories() + v->maximum_message_size() + v->output_path_id() + v->function_block(); }
    VP_ENSURES(true);
}
VP_CONTRACT(safe_management)
{
    sysex7 s; any_message(s, 0xFF);
    if (const auto v = as_capability_inquiry_view(s)) safe_common(*v);
    if (const auto v = ci::as<ci::endpoint_information_inquiry_view>(s)) { safe_common(*v); sink += v->status(); }
    if (const auto v = ci::as<ci::endpoint_information_reply_view>(s)) { safe_common(*v); sink += v->status(); inside(s, v->information_data(), v->information_data_length()); }
    if (const auto v = ci::as<ci::ack_view>(s)) { safe_common(*v); sink += v->transaction() + v->status_code() + v->status_data(); inside(s, v->details(), 5); inside(s, v->message_data(), v->message_length()); VP_ENSURES(v->message().size() == v->message_length()); }
    if (const auto v = ci::as<ci::nak_view>(s)) { safe_common(*v); sink += v->transaction() + v->status_code() + v->status_data(); inside(s, v->details(), 5); inside(s, v->message_data(), v->message_length()); VP_ENSURES(v->message().size() == v->message_length()); }
    if (const auto v = ci::as<ci::invalidate_muid_view>(s)) { safe_common(*v); sink += v->target_muid(); }
    VP_ENSURES(true);
}
VP_CONTRACT(safe_process_inquiry)
{
    sysex7 s; any_message(s, 0xFF);
    if (const auto v = ci::as<ci::process_inquiry_capabilities_reply_view>(s)) { safe_common(*v); sink += v->supported_features(); }
    if (const auto v = ci::as<ci::midi_message_report_inquiry_view>(s)) { safe_common(*v); sink += v->message_data_control() + v->system_message_types() + v->channel_controller_message_types() + v->note_data_message_types(); }
    if (const auto v = ci::as<ci::midi_message_report_reply_view>(s)) { safe_common(*v); sink += v->system_message_types() + v->channel_controller_message_types() + v->note_data_message_types(); }
    VP_ENSURES(true);
}
