// P07: UMP stream messages: layout of every factory, views exact, names of any length are split and read back completely.
//@opt send_.* unroll=2 variant='An'
//@opt names_.* unroll=20
#include "vpm.h"
#include <midi/stream_message.h>
using namespace midi;

static packet_format any_format() { return packet_format(vp::u8() & 3); }
static uint32_t      w0(unsigned fmt, unsigned status, unsigned lo16) { return 0xF0000000u | fmt << 26 | status << 16 | lo16; }
static std::string   any_string(size_t max)
{
    const size_t n = vp::len(max);
    std::string  s;
    s.resize(n);
    __vp_bytes(&s[0], n, 0xFF);
    return s;
}

VP_CONTRACT(message_base)
{
    const uint8_t st = vp::u8();
    const auto    f = any_format(), f2 = any_format();
    stream_message m(st, f);
    VP_ENSURES(vpm::words(stream_message{}, 0xF0000000u) && vpm::words(stream_message(st), w0(0, st, 0)));
    VP_ENSURES(vpm::words(m, w0(unsigned(f), st, 0)) && m.format() == f && m.type() == packet_type::stream && m.status() == st && m.size() == 4);
    m.data[0] |= vp::u16(); m.data[1] = vp::u32(); m.data[2] = vp::u32(); m.data[3] = vp::u32();
    const stream_message o = m;
    m.set_format(f2);
    VP_ENSURES(m.format() == f2 && (m.data[0] & 0xF3FFFFFFu) == (o.data[0] & 0xF3FFFFFFu) && m.data[1] == o.data[1] && m.data[2] == o.data[2] && m.data[3] == o.data[3]);
}
VP_CONTRACT(endpoint_discovery)
{
    const uint8_t f = vp::u8() & 31, ma = vp::u8(), mi = vp::u8();
    const auto    m = make_endpoint_discovery_message(f, ma, mi);
    VP_ENSURES(vpm::words(m, w0(0, 0, uint32_t(ma) << 8 | mi), f) && vpm::words(make_endpoint_discovery_message(f), w0(0, 0, 0x0101), f));
    const auto v = as_endpoint_discovery_view(m);
    VP_ENSURES(v && v->ump_version_major() == ma && v->ump_version_minor() == mi && v->ump_version() == ma * 256 + mi && v->filter() == f);
    VP_ENSURES(v && v->requests_info() == ((f & 1) != 0) && v->requests_device_identity() == ((f & 2) != 0) && v->requests_name() == ((f & 4) != 0));
    VP_ENSURES(v && v->requests_product_instance_id() == ((f & 8) != 0) && v->requests_stream_configuration() == ((f & 16) != 0));
}
VP_CONTRACT(endpoint_info)
{
    const uint8_t n = vp::u7(), pr = vp::u8() & 3, ex = vp::u8() & 3, ma = vp::u8(), mi = vp::u8();
    const bool    s = vp::flag();
    const auto    m = make_endpoint_info_message(n, s, pr, ex, ma, mi);
    VP_ENSURES(vpm::words(m, w0(0, 1, uint32_t(ma) << 8 | mi), (uint32_t(s) << 31) | uint32_t(n) << 24 | uint32_t(pr) << 8 | ex));
    VP_ENSURES(vpm::words(make_endpoint_info_message(n, s, pr, ex), w0(0, 1, 0x0101), m.data[1]));
    const auto v = as_endpoint_info_view(m);
    VP_ENSURES(v && v->ump_version_major() == ma && v->ump_version_minor() == mi && v->ump_version() == ma * 256 + mi);
    VP_ENSURES(v && v->num_function_blocks() == n && v->static_function_blocks() == s && v->protocols() == pr && v->extensions() == ex);
}
VP_CONTRACT(device_identity_message)
{
    device_identity i;
    i.manufacturer = vp::u32() & 0x7F7F7F; i.family = vp::u14(); i.model = vp::u14(); i.revision = vp::u28();
    const auto m = make_device_identity_message(i);
    VP_ENSURES(vpm::words(m, w0(0, 2, 0), i.manufacturer, uint32_t(i.family & 127) << 24 | uint32_t(i.family >> 7) << 16 | uint32_t(i.model & 127) << 8 | i.model >> 7,
                          (i.revision & 127) << 24 | (i.revision >> 7 & 127) << 16 | (i.revision >> 14 & 127) << 8 | i.revision >> 21));
    const auto v = as_device_identity_view(m);
    VP_ENSURES(v.has_value());
    const device_identity j = v->identity();
    VP_ENSURES(j.manufacturer == i.manufacturer && j.family == i.family && j.model == i.model && j.revision == i.revision);
}
VP_CONTRACT(stream_configuration)
{
    const uint8_t p = vp::u8(), e = vp::u8() & 3;
    VP_REQUIRES(p == 1 || p == 2);
    const auto a = make_stream_configuration_request(p, e), b = make_stream_configuration_notification(p, e);
    VP_ENSURES(vpm::words(a, w0(0, 5, uint32_t(p) << 8 | e)) && vpm::words(b, w0(0, 6, uint32_t(p) << 8 | e)));
    VP_ENSURES(vpm::words(make_stream_configuration_request(p), w0(0, 5, uint32_t(p) << 8)) && vpm::words(make_stream_configuration_notification(p), w0(0, 6, uint32_t(p) << 8)));
    const auto va = as_stream_configuration_view(a), vb = as_stream_configuration_view(b);
    VP_ENSURES(va && va->protocol() == p && va->extensions() == e && vb && vb->protocol() == p && vb->extensions() == e);
}
VP_CONTRACT(function_block_discovery)
{
    const uint8_t b = vp::u8(), f = vp::u8() & 3, q = vp::u8() & 31;
    VP_REQUIRES(b == 0xFF || b < 32);
    const auto m = make_function_block_discovery_message(b, f);
    VP_ENSURES(vpm::words(m, w0(0, 0x10, uint32_t(b) << 8 | f)));
    const auto v = as_function_block_discovery_view(m);
    VP_ENSURES(v && v->function_block() == b && v->filter() == f && v->requests_info() == ((f & 1) != 0) && v->requests_name() == ((f & 2) != 0));
    VP_ENSURES(v && v->requests_function_block(q) == (b == 0xFF || b == q));
}
VP_CONTRACT(function_block_info)
{
    const uint8_t b = vp::u8() & 31, d = vp::u8(), g = vp::u4(), n = vp::u4();
    VP_REQUIRES(d >= 1 && d <= 3);
    const auto m = make_function_block_info_message(b, d, g, n);
    VP_ENSURES(vpm::words(m, w0(0, 0x11, 0x8000u | uint32_t(b) << 8 | uint32_t(d) << 4 | d), uint32_t(g) << 24 | uint32_t(n) << 16));
    VP_ENSURES(vpm::words(make_function_block_info_message(b, d, g), m.data[0], uint32_t(g) << 24 | 0x10000u));
    function_block_options o;
    VP_ENSURES(o.active && o.direction == 3 && o.midi1 == 0 && o.ui_hint == 0 && o.ci_message_version == 0 && o.max_num_sysex8_streams == 0);
    o.active = vp::flag(); o.direction = d; o.midi1 = vp::u8(); o.ui_hint = vp::u8(); o.ci_message_version = vp::u8(); o.max_num_sysex8_streams = vp::u8();
    VP_REQUIRES(o.midi1 <= 2 && o.ui_hint <= 3 && (o.ui_hint == 0 || (o.ui_hint & d)));
    const auto m2 = make_function_block_info_message(b, o, g, n);
    const uint32_t hint = o.ui_hint ? o.ui_hint : d;
    VP_ENSURES(vpm::words(m2, w0(0, 0x11, (o.active ? 0x8000u : 0u) | uint32_t(b) << 8 | hint << 4 | uint32_t(o.midi1) << 2 | d),
                          uint32_t(g) << 24 | uint32_t(n) << 16 | uint32_t(o.ci_message_version) << 8 | o.max_num_sysex8_streams));
    const auto v = as_function_block_info_view(m2);
    VP_ENSURES(v && v->active() == o.active && v->function_block() == b && v->direction() == d && v->midi1() == o.midi1 && v->ui_hint() == hint);
    VP_ENSURES(v && v->first_group() == g && v->num_groups_spanned() == n && v->ci_message_version() == o.ci_message_version && v->max_num_sysex8_streams() == o.max_num_sysex8_streams);
}
// a view exists exactly for stream packets of that status, whatever else the packet contains
VP_CONTRACT(views_exact)
{
    const universal_packet p = vpm::any_packet();
    const bool     s  = p.data[0] >> 28 == 0xF;
    const unsigned st = (p.data[0] >> 16) & 0xFF;
    VP_ENSURES(is_stream_message(p) == s);
    VP_ENSURES(as_endpoint_discovery_view(p).has_value() == (s && st == 0) && as_endpoint_info_view(p).has_value() == (s && st == 1));
    VP_ENSURES(as_device_identity_view(p).has_value() == (s && st == 2) && as_endpoint_name_view(p).has_value() == (s && st == 3));
    VP_ENSURES(as_product_instance_id_view(p).has_value() == (s && st == 4) && as_stream_configuration_view(p).has_value() == (s && (st == 5 || st == 6)));
    VP_ENSURES(as_function_block_discovery_view(p).has_value() == (s && st == 0x10) && as_function_block_info_view(p).has_value() == (s && st == 0x11));
    VP_ENSURES(as_function_block_name_view(p).has_value() == (s && st == 0x12));
}
// text packets: layout and reading back of up to 14 (13) characters
template<class View> static void check_name(const stream_message& m, unsigned status, packet_format f, const std::string& s, unsigned first, View v)
{
    VP_ENSURES((m.data[0] >> 16) == (0xF000u | unsigned(f) << 10 | status));
    bool ok = true;
    for (unsigned i = 0; i < 16 - first; ++i)
    {
        const uint8_t want = i < s.size() ? uint8_t(s[i]) : 0;
        ok &= vpm::byte(m, first + i) == want;
    }
    VP_ENSURES(ok);
    VP_ENSURES(v && v->format() == f && v->payload() == s);
}
static void no_nul(const std::string& s, size_t max)
{
    bool ok = true;
    for (size_t i = 0; i < max; ++i) ok &= i >= s.size() || s[i] != 0;
    VP_REQUIRES(ok);
}
VP_CONTRACT(names_endpoint)
{
    const auto        f = any_format();
    const std::string s = any_string(14);
    no_nul(s, 14);
    const auto m = make_endpoint_name_message(f, s);
    check_name(m, 3, f, s, 2, as_endpoint_name_view(m));
}
VP_CONTRACT(names_product)
{
    const auto   f = any_format();
    const size_t n = vp::len(14);
    std::string  s; s.resize(n); __vp_bytes(&s[0], n, 0x7F);
    VP_REQUIRES(f != packet_format::cont);
    no_nul(s, 14);
    const auto m = make_product_instance_id_message(f, s);
    check_name(m, 4, f, s, 2, as_product_instance_id_view(m));
}
VP_CONTRACT(names_function_block)
{
    const auto        f = any_format();
    const uint8_t     b = vp::u7();
    const std::string s = any_string(13);
    no_nul(s, 13);
    const auto m = make_function_block_name_message(f, b, s);
    check_name(m, 0x12, f, s, 3, as_function_block_name_view(m));
    VP_ENSURES(vpm::byte(m, 2) == b && as_function_block_name_view(m)->function_block() == b);
}

// splitting: for names of any length the packets carry the whole text in order, with the right formats
template<unsigned First> struct split_monitor
{
    const std::string& s;
    unsigned           status;
    uint8_t            block;
    size_t             pos = 0, count = 0;
    void operator()(const stream_message& m)
    {
        const size_t   max = 16 - First, left = s.size() - pos, k = left < max ? left : max;
        const unsigned fmt = pos == 0 ? (left <= max ? 0 : 1) : (left <= max ? 3 : 2);
        VP_ENSURES(count == 0 || left > 0);
        VP_ENSURES((m.data[0] >> 16) == (0xF000u | fmt << 10 | status));
        VP_ENSURES(First == 2 || vpm::byte(m, 2) == block);
        for (unsigned i = 0; i < max; ++i)
        {
            const uint8_t want = i < k ? uint8_t(s[pos + i]) : 0;
            VP_ENSURES(vpm::byte(m, First + i) == want);
        }
        pos += k;
        ++count;
    }
};
VP_CONTRACT(send_endpoint_name)
{
    const std::string s = any_string(vp::any);
    split_monitor<2>  mon{ s, 3, 0 };
    send_endpoint_name(s, [&](const stream_message& m) { mon(m); });
    VP_ENSURES(mon.pos == s.size() && mon.count == (s.size() == 0 ? 1 : (s.size() + 13) / 14));
}
VP_CONTRACT(send_function_block_name)
{
    const uint8_t     b = vp::u7();
    const std::string s = any_string(vp::any);
    split_monitor<3>  mon{ s, 0x12, b };
    send_function_block_name(b, s, [&](const stream_message& m) { mon(m); });
    VP_ENSURES(mon.pos == s.size() && mon.count == (s.size() == 0 ? 1 : (s.size() + 12) / 13));
}
VP_CONTRACT(send_product_instance_id)
{
    const size_t n = vp::len(16);
    std::string  s; s.resize(n); __vp_bytes(&s[0], n, 0x7F);
    split_monitor<2> mon{ s, 4, 0 };
    send_product_instance_id(s, [&](const stream_message& m) { mon(m); });
    VP_ENSURES(mon.pos == n && mon.count == (n <= 14 ? 1 : 2));
}
