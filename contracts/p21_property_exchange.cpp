// P21: property exchange: views accept exactly well formed messages of any length and content, factories carry header and chunk
// of any size, header texts are the specified JSON.
//@opt bounded_.* unroll=40 budget=200
//@opt rjson.* budget=200
//@opt rjson_int unroll=40
//@opt status_.* unroll=40
#include "vpci.h"
using namespace midi;
using namespace vpci;
namespace pe = ci::property_exchange;

struct pd // independent reading of a property data message
{
    const sysex7& s;
    size_t        h() const { return u14(s, 13); }
    size_t        chunks() const { return u14(s, 15 + h()); }
    size_t        cur() const { return u14(s, 17 + h()); }
    size_t        size() const { return u14(s, 19 + h()); }
    bool          valid() const
    {
        if (!is_ci(s, 21, 0x34, 0x3F) || (s.data[2] > 0x39 && s.data[2] < 0x3F) || s.data.size() < 21 + h()) return false;
        if (chunks() && cur() > chunks()) return false; // chunk number beyond the announced number
        if (h() && cur() > 1) return false;             // header only in the first chunk
        if (size() && cur() < 1) return false;          // data only in a numbered chunk
        return s.data.size() >= 21 + h() + size();
    }
};
template<typename V> static void reads(const V& v, const sysex7& s)
{
    const pd p{ s };
    common(v, s);
    VP_ENSURES(v.request_id() == s.data[12] && v.header_size() == p.h() && v.header_begin() == s.data.data() + 15 && v.header_end() == s.data.data() + 15 + p.h());
    VP_ENSURES(v.number_of_chunks() == p.chunks() && v.number_of_this_chunk() == p.cur() && v.chunk_size() == p.size());
    VP_ENSURES(v.chunk_begin() == s.data.data() + 21 + p.h() && v.chunk_end() == s.data.data() + 21 + p.h() + p.size());
}
VP_CONTRACT(view)
{
    sysex7 s; any_message(s, 0x7F);
    const bool ok = pd{ s }.valid();
    const auto v  = ci::as<pe::property_data_message_view>(s);
    VP_ENSURES(v.has_value() == ok && pe::property_data_message_view::validate(s) == ok);
    if (v) reads(*v, s);
}
VP_CONTRACT(view_kinds)
{
    sysex7 s; any_message(s, 0x7F);
    const bool ok = pd{ s }.valid();
    const unsigned t = ok ? s.data[2] : 0;
    VP_ENSURES(ci::get_property_data_view::validate(s) == (t == 0x34 || t == 0x35) && ci::set_property_data_view::validate(s) == (t == 0x36 || t == 0x37));
    VP_ENSURES(ci::subscription_view::validate(s) == (t == 0x38 || t == 0x39) && ci::notify_view::validate(s) == (t == 0x3F));
}
static unsigned sink;
VP_CONTRACT(safe_views)
{
    sysex7 s; any_message(s, 0xFF);
    if (const auto v = ci::as<pe::property_data_message_view>(s))
    {
        sink += v->source_muid() + v->destination_muid() + v->request_id() + v->number_of_chunks() + v->number_of_this_chunk();
        const size_t n = s.data.size(), h = size_t(v->header_begin() - s.data.data()), c = size_t(v->chunk_begin() - s.data.data());
        VP_ENSURES(h <= n && v->header_size() <= n - h && c <= n && v->chunk_size() <= n - c);
        VP_ENSURES(v->header_end() == v->header_begin() + v->header_size() && v->chunk_end() == v->chunk_begin() + v->chunk_size());
    }
    if (const auto v = ci::as<ci::property_exchange_capabilities_view>(s)) sink += v->source_muid() + v->maximum_number_of_requests() + v->pe_version_major() + v->pe_version_minor();
    VP_ENSURES(true);
}
VP_CONTRACT(capabilities)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = ci::as<ci::property_exchange_capabilities_view>(s);
    VP_ENSURES(v.has_value() == (is_ci(s, 13, 0x30, 0x31) && (s.data[3] < 2 || s.data.size() >= 15)));
    if (v) { common(*v, s); VP_ENSURES(v->maximum_number_of_requests() == s.data[12] && v->pe_version_major() == (s.data[3] >= 2 ? s.data[13] : 0) && v->pe_version_minor() == (s.data[3] >= 2 ? s.data[14] : 0)); }
    const uint32_t src = vp::u28(), dst = vp::u28();
    const uint8_t  n = vp::u7(), dev = vp::u7();
    const auto     q = ci::make_property_exchange_capabilities_inquiry(src, dst, n, dev), r = ci::make_property_exchange_capabilities_reply(src, dst, n, dev);
    VP_ENSURES(head(q, 0x30, src, dst, dev) && q.data.size() == 15 && q.data[12] == n && q.data[13] == 0 && q.data[14] == 0);
    VP_ENSURES(head(r, 0x31, src, dst, dev) && r.data.size() == 15 && r.data[12] == n && r.data[13] == 0 && r.data[14] == 0);
}

// ---- factories
struct args
{
    uint32_t    src = vp::u28(), dst = vp::u28();
    uint8_t     req = vp::u7(), dev = vp::u7();
    uint16_t    chunks = vp::u14(), cur = vp::u14();
    std::string chunk;
    size_t      j = vp::u14();
    args()
    {
        const size_t n = vp::len(0x3FFF);
        chunk.resize(n);
        __vp_bytes(&chunk[0], n, 0x7F);
        VP_REQUIRES((j < n || n == 0) && (cur || n == 0) && (chunks == 0 || cur <= chunks));
    }
};
static std::string any_text(size_t max)
{
    std::string  s;
    const size_t n = vp::len(max);
    s.resize(n);
    __vp_bytes(&s[0], n, 0x7F);
    return s;
}
// the message carries this header and chunk
static bool carries(const ci::message& m, unsigned sub, const args& a, const std::string& h, size_t k, size_t chunks, size_t cur, const std::string& c)
{
    const size_t n = h.size();
    return head(m, sub, a.src, a.dst, a.dev) && m.data.size() == 21 + n + c.size() && m.data[12] == a.req && m.data[13] < 128 && m.data[14] < 128 && u14(m, 13) == n && (k >= n || m.data[15 + k] == uint8_t(h[k])) &&
           u14(m, 15 + n) == chunks && u14(m, 17 + n) == cur && u14(m, 19 + n) == c.size() && m.data[15 + n] < 128 && m.data[17 + n] < 128 && m.data[19 + n] < 128 && (a.j >= c.size() || m.data[21 + n + a.j] == uint8_t(c[a.j]));
}
VP_CONTRACT(property_data_message)
{
    const args        a;
    const std::string h = any_text(0x3FFF);
    const size_t      k = vp::u14();
    const uint8_t     sub = vp::u7();
    VP_REQUIRES(k < h.size() || h.empty());
    const auto m = pe::make_property_data_message(sub, a.src, a.dst, pe::header{ h }, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev);
    VP_ENSURES(carries(m, sub, a, h, k, a.chunks, a.cur, a.chunk));
    // readable again, if the combination is one the views accept
    if (sub >= 0x34 && sub <= 0x39 && (h.empty() || a.cur <= 1))
    {
        const auto v = ci::as<pe::property_data_message_view>(m);
        VP_ENSURES(v && v->header_size() == h.size() && v->chunk_size() == a.chunk.size() && v->number_of_chunks() == a.chunks && v->number_of_this_chunk() == a.cur && v->request_id() == a.req);
        if (k < h.size()) VP_ENSURES(v->header_begin()[k] == uint8_t(h[k]));
        if (a.j < a.chunk.size()) VP_ENSURES(v->chunk_begin()[a.j] == uint8_t(a.chunk[a.j]));
    }
}
VP_CONTRACT(property_data_views_of_buffers)
{
    const std::string t = any_text(vp::any);
    const pe::header  h1(t.data(), t.size()), h2{ std::string_view(t) }, h3((const uint8_t*)t.data(), t.size());
    VP_ENSURES(h1.size == t.size() && h2.size == t.size() && h3.size == t.size() && (const void*)h1.data == t.data() && (const void*)h2.data == t.data() && (const void*)h3.data == t.data());
    VP_ENSURES(h1.as_string_view().size() == t.size() && h1.as_string_view().data() == t.data() && pe::chunk{}.size == 0 && pe::chunk{}.data == nullptr);
}
// JSON texts: every literal character, and an arbitrary character (index k) of every text segment, is at its place
struct cat
{
    size_t pos = 0, k;
    bool   ok = true;
    const std::string& r;
    cat(const std::string& x, size_t n, size_t kk) : k(kk), r(x) { ok = r.size() == n; }
    cat& lit(const char* s) { if (ok) for (; *s; ++s, ++pos) ok = ok & (r[pos] == *s); return *this; }
    cat& txt(const std::string& s) { if (ok && k < s.size()) ok = r[pos + k] == s[k]; pos += s.size(); return *this; }
};
VP_CONTRACT(rjson_text)
{
    const std::string key = any_text(vp::any), val = any_text(vp::any);
    const size_t      k = vp::len(vp::any);
    const std::string r = pe::make_rjson(key, std::string_view(val));
    VP_ENSURES(cat(r, 7 + key.size() + val.size(), k).lit("{\"").txt(key).lit("\":\"").txt(val).lit("\"}").ok);
    const std::string e = pe::make_rjson(key, std::string_view(val), pe::header_options{});
    VP_ENSURES(cat(e, 7 + key.size() + val.size(), k).lit("{\"").txt(key).lit("\":\"").txt(val).lit("\"}").ok);
}
VP_CONTRACT(rjson_int)
{
    const std::string key = any_text(vp::any);
    const int         n = int(vp::u32());
    const size_t      k = vp::len(vp::any);
    const std::string r = pe::make_rjson(key, n), d = std::to_string(n);
    VP_ENSURES(cat(r, 5 + key.size() + d.size(), k).lit("{\"").txt(key).lit("\":").txt(d).lit("}").ok);
}
// an option is written without quotes only if it is a number: never empty, never a lone minus, digits only
static void rjson_option(size_t k)
{
    const std::string ov = any_text(vp::any);
    __vp_watch(k);
    const std::string r = pe::make_rjson("ab", std::string_view("cde"), pe::header_options{ { std::string_view("f"), std::string_view(ov) } });
    const size_t n = 17 + ov.size();
    if (r.size() == n + 2) VP_ENSURES(cat(r, n + 2, k).lit("{\"ab\":\"cde\",\"f\":\"").txt(ov).lit("\"}").ok);
    else
    {
        VP_ENSURES(cat(r, n, k).lit("{\"ab\":\"cde\",\"f\":").txt(ov).lit("}").ok);
        VP_ENSURES(!ov.empty());
        if (k < ov.size()) VP_ENSURES((ov[k] >= '0' && ov[k] <= '9') || (k == 0 && ov[k] == '-' && ov.size() > 1));
    }
}
VP_CONTRACT(rjson_option_first) { rjson_option(0); }
VP_CONTRACT(rjson_option_rest) { const size_t k = vp::len(vp::any); VP_REQUIRES(k > 0); rjson_option(k); }
static void rjson_int_option(size_t k)
{
    const std::string ov = any_text(vp::any);
    __vp_watch(k);
    const std::string r = pe::make_rjson("ab", 404, pe::header_options{ { std::string_view("f"), std::string_view(ov) } });
    const size_t n = 15 + ov.size();
    if (r.size() == n + 2) VP_ENSURES(cat(r, n + 2, k).lit("{\"ab\":404,\"f\":\"").txt(ov).lit("\"}").ok);
    else
    {
        VP_ENSURES(cat(r, n, k).lit("{\"ab\":404,\"f\":").txt(ov).lit("}").ok);
        VP_ENSURES(!ov.empty());
        if (k < ov.size()) VP_ENSURES((ov[k] >= '0' && ov[k] <= '9') || (k == 0 && ov[k] == '-' && ov.size() > 1));
    }
}
VP_CONTRACT(rjson_int_option_first) { rjson_int_option(0); }
VP_CONTRACT(rjson_int_option_rest) { const size_t k = vp::len(vp::any); VP_REQUIRES(k > 0); rjson_int_option(k); }
// value and option key of any length, two options (one number, one text)
VP_CONTRACT(rjson_two_options)
{
    const std::string val = any_text(vp::any), o1 = any_text(vp::any);
    const size_t      k = vp::len(vp::any);
    const std::string r = pe::make_rjson("k", std::string_view(val), pe::header_options{ { std::string_view(o1), std::string_view("-17") }, { std::string_view("zz"), std::string_view("1x") } });
    VP_ENSURES(cat(r, 25 + val.size() + o1.size(), k).lit("{\"k\":\"").txt(val).lit("\",\"").txt(o1).lit("\":-17,\"zz\":\"1x\"}").ok);
}
// header texts the factories put into the message (resource and texts of any length)
struct hdr
{
    std::string a = any_text(1000);
    size_t      k = vp::len(1000);
};
VP_CONTRACT(get_inquiry)
{
    const args a; const hdr h;
    const auto m = ci::make_get_property_data_inquiry(a.src, a.dst, h.a, a.req, a.dev);
    const std::string want = pe::make_rjson("resource", std::string_view(h.a));
    VP_ENSURES(carries(m, 0x34, a, want, h.k, 1, 1, {}) && ci::as<ci::get_property_data_view>(m));
}
VP_CONTRACT(set_inquiry)
{
    const args a; const hdr h;
    VP_REQUIRES(a.cur <= 1);
    const auto m = ci::make_set_property_data_inquiry(a.src, a.dst, h.a, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev);
    const std::string want = pe::make_rjson("resource", std::string_view(h.a));
    VP_ENSURES(carries(m, 0x36, a, want, h.k, a.chunks, a.cur, a.chunk) && ci::as<ci::set_property_data_view>(m));
}
VP_CONTRACT(further_chunks)
{
    const args a;
    const auto g = ci::make_get_property_data_reply(a.src, a.dst, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev);
    VP_ENSURES(carries(g, 0x35, a, {}, 0, a.chunks, a.cur, a.chunk) && ci::as<ci::get_property_data_view>(g));
    const auto s = ci::make_set_property_data_inquiry(a.src, a.dst, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev);
    VP_ENSURES(carries(s, 0x36, a, {}, 0, a.chunks, a.cur, a.chunk) && ci::as<ci::set_property_data_view>(s));
    const auto u = ci::make_subscription_inquiry(a.src, a.dst, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev);
    VP_ENSURES(carries(u, 0x38, a, {}, 0, a.chunks, a.cur, a.chunk) && ci::as<ci::subscription_view>(u));
}
VP_CONTRACT(get_reply_with_header)
{
    const args a; const hdr h;
    VP_REQUIRES(a.cur <= 1);
    const auto m = ci::make_get_property_data_reply(a.src, a.dst, pe::header{ h.a }, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev);
    VP_ENSURES(carries(m, 0x35, a, h.a, h.k, a.chunks, a.cur, a.chunk) && ci::as<ci::get_property_data_view>(m));
}
// status replies (status 0..999)
VP_CONTRACT(status_replies)
{
    const args   a;
    const int    st = vp::u14();
    const size_t k = vp::u4();
    VP_REQUIRES(st <= 999 && a.cur <= 1);
    const std::string want = pe::make_rjson("status", st);
    VP_ENSURES(carries(ci::make_get_property_data_reply(a.src, a.dst, st, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev), 0x35, a, want, k, a.chunks, a.cur, a.chunk));
    VP_ENSURES(carries(ci::make_set_property_data_reply(a.src, a.dst, st, a.req, a.dev), 0x37, a, want, k, 1, 1, {}));
    VP_ENSURES(carries(ci::make_subscription_reply(a.src, a.dst, st, a.req, a.dev), 0x39, a, want, k, 1, 1, {}));
    VP_ENSURES(carries(ci::make_notify_message(a.src, a.dst, st, a.req, a.dev), 0x3F, a, want, k, 1, 1, {}));
}
// replies with a text message, and inquiries with options: the header is the JSON text of status/resource and options
struct xargs : args
{
    std::string txt = any_text(4);
    size_t      k = vp::u8();
    xargs() { VP_REQUIRES(cur <= 1); }
};
VP_CONTRACT(bounded_text_replies) // bounded: texts of up to 4 characters
{
    const xargs a;
    const std::string want = pe::make_rjson("status", 341, pe::header_options{ { pe::tags::message, a.txt } });
    const unsigned    which = vp::u4();
    if (which == 0) VP_ENSURES(carries(ci::make_get_property_data_reply(a.src, a.dst, 341, a.txt, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev), 0x35, a, want, a.k, a.chunks, a.cur, a.chunk));
    if (which == 1) VP_ENSURES(carries(ci::make_set_property_data_reply(a.src, a.dst, 341, a.txt, a.req, a.dev), 0x37, a, want, a.k, 1, 1, {}));
    if (which == 2) VP_ENSURES(carries(ci::make_subscription_reply(a.src, a.dst, 341, a.txt, a.req, a.dev), 0x39, a, want, a.k, 1, 1, {}));
    if (which == 3) VP_ENSURES(carries(ci::make_notify_message(a.src, a.dst, 341, a.txt, a.req, a.dev), 0x3F, a, want, a.k, 1, 1, {}));
}
VP_CONTRACT(bounded_get_with_option) // bounded: texts of up to 4 characters
{
    const xargs              a;
    const pe::header_options o{ { pe::tags::id, a.txt } };
    const std::string        want = pe::make_rjson("resource", std::string_view("Res"), o);
    VP_ENSURES(carries(ci::make_get_property_data_inquiry(a.src, a.dst, "Res", o, a.req, a.dev), 0x34, a, want, a.k, 1, 1, {}));
}
VP_CONTRACT(bounded_set_with_option) // bounded: texts of up to 4 characters
{
    const xargs              a;
    const pe::header_options o{ { pe::tags::id, a.txt } };
    const std::string        want = pe::make_rjson("resource", std::string_view("Res"), o);
    VP_ENSURES(carries(ci::make_set_property_data_inquiry(a.src, a.dst, "Res", o, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev), 0x36, a, want, a.k, a.chunks, a.cur, a.chunk));
}
VP_CONTRACT(bounded_subscription) // bounded: texts of up to 4 characters
{
    const xargs              a;
    const pe::header_options o{ { pe::tags::command, "start" }, { pe::tags::subscribeId, a.txt } };
    const std::string        want = pe::make_rjson("resource", std::string_view("Res"), o);
    if (vp::flag()) VP_ENSURES(carries(ci::make_subscription_inquiry(a.src, a.dst, "Res", "start", a.txt, a.req, a.dev), 0x38, a, want, a.k, 0, 0, {}));
    else VP_ENSURES(carries(ci::make_subscription_inquiry(a.src, a.dst, "Res", "start", a.txt, a.chunks, a.cur, pe::chunk{ a.chunk }, a.req, a.dev), 0x38, a, want, a.k, a.chunks, a.cur, a.chunk));
}
VP_CONTRACT(bounded_number_option) // bounded: options of up to 11 characters, exact decision
{
    const std::string ov = any_text(11);
    const std::string r  = pe::make_rjson("a", std::string_view("b"), pe::header_options{ { std::string_view("c"), std::string_view(ov) } });
    size_t            i = 0;
    if (i < ov.size() && ov[i] == '-') ++i;
    bool num = i < ov.size();
    for (; i < ov.size(); ++i) num = num && ov[i] >= '0' && ov[i] <= '9';
    VP_ENSURES(r.size() == (num ? 14u : 16u) + ov.size());
}
