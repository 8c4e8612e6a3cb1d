// P22: profile configuration: views of messages of any length and content, factories with any number of profiles / any amount of data.
//@opt list_.* unroll=2 budget=300
//@opt bounded_.* unroll=60 budget=200
#include "vpci.h"
using namespace midi;
using namespace vpci;

static bool same(const ci::profile_id& a, const ci::profile_id& b) { return a.byte1 == b.byte1 && a.byte2 == b.byte2 && a.byte3 == b.byte3 && a.byte4 == b.byte4 && a.byte5 == b.byte5; }
static void watch(size_t i) { __vp_watch(i); __vp_watch(i + 1); __vp_watch(i + 2); __vp_watch(i + 3); __vp_watch(i + 4); }
VP_CONTRACT(v_simple)
{
    sysex7 s; any_message(s, 0x7F);
    const auto q = ci::as<ci::profile_inquiry_view>(s);
    VP_ENSURES(q.has_value() == is_ci(s, 12, 0x20, 0x20));
    if (q) common(*q, s);
    const auto i = ci::as<ci::profile_id_view>(s);
    VP_ENSURES(i.has_value() == is_ci(s, 17, 0x22, 0x27));
    if (i) { common(*i, s); VP_ENSURES(eq(i->profile(), s, 12)); }
    const auto d = ci::as<ci::profile_destination_view>(s);
    VP_ENSURES(d.has_value() == is_ci(s, 19, 0x22, 0x25));
    if (d) { VP_ENSURES(eq(d->profile(), s, 12) && d->num_channels() == u14(s, 17) && d->params().scope == s.data[0] && d->params().num_channels == u14(s, 17)); }
}
VP_CONTRACT(v_details)
{
    sysex7 s; any_message(s, 0x7F);
    const auto i = ci::as<ci::profile_details_inquiry_view>(s);
    VP_ENSURES(i.has_value() == is_ci(s, 18, 0x28, 0x28));
    if (i) { common(*i, s); VP_ENSURES(eq(i->profile(), s, 12) && i->target() == s.data[17]); }
    const auto r = ci::as<ci::profile_details_reply_view>(s);
    VP_ENSURES(r.has_value() == (is_ci(s, 20, 0x29, 0x29) && s.data.size() >= 20 + u14(s, 18)));
    if (r) { common(*r, s); VP_ENSURES(eq(r->profile(), s, 12) && r->target() == s.data[17] && r->target_data_length() == u14(s, 18) && r->target_data() == s.data.data() + 20); }
    const auto p = ci::as<ci::profile_specific_data_view>(s);
    VP_ENSURES(p.has_value() == (is_ci(s, 21, 0x2F, 0x2F) && s.data.size() >= size_t(21) + u28(s, 17)));
    if (p) { common(*p, s); VP_ENSURES(eq(p->profile(), s, 12) && p->data_size() == u28(s, 17) && p->data_begin() == s.data.data() + 21 && p->data_end() == s.data.data() + 21 + u28(s, 17)); }
}
// inquiry reply: two lists of profiles
struct lists
{
    const sysex7& s;
    size_t        ne() const { return u14(s, 12); }
    size_t        nd() const { return u14(s, 14 + 5 * ne()); }
    bool          valid() const { return is_ci(s, 16, 0x21, 0x21) && s.data.size() >= 16 + 5 * ne() && s.data.size() >= 16 + 5 * ne() + 5 * nd(); }
};
VP_CONTRACT(v_inquiry_reply)
{
    sysex7 s; any_message(s, 0x7F);
    const auto  v = ci::as<ci::profile_inquiry_reply_view>(s);
    const lists l{ s };
    VP_ENSURES(v.has_value() == l.valid());
    if (!v) return;
    common(*v, s);
    VP_ENSURES(v->num_enabled_profiles() == l.ne() && v->num_disabled_profiles() == l.nd() && v->has_enabled_profiles() == (l.ne() != 0) && v->has_disabled_profiles() == (l.nd() != 0));
}
// the lists read from any accepted message: profile k of the list is bytes 5k.. of its place
VP_CONTRACT(list_enabled)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = ci::as<ci::profile_inquiry_reply_view>(s);
    if (!v) return;
    const lists  l{ s };
    const size_t k = vp::len(vp::any);
    watch(5 * k);
    const auto e = v->enabled_profiles();
    VP_ENSURES(e.size() == l.ne());
    if (k < e.size()) VP_ENSURES(eq(e[k], s, 14 + 5 * k));
}
VP_CONTRACT(list_disabled)
{
    sysex7 s; any_message(s, 0x7F);
    const auto v = ci::as<ci::profile_inquiry_reply_view>(s);
    if (!v) return;
    const lists  l{ s };
    const size_t k = vp::len(vp::any);
    watch(5 * k);
    const auto d = v->disabled_profiles();
    VP_ENSURES(d.size() == l.nd());
    if (k < d.size()) VP_ENSURES(eq(d[k], s, 16 + 5 * l.ne() + 5 * k));
}
static unsigned sink;
VP_CONTRACT(safe_views)
{
    sysex7 s; any_message(s, 0xFF);
    const size_t n = s.data.size();
    if (const auto v = ci::as<ci::profile_inquiry_view>(s)) sink += v->source_muid() + v->destination_muid();
    if (const auto v = ci::as<ci::profile_id_view>(s)) sink += v->source_muid() + v->profile().byte5;
    if (const auto v = ci::as<ci::profile_destination_view>(s)) sink += v->profile().byte5 + v->num_channels() + v->params().scope;
    if (const auto v = ci::as<ci::profile_details_inquiry_view>(s)) sink += v->profile().byte5 + v->target();
    if (const auto v = ci::as<ci::profile_details_reply_view>(s)) { sink += v->profile().byte5 + v->target(); VP_ENSURES(size_t(v->target_data() - s.data.data()) + v->target_data_length() <= n); }
    if (const auto v = ci::as<ci::profile_specific_data_view>(s)) { sink += v->profile().byte5; VP_ENSURES(size_t(v->data_begin() - s.data.data()) + v->data_size() <= n && v->data_end() == v->data_begin() + v->data_size()); }
    if (const auto v = ci::as<ci::profile_inquiry_reply_view>(s)) sink += v->num_enabled_profiles() + v->num_disabled_profiles() + v->has_enabled_profiles() + v->has_disabled_profiles();
    VP_ENSURES(true);
}
VP_CONTRACT(list_safe_enabled)
{
    sysex7 s; any_message(s, 0xFF);
    if (const auto v = ci::as<ci::profile_inquiry_reply_view>(s)) VP_ENSURES(v->enabled_profiles().size() == v->num_enabled_profiles());
}
VP_CONTRACT(list_safe_disabled)
{
    sysex7 s; any_message(s, 0xFF);
    if (const auto v = ci::as<ci::profile_inquiry_reply_view>(s)) VP_ENSURES(v->disabled_profiles().size() == v->num_disabled_profiles());
}
// ---- factories
VP_CONTRACT(on_off_and_reports)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const auto     p = any_profile();
    const uint8_t  dev = vp::u7();
    const ci::profile_destination d{ vp::u7(), vp::u14() };
    const auto chk = [&](const ci::message& m, unsigned sub, unsigned n) {
        const auto v = ci::as<ci::profile_destination_view>(m);
        return head(m, sub, src, dst, d.scope) && m.data.size() == 19 && eq(p, m, 12) && u14(m, 17) == n && m.data[17] < 128 && m.data[18] < 128 && v && same(v->profile(), p) && v->params().scope == d.scope && v->num_channels() == n;
    };
    VP_ENSURES(chk(ci::make_profile_on_request(src, dst, p, d), 0x22, d.num_channels) && chk(ci::make_profile_off_request(src, dst, p, d), 0x23, 0));
    VP_ENSURES(chk(ci::make_profile_enabled_notification(src, dst, p, d), 0x24, d.num_channels) && chk(ci::make_profile_disabled_notification(src, dst, p, d), 0x25, d.num_channels));
    const auto a = ci::make_profile_added_notification(src, dst, p, dev), r = ci::make_profile_removed_notification(src, dst, p, dev);
    VP_ENSURES(head(a, 0x26, src, dst, dev) && a.data.size() == 17 && eq(p, a, 12) && same(ci::as<ci::profile_id_view>(a)->profile(), p));
    VP_ENSURES(head(r, 0x27, src, dst, dev) && r.data.size() == 17 && eq(p, r, 12) && same(ci::as<ci::profile_id_view>(r)->profile(), p));
    const auto q = ci::make_profile_inquiry_message(src, dst, dev);
    VP_ENSURES(head(q, 0x20, src, dst, dev) && q.data.size() == 12 && ci::as<ci::profile_inquiry_view>(q));
}
VP_CONTRACT(details)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const auto     p = any_profile();
    const uint8_t  dev = vp::u7(), t = vp::u7();
    const auto     q = ci::make_profile_details_inquiry(src, dst, p, t, dev);
    VP_ENSURES(head(q, 0x28, src, dst, dev) && q.data.size() == 18 && eq(p, q, 12) && q.data[17] == t);
    sysex7       d;
    const size_t n = vp::len(0x3FFF), k = vp::u14();
    d.data.resize(n);
    __vp_bytes(d.data.data(), n, 0x7F);
    VP_REQUIRES(k < n || n == 0);
    const auto r = ci::make_profile_details_reply(src, dst, p, t, d.data.data(), n, dev);
    VP_ENSURES(head(r, 0x29, src, dst, dev) && r.data.size() == 20 + n && eq(p, r, 12) && r.data[17] == t && u14(r, 18) == n && (n == 0 || r.data[20 + k] == d.data[k]));
    const auto v = ci::as<ci::profile_details_reply_view>(r);
    VP_ENSURES(v && v->target_data_length() == n && (n == 0 || v->target_data()[k] == d.data[k]));
}
// profile specific data: the size field has 28 bits
VP_CONTRACT(specific_data)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const auto     p = any_profile();
    const uint8_t  dev = vp::u7();
    std::vector<uint7_t> d;
    const size_t n = vp::len(0x0FFFFFFF), k = vp::u28();
    d.resize(n);
    __vp_bytes(d.data(), n, 0x7F);
    VP_REQUIRES(k < n || n == 0);
    const auto r = vp::flag() ? ci::make_profile_specific_data_message(src, dst, p, d, dev) : ci::make_profile_specific_data_message(src, dst, p, d.data(), n, dev);
    VP_ENSURES(head(r, 0x2F, src, dst, dev) && r.data.size() == 21 + n && eq(p, r, 12) && u28(r, 17) == n && (n == 0 || r.data[21 + k] == d[k]));
    const auto v = ci::as<ci::profile_specific_data_view>(r);
    VP_ENSURES(v && v->data_size() == n && (n == 0 || v->data_begin()[k] == d[k]));
}
struct plist
{
    std::vector<ci::profile_id> v;
    plist(size_t max)
    {
        const size_t n = vp::len(max);
        v.resize(n);
        __vp_bytes(v.data(), n * sizeof(ci::profile_id), 0x7F);
    }
};
// inquiry reply with any number of enabled profiles, and with any number of disabled profiles
VP_CONTRACT(list_reply_enabled)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const uint8_t  dev = vp::u7();
    const plist    e(0x3FFF);
    const size_t   n = e.v.size(), k = vp::u14();
    watch(14 + 5 * k);
    const auto m = ci::make_profile_inquiry_reply(src, dst, e.v.data(), uint14_t(n), nullptr, 0, dev);
    VP_ENSURES(head(m, 0x21, src, dst, dev));
    VP_ENSURES(m.data.size() == 16 + 5 * n && u14(m, 12) == n && m.data[14 + 5 * n] == 0 && m.data[15 + 5 * n] == 0);
    if (k < n) VP_ENSURES(eq(e.v[k], m, 14 + 5 * k));
}
VP_CONTRACT(list_reply_disabled)
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const uint8_t  dev = vp::u7();
    const plist    d(0x3FFF);
    const size_t   n = d.v.size(), k = vp::u14();
    watch(16 + 5 * k);
    const auto m = ci::make_profile_inquiry_reply(src, dst, nullptr, 0, d.v.data(), uint14_t(n), dev);
    VP_ENSURES(head(m, 0x21, src, dst, dev));
    VP_ENSURES(m.data.size() == 16 + 5 * n && u14(m, 14) == n && m.data[12] == 0 && m.data[13] == 0);
    if (k < n) VP_ENSURES(eq(d.v[k], m, 16 + 5 * k));
}
VP_CONTRACT(bounded_reply_both) // bounded: up to 3 profiles in each list
{
    const uint32_t src = vp::u28(), dst = vp::u28();
    const plist    e(3), d(3);
    const auto     m = ci::make_profile_inquiry_reply(src, dst, e.v, d.v);
    VP_ENSURES(head(m, 0x21, src, dst, 0x7F) && m.data.size() == 16 + 5 * (e.v.size() + d.v.size()));
    const auto v = ci::as<ci::profile_inquiry_reply_view>(m);
    VP_ENSURES(v && v->num_enabled_profiles() == e.v.size() && v->num_disabled_profiles() == d.v.size());
    if (!v) return;
    const auto e2 = v->enabled_profiles(), d2 = v->disabled_profiles();
    VP_ENSURES(e2.size() == e.v.size() && d2.size() == d.v.size());
    for (size_t i = 0; i < 3; ++i)
    {
        if (i < e.v.size()) VP_ENSURES(same(e.v[i], e2[i]));
        if (i < d.v.size()) VP_ENSURES(same(d.v[i], d2[i]));
    }
}
