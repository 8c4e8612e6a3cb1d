// P24: text form of packets: eight hex digits per word, one blank between words, stream formatting untouched, reading inverts writing.
//@stubs stubs_io
//@opt .* unroll=200
#include "vpm.h"
#include <iomanip>
#include <sstream>
using namespace midi;

namespace {
unsigned words_of(const universal_packet& p)
{
    static const uint8_t n[16] = { 1, 1, 1, 2, 2, 4, 1, 1, 2, 2, 2, 3, 3, 4, 4, 4 };
    return n[p.data[0] >> 28];
}
// any base, adjustment, prefix and fill setting
void any_format(std::stringstream& s)
{
    using io        = std::ios_base;
    const uint8_t b = vp::u8() % 3, a = vp::u8() % 3, x = vp::u8() & 1;
    s.setf(b == 0 ? io::dec : b == 1 ? io::hex : io::oct, io::basefield);
    s.setf(a == 0 ? io::right : a == 1 ? io::left : io::internal, io::adjustfield);
    s.setf(x ? io::showbase : io::fmtflags(), io::showbase);
    s.fill(char(vp::u8()));
}
bool hex_word(const std::string& t, size_t at, uint32_t v)
{
    bool ok = true;
    for (unsigned i = 0; i < 8; ++i)
    {
        const unsigned d = (v >> (28 - 4 * i)) & 15;
        ok               = ok & (t[at + i] == (d < 10 ? char('0' + d) : char('a' + d - 10)));
    }
    return ok;
}
universal_packet blank() { return universal_packet{ vp::u32(), vp::u32(), vp::u32(), vp::u32() }; }
} // namespace

VP_CONTRACT(text_format)
{
    const universal_packet p = vpm::any_packet();
    std::stringstream      s;
    any_format(s);
    const auto f = s.flags();
    const char c = s.fill();
    s << p;
    VP_ENSURES(s.good() && s.flags() == f && s.fill() == c && s.width() == 0);
    const std::string t = s.str();
    const unsigned    n = words_of(p);
    VP_ENSURES(t.size() == 9 * n - 1);
    for (unsigned w = 0; w < n; ++w)
    {
        VP_ENSURES(hex_word(t, 9 * w, p.data[w]));
        VP_ENSURES(w == 0 || t[9 * w - 1] == ' ');
    }
}
VP_CONTRACT(text_round_trip)
{
    const universal_packet p = vpm::any_packet();
    std::stringstream      s;
    any_format(s);
    s << p;
    any_format(s);
    const auto       f = s.flags();
    const char       c = s.fill();
    universal_packet q = blank();
    s >> q;
    VP_ENSURES(!s.fail() && s.flags() == f && s.fill() == c);
    VP_ENSURES(q == p && q.size() == p.size());
}
VP_CONTRACT(text_of_two_packets)
{
    const universal_packet p = vpm::any_packet(), q = vpm::any_packet();
    std::stringstream      s;
    s << p << (vp::u8() & 1 ? '\n' : ' ') << q;
    universal_packet a = blank(), b = blank();
    s >> a;
    VP_ENSURES(s.good() && a == p);
    s >> b;
    VP_ENSURES(!s.fail() && b == q);
}
// text that ends early or is no number: the stream fails, words after the fault keep their value
VP_CONTRACT(text_invalid)
{
    const universal_packet p = vpm::any_packet();
    const unsigned         n = words_of(p), k = vp::u8() & 3;
    VP_REQUIRES(k < n);
    std::stringstream s;
    s << std::hex << std::setfill('0');
    for (unsigned w = 0; w < k; ++w) s << std::setw(8) << p.data[w] << ' ';
    if (vp::u8() & 1) s << 'z';
    const universal_packet o = blank();
    universal_packet       q = o;
    const auto             f = s.flags();
    s >> q;
    VP_ENSURES(s.fail() && s.flags() == f);
    for (unsigned w = 0; w < 4; ++w)
    {
        VP_ENSURES(w >= k || q.data[w] == p.data[w]);
        VP_ENSURES(w <= k || q.data[w] == o.data[w]);
    }
}
