// Specification model of the formatted text streams (char only) for the deductive verifier: flags, width, fill, state bits,
// formatted output and input of unsigned numbers and characters as the standard prescribes for the classic locale.
#pragma once
#include "vp_prim.h"
#include <iosfwd>
#include <string>
#include <string_view>

namespace std {

using streamsize = ptrdiff_t;

class ios_base
{
  public:
    using fmtflags = unsigned;
    using iostate  = unsigned;
    static constexpr fmtflags dec = 2, hex = 8, oct = 64, basefield = dec | hex | oct;
    static constexpr fmtflags left = 32, right = 128, internal = 16, adjustfield = left | right | internal;
    static constexpr fmtflags showbase = 512, uppercase = 16384, skipws = 4096, boolalpha = 1, showpos = 2048, unitbuf = 8192;
    static constexpr iostate goodbit = 0, badbit = 1, eofbit = 2, failbit = 4;

    fmtflags flags() const { return fl_; }
    fmtflags flags(fmtflags f) { const fmtflags o = fl_; fl_ = f; return o; }
    fmtflags setf(fmtflags f) { const fmtflags o = fl_; fl_ |= f; return o; }
    fmtflags setf(fmtflags f, fmtflags m) { const fmtflags o = fl_; fl_ = (fl_ & ~m) | (f & m); return o; }
    void     unsetf(fmtflags f) { fl_ &= ~f; }
    streamsize width() const { return w_; }
    streamsize width(streamsize w) { const streamsize o = w_; w_ = w; return o; }

    ios_base(const ios_base&) = delete;
    ios_base& operator=(const ios_base&) = delete;

  protected:
    ios_base() = default;
    fmtflags   fl_ = dec | skipws;
    streamsize w_  = 0;
};

template<>
class basic_ios<char, char_traits<char>> : public ios_base
{
  public:
    char    fill() const { return fi_; }
    char    fill(char c) { const char o = fi_; fi_ = c; return o; }
    iostate rdstate() const { return st_; }
    bool    good() const { return st_ == 0; }
    bool    eof() const { return (st_ & eofbit) != 0; }
    bool    fail() const { return (st_ & (failbit | badbit)) != 0; }
    bool    bad() const { return (st_ & badbit) != 0; }
    void    clear(iostate s = 0) { st_ = s; }
    void    setstate(iostate s) { st_ |= s; }
    explicit operator bool() const { return !fail(); }
    bool    operator!() const { return fail(); }

  protected:
    char    fi_ = ' ';
    iostate st_ = 0;
    friend struct vp_text;
    // one text buffer for both directions, as a string stream has
    static constexpr size_t capacity = 160;
    char   text_[capacity] = {};
    size_t put_ = 0, get_ = 0;
    void vp_emit(char c)
    {
        __vp_assert(put_ < capacity, "text model capacity");
        text_[put_++] = c;
    }
    // digits of v in the base of the flags, padded as the width and adjustment ask
    void vp_number(unsigned long v)
    {
        const unsigned b     = (fl_ & basefield) == hex ? 16 : (fl_ & basefield) == oct ? 8 : 10;
        const size_t   width = w_ > 0 ? static_cast<size_t>(w_) : 0;
        w_                   = 0;
        const char alpha = char((fl_ & uppercase ? 'A' : 'a') - 10);
        if (b == 16 && !(fl_ & showbase) && (fl_ & adjustfield) != left && width >= 8 && (v >> 32) == 0)
        {
            for (size_t i = 0; i + 8 < width; ++i) vp_emit(fi_);
            for (unsigned i = 0; i < 8; ++i)
            {
                const unsigned long rest = v >> (28 - 4 * i);
                const unsigned      d    = rest & 15;
                const char          c    = d < 10 ? char('0' + d) : char(alpha + d);
                vp_emit(fi_ == '0' ? c : (rest != 0) | (i == 7) ? c : fi_);
            }
            return;
        }
        char     tmp[24];
        unsigned n = 0;
        do
        {
            const unsigned d = unsigned(v % b);
            tmp[n++]         = d < 10 ? char('0' + d) : char(alpha + d);
            v /= b;
        } while (v);
        if ((fl_ & showbase) && !(n == 1 && tmp[0] == '0'))
        {
            if (b == 16) { tmp[n++] = fl_ & uppercase ? 'X' : 'x'; tmp[n++] = '0'; }
            else if (b == 8) tmp[n++] = '0';
        }
        const size_t pad = width > n ? width - n : 0;
        if ((fl_ & adjustfield) != left) for (size_t i = 0; i < pad; ++i) vp_emit(fi_);
        for (unsigned i = n; i > 0; --i) vp_emit(tmp[i - 1]);
        if ((fl_ & adjustfield) == left) for (size_t i = 0; i < pad; ++i) vp_emit(fi_);
    }
    static bool vp_space(char c) { return (c == ' ') | ((c >= 9) & (c <= 13)); }
    bool vp_sentry(bool noskip = false)
    {
        if (st_ != 0) { st_ |= failbit; return false; }
        if ((fl_ & skipws) && !noskip)
            while (get_ < put_ && vp_space(text_[get_])) ++get_;
        if (get_ >= put_) { st_ |= eofbit | failbit; return false; }
        return true;
    }
    unsigned long vp_parse(unsigned long max)
    {
        unsigned b   = (fl_ & basefield) == hex ? 16 : (fl_ & basefield) == oct ? 8 : (fl_ & basefield) == dec ? 10 : 0;
        bool     neg = false, any = false, over = false;
        // conditions are combined without short circuit so that a symbolic text does not split the path
        if (get_ < put_ && ((text_[get_] == '-') | (text_[get_] == '+'))) neg = text_[get_++] == '-';
        if ((b == 16 || b == 0) && get_ + 1 < put_ && ((text_[get_] == '0') & ((text_[get_ + 1] | 32) == 'x')))
        {
            get_ += 2;
            b = 16;
        }
        else if (b == 0)
            b = get_ < put_ && text_[get_] == '0' ? 8 : 10;
        unsigned long v = 0;
        while (get_ < put_)
        {
            const unsigned char c     = static_cast<unsigned char>(text_[get_]);
            const unsigned      dec_  = unsigned(c) - '0', let = unsigned(c | 32) - 'a';
            const bool          isdec = dec_ < 10, islet = let < 6;
            const unsigned      d     = isdec ? dec_ : islet ? let + 10 : 255;
            if (d >= b) break;
            any = true;
            if (v > (max >> 4) && v > (max - d) / b) over = true;
            else v = b == 16 ? v << 4 | d : v * b + d;
            ++get_;
        }
        if (get_ >= put_) st_ |= eofbit;
        if (!any) { st_ |= failbit; return 0; }
        if (over) { st_ |= failbit; return max; }
        return neg ? (0 - v) & max : v;
    }
};
using ios = basic_ios<char>;

template<>
class basic_ostream<char, char_traits<char>> : public basic_ios<char>
{
  public:
    basic_ostream() = default;
    basic_ostream& operator<<(unsigned v) { vp_number(v); return *this; }
    basic_ostream& operator<<(unsigned long v) { vp_number(v); return *this; }
    basic_ostream& operator<<(unsigned short v) { vp_number(v); return *this; }
    basic_ostream& operator<<(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_ostream& operator<<(basic_ostream& (*f)(basic_ostream&)) { return f(*this); }
    basic_ostream& put(char c) { vp_emit(c); return *this; }
    basic_ostream& write(const char* s, streamsize n) { for (streamsize i = 0; i < n; ++i) vp_emit(s[i]); return *this; }
    basic_ostream& flush() { return *this; }
    basic_ostream& vp_padded(const char* s, size_t n)
    {
        const size_t pad  = w_ > 0 && static_cast<size_t>(w_) > n ? static_cast<size_t>(w_) - n : 0;
        const bool   left_ = (fl_ & adjustfield) == left;
        w_ = 0;
        if (!left_) for (size_t i = 0; i < pad; ++i) vp_emit(fi_);
        for (size_t i = 0; i < n; ++i) vp_emit(s[i]);
        if (left_) for (size_t i = 0; i < pad; ++i) vp_emit(fi_);
        return *this;
    }
};
inline ostream& operator<<(ostream& o, char c) { return o.vp_padded(&c, 1); }
inline ostream& operator<<(ostream& o, unsigned char c) { return o << char(c); }
inline ostream& operator<<(ostream& o, const char* s) { return o.vp_padded(s, char_traits<char>::length(s)); }
inline ostream& operator<<(ostream& o, string_view s) { return o.vp_padded(s.data(), s.size()); }
inline ostream& operator<<(ostream& o, const string& s) { return o.vp_padded(s.data(), s.size()); }
inline ostream& endl(ostream& o) { return o.put('\n'); }
inline ostream& flush(ostream& o) { return o; }

template<>
class basic_istream<char, char_traits<char>> : public basic_ostream<char> // one state shared by both directions, without virtual bases
{
  public:
    basic_istream() = default;
    basic_istream& operator>>(unsigned& v) { if (vp_sentry()) v = unsigned(vp_parse(0xFFFFFFFFu)); return *this; }
    basic_istream& operator>>(unsigned long& v) { if (vp_sentry()) v = vp_parse(~0ul); return *this; }
    basic_istream& operator>>(unsigned short& v) { if (vp_sentry()) v = (unsigned short)(vp_parse(0xFFFFu)); return *this; }
    basic_istream& operator>>(ios_base& (*f)(ios_base&)) { f(*this); return *this; }
    basic_istream& operator>>(basic_istream& (*f)(basic_istream&)) { return f(*this); }
    int peek() { if (st_ != 0) return -1; if (get_ < put_) return static_cast<unsigned char>(text_[get_]); st_ |= eofbit; return -1; }
    int get()
    {
        if (st_ != 0) { st_ |= failbit; return -1; }
        if (get_ < put_) return static_cast<unsigned char>(text_[get_++]);
        st_ |= eofbit | failbit;
        return -1;
    }
};
inline istream& ws(istream& i)
{
    while (i.peek() == ' ' || (i.peek() >= 9 && i.peek() <= 13)) i.get();
    return i;
}
inline istream& operator>>(istream& i, char& c)
{
    if (i.good() && (i.flags() & ios_base::skipws)) ws(i);
    const int x = i.get();
    if (x >= 0) c = char(x);
    return i;
}

template<>
class basic_iostream<char, char_traits<char>> : public basic_istream<char>
{
};
template<>
class basic_stringstream<char, char_traits<char>, allocator<char>> : public basic_iostream<char>
{
  public:
    basic_stringstream() = default;
    string str() const { return string(text_, put_); }
};

inline ios_base& hex(ios_base& s) { s.setf(ios_base::hex, ios_base::basefield); return s; }
inline ios_base& dec(ios_base& s) { s.setf(ios_base::dec, ios_base::basefield); return s; }
inline ios_base& oct(ios_base& s) { s.setf(ios_base::oct, ios_base::basefield); return s; }
inline ios_base& left(ios_base& s) { s.setf(ios_base::left, ios_base::adjustfield); return s; }
inline ios_base& right(ios_base& s) { s.setf(ios_base::right, ios_base::adjustfield); return s; }
inline ios_base& internal(ios_base& s) { s.setf(ios_base::internal, ios_base::adjustfield); return s; }
inline ios_base& uppercase(ios_base& s) { s.setf(ios_base::uppercase); return s; }
inline ios_base& nouppercase(ios_base& s) { s.unsetf(ios_base::uppercase); return s; }
inline ios_base& showbase(ios_base& s) { s.setf(ios_base::showbase); return s; }
inline ios_base& noshowbase(ios_base& s) { s.unsetf(ios_base::showbase); return s; }
inline ios_base& skipws(ios_base& s) { s.setf(ios_base::skipws); return s; }
inline ios_base& noskipws(ios_base& s) { s.unsetf(ios_base::skipws); return s; }

struct vp_setw { int n; };
struct vp_setfill { char c; };
struct vp_setbase { int b; };
inline vp_setw    setw(int n) { return { n }; }
inline vp_setfill setfill(char c) { return { c }; }
inline vp_setbase setbase(int b) { return { b }; }
inline ostream&   operator<<(ostream& o, vp_setw s) { o.width(s.n); return o; }
inline ostream&   operator<<(ostream& o, vp_setfill s) { o.fill(s.c); return o; }
inline ostream&   operator<<(ostream& o, vp_setbase s) { o.setf(s.b == 16 ? ios_base::hex : s.b == 8 ? ios_base::oct : s.b == 10 ? ios_base::dec : 0, ios_base::basefield); return o; }
inline istream&   operator>>(istream& o, vp_setw s) { o.width(s.n); return o; }
inline istream&   operator>>(istream& o, vp_setbase s) { o.setf(s.b == 16 ? ios_base::hex : s.b == 8 ? ios_base::oct : s.b == 10 ? ios_base::dec : 0, ios_base::basefield); return o; }

} // namespace std
