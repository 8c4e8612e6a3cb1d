// P23: jitter reduction timestamps and clock follower. The follower is put into an arbitrary state (its private members are
// made accessible for this file only), one call is made, and the state afterwards is specified: by induction the statements
// hold for every history of clocks and messages.
//@opt clock|order lia=1
//@replace .* target="std::chrono::_V2::system_clock::now\(\)" stub=vp_now
#include "vp.h"
#include <chrono>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <optional>
#include <midi/utility_message.h>
#define private public
#include <midi/jitter_reduction_timestamps.h>
#undef private
using namespace midi;
using F   = jr_clock_follower;
using dur = F::duration;
extern "C" long vp_now() { return 0; }

static long time_() { return long(vp::u64() & ((1ul << 58) - 1)); }
static long span() { return long(vp::u64() & ((1ul << 55) - 1)); }
static F::time_point tp(long n) { return F::time_point{ dur{ n } }; }
static long          of(F::time_point t) { return t.time_since_epoch().count(); }
static long          ticks(unsigned a, unsigned b) { return 32000l * ((a - b) & 0xFFFF); }
struct state
{
    long zero, clock, message, jitter, offset;
    uint16_t ts;
};
static void any_state(F& f, state& s)
{
    s.zero = time_(); s.clock = time_(); s.message = time_(); s.jitter = span(); s.offset = span(); s.ts = vp::u16();
    if (vp::flag()) s.clock = s.zero; // no clock received yet
    VP_REQUIRES(s.clock >= s.zero);
    *const_cast<F::time_point*>(&f.zero) = tp(s.zero);
    f.m_clock_ts = jr_timestamp_t{ s.ts };
    f.m_clock_time = tp(s.clock);
    f.m_message_time = tp(s.message);
    f.m_jitter = dur{ s.jitter };
    f.m_security_offset = dur{ s.offset };
}
static bool is(const F& f, const state& s)
{
    return of(f.zero) == s.zero && f.m_clock_ts.value == s.ts && of(f.m_clock_time) == s.clock && of(f.m_message_time) == s.message && f.jitter().count() == s.jitter && f.security_offset().count() == s.offset;
}
static long max_(long a, long b) { return a < b ? b : a; }
static long min_(long a, long b) { return a < b ? a : b; }

VP_CONTRACT(timestamps)
{
    const uint16_t a = vp::u16(), b = vp::u16();
    const jr_timestamp_t x{ a }, y{ b };
    VP_ENSURES((x - y).count() == ((a - b) & 0xFFFF) && (x == y) == (a == b) && (x != y) == (a != b));
    VP_ENSURES(std::chrono::duration_cast<dur>(x - y).count() == ticks(a, b));
    const uint8_t g = vp::u4();
    jr_clock_message     c{ x };
    jr_timestamp_message t{ x };
    VP_ENSURES(c.data[0] == (0x00100000u | a) && t.data[0] == (0x00200000u | a) && c.timestamp() == x && t.timestamp() == x);
    VP_ENSURES(jr_clock_message{}.data[0] == 0x00100000u && jr_timestamp_message{}.data[0] == 0x00200000u);
    t.set_group(g);
    t.set_timestamp(y);
    VP_ENSURES(t.data[0] == (0x00200000u | (unsigned(g) << 24) | b) && t.timestamp().value == b && t.data[1] == 0 && t.data[2] == 0 && t.data[3] == 0);
}
VP_CONTRACT(clock)
{
    F     f;
    state s;
    any_state(f, s);
    const long     r = time_();
    const uint16_t ts = vp::u16();
    f.process_clock(tp(r), jr_timestamp_t{ ts });
    if (s.clock == s.zero)
    {
        s.clock = s.message = r; s.ts = ts;
        VP_ENSURES(is(f, s));
        return;
    }
    const long e = s.clock + ticks(ts, s.ts), j = r - e;
    const long old = s.offset, oldj = s.jitter;
    // the reference is never later than received or expected, scheduled time never goes back
    VP_ENSURES(of(f.m_clock_time) == min_(r, e) && f.m_clock_ts.value == ts);
    VP_ENSURES(of(f.m_message_time) == max_(s.message, r));
    // jitter covers what was observed, the offset grows with it and never shrinks
    const long nj = j < 0 ? oldj - j : max_(oldj, j);
    VP_ENSURES(f.jitter().count() == nj);
    VP_ENSURES(f.security_offset().count() >= old && (nj == oldj || f.security_offset().count() == max_(old, nj * 12 / 10)) && (nj != oldj || f.security_offset().count() == old));
    VP_ENSURES(of(f.zero) == s.zero);
}
VP_CONTRACT(schedule)
{
    F     f;
    state s;
    any_state(f, s);
    const long     r = time_();
    const uint16_t ts = vp::u16();
    const long     at = of(f.schedule_message(tp(r), jr_timestamp_t{ ts }));
    s.message = s.clock == s.zero ? r : max_(s.message, s.clock + ticks(ts, s.ts));
    VP_ENSURES(is(f, s) && at == s.message + s.offset);
}
// order: with receive times that never go back, no call makes a later message due before an earlier one
VP_CONTRACT(order)
{
    F     f;
    state s;
    any_state(f, s);
    const long R = time_(), r = time_();
    VP_REQUIRES(R >= s.zero && r >= R && r > s.zero);
    VP_REQUIRES(s.clock != s.zero || s.message <= R);
    const long     due = s.message + s.offset;
    const uint16_t ts = vp::u16();
    const bool     clk = vp::flag();
    long           at = 0;
    if (clk) f.process_clock(tp(r), jr_timestamp_t{ ts });
    else at = of(f.schedule_message(tp(r), jr_timestamp_t{ ts }));
    VP_ENSURES(of(f.m_message_time) >= s.message && f.security_offset().count() >= s.offset && (clk || at >= due));
    VP_ENSURES(of(f.m_clock_time) >= s.zero && (of(f.m_clock_time) != s.zero || of(f.m_message_time) <= r));
}
VP_CONTRACT(reset_and_offset)
{
    F     f;
    VP_ENSURES(of(f.m_clock_time) == of(f.zero) && of(f.m_message_time) == of(f.zero) && f.m_clock_ts.value == 0 && f.jitter().count() == 0 && f.security_offset().count() == 2000000);
    state s;
    any_state(f, s);
    const long o = span();
    f.set_security_offset(dur{ o });
    s.offset = o;
    VP_ENSURES(is(f, s));
    f.reset();
    s.clock = s.message = s.zero; s.ts = 0; s.jitter = 0; s.offset = 2000000;
    VP_ENSURES(is(f, s));
}
