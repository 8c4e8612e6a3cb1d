// Native driver: replays a counterexample of the verifier on the real library, or searches inputs at random
// (bounded stand-in / search for a failing input).   usage: native list | replay C values... | fuzz C seed seconds | seed C n
#include "vp.h"
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

static std::map<std::string, void (*)()>& reg() { static std::map<std::string, void (*)()> r; return r; }
vp_reg::vp_reg(const char* n, void (*f)()) { reg()[n] = f; }

struct discard {};
struct failed { std::string what; };

static bool                              replaying = false, tracing = false;
static std::vector<std::vector<uint64_t>> script;   // replay values
static size_t                            pos = 0;
static uint64_t                          rs = 1, cur_seed = 0;
static unsigned                          mode = 0;
static unsigned                          span = 0;     // long histories: interruptions once in this many steps
static void start_run()
{
    static const unsigned spans[] = { 64, 300, 1500, 6000 };
    mode = cur_seed % 3;
    span = (cur_seed / 3) % 12 == 0 ? spans[(cur_seed / 36) % 4] : 0;
}
static std::map<std::string, size_t>     covered;
extern "C" void __sanitizer_set_death_callback(void (*)(void));

static uint64_t rnd()
{
    rs += 0x9E3779B97F4A7C15ull;
    uint64_t z = rs;
    z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t corner(unsigned bits)
{
    const uint64_t m = bits == 64 ? ~0ull : (1ull << bits) - 1;
    switch (rnd() % 12)
    {
    case 0: return 0;
    case 1: return 1;
    case 2: return m;
    case 3: return m >> 1;
    case 4: return (m >> 1) + 1;
    case 5: return (m >> 2) + 1;
    case 6: return (uint64_t(1) << (rnd() % bits)) & m;
    case 7: return ((uint64_t(1) << (rnd() % bits)) - 1) & m;
    case 8: return rnd() % 16;
    case 9: return (m - rnd() % 16) & m;
    case 10: { uint64_t a = rnd(); return a & rnd() & rnd() & m; }
    default: { uint64_t a = rnd(); return (a | rnd() | rnd()) & m; }
    }
}
// MIDI flavoured 32 bit words: valid message types and statuses are common
static uint64_t word32()
{
    static const uint8_t mt[] = { 0, 1, 2, 3, 3, 3, 4, 5, 5, 5, 0xD, 0xF };
    uint32_t             w    = (uint32_t)rnd();
    w                         = (w & 0x0FFFFFFF) | (uint32_t(mt[rnd() % sizeof mt]) << 28);
    if (rnd() % 2) w &= 0xFFFF7F7F;
    if (rnd() % 2) w &= 0xF0FFFFFF;
    if (((w >> 28) == 3 || (w >> 28) == 5) && rnd() % 4) w = (w & 0xFF0FFFFF) | ((uint32_t)(rnd() % 4) << 20);
    if ((w >> 28) == 3 && rnd() % 4) w = (w & 0xFFF0FFFF) | ((uint32_t)(rnd() % 7) << 16);
    if ((w >> 28) == 5 && rnd() % 4) w = (w & 0xFFF0FFFF) | ((uint32_t)(1 + rnd() % 14) << 16);
    return w;
}
static void note(uint64_t v)
{
    if (tracing) { printf("V %llu\n", (unsigned long long)v); fflush(stdout); }
}
static uint64_t take(unsigned bits)
{
    uint64_t v;
    if (replaying)
    {
        if (pos >= script.size()) throw discard{};
        v = script[pos].empty() ? 0 : script[pos][0];
        ++pos;
    }
    else
    {
        unsigned r = rnd() % 100;
        if (bits == 32 && r < 50 && mode != 1) v = word32();
        else if (bits == 8 && r < 25) { static const uint8_t st[] = { 0xF0, 0xF7, 0x80, 0x90, 0xB0, 0xC0, 0xD0, 0xE0, 0xF8, 0xFE, 0xF1, 0xF2, 0xF3, 0xF6, 0x7E, 0x7F, 0x0D, 0, 1, 2, 3 }; v = st[rnd() % sizeof st]; }
        else if (r < 60) v = corner(bits);
        else v = rnd();
    }
    if (bits < 64) v &= (1ull << bits) - 1;
    note(v);
    return v;
}
unsigned char  __vp_u8() { return (unsigned char)take(8); }
unsigned short __vp_u16() { return (unsigned short)take(16); }
unsigned int   __vp_u32() { return (unsigned int)take(32); }
unsigned long  __vp_u64() { return take(64); }
bool           __vp_bool()
{
    uint64_t v;
    if (replaying) { if (pos >= script.size()) throw discard{}; v = script[pos].empty() ? 0 : script[pos][0]; ++pos; }
    else v = rnd() & 1;
    note(v & 1);
    return v & 1;
}
bool __vp_more()
{
    if (replaying) return __vp_bool();
    const bool v = rnd() % (span ? span : 16) != 0;
    note(v);
    return v;
}
unsigned int __vp_word(unsigned mask, unsigned value)
{
    if (replaying) return (unsigned int)take(32);
    if ((mask | value) <= 0xFF)
    {
        // one byte of a MIDI 1 stream
        static const uint8_t st[] = { 0xF0, 0xF0, 0xF0, 0xF7, 0xF7, 0xF7, 0x80, 0x90, 0xA0, 0xB0, 0xC0, 0xD0, 0xE0, 0xF1, 0xF2, 0xF3, 0xF4, 0xF5, 0xF6, 0xF8, 0xF9, 0xFD, 0xFE, 0xFF, 0, 0 };
        const unsigned       r    = rnd() % 8;
        const bool           data = span && rnd() % (span / 4);
        const uint8_t        b    = data ? (uint8_t)((rnd() & ~mask) | value) : r < 3 ? st[rnd() % sizeof st] : r == 3 ? (uint8_t)rnd() : (uint8_t)((rnd() & ~mask) | value);
        note(b);
        return b;
    }
    uint32_t w = rnd() & 1 ? (uint32_t)rnd() : (uint32_t)word32();
    if (span && rnd() % (span / 4))
    {
        // sysex packets of one message: mostly continue packets
        w = (w & ~(mask | 0x00300000u)) | value | 0x00200000u;
        note(w);
        return w;
    }
    if (rnd() % 8) w = (w & ~mask) | value;
    if (rnd() % 4 == 0) w &= 0xFFFF0000; // zero bytes
    note(w);
    return w;
}
static double fl()
{
    switch (rnd() % 12)
    {
    case 0: return 0; case 1: return 1; case 2: return -1; case 3: return 0.5;
    case 4: return std::ldexp(1.0, int(rnd() % 80) - 40);
    case 5: return -std::ldexp(1.0, int(rnd() % 80) - 40);
    case 6: return double(rnd() % 256) - 128;
    case 7: return (double(rnd() % 256) - 128) * (1 - std::ldexp(1.0, -int(20 + rnd() % 33)));
    case 8: return 1 - std::ldexp(1.0, -int(20 + rnd() % 33));
    case 9: { uint64_t b = rnd(); double d; memcpy(&d, &b, 8); return d; }
    default: return double(rnd() >> 11) / 9007199254740992.0 * (rnd() % 2 ? 1 : 128) * (rnd() % 4 ? 1 : -1);
    }
}
float  __vp_f32() { uint32_t b; if (replaying) b = (uint32_t)take(32); else { float f = (float)fl(); memcpy(&b, &f, 4); note(b); } float f; memcpy(&f, &b, 4); return f; }
double __vp_f64() { uint64_t b; if (replaying) b = take(64); else { double f = fl(); memcpy(&b, &f, 8); note(b); } double f; memcpy(&f, &b, 8); return f; }
size_t __vp_len_hint(size_t max)
{
    if (replaying) return take(64);
    size_t n;
    switch (rnd() % 8)
    {
    case 0: n = 0; break;
    case 1: n = 6 * (rnd() % 8) + rnd() % 3; break;
    case 2: n = 13 * (rnd() % 6) + rnd() % 3; break;
    case 3: n = 14 * (rnd() % 8) + rnd() % 3; break;
    case 4: n = rnd() % 400; break;
    default: n = rnd() % 48; break;
    }
    if (rnd() % 2000 == 0) n = rnd() % 70000;
    if (n > max) n = max ? rnd() % (max + 1) : 0;
    note(n);
    return n;
}
void __vp_assume(bool c) { if (!c) throw discard{}; }
void __vp_assert(bool c, const char* l) { if (!c) throw failed{ l }; }
void __vp_cover(const char* l) { ++covered[l]; }
void __vp_bytes(void* p, size_t n, unsigned char m)
{
    auto* b = static_cast<unsigned char*>(p);
    if (replaying)
    {
        if (pos >= script.size()) throw discard{};
        for (size_t i = 0; i < n; ++i) b[i] = (i < script[pos].size() ? (unsigned char)script[pos][i] : 0) & m;
        ++pos;
    }
    else
    {
        unsigned k = rnd() % 4;
        for (size_t i = 0; i < n; ++i) b[i] = (unsigned char)(k == 0 ? rnd() : k == 1 ? corner(8) : k == 2 ? (i < 40 ? take(8) : rnd()) : rnd()) & m;
    }
    if (tracing) { printf("B"); for (size_t i = 0; i < n; ++i) printf(" %u", b[i]); printf("\n"); fflush(stdout); }
}
static void death() { char b[96]; int n = snprintf(b, sizeof b, "\nCRASH seed=%llu\n", (unsigned long long)cur_seed); ssize_t r = write(1, b, n); (void)r; }

static int once(const std::string& c)
{
    pos = 0;
    try { reg().at(c)(); return 0; }
    catch (discard&) { return 2; }
    catch (failed& f) { printf("FAILED %s seed=%llu\n", f.what.c_str(), (unsigned long long)cur_seed); fflush(stdout); return 1; }
}
int main(int argc, char** argv)
{
    if (argc < 2) return 3;
    std::string cmd = argv[1];
    if (cmd == "list") { for (auto& r : reg()) printf("%s\n", r.first.c_str()); return 0; }
    std::string c = argv[2];
    if (!reg().count(c)) { printf("no contract %s\n", c.c_str()); return 3; }
    __sanitizer_set_death_callback(death);
    if (cmd == "replay")
    {
        // one line per value: "v <n>" or "b <n> <n> ..."
        std::ifstream in(argv[3]);
        std::string   line;
        while (std::getline(in, line))
        {
            if (line.empty() || line[0] == '#') continue;
            std::istringstream   ss(line);
            char                 k;
            uint64_t             v;
            std::vector<uint64_t> vals;
            ss >> k;
            if (k != 'v' && k != 'b') continue;
            while (ss >> v) vals.push_back(v);
            script.push_back(vals);
        }
        replaying = true;
        int r     = once(c);
        printf(r == 0 ? "HELD\n" : r == 2 ? "DISCARDED\n" : "VIOLATED\n");
        return r == 1 ? 1 : 0;
    }
    if (cmd == "seed")
    {
        cur_seed = rs = strtoull(argv[3], nullptr, 10);
        start_run();
        tracing  = true;
        return once(c) == 1;
    }
    if (cmd == "fuzz")
    {
        uint64_t base = strtoull(argv[3], nullptr, 10) * 1000003ull + 17;
        double   secs = atof(argv[4]);
        auto     t0   = std::chrono::steady_clock::now();
        size_t   n = 0, d = 0;
        while (true)
        {
            if ((n & 63) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) break;
            cur_seed = rs = base + n * 7919ull;
            start_run();
            ++n;
            int r = once(c);
            if (r == 1) return 1;
            if (r == 2) ++d;
        }
        printf("RUNS %zu discarded %zu\n", n, d);
        return 0;
    }
    return 3;
}
