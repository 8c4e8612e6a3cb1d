// P09: MIDI 1 <-> MIDI 2 channel voice translation.
#include "vpm.h"
#include <midi/channel_voice_message.h>
using namespace midi;

static bool reserved_cc(unsigned c) { return c == 0 || c == 6 || c == 32 || c == 38 || c == 88 || (c >= 98 && c <= 101); }

// every valid MIDI 1 message: translated as the MIDI 2.0 default translation says, and translating back restores it
VP_CONTRACT(midi1_to_2)
{
    const uint8_t g = vp::u4(), ch = vp::u4(), a = vp::u7(), b = vp::u7();
    const uint8_t st = uint8_t(vp::u8() & 0xF0);
    const auto    p = make_midi1_channel_voice_message(g, st, ch, a, b);
    const auto    r = as_midi2_channel_voice_message(midi1_channel_voice_message_view{ p });
    const bool    has = st >= 0x80 && st <= 0xE0 && !(st == 0xB0 && reserved_cc(a));
    VP_ENSURES(r.has_value() == has);
    if (!r) return;
    VP_ENSURES(r->data[0] >> 28 == 4 && r->group() == g && r->channel() == ch && r->data[2] == 0 && r->data[3] == 0);
    const bool off = st == 0x80 || (st == 0x90 && b == 0);
    VP_ENSURES((r->status() & 0xF0) == (off ? 0x80 : st));
    switch (st)
    {
    case 0x80: VP_ENSURES(r->byte3() == a && r->byte4() == 0 && r->data[1] == uint32_t(upsample_7_to_16bit(b)) << 16); break;
    case 0x90: VP_ENSURES(r->byte3() == a && r->byte4() == 0 && r->data[1] == (b ? uint32_t(upsample_7_to_16bit(b)) << 16 : 0x80000000u)); break;
    case 0xA0: VP_ENSURES(r->byte3() == a && r->byte4() == 0 && r->data[1] == upsample_7_to_32bit(b)); break;
    case 0xB0: VP_ENSURES(r->byte3() == a && r->byte4() == 0 && r->data[1] == upsample_7_to_32bit(b)); break;
    case 0xC0: VP_ENSURES(r->byte3() == 0 && r->byte4() == 0 && r->data[1] == uint32_t(a) << 24); break;
    case 0xD0: VP_ENSURES(r->byte3() == 0 && r->byte4() == 0 && r->data[1] == upsample_7_to_32bit(a)); break;
    case 0xE0: VP_ENSURES(r->byte3() == 0 && r->byte4() == 0 && r->data[1] == upsample_14_to_32bit(uint14_t(a | b << 7))); break;
    }
    const auto back = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ *r });
    VP_ENSURES(back.has_value());
    if (!back) return;
    const uint8_t bb = st == 0xC0 || st == 0xD0 ? 0 : st == 0x90 && b == 0 ? 64 : b;
    VP_ENSURES(vpm::words(*back, 0x20000000u | uint32_t(g) << 24 | uint32_t(off ? 0x80 : st) << 16 | uint32_t(ch) << 16 | uint32_t(a) << 8 | bb));
}
// every MIDI 2 packet
VP_CONTRACT(midi2_to_1)
{
    const universal_packet p  = vpm::any_packet_of_type(4);
    const unsigned         st = vpm::byte(p, 1) & 0xF0, b3 = vpm::byte(p, 2) & 127, b4 = vpm::byte(p, 3);
    VP_REQUIRES(b4 < 128);
    const uint32_t d = p.data[1];
    const auto     r = as_midi1_channel_voice_message(midi2_channel_voice_message_view{ p });
    bool           has = st >= 0x80 && st <= 0xE0;
    if ((st == 0x80 || st == 0x90) && b4 != 0) has = false;
    if (st == 0xB0 && reserved_cc(b3)) has = false;
    if (st == 0xC0 && (b4 & 1)) has = false;
    VP_ENSURES(r.has_value() == has);
    if (!r) return;
    uint32_t w = 0x20000000u | (p.data[0] & 0x0FFF0000u);
    switch (st)
    {
    case 0x80: w |= b3 << 8 | d >> 25; break;
    case 0x90: w |= b3 << 8 | (d >> 25 ? d >> 25 : 1); break;
    case 0xA0:
    case 0xB0: w |= b3 << 8 | d >> 25; break;
    case 0xC0: w |= ((d >> 24) & 127) << 8; break;
    case 0xD0: w |= (d >> 25) << 8; break;
    case 0xE0: w |= ((d >> 18) & 127) << 8 | d >> 25; break;
    }
    VP_ENSURES(vpm::words(*r, w));
    VP_ENSURES(st == 0x90 ? is_note_on_message(*r) : true); // a note on never turns into a note off
}
