// P05: channel voice factories put every argument into its field of the packet; predicates and getters read it back.
#include "vpm.h"
#include <midi/channel_voice_message.h>
using namespace midi;

static uint32_t head(unsigned type, unsigned g, unsigned st, unsigned ch, unsigned b3, unsigned b4)
{
    return uint32_t(type) << 28 | uint32_t(g) << 24 | uint32_t(st) << 16 | uint32_t(ch) << 16 | uint32_t(b3) << 8 | b4;
}
// exactly one of the message kinds below (statuses are distinct)
static unsigned kinds(const universal_packet& p)
{
    return unsigned(is_note_on_message(p)) + is_note_off_message(p) + is_poly_pressure_message(p) + is_control_change_message(p) + is_program_change_message(p) +
           is_channel_pressure_message(p) + is_channel_pitch_bend_message(p);
}

VP_CONTRACT(midi1_factories)
{
    const uint8_t  g = vp::u4(), ch = vp::u4(), n = vp::u7(), d2 = vp::u7();
    const uint16_t vel = vp::u16();
    const uint32_t val = vp::u32();
    const status_t st = uint8_t(0x80 + 16 * (vp::u8() % 7));
    VP_ENSURES(vpm::words(make_midi1_channel_voice_message(g, st, ch, n, d2), head(2, g, st, ch, n, d2)));
    VP_ENSURES(vpm::words(midi1_channel_voice_message(g, status_t(st | ch), n, d2), head(2, g, st, ch, n, d2)));
    VP_ENSURES(vpm::words(make_midi1_note_off_message(g, ch, n, velocity{ vel }), head(2, g, 0x80, ch, n, vel >> 9)));
    VP_ENSURES(vpm::words(make_midi1_note_off_message(g, ch, n), head(2, g, 0x80, ch, n, 64)));
    VP_ENSURES(vpm::words(make_midi1_note_on_message(g, ch, n, velocity{ vel }), head(2, g, 0x90, ch, n, vel >> 9)));
    VP_ENSURES(vpm::words(make_midi1_poly_pressure_message(g, ch, n, controller_value{ val }), head(2, g, 0xA0, ch, n, val >> 25)));
    VP_ENSURES(vpm::words(make_midi1_control_change_message(g, ch, n, controller_value{ val }), head(2, g, 0xB0, ch, n, val >> 25)));
    VP_ENSURES(vpm::words(make_midi1_program_change_message(g, ch, n), head(2, g, 0xC0, ch, n, 0)));
    VP_ENSURES(vpm::words(make_midi1_channel_pressure_message(g, ch, controller_value{ val }), head(2, g, 0xD0, ch, val >> 25, 0)));
    VP_ENSURES(vpm::words(make_midi1_pitch_bend_message(g, ch, pitch_bend{ val }), head(2, g, 0xE0, ch, (val >> 18) & 127, val >> 25)));
}
// out of range field arguments never leak into neighbouring fields
VP_CONTRACT(midi1_factories_mask)
{
    const uint8_t g = vp::u8(), ch = vp::u8(), n = vp::u8(), d = vp::u8();
    const auto    p = make_midi1_channel_voice_message(g, 0x90, ch, n, d);
    VP_ENSURES(vpm::words(p, head(2, g & 15, 0x90, ch & 15, n & 127, d & 127)));
}
VP_CONTRACT(midi1_view)
{
    const universal_packet p = vpm::any_packet();
    const auto             v = as_midi1_channel_voice_message_view(p);
    VP_ENSURES(v.has_value() == (p.data[0] >> 28 == 2) && is_midi1_channel_voice_message(p) == v.has_value());
    if (v)
    {
        VP_ENSURES(v->group() == (vpm::byte(p, 0) & 15) && v->status() == (vpm::byte(p, 1) & 0xF0) && v->channel() == (vpm::byte(p, 1) & 15));
        VP_ENSURES(v->data_byte_1() == (vpm::byte(p, 2) & 127) && v->data_byte_2() == (vpm::byte(p, 3) & 127));
        VP_ENSURES(v->get_14bit_value() == (vpm::byte(p, 2) & 127) + 128 * (vpm::byte(p, 3) & 127));
        VP_ENSURES(midi1_channel_voice_message(p) == p);
    }
}
VP_CONTRACT(midi2_factories)
{
    const uint8_t  g = vp::u4(), ch = vp::u4(), n = vp::u7(), i = vp::u7(), a = vp::u8();
    const uint16_t vel = vp::u16(), ad = vp::u16(), bank = vp::u14();
    const uint32_t v = vp::u32();
    const status_t st = uint8_t(16 * (vp::u8() & 15));
    VP_ENSURES(vpm::words(make_midi2_channel_voice_message(g, st, ch, n, i, v), head(4, g, st, ch, n, i), v));
    VP_ENSURES(vpm::words(make_midi2_note_off_message(g, ch, n, velocity{ vel }, a, ad), head(4, g, 0x80, ch, n, a), uint32_t(vel) << 16 | ad));
    VP_ENSURES(vpm::words(make_midi2_note_off_message(g, ch, n, velocity{ vel }), head(4, g, 0x80, ch, n, 0), uint32_t(vel) << 16));
    VP_ENSURES(vpm::words(make_midi2_note_on_message(g, ch, n, velocity{ vel }), head(4, g, 0x90, ch, n, 0), uint32_t(vel) << 16));
    VP_ENSURES(vpm::words(make_midi2_note_on_message(g, ch, n, velocity{ vel }, pitch_7_9{ ad }), head(4, g, 0x90, ch, n, 3), uint32_t(vel) << 16 | ad));
    VP_ENSURES(vpm::words(make_midi2_note_on_message(g, ch, n, velocity{ vel }, a, ad), head(4, g, 0x90, ch, n, a), uint32_t(vel) << 16 | ad));
    VP_ENSURES(vpm::words(make_midi2_poly_pressure_message(g, ch, n, controller_value{ v }), head(4, g, 0xA0, ch, n, 0), v));
    VP_ENSURES(vpm::words(make_registered_per_note_controller_message(g, ch, n, a, controller_value{ v }), head(4, g, 0x00, ch, n, a), v));
    VP_ENSURES(vpm::words(make_assignable_per_note_controller_message(g, ch, n, a, controller_value{ v }), head(4, g, 0x10, ch, n, a), v));
    VP_ENSURES(vpm::words(make_per_note_management_message(g, ch, n, a), head(4, g, 0xF0, ch, n, a), 0));
    VP_ENSURES(vpm::words(make_midi2_control_change_message(g, ch, n, controller_value{ v }), head(4, g, 0xB0, ch, n, 0), v));
    VP_ENSURES(vpm::words(make_registered_controller_message(g, ch, n, i, controller_value{ v }), head(4, g, 0x20, ch, n, i), v));
    VP_ENSURES(vpm::words(make_assignable_controller_message(g, ch, n, i, controller_value{ v }), head(4, g, 0x30, ch, n, i), v));
    VP_ENSURES(vpm::words(make_relative_registered_controller_message(g, ch, n, i, controller_increment{ int32_t(v) }), head(4, g, 0x40, ch, n, i), v));
    VP_ENSURES(vpm::words(make_relative_assignable_controller_message(g, ch, n, i, controller_increment{ int32_t(v) }), head(4, g, 0x50, ch, n, i), v));
    VP_ENSURES(vpm::words(make_midi2_program_change_message(g, ch, n), head(4, g, 0xC0, ch, 0, 0), uint32_t(n) << 24));
    VP_ENSURES(vpm::words(make_midi2_program_change_message(g, ch, n, bank), head(4, g, 0xC0, ch, 0, 1), uint32_t(n) << 24 | uint32_t(bank >> 7) << 8 | (bank & 127)));
    VP_ENSURES(vpm::words(make_midi2_channel_pressure_message(g, ch, controller_value{ v }), head(4, g, 0xD0, ch, 0, 0), v));
    VP_ENSURES(vpm::words(make_midi2_pitch_bend_message(g, ch, pitch_bend{ v }), head(4, g, 0xE0, ch, 0, 0), v));
    VP_ENSURES(vpm::words(make_per_note_pitch_bend_message(g, ch, n, pitch_bend{ v }), head(4, g, 0x60, ch, n, 0), v));
}
VP_CONTRACT(midi2_view)
{
    const universal_packet p = vpm::any_packet();
    const auto             v = as_midi2_channel_voice_message_view(p);
    VP_ENSURES(v.has_value() == (p.data[0] >> 28 == 4) && is_midi2_channel_voice_message(p) == v.has_value());
    if (v)
    {
        VP_ENSURES(v->group() == (vpm::byte(p, 0) & 15) && v->status() == (vpm::byte(p, 1) & 0xF0) && v->channel() == (vpm::byte(p, 1) & 15));
        VP_ENSURES(v->byte3() == (vpm::byte(p, 2) & 127) && v->byte4() == (vpm::byte(p, 3) & 127) && v->data() == p.data[1]);
        VP_ENSURES(midi2_channel_voice_message(p) == p);
    }
}
// predicates are exact on every packet
VP_CONTRACT(midi2_predicates)
{
    const universal_packet p = vpm::any_packet();
    const uint8_t          a = vp::u8();
    const bool             m2 = p.data[0] >> 28 == 4;
    const unsigned         st = vpm::byte(p, 1) >> 4, b3 = vpm::byte(p, 2), b4 = vpm::byte(p, 3);
    VP_ENSURES(is_registered_per_note_controller_message(p) == (m2 && st == 0));
    VP_ENSURES(is_assignable_per_note_controller_message(p) == (m2 && st == 1));
    VP_ENSURES(is_registered_controller_message(p) == (m2 && st == 2));
    VP_ENSURES(is_assignable_controller_message(p) == (m2 && st == 3));
    VP_ENSURES(is_per_note_pitch_bend_message(p) == (m2 && st == 6));
    VP_ENSURES(is_registered_per_note_controller_pitch_message(p) == (m2 && st == 0 && b4 == 3));
    VP_ENSURES(is_note_on_with_attribute(p, a) == (m2 && st == 9 && b4 == a));
    VP_ENSURES(is_note_off_with_attribute(p, a) == (m2 && st == 8 && b4 == a));
    VP_ENSURES(is_note_on_with_pitch_7_9(p) == (m2 && st == 9 && b4 == 3));
    VP_ENSURES(is_pitch_bend_sensitivity_message(p) == (m2 && st == 2 && b3 == 0 && b4 == 0));
    VP_ENSURES(is_per_note_pitch_bend_sensitivity_message(p) == (m2 && st == 2 && b3 == 0 && b4 == 7));
    VP_ENSURES(get_midi2_note_attribute(p) == b4 && get_midi2_note_attribute_data(p) == (p.data[1] & 0xFFFF) && get_per_note_controller_index(p) == b4);
    VP_ENSURES(get_pitch_bend_sensitivity_value(p).value == p.data[1] / 262144 * 262144);
    VP_ENSURES(get_per_note_pitch_bend_sensitivity_value(p).value == p.data[1] && get_per_note_pitch_bend_value(p).value == p.data[1]);
    VP_ENSURES(is_midi2_registered_controller_message(p) == is_registered_controller_message(p) && is_midi2_assignable_controller_message(p) == is_assignable_controller_message(p));
    VP_ENSURES(is_midi2_registered_per_note_controller_message(p) == is_registered_per_note_controller_message(p) && is_midi2_assignable_per_note_controller_message(p) == is_assignable_per_note_controller_message(p));
    VP_ENSURES(is_midi2_per_note_pitch_bend_message(p) == is_per_note_pitch_bend_message(p) && get_midi2_per_note_controller_index(p) == b4);
}
VP_CONTRACT(common_predicates)
{
    const universal_packet p = vpm::any_packet();
    const unsigned         t = p.data[0] >> 28, st = vpm::byte(p, 1) >> 4, b4 = vpm::byte(p, 3);
    const uint8_t          s = uint8_t(vp::u8() & 0xF0);
    const bool             cv = t == 2 || t == 4;
    VP_ENSURES(is_channel_voice_message_with_status(p, s) == (cv && st == unsigned(s >> 4)));
    VP_ENSURES(is_note_on_message(p) == (st == 9 && (t == 4 || (t == 2 && b4 != 0))));
    VP_ENSURES(is_note_off_message(p) == ((cv && st == 8) || (t == 2 && st == 9 && b4 == 0)));
    VP_ENSURES(is_poly_pressure_message(p) == (cv && st == 0xA) && is_control_change_message(p) == (cv && st == 0xB) && is_program_change_message(p) == (cv && st == 0xC));
    VP_ENSURES(is_channel_pressure_message(p) == (cv && st == 0xD) && is_channel_pitch_bend_message(p) == (cv && st == 0xE));
    VP_ENSURES(kinds(p) == (cv && st >= 8 && st <= 0xE ? 1 : 0));
}
VP_CONTRACT(getters_midi1)
{
    const uint8_t  g = vp::u4(), ch = vp::u4(), n = vp::u7(), x = vp::u7();
    const uint16_t b = vp::u14();
    const auto     on = make_midi1_channel_voice_message(g, 0x90, ch, n, x), off = make_midi1_channel_voice_message(g, 0x80, ch, n, x);
    VP_ENSURES(get_note_nr(on) == n && get_note_nr(off) == n && get_note_pitch(on).value == n * 512 && get_note_pitch(off).value == n * 512);
    VP_ENSURES(get_note_velocity(on).as_uint7() == (x ? x : 64) && get_note_velocity(off).as_uint7() == x);
    VP_ENSURES(get_note_velocity(on) == velocity{ uint7_t(x ? x : 64) } && get_note_velocity(off) == velocity{ uint7_t(x) });
    const auto pp = make_midi1_channel_voice_message(g, 0xA0, ch, n, x), cc = make_midi1_channel_voice_message(g, 0xB0, ch, n, x);
    VP_ENSURES(get_poly_pressure_value(pp) == controller_value{ uint7_t(x) } && get_note_nr(pp) == n);
    VP_ENSURES(get_controller_nr(cc) == n && get_controller_value(cc) == controller_value{ uint7_t(x) });
    VP_ENSURES(get_program_value(make_midi1_program_change_message(g, ch, n)) == n);
    VP_ENSURES(get_channel_pressure_value(make_midi1_channel_voice_message(g, 0xD0, ch, n, 0)) == controller_value{ uint7_t(n) });
    VP_ENSURES(get_channel_pitch_bend_value(make_midi1_channel_voice_message(g, 0xE0, ch, b & 127, b >> 7)) == pitch_bend{ b });
}
VP_CONTRACT(getters_midi2)
{
    const uint8_t  g = vp::u4(), ch = vp::u4(), n = vp::u7(), a = vp::u8();
    const uint16_t vel = vp::u16(), ad = vp::u16();
    const uint32_t v = vp::u32();
    const auto     on = make_midi2_note_on_message(g, ch, n, velocity{ vel }, a, ad), off = make_midi2_note_off_message(g, ch, n, velocity{ vel }, a, ad);
    VP_ENSURES(get_note_nr(on) == n && get_note_nr(off) == n && get_note_velocity(on).value == vel && get_note_velocity(off).value == vel);
    VP_ENSURES(get_note_pitch(on).value == (a == 3 ? ad : n * 512) && get_note_pitch(off).value == n * 512);
    VP_ENSURES(get_midi2_note_attribute(on) == a && get_midi2_note_attribute_data(on) == ad && get_midi2_note_attribute(off) == a && get_midi2_note_attribute_data(off) == ad);
    VP_ENSURES(get_poly_pressure_value(make_midi2_poly_pressure_message(g, ch, n, controller_value{ v })).value == v);
    const auto cc = make_midi2_control_change_message(g, ch, n, controller_value{ v });
    VP_ENSURES(get_controller_nr(cc) == n && get_controller_value(cc).value == v);
    VP_ENSURES(get_program_value(make_midi2_program_change_message(g, ch, n)) == n && get_program_value(make_midi2_program_change_message(g, ch, n, ad & 0x3FFF)) == n);
    VP_ENSURES(get_channel_pressure_value(make_midi2_channel_pressure_message(g, ch, controller_value{ v })).value == v);
    VP_ENSURES(get_channel_pitch_bend_value(make_midi2_pitch_bend_message(g, ch, pitch_bend{ v })).value == v);
}
