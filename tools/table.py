prop('P01', 'Resolution changes keep every value: lossless, monotonic, min-centre-max',
     'Converting a 7 or 14 bit controller, velocity or pitch bend value to 16 or 32 bit and back always returns the original value. The up-conversion is strictly monotonic, maps minimum, centre and maximum onto minimum, centre and maximum, and agrees with the bit-repeat rule of the MIDI 2.0 scaling recommendation for every source width and every wider target width. Down-conversion is plain truncation.',
     ['inputs'], 'all values of all source widths 2..31 and all target widths up to 32; all pairs of values for monotonicity',
     'Tests sample a few values of three width pairs; the claim is about all 2^x values for each of 465 width pairs and about all pairs of values.',
     ['inc/midi/types.h'], [('upsample_7_to_16bit, upsample_7_to_32bit, upsample_14_to_32bit, upsample_x_to_ybit', 'inc/midi/types.h'), ('downsample_*', 'inc/midi/types.h')], LOOPFREE + ' The bit-repeat loop has at most 31 iterations and is unrolled completely (the unrolling limit is checked).')
prop('P02', 'Pitch and controller arithmetic is exact and saturates, it never wraps',
     'Adding increments to pitches, pitch increments and controller values yields the exact sum clamped to the range of the type, and applying a pitch bend to a bend sensitivity yields the exact truncated product clamped to the increment range. No operation wraps around or has undefined arithmetic. Conversions between note numbers, 7.9 and 7.25 pitches and controller values keep the note and the fraction.',
     ['inputs'], 'all 32 bit operands',
     'The interesting operands are near the limits of 32 bit ranges; tests touch a handful of the 2^64 operand pairs.',
     ['inc/midi/types.h'], [('operator+, operator+=, operator* of pitch_increment, pitch_7_25, controller_value', 'inc/midi/types.h')], LOOPFREE + ' Products of two unknowns are treated as uninterpreted with interval facts first.')
prop('P03', 'Floating point conversions are defined, clamped, accurate and reversible',
     'Converting any float or double (NaN and infinities included) to a velocity, controller value, pitch bend, pitch or pitch increment is defined behaviour, clamps to the range of the type, maps minimum, centre and maximum exactly and is never further than one step from the exact value. Floats and doubles obtained from a value lie in the documented range. Velocities, pitches and controller values survive the trip through double (16 bit types also through float) unchanged.',
     ['inputs'], 'all floats and doubles; all 16 and 32 bit values',
     'NaN, infinities, values just below a limit and rounding at every one of 2^32 values cannot be sampled.',
     ['inc/midi/types.h'], [('floating point constructors, as_float, as_double of velocity, controller_value, pitch_bend, pitch_7_9, pitch_7_25, pitch_increment', 'inc/midi/types.h')], LOOPFREE + ' Accuracy and round trip obligations are discharged over the reals with explicit rounding errors (sound over-approximation of IEEE arithmetic), the others in the bit precise floating point theory.')
prop('P04', 'Packet fields are independent and sizes follow the UMP table',
     'Writing one byte, the message type or the group of a packet changes exactly that field and reading it back returns what was written; every other bit of the packet stays. The packet length in words is determined by the message type alone as the UMP specification tabulates it. Two packets compare equal exactly when the words covered by that length are equal, so equality is an equivalence.',
     ['inputs'], 'all 128 bit packets, all byte positions and values, all 16 message types',
     'Frame conditions (nothing else changes) and the equivalence laws quantify over all packets; tests check a few constants.',
     ['inc/midi/universal_packet.h'], [('set_byte, get_byte, set_type, set_group, size, operator==, predicates', 'inc/midi/universal_packet.h')], LOOPFREE)
prop('P05', 'Channel voice messages carry every argument and read back unchanged',
     'Every MIDI 1 and MIDI 2 channel voice message built from valid arguments has exactly the specified bit layout, so group, channel, note, controller, attribute, bank and value never spill into each other. The message predicates are exact on every packet, each channel voice packet belongs to at most one message kind, and getters and views return the value that was put in. A MIDI 1 note on with velocity zero is always treated as a note off with velocity 64.',
     ['inputs'], 'all valid argument tuples of all factories; all 128 bit packets for predicates and views',
     'Each factory has up to 2^60 argument tuples and each predicate 2^64 packets; tests use literals.',
     ['inc/midi/midi1_channel_voice_message.h', 'inc/midi/midi2_channel_voice_message.h', 'inc/midi/channel_voice_message.h'],
     [('make_midi1_*, make_midi2_*, make_*_controller_message', 'inc/midi/midi2_channel_voice_message.h'), ('is_*, get_* helpers', 'inc/midi/channel_voice_message.h')], LOOPFREE)
prop('P06', 'System and utility messages carry every field',
     'System and utility messages built from valid arguments have exactly the specified layout, and views return group, status, data bytes, song position and payload unchanged. A view is available exactly for packets of the matching message type.',
     ['inputs'], 'all argument tuples and all packets', 'Universally quantified over packets; tests use literals.',
     ['inc/midi/system_message.h', 'inc/midi/utility_message.h'], [('make_system_message, make_song_position_message, make_utility_message, views', 'inc/midi/system_message.h')], LOOPFREE)
prop('P09', 'MIDI 1 and MIDI 2 channel voice translation is faithful both ways',
     'Every valid MIDI 1 channel voice message except the reserved controllers translates to MIDI 2 with the same group, channel and note or controller and with up-scaled value, and translating the result back restores the original (note on with velocity zero comes back as note off). MIDI 2 messages that MIDI 1 can express translate to the truncated value, everything else is refused, and a note on never becomes a note off.',
     ['inputs'], 'all MIDI 1 messages and all MIDI 2 channel voice packets',
     'Round trip over all messages and the exact set of refused messages; tests sample values.',
     ['inc/midi/channel_voice_message.h'], [('as_midi1_channel_voice_message, as_midi2_channel_voice_message', 'inc/midi/channel_voice_message.h')], LOOPFREE)
LOOPINV = 'Every obligation generated from the compiled headers/sources is discharged by z3; loops over data of arbitrary length are cut by invariants that the engine infers and then checks (entry, preservation, exit). Contracts named bounded_* bound their input as stated in the contract file and are reported as bounded, not as proved. Trusts clang\'s IR, the engine\'s IR semantics, the container specifications in stubs/ and z3.'
prop('P07', 'Stream messages carry every field and names of any length arrive intact',
     'Endpoint discovery and info, device identity, product instance, function block and stream configuration messages built from valid arguments have exactly the specified layout, and views return all fields unchanged. An endpoint, product or function block name of any length is sent as the shortest sequence of packets whose formats are complete or start, continue, end and whose payloads concatenated are the name byte for byte, padded with zeros; reading a packet returns exactly those bytes.',
     ['inputs'], 'all argument tuples, all 128 bit packets for views, all names of any length and content',
     'Names of any length and content (multi-byte text included) cannot be enumerated by tests, which use short ASCII literals.',
     ['inc/midi/stream_message.h'],
     [('make_*_message, *_view, send_endpoint_name, send_product_instance_id, send_function_block_name', 'inc/midi/stream_message.h'), ('payload_as_string', 'inc/midi/stream_message.h')], LOOPINV)
prop('P08', 'Flex data messages carry every field and text unchanged',
     'Flex data messages built from valid arguments (tempo, time signature, metronome, key signature, chord, text, generic) have exactly the specified layout of group, format, address, channel, status bank, status and data, and the view returns every field unchanged; it is available exactly for flex data packets. A text of up to twelve bytes of any content is stored padded with zeros and reads back identical up to its first NUL.',
     ['inputs'], 'all argument tuples of all factories; all 128 bit packets for views; all texts of up to twelve bytes',
     'A chord message alone has more than 2^100 argument tuples; tests use a few literals.',
     ['inc/midi/flex_data_message.h'], [('make_flex_data_message, make_flex_data_text_message, make_set_*_message, flex_data_message_view, payload_as_string', 'inc/midi/flex_data_message.h')], LOOPFREE)
prop('P12', 'A 7-bit system exclusive message of any length is cut into exact packets',
     'Sending a 7-bit system exclusive message of any length produces one complete packet or start, continue..., end packets, each but the last full with six bytes, whose payloads concatenated are the manufacturer id bytes (one or three) followed by the data, on the requested group and with unused bytes zero; never an extra or an empty trailing packet. Packet accessors read and write exactly their own field.',
     ['inputs'], 'all messages of any length and content, all manufacturer ids, all groups; all packets for the accessors',
     'Off-by-one errors sit at particular lengths modulo six combined with the id length; tests check a few lengths.',
     ['inc/midi/data_message.h', 'inc/midi/sysex.h'], [('send_sysex7, as_sysex7_packets', 'inc/midi/sysex.h'), ('sysex7_packet, sysex7_packet_view', 'inc/midi/data_message.h')], LOOPINV)
prop('P13', 'An 8-bit system exclusive message of any length is cut into exact packets',
     'Sending an 8-bit system exclusive message of any length produces one complete packet or start, continue..., end packets, each but the last full with thirteen bytes, whose payloads concatenated are the two manufacturer id bytes followed by the data, all with the given stream id and group and with unused bytes zero. Packet accessors read and write exactly their own field.',
     ['inputs'], 'all messages of any length and content, all manufacturer ids, stream ids, groups; all packets for the accessors',
     'Off-by-one errors sit at particular lengths modulo thirteen; tests check a few lengths.',
     ['inc/midi/extended_data_message.h', 'inc/midi/sysex.h'], [('send_sysex8, as_sysex8_packets', 'inc/midi/sysex.h'), ('sysex8_packet, sysex8_packet_view', 'inc/midi/extended_data_message.h')], LOOPINV)
prop('P17', 'System exclusive payload helpers append and read numbers at any position',
     'Adding 7, 14, 28 or 32 bit numbers, manufacturer ids, device identities or blocks of bytes to a system exclusive message appends exactly the specified bytes, least significant first, and leaves every existing byte unchanged. Reading at a valid position returns exactly what was added there, whatever surrounds it. Two messages compare equal exactly when manufacturer id and data are equal.',
     ['inputs'], 'all payloads of any length and content, all positions, all values',
     'The frame condition and the position independence quantify over payloads of any length.',
     ['inc/midi/sysex.h', 'src/sysex.cpp', 'inc/midi/manufacturer.h'], [('add_uint14, add_uint28, add_uint32, add_device_identity, make_uint14, make_uint28, make_uint32, make_device_identity', 'inc/midi/sysex.h')], LOOPINV)
prop('P18', 'Universal system exclusive messages are recognised and laid out exactly',
     'Universal system exclusive messages such as identity request and reply have exactly the specified bytes; a view is available for exactly the messages of the matching universal id, sub id and minimum length, whatever their length and content, and returns device id, sub ids and identity unchanged without reading outside the message.',
     ['inputs'], 'all system exclusive messages of any length and content; all arguments',
     'Recognition must be exact on every message received from outside, including truncated ones.',
     ['inc/midi/universal_sysex.h', 'src/universal_sysex.cpp'], [('is_universal_sysex_message, identity_request, identity_reply views and factories', 'inc/midi/universal_sysex.h')], LOOPINV)

prop('P19', 'MIDI-CI messages are recognised exactly and read without leaving the message',
     'For every system exclusive message of any length and content, each MIDI-CI view (base, discovery inquiry and reply, endpoint information, ACK, NAK, invalidate MUID, process inquiry) accepts exactly the messages with the matching sub id, version and sufficient length, and returns the device id, MUIDs, identity, sizes and flags that stand at the specified positions; neither validation nor any accessor of an accepted view reads outside the message.',
     ['inputs'], 'all system exclusive messages of any length and content',
     'Received messages come from outside and may be truncated anywhere; tests parse a few well-formed ones.',
     ['inc/midi/capability_inquiry.h', 'src/capability_inquiry.cpp'], [('as<...>, *_view::validate and accessors', 'inc/midi/capability_inquiry.h')], LOOPINV)
prop('P20', 'MIDI-CI messages built from valid arguments carry every argument',
     'Every MIDI-CI factory for discovery, endpoint information, ACK, NAK, MUID invalidation and process inquiry produces exactly the specified bytes (universal id, device id, sub ids, version, source and destination MUID, payload), every byte is 7-bit, and the matching view reads all arguments back unchanged.',
     ['inputs'], 'all valid argument tuples', 'Argument tuples exceed 2^100; tests use literals.',
     ['inc/midi/capability_inquiry.h', 'src/capability_inquiry.cpp'], [('make_discovery_inquiry, make_discovery_reply, make_endpoint_information_*, make_ack, make_nak, make_invalidate_muid_message, make_*process_inquiry*', 'src/capability_inquiry.cpp')], LOOPINV)
prop('P21', 'Property exchange messages of any size are read and built exactly',
     'For every system exclusive message, the property exchange views accept exactly the messages whose header and chunk fit, and header, chunk, chunk numbers and request id are the bytes at the specified positions. Messages built for any resource, header text, options and body of any length contain header and body byte for byte with their sizes, chunk counters and request id, and read back identical; generated headers are well-formed: every option appears once, numbers unquoted, text quoted.',
     ['inputs'], 'all system exclusive messages of any length and content; all resources, headers and bodies of any length up to the 14 bit size fields; header options as stated by the bounded_* contracts',
     'Header and body of any length at once, and truncated received messages, cannot be enumerated.',
     ['inc/midi/capability_inquiry.h', 'src/capability_inquiry.cpp'], [('property_exchange views, make_property_*, make_get/set/subscription..., make_rjson', 'src/capability_inquiry.cpp')], LOOPINV)
prop('P22', 'Profile messages with any number of profiles are read and built exactly',
     'For every system exclusive message the profile views accept exactly the messages whose lists and data fit, and the profile lists, ids, targets and data returned are the bytes at the specified positions in order. Inquiry replies with any number of profiles, details replies and profile specific data of any length are laid out exactly as specified with correct counts and sizes and read back identical.',
     ['inputs'], 'all system exclusive messages of any length and content; all argument tuples; lists of any length (both lists non-empty at once: bounded by three profiles each); data of any length up to the size field',
     'Lists and data of any length and truncated received messages cannot be enumerated by tests.',
     ['inc/midi/capability_inquiry.h', 'src/capability_inquiry.cpp'], [('profile_*_view, make_profile_*', 'src/capability_inquiry.cpp')], LOOPINV)

prop('P23', 'Jitter reduction keeps messages in order and covers the observed jitter',
     'JR timestamps subtract modulo 65536 ticks and JR messages carry them unchanged. For every history of received JR clocks and timestamped messages with receive times that never go back, the clock follower never schedules a later message before an earlier one, the reference time is never later than the received or the expected time of the last clock, a message is due at the reference time plus its timestamp distance (or right after the previous message) plus the security offset, jitter covers every observed deviation, and the security offset never shrinks by itself and is at least 1.2 times the jitter whenever jitter grew.',
     ['histories', 'inputs'], 'every follower state and every call, hence by induction every history; times below 2^58 ns, offsets below 2^55 ns',
     'The order guarantee concerns every interleaving of clocks and messages with any jitter; the existing follower tests are skipped.',
     ['inc/midi/jitter_reduction_timestamps.h', 'src/jitter_reduction_timestamps.cpp'], [('jr_clock_follower::process_clock, schedule_message, update_stats, recalc_security_offset, reset', 'src/jitter_reduction_timestamps.cpp'), ('jr_timestamp_t, jr_clock_message, jr_timestamp_message', 'inc/midi/jitter_reduction_timestamps.h')],
     LOOPFREE + ' The follower state is arbitrary in each contract, so the step contracts are inductive over histories; std::chrono::system_clock::now is replaced by a constant that the contract overwrites.')
HIST = ' The history loop is cut by invariants over collector/parser state and reference state together, so the result holds after any number of calls.'
prop('P14', 'The 7-bit sysex collector delivers exactly the message sent, in any history',
     'For every sequence of packets, resets and limit changes fed to a sysex7_collector, the callback is called exactly when a complete or end packet closes a well-formed sequence, with exactly the manufacturer id and data bytes of the packets since the last start or complete packet. Packets of other types or out of sequence never alter a message being delivered, a message exceeding the size limit is dropped whole, and nothing of an earlier message leaks into a later one.',
     ['histories', 'inputs'], 'all sequences of any length of arbitrary 128 bit packets, resets and changes of the size limit; messages of any length',
     'Defects depend on the order of packets (interrupted, oversized, restarted messages) over histories of any length; tests run a few sequences.',
     ['src/sysex_collector.cpp', 'inc/midi/sysex_collector.h'], [('sysex7_collector::feed, reset, set_max_sysex_data_size, set_callback', 'src/sysex_collector.cpp'), ('sysex7_packet_view, is_sysex7_packet', 'inc/midi/data_message.h')], LOOPINV + HIST)
prop('P15', 'The 8-bit sysex collector delivers exactly the message sent, in any history',
     'For every sequence of packets and resets fed to a sysex8_collector, the callback is called exactly when a complete or end packet closes a well-formed sequence of one stream, with exactly that stream id, manufacturer id and data bytes of the packets since the last start or complete packet. Packets of other types, other streams or out of sequence never alter the message, a message exceeding the size limit is dropped whole, and nothing of an earlier message leaks into a later one.',
     ['histories', 'inputs'], 'all sequences of any length of arbitrary 128 bit packets and resets, any size limit; messages of any length',
     'Defects depend on the order of packets and streams over histories of any length; tests run a few sequences.',
     ['src/sysex_collector.cpp', 'inc/midi/sysex_collector.h'], [('sysex8_collector::feed, reset, set_max_sysex_data_size, set_callback', 'src/sysex_collector.cpp'), ('sysex8_packet_view, is_sysex8_packet', 'inc/midi/extended_data_message.h')], LOOPINV + HIST)
prop('P10', 'MIDI 1 byte streams parse into exactly the messages they contain',
     'For every sequence of bytes fed to the MIDI 1 byte stream parser, with resets anywhere, the packets posted are exactly the channel voice, system common, real time and 7-bit system exclusive messages of the stream, in order, on the parser group: running status continues, real time bytes may appear anywhere without disturbing a message, undefined or interrupted messages are dropped and cancel running status, and a system exclusive message becomes complete or start, continue..., end packets with six bytes each. Switching callbacks off and on loses exactly the packets due meanwhile.',
     ['histories', 'inputs'], 'all byte sequences of any length from a fresh parser, with resets and callback switches at any point; all groups',
     'The state space of the parser (status, running status, partial message, partial packet) times all byte sequences; tests feed a few streams.',
     ['src/midi1_byte_stream.cpp', 'inc/midi/midi1_byte_stream.h'], [('midi1_byte_stream_parser::feed, reset, system_realtime, system_common, channel_voice, sysex_start, sysex_continue_packet, sysex_end_packet', 'src/midi1_byte_stream.cpp')], LOOPINV + HIST)
prop('P11', 'MIDI 1 byte stream sysex callbacks deliver exactly the message sent',
     'With a system exclusive callback installed, for every sequence of bytes, resets and callback switches, the callback is invoked exactly when F7 closes a message that started while callbacks were enabled and has a complete manufacturer id, with exactly that id and exactly the data bytes between F0 and F7 however many there are. Real time bytes inside do not disturb it, any other status byte cancels it, nothing of an earlier message leaks into a later one, and no system exclusive packets are posted in this mode.',
     ['histories', 'inputs'], 'all byte sequences of any length from a fresh parser, with resets and callback switches at any point; messages of any length',
     'Leaks between messages and cancelled messages depend on the history; tests feed a few streams.',
     ['src/midi1_byte_stream.cpp', 'inc/midi/midi1_byte_stream.h'], [('midi1_byte_stream_parser::sysex_start, sysex_continue_callback, sysex_end_callback, feed, reset', 'src/midi1_byte_stream.cpp')], LOOPINV + HIST)
prop('P16', 'Messages survive the trip through packets, MIDI 1 bytes and collectors',
     'Every MIDI 1 channel voice, system and 7-bit system exclusive packet converts to exactly the bytes of the message, everything else to none, and never more than eight bytes are written; feeding those bytes to a parser (singly or as a block of any length, with or without running status) posts the same packet again. A system exclusive message sent as packets and collected again, or converted to MIDI 1 bytes and parsed again, arrives once with the same manufacturer id and data.',
     ['inputs'], 'all 128 bit packets; blocks of any length; end to end contracts for messages up to 60 bytes (for any length they follow from P11 to P15)',
     'Round trips must hold for every message and length, in particular lengths at packet boundaries.',
     ['inc/midi/midi1_byte_stream.h', 'src/midi1_byte_stream.cpp', 'src/sysex_collector.cpp', 'inc/midi/sysex.h'], [('to_midi1_byte_stream, midi1_byte_stream_size, from_midi1_byte_stream, midi1_byte_stream_parser::feed', 'src/midi1_byte_stream.cpp'), ('send_sysex7, send_sysex8 with sysex7_collector, sysex8_collector', 'inc/midi/sysex.h')], LOOPINV)
prop('P24', 'Packets written as text read back identical and leave the stream as it was',
     'Every packet written to a text stream appears as exactly its words in the order of the packet, each as eight hexadecimal digits with leading zeros and one blank between words, whatever base, adjustment, base prefix or fill character the stream was set to. The formatting flags and the fill character of the stream are the same afterwards as before. Reading that text, alone or followed by further packets, yields an equal packet; text that ends early or is no number makes the stream fail and leaves the remaining words of the packet alone.',
     ['inputs'], 'all 128 bit packets, all stream base, adjustment, prefix and fill settings; text of one and of two packets',
     'Leading zeros, word boundaries and the caller\'s stream settings matter for every value and setting; the test writes one packet to a fresh stream.',
     ['src/universal_packet.cpp'], [('operator<<, operator>>', 'src/universal_packet.cpp')], LOOPFREE)
