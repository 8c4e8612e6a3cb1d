#include <cstdio>
#include <vector>
#include <string>
#include <midi/sysex_collector.h>
#include <midi/extended_data_message.h>
int main(){ using namespace midi; size_t len=0; int n=0; sysex8_collector c([&](const sysex8& s,uint8_t){ ++n; len=s.data.size(); });
 auto a=make_sysex8_start_packet(0,0); a.add_payload_byte(0); a.add_payload_byte(0x41); a.add_payload_byte(1); c.feed(a);
 auto x=make_sysex8_continue_packet(5,0); x.add_payload_byte(9); c.feed(x);
 auto b=make_sysex8_end_packet(0,0); b.add_payload_byte(2); c.feed(b); return !(n==1&&len==2); }