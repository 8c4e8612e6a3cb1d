#include <cstdio>
#include <vector>
#include <string>
#include <midi/sysex_collector.h>
#include <midi/data_message.h>
int main(){ using namespace midi; bool ok=false; int n=0; sysex7_collector c([&](const sysex7& s){ ++n; ok = s.manufacturerID==0x420000 && s.data.size()==1 && s.data[0]==7; });
 auto a=make_sysex7_start_packet(0); for(int i=0;i<6;++i) a.add_payload_byte(0x41); c.feed(a);
 c.feed(make_sysex7_start_packet(0));
 auto b=make_sysex7_end_packet(0); b.add_payload_byte(0x42); b.add_payload_byte(7); c.feed(b); return !(n==1&&ok); }