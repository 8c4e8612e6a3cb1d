#include <cstdio>
#include <vector>
#include <string>
#include <midi/sysex.h>
#include <midi/extended_data_message.h>
int main(){ midi::sysex8 s(0x410000); s.data.assign(200000,1); int ends=0; midi::send_sysex8(s,1,0,[&](const midi::extended_data_message& m){ ends += (m.get_byte(1)>>4)==3; }); return ends!=1; }