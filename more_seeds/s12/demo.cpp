#include <cstdio>
#include <vector>
#include <string>
#include <midi/sysex.h>
#include <midi/data_message.h>
int main(){ midi::sysex7 s(0x410000); s.data.assign(70000,1); int ends=0; midi::send_sysex7(s,0,[&](const midi::data_message& m){ ends += (m.get_byte(1)>>4)==3; }); return ends!=1; }