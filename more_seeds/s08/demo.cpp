#include <cstdio>
#include <vector>
#include <string>
#include <midi/flex_data_message.h>
int main(){ using namespace midi; std::string s="\xC3\xA4"; auto m=make_flex_data_text_message(1,packet_format::complete,packet_address::group,0,1,2,s); return m.get_byte(4)!=0xC3||m.get_byte(5)!=0xA4; }