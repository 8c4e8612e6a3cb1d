#include <cstdio>
#include <vector>
#include <string>
#include <midi/capability_inquiry.h>
int main(){ using namespace midi; using namespace midi::ci; std::vector<uint8_t> h(128,'a'); property_exchange::header hd; hd.data=h.data(); hd.size=h.size(); uint8_t c[1]={1}; property_exchange::chunk ck; ck.data=c; ck.size=1;
 auto m=property_exchange::make_property_data_message(subtype::get_property_data_reply,1,2,hd,3,2,ck,1,0x7F); return property_exchange::property_data_message_view::validate(m); }