#include <cstdio>
#include <vector>
#include <string>
#include <midi/capability_inquiry.h>
int main(){ using namespace midi; using namespace midi::ci; std::vector<profile_id> p(130); auto m=make_profile_inquiry_reply(1,2,nullptr,0,p.data(),130); sysex7 t=m; if(!as<profile_inquiry_reply_view>(t)) return 1; t.data.resize(t.data.size()-100); return bool(as<profile_inquiry_reply_view>(t)); }