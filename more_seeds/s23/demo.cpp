#include <cstdio>
#include <vector>
#include <string>
#include <midi/jitter_reduction_timestamps.h>
int main(){ using namespace midi; using C=std::chrono::system_clock; using namespace std::chrono; jr_clock_follower f; auto t=C::time_point{seconds{100}};
 f.process_clock(t, jr_timestamp_t{0}); f.process_clock(t+milliseconds{100}, jr_timestamp_t{uint16_t(31250/5)}); return !(f.security_offset()*10 >= f.jitter()*12); }