#include <midi/types.h>
using namespace midi;
int main(){ auto r = pitch_bend{uint32_t(0x7FFFFFFF)} * pitch_bend_sensitivity{uint32_t(1)}; return r.value==0 ? 0 : 1; }
