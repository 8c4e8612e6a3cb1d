#include <midi/types.h>
int main(){ return midi::upsample_x_to_ybit((1u<<20)-1,20,32)==0xFFFFFFFFu ? 0 : 1; }
