#include "sim.h"
#define P(id, what) void run_##id();
#include "props.inc"
#undef P
#define P(id, what) {#id, run_##id, what},
Prop props[] = {
#include "props.inc"
{0, 0, 0}};
