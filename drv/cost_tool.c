#define COST_TOOL
#include "cost.c"
