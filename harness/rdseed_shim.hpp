// Stands in for the RDSEED instruction in builds with ENABLE_RDSEED: included
// before anything else in every unit of that configuration.
#pragma once
#include <x86intrin.h>
extern "C" int pbt_rdseed64(unsigned long long *v);
#define _rdseed64_step pbt_rdseed64
