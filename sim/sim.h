#pragma once
#include <stddef.h>
#include <stdint.h>
#include <string>
#include <vector>
long sim_knob(const char *k, long d);
void sim_log(char tag, const void *p, size_t n);
void sim_logf(char tag, const char *fmt, ...);
void sim_arm(bool on);
uint64_t sim_allocs();
extern std::vector<std::string> *SIM_CLIENT; // "op\nargument"
int sim_capi_main(int mode);
