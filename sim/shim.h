#ifndef SIM_SHIM_H
#define SIM_SHIM_H
extern bool shim_fail; extern uint64_t shim_calls; extern const char *shim_last;
#endif
