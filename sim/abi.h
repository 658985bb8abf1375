/* S08: what a call must leave as it was. */
#ifndef SIM_ABI_H
#define SIM_ABI_H
#include "sim.h"
/* Call fn with up to five arguments, every register the callee must preserve
 * holding a value that depends on the run; violation if one comes back changed. */
uintptr_t abi_call(const char *name, void *fn, uintptr_t a, uintptr_t b, uintptr_t c, uintptr_t d, uintptr_t e);
#endif
