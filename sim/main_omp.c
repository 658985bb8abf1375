/* Dispatcher: parallel builds. */
#include "sim.h"
#include "scen.h"
#include "sut.h"
void scenario_init(void) {
	sut_init();
	if (g_prop[0] != 'P' && strcmp(g_prop, "T03") && strcmp(g_prop, "T01")) sim_error("unknown property %s", g_prop);
	omp_init();
}
void scenario(void) { omp_scenario(); }
