/* Dispatcher: library scenarios. */
#include "sim.h"
#include "scen.h"
#include "sut.h"
static bool huge_variant(void) { size_t n = strlen(g_variant); return n && g_variant[n - 1] == 'g'; }
void scenario_init(void) {
	sut_init();
	switch (g_prop[0]) {
	case 'S': if (huge_variant()) huge_stream_init(); else stream_init(); break;
	case 'T': if (g_prop[2] == '4') cpu_init(); else threads_init(); break;
	default: sim_error("unknown property %s", g_prop);
	}
}
void scenario(void) {
	switch (g_prop[0]) {
	case 'S': if (huge_variant()) huge_stream_scenario(); else stream_scenario(); break;
	case 'T': if (g_prop[2] == '4') cpu_scenario(); else threads_scenario(); break;
	}
}
