/* Dispatcher: the command-line tool. */
#include "sim.h"
#include "scen.h"
void scenario_init(void) {
	if (g_prop[0] != 'U') sim_error("unknown property %s", g_prop);
	cli_init();
}
void scenario(void) { cli_scenario(); }
