#include "core.h"
extern const sim_t sim_fleet, sim_threads, sim_cli, sim_cpu, sim_ocl;
const sim_t *const g_sims[] = { &sim_fleet, &sim_threads, &sim_cli, &sim_cpu, &sim_ocl, NULL };
int main(int argc, char **argv) { return core_main(argc, argv); }
