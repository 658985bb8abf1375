#ifndef SIM_SCEN_H
#define SIM_SCEN_H
void stream_init(void); void stream_scenario(void);
void huge_stream_init(void); void huge_stream_scenario(void);
void threads_init(void); void threads_scenario(void);
void cpu_init(void); void cpu_scenario(void);
void omp_init(void); void omp_scenario(void);
void cli_init(void); void cli_scenario(void);
#endif
