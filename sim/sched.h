#ifndef SIM_SCHED_H
#define SIM_SCHED_H
int sched_active(void);
void sched_block_point(void);
void sched_lock_delta(int d);
#endif
