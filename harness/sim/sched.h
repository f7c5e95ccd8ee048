// A deterministic thread scheduler. Between sim_begin and sim_end, exactly one of the simulated threads (each a real OS
// thread, so thread_local works) runs at a time, and control only changes hands at scheduling points, as dictated by a
// list of decisions. The handoff is invisible to TSan, so TSan only knows the synchronization the code under test does.
#ifndef VERIF_SIM_SCHED_H
#define VERIF_SIM_SCHED_H

#include <cstdint>

extern "C" {

struct sim_decisions {
  // Preempt the running thread after distance[i] scheduling points (0: never preempt again), and switch to the
  // target[i]'th other runnable thread.
  int preempts;
  const uint32_t* distance;
  const uint32_t* target;
  // When a thread blocks, exits or yields, which other thread to run. After these are used up: the next one.
  int switches;
  const uint32_t* next;
  // Number of spurious condition variable wakeups to do.
  int spurious;
};

enum { sim_ok = 0, sim_deadlock = 1, sim_livelock = 2 };

// Start a simulation in which the calling thread is thread 0. `on_stuck` is called if the simulation deadlocks or
// livelocks, and must not return.
void sim_begin(const sim_decisions* d, void (*on_stuck)(int), uint64_t max_points);
void sim_end();
int sim_active();
// Number of scheduling points, switches so far.
uint64_t sim_points();
uint64_t sim_switches();
int sim_self();
int sim_thread_count();

void sim_point();
void sim_yield();
// The calling thread is not spinning.
void sim_progress();
// Returns the id of a new thread. The new thread must call sim_thread_enter(id) first and sim_thread_exit last.
int sim_thread_new();
void sim_thread_enter(int id);
void sim_thread_exit();
void sim_thread_join(int id);

// Mutexes and condition variables are identified by address. The functions return 0 if no simulation is active.
void sim_lock(int* owner);
int sim_try_lock(int* owner);
void sim_unlock(int* owner);
void sim_cv_wait(void* cv, int* owner);
void sim_cv_notify(void* cv, int all);

}  // extern "C"

#endif
