// Compiled without any sanitizer and without C++ library templates.
#include "sched.h"

#include <errno.h>
#include <linux/futex.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace {

constexpr int max_threads = 64;

enum state { st_none, st_ready, st_mutex, st_cv, st_join, st_done };

struct thread_info {
  state st;
  void* on;        // what it is blocked on
  bool yielded;    // has yielded and nothing has made progress since
  bool mute;       // ignore yields until it blocks
  int futex;       // 1 when this thread holds the baton
  uint64_t run_yields, last_yield;
};

thread_info th[max_threads];
int n_threads = 0;
int current = -1;
bool active = false;
sim_decisions dec;
int i_preempt, i_next;
uint64_t countdown;  // scheduling points until the next preemption, 0: none
uint64_t points, switches, max_points, progress_point;
int spurious_left;
void (*stuck)(int);
__thread int self = -1;

long sys_futex(int* addr, int op, int val) { return syscall(SYS_futex, addr, op, val, nullptr, nullptr, 0); }

void wait_baton(int id) {
  int spins = 200;
  while (__atomic_load_n(&th[id].futex, __ATOMIC_ACQUIRE) == 0) {
    if (spins > 0) {
      --spins;
      __builtin_ia32_pause();
    } else {
      sys_futex(&th[id].futex, FUTEX_WAIT_PRIVATE, 0);
    }
  }
  __atomic_store_n(&th[id].futex, 0, __ATOMIC_RELAXED);
}

void pass_baton(int to) {
  ++switches;
  current = to;
  __atomic_store_n(&th[to].futex, 1, __ATOMIC_RELEASE);
  sys_futex(&th[to].futex, FUTEX_WAKE_PRIVATE, 1);
}

void next_countdown() {
  countdown = 0;
  if (i_preempt < dec.preempts) countdown = dec.distance[i_preempt];
}

// Pick the k'th ready thread after `from` in cyclic order, excluding `from`. -1 if there is none.
int pick(int from, uint32_t k, bool allow_yielded) {
  int c = 0;
  for (int i = 1; i < n_threads; ++i) {
    const thread_info& t = th[(from + i) % n_threads];
    if (t.st == st_ready && (allow_yielded || !t.yielded)) ++c;
  }
  if (c == 0) return -1;
  k %= c;
  for (int i = 1; i < n_threads; ++i) {
    int id = (from + i) % n_threads;
    const thread_info& t = th[id];
    if (t.st == st_ready && (allow_yielded || !t.yielded)) {
      if (k-- == 0) return id;
    }
  }
  return -1;
}

uint32_t next_choice() { return i_next < dec.switches ? dec.next[i_next++] : 0; }

// The calling thread cannot continue: run another.
void switch_blocked() {
  int me = self;
  int to = pick(me, next_choice(), false);
  if (to < 0) to = pick(me, 0, true);
  if (to < 0) {
    stuck(sim_deadlock);
    abort();
  }
  pass_baton(to);
  if (th[me].st != st_done) wait_baton(me);
}

void check_live() {
  ++points;
  if (points > max_points) {
    stuck(sim_livelock);
    abort();
  }
}

void wake(void* on, state st, int max) {
  // Wake in cyclic order from a chosen thread.
  uint32_t k = max < max_threads ? next_choice() : 0;
  for (int i = 0; i < n_threads && max > 0; ++i) {
    thread_info& t = th[(k + i) % n_threads];
    if (t.st == st && t.on == on) {
      t.st = st_ready;
      t.yielded = false;
      t.on = nullptr;
      --max;
    }
  }
}

}  // namespace

extern "C" {

void sim_begin(const sim_decisions* d, void (*on_stuck)(int), uint64_t max_p) {
  memset(th, 0, sizeof(th));
  n_threads = 1;
  current = 0;
  self = 0;
  th[0].st = st_ready;
  dec = *d;
  i_preempt = i_next = 0;
  points = switches = 0;
  max_points = max_p;
  spurious_left = d->spurious;
  stuck = on_stuck;
  active = true;
  next_countdown();
}

void sim_end() {
  active = false;
  self = -1;
}

int sim_active() { return active && self >= 0; }
uint64_t sim_points() { return points; }
uint64_t sim_switches() { return switches; }
int sim_self() { return self; }
int sim_thread_count() { return n_threads; }

void sim_point() {
  if (!sim_active()) return;
  check_live();
  if (th[self].yielded) {
    // Spinning, unless it has been busy for a while without a yield.
    if (points - th[self].last_yield < 100) return;
    th[self].yielded = false;
  }
  if (countdown == 0 || --countdown > 0) return;
  uint32_t k = dec.target[i_preempt++];
  next_countdown();
  int me = self;
  int to = pick(me, k, true);
  if (to < 0) return;
  th[to].yielded = false;
  pass_baton(to);
  wait_baton(me);
}

void sim_yield() {
  if (!sim_active()) return;
  check_live();
  thread_info& t = th[self];
  ++t.run_yields;
  t.last_yield = points;
  if (t.mute) {
    if (t.run_yields < 1500) return;
    t.mute = false;
  }
  if (!t.yielded) {
    // Decide whether this thread gives way or spins on until it blocks, which makes it possible for it to be asleep
    // while another thread is in the middle of something.
    uint32_t c = next_choice();
    if (c % 4 == 3) {
      t.mute = true;
      t.run_yields = 0;
      return;
    }
  }
  t.yielded = true;
  int me = self;
  int to = pick(me, 0, false);
  if (to < 0) {
    // Everything that can run is spinning. Run this thread for a while before trying the others.
    if (t.run_yields % 3000 != 0) return;
    to = pick(me, 0, true);
    if (to < 0) return;
  }
  pass_baton(to);
  wait_baton(me);
}

void sim_progress() {
  if (!sim_active()) return;
  th[self].yielded = false;
  th[self].mute = false;
}

int sim_thread_new() {
  if (!sim_active()) return -1;
  if (n_threads == max_threads) abort();
  int id = n_threads++;
  th[id].st = st_ready;
  return id;
}

void sim_thread_enter(int id) {
  if (id < 0) return;
  self = id;
  wait_baton(id);
}

void sim_thread_exit() {
  if (!sim_active()) return;
  th[self].st = st_done;
  wake(&th[self], st_join, max_threads);
  switch_blocked();
}

void sim_thread_join(int id) {
  if (!sim_active() || id < 0) return;
  sim_point();
  while (th[id].st != st_done) {
    th[self].st = st_join;
    th[self].on = &th[id];
    th[self].mute = false;
    th[self].yielded = false;
    switch_blocked();
  }
}

void sim_lock(int* owner) {
  if (!sim_active()) return;
  sim_point();
  while (*owner != 0) {
    th[self].st = st_mutex;
    th[self].on = owner;
    th[self].mute = false;
    // A thread that blocks on a mutex in a spin loop still spins.
    switch_blocked();
  }
  *owner = self + 1;
}

int sim_try_lock(int* owner) {
  if (!sim_active()) return 1;
  sim_point();
  if (*owner != 0) return 0;
  *owner = self + 1;
  return 1;
}

void sim_unlock(int* owner) {
  if (!sim_active()) return;
  *owner = 0;
  for (int i = 0; i < n_threads; ++i) {
    thread_info& t = th[i];
    if (t.st == st_mutex && t.on == owner) {
      t.st = st_ready;
      t.on = nullptr;
    }
  }
  sim_point();
}

void sim_cv_wait(void* cv, int* owner) {
  if (!sim_active()) return;
  sim_point();
  thread_info& t = th[self];
  t.yielded = false;
  t.mute = false;
  if (spurious_left > 0 && next_choice() % 3 == 2) {
    --spurious_left;
    sim_unlock(owner);
    sim_lock(owner);
    return;
  }
  // Unlock and block atomically.
  t.st = st_cv;
  t.on = cv;
  *owner = 0;
  for (int i = 0; i < n_threads; ++i) {
    thread_info& o = th[i];
    if (o.st == st_mutex && o.on == owner) {
      o.st = st_ready;
      o.on = nullptr;
    }
  }
  switch_blocked();
  sim_lock(owner);
}

void sim_cv_notify(void* cv, int all) {
  if (!sim_active()) return;
  sim_point();
  wake(cv, st_cv, all ? max_threads : 1);
}

}  // extern "C"
