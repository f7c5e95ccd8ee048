// C14: histories of operations on the real thread pool, under a deterministic scheduler that decides every
// interleaving, and under TSan.
#include <climits>

#include "engine.h"
#include "slinky/base/thread_pool_impl.h"

using pbt::gen;
using slinky::ref_count;
using slinky::thread_pool;
using slinky::thread_pool_impl;

#define NO_TSAN __attribute__((no_sanitize("thread"))) __attribute__((noinline))

namespace {

gen* G = nullptr;

// The oracle's data lives in plain arrays that only NO_TSAN functions access: the scheduler guarantees mutual exclusion,
// and TSan must not see it as synchronization.
constexpr int max_recs = 1024;
constexpr int max_items = 16384;

struct rec {
  int n, max_workers, base;
  int started, finished;
  int threads_in;  // distinct threads currently in this task
  int per_thread[64];
  bool parfor, ordered;
};
rec recs[max_recs];
int n_recs, n_items;
unsigned char item_started[max_items], item_finished[max_items];
int payload[max_items];  // instrumented accesses only
bool overflow;
int in_atomic, live_bodies;
int work_done;
int init_calls, init_dead;
bool thread_init[64];

NO_TSAN int new_rec(int n, int max_workers, bool parfor) {
  if (n_recs == max_recs || n_items + n > max_items) {
    overflow = true;
    return -1;
  }
  rec& r = recs[n_recs];
  r = rec();
  r.n = n;
  r.max_workers = max_workers;
  r.base = n_items;
  r.parfor = parfor;
  r.ordered = max_workers < INT_MAX;
  n_items += n;
  return n_recs++;
}

NO_TSAN int item_base(int r) { return recs[r].base; }
NO_TSAN int rec_n(int r) { return recs[r].n; }

NO_TSAN void item_begin(int id, size_t i) {
  sim_progress();
  rec& r = recs[id];
  PBT_CHECK(*G, i < (size_t)r.n, "task " << id << " of " << r.n << " items ran item " << i);
  PBT_CHECK(*G, item_started[r.base + i] == 0, "task " << id << " ran item " << i << " twice");
  item_started[r.base + i] = 1;
  ++r.started;
  int self = sim_self();
  PBT_CHECK(*G, r.per_thread[self] == 0, "task " << id << " ran item " << i << " recursively on thread " << self);
  r.per_thread[self] = 1;
  ++r.threads_in;
  PBT_CHECK(*G, r.threads_in <= r.max_workers,
      "task " << id << " with max_workers " << r.max_workers << " runs on " << r.threads_in << " threads at once");
  if (r.ordered) {
    int missing = 0;
    for (size_t j = 0; j < i; ++j) missing += !item_started[r.base + j];
    PBT_CHECK(*G, missing < r.max_workers, "task " << id << " with max_workers " << r.max_workers << " started item "
                                                   << i << " before " << missing << " earlier items");
  }
}

NO_TSAN void item_end(int id, size_t i) {
  rec& r = recs[id];
  item_finished[r.base + i] = 1;
  ++r.finished;
  r.per_thread[sim_self()] = 0;
  --r.threads_in;
  ++work_done;
}

NO_TSAN void check_done(int id, const char* what) {
  rec& r = recs[id];
  PBT_CHECK(*G, r.finished == r.n,
      what << " task " << id << ": only " << r.finished << " of " << r.n << " items are finished");
}

// Reads what the items wrote: a race if the wait does not synchronize with them.
void read_payload(int id, const char* what) {
  check_done(id, what);
  int base = item_base(id), n = rec_n(id);
  for (int i = 0; i < n; ++i) {
    PBT_CHECK(*G, payload[base + i] == id * 1000 + i, what << " task " << id << ": item " << i << " is not visible");
  }
}

NO_TSAN void atomic_enter(const char* what) {
  PBT_CHECK(*G, in_atomic == 0, what << " runs while an atomic call or condition runs");
  in_atomic = 1;
}
NO_TSAN void atomic_leave() { in_atomic = 0; }
NO_TSAN void add_live(int d) { live_bodies += d; }
NO_TSAN int get_live() { return live_bodies; }
NO_TSAN void note_init(unsigned magic) {
  if (magic != 0x600dbeef) init_dead = 1;
  ++init_calls;
  thread_init[sim_self()] = true;
}

// What each thread is waiting for in the pool, innermost last.
struct waiting {
  int id;                         // a task, or
  bool (*cond)(const void*);      // a condition
  const void* ctx;
};
waiting waits[64][64];
int n_waits[64];

NO_TSAN void wait_push(int id, bool (*cond)(const void*), const void* ctx) {
  int t = sim_self();
  if (n_waits[t] < 64) waits[t][n_waits[t]] = {id, cond, ctx};
  ++n_waits[t];
}
NO_TSAN void wait_pop() { --n_waits[sim_self()]; }

// Every thread is blocked. Is each of them waiting for something that really is not done?
NO_TSAN const char* classify_deadlock() {
  for (int t = 0; t < 64; ++t) {
    int n = std::min(n_waits[t], 64);
    if (n == 0) continue;
    const waiting& w = waits[t][n - 1];
    if (w.cond ? w.cond(w.ctx) : recs[w.id].finished == recs[w.id].n) return "a thread waits for something done";
  }
  for (int i = 0; i < n_recs; ++i) {
    if (recs[i].started == 0 && recs[i].n > 0) return "a task was not started";
  }
  return "cyclic wait";
}

void wait_for_task(thread_pool_impl* pool, int id, thread_pool::task* t) {
  wait_push(id, nullptr, nullptr);
  pool->wait_for(t);
  wait_pop();
}

struct op {
  enum kind { parfor, enqueue, wait_slot, poll, atomic_add, leafcond, singleton, point, idle, pipeline, wait_shared, forget,
    cross_wait, cross_enqueue } k;
  int n, mw, slot;
  int delay;
  std::vector<op> body;
};

void gen_body(gen& g, std::vector<op>& ops, int depth, bool top, bool allow_pipeline);

int pipeline_depth = 0;

int gen_mw(gen& g, int n) {
  switch (g.weighted({4, 2, 2, 1, 1})) {
  case 0: return INT_MAX;
  case 1: return 2;
  case 2: return (int)g.range(1, 4);
  case 3: return n;
  default: return 1;
  }
}

op gen_op(gen& g, int depth, bool top, bool allow_pipeline, int slot) {
  op o;
  o.slot = slot;
  o.n = 1;
  o.mw = INT_MAX;
  o.delay = (int)g.below(4);
  int w_nest = depth > 0 ? 1 : 0;
  o.k = (op::kind)g.weighted({5 * w_nest, 5 * w_nest, 4, 1, 3, 2 * w_nest, 2 * w_nest, 2, top ? 1 : 0, allow_pipeline ? 2 : 0,
      top ? 1 : 0, top ? 2 : 0});
  if (o.k == op::parfor || o.k == op::enqueue || o.k == op::forget) {
    o.n = (int)(g.chance(1, 12) ? g.range(8, 40) : g.range(o.k == op::parfor ? 0 : 1, depth == 1 ? 9 : 5));
    o.mw = gen_mw(g, std::max(o.n, 1));
    gen_body(g, o.body, std::max(0, depth - 1), false, false);
  } else if (o.k == op::singleton || o.k == op::leafcond) {
    gen_body(g, o.body, o.k == op::leafcond ? 0 : depth - 1, false, false);
  } else if (o.k == op::pipeline) {
    o.n = (int)g.range(1, 8);
    o.mw = g.chance(1, 3) ? INT_MAX - 1 : (int)g.range(1, 4);
    gen_body(g, o.body, pipeline_depth, false, false);
  }
  return o;
}

void gen_body(gen& g, std::vector<op>& ops, int depth, bool top, bool allow_pipeline) {
  int n = (int)g.range(0, top ? 6 : (depth > 0 ? 2 : 2));
  int slots = 0;
  for (int i = 0; i < n; ++i) {
    op o = gen_op(g, depth, top, allow_pipeline, slots);
    if (o.k == op::enqueue || o.k == op::singleton) {
      ++slots;
    } else if (o.k == op::wait_slot || o.k == op::poll) {
      if (slots == 0) continue;
      o.slot = (int)g.below(slots);
    }
    ops.push_back(std::move(o));
  }
}

void print(std::ostream& os, const std::vector<op>& ops, int indent) {
  const char* names[] = {"parallel_for", "enqueue", "wait_for slot", "poll slot", "atomic_call", "enqueue leaf, wait_for condition",
      "enqueue singleton", "point", "work_until_idle", "pipelined loop", "wait_for shared", "enqueue, await without helping", "wait_for condition cross",
      "enqueue cross, await without helping"};
  for (const op& o : ops) {
    os << std::string(indent, ' ') << names[o.k];
    if (o.k == op::parfor || o.k == op::enqueue || o.k == op::pipeline ||
        o.k == op::forget || o.k == op::cross_enqueue)
      os << " n=" << o.n << " max_workers=" << o.mw;
    if (o.k == op::enqueue || o.k == op::singleton || o.k == op::wait_slot || o.k == op::poll) os << " slot=" << o.slot;
    os << "\n";
    print(os, o.body, indent + 2);
  }
}

int atomic_count(const std::vector<op>& ops) {
  int r = 0;
  for (const op& o : ops) {
    if (o.k == op::atomic_add) ++r;
    if (o.k == op::pipeline) r += o.n;  // each item does one
    if (o.k == op::leafcond) r += 1;
    if (o.k == op::cross_enqueue) r += o.n;
    r += o.n * atomic_count(o.body);
  }
  return r;
}
int max_depth(const std::vector<op>& ops) {
  int r = 0;
  for (const op& o : ops) {
    if (o.k == op::parfor || o.k == op::enqueue || o.k == op::singleton || o.k == op::pipeline || o.k == op::forget)
      r = std::max(r, 1 + max_depth(o.body));
  }
  return r;
}

struct world {
  thread_pool_impl* pool;
  int counter = 0;        // only in atomic_call
  bool stop = false;      // only in atomic_call
  std::vector<std::pair<int, ref_count<thread_pool::task>>> shared;
  bool threads = false;  // Some thread works in the pool without being asked to.
  int cross[16] = {0};    // only in atomic_call

  // For waiting outside the pool.
  std::mutex m;
  std::condition_variable cv;
};

void run_ops(world& w, const std::vector<op>& ops);

void points(int n) {
  for (int i = 0; i < n; ++i) sim_point();
}

void body_of(world& w, const op& o, int id, int base, size_t i) {
  item_begin(id, i);
  points(o.delay);
  run_ops(w, o.body);
  payload[base + i] = id * 1000 + (int)i;
  item_end(id, i);
}

// A body with state that is only used by the thread calling this instance.
struct body_fn {
  world* w;
  const op* o;
  int id, base;
  int calls = 0;
  body_fn(world* w, const op* o, int id) : w(w), o(o), id(id), base(item_base(id)) { add_live(1); }
  body_fn(const body_fn& c) : w(c.w), o(c.o), id(c.id), base(c.base) { add_live(1); }
  ~body_fn() { add_live(-1); }
  void operator()(size_t i) {
    ++calls;
    body_of(*w, *o, id, base, i);
    ++calls;
  }
};

void atomic_add(world& w) {
  w.pool->atomic_call([&]() {
    atomic_enter("atomic_call");
    points(2);
    ++w.counter;
    atomic_leave();
  });
}

template <typename F>
void wait_cond(world& w, F f) {
  bool last = false;
  wait_push(0, [](const void* f) -> bool { return (*static_cast<const F*>(f))(); }, &f);
  w.pool->wait_for([&]() -> bool {
    atomic_enter("a condition");
    points(1);
    bool r = f();
    atomic_leave();
    *(bool*)&last = r;
    return r;
  });
  wait_pop();
  PBT_CHECK(*G, last, "wait_for returned when its condition was false");
}

void run_ops(world& w, const std::vector<op>& ops) {
  std::vector<std::pair<int, ref_count<thread_pool::task>>> slots;
  for (const op& o : ops) {
    switch (o.k) {
    case op::parfor: {
      int id = new_rec(o.n, o.mw, true);
      if (id < 0) break;
      wait_push(id, nullptr, nullptr);
      w.pool->parallel_for(o.n, body_fn(&w, &o, id), o.mw);
      wait_pop();
      read_payload(id, "parallel_for returned before completing");
      break;
    }
    case op::enqueue: {
      int id = new_rec(o.n, o.mw, false);
      if (id < 0) {
        slots.emplace_back(-1, nullptr);
        break;
      }
      slots.emplace_back(id, w.pool->enqueue(o.n, body_fn(&w, &o, id), o.mw));
      break;
    }
    case op::singleton: {
      int id = new_rec(1, INT_MAX, false);
      if (id < 0) {
        slots.emplace_back(-1, nullptr);
        break;
      }
      slots.emplace_back(id, w.pool->enqueue([fn = body_fn(&w, &o, id)]() { body_fn copy(fn); copy(0); }));
      break;
    }
    case op::wait_slot:
      if (slots[o.slot].first < 0) break;
      wait_for_task(w.pool, slots[o.slot].first, &*slots[o.slot].second);
      read_payload(slots[o.slot].first, "wait_for returned before completing");
      break;
    case op::poll:
      if (slots[o.slot].first < 0) break;
      if (slots[o.slot].second->done()) read_payload(slots[o.slot].first, "done() is true before completing");
      break;
    case op::atomic_add: atomic_add(w); break;
    case op::leafcond: {
      int id = new_rec(1, INT_MAX, false);
      if (id < 0) break;
      bool flag = false;
      auto body = body_fn(&w, &o, id);
      auto t = w.pool->enqueue(1, [&w, &flag, body](size_t i) mutable {
        body(i);
        w.pool->atomic_call([&]() {
          atomic_enter("atomic_call");
          ++w.counter;
          flag = true;
          atomic_leave();
        });
      });
      wait_cond(w, [&]() { return flag; });
      // The task refers to this frame, and may not be entirely done.
      wait_for_task(w.pool, id, &*t);
      read_payload(id, "wait_for returned before completing");
      break;
    }
    case op::forget:
    case op::cross_enqueue: {
      // Nobody waits for this task in the pool: others must be woken up to run it.
      int id = new_rec(o.n, o.mw, false);
      if (id < 0) {
        w.pool->atomic_call([&]() { w.cross[o.slot] += o.n; });
        break;
      }
      auto body = body_fn(&w, &o, id);
      int done = 0;  // protected by w.m
      auto t = w.pool->enqueue(
          o.n,
          [&w, &o, &done, body](size_t i) mutable {
            body(i);
            if (o.k == op::cross_enqueue) {
              w.pool->atomic_call([&]() {
                ++w.cross[o.slot];
                ++w.counter;
              });
            }
            std::unique_lock l(w.m);
            ++done;
            w.cv.notify_all();
          },
          o.mw);
      if (w.threads || o.k == op::cross_enqueue) {
        std::unique_lock l(w.m);
        while (done < o.n) w.cv.wait(l);
      }
      wait_for_task(w.pool, id, &*t);
      read_payload(id, "wait_for returned before completing");
      break;
    }
    case op::cross_wait: wait_cond(w, [&]() { return w.cross[o.slot] >= o.n; }); break;
    case op::point: points(1 + o.delay); break;
    case op::idle: w.pool->work_until_idle(); break;
    case op::pipeline: {
      int id = new_rec(o.n, o.mw, true);
      if (id < 0) break;
      int stage = 0;
      auto body = body_fn(&w, &o, id);
      auto t = w.pool->enqueue(
          o.n,
          [&w, &stage, body](size_t i) mutable {
            wait_cond(w, [&]() { return stage >= (int)i; });
            body(i);
            w.pool->atomic_call([&]() {
              atomic_enter("atomic_call");
              PBT_CHECK(*G, stage == (int)i, "a pipelined loop ran item " << i << " after " << stage << " items");
              ++stage;
              ++w.counter;
              atomic_leave();
            });
          },
          o.mw);
      wait_for_task(w.pool, id, &*t);
      read_payload(id, "pipelined loop returned before completing");
      break;
    }
    case op::wait_shared:
      for (auto& s : w.shared) {
        wait_for_task(w.pool, s.first, &*s.second);
        read_payload(s.first, "wait_for of a task enqueued by another thread returned before completing");
      }
      break;
    }
  }
  for (auto& s : slots) {
    if (s.first < 0) continue;
    wait_for_task(w.pool, s.first, &*s.second);
    read_payload(s.first, "wait_for returned before completing");
  }
}

struct init_fn {
  unsigned magic = 0x600dbeef;
  ~init_fn() { *(volatile unsigned*)&magic = 0; }
  void operator()() const { note_init(*(volatile const unsigned*)&magic); }
};

void on_stuck(int how) {
  if (how == sim_deadlock) {
    std::string key = std::string("deadlock: ") + classify_deadlock();
    G->fail("no thread can run. " + key, key);
  } else {
    G->fail("the threads run forever without completing", "livelock");
  }
}

NO_TSAN void reset_oracle() {
  n_recs = n_items = 0;
  memset(item_started, 0, sizeof(item_started));
  memset(item_finished, 0, sizeof(item_finished));
  memset(thread_init, 0, sizeof(thread_init));
  memset(n_waits, 0, sizeof(n_waits));
  overflow = false;
  in_atomic = live_bodies = work_done = init_calls = init_dead = 0;
}

struct schedule {
  std::vector<uint32_t> distance, target, next;
  sim_decisions d;
  schedule(gen& g) {
    int p = (int)g.below(g.chance(1, 3) ? 60 : 12);
    for (int i = 0; i < p; ++i) {
      int scale = (int)g.below(10);
      distance.push_back((uint32_t)(1 + g.below(1u << scale)));
      target.push_back((uint32_t)g.below(8));
    }
    int n = (int)g.below(g.chance(1, 3) ? 100 : 16);
    for (int i = 0; i < n; ++i) next.push_back((uint32_t)g.below(12));
    d.preempts = p;
    d.distance = distance.data();
    d.target = target.data();
    d.switches = n;
    d.next = next.data();
    d.spurious = g.chance(1, 4) ? (int)g.below(4) : 0;
  }
};

enum mode { fork_join_mode, pipelined_mode, interdependent_mode };

void run_case(gen& g, mode m) {
  bool pipelined = m != fork_join_mode;
  pipeline_depth = m == interdependent_mode ? 2 : 0;
  G = &g;
  reset_oracle();
  int workers = (int)g.below(4);
  bool expect = workers == 0 && g.chance(1, 2);
  int runners = g.chance(1, 3) ? (int)g.range(1, 2) : 0;
  bool use_init = g.chance(1, 3);
  int n_scripts = (int)g.range(1, pipelined ? 2 : 3);
  std::vector<std::vector<op>> scripts(n_scripts);
  for (int i = 0; i < n_scripts; ++i) {
    // Waiting for a condition runs other tasks on the same stack, so only one pipelined loop is in flight, and the
    // other scripts do not nest.
    gen_body(g, scripts[i], m == pipelined_mode ? 1 : 3, true, pipelined && (i == 0 || m == interdependent_mode));
  }
  int crosses = n_scripts > 1 && m != interdependent_mode ? (int)g.below(3) : 0;
  size_t at0 = 0, at1 = 0;
  for (int i = 0; i < crosses; ++i) {
    // Thread 0 waits for a condition that only a task thread 1 enqueues makes true.
    op o;
    o.slot = i;
    o.n = (int)g.range(1, 3);
    o.mw = gen_mw(g, o.n);
    o.delay = (int)g.below(4);
    at0 = g.range(at0, scripts[0].size());
    at1 = g.range(at1, scripts[1].size());
    o.k = op::cross_wait;
    scripts[0].insert(scripts[0].begin() + at0, o);
    o.k = op::cross_enqueue;
    scripts[1].insert(scripts[1].begin() + at1, o);
    ++at0;
    ++at1;
  }
  std::vector<op> shared_ops;
  int n_shared = n_scripts > 1 ? (int)g.below(2) : 0;
  for (int i = 0; i < n_shared; ++i) {
    op o;
    o.k = op::enqueue;
    o.n = (int)g.range(1, 6);
    o.mw = gen_mw(g, o.n);
    o.slot = 0;
    o.delay = (int)g.below(4);
    gen_body(g, o.body, 0, false, false);
    shared_ops.push_back(o);
  }
  schedule s(g);

  if (g.describing()) {
    g.note() << "workers=" << workers << " expect_workers=" << expect << " run_worker threads=" << runners
             << " init=" << use_init << "\n";
    for (int i = 0; i < n_shared; ++i) {
      g.note() << "shared task " << i << ": n=" << shared_ops[i].n << " max_workers=" << shared_ops[i].mw << "\n";
      print(g.note(), shared_ops[i].body, 2);
    }
    for (int i = 0; i < n_scripts; ++i) {
      g.note() << "thread " << i << ":\n";
      print(g.note(), scripts[i], 2);
    }
    g.note() << "schedule: preempt after";
    for (size_t i = 0; i < s.distance.size(); ++i) g.note() << " " << s.distance[i] << "->" << s.target[i];
    g.note() << "; next";
    for (uint32_t i : s.next) g.note() << " " << i;
    g.note() << "; spurious wakeups " << s.d.spurious << "\n";
  }

  int expected = 0, depth = 0;
  for (const auto& i : scripts) {
    expected += atomic_count(i);
    depth = std::max(depth, max_depth(i));
  }
  for (const op& o : shared_ops) expected += o.n * atomic_count(o.body);

  sim_begin(&s.d, on_stuck, 4000000);
  world w;
  {
    std::unique_ptr<thread_pool_impl> pool;
    if (use_init) {
      pool.reset(new thread_pool_impl(workers, init_fn()));
    } else {
      pool.reset(new thread_pool_impl(workers));
    }
    w.pool = pool.get();
    w.threads = workers + runners > 0;
    if (expect) pool->expect_workers(2);
    for (const op& o : shared_ops) {
      int id = new_rec(o.n, o.mw, false);
      w.shared.emplace_back(id, pool->enqueue(o.n, body_fn(&w, &o, id), o.mw));
    }
    std::vector<std::thread> threads;
    for (int i = 0; i < runners; ++i) {
      threads.emplace_back([&]() { w.pool->run_worker([&]() -> bool { return w.stop; }); });
    }
    std::vector<std::thread> script_threads;
    for (int i = 1; i < n_scripts; ++i) {
      script_threads.emplace_back([&, i]() { run_ops(w, scripts[i]); });
    }
    run_ops(w, scripts[0]);
    for (auto& i : script_threads) i.join();
    for (auto& i : w.shared) {
      wait_for_task(w.pool, i.first, &*i.second);
      read_payload(i.first, "wait_for returned before completing");
    }
    w.shared.clear();
    w.pool->atomic_call([&]() { w.stop = true; });
    for (auto& i : threads) i.join();
    int tc = pool->thread_count();
    PBT_CHECK(g, tc >= workers, "thread_count() is " << tc << " with " << workers << " workers");
  }
  int n_threads = sim_thread_count();
  uint64_t switches = sim_switches();
  sim_end();
  if (overflow) {
    g.discard();
    return;
  }
  PBT_CHECK(g, w.counter == expected, "atomic calls lost updates: " << w.counter << " instead of " << expected);
  PBT_CHECK(g, get_live() == 0, get_live() << " task bodies were not destroyed");
  if (use_init) {
    PBT_CHECK(g, init_calls == workers, "init ran " << init_calls << " times for " << workers << " workers");
    PBT_CHECK(g, !init_dead, "init was called after the object passed to the constructor was destroyed");
  }
  g.count("work items", work_done);
  g.count("thread switches", (int64_t)switches);
  g.classify(workers == 0, "no workers");
  g.classify(depth >= 2, "nested tasks");
  g.classify(depth >= 3, "doubly nested tasks");
  g.classify(n_scripts > 1, "several client threads");
  g.classify(runners > 0, "run_worker");
  g.classify(n_shared > 0, "shared task");
  g.classify(crosses > 0, "condition made true by another thread's task");
  g.classify(s.d.spurious > 0, "spurious wakeups");
  if (n_threads > 1 && work_done >= 2 && switches > 4) g.nontrivial();
}

void fork_join(gen& g) { run_case(g, fork_join_mode); }
void pipelined(gen& g) { run_case(g, pipelined_mode); }
// Iterations that wait for earlier iterations, in several loops at once, with nested tasks.
void interdependent(gen& g) { run_case(g, interdependent_mode); }

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C14";
  c.rule = "at least two threads, two work items and five thread switches";
  c.assumptions = {
      "interleavings are sequentially consistent, with preemption at every mutex, condition variable, atomic and yield "
      "operation of the pool; weaker memory orders are covered by TSan's happens-before analysis of the same runs",
      "max_workers >= 1, and enqueue is given at least one item (its documented assertion)",
      "except in target interdependent (see the known finding), tasks that wait for a condition only wait for work that "
      "does not itself wait for other tasks, because waiting runs other tasks on the same stack",
  };
  c.targets = {
      {"fork_join", fork_join, 40000, 2000000},
      {"pipelined", pipelined, 20000, 1000000},
      {"interdependent", interdependent, 10000, 400000},
  };
  return pbt::run(argc, argv, c);
}
