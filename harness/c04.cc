// C04: parallel execution equals serial execution under every thread schedule.
//
// Compiled with the deterministic scheduler of harness/sim: exactly one thread runs at a time, and which one is decided
// by the generated schedule at every mutex, condition variable and atomic operation, and at every element a callback
// computes. A failure replays exactly.
#include "pipe_run.h"
#include "sim/sched.h"

using namespace pl;
using pbt::gen;

namespace {

gen* G;
bool several_pipelined;

void on_stuck(int how) {
  if (how == sim_deadlock) {
    // See the known finding: waiting for a condition runs other tasks on the same stack, so iterations of two pipelined
    // loops may end up waiting for each other.
    if (several_pipelined) G->fail("no thread can run", "deadlock: cyclic wait");
    G->fail("no thread can run (deadlock)");
  } else {
    G->fail("the threads run forever without completing");
  }
}

struct schedule {
  std::vector<uint32_t> distance, target, next;
  sim_decisions d;
  int workers;
  bool expect;
  schedule(gen& g) {
    workers = g.range(1, 3);
    expect = false;
    int p = (int)g.below(g.chance(1, 3) ? 80 : 16);
    for (int i = 0; i < p; ++i) {
      int scale = (int)g.below(12);
      distance.push_back((uint32_t)(1 + g.below(1u << scale)));
      target.push_back((uint32_t)g.below(8));
    }
    int n = (int)g.below(g.chance(1, 3) ? 100 : 16);
    for (int i = 0; i < n; ++i) next.push_back((uint32_t)g.below(12));
    d.preempts = p;
    d.switches = n;
    d.spurious = g.chance(1, 8) ? (int)g.below(3) : 0;
  }
  const sim_decisions* decisions() {
    d.distance = distance.data();
    d.target = target.data();
    d.next = next.data();
    return &d;
  }
  void print(std::ostream& os) const {
    os << "schedule: workers " << workers << ", preempt after";
    for (size_t i = 0; i < distance.size(); ++i) os << " " << distance[i] << "->" << target[i];
    os << "; next";
    for (uint32_t i : next) os << " " << i;
    os << "; spurious wakeups " << d.spurious << "\n";
  }
};

void run(gen& g, gen_options o, bool fail_calls) {
  G = &g;
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  if (!gr.parallel) return g.discard();
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  slinky::build_options bo;
  if (g.chance(1, 2)) bo.no_alias_buffers = true;
  std::vector<schedule> ss;
  int n = g.range(1, 4);
  for (int i = 0; i < n; ++i) ss.emplace_back(g);
  int fail_at = fail_calls ? g.below(20) : -1;
  describe_case(g, gr, in);
  if (g.describing()) {
    for (const schedule& s : ss) s.print(g.note());
    if (fail_at >= 0) g.note() << "call " << fail_at << " fails\n";
  }
  oracle orc(gr, in);
  auto p = build(gr, in, bo);
  describe_body(g, *p);
  std::ostringstream body;
  body << std::tie(p->p.body, p->ctx);
  int pipelined = 0;
  for (std::size_t i = body.str().find("init_semaphores"); i != std::string::npos; i = body.str().find("init_semaphores", i + 1)) {
    ++pipelined;
  }
  // A pipelined loop in another parallel loop also has several instances at the same time.
  int parallel_loops = 0;
  for (const stage& s : gr.stages) {
    for (const loop_spec& l : s.loops) parallel_loops += l.workers != 1;
  }
  several_pipelined = pipelined > 1 || (pipelined == 1 && parallel_loops > 1);
  {
    // The reference: a pool without threads.
    io mem(gr, in, orc, layouts);
    runner r(gr, in, orc);
    slinky::thread_pool_impl pool(0);
    r.pool = &pool;
    outcome out = r.run(*p, mem);
    if (!out.ok()) {
      // It is for C01 to say what is wrong.
      g.classify(true, "wrong without threads");
      return g.discard();
    }
    if (fail_at >= 0 && out.calls > 0) fail_at %= out.calls;
  }
  bool parallel = false;
  for (std::size_t i = 0; i < ss.size(); ++i) {
    io mem(gr, in, orc, layouts);
    runner r(gr, in, orc);
    r.fail_call = fail_at;
    heap h;
    r.h = &h;
    outcome out;
    int used;
    sim_begin(ss[i].decisions(), on_stuck, 20000000);
    {
      slinky::thread_pool_impl pool(ss[i].workers);
      r.pool = &pool;
      out = r.run(*p, mem);
    }
    used = sim_switches();
    sim_end();
    std::string what = "schedule " + std::to_string(i) + ": ";
    if (fail_at >= 0) {
      // Which calls are made before the failure stops the others is not determined.
      if (out.calls > fail_at) {
        PBT_CHECK(g, out.status != 0, what << "call " << fail_at << " failed, but the pipeline succeeded");
        PBT_CHECK(g, out.status == 1000 + fail_at, what << "status is " << out.status << ", not that of the call that failed");
      }
      if (!out.monitor.empty()) return g.fail(what + out.monitor);
    } else {
      if (!out.ok()) return g.fail(what + out.str());
    }
    if (!h.error.empty()) return g.fail(what + h.error);
    PBT_CHECK(g, h.live.empty(), what << h.live.size() << " allocations leak");
    g.count("thread switches", used);
    if (used > 8 && out.calls > 1) parallel = true;
  }
  g.classify(pipelined > 0, "pipelined loop");
  g.classify(pipelined > 1, "several pipelined loops");
  if (parallel) g.nontrivial();
}

gen_options base() {
  gen_options o;
  o.more_copies = false;
  return o;
}
void t_calls(gen& g) {
  gen_options o = base();
  o.copies = false;
  run(g, o, false);
}
// Chains of stencils with several folded producers in one loop.
void t_pipelined(gen& g) {
  gen_options o = base();
  o.copies = g.chance(1, 6);
  o.pipelined = true;
  o.max_stages = 6;
  run(g, o, false);
}
void t_mixed(gen& g) { run(g, base(), false); }
void t_failing(gen& g) {
  gen_options o = base();
  o.copies = false;
  o.pipelined = g.chance(2, 3);
  run(g, o, true);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C04";
  c.rule = "at least one schedule switched threads more than eight times in a run of at least two calls";
  c.assumptions = {"interleavings are sequentially consistent, with preemption at every synchronization operation and "
                   "between the elements that callbacks compute"};
  c.targets = {
      {"calls", t_calls, 4000, 40000},
      {"pipelined", t_pipelined, 6000, 60000},
      {"mixed", t_mixed, 1500, 5000},
      {"failing", t_failing, 2000, 20000},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
