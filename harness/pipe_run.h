// Runs a pipeline once and says everything about what happened.
#ifndef VERIF_PIPE_RUN_H
#define VERIF_PIPE_RUN_H

#include "pipe.h"
#include "slinky/base/thread_pool_impl.h"

namespace pl {

inline slinky::thread_pool& shared_pool() {
  static slinky::thread_pool_impl* p = new slinky::thread_pool_impl(3);
  return *p;
}

struct outcome {
  index_t status = 0;
  int checks_failed = 0, calls_failed = 0;
  std::string check;    // the first check that failed
  std::string memory;   // what is wrong with the inputs and outputs
  std::string monitor;  // what a callback saw
  int calls = 0;
  int64_t elements = 0;

  bool ok() const { return status == 0 && memory.empty() && monitor.empty(); }
  std::string str() const {
    if (status) return "status " + std::to_string(status) + " " + check;
    return memory.empty() ? monitor : memory + (monitor.empty() ? "" : "; first: " + monitor);
  }
};

struct runner {
  const graph& gr;
  const instance& in;
  const oracle& orc;
  bool count_produced = false;
  bool check_values = true;
  int fail_call = -1;
  heap* h = nullptr;
  std::function<void(slinky::eval_config&)> configure;
  std::function<void()> on_call;
  std::vector<std::vector<int>> produced;
  slinky::thread_pool* pool = nullptr;

  runner(const graph& gr, const instance& in, const oracle& orc) : gr(gr), in(in), orc(orc) {}

  outcome run(built& p, io& mem, slinky::eval_context* reuse = nullptr) {
    outcome o;
    monitor mon(gr, in, orc);
    mon.count_produced = count_produced;
    mon.check_values = check_values;
    mon.fail_call = fail_call;
    mon.on_call = on_call;
    *p.mon = &mon;
    slinky::eval_config cfg;
    std::mutex m;
    slinky::node_context* nc = &p.ctx;
    cfg.check_failed = [&](const expr& e) {
      std::ostringstream s;
      s << "check failed: " << std::tie(e, *nc);
      std::unique_lock<std::mutex> l(m);
      if (o.checks_failed++ == 0) o.check = s.str();
    };
    cfg.call_failed = [&](const slinky::call_stmt*) {
      std::unique_lock<std::mutex> l(m);
      ++o.calls_failed;
    };
    if (gr.parallel) cfg.thread_pool = pool ? pool : &shared_pool();
    if (h) h->install(cfg);
    if (configure) configure(cfg);
    slinky::eval_context local;
    slinky::eval_context& ctx = reuse ? *reuse : local;
    ctx.config = &cfg;
    o.status = mem.run(gr, in, p, ctx);
    ctx.config = nullptr;
    *p.mon = nullptr;
    if (o.status == 0) o.memory = mem.check(gr, orc);
    o.monitor = mon.error;
    o.calls = mon.calls;
    o.elements = mon.elements;
    produced = mon.produced;
    return o;
  }
};

inline void describe_case(pbt::gen& g, const graph& gr, const instance& in, const std::string& what = "") {
  if (!g.describing()) return;
  describe(g.note(), gr);
  describe(g.note(), gr, in);
  if (!what.empty()) g.note() << "  " << what << "\n";
}
inline void describe_body(pbt::gen& g, const built& p) {
  if (g.describing()) g.note() << std::tie(p.p.body, p.ctx) << "\n";
}

}  // namespace pl

#endif
