// C24: a pipeline is a reusable, deterministic value.
#include "pipe_run.h"
#include <thread>

using namespace pl;
using pbt::gen;

namespace {

// A monitor per thread: the callbacks of a concurrent evaluation go to the monitor of its own evaluation.
std::string text(const built& p) {
  std::ostringstream s;
  s << std::tie(p.p.body, p.ctx);
  // Constant buffers are printed with the address of their data.
  const std::string t = s.str();
  std::string result;
  for (std::size_t i = 0; i < t.size();) {
    if (t.compare(i, 2, "0x") == 0) {
      std::size_t end = t.find_first_not_of("0123456789abcdef", i + 2);
      if (end == std::string::npos) end = t.size();
      if (end - i >= 10) {
        result += "@";
        i = end;
        continue;
      }
    }
    result += t[i++];
  }
  return result;
}

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  std::vector<instance> ins;
  std::vector<std::vector<io::layout>> layouts;
  const int n = 2 + g.below(3);
  for (int i = 0; i < n; ++i) {
    instance in;
    if (!gen_instance(g, gr, o, in)) return g.discard();
    ins.push_back(in);
    layouts.push_back(io::gen_layouts(g, gr));
  }
  // Evaluate them in this order, which uses some several times.
  std::vector<int> order;
  for (int i = 0; i < n; ++i) order.push_back(i);
  for (int i = 0; i < 3; ++i) order.push_back(g.below(n));
  const bool same_context = g.chance(1, 2);
  const bool reuse_memory = g.chance(1, 2);
  slinky::build_options bo;
  if (g.chance(1, 4)) bo.no_alias_buffers = true;
  if (g.chance(1, 8)) bo.trace = true;
  if (g.describing()) {
    describe(g.note(), gr);
    for (auto& in : ins) describe(g.note(), gr, in);
  }
  auto p = build(gr, ins[0], bo);
  describe_body(g, *p);
  // The same program every time.
  {
    auto q = build(gr, ins[0], bo);
    if (text(*p) != text(*q)) { if (g.describing()) g.note() << "again:\n" << text(*q); return g.fail("building the same graph again gives another program"); }
  }
  std::vector<std::unique_ptr<oracle>> orcs;
  std::vector<std::unique_ptr<io>> mems;
  for (int i = 0; i < n; ++i) {
    orcs.push_back(std::make_unique<oracle>(gr, ins[i]));
    mems.push_back(std::make_unique<io>(gr, ins[i], *orcs[i], layouts[i]));
  }
  slinky::eval_context ctx;
  std::vector<int> calls(n, -1);
  std::string before = text(*p);
  int64_t elements = 0;
  for (std::size_t k = 0; k < order.size(); ++k) {
    int i = order[k];
    runner r(gr, ins[i], *orcs[i]);
    if (reuse_memory) {
      mems[i]->reset();
    } else {
      mems[i] = std::make_unique<io>(gr, ins[i], *orcs[i], layouts[i]);
    }
    outcome out = r.run(*p, *mems[i], same_context ? &ctx : nullptr);
    elements += out.elements;
    if (!out.ok()) {
      // If a fresh build does not do any better, it is not because of the history.
      auto q = build(gr, ins[i], bo);
      io fresh(gr, ins[i], *orcs[i], layouts[i]);
      outcome f = r.run(*q, fresh);
      if (!f.ok()) {
        g.classify(true, "wrong");
        return g.discard();
      }
      return g.fail("evaluation " + std::to_string(k) + " on instance " + std::to_string(i) + ": " + out.str());
    }
    if (calls[i] >= 0 && out.calls != calls[i]) {
      return g.fail("evaluating on instance " + std::to_string(i) + " again makes " + std::to_string(out.calls) +
                    " callbacks, not " + std::to_string(calls[i]));
    }
    calls[i] = out.calls;
  }
  if (text(*p) != before) return g.fail("evaluating the pipeline changed it");
  if (elements > 0) g.nontrivial();
  g.classify(same_context, "the same context for all evaluations");
  g.classify(gr.parallel, "threads");
  g.count("evaluations", order.size());
}

void t_history(gen& g) {
  gen_options o;
  o.copies = false;
  o.constants = false;
  run(g, o);
}
void t_copies(gen& g) {
  gen_options o;
  o.constants = false;
  o.schedule = false;
  run(g, o);
}

// Evaluates a pipeline from several threads at once. The callbacks find out which evaluation they belong to from the
// configuration.
void t_concurrent(gen& g) {
  gen_options o;
  o.copies = g.chance(1, 3);
  o.constants = false;
  if (o.copies) o.schedule = false;
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  const int n = 2 + g.below(3);
  std::vector<instance> ins(n);
  std::vector<std::vector<io::layout>> layouts;
  for (int i = 0; i < n; ++i) {
    if (!gen_instance(g, gr, o, ins[i])) return g.discard();
    layouts.push_back(io::gen_layouts(g, gr));
  }
  slinky::build_options bo;
  if (g.describing()) {
    describe(g.note(), gr);
    for (auto& in : ins) describe(g.note(), gr, in);
  }
  std::vector<std::unique_ptr<oracle>> orcs;
  for (int i = 0; i < n; ++i) orcs.push_back(std::make_unique<oracle>(gr, ins[i]));
  auto p = build(gr, ins[0], bo);
  describe_body(g, *p);
  // One at a time first.
  for (int i = 0; i < n; ++i) {
    io mem(gr, ins[i], *orcs[i], layouts[i]);
    runner r(gr, ins[i], *orcs[i]);
    if (!r.run(*p, mem).ok()) {
      g.classify(true, "wrong");
      return g.discard();
    }
  }
  std::vector<std::unique_ptr<io>> mems;
  std::vector<std::unique_ptr<monitor>> mons;
  std::vector<slinky::eval_config> cfgs(n);
  std::vector<index_t> status(n, 0);
  std::map<const slinky::eval_config*, monitor*> by_config;
  for (int i = 0; i < n; ++i) {
    mems.push_back(std::make_unique<io>(gr, ins[i], *orcs[i], layouts[i]));
    mons.push_back(std::make_unique<monitor>(gr, ins[i], *orcs[i]));
    cfgs[i].check_failed = [](const expr&) {};
    cfgs[i].call_failed = [](const slinky::call_stmt*) {};
    cfgs[i].thread_pool = &shared_pool();
    by_config[&cfgs[i]] = mons[i].get();
  }
  monitor dispatch(gr, ins[0], *orcs[0]);
  dispatch.route = [&](const slinky::eval_context& ctx) {
    auto i = by_config.find(ctx.config);
    return i == by_config.end() ? nullptr : i->second;
  };
  *p->mon = &dispatch;
  {
    std::vector<std::thread> ts;
    std::atomic<int> ready{0};
    for (int i = 0; i < n; ++i) {
      ts.emplace_back([&, i]() {
        ++ready;
        while (ready < n) std::this_thread::yield();
        for (int rep = 0; rep < 3 && status[i] == 0; ++rep) {
          slinky::eval_context ctx;
          ctx.config = &cfgs[i];
          status[i] = mems[i]->run(gr, ins[i], *p, ctx);
        }
      });
    }
    for (auto& t : ts) t.join();
  }
  if (!dispatch.error.empty()) return g.fail(dispatch.error);
  int64_t elements = 0;
  for (int i = 0; i < n; ++i) {
    std::string who = "evaluation " + std::to_string(i) + ": ";
    if (status[i] != 0) return g.fail(who + "status " + std::to_string(status[i]));
    if (!mons[i]->error.empty()) return g.fail(who + mons[i]->error);
    std::string err = mems[i]->check(gr, *orcs[i]);
    if (!err.empty()) return g.fail(who + err);
    elements += mons[i]->elements;
  }
  if (elements > 0) g.nontrivial();
  g.classify(gr.parallel, "parallel loops");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C24";
  c.rule = "the evaluations computed some element with a callback";
  c.targets = {
      {"history", t_history, 2000, 8000},
      {"copies", t_copies, 1200, 3000},
      {"concurrent", t_concurrent, 1500, 6000},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
