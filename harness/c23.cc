// C23: tracing and disabling checks never change what a pipeline computes.
#include "pipe_run.h"
#include "slinky/runtime/depends_on.h"
#include <map>
#include <thread>

using namespace pl;
using pbt::gen;

namespace {

struct tracer {
  std::mutex m;
  std::map<std::thread::id, std::vector<std::pair<index_t, std::string>>> open;
  index_t next = 1;
  std::string error;
  int begins = 0, ends = 0;
  std::map<std::string, int> names;

  void install(slinky::eval_config& c) {
    c.trace_begin = [this](const char* name) -> index_t {
      std::unique_lock<std::mutex> l(m);
      ++begins;
      if (!name) {
        error = "trace_begin(nullptr)";
        return 0;
      }
      ++names[name];
      open[std::this_thread::get_id()].push_back({next, name});
      return next++;
    };
    c.trace_end = [this](index_t token) {
      std::unique_lock<std::mutex> l(m);
      ++ends;
      auto& o = open[std::this_thread::get_id()];
      if (o.empty()) {
        if (error.empty()) error = "trace_end without trace_begin on this thread";
      } else if (o.back().first != token) {
        if (error.empty()) error = "trace_end of another event than the innermost, which is " + o.back().second;
      } else {
        o.pop_back();
      }
    };
  }
  std::string check() const {
    if (!error.empty()) return error;
    for (auto& i : open) {
      if (!i.second.empty()) return "no trace_end of " + i.second.back().second;
    }
    return "";
  }
};

class find_checks : public slinky::recursive_node_visitor {
public:
  int n = 0;
  void visit(const slinky::check* op) override {
    if (!slinky::has_side_effects(op->condition)) ++n;
    slinky::recursive_node_visitor::visit(op);
  }
};

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  slinky::build_options plain;
  if (g.chance(1, 4)) plain.no_alias_buffers = true;
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  describe_case(g, gr, in);
  oracle orc(gr, in);
  outcome outs[4];
  std::vector<std::vector<int>> produced[4];
  int events = 0;
  for (int v = 0; v < 4; ++v) {
    slinky::build_options bo = plain;
    bo.trace = v & 1;
    bo.no_checks = v & 2;
    std::string what = std::string(bo.trace ? " trace" : "") + (bo.no_checks ? " no_checks" : "");
    auto p = build(gr, in, bo);
    if (g.describing()) g.note() << "options:" << what << "\n";
    describe_body(g, *p);
    io mem(gr, in, orc, layouts);
    runner r(gr, in, orc);
    r.count_produced = true;
    heap h;
    r.h = &h;
    tracer t;
    r.configure = [&](slinky::eval_config& c) { t.install(c); };
    outs[v] = r.run(*p, mem);
    if (v == 0 && !outs[0].ok()) {
      g.classify(true, "wrong without options");
      return g.discard();
    }
    if (!outs[v].ok()) return g.fail("with" + what + ": " + outs[v].str());
    produced[v] = r.produced;
    if (v > 0) {
      if (outs[v].calls != outs[0].calls) {
        return g.fail("with" + what + " there are " + std::to_string(outs[v].calls) + " callbacks, not " +
                      std::to_string(outs[0].calls));
      }
      if (produced[v] != produced[0]) return g.fail("with" + what + " the callbacks compute other elements");
    }
    std::string err = t.check();
    if (!err.empty()) return g.fail("with" + what + ": " + err);
    if (!bo.trace && t.begins > 0) return g.fail("trace_begin is called without tracing");
    if (bo.trace) {
      events += t.begins;
      // Every callback is traced.
      int calls = 0;
      for (auto& i : t.names) {
        if (i.first.size() >= 2 && i.first[0] == 'f' && isdigit(i.first[1])) calls += i.second;
      }
      if (calls != outs[v].calls) {
        return g.fail("with" + what + " " + std::to_string(calls) + " calls are traced, but there are " +
                      std::to_string(outs[v].calls));
      }
    }
    if (bo.no_checks) {
      find_checks f;
      p->p.body.accept(&f);
      if (f.n > 0) return g.fail("with" + what + " there still is a check");
    }
    if (!h.error.empty()) return g.fail("with" + what + ": " + h.error);
    if (!h.live.empty()) return g.fail("with" + what + ": memory leaks");
  }
  if (events > 2 && outs[0].elements > 0) g.nontrivial();
  g.classify(gr.parallel, "threads");
  g.count("trace events", events);
  g.count("callbacks", outs[0].calls);
}

void t_calls(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_unscheduled(gen& g) {
  gen_options o;
  o.schedule = false;
  run(g, o);
}
void t_mixed(gen& g) {
  gen_options o;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C23";
  c.rule = "more than two events were traced, and some callback computed something";
  c.targets = {
      {"calls", t_calls, 2000, 10000},
      {"unscheduled", t_unscheduled, 1000, 3000},
      {"mixed", t_mixed, 1200, 3000},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
