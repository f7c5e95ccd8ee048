// C19: any failure is reported, stops the work, and leaves no damage.
#include "pipe_run.h"

using namespace pl;
using pbt::gen;

namespace {

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  slinky::build_options bo;
  if (g.chance(1, 4)) bo.no_alias_buffers = true;
  if (g.chance(1, 8)) bo.trace = true;
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  const bool fail_alloc = g.chance(1, 3);
  const uint64_t which = g.below(1000000);
  const std::size_t threshold = g.pick({0, 64, 4096});
  describe_case(g, gr, in);
  oracle orc(gr, in);
  auto p = build(gr, in, bo);
  describe_body(g, *p);
  slinky::eval_context ctx;
  runner r(gr, in, orc);
  r.configure = [&](slinky::eval_config& c) { c.auto_stack_threshold = threshold; };
  int calls, allocs;
  {
    io mem(gr, in, orc, layouts);
    heap h;
    r.h = &h;
    outcome out = r.run(*p, mem, &ctx);
    if (!out.ok()) {
      g.classify(true, "wrong without a failure");
      return g.discard();
    }
    if (!h.error.empty()) return g.fail(h.error);
    if (!h.live.empty()) return g.fail("a run leaks");
    calls = out.calls;
    allocs = h.allocs;
  }
  if ((fail_alloc ? allocs : calls) == 0) return g.discard();
  const int k = which % (fail_alloc ? allocs : calls);
  std::string what = (fail_alloc ? "allocation " : "call ") + std::to_string(k) + " of " +
                     std::to_string(fail_alloc ? allocs : calls) + " fails";
  if (g.describing()) g.note() << "  " << what << (gr.parallel ? ", threads" : "") << "\n";
  {
    io mem(gr, in, orc, layouts);
    heap h;
    r.h = &h;
    // What the others see then is not specified.
    r.check_values = false;
    if (fail_alloc) {
      h.fail_at = k;
    } else {
      r.fail_call = k;
    }
    outcome out = r.run(*p, mem, &ctx);
    if (out.status == 0) return g.fail(what + ", but the pipeline returns 0");
    if (!fail_alloc && out.calls_failed == 0) return g.fail(what + ", but call_failed was not called");
    if (!fail_alloc && out.calls_failed > (gr.parallel ? 1000000 : 1)) {
      return g.fail(what + ", but call_failed was called " + std::to_string(out.calls_failed) + " times");
    }
    if (fail_alloc && out.calls_failed != 0) return g.fail(what + ", but call_failed was called");
    if (out.checks_failed != 0) return g.fail(what + ", but check_failed was called: " + out.check);
    if (!gr.parallel && !fail_alloc && out.calls != k + 1) {
      return g.fail(what + ", but then " + std::to_string(out.calls - k - 1) + " more calls are made");
    }
    if (!gr.parallel && fail_alloc && h.allocs != k + 1) {
      return g.fail(what + ", but then " + std::to_string(h.allocs - k - 1) + " more allocations are made");
    }
    if (!gr.parallel && !fail_alloc && out.status != 1000 + k) {
      return g.fail(what + " with status " + std::to_string(1000 + k) + ", but the pipeline returns " +
                    std::to_string(out.status));
    }
    if (out.calls > calls) return g.fail(what + ", and then more calls are made than without");
    if (!h.error.empty()) return g.fail(what + ": " + h.error);
    if (!h.live.empty()) return g.fail(what + ": " + std::to_string(h.live.size()) + " allocations leak");
    std::string err = mem.check_failed(gr, orc);
    if (!err.empty()) return g.fail(what + ": " + err);
    r.check_values = true;
    r.fail_call = -1;
  }
  {
    io mem(gr, in, orc, layouts);
    heap h;
    r.h = &h;
    outcome out = r.run(*p, mem, &ctx);
    if (!out.ok()) return g.fail("the next run after " + what + ": " + out.str());
    if (!h.error.empty()) return g.fail(h.error);
    if (!h.live.empty()) return g.fail("the next run leaks");
  }
  if (k > 0 || allocs > 0) g.nontrivial();
  g.classify(gr.parallel, "threads");
  g.classify(fail_alloc, "an allocation fails");
  g.classify(!fail_alloc, "a call fails");
  g.classify(k > 0, "not the first");
  g.classify(allocs > 0 && !fail_alloc, "a call fails while memory may be allocated");
  g.count("callbacks", calls);
}

void t_serial(gen& g) {
  gen_options o;
  o.copies = false;
  o.parallel = false;
  run(g, o);
}
void t_parallel(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_unscheduled(gen& g) {
  gen_options o;
  o.schedule = false;
  run(g, o);
}
void t_mixed(gen& g) {
  gen_options o;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C19";
  c.rule = "a call or allocation fails that is not the first call of a pipeline without allocations";
  c.targets = {
      {"serial", t_serial, 2500, 10000},
      {"parallel", t_parallel, 2500, 10000},
      {"unscheduled", t_unscheduled, 1500, 4000},
      {"mixed", t_mixed, 1500, 4000},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
