// C02: callbacks only see in bounds, fully produced data covering what they asked for.
#include "pipe_run.h"

using namespace pl;
using pbt::gen;

namespace {

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  for (const buffer_spec& b : gr.bufs) {
    // What is passed for an output that nothing uses is not specified.
    if (b.kind == INTERMEDIATE && b.producer >= 0 && b.consumers.empty()) return g.discard();
  }
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  slinky::build_options bo;
  if (g.chance(1, 3)) bo.no_alias_buffers = true;
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  describe_case(g, gr, in, bo.no_alias_buffers ? "no_alias_buffers" : "");
  oracle orc(gr, in);
  auto p = build(gr, in, bo);
  describe_body(g, *p);
  io mem(gr, in, orc, layouts);
  runner r(gr, in, orc);
  r.count_produced = true;
  outcome out = r.run(*p, mem);
  if (out.status != 0) return g.fail(out.str());
  if (!out.monitor.empty()) return g.fail(out.monitor);
  // Everything the pipeline must compute with a callback has been given to one.
  for (int b : gr.outputs) {
    if (gr.bufs[b].producer < 0 || gr.stages[gr.bufs[b].producer].kind != CALL) continue;
    if (volume(orc.where[b]) == 0) continue;
    if (r.produced.size() <= static_cast<std::size_t>(b) || r.produced[b].empty()) {
      return g.fail("no callback produced any of output b" + std::to_string(b));
    }
    for (int n : r.produced[b]) {
      if (n == 0) return g.fail("no callback produced some element of output b" + std::to_string(b));
    }
  }
  int inner = 0, loops = 0, windows = 0;
  for (const stage& s : gr.stages) {
    loops += s.loops.size();
    if (s.kind != CALL) continue;
    for (const input_spec& i : s.ins) {
      if (gr.bufs[i.buf].kind != INTERMEDIATE) continue;
      ++inner;
      for (const dimap& m : i.bounds) windows += m.w > 0;
    }
  }
  if (inner > 0 && out.elements > 0) g.nontrivial();
  g.classify(loops > 0, "loops");
  g.classify(windows > 0, "a callback reads a window of an intermediate");
  g.classify(gr.parallel, "threads");
  g.count("callbacks", out.calls);
  g.count("elements", out.elements);
}

void t_calls(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_serial(gen& g) {
  gen_options o;
  o.copies = false;
  o.parallel = false;
  run(g, o);
}
void t_unscheduled(gen& g) {
  gen_options o;
  o.schedule = false;
  run(g, o);
}
void t_mixed(gen& g) {
  gen_options o;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C02";
  c.rule = "some callback consumes an intermediate buffer, and computed some element";
  c.targets = {
      {"calls", t_calls, 4000, 20000},
      {"serial", t_serial, 3000, 20000},
      {"unscheduled", t_unscheduled, 2000, 4000},
      {"mixed", t_mixed, 1500, 1500},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
