// C03: buffer aliasing is unobservable.
#include "pipe_run.h"

using namespace pl;
using pbt::gen;

namespace {

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  describe_case(g, gr, in);
  oracle orc(gr, in);
  slinky::build_options plain, aliased;
  plain.no_alias_buffers = true;
  auto p = build(gr, in, plain);
  io mem(gr, in, orc, layouts);
  runner r(gr, in, orc);
  heap h0, h1;
  r.h = &h0;
  outcome a = r.run(*p, mem);
  // This checks what aliasing adds, if it is already wrong without, then that is for C01 and C02 to say.
  if (!a.ok()) {
    g.classify(true, "wrong without aliasing");
    return g.discard();
  }
  auto q = build(gr, in, aliased);
  if (g.describing()) {
    g.note() << "no_alias_buffers:\n";
    describe_body(g, *p);
    g.note() << "aliased:\n";
    describe_body(g, *q);
  }
  io mem2(gr, in, orc, layouts);
  r.h = &h1;
  outcome b = r.run(*q, mem2);
  if (!b.ok()) return g.fail("with aliasing: " + b.str());
  // The constants are as they were.
  for (std::size_t i = 0; i < gr.bufs.size(); ++i) {
    if (gr.bufs[i].kind != CONSTANT) continue;
    const raw_buffer& c = *q->bufs[i]->constant();
    bool same = true;
    for_each_point(in.actual[i], [&](const index_t* x) {
      if (load(addr(c, x), gr.bufs[i].elem_size) != orc.leaf(i, x)) same = false;
    });
    if (!same) return g.fail("constant b" + std::to_string(i) + " was modified");
  }
  std::ostringstream ta, tb;
  ta << std::tie(p->p.body, p->ctx);
  tb << std::tie(q->p.body, q->ctx);
  const bool aliases = ta.str() != tb.str();
  if (aliases && b.elements + a.elements > 0) g.nontrivial();
  g.classify(aliases, "aliasing changes the program");
  g.classify(h1.allocs < h0.allocs, "aliasing removes an allocation");
  g.classify(b.calls != a.calls, "aliasing changes the callbacks");
  g.count("callbacks", b.calls);
}

void t_in_place(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_in_place_unaligned(gen& g) {
  gen_options o;
  o.copies = false;
  o.align = false;
  o.max_stages = 5;
  run(g, o);
}
void t_copies(gen& g) {
  gen_options o;
  o.more_copies = true;
  o.schedule = false;
  run(g, o);
}
void t_scheduled(gen& g) {
  gen_options o;
  o.more_copies = true;
  o.parallel = false;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C03";
  c.rule = "building with aliasing gives another program than without, which ran";
  c.targets = {
      {"in_place", t_in_place, 1500, 1500},
      {"in_place_unaligned", t_in_place_unaligned, 3000, 5500},
      {"copies", t_copies, 2500, 4000},
      {"scheduled", t_scheduled, 2500, 2500},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
