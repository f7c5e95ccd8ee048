// C01: a pipeline computes the same output under every schedule.
#include "pipe.h"
#include "slinky/base/thread_pool_impl.h"

using namespace pl;
using pbt::gen;

namespace {

slinky::thread_pool& pool() {
  static slinky::thread_pool_impl* p = new slinky::thread_pool_impl(3);
  return *p;
}

// Builds and runs `gr`, and checks the outputs are what they should be. Failures get the key `key`.
void check(gen& g, const graph& gr, const instance& in, const slinky::build_options& bo,
    const std::vector<io::layout>& layouts, const char* key = nullptr) {
  const bool threads = gr.parallel;
  if (g.describing()) {
    describe(g.note(), gr);
    describe(g.note(), gr, in);
    if (bo.no_alias_buffers) g.note() << "  no_alias_buffers";
    if (bo.no_checks) g.note() << "  no_checks";
    if (threads) g.note() << "  threads";
    g.note() << "\n";
  }
  oracle orc(gr, in);
  auto p = build(gr, in, bo);
  if (g.describing()) {
    g.note() << std::tie(p->p.body, p->ctx) << "\n";
  }
  io mem(gr, in, orc, layouts);
  monitor mon(gr, in, orc);
  *p->mon = &mon;
  slinky::eval_config cfg;
  std::string check_error;
  std::mutex m;
  slinky::node_context* nc = &p->ctx;
  cfg.check_failed = [&](const expr& e) {
    std::ostringstream s;
    s << "check failed: " << std::tie(e, *nc);
    std::unique_lock<std::mutex> l(m);
    check_error = s.str();
  };
  cfg.call_failed = [&](const slinky::call_stmt*) { check_error = "call failed"; };
  if (threads) cfg.thread_pool = &pool();
  slinky::eval_context ctx;
  ctx.config = &cfg;
  index_t r = mem.run(gr, in, *p, ctx);
  auto fail = [&](const std::string& msg) { key ? g.fail(msg, key) : g.fail(msg); };
  if (r != 0) return fail("status " + std::to_string(r) + " " + check_error);
  std::string err = mem.check(gr, orc);
  if (!err.empty()) return fail(err + (mon.error.empty() ? "" : "; first: " + mon.error));
  int loops = 0, copies = 0;
  for (const stage& s : gr.stages) loops += s.loops.size(), copies += s.kind != CALL;
  if (mon.elements > 0 && gr.stages.size() > 1 && loops + copies > 0) g.nontrivial();
  g.classify(loops > 0, "loops");
  g.classify(copies > 0, "copies");
  g.classify(threads, "threads");
  g.count("callbacks", mon.calls);
  g.count("elements", mon.elements);
}

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  slinky::build_options bo;
  if (g.chance(1, 4)) bo.no_alias_buffers = true;
  if (g.chance(1, 8)) bo.no_checks = true;
  check(g, gr, in, bo, io::gen_layouts(g, gr));
}

// Hand written pipelines that show known defects, which the generator of the other targets does not generate.
struct known {
  graph gr;
  instance in;

  int buffer(buffer_kind kind, int rank) {
    int b = add_buffer(gr, kind, rank, 4);
    if (kind == INPUT) gr.inputs.push_back(b);
    if (kind == OUTPUT) gr.outputs.push_back(b);
    return b;
  }
  static dimap at(term::kind_t kind, int v, index_t c = 0, int v2 = 0, index_t w = 0) {
    dimap m;
    m.t.kind = kind;
    m.t.v = v;
    m.t.v2 = v2;
    m.t.c = c;
    m.w = w;
    return m;
  }
  stage& add(stage_kind kind, int out, std::vector<std::pair<int, std::vector<dimap>>> ins) {
    stage s;
    s.kind = kind;
    s.nvars = gr.bufs[out].rank;
    s.outs = {out};
    s.out_dims.resize(1);
    for (int d = 0; d < s.nvars; ++d) s.out_dims[0].push_back(d);
    for (auto& i : ins) {
      input_spec in;
      in.buf = i.first;
      in.bounds = i.second;
      s.ins.push_back(in);
      gr.bufs[i.first].consumers.push_back(gr.stages.size());
    }
    gr.bufs[out].producer = gr.stages.size();
    gr.stages.push_back(s);
    return gr.stages.back();
  }
  void loops(std::vector<int> vs) {
    stage& s = gr.stages.back();
    int parent = s.at_node;
    for (int v : vs) {
      loop_spec l;
      l.v = v;
      s.loops.push_back(l);
    }
    for (std::size_t k = vs.size(); k-- > 0;) {
      gr.nodes.push_back({parent, static_cast<int>(gr.stages.size()) - 1, vs[k]});
      parent = gr.nodes.size() - 1;
    }
    s.innermost = parent;
  }
  void check(gen& g, std::vector<box> outs, const char* key) {
    in.actual.assign(gr.bufs.size(), box());
    for (std::size_t i = 0; i < outs.size(); ++i) in.actual[gr.outputs[i]] = outs[i];
    if (!infer(gr, in, 1000)) return g.discard();
    ::check(g, gr, in, slinky::build_options(), std::vector<io::layout>(io::gen_layouts(g, gr)), key);
  }
};

void t_known(gen& g) {
  known k;
  k.gr.nodes = {loop_node()};
  using t = term;
  switch (g.below(3)) {
  case 0: {
    int a = k.buffer(INPUT, 2), b = k.buffer(INTERMEDIATE, 2), c = k.buffer(OUTPUT, 2);
    k.add(CALL, b, {{a, {k.at(t::VAR, 0), k.at(t::VAR, 1)}}});
    k.add(CALL, c, {{b, {k.at(t::SUM, 0, 0, 1), k.at(t::VAR, 1)}}});
    k.loops({1, 0});
    // The default is computed in the innermost loop of the consumer.
    k.gr.stages[0].at_node = k.gr.stages[0].innermost = 2;
    return k.check(g, {{{0, 1}, {0, 1}}}, "slides a dimension that depends on two loops");
  }
  case 1: {
    int a = k.buffer(INPUT, 1), b = k.buffer(INTERMEDIATE, 1), c = k.buffer(INTERMEDIATE, 2),
        pad = k.buffer(CONSTANT, 0), d = k.buffer(OUTPUT, 2);
    k.add(CALL, b, {{a, {k.at(t::VAR, 0)}}});
    k.add(COPY, c, {{b, {k.at(t::VAR, 0)}}});
    stage& s = k.add(PAD, d, {{c, {k.at(t::VAR, 1), k.at(t::VAR, 0)}}, {pad, {}}});
    s.crop.resize(2);
    for (crop_spec& i : s.crop) i.defined = true, i.at = {0, 0};
    return k.check(g, {{{0, 1}, {0, 0}}}, "pads a broadcast with bounds [0, 0]");
  }
  default: {
    int a = k.buffer(INPUT, 0), b = k.buffer(INTERMEDIATE, 0), c = k.buffer(OUTPUT, 1), d = k.buffer(OUTPUT, 0);
    k.add(CALL, b, {{a, {}}});
    stage& s = k.add(STACK, c, {{a, {}}, {b, {}}});
    s.dim = 0;
    k.gr.bufs[c].domain[0] = {0, 1};
    k.add(COPY, d, {{b, {}}});
    return k.check(g, {{{0, 0}}, {}}, "sanitizer:SEGV@/repo/slinky/runtime/buffer.cc:351:72");
  }
  }
}

void t_calls(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_copies(gen& g) {
  gen_options o;
  o.more_copies = true;
  run(g, o);
}
void t_mixed(gen& g) {
  gen_options o;
  run(g, o);
}
void t_serial(gen& g) {
  gen_options o;
  o.parallel = false;
  run(g, o);
}
void t_unscheduled(gen& g) {
  gen_options o;
  o.schedule = false;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C01";
  c.rule = "at least two stages, at least one of them is a copy or has a loop, and some callback ran";
  c.targets = {
      {"unscheduled", t_unscheduled, 2500, 5000},
      {"calls", t_calls, 2500, 40000},
      {"serial", t_serial, 2500, 4000},
      {"copies", t_copies, 2500, 4000},
      {"mixed", t_mixed, 2500, 4000},
      {"known", t_known, 12, 12},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
