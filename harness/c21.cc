// C21: the evaluator implements the documented semantics of every node.
#include "stmts.h"

namespace {

using namespace sg;

void expressions(pbt::gen& g) {
  node_context ctx;
  ex::options o;
  o.vars = static_cast<int>(g.range(0, 4));
  o.bufs = static_cast<int>(g.range(0, 2));
  o.shadow = true;
  o.extreme = g.chance(1, 4);
  o.calls = true;
  ex::expr_gen eg(g, ctx, o);
  expr e = eg.any(static_cast<int>(g.range(1, 24)));
  ex::env env;
  eval_context ec;
  std::vector<std::vector<dim>> dims(eg.bufs.size());
  std::vector<raw_buffer> bufs(eg.bufs.size());
  ec.reserve(64);
  for (size_t i = 0; i < ec.size(); ++i) ec.set(var(i), 0x5a5a0000 + i);
  for (var v : eg.vars) {
    int64_t x = g.chance(1, 5) ? g.interesting64() : g.range(-9, 12);
    if (x == std::numeric_limits<int64_t>::min()) ++x;
    env.vars[v.id] = x;
    ec[v] = x;
  }
  for (size_t i = 0; i < eg.bufs.size(); ++i) {
    ex::buf_meta m;
    m.elem_size = g.range(1, 8);
    for (int d = 0; d < eg.buf_rank[i]; ++d) {
      ex::buf_meta::dim_t t{g.range(-5, 5), g.range(-5, 9), g.range(-3, 16), g.chance(1, 2) ? -1 : g.range(1, 6)};
      m.dims.push_back(t);
      dims[i].push_back(dim(t.min, t.max, t.stride, t.fold));
    }
    bufs[i].base = nullptr;
    bufs[i].elem_size = m.elem_size;
    bufs[i].rank = dims[i].size();
    bufs[i].dims = dims[i].data();
    env.bufs[eg.bufs[i].id] = m;
    ec[eg.bufs[i]] = reinterpret_cast<index_t>(&bufs[i]);
  }
  if (g.describing()) g.note() << ex::text(e, ctx) << "\n";
  ex::evaluator ev(env, ex::int64_lim - 1);
  ev.on_call = ex::test_call;
  ex::value want = ev.eval(e);
  if (!want.is_finite()) return g.discard();
  std::vector<index_t> before;
  for (size_t i = 0; i < ec.size(); ++i) before.push_back(ec.lookup(var(i)));
  index_t got = evaluate(e, ec);
  if (ev.steps > 3) g.nontrivial();
  g.count("nodes evaluated", ev.steps);
  PBT_CHECK(g, got == static_cast<index_t>(want.v), "the value is " << got << " and should be " << ex::str(want.v));
  for (size_t i = 0; i < before.size(); ++i) {
    PBT_CHECK(g, ec.lookup(var(i)) == before[i], "symbol " << i << " is not restored");
  }
}

void statements(pbt::gen& g) {
  program p;
  options o;
  o.shadow = g.chance(1, 2);
  generator gn(g, p, o);
  gn.run();
  sg::log want, got;
  if (g.chance(1, 5)) want.fail_at = got.fail_at = static_cast<int>(g.range(0, 8));
  machine m(p, !g.chance(1, 4) || p.kinds.count("parallel"));
  m.pool.backwards = g.chance(1, 2);
  m.pool.copies = static_cast<int>(g.range(1, 3));
  if (g.describing()) g.note() << describe(p) << "fails at " << want.fail_at << "\n";
  want.verbose = got.verbose = g.describing();
  memory mem(p);
  interpreter in(p, mem, want, &m.pool);
  index_t status = in.exec(p.body);
  if (want.too_long || in.unknown) return g.discard();
  p.l = &got;
  for (auto& i : p.kinds) g.classify(i.first.c_str());
  g.classify(status != 0, "fails");
  if (want.events.size() > 1 && p.nodes > 2) g.nontrivial();
  g.count("calls", want.events.size());
  g.count("elements", want.elements);
  index_t r = m.run(p, p.body);
  size_t n = std::min(want.events.size(), got.events.size());
  for (size_t i = 0; i < n; ++i) {
    if (want.events[i].site == got.events[i].site && want.events[i].h == got.events[i].h) continue;
    std::ostringstream s;
    s << "call " << i << " differs";
    if (g.describing()) s << ": " << got.text[i] << "\nshould be " << want.text[i];
    g.fail(s.str());
  }
  PBT_CHECK(g, want.events.size() == got.events.size(),
      "there were " << got.events.size() << " calls, not " << want.events.size());
  PBT_CHECK(g, r == status, "the result is " << r << ", not " << status);
  PBT_CHECK(g, got.checks_failed == want.checks_failed, got.checks_failed << " checks failed, not " << want.checks_failed);
  PBT_CHECK(g, got.calls_failed == want.calls_failed, got.calls_failed << " calls failed, not " << want.calls_failed);
  for (size_t i = 0; i < p.bufs.size(); ++i) {
    PBT_CHECK(g, m.mem.m[i] == mem.m[i], "the contents of " << p.ctx.name(p.bufs[i].sym) << " differ");
  }
  PBT_CHECK(g, m.error.empty(), m.error);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C21";
  c.rule =
      "expressions: more than 3 nodes are evaluated; statements: more than one call is made, from a program of more than "
      "2 nodes";
  c.assumptions = {
      "values stay within 64 bits",
      "parallel loops and asynchronous tasks run on one thread, in either order; C04 explores schedules",
  };
  c.targets = {
      {"expressions", expressions, 60000, 3000000},
      {"statements", statements, 60000, 3000000},
  };
  return pbt::run(argc, argv, c);
}
