// C07: every rewrite of a statement preserves the program's observable behaviour.
#include "slinky/builder/optimizations.h"
#include "slinky/builder/simplify.h"
#include "stmts.h"

namespace {

using namespace sg;

struct result {
  index_t status;
  sg::log l;
  std::vector<std::vector<char>> mem;
  std::string error;
};

void run(program& p, const stmt& s, bool with_pool, bool backwards, result& r, bool deferred = false) {
  machine m(p, with_pool);
  m.pool.deferred = deferred;
  m.pool.backwards = backwards;
  m.pool.copies = 2;
  p.l = &r.l;
  r.status = m.run(p, s);
  r.mem = m.mem.m;
  r.error = m.error;
}

std::vector<var> externals(const program& p) {
  std::vector<var> r;
  for (const ext_buf& i : p.bufs) r.push_back(i.sym);
  for (auto& i : p.ints) r.push_back(i.first);
  return r;
}

stmt apply(pbt::gen& g, program& p, const stmt& s, const std::string& pass) {
  if (g.describing()) g.note() << "--- " << pass << "\n";
  stmt r;
  if (pass == "deshadow") {
    std::vector<var> ext = externals(p);
    r = deshadow(s, span<var>(ext.data(), ext.size()), p.ctx);
  } else if (pass == "optimize_symbols") {
    r = optimize_symbols(s, p.ctx);
  } else if (pass == "canonicalize_nodes") {
    r = canonicalize_nodes(s);
  } else if (pass == "insert_early_free") {
    r = insert_early_free(s);
  } else if (pass == "fuse_siblings") {
    r = fuse_siblings(s);
  } else if (pass == "simplify") {
    r = simplify(s);
  } else if (pass == "parallelize_tasks") {
    r = parallelize_tasks(s);
  } else if (pass == "cleanup_semaphores") {
    r = cleanup_semaphores(s);
  } else {
    abort();
  }
  if (g.describing()) {
    if (r.defined()) {
      g.note() << std::tie(r, p.ctx) << "\n";
    } else {
      g.note() << "nothing\n";
    }
  }
  return r;
}

// Passes that preserve the sequence of calls and everything that a call sees.
void strict(pbt::gen& g) {
  program p;
  options o;
  o.shadow = g.chance(1, 2);
  std::vector<std::string> passes;
  switch (g.below(7)) {
  case 0: passes = {"deshadow"}; o.shadow = true; break;
  case 1: passes = {"optimize_symbols"}; o.shadow = false; break;
  case 2: passes = {"canonicalize_nodes"}; break;
  case 3: passes = {"insert_early_free"}; o.shadow = false; break;
  case 4: passes = {"fuse_siblings"}; o.shadow = false; break;
  case 5: passes = {"deshadow", "fuse_siblings", "insert_early_free", "optimize_symbols", "canonicalize_nodes"}; break;
  default: passes = {"deshadow", "optimize_symbols", "deshadow", "cleanup_semaphores"}; break;
  }
  // deshadow does not rename allocations, other passes do not expect them to shadow anything.
  o.shadow_allocs = passes.size() == 1;
  // Whether the symbol of an async is defined in its task depends on the timing.
  o.shadow_async = false;
  o.empty_bases = false;
  generator gn(g, p, o);
  gn.run();
  if (g.describing()) g.note() << describe(p) << "\n";
  result want, got;
  bool pool = !g.chance(1, 4) || p.kinds.count("parallel"), backwards = g.chance(1, 2);
  if (g.chance(1, 6)) want.l.fail_at = got.l.fail_at = static_cast<int>(g.range(0, 8));
  {
    // Discard what has no defined meaning.
    memory mem(p);
    sg::log l;
    inline_pool ip;
    interpreter in(p, mem, l, &ip);
    in.exec(p.body);
    if (in.unknown || l.too_long) return g.discard();
  }
  want.l.verbose = got.l.verbose = g.describing();
  run(p, p.body, pool, backwards, want);
  stmt s = p.body;
  for (const std::string& i : passes) s = apply(g, p, s, i);
  for (auto& i : p.kinds) g.classify(i.first.c_str());
  g.classify(passes.size() == 1 ? passes[0].c_str() : "composition");
  if (want.l.events.size() > 1 && p.nodes > 2 && !s.same_as(p.body)) g.nontrivial();
  g.count("calls", want.l.events.size());
  run(p, s, pool, backwards, got);
  size_t n = std::min(want.l.events.size(), got.l.events.size());
  for (size_t i = 0; i < n; ++i) {
    if (want.l.events[i].site == got.l.events[i].site && want.l.events[i].h == got.l.events[i].h) continue;
    std::ostringstream e;
    e << "call " << i << " differs";
    if (g.describing()) e << ": " << got.l.text[i] << "\nshould be " << want.l.text[i];
    g.fail(e.str());
  }
  PBT_CHECK(g, want.l.events.size() == got.l.events.size(),
      "there were " << got.l.events.size() << " calls, not " << want.l.events.size());
  PBT_CHECK(g, got.status == want.status, "the result is " << got.status << ", not " << want.status);
  PBT_CHECK(g, got.l.checks_failed == want.l.checks_failed, "checks failed differently");
  for (size_t i = 0; i < p.bufs.size(); ++i) {
    PBT_CHECK(g, got.mem[i] == want.mem[i], "the contents of " << p.ctx.name(p.bufs[i].sym) << " differ");
  }
  PBT_CHECK(g, got.error.empty(), got.error);
}

// Passes that may change how often calls are made, and how much they compute at once.
void dataflow(pbt::gen& g, bool tasks) {
  program p;
  options o;
  o.dataflow = true;
  o.async = false;
  o.empty_bases = false;
  o.folds = false;
  o.scalars = false;
  o.size = 18;
  std::vector<std::string> passes;
  switch (tasks ? 3 + g.below(3) : g.below(3)) {
  case 3: passes = {"parallelize_tasks"}; break;
  case 4: passes = {"parallelize_tasks", "insert_early_free", "optimize_symbols"}; break;
  case 5: passes = {"deshadow", "parallelize_tasks", "deshadow", "canonicalize_nodes"}; break;
  case 0: passes = {"simplify"}; break;
  case 1: passes = {"simplify", "fuse_siblings", "simplify"}; break;
  default: passes = {"simplify", "insert_early_free", "optimize_symbols", "canonicalize_nodes"}; break;
  }
  generator gn(g, p, o);
  gn.run();
  if (!p.body.defined()) return g.discard();
  if (g.describing()) g.note() << describe(p) << "\n";
  std::set<int> blind;
  std::set<std::pair<size_t, size_t>> touched;  // Bytes of external buffers that are written.
  bool overwritten = false, unwritten = false;
  {
    memory mem(p);
    sg::log l;
    l.dataflow = true;
    inline_pool ip;
    interpreter in(p, mem, l, &ip);
    std::map<char*, int64_t> written;
    auto input = [&](char* q) {
      for (size_t i = 0; i < p.bufs.size(); ++i) {
        if (p.bufs[i].input && mem.m[i].data() <= q && q < mem.m[i].data() + mem.m[i].size()) return true;
      }
      for (auto& i : p.constants) {
        if (i->mem->data() <= q && q < i->mem->data() + i->mem->size()) return true;
      }
      return false;
    };
    l.inspect = [&](int site, const std::vector<view>& is, const std::vector<view>& os) {
      for (const view& v : os) {
        v.each([&](char*, const std::vector<int64_t>& x) {
          for (const view& i : is) {
            char* q = i.at(x);
            if (q && !input(q) && !written.count(q)) unwritten = true;
            if (!q || (!input(q) && !written.count(q))) blind.insert(site);
          }
        });
      }
    };
    in.exec(p.body);
    if (in.unknown || l.too_long || in.empty_loop || unwritten) return g.discard();
    // Now what is written is known.
    memory mem2(p);
    sg::log l2;
    l2.dataflow = true;
    l2.blind = &blind;
    interpreter in2(p, mem2, l2, &ip);
    written.clear();
    l2.write = [&](char* q, const void* value, int64_t size) {
      if (written.count(q) && memcmp(q, value, size) != 0) overwritten = true;
      written[q] = size;
      for (size_t i = 0; i < p.bufs.size(); ++i) {
        if (mem2.m[i].data() > q || q >= mem2.m[i].data() + mem2.m[i].size()) continue;
        for (int64_t j = 0; j < size; ++j) touched.insert({i, q - mem2.m[i].data() + j});
      }
    };
    in2.exec(p.body);
    if (overwritten) return g.discard();
  }
  result want, got;
  want.l.dataflow = got.l.dataflow = true;
  want.l.blind = got.l.blind = &blind;
  bool backwards = g.chance(1, 2);
  run(p, p.body, true, backwards, want);
  stmt s = p.body;
  for (const std::string& i : passes) s = apply(g, p, s, i);
  for (auto& i : p.kinds) g.classify(i.first.c_str());
  g.classify(!blind.empty(), "calls that do not read");
  if (want.l.events.size() > 1 && !s.same_as(p.body)) g.nontrivial();
  g.count("calls", want.l.events.size());
  bool deferred = tasks && g.chance(1, 2);
  run(p, s, true, backwards, got, deferred);
  PBT_CHECK(g, (got.status != 0) == (want.status != 0), "the result is " << got.status << ", not " << want.status);
  if (want.status != 0) return;
  for (size_t i = 0; i < p.bufs.size(); ++i) {
    const bool looped = p.looped.count(i);
    for (size_t j = 0; j < want.mem[i].size(); ++j) {
      // Calls in loops may be moved out of the loop, which assumes that the loop covers the whole buffer.
      if (looped && !touched.count({i, j})) continue;
      PBT_CHECK(g, got.mem[i][j] == want.mem[i][j], "the contents of " << p.ctx.name(p.bufs[i].sym) << " differ");
    }
  }
  PBT_CHECK(g, got.error.empty(), got.error);
}

void rewrite(pbt::gen& g) { dataflow(g, false); }
void tasks(pbt::gen& g) { dataflow(g, true); }

// Slices of broadcasts, which the simplifier ignores, even if that changes which dimension is which (and its tests
// expect this).
void broadcast_slices(pbt::gen& g) {
  program p;
  ext_buf e;
  e.sym = p.ctx.insert("b0");
  e.elem = 1;
  int rank = static_cast<int>(g.range(1, 3));
  int64_t stride = 1;
  std::vector<dim_expr> dims;
  std::vector<expr> base;
  for (int d = 0; d < rank; ++d) {
    dimv v;
    v.min = g.range(-3, 3);
    v.max = v.min + g.range(1, 3);
    v.stride = stride;
    stride *= v.max - v.min + 1;
    e.d.push_back(v);
    dims.push_back({bounds(10, 10 + v.max - v.min), buffer_stride(e.sym, d), expr()});
    base.push_back(buffer_min(e.sym, d));
  }
  e.bytes = stride + 1;
  p.bufs.push_back(e);
  int at = static_cast<int>(g.range(0, rank));
  dims.insert(dims.begin() + at, {point(expr(0)), 0, expr()});
  var y = p.ctx.insert("y"), s = p.ctx.insert("s");
  program* pp = &p;
  stmt body = call_stmt::make(
      [pp](const call_stmt* op, eval_context& ctx) -> index_t {
        return run_call(0, *pp->l, {}, {of(*ctx.lookup_buffer(op->outputs[0]))}, {});
      },
      {}, {s}, {}, {0, std::numeric_limits<int>::max(), "c0"});
  int other = g.chance(1, 2) ? static_cast<int>(g.below(rank + 1)) : at;
  if (other == at) {
    body = slice_dim::make(s, y, at, 0, body);
  } else {
    std::vector<expr> x(std::max(at, other) + 1);
    x[at] = 0;
    x[other] = buffer_min(y, other);
    body = slice_buffer::make(s, y, x, body);
  }
  p.body = make_buffer::make(y, buffer_at(e.sym, base), buffer_elem_size(e.sym), dims, body);
  if (g.describing()) g.note() << describe(p) << "\n";
  result want, got;
  want.l.verbose = got.l.verbose = g.describing();
  run(p, p.body, true, false, want);
  stmt r = apply(g, p, p.body, "simplify");
  run(p, r, true, false, got);
  g.nontrivial();
  // The known defect is that the slice of the broadcast is dropped though there are dimensions after it.
  bool last = at == rank || (other == rank && at == rank - 1);
  bool same = got.l.events.size() == 1 && want.l.events.size() == 1 && got.l.events[0].h == want.l.events[0].h;
  if (!same) g.fail("the call sees another buffer", last ? "" : "a slice of a leading broadcast is dropped");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C07";
  c.rule = "the program makes more than one call and the passes change it";
  c.assumptions = {
      "parallel loops run on one thread, in either order",
      "rewrites that change how often calls are made assume that what a call writes depends only on what it reads and on "
      "where it writes, that it does not read what has not been written, and that loops are not empty",
  };
  c.targets = {
      {"strict", strict, 120000, 2000000},
      {"dataflow", rewrite, 60000, 2000000},
      {"tasks", tasks, 40000, 2000000},
      {"broadcast_slices", broadcast_slices, 500, 5000},
  };
  return pbt::run(argc, argv, c);
}
