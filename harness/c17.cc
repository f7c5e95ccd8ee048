// C17: what a node does only depends on what the dependency analysis reports.
#include "slinky/builder/optimizations.h"
#include "slinky/runtime/depends_on.h"
#include "stmts.h"

namespace {

using namespace slinky;

std::string text_of(const depends_on_result& d) {
  std::string s;
  auto add = [&](bool b, const char* n) {
    if (b) s += std::string(s.empty() ? "" : " ") + n;
  };
  add(d.var, "var");
  add(d.buffer_input, "input");
  add(d.buffer_output, "output");
  add(d.buffer_src, "src");
  add(d.buffer_dst, "dst");
  add(d.buffer_base, "base");
  add(d.buffer_dims, "dims");
  add(d.buffer_bounds, "bounds");
  return s.empty() ? "nothing" : s;
}
bool same(const depends_on_result& a, const depends_on_result& b) { return text_of(a) == text_of(b); }

bool contains(const std::vector<var>& l, var x) { return std::find(l.begin(), l.end(), x) != l.end(); }

// Dependencies of several symbols at once are those of each.
template <typename T>
void check_consistent(pbt::gen& g, node_context& ctx, const T& x, const std::vector<var>& syms) {
  std::vector<depends_on_result> each(syms.size());
  std::vector<std::pair<var, depends_on_result&>> all;
  for (size_t i = 0; i < syms.size(); ++i) all.push_back({syms[i], each[i]});
  depends_on(x, span<const std::pair<var, depends_on_result&>>(all.data(), all.size()));
  std::vector<var> list = find_dependencies(x);
  depends_on_result any = depends_on(x, span<const var>(syms.data(), syms.size()));
  depends_on_result sum;
  for (size_t i = 0; i < syms.size(); ++i) {
    depends_on_result one = depends_on(x, syms[i]);
    if (!same(one, each[i])) {
      return g.fail("depends on " + ctx.name(syms[i]) + ": " + text_of(one) + ", but together with others: " + text_of(each[i]));
    }
    if (one.any() && !contains(list, syms[i])) return g.fail(ctx.name(syms[i]) + " is a dependency but not listed");
    sum.var |= one.var;
    sum.buffer_input |= one.buffer_input;
    sum.buffer_output |= one.buffer_output;
    sum.buffer_src |= one.buffer_src;
    sum.buffer_dst |= one.buffer_dst;
    sum.buffer_base |= one.buffer_base;
    sum.buffer_dims |= one.buffer_dims;
    sum.buffer_bounds |= one.buffer_bounds;
  }
  if (!same(any, sum)) g.fail("the dependencies on any of the symbols are " + text_of(any) + ", not " + text_of(sum));
}

// ---------------------------------------------------------------------------------------------------------------------
// Free symbols of statements

struct free_finder {
  std::set<size_t> out;
  typedef std::set<size_t> bound;

  void use(var v, const bound& b) {
    if (v.defined() && !b.count(v.id)) out.insert(v.id);
  }
  void e(const expr& x, const bound& b) { ex::free_symbols(x, b, out); }
  void e(const interval_expr& x, const bound& b) {
    e(x.min, b);
    e(x.max, b);
  }
  void e(const std::vector<dim_expr>& l, const bound& b) {
    for (auto& i : l) {
      e(i.bounds, b);
      e(i.stride, b);
      e(i.fold_factor, b);
    }
  }
  void decl(var v, const stmt& body, bound b) {
    if (v.defined()) b.insert(v.id);
    s(body, b);
  }
  void s(const stmt& x, bound b) {
    if (!x.defined()) return;
    switch (x.type()) {
    case stmt_node_type::block:
      for (auto& i : x.as<block>()->stmts) s(i, b);
      return;
    case stmt_node_type::let_stmt:
      for (auto& i : x.as<let_stmt>()->lets) {
        e(i.second, b);
        b.insert(i.first.id);
      }
      return s(x.as<let_stmt>()->body, b);
    case stmt_node_type::loop: {
      auto c = x.as<loop>();
      e(c->bounds, b);
      e(c->step, b);
      e(c->max_workers, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::call_stmt: {
      auto c = x.as<call_stmt>();
      for (var i : c->inputs) use(i, b);
      for (var i : c->outputs) use(i, b);
      for (auto& i : c->scalars) e(i, b);
      return;
    }
    case stmt_node_type::copy_stmt: {
      auto c = x.as<copy_stmt>();
      use(c->src, b);
      use(c->dst, b);
      use(c->pad, b);
      for (var i : c->dst_x) b.insert(i.id);
      for (auto& i : c->src_x) e(i, b);
      return;
    }
    case stmt_node_type::async:
      s(x.as<async>()->task, b);
      return decl(x.as<async>()->sym, x.as<async>()->body, b);
    case stmt_node_type::allocate: {
      auto c = x.as<allocate>();
      e(c->elem_size, b);
      e(c->dims, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::make_buffer: {
      auto c = x.as<make_buffer>();
      e(c->base, b);
      e(c->elem_size, b);
      e(c->dims, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::constant_buffer: return decl(x.as<constant_buffer>()->sym, x.as<constant_buffer>()->body, b);
    case stmt_node_type::clone_buffer: use(x.as<clone_buffer>()->src, b); return decl(x.as<clone_buffer>()->sym, x.as<clone_buffer>()->body, b);
    case stmt_node_type::crop_buffer: {
      auto c = x.as<crop_buffer>();
      use(c->src, b);
      for (auto& i : c->bounds) e(i, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::crop_dim: {
      auto c = x.as<crop_dim>();
      use(c->src, b);
      e(c->bounds, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::slice_buffer: {
      auto c = x.as<slice_buffer>();
      use(c->src, b);
      for (auto& i : c->at) e(i, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::slice_dim: {
      auto c = x.as<slice_dim>();
      use(c->src, b);
      e(c->at, b);
      return decl(c->sym, c->body, b);
    }
    case stmt_node_type::transpose: use(x.as<transpose>()->src, b); return decl(x.as<transpose>()->sym, x.as<transpose>()->body, b);
    case stmt_node_type::check: e(x.as<check>()->condition, b); return;
    default: return;
    }
  }
};

// ---------------------------------------------------------------------------------------------------------------------
// Statements

struct result {
  bool defined = false;
  index_t status = 0;
  sg::log l;
  std::vector<std::vector<char>> before, after;
};

// With `flip`, the contents of that buffer are different.
void run(sg::program& p, int flip, result& r) {
  {
    sg::memory mem(p);
    sg::log l;
    sg::inline_pool ip;
    sg::interpreter in(p, mem, l, &ip);
    p.l = &l;
    in.exec(p.body);
    if (in.unknown || l.too_long) return;
  }
  r.defined = true;
  sg::machine m(p, true);
  m.pool.copies = 2;
  if (flip >= 0) {
    for (char& i : m.mem.m[flip]) i ^= 0x55;
  }
  r.before = m.mem.m;
  p.l = &r.l;
  r.status = m.run(p, p.body);
  r.after = m.mem.m;
}

// What is different about what the program does.
std::string difference(const result& a, const result& b) {
  size_t n = std::min(a.l.events.size(), b.l.events.size());
  for (size_t i = 0; i < n; ++i) {
    if (a.l.events[i].site != b.l.events[i].site || a.l.events[i].h != b.l.events[i].h) {
      return "call " + std::to_string(i);
    }
  }
  if (a.l.events.size() != b.l.events.size()) return "the number of calls";
  if (a.l.checks_failed != b.l.checks_failed) return "a check";
  if (a.status != b.status) return "the result";
  for (size_t i = 0; i < a.after.size(); ++i) {
    for (size_t j = 0; j < a.after[i].size(); ++j) {
      bool wa = a.after[i][j] != a.before[i][j], wb = b.after[i][j] != b.before[i][j];
      if (wa && wb && a.after[i][j] != b.after[i][j]) return "what is written";
    }
  }
  return "";
}

void stmts(pbt::gen& g) {
  sg::program p;
  sg::options o;
  o.shadow = g.chance(2, 3);
  o.async = g.chance(1, 4);
  o.shadow_async = false;
  o.empty_bases = false;
  sg::generator gn(g, p, o);
  gn.run();
  if (!p.body.defined()) return g.discard();
  if (g.describing()) g.note() << describe(p) << "\n";
  result base;
  run(p, -1, base);
  if (!base.defined) return g.discard();
  for (auto& i : p.kinds) g.classify(i.first.c_str());

  // A let that gives a buffer another name only depends on the symbol.
  bool renames = p.kinds.count("closure");
  std::vector<var> list = find_dependencies(p.body), buffers = find_buffer_dependencies(p.body);
  free_finder ff;
  ff.s(p.body, {});
  for (size_t i : ff.out) PBT_CHECK(g, contains(list, var(i)), p.ctx.name(var(i)) << " is free but not listed");

  std::vector<var> syms;
  for (auto& i : p.bufs) syms.push_back(i.sym);
  for (auto& i : p.ints) syms.push_back(i.first);
  for (int i = 0; i < 2 && !gn.names.empty(); ++i) {
    var v = g.pick(gn.names);
    if (!contains(syms, v)) syms.push_back(v);
  }
  check_consistent(g, p.ctx, p.body, syms);

  int different = 0;
  auto perturbed = [&](var x, const char* what, bool reported, const depends_on_result& d, int flip) {
    result r;
    run(p, flip, r);
    if (!r.defined) return;
    g.count("perturbations");
    std::string diff = difference(base, r);
    if (diff.empty()) return;
    ++different;
    g.count("with an effect");
    PBT_CHECK(g, reported, diff << " depends on the " << what << " of " << p.ctx.name(x) << ", reported: " << text_of(d));
    PBT_CHECK(g, contains(list, x), p.ctx.name(x) << " is a dependency but not listed");
  };
  for (auto& i : p.ints) {
    depends_on_result d = depends_on(p.body, i.first);
    int64_t v = i.second;
    for (int64_t w : {v + 1, v - 1, v + g.range(-5, 5)}) {
      i.second = w;
      perturbed(i.first, "value", d.var, d, -1);
    }
    i.second = v;
  }
  for (size_t i = 0; i < p.bufs.size(); ++i) {
    sg::ext_buf& b = p.bufs[i];
    depends_on_result d = depends_on(p.body, b.sym);
    bool var = renames && d.var;
    perturbed(b.sym, "contents", d.buffer_read() || var, d, static_cast<int>(i));
    if (base.before[i] != base.after[i]) {
      PBT_CHECK(g, d.buffer_write() || var, p.ctx.name(b.sym) << " is written, reported: " << text_of(d));
      PBT_CHECK(g, contains(buffers, b.sym) || d.buffer_base || var, p.ctx.name(b.sym) << " is written but not listed");
    }
    if (!b.d.empty()) {
      std::vector<sg::dimv> before = b.d;
      bool dims = d.buffer_dims || d.var, bounds = dims || d.buffer_bounds;
      size_t at = g.below(b.d.size());
      ++b.d[at].min;
      ++b.d[at].max;
      perturbed(b.sym, "bounds", bounds, d, -1);
      b.d = before;
      if (b.d[at].max > b.d[at].min) {
        --b.d[at].max;
        perturbed(b.sym, "max", bounds, d, -1);
        b.d = before;
      }
      if (b.d[at].stride > 0 && b.d[at].fold == -1) {
        b.d[at].stride = 0;
        perturbed(b.sym, "stride", dims, d, -1);
        b.d = before;
      }
      b.d.pop_back();
      perturbed(b.sym, "rank", dims, d, -1);
      b.d = before;
    }
  }
  if (different) g.nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------------
// Expressions

struct world {
  std::vector<std::vector<dim>> dims;
  std::vector<std::unique_ptr<raw_buffer>> bufs;
  char mem[64] = {0};
  eval_config cfg;
  eval_context ctx;
  int effects = 0;

  world(pbt::gen& g, ex::expr_gen& eg) {
    cfg.trace_begin = [this](const char*) -> index_t { return ++effects; };
    cfg.trace_end = [this](index_t) { ++effects; };
    ctx.config = &cfg;
    ctx.reserve(64);
    for (size_t i = 0; i < 64; ++i) ctx.set(var(i), 0);
    for (var i : eg.vars) ctx[i] = g.range(-6, 9);
    for (size_t i = 0; i < eg.bufs.size(); ++i) {
      std::vector<dim> d;
      for (int j = 0; j < 3; ++j) {
        int64_t min = g.range(-5, 5), max = min + g.range(-1, 6);
        d.push_back(dim(min, max, g.range(-3, 9), g.chance(1, 4) ? g.range(1, 4) : dim::unfolded));
      }
      dims.push_back(std::move(d));
    }
    for (size_t i = 0; i < eg.bufs.size(); ++i) {
      bufs.emplace_back(new raw_buffer());
      raw_buffer& b = *bufs.back();
      b.base = mem + i;
      b.elem_size = g.pick<index_t>({1, 2, 4, 8});
      b.rank = eg.buf_rank[i];
      b.dims = dims[i].data();
      ctx[eg.bufs[i]] = reinterpret_cast<index_t>(&b);
    }
  }
};

void exprs(pbt::gen& g) {
  node_context ctx;
  ex::options o;
  o.vars = 3;
  o.bufs = 2;
  o.shadow = true;
  o.big = false;
  o.let_weight = 4;
  ex::expr_gen eg(g, ctx, o);
  int calls = 0;
  // What is not a function of variables.
  int k = static_cast<int>(g.below(3));
  bool renames = false;
  for (int i = 0; i < k; ++i) {
    size_t b = g.below(2);
    switch (g.below(6)) {
    case 0: {
      std::vector<expr> at;
      int n = static_cast<int>(g.range(0, eg.buf_rank[b]));
      for (int j = 0; j < n; ++j) at.push_back(g.chance(1, 3) ? expr() : eg.leaf());
      eg.pool.push_back(buffer_at(eg.bufs[b], at));
      break;
    }
    case 1: eg.pool.push_back(call::make([&calls](const call*, eval_context&) -> index_t { return ++calls; }, {eg.leaf()})); break;
    case 2: eg.pool.push_back(call::make(intrinsic::trace_begin, {0})); break;
    case 3: eg.pool.push_back(call::make(intrinsic::trace_end, {eg.leaf()})); break;
    case 4:
      // The value of the symbol.
      renames = true;
      eg.pool.push_back(call::make(intrinsic::validate_buffer, {expr(eg.bufs[b])}));
      break;
    default: eg.pool.push_back(expr(eg.bufs[b])); renames = true;
    }
  }
  expr e = g.chance(1, 2) ? eg.make_let(static_cast<int>(g.range(2, 10))) : eg.any(static_cast<int>(g.range(1, 12)));
  if (g.chance(1, 6)) {
    e = let::make(eg.bufs[g.below(2)], variable::make(eg.bufs[g.below(2)]), e);
    renames = true;
    if (g.chance(1, 2)) e = e + eg.any(3);
  }
  if (g.describing()) g.note() << ex::text(e, ctx) << "\n";
  world w(g, eg);
  std::vector<var> syms = eg.vars;
  syms.insert(syms.end(), eg.bufs.begin(), eg.bufs.end());
  check_consistent(g, ctx, e, syms);
  std::vector<var> list = find_dependencies(e);
  for (size_t i : ex::free_symbols(e)) PBT_CHECK(g, contains(list, var(i)), ctx.name(var(i)) << " is free but not listed");
  bool pure = is_pure(e), effects = has_side_effects(e);
  g.classify(pure, "pure");
  g.classify(effects, "side effects");
  index_t base = evaluate(e, w.ctx);
  if (!effects) PBT_CHECK(g, calls == 0 && w.effects == 0, "an expression without side effects has one");
  index_t again = evaluate(e, w.ctx);
  if (pure) PBT_CHECK(g, base == again, "a pure expression is " << base << ", and then " << again);
  // The rest compares values.
  bool stateful = calls > 0 || w.effects > 0;
  auto value = [&]() {
    calls = 0;
    w.effects = 0;
    return evaluate(e, w.ctx);
  };
  base = value();
  (void)stateful;
  int different = 0;
  auto perturbed = [&](var x, const char* what, bool reported, const depends_on_result& d, bool variable) {
    g.count("perturbations");
    index_t v = value();
    if (v == base) return;
    ++different;
    g.count("with an effect");
    PBT_CHECK(g, reported, "the value depends on the " << what << " of " << ctx.name(x) << ", reported: " << text_of(d));
    PBT_CHECK(g, variable || !pure, "a pure expression depends on the " << what << " of " << ctx.name(x));
    PBT_CHECK(g, contains(list, x), ctx.name(x) << " is a dependency but not listed");
  };
  for (var x : eg.vars) {
    depends_on_result d = depends_on(e, x);
    index_t v = w.ctx[x];
    for (index_t i : {v + 1, v - 1, v + g.range(-20, 20)}) {
      w.ctx[x] = i;
      perturbed(x, "value", d.var, d, true);
    }
    w.ctx[x] = v;
  }
  std::set<size_t> moved;
  for (size_t i = 0; i < eg.bufs.size(); ++i) {
    var x = eg.bufs[i];
    depends_on_result d = depends_on(e, x);
    raw_buffer& b = *w.bufs[i];
    bool var = renames && d.var;
    size_t at = g.below(b.rank);
    dim before = b.dims[at];
    auto bounds = [&](index_t min, index_t max) {
      b.dims[at].set_bounds(before.min() + min, before.max() + max);
      perturbed(x, "bounds", d.buffer_bounds || var, d, false);
      b.dims[at] = before;
    };
    bounds(1, 0);
    bounds(0, 1);
    bounds(3, 3);
    b.dims[at].set_stride(before.stride() + g.pick<index_t>({1, -2}));
    perturbed(x, "stride", d.buffer_dims || var, d, false);
    b.dims[at] = before;
    b.dims[at].set_fold_factor(before.fold_factor() == 7 ? 5 : 7);
    perturbed(x, "fold factor", d.buffer_dims || var, d, false);
    b.dims[at] = before;
    index_t elem = b.elem_size;
    b.elem_size = elem * 2;
    perturbed(x, "elem_size", d.var || d.buffer_dims, d, false);
    b.elem_size = elem;
    if (b.rank > 1) {
      --b.rank;
      perturbed(x, "rank", d.var || d.buffer_dims, d, false);
      ++b.rank;
    }
    void* p = b.base;
    b.base = w.mem + 32;
    if (value() != base) moved.insert(x.id);
    perturbed(x, "base", d.buffer_base || var, d, false);
    if (can_substitute_buffer(d)) PBT_CHECK(g, !moved.count(x.id), ctx.name(x) << " cannot be substituted");
    b.base = p;
  }
  if (!renames && moved.size() == 1) {
    var f = find_buffer_data_dependency(e);
    PBT_CHECK(g, !f.defined() || f.id == *moved.begin(), "the wrong buffer is the data dependency");
  }
  if (!renames && moved.size() > 1) {
    PBT_CHECK(g, !find_buffer_data_dependency(e).defined(), "there is not only one data dependency");
  }
  if (different) g.nontrivial();
}

// ---------------------------------------------------------------------------------------------------------------------
// Copies

void copies(pbt::gen& g) {
  node_context ctx;
  int rank = static_cast<int>(g.range(1, 2));
  bool padded = g.chance(2, 3);
  var ext[3] = {ctx.insert("src"), ctx.insert("dst"), ctx.insert("pad")}, v = ctx.insert("v"), u = ctx.insert("u");
  var now[3] = {ext[0], ext[1], ext[2]};
  int n = padded ? 3 : 2;

  // Declarations around the copy, the last one first.
  struct decl {
    int kind, of;
    var sym, src;
    int dim;
    interval_expr bounds;
  };
  std::vector<decl> decls;
  int k = static_cast<int>(g.range(0, 4)), fresh = 0;
  for (int i = 0; i < k; ++i) {
    decl d;
    d.kind = static_cast<int>(g.below(3));
    d.of = static_cast<int>(g.below(n));
    d.dim = static_cast<int>(g.below(rank));
    // Without padding, everything must be in the source, and cropped padding would not be everywhere.
    if (d.kind == 0 && (d.of == 2 || (d.of == 0 && !padded))) d.kind = 1;
    d.src = now[d.of];
    std::vector<var> names = {ctx.insert("c" + std::to_string(fresh++))};
    for (int j = 0; j < 3; ++j) {
      bool used = false;
      for (int l = 0; l < 3; ++l) used = used || (l != d.of && now[l] == ext[j]);
      if (!used) names.push_back(ext[j]);
    }
    if (d.kind == 2) {
      // A let that may hide a buffer that is not used any more.
      d.sym = names[0];
      d.bounds.min = g.chance(1, 2) ? expr(v) : expr(u);
    } else {
      d.sym = g.pick(names);
      now[d.of] = d.sym;
      d.bounds.min = g.chance(1, 3) ? expr(v) : g.chance(1, 2) ? expr(g.range(-1, 3)) : expr();
      d.bounds.max = g.chance(1, 3) ? expr(u) + 2 : g.chance(1, 2) ? expr(g.range(1, 4)) : expr();
    }
    decls.push_back(d);
  }
  std::vector<var> dst_x;
  for (int d = 0; d < rank; ++d) dst_x.push_back(g.chance(1, 5) && d == 0 ? v : ctx.insert("x" + std::to_string(d)));
  std::vector<expr> src_x;
  for (int d = 0; d < rank; ++d) {
    expr x = g.chance(1, 5) ? expr(0) : expr(dst_x[g.chance(1, 4) ? rank - 1 - d : d]);
    switch (g.below(4)) {
    case 0: x = x + v; break;
    case 1: x = x + u; break;
    case 2: x = x + g.range(-2, 2); break;
    default: break;
    }
    src_x.push_back(x);
  }
  stmt s = copy_stmt::make(
      [](const raw_buffer& src, const raw_buffer& dst, const raw_buffer& pad) { copy(src, dst, pad); }, now[0], src_x,
      now[1], dst_x, padded ? now[2] : var());
  for (size_t i = decls.size(); i-- > 0;) {
    const decl& d = decls[i];
    switch (d.kind) {
    case 0: s = crop_dim::make(d.sym, d.src, d.dim, d.bounds, s); break;
    case 1: s = clone_buffer::make(d.sym, d.src, s); break;
    default: s = let_stmt::make(d.sym, d.bounds.min, s);
    }
  }
  if (g.describing()) g.note() << std::tie(s, ctx) << "\n";
  stmt run_this = implement_copies(s, ctx);

  struct inputs {
    int64_t v, u;
    sg::dimv d[3][2];
    int flip = -1;
  };
  inputs in;
  in.v = g.range(-3, 3);
  in.u = g.range(-3, 3);
  for (int d = 0; d < rank; ++d) {
    int64_t lo = g.range(-1, 1);
    in.d[0][d] = padded ? sg::dimv{lo, lo + g.range(0, 4)} : sg::dimv{-20, 20};
    in.d[1][d] = {0, g.range(0, 4)};
  }
  auto run = [&](const inputs& in) {
    std::vector<char> mem[3];
    buffer<char, 2> bufs[3];
    eval_config cfg;
    eval_context c;
    c.config = &cfg;
    c.reserve(64);
    for (size_t i = 0; i < 64; ++i) c.set(var(i), 0);
    c[v] = in.v;
    c[u] = in.u;
    for (int i = 0; i < 3; ++i) {
      mem[i].resize(64 * 64);
      for (size_t j = 0; j < mem[i].size(); ++j) mem[i][j] = static_cast<char>(sg::mix(j, i) >> 5 ^ (in.flip == i ? 0x55 : 0));
      raw_buffer& b = bufs[i];
      b.base = mem[i].data();
      b.elem_size = 1;
      b.rank = rank;
      for (int d = 0; d < rank; ++d) {
        bufs[i].mutable_dim(d).set_bounds(in.d[i][d].min, in.d[i][d].max);
        bufs[i].mutable_dim(d).set_stride(i == 2 ? 0 : d == 0 ? 1 : 64);
      }
      c[ext[i]] = reinterpret_cast<index_t>(&b);
    }
    evaluate(run_this, c);
    return mem[1];
  };
  auto dst = run(in);
  std::vector<var> syms = {ext[0], ext[1], ext[2], v, u};
  check_consistent(g, ctx, s, syms);
  std::vector<var> list = find_dependencies(s);
  free_finder ff;
  ff.s(s, {});
  for (size_t i : ff.out) PBT_CHECK(g, contains(list, var(i)), ctx.name(var(i)) << " is free but not listed");
  int different = 0;
  auto differs = [&](const inputs& i, const std::vector<char>& base) {
    g.count("perturbations");
    bool r = run(i) != base;
    different += r;
    if (r) g.count("with an effect");
    return r;
  };
  for (int i = 0; i < 2; ++i) {
    inputs p = in;
    (i == 0 ? p.v : p.u) += g.pick<int64_t>({1, -1, 2});
    depends_on_result d = depends_on(s, i == 0 ? v : u);
    if (differs(p, dst)) PBT_CHECK(g, d.var, "the copy depends on " << (i == 0 ? "v" : "u") << ", reported: " << text_of(d));
  }
  depends_on_result deps[3];
  for (int i = 0; i < 3; ++i) deps[i] = depends_on(s, ext[i]);
  std::vector<var> reads = find_buffer_dependencies(s, true, false), writes = find_buffer_dependencies(s, false, true);
  for (int i : {0, 2}) {
    inputs p = in;
    p.flip = i;
    if (!differs(p, dst)) continue;
    PBT_CHECK(g, deps[i].buffer_read() && deps[i].buffer_src, "the copy reads " << ctx.name(ext[i]) << ", reported: " << text_of(deps[i]));
    PBT_CHECK(g, contains(reads, ext[i]), "the copy reads " << ctx.name(ext[i]) << ", which is not listed");
  }
  {
    // Something is written if two different contents become the same.
    inputs p = in;
    p.flip = 1;
    auto other = run(p);
    bool written = false;
    for (size_t i = 0; i < dst.size(); ++i) written = written || (other[i] ^ dst[i]) != 0x55;
    if (written) {
      ++different;
      PBT_CHECK(g, deps[1].buffer_write() && deps[1].buffer_dst, "the copy writes dst, reported: " << text_of(deps[1]));
      PBT_CHECK(g, contains(writes, ext[1]), "the copy writes dst, which is not listed");
    }
  }
  for (int i = 0; i < 2; ++i) {
    if (i == 0 && !padded) continue;
    int d = static_cast<int>(g.below(rank));
    inputs p = in;
    ++p.d[i][d].max;
    if (differs(p, dst)) PBT_CHECK(g, deps[i].buffer_bounds, "the copy depends on the max of " << ctx.name(ext[i]) << ", reported: " << text_of(deps[i]));
    p = in;
    ++p.d[i][d].min;
    ++p.d[i][d].max;
    if (differs(p, dst)) PBT_CHECK(g, deps[i].buffer_bounds, "the copy depends on the min of " << ctx.name(ext[i]) << ", reported: " << text_of(deps[i]));
  }
  g.classify(padded, "padded");
  g.classify(dst_x[0] == v, "hides a symbol");
  if (different > 1) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C17";
  c.rule = "changing the value, contents or metadata of some symbol changes what the node evaluates to or does";
  c.assumptions = {
      "a let that gives a buffer another name depends on the symbol, not on the buffer",
      "programs that the reference interpreter does not define after a change are not compared",
  };
  c.targets = {
      {"stmt", stmts, 60000, 3000000},
      {"expr", exprs, 120000, 6000000},
      {"copy", copies, 60000, 3000000},
  };
  return pbt::run(argc, argv, c);
}
