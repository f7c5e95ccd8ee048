// C08: substitution has the value of the original with the symbol bound and captures nothing, and comparing nodes is a
// total order that agrees with matching.
#include "slinky/builder/substitute.h"
#include "slinky/runtime/depends_on.h"
#include "stmts.h"

namespace {

using namespace slinky;

// ---------------------------------------------------------------------------------------------------------------------
// Expressions

// Adds the symbols that are declared in x.
void declared(expr_ref x, std::set<size_t>& out) {
  ex::visit_all(x, [&](expr_ref i) {
    if (const let* l = i.as<let>()) {
      for (auto& j : l->lets) out.insert(j.first.id);
    }
  });
}

bool intersects(const std::set<size_t>& a, const std::set<size_t>& b) {
  for (size_t i : a) {
    if (b.count(i)) return true;
  }
  return false;
}

struct world {
  std::vector<std::vector<dim>> dims;
  std::vector<std::unique_ptr<raw_buffer>> bufs;
  char mem[16];
  eval_config cfg;
  eval_context ctx;

  // A position that is not given to buffer_at is that of the min: this is only the case in buffers that are not empty
  // and not folded.
  world(pbt::gen& g, ex::expr_gen& eg, bool addresses) {
    ctx.config = &cfg;
    ctx.reserve(64);
    for (size_t i = 0; i < 64; ++i) ctx.set(var(i), 0);
    for (var i : eg.vars) ctx[i] = g.range(-6, 9);
    for (size_t i = 0; i < eg.bufs.size(); ++i) {
      std::vector<dim> d;
      for (int j = 0; j < eg.buf_rank[i]; ++j) {
        int64_t min = g.range(-5, 5), max = min + g.range(addresses ? 0 : -1, 6);
        int64_t stride = g.range(-3, 9);
        int64_t fold = !addresses && g.chance(1, 4) ? g.range(1, 4) : dim::unfolded;
        d.push_back(dim(min, max, stride, fold));
      }
      dims.push_back(std::move(d));
    }
    for (size_t i = 0; i < eg.bufs.size(); ++i) {
      bufs.emplace_back(new raw_buffer());
      raw_buffer& b = *bufs.back();
      b.base = mem + i;
      b.elem_size = g.pick<index_t>({1, 2, 4, 8});
      b.rank = dims[i].size();
      b.dims = dims[i].data();
      set(eg.bufs[i], i);
    }
  }
  void set(var v, size_t buf) { ctx[v] = reinterpret_cast<index_t>(bufs[buf].get()); }
};

expr buffer_address(pbt::gen& g, ex::expr_gen& eg) {
  size_t b = g.below(eg.bufs.size());
  std::vector<expr> at;
  int n = static_cast<int>(g.range(0, eg.buf_rank[b]));
  for (int i = 0; i < n; ++i) {
    switch (g.below(4)) {
    case 0: at.push_back(expr()); break;
    case 1: at.push_back(buffer_min(eg.bufs[b], i)); break;
    case 2: at.push_back(buffer_min(eg.bufs[g.below(eg.bufs.size())], 0)); break;
    default: at.push_back(eg.any_variable());
    }
  }
  return buffer_at(eg.bufs[b], at);
}

bool has_address(expr_ref x) {
  bool r = false;
  ex::visit_all(x, [&](expr_ref i) {
    const call* c = i.as<call>();
    r = r || (c && c->intrinsic == intrinsic::buffer_at);
  });
  return r;
}

ex::options small_options() {
  ex::options o;
  o.vars = 3;
  o.bufs = 2;
  o.shadow = true;
  o.big = false;
  o.let_weight = 6;
  return o;
}

expr gen_expr(pbt::gen& g, ex::expr_gen& eg) {
  int k = static_cast<int>(g.below(3));
  for (int i = 0; i < k; ++i) eg.pool.push_back(buffer_address(g, eg));
  expr e = g.chance(1, 2) ? eg.make_let(static_cast<int>(g.range(2, 10))) : eg.any(static_cast<int>(g.range(2, 12)));
  if (g.chance(1, 5)) {
    // A buffer with another name, perhaps one that hides a buffer.
    size_t b = g.below(eg.bufs.size());
    e = let::make(eg.bufs[b], variable::make(eg.bufs[g.below(eg.bufs.size())]), e);
    if (g.chance(1, 2)) e = e + eg.any(3);
  }
  return e;
}

void substitute_expr(pbt::gen& g) {
  node_context ctx;
  ex::expr_gen eg(g, ctx, small_options());
  expr e = gen_expr(g, eg);
  world w(g, eg, has_address(e));
  var x;
  expr r;
  bool buffer = g.chance(1, 4);
  if (buffer) {
    size_t i = g.below(eg.bufs.size());
    x = eg.bufs[i];
    std::set<size_t> decls;
    declared(e, decls);
    // A new name, that of another buffer, or one that is declared in the expression.
    var y = ctx.insert("Y");
    if (!decls.empty() && g.chance(1, 2)) {
      auto j = decls.begin();
      std::advance(j, g.below(decls.size()));
      // Uses of y outside of where it is declared would not be of a buffer.
      if (!ex::free_symbols(e).count(*j)) y = var(*j);
    } else if (g.chance(1, 4)) {
      y = eg.bufs[1 - i];
      w.bufs[i] = std::make_unique<raw_buffer>(*w.bufs[1 - i]);
      w.set(x, i);
    }
    if (y == x) return g.discard();
    if (std::find(eg.bufs.begin(), eg.bufs.end(), y) == eg.bufs.end()) w.set(y, i);
    r = variable::make(y);
  } else {
    x = g.pick(eg.vars);
    eg.in_scope.clear();
    eg.pool.clear();
    eg.opt.shadow = g.chance(1, 2);
    r = eg.any(static_cast<int>(g.range(1, 4)));
  }
  std::set<size_t> decls, free = ex::free_symbols(r);
  declared(e, decls);
  bool captures = intersects(decls, free);
  if (free.count(x.id) && captures) return g.discard();
  bool self = free.count(x.id);
  index_t outer = w.ctx[x];
  index_t v = evaluate(r, w.ctx);
  if (g.describing()) {
    g.note() << "substitute " << ex::text(r, ctx) << " for " << ctx.name(x) << " in\n" << ex::text(e, ctx) << "\n";
  }
  expr s;
  switch (g.below(3)) {
  case 0: s = substitute(interval_expr{e, r}, x, r).min; break;
  case 1: s = substitute(dim_expr{{r, r}, e, r}, x, r).stride; break;
  default: s = substitute(e, x, r);
  }
  PBT_CHECK(g, s.defined(), "the result is undefined");
  if (g.describing()) g.note() << "=\n" << ex::text(s, ctx) << "\n";
  bool used = ex::free_symbols(e).count(x.id);
  g.classify(used, "used");
  g.classify(captures, "may capture");
  g.classify(decls.count(x.id), "shadowed");
  g.classify(buffer, "buffer");
  if (used && !decls.empty()) g.nontrivial();
  w.ctx[x] = v;
  index_t want = evaluate(e, w.ctx);
  if (self) w.ctx[x] = outer;
  index_t got = evaluate(s, w.ctx);
  PBT_CHECK(g, got == want, "the value is " << got << ", not " << want);
  if (!captures && !self) {
    // Nothing can be captured, so every use was replaced.
    if (!buffer) {
      w.ctx[x] = v + g.pick<index_t>({1, -1, 1000});
      got = evaluate(s, w.ctx);
      PBT_CHECK(g, got == want, "the value is " << got << ", not " << want << " (a use remains)");
    }
    PBT_CHECK(g, !ex::free_symbols(s).count(x.id), "a use remains");
  }
}

void substitute_metadata(pbt::gen& g) {
  node_context ctx;
  ex::options o = small_options();
  o.bufs = 3;
  ex::expr_gen eg(g, ctx, o);
  // Everything that may be used beyond the rank is defined in the same way.
  expr e = gen_expr(g, eg);
  std::set<size_t> decls;
  declared(e, decls);
  world w(g, eg, has_address(e));
  var x = eg.bufs[0], def = g.chance(1, 2) ? eg.bufs[1] : var();
  eg.in_scope.clear();
  eg.pool.clear();
  // Values do not depend on the buffer they replace.
  auto value = [&]() {
    for (int i = 0; i < 8; ++i) {
      eg.pool.clear();
      expr r = eg.any(static_cast<int>(g.range(1, 3)));
      if (!ex::free_symbols(r).count(x.id)) return r;
    }
    return expr(1);
  };
  int n = eg.buf_rank[0];
  if (def.defined()) n = static_cast<int>(g.range(0, eg.buf_rank[1]));
  if (def.defined() && n > eg.buf_rank[1]) n = eg.buf_rank[1];
  std::vector<dim_expr> d(n);
  std::set<size_t> free;
  auto use = [&](const expr& v) {
    for (size_t i : ex::free_symbols(v)) free.insert(i);
    return evaluate(v, w.ctx);
  };
  // What the buffer is.
  raw_buffer b = def.defined() ? *w.bufs[1] : *w.bufs[0];
  std::vector<dim> bd(b.dims, b.dims + b.rank);
  b.dims = bd.data();
  b.base = w.bufs[0]->base;
  auto give = [&]() { return !def.defined() || g.chance(1, 2); };
  bool address = has_address(e);
  for (int i = 0; i < n; ++i) {
    index_t min = bd[i].min(), max = bd[i].max();
    if (give()) min = use(d[i].bounds.min = value());
    if (give()) max = use(d[i].bounds.max = address ? expr(g.range(min, min + 5)) : value());
    if (g.chance(1, 6)) {
      d[i].bounds = point(value());
      min = max = use(d[i].bounds.min);
    }
    bd[i].set_bounds(min, max);
    if (give()) bd[i].set_stride(use(d[i].stride = value()));
    if (give()) bd[i].set_fold_factor(use(d[i].fold_factor = address ? expr(dim::unfolded) : value()));
  }
  expr elem;
  if (give()) b.elem_size = use(elem = value());
  if (def.defined()) free.insert(def.id);
  // Folded offsets divide by the fold factor.
  for (dim& i : bd) {
    if (i.fold_factor() == 0) return g.discard();
  }
  if (has_address(e)) {
    for (dim& i : bd) {
      if (i.fold_factor() != dim::unfolded || i.max() < i.min()) return g.discard();
    }
  }
  bool captures = intersects(decls, free);
  // The fields of dimensions that it does not have.
  bool beyond = false;
  ex::visit_all(e, [&](expr_ref i) {
    const variable* v = i.as<variable>();
    if (v && v->field != buffer_field::none && v->dim >= static_cast<int>(bd.size())) beyond = true;
  });
  if (beyond) return g.discard();
  if (g.describing()) {
    g.note() << "substitute " << ctx.name(x) << " with elem_size " << ex::text(elem, ctx) << " and";
    for (auto& i : d) {
      g.note() << " {[" << ex::text(i.bounds.min, ctx) << ", " << ex::text(i.bounds.max, ctx) << "], "
               << ex::text(i.stride, ctx) << ", " << ex::text(i.fold_factor, ctx) << "}";
    }
    if (def.defined()) g.note() << " default " << ctx.name(def);
    g.note() << " in\n" << ex::text(e, ctx) << "\n";
  }
  w.ctx[x] = reinterpret_cast<index_t>(&b);
  index_t want = evaluate(e, w.ctx);
  expr s;
  switch (g.below(3)) {
  case 0: s = substitute_buffer(interval_expr{e, e}, x, elem, d, def).max; break;
  default: s = substitute_buffer(e, x, elem, d, def);
  }
  PBT_CHECK(g, s.defined(), "the result is undefined");
  if (g.describing()) g.note() << "=\n" << ex::text(s, ctx) << "\n";
  bool used = ex::free_symbols(e).count(x.id);
  g.classify(used, "used");
  g.classify(captures, "may capture");
  g.classify(decls.count(x.id), "shadowed");
  g.classify(def.defined(), "default");
  g.classify(has_address(e), "buffer_at");
  if (used) g.nontrivial();
  index_t got = evaluate(s, w.ctx);
  PBT_CHECK(g, got == want, "the value is " << got << ", not " << want);
  // The address of a buffer is not replaced, and a buffer may be used as a value.
  if (!captures && !has_address(e) && !decls.count(x.id)) {
    bool value_of = false;
    ex::visit_all(e, [&](expr_ref i) {
      const variable* v = i.as<variable>();
      value_of = value_of || (v && v->sym == x && v->field == buffer_field::none);
    });
    if (!value_of) PBT_CHECK(g, !ex::free_symbols(s).count(x.id), "a use remains");
  }
}

// ---------------------------------------------------------------------------------------------------------------------
// Statements

class find_decls : public recursive_node_visitor {
public:
  std::set<size_t> syms;
  template <typename T>
  void decl(const T* op) {
    if (op->sym.defined()) syms.insert(op->sym.id);
    recursive_node_visitor::visit(op);
  }
  void visit(const let* op) override {
    for (auto& i : op->lets) syms.insert(i.first.id);
    recursive_node_visitor::visit(op);
  }
  void visit(const let_stmt* op) override {
    for (auto& i : op->lets) syms.insert(i.first.id);
    recursive_node_visitor::visit(op);
  }
  void visit(const copy_stmt* op) override {
    for (var i : op->dst_x) syms.insert(i.id);
    recursive_node_visitor::visit(op);
  }
  void visit(const call_stmt* op) override {
    for (const expr& i : op->scalars) i.accept(this);
  }
  void visit(const loop* op) override { decl(op); }
  void visit(const async* op) override { decl(op); }
  void visit(const allocate* op) override { decl(op); }
  void visit(const make_buffer* op) override { decl(op); }
  void visit(const constant_buffer* op) override { decl(op); }
  void visit(const clone_buffer* op) override { decl(op); }
  void visit(const crop_buffer* op) override { decl(op); }
  void visit(const crop_dim* op) override { decl(op); }
  void visit(const slice_buffer* op) override { decl(op); }
  void visit(const slice_dim* op) override { decl(op); }
  void visit(const transpose* op) override { decl(op); }
  using recursive_node_visitor::visit;
};

struct result {
  index_t status;
  sg::log l;
  std::vector<std::vector<char>> mem;
  std::string error;
};

void run(sg::program& p, const stmt& s, result& r) {
  sg::machine m(p, true);
  m.pool.copies = 2;
  p.l = &r.l;
  r.status = m.run(p, s);
  r.mem = m.mem.m;
  r.error = m.error;
}

void compare_runs(pbt::gen& g, sg::program& p, const result& want, const result& got, const char* what) {
  size_t n = std::min(want.l.events.size(), got.l.events.size());
  for (size_t i = 0; i < n; ++i) {
    if (want.l.events[i].site == got.l.events[i].site && want.l.events[i].h == got.l.events[i].h) continue;
    std::ostringstream e;
    e << what << "call " << i << " differs";
    if (g.describing()) e << ": " << got.l.text[i] << "\nshould be " << want.l.text[i];
    return g.fail(e.str());
  }
  PBT_CHECK(g, want.l.events.size() == got.l.events.size(),
      what << "there were " << got.l.events.size() << " calls, not " << want.l.events.size());
  PBT_CHECK(g, got.status == want.status, what << "the result is " << got.status << ", not " << want.status);
  PBT_CHECK(g, got.l.checks_failed == want.l.checks_failed, what << "checks failed differently");
  for (size_t i = 0; i < p.bufs.size(); ++i) {
    PBT_CHECK(g, got.mem[i] == want.mem[i], what << "the contents of buffer " << i << " differ");
  }
  PBT_CHECK(g, got.error.empty(), what << got.error);
}

// True if the program has a defined meaning.
bool defined(sg::program& p) {
  sg::memory mem(p);
  sg::log l;
  sg::inline_pool ip;
  sg::interpreter in(p, mem, l, &ip);
  p.l = &l;
  in.exec(p.body);
  return !in.unknown && !l.too_long;
}

void substitute_stmt(pbt::gen& g) {
  sg::program p;
  sg::options o;
  o.shadow = g.chance(2, 3);
  o.async = g.chance(1, 4);
  // Whether the symbol of an async is defined in its task depends on the timing.
  o.shadow_async = false;
  o.empty_bases = false;
  sg::generator gn(g, p, o);
  gn.run();
  if (g.describing()) g.note() << describe(p) << "\n";
  find_decls fd;
  if (!p.body.defined()) return g.discard();
  p.body.accept(&fd);
  bool buffer = p.ints.empty() || g.chance(1, 2);
  var x;
  expr r;
  size_t at = 0;
  std::set<size_t> free;
  stmt s;
  result want, got;
  want.l.verbose = got.l.verbose = g.describing();
  if (buffer) {
    at = g.below(p.bufs.size());
    x = p.bufs[at].sym;
    var y = p.ctx.insert("y");
    if (!fd.syms.empty() && g.chance(1, 2)) {
      auto j = fd.syms.begin();
      std::advance(j, g.below(fd.syms.size()));
      y = var(*j);
      for (auto& i : p.bufs) {
        if (i.sym == y) return g.discard();
      }
      for (auto& i : p.ints) {
        if (i.first == y) return g.discard();
      }
    }
    r = variable::make(y);
    free.insert(y.id);
    if (!defined(p)) return g.discard();
    s = substitute(p.body, x, r);
    bool captures = fd.syms.count(y.id);
    if (g.describing()) g.note() << "substitute " << p.ctx.name(y) << " for " << p.ctx.name(x) << ":\n" << std::tie(s, p.ctx) << "\n";
    run(p, p.body, want);
    if (captures) {
      g.classify("may capture");
      // Where the new name means something else, the old one remains.
      run(p, clone_buffer::make(y, x, s), got);
    } else {
      p.bufs[at].sym = y;
      run(p, s, got);
    }
  } else {
    at = g.below(p.ints.size());
    x = p.ints[at].first;
    // An expression of what is defined outside.
    sg::generator::scope sc;
    for (size_t i = 0; i < p.bufs.size(); ++i) {
      sc.bufs.push_back({p.bufs[i].sym, static_cast<int>(p.bufs[i].d.size()), false, p.bufs[i].elem, static_cast<int>(i)});
    }
    for (size_t i = 0; i < p.ints.size(); ++i) {
      if (i != at) sc.ints.push_back(p.ints[i].first);
    }
    r = gn.any(sc, static_cast<int>(g.range(1, 4)));
    free = ex::free_symbols(r);
    index_t v;
    {
      sg::machine m(p, false);
      v = evaluate(r, m.ctx);
    }
    // A reasonable loop bound.
    if (v < -20 || v > 20) return g.discard();
    p.ints[at].second = v;
    if (!defined(p)) return g.discard();
    s = substitute(p.body, x, r);
    if (g.describing()) {
      g.note() << "substitute " << ex::text(r, p.ctx) << " for " << p.ctx.name(x) << ":\n" << std::tie(s, p.ctx) << "\n";
    }
    run(p, p.body, want);
    if (intersects(free, fd.syms)) {
      g.classify("may capture");
    } else {
      p.ints[at].second = v + g.pick<int64_t>({1, -1, 3});
    }
    run(p, s, got);
  }
  g.classify(buffer, "buffer");
  g.classify(fd.syms.count(x.id), "shadowed");
  g.classify(!s.same_as(p.body), "changed");
  for (auto& i : p.kinds) g.classify(i.first.c_str());
  if (!s.same_as(p.body) && p.nodes > 2 && !want.l.events.empty()) g.nontrivial();
  compare_runs(g, p, want, got, "");
}

// ---------------------------------------------------------------------------------------------------------------------
// Comparing

// Makes a copy of everything but calls, with a change in one place.
class copier : public node_mutator {
public:
  pbt::gen& g;
  std::vector<var> syms;
  int at;  // Counts down to the change.
  std::string changed;

  copier(pbt::gen& g, std::vector<var> syms, int at) : g(g), syms(std::move(syms)), at(at) {}

  bool here(const char* what) {
    if (at-- != 0) return false;
    changed = what;
    return true;
  }
  var sym(var s, const char* what = "symbol") { return here(what) ? g.pick(syms) : s; }
  expr child(const expr& e) {
    if (here("operand")) return g.chance(1, 2) ? expr(g.range(-1, 3)) : expr();
    return mutate(e);
  }
  expr mutate(const expr& e) override { return node_mutator::mutate(e); }
  interval_expr mutate(const interval_expr& i) override { return {child(i.min), child(i.max)}; }
  using node_mutator::mutate;
  std::vector<dim_expr> dims(const std::vector<dim_expr>& d) {
    std::vector<dim_expr> r;
    for (auto& i : d) {
      dim_expr n;
      n.bounds = mutate(i.bounds);
      n.stride = child(i.stride);
      n.fold_factor = child(i.fold_factor);
      r.push_back(n);
    }
    if (!r.empty() && here("dims")) r.pop_back();
    return r;
  }
  std::vector<expr> list(const std::vector<expr>& l) {
    std::vector<expr> r;
    for (auto& i : l) r.push_back(child(i));
    if (!r.empty() && here("list")) r.pop_back();
    return r;
  }

  void visit(const variable* v) override {
    var s = sym(v->sym);
    buffer_field f = v->field;
    int d = v->dim;
    if (f != buffer_field::none && here("field")) {
      f = g.pick<buffer_field>({buffer_field::min, buffer_field::max, buffer_field::stride, buffer_field::fold_factor});
      if (d < 0) d = 0;
    }
    if (f != buffer_field::none && here("dim")) d = static_cast<int>(g.range(0, 2));
    set_result(variable::make(s, f, d));
  }
  void visit(const constant* c) override {
    auto n = new constant();
    n->value = here("constant") ? c->value + g.pick<int64_t>({1, -1, int64_t(1) << 32, std::numeric_limits<int64_t>::min()}) : c->value;
    set_result(expr(n));
  }
  template <typename T>
  void binary(const T* op) {
    expr a = child(op->a), b = child(op->b);
    if (here("swap")) std::swap(a, b);
    if (here("type")) return set_result(other<T>(a, b));
    auto n = new T();
    n->a = a;
    n->b = b;
    set_result(expr(n));
  }
  template <typename T>
  expr other(const expr& a, const expr& b) {
    auto mk = [&](auto* n) {
      n->a = a;
      n->b = b;
      return expr(n);
    };
    switch (g.below(5)) {
    case 0: return mk(new add());
    case 1: return mk(new sub());
    case 2: return mk(new class min());
    case 3: return mk(new less());
    default: return mk(new T());
    }
  }
  void visit(const add* op) override { binary(op); }
  void visit(const sub* op) override { binary(op); }
  void visit(const mul* op) override { binary(op); }
  void visit(const class div* op) override { binary(op); }
  void visit(const mod* op) override { binary(op); }
  void visit(const class min* op) override { binary(op); }
  void visit(const class max* op) override { binary(op); }
  void visit(const equal* op) override { binary(op); }
  void visit(const not_equal* op) override { binary(op); }
  void visit(const less* op) override { binary(op); }
  void visit(const less_equal* op) override { binary(op); }
  void visit(const logical_and* op) override { binary(op); }
  void visit(const logical_or* op) override { binary(op); }
  void visit(const logical_not* op) override { set_result(logical_not::make(child(op->a))); }
  void visit(const class select* op) override {
    expr c = child(op->condition), t = child(op->true_value), f = child(op->false_value);
    if (here("swap")) std::swap(t, f);
    set_result(select::make(c, t, f));
  }
  void visit(const call* op) override {
    if (op->target) return set_result(op);
    auto args = list(op->args);
    intrinsic i = op->intrinsic;
    if (i != intrinsic::buffer_at && here("intrinsic")) i = intrinsic::abs;
    set_result(call::make(i, nullptr, std::move(args)));
  }
  template <typename T>
  std::vector<std::pair<var, expr>> lets(const T* op) {
    std::vector<std::pair<var, expr>> l;
    for (auto& i : op->lets) {
      expr v = child(i.second);
      l.push_back({sym(i.first), v});
    }
    if (l.size() > 1 && here("lets")) l.pop_back();
    return l;
  }
  void visit(const let* op) override {
    auto l = lets(op);
    set_result(let::make(std::move(l), child(op->body)));
  }

  stmt body(const stmt& s) { return here("body") ? stmt() : mutate(s); }
  void visit(const let_stmt* op) override {
    auto l = lets(op);
    bool c = op->is_closure;
    set_result(let_stmt::make(std::move(l), body(op->body), c));
  }
  void visit(const block* op) override {
    auto n = new block();
    for (auto& i : op->stmts) n->stmts.push_back(body(i));
    if (n->stmts.size() > 1 && here("swap")) std::swap(n->stmts.front(), n->stmts.back());
    if (n->stmts.size() > 1 && here("block")) n->stmts.pop_back();
    set_result(stmt(n));
  }
  void visit(const loop* op) override {
    var s = sym(op->sym);
    expr w = child(op->max_workers);
    interval_expr b = mutate(op->bounds);
    expr st = child(op->step);
    set_result(loop::make(s, w, b, st, body(op->body)));
  }
  void visit(const call_stmt* op) override {
    set_result(op);
  }
  void visit(const copy_stmt* op) override { set_result(op); }
  void visit(const async* op) override {
    var s = sym(op->sym);
    stmt t = body(op->task);
    set_result(async::make(s, t, body(op->body)));
  }
  void visit(const allocate* op) override {
    var s = sym(op->sym);
    memory_type m = op->storage;
    if (here("storage")) m = g.pick<memory_type>({memory_type::heap, memory_type::stack, memory_type::automatic});
    expr e = child(op->elem_size);
    auto d = dims(op->dims);
    set_result(allocate::make(s, m, e, d, body(op->body)));
  }
  void visit(const make_buffer* op) override {
    var s = sym(op->sym);
    expr b = child(op->base), e = child(op->elem_size);
    auto d = dims(op->dims);
    set_result(make_buffer::make(s, b, e, d, body(op->body)));
  }
  void visit(const constant_buffer* op) override {
    var s = sym(op->sym);
    const_raw_buffer_ptr v = op->value;
    if (v) {
      // Another buffer with the same contents, or not.
      raw_buffer_ptr c = raw_buffer::make_copy(*v);
      char* p = static_cast<char*>(c->base);
      if (here("contents") && c->size_bytes() > 0) p[g.below(c->size_bytes())] ^= 1 << g.below(8);
      if (c->rank > 0 && here("stride")) c->dims[g.below(c->rank)].set_stride(0);
      v = c;
    }
    set_result(constant_buffer::make(s, v, body(op->body)));
  }
  void visit(const clone_buffer* op) override {
    var s = sym(op->sym), src = sym(op->src, "src");
    set_result(clone_buffer::make(s, src, body(op->body)));
  }
  void visit(const crop_buffer* op) override {
    var s = sym(op->sym), src = sym(op->src, "src");
    box_expr b;
    for (auto& i : op->bounds) b.push_back(mutate(i));
    if (!b.empty() && here("bounds")) b.pop_back();
    set_result(crop_buffer::make(s, src, b, body(op->body)));
  }
  int dim(int d) { return here("dim") ? static_cast<int>(g.range(0, 2)) : d; }
  void visit(const crop_dim* op) override {
    var s = sym(op->sym), src = sym(op->src, "src");
    int d = dim(op->dim);
    interval_expr b = mutate(op->bounds);
    set_result(crop_dim::make(s, src, d, b, body(op->body)));
  }
  void visit(const slice_buffer* op) override {
    var s = sym(op->sym), src = sym(op->src, "src");
    auto l = list(op->at);
    set_result(slice_buffer::make(s, src, l, body(op->body)));
  }
  void visit(const slice_dim* op) override {
    var s = sym(op->sym), src = sym(op->src, "src");
    int d = dim(op->dim);
    expr at = child(op->at);
    set_result(slice_dim::make(s, src, d, at, body(op->body)));
  }
  void visit(const transpose* op) override {
    var s = sym(op->sym), src = sym(op->src, "src");
    std::vector<int> d;
    for (int i : op->dims) d.push_back(dim(i));
    if (!d.empty() && here("rank")) d.pop_back();
    set_result(transpose::make(s, src, d, body(op->body)));
  }
  void visit(const check* op) override { set_result(check::make(child(op->condition))); }
};

// Everything that makes a difference when a node is evaluated, as text.
struct dumper : public recursive_node_visitor {
  std::ostringstream o;
  node_context ctx;

  void e(const expr& x) {
    if (!x.defined()) {
      o << "? ";
      return;
    }
    x.accept(this);
  }
  void i(const interval_expr& x) {
    e(x.min);
    e(x.max);
  }
  void d(const std::vector<dim_expr>& l) {
    o << l.size() << ":";
    for (auto& x : l) {
      i(x.bounds);
      e(x.stride);
      e(x.fold_factor);
    }
  }
  void l(const std::vector<expr>& v) {
    o << v.size() << ":";
    for (auto& x : v) e(x);
  }
  void s(const stmt& x) {
    if (!x.defined()) {
      o << "? ";
      return;
    }
    o << "\n{";
    x.accept(this);
    o << "}";
  }
  void visit(const variable* x) override { o << "v" << x->sym.id << "." << static_cast<int>(x->field) << "." << x->dim << " "; }
  void visit(const constant* x) override { o << x->value << " "; }
  template <typename T>
  void bin(const char* n, const T* x) {
    o << n << "(";
    e(x->a);
    e(x->b);
    o << ")";
  }
  void visit(const add* x) override { bin("+", x); }
  void visit(const sub* x) override { bin("-", x); }
  void visit(const mul* x) override { bin("*", x); }
  void visit(const class div* x) override { bin("/", x); }
  void visit(const mod* x) override { bin("%", x); }
  void visit(const class min* x) override { bin("min", x); }
  void visit(const class max* x) override { bin("max", x); }
  void visit(const equal* x) override { bin("==", x); }
  void visit(const not_equal* x) override { bin("!=", x); }
  void visit(const less* x) override { bin("<", x); }
  void visit(const less_equal* x) override { bin("<=", x); }
  void visit(const logical_and* x) override { bin("&&", x); }
  void visit(const logical_or* x) override { bin("||", x); }
  void visit(const logical_not* x) override {
    o << "!(";
    e(x->a);
    o << ")";
  }
  void visit(const class select* x) override {
    o << "select(";
    e(x->condition);
    e(x->true_value);
    e(x->false_value);
    o << ")";
  }
  void visit(const call* x) override {
    o << "call" << static_cast<int>(x->intrinsic);
    if (x->target) o << "@" << x;
    l(x->args);
  }
  template <typename T>
  void lets(const T* x) {
    for (auto& j : x->lets) {
      o << "let" << j.first.id << "=";
      e(j.second);
    }
  }
  void visit(const let* x) override {
    lets(x);
    o << "in(";
    e(x->body);
    o << ")";
  }
  void visit(const let_stmt* x) override {
    lets(x);
    s(x->body);
  }
  void visit(const block* x) override {
    o << "block" << x->stmts.size();
    for (auto& j : x->stmts) s(j);
  }
  void visit(const loop* x) override {
    o << "loop" << x->sym.id << " ";
    e(x->max_workers);
    i(x->bounds);
    e(x->step);
    s(x->body);
  }
  void visit(const call_stmt* x) override { o << "call_stmt@" << x; }
  void visit(const copy_stmt* x) override { o << "copy_stmt@" << x; }
  void visit(const async* x) override {
    o << "async" << x->sym.id << " ";
    s(x->task);
    s(x->body);
  }
  void visit(const allocate* x) override {
    o << "allocate" << x->sym.id << " " << static_cast<int>(x->storage) << " ";
    e(x->elem_size);
    d(x->dims);
    s(x->body);
  }
  void visit(const make_buffer* x) override {
    o << "make" << x->sym.id << " ";
    e(x->base);
    e(x->elem_size);
    d(x->dims);
    s(x->body);
  }
  void visit(const constant_buffer* x) override {
    o << "constant" << x->sym.id << " ";
    const raw_buffer* b = x->value.get();
    if (b) {
      o << b->elem_size << " ";
      for (size_t j = 0; j < b->rank; ++j) {
        o << b->dims[j].min() << "," << b->dims[j].max() << "," << b->dims[j].stride() << "," << b->dims[j].fold_factor() << " ";
      }
      sg::view v = sg::of(*b);
      v.each([&](char* p, const std::vector<int64_t>&) {
        for (int64_t k = 0; k < v.elem; ++k) o << static_cast<int>(p[k]) << " ";
      });
    }
    s(x->body);
  }
  void visit(const clone_buffer* x) override {
    o << "clone" << x->sym.id << " " << x->src.id;
    s(x->body);
  }
  void visit(const crop_buffer* x) override {
    o << "crop" << x->sym.id << " " << x->src.id << " ";
    for (auto& j : x->bounds) i(j);
    s(x->body);
  }
  void visit(const crop_dim* x) override {
    o << "crop" << x->sym.id << " " << x->src.id << " " << x->dim << " ";
    i(x->bounds);
    s(x->body);
  }
  void visit(const slice_buffer* x) override {
    o << "slice" << x->sym.id << " " << x->src.id << " ";
    l(x->at);
    s(x->body);
  }
  void visit(const slice_dim* x) override {
    o << "slice" << x->sym.id << " " << x->src.id << " " << x->dim << " ";
    e(x->at);
    s(x->body);
  }
  void visit(const transpose* x) override {
    o << "transpose" << x->sym.id << " " << x->src.id << " ";
    for (int j : x->dims) o << j << ",";
    s(x->body);
  }
  void visit(const check* x) override {
    o << "check ";
    e(x->condition);
  }
  using recursive_node_visitor::visit;
};

std::string dump(const expr& x) {
  dumper d;
  d.e(x);
  return d.o.str();
}
std::string dump(const stmt& x) {
  dumper d;
  d.s(x);
  return d.o.str();
}

int sign_of(int x) { return x < 0 ? -1 : x > 0; }

template <typename T>
void check_order(pbt::gen& g, const std::vector<T>& l) {
  size_t n = l.size();
  std::vector<std::string> text;
  for (const T& i : l) text.push_back(dump(i));
  auto show = [&](size_t i) { return g.describing() ? text[i] + "\n" : std::string(); };
  std::vector<std::vector<int>> c(n, std::vector<int>(n));
  int equal = 0;
  for (size_t i = 0; i < n; ++i) {
    for (size_t j = 0; j < n; ++j) {
      c[i][j] = sign_of(compare(l[i], l[j]));
      bool m = match(l[i], l[j]);
      PBT_CHECK(g, m == (c[i][j] == 0), "compare is " << c[i][j] << ", match is " << m << "\n" << show(i) << show(j));
      PBT_CHECK(g, node_less()(l[i], l[j]) == (c[i][j] < 0), "node_less is not compare");
      if (m) {
        PBT_CHECK(g, text[i] == text[j], "different nodes match\n" << show(i) << show(j));
        equal += i != j;
      }
    }
  }
  for (size_t i = 0; i < n; ++i) {
    PBT_CHECK(g, c[i][i] == 0, "not reflexive\n" << show(i));
    for (size_t j = 0; j < n; ++j) {
      PBT_CHECK(g, c[i][j] == -c[j][i], "not antisymmetric\n" << show(i) << show(j));
      for (size_t k = 0; k < n; ++k) {
        if (c[i][j] <= 0 && c[j][k] <= 0) {
          int want = c[i][j] < 0 || c[j][k] < 0 ? -1 : 0;
          PBT_CHECK(g, c[i][k] == want, "not transitive\n" << show(i) << show(j) << show(k));
        }
      }
    }
  }
  g.count("pairs", n * n);
  if (equal && equal < static_cast<int>(n * (n - 1))) g.nontrivial();
}

template <typename T>
std::vector<T> copies(pbt::gen& g, const T& x, const std::vector<var>& syms) {
  copier plain(g, syms, -1);
  std::vector<T> l;
  if (x.defined()) {
    l.push_back(plain.mutate(x));
    plain.at = -1;
    l.push_back(plain.mutate(l[0]));
    PBT_CHECK(g, match(l[0], l[1]), "a copy does not match" << (g.describing() ? "\n" + dump(l[0]) + "\n" + dump(l[1]) : std::string()));
    int places = -1 - plain.at;
    int n = static_cast<int>(g.range(2, 5));
    for (int i = 0; i < n && places > 0; ++i) {
      copier c(g, syms, static_cast<int>(g.below(places)));
      // Perhaps of what was already changed.
      l.push_back(c.mutate(g.chance(2, 3) ? l[0] : l.back()));
      if (!c.changed.empty()) g.classify(c.changed.c_str());
    }
  }
  l.push_back(T());
  return l;
}

void order_expr(pbt::gen& g) {
  node_context ctx;
  ex::options o = small_options();
  o.calls = true;
  ex::expr_gen eg(g, ctx, o);
  expr e = gen_expr(g, eg);
  std::vector<var> syms = eg.vars;
  syms.insert(syms.end(), eg.bufs.begin(), eg.bufs.end());
  auto l = copies(g, e, syms);
  if (g.chance(1, 3)) l.push_back(eg.any(2));
  if (g.describing()) g.note() << ex::text(e, ctx) << "\n";
  check_order(g, l);
  // As keys.
  std::set<expr, node_less> keys(l.begin(), l.end());
  for (auto& i : l) PBT_CHECK(g, keys.count(i) == 1, "a key is not found");
  // Intervals and boxes.
  interval_expr a{g.pick(l), g.pick(l)}, b{g.pick(l), g.pick(l)};
  bool same = match(a.min, b.min) && match(a.max, b.max);
  PBT_CHECK(g, match(a, b) == same, "intervals match is not that bounds match");
  PBT_CHECK(g, match(box_expr{a, b}, box_expr{a, b}), "a box does not match itself");
  PBT_CHECK(g, match(box_expr{a, b}, box_expr{b, a}) == same, "boxes match is not that intervals match");
  PBT_CHECK(g, !match(box_expr{a, b}, box_expr{a}), "boxes of different ranks match");
  dim_expr da{a, g.pick(l), g.pick(l)}, db{b, g.pick(l), g.pick(l)};
  PBT_CHECK(g, match(da, db) == (same && match(da.stride, db.stride) && match(da.fold_factor, db.fold_factor)),
      "dims match is not that their fields match");
}

void order_stmt(pbt::gen& g) {
  sg::program p;
  sg::options o;
  o.shadow = g.chance(1, 2);
  sg::generator gn(g, p, o);
  gn.run();
  if (!p.body.defined()) return g.discard();
  std::vector<var> syms = gn.names;
  if (g.describing()) g.note() << describe(p) << "\n";
  for (auto& i : p.kinds) g.classify(i.first.c_str());
  auto l = copies(g, p.body, syms);
  check_order(g, l);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C08";
  c.rule =
      "substitution: the symbol is used, and for expressions something is declared, for statements calls are made and "
      "the result is not the original; comparison: some of the nodes compared are equal and some are not";
  c.assumptions = {
      "where the declaration of a symbol that the replacement uses would capture it, the replacement does not happen: "
      "the results are compared with the symbol still bound to the value",
      "symbols of buffers are replaced with symbols, as there is nothing else that can be the source of a buffer",
      "nodes that call functions can only be compared by identity, so copies share them",
  };
  c.targets = {
      {"expr", substitute_expr, 120000, 6000000},
      {"metadata", substitute_metadata, 120000, 6000000},
      {"stmt", substitute_stmt, 120000, 3000000},
      {"order_expr", order_expr, 60000, 3000000},
      {"order_stmt", order_stmt, 60000, 2000000},
  };
  return pbt::run(argc, argv, c);
}
