// C06: reported bounds contain the value, and what is proven is true.
#include "exprs.h"

using namespace slinky;
using namespace ex;
using pbt::gen;

namespace {

// True if x is known not to be below lo / above hi. Undefined bounds are unbounded.
// An indeterminate bound (0 times an infinite one) says nothing.
bool at_least(const value& x, const value& lo) {
  return lo.kind == value::unknown || lo.kind == value::indeterminate || evaluator::cmp(x, lo) >= 0;
}
bool at_most(const value& x, const value& hi) {
  return hi.kind == value::unknown || hi.kind == value::indeterminate || evaluator::cmp(x, hi) <= 0;
}

struct setup {
  node_context ctx;
  expr_gen eg;
  facts f;
  setup(gen& g, const options& o) : eg(g, ctx, o) {}
};

options random_options(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  o.bufs = g.chance(1, 5) ? 1 : 0;
  return o;
}

expr random_expr(gen& g, expr_gen& eg) {
  return g.chance(1, 2) ? eg.instantiate(g.pick(patterns())) : eg.any(static_cast<int>(g.range(2, 10)));
}

void check_contained(gen& g, setup& s, const expr& e, const interval_expr& b, const char* what) {
  int checked = 0;
  bool tight = false;
  for (int i = 0; i < 12; ++i) {
    env v;
    if (!s.f.assign(s.eg, v)) continue;
    value x = eval(e, v);
    if (!x.is_finite()) continue;
    value lo = b.min.defined() ? eval(b.min, v, wide_lim) : value::bad();
    value hi = b.max.defined() ? eval(b.max, v, wide_lim) : value::bad();
    ++checked;
    tight = tight || lo.is_finite() || hi.is_finite();
    PBT_CHECK(g, at_least(x, lo) && at_most(x, hi),
        what << " of\n  " << text(e, s.ctx) << "\nare\n  " << text(b, s.ctx) << "\n"
             << text(s.f, s.eg) << "but with " << text(v, s.ctx) << "\nthe value is " << x.str() << " and the bounds are ["
             << lo.str() << ", " << hi.str() << "]");
  }
  g.count("assignments compared", checked);
  if (checked && tight) g.nontrivial();
  if (g.describing()) g.note() << text(e, s.ctx) << " in " << text(b, s.ctx) << "\n" << text(s.f, s.eg);
}

void t_bounds(gen& g) {
  setup s(g, random_options(g));
  if (g.chance(4, 5)) s.f.generate(s.eg, g.chance(1, 2), 70);
  expr e = random_expr(g, s.eg);
  if (g.describing()) g.note() << "bounds of " << text(e, s.ctx) << "\n" << text(s.f, s.eg);
  interval_expr b = bounds_of(e, s.f.bounds, s.f.alignment);
  check_contained(g, s, e, b, "the bounds");
}

void t_interval_bounds(gen& g) {
  setup s(g, random_options(g));
  if (g.chance(4, 5)) s.f.generate(s.eg, g.chance(1, 2), 70);
  interval_expr e;
  e.min = random_expr(g, s.eg);
  e.max = g.chance(1, 3) ? e.min : g.chance(1, 2) ? e.min + g.range(0, 10) : random_expr(g, s.eg);
  if (g.describing()) g.note() << "bounds of " << text(e, s.ctx) << "\n" << text(s.f, s.eg);
  interval_expr b = bounds_of(e, s.f.bounds, s.f.alignment);
  int checked = 0;
  for (int i = 0; i < 12; ++i) {
    env v;
    if (!s.f.assign(s.eg, v)) continue;
    value lo = eval(e.min, v), hi = eval(e.max, v);
    if (!lo.is_finite() || !hi.is_finite() || lo.v > hi.v) continue;
    ++checked;
    value blo = b.min.defined() ? eval(b.min, v, wide_lim) : value::bad();
    value bhi = b.max.defined() ? eval(b.max, v, wide_lim) : value::bad();
    PBT_CHECK(g, at_least(lo, blo) && at_most(hi, bhi),
        "the bounds of the interval\n  " << text(e, s.ctx) << "\nare\n  " << text(b, s.ctx) << "\n"
                                         << text(s.f, s.eg) << "but with " << text(v, s.ctx) << "\nthe interval is ["
                                         << lo.str() << ", " << hi.str() << "], the bounds [" << blo.str() << ", " << bhi.str() << "]");
  }
  g.count("assignments compared", checked);
  if (checked) g.nontrivial();
}

void t_fixed(gen& g) {
  setup s(g, options());
  expr e = parse_expr(s.ctx, once_wrong[g.below(std::size(once_wrong))]);
  if (g.describing()) g.note() << "bounds of " << text(e, s.ctx) << "\n";
  check_contained(g, s, e, bounds_of(e), "the bounds");
}

void t_constant_bounds(gen& g) {
  options o = random_options(g);
  o.raw = false;
  setup s(g, o);
  expr e = random_expr(g, s.eg);
  if (g.chance(1, 2)) {
    // Most expressions of unbounded variables have no constant bounds.
    expr c = s.eg.constant_value();
    switch (g.below(5)) {
    case 0: e = clamp(e, s.eg.constant_value(), s.eg.constant_value()); break;
    case 1: e = min(e, c) + s.eg.constant_value(); break;
    case 2: e = c - max(e, s.eg.constant_value()); break;
    case 3: e = (e % c) * s.eg.constant_value(); break;
    default: e = max(e, c) / s.eg.constant_value() - min(random_expr(g, s.eg), s.eg.constant_value()); break;
    }
  }
  if (g.chance(1, 2)) e = simplify(e);
  if (g.describing()) g.note() << "constant bounds of " << text(e, s.ctx) << "\n";
  expr lo = constant_lower_bound(e), hi = constant_upper_bound(e);
  std::optional<index_t> c = evaluate_constant(e), clo = evaluate_constant_lower_bound(e), chi = evaluate_constant_upper_bound(e);
  int checked = 0;
  for (int i = 0; i < 12; ++i) {
    env v;
    if (!s.f.assign(s.eg, v)) continue;
    value x = eval(e, v);
    if (!x.is_finite()) continue;
    ++checked;
    value l = lo.defined() ? eval(lo, v, wide_lim) : value::bad(), h = hi.defined() ? eval(hi, v, wide_lim) : value::bad();
    bool ok = at_least(x, l) && at_most(x, h) && (!c || *c == x.v) && (!clo || *clo <= x.v) && (!chi || *chi >= x.v);
    auto opt = [](const std::optional<index_t>& i) { return i ? std::to_string(*i) : std::string("none"); };
    PBT_CHECK(g, ok, "of the expression\n  " << text(e, s.ctx) << "\nthe constant lower bound is " << text(lo, s.ctx) << " (" << l.str()
                                             << "), the constant upper bound is " << text(hi, s.ctx) << " (" << h.str()
                                             << "), evaluate_constant is " << opt(c) << ", evaluate_constant_lower_bound is "
                                             << opt(clo) << ", evaluate_constant_upper_bound is " << opt(chi) << ", but with "
                                             << text(v, s.ctx) << " the value is " << x.str());
  }
  g.count("assignments compared", checked);
  if (checked && (c || clo || chi)) g.nontrivial();
  g.classify(!!c, "constant");
  g.classify(!!clo, "constant lower bound");
  g.classify(!!chi, "constant upper bound");
}

void t_prove(gen& g) {
  setup s(g, random_options(g));
  if (g.chance(4, 5)) s.f.generate(s.eg, g.chance(1, 2), 75);
  expr e = g.chance(1, 3) ? s.eg.instantiate(g.pick(patterns())) : s.eg.condition(static_cast<int>(g.range(2, 9)));
  if (g.chance(1, 3)) {
    // Conditions that are likely to be decidable.
    expr x = s.eg.any(static_cast<int>(g.range(1, 4)));
    expr c = s.eg.constant_value();
    switch (g.below(5)) {
    case 0: e = x <= x + c; break;
    case 1: e = min(x, c) < s.eg.constant_value(); break;
    case 2: e = x % c < s.eg.constant_value(); break;
    case 3: e = align_down(x, c) <= x + s.eg.constant_value(); break;
    default: e = x + s.eg.any(2) < s.eg.any(2) + x; break;
    }
  }
  if (g.describing()) g.note() << "prove " << text(e, s.ctx) << "\n" << text(s.f, s.eg);
  std::optional<bool> p = attempt_to_prove(e, s.f.bounds, s.f.alignment);
  bool t = prove_true(e, s.f.bounds, s.f.alignment);
  bool f = prove_false(e, s.f.bounds, s.f.alignment);
  int checked = 0;
  for (int i = 0; i < 12; ++i) {
    env v;
    if (!s.f.assign(s.eg, v)) continue;
    value x = eval(e, v);
    if (!x.is_finite()) continue;
    ++checked;
    bool is = x.v != 0;
    PBT_CHECK(g, (!p || *p == is) && (!t || is) && (!f || !is),
        "attempt_to_prove is " << (p ? *p ? "true" : "false" : "undecided") << ", prove_true is " << t << ", prove_false is " << f
                               << " for\n  " << text(e, s.ctx) << "\n"
                               << text(s.f, s.eg) << "but with " << text(v, s.ctx) << " the value is " << x.str());
  }
  g.count("assignments compared", checked);
  if (checked && (p || t || f)) g.nontrivial();
  g.classify(p && *p, "proven true");
  g.classify(p && !*p, "proven false");
}

// The bounds of one operation from intervals of its operands.
void t_operation_bounds(gen& g) {
  options o;
  o.vars = 3;
  setup s(g, o);
  const int op = static_cast<int>(g.below(16));
  bool boolean = op == 11 || op == 12 || op == 13;
  auto operand = [&](bool boolean) {
    if (boolean) {
      switch (g.below(4)) {
      case 0: return point(expr(g.range(0, 1)));
      case 1: return interval_expr(0, 1);
      case 2: return point(s.eg.any_variable() < s.eg.any_variable());
      default: return interval_expr(0, s.eg.any_variable() < s.eg.any_variable());
      }
    }
    auto bound = [&]() {
      switch (g.below(4)) {
      case 0: return expr(g.range(-6, 6));
      case 1: return s.eg.any_variable();
      case 2: return s.eg.any_variable() + s.eg.constant_value();
      default: return expr(s.eg.constant_value());
      }
    };
    switch (g.weighted({2, 4, 1, 1})) {
    case 0: return point(bound());
    case 1: return interval_expr(bound(), bound());
    case 2: return interval_expr(slinky::negative_infinity(), bound());
    default: return interval_expr(bound(), slinky::positive_infinity());
    }
  };
  interval_expr a = operand(boolean || op == 14), b = operand(boolean), c = operand(false);
  if (g.describing()) g.note() << "bounds of operation " << op << " on " << text(a, s.ctx) << ", " << text(b, s.ctx) << ", " << text(c, s.ctx);
  interval_expr r;
  expr x = variable::make(s.ctx.insert("x")), y = variable::make(s.ctx.insert("y")), z = variable::make(s.ctx.insert("z"));
  expr e;
  switch (op) {
#define CASE(n, T)                                                                                                     \
  case n:                                                                                                              \
    e = T::make(x, y);                                                                                                 \
    r = bounds_of(static_cast<const T*>(nullptr), a, b);                                                               \
    break;
    CASE(0, add)
    CASE(1, sub)
    CASE(2, mul)
    CASE(3, slinky::div)
    CASE(4, mod)
    CASE(5, min_node)
    CASE(6, max_node)
    CASE(7, less)
    CASE(8, less_equal)
    CASE(9, equal)
    CASE(10, not_equal)
    CASE(11, logical_and)
    CASE(12, logical_or)
#undef CASE
  case 13:
    e = logical_not::make(x);
    r = bounds_of(static_cast<const logical_not*>(nullptr), a);
    break;
  case 14:
    e = select::make(x, y, z);
    r = bounds_of(static_cast<const class select*>(nullptr), a, b, c);
    break;
  default:
    e = abs(x);
    r = bounds_of(e.as<call>(), {a});
    break;
  }
  auto choose = [&](const interval_expr& i, env& v, i128& out) {
    value lo = eval(i.min, v), hi = eval(i.max, v);
    if (lo.kind == value::unknown || hi.kind == value::unknown) return false;
    if (lo.kind == value::infinite) lo = value::num(hi.is_finite() ? hi.v - 40 : -40);
    if (hi.kind == value::infinite) hi = value::num(lo.v + 40);
    if (lo.v > hi.v) return false;
    switch (g.below(4)) {
    case 0: out = lo.v; break;
    case 1: out = hi.v; break;
    default: {
      i128 n = hi.v - lo.v + 1;
      out = n <= 60 ? lo.v + static_cast<i128>(g.below(static_cast<uint64_t>(n))) : g.chance(1, 2) ? lo.v + static_cast<i128>(g.below(20)) : hi.v - static_cast<i128>(g.below(20));
      if (lo.v <= 0 && hi.v >= 0 && g.chance(1, 3)) out = 0;
    }
    }
    return true;
  };
  int checked = 0;
  for (int i = 0; i < 16; ++i) {
    env v;
    if (!s.f.assign(s.eg, v)) continue;
    i128 xv, yv, zv;
    if (!choose(a, v, xv) || !choose(b, v, yv) || !choose(c, v, zv)) continue;
    value lo = r.min.defined() ? eval(r.min, v, wide_lim) : value::bad();
    value hi = r.max.defined() ? eval(r.max, v, wide_lim) : value::bad();
    v.vars[as_variable(x)->id] = xv;
    v.vars[as_variable(y)->id] = yv;
    v.vars[as_variable(z)->id] = zv;
    value val = eval(e, v);
    if (!val.is_finite()) continue;
    ++checked;
    PBT_CHECK(g, at_least(val, lo) && at_most(val, hi),
        "the bounds of " << text(e, s.ctx) << " for x in " << text(a, s.ctx) << ", y in " << text(b, s.ctx) << ", z in "
                         << text(c, s.ctx) << " are\n  " << text(r, s.ctx) << "\nbut with " << text(v, s.ctx)
                         << " the value is " << val.str() << " and the bounds are [" << lo.str() << ", " << hi.str() << "]");
  }
  g.count("assignments compared", checked);
  if (checked) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C06";
  c.rule =
      "at least one assignment was compared, and a finite bound was reported (bounds, constant bounds) or something was "
      "proven (prove)";
  c.assumptions = {
      "no shadowed lets (the builder removes them before simplifying)",
      "the expression has no subexpression outside 64 bits",
      "values agree with the bounds and alignments given",
  };
  c.targets = {
      {"fixed", t_fixed, 1000, 10000},
      {"bounds", t_bounds, 200000, 20000000},
      {"prove", t_prove, 200000, 20000000},
      {"constant_bounds", t_constant_bounds, 200000, 20000000},
      {"interval_bounds", t_interval_bounds, 80000, 5000000},
      {"operation_bounds", t_operation_bounds, 150000, 10000000},
  };
  c.hang_seconds = 30;
  c.attributions = {{"learns from a < max and min < a", [] { slinky::verif_skip_learn_min_max = true; }}};
  return pbt::run(argc, argv, c);
}
