// C05: simplified expressions have the value of the original.
#include "exprs.h"

using namespace slinky;
using namespace ex;
using pbt::gen;

namespace {

// Checks that `result` has the values of `e` for values of variables that agree with the facts.
void check_same(gen& g, expr_gen& eg, facts& f, const expr& e, const expr& result, const char* what) {
  if (!result.defined()) g.fail(std::string(what) + " gave an undefined expression for " + text(e, eg.ctx));

  std::set<size_t> allowed = free_symbols(e), used = free_symbols(result);
  bool grew = true;
  while (grew) {
    // The symbols in the bounds of a symbol may be used too.
    grew = false;
    for (size_t i = 0; i < f.var_bounds.size(); ++i) {
      if (!f.var_bounds[i] || !allowed.count(eg.vars[i].id)) continue;
      for (const expr& b : {f.var_bounds[i]->min, f.var_bounds[i]->max}) {
        for (size_t s : free_symbols(b)) grew = allowed.insert(s).second || grew;
      }
    }
    // Bounds may also be learnt the other way around: x <= y is an upper bound of x and a lower bound of y.
    for (size_t i = 0; i < f.var_bounds.size(); ++i) {
      if (!f.var_bounds[i] || allowed.count(eg.vars[i].id)) continue;
      for (const expr& b : {f.var_bounds[i]->min, f.var_bounds[i]->max}) {
        for (size_t s : free_symbols(b)) {
          if (allowed.count(s)) grew = allowed.insert(eg.vars[i].id).second || grew;
        }
      }
    }
  }
  for (size_t i : used) {
    PBT_CHECK(g, allowed.count(i), what << " uses " << eg.ctx.name(var(i)) << ", which the expression does not:\n  "
                                        << text(e, eg.ctx) << "\n  ->\n  " << text(result, eg.ctx) << "\n"
                                        << text(f, eg));
  }

  bool changed = !slinky::match(e, result);
  int checked = 0;
  for (int i = 0; i < 12; ++i) {
    env v;
    if (!f.assign(eg, v)) continue;
    value expected = eval(e, v);
    if (!expected.is_finite()) continue;
    value actual = eval(result, v, wide_lim);
    if (actual.kind == value::unknown) {
      // Only a value too big for exact arithmetic.
      g.count("result not evaluated");
      continue;
    }
    ++checked;
    PBT_CHECK(g, actual.is_finite() && actual.v == expected.v,
        what << " changed the value from " << expected.str() << " to " << actual.str() << ":\n  " << text(e, eg.ctx)
             << "\n  ->\n  " << text(result, eg.ctx) << "\n"
             << text(f, eg) << "  with " << text(v, eg.ctx));
  }
  g.count("assignments compared", checked);
  if (checked && changed) g.nontrivial();
  g.classify(changed, "changed");
  g.classify(as_constant(result) && !as_constant(e), "became a constant");
  if (g.describing()) g.note() << text(e, eg.ctx) << "\n  ->\n  " << text(result, eg.ctx) << "\n" << text(f, eg);
}

expr top(gen& g, expr_gen& eg, bool pattern) {
  expr e;
  if (pattern) {
    e = eg.instantiate(g.pick(patterns()));
    if (g.chance(1, 4)) {
      // Inside something that may also be rewritten.
      expr o = eg.any(static_cast<int>(g.range(1, 3)));
      switch (g.below(6)) {
      case 0: e = e + o; break;
      case 1: e = min(e, o); break;
      case 2: e = max(e, o); break;
      case 3: e = e < o; break;
      case 4: e = select(e, o, eg.any(2)); break;
      default: e = o - e; break;
      }
    }
  } else {
    e = eg.any(static_cast<int>(g.range(2, 14)));
  }
  return e;
}

// Only when describing: what is being simplified, in case the library does not return.
void describe_input(gen& g, expr_gen& eg, const facts& f, const expr& e) {
  if (g.describing()) g.note() << "simplify " << text(e, eg.ctx) << "\n" << text(f, eg);
}

void run_simplify(gen& g, const options& opt, bool pattern, bool with_facts, bool symbolic) {
  node_context ctx;
  expr_gen eg(g, ctx, opt);
  facts f;
  if (with_facts) f.generate(eg, symbolic, 60);
  expr e = top(g, eg, pattern);
  describe_input(g, eg, f, e);
  check_same(g, eg, f, e, simplify(e, f.bounds, f.alignment), "simplify");
}

void t_fixed(gen& g) {
  options o;
  node_context ctx;
  expr_gen eg(g, ctx, o);
  facts f;
  expr e = parse_expr(ctx, once_wrong[g.below(std::size(once_wrong))]);
  describe_input(g, eg, f, e);
  check_same(g, eg, f, e, simplify(e), "simplify");
}
void t_pattern(gen& g) {
  options o;
  run_simplify(g, o, true, false, false);
}
void t_random(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  run_simplify(g, o, false, false, false);
}
void t_facts(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  bool symbolic = g.chance(1, 2);
  run_simplify(g, o, g.chance(1, 2), true, symbolic);
}
void t_buffers(gen& g) {
  options o;
  o.vars = 2;
  o.bufs = static_cast<int>(g.range(1, 2));
  bool facts = g.chance(1, 3);
  run_simplify(g, o, g.chance(1, 2), facts, false);
}
// Infinities, where the builder makes them: as an operand of an expression that has no other infinity.
void t_infinity(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 3));
  node_context ctx;
  expr_gen eg(g, ctx, o);
  facts f;
  if (g.chance(1, 3)) f.generate(eg, g.chance(1, 3), 40);
  auto finite = [&] { return eg.any(static_cast<int>(g.range(1, 6))); };
  expr inf = g.chance(1, 2) ? slinky::positive_infinity() : slinky::negative_infinity();
  auto op = [&](expr a, expr b, bool arithmetic) -> expr {
    switch (g.below(arithmetic ? 12 : 8)) {
    case 0: return min(a, b);
    case 1: return max(a, b);
    case 2: return a < b;
    case 3: return b < a;
    case 4: return a <= b;
    case 5: return b <= a;
    case 6: return a == b;
    case 7: return a != b;
    case 8: return a + b;
    case 9: return a - b;
    case 10: return b - a;
    default: {
      index_t k = g.range(1, 6);
      return g.chance(1, 2) ? b * k : b * -k;
    }
    }
  };
  expr e = op(finite(), inf, true);
  if (g.chance(1, 2)) e = op(finite(), e, false);
  if (g.chance(1, 3)) e = select(eg.condition(3), e, finite());
  if (g.chance(1, 3)) e = op(finite(), e, false);
  describe_input(g, eg, f, e);
  check_same(g, eg, f, e, simplify(e, f.bounds, f.alignment), "simplify");
}

// The context an expression is in (select conditions, &&, ||) tells about the values of its variables.
void t_conditions(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 3));
  o.bufs = g.chance(1, 4) ? 1 : 0;
  node_context ctx;
  expr_gen eg(g, ctx, o);
  facts f;
  if (g.chance(1, 3)) f.generate(eg, g.chance(1, 3), 40);
  expr c = eg.condition(static_cast<int>(g.range(2, 7)));
  std::set<size_t> free = free_symbols(c);
  visit_all(c, [&](expr_ref x) {
    if (x.type() == expr_node_type::constant || eg.pool.size() >= 16) return;
    // What is in the body of a let must stay there.
    for (size_t s : free_symbols(expr(x))) {
      if (!free.count(s)) return;
    }
    eg.pool.push_back(expr(x));
  });
  expr t = g.chance(1, 2) ? eg.any(static_cast<int>(g.range(1, 5))) : eg.condition(static_cast<int>(g.range(2, 5)));
  expr e;
  switch (g.below(6)) {
  case 0: e = select(c, t, eg.any(static_cast<int>(g.range(1, 4)))); break;
  case 1: e = select(c, eg.any(static_cast<int>(g.range(1, 4))), t); break;
  case 2: e = c && t; break;
  case 3: e = c || t; break;
  case 4: e = and_then(c, t); break;
  default: e = or_else(c, t); break;
  }
  describe_input(g, eg, f, e);
  check_same(g, eg, f, e, simplify(e, f.bounds, f.alignment), "simplify");
}

// Simplifying an operation on operands that are not simplified.
void t_operations(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  node_context ctx;
  expr_gen eg(g, ctx, o);
  facts f;
  expr a = eg.any(static_cast<int>(g.range(1, 5))), b = eg.any(static_cast<int>(g.range(1, 5)));
  if (g.chance(1, 2)) {
    expr p = eg.instantiate(g.pick(patterns()));
    if (p.type() != expr_node_type::constant && p.type() != expr_node_type::variable && p.type() != expr_node_type::let &&
        p.type() != expr_node_type::logical_not && p.type() != expr_node_type::select && p.type() != expr_node_type::call) {
      a = static_cast<const binary_op*>(p.get())->a;
      b = static_cast<const binary_op*>(p.get())->b;
    }
  }
  expr e, r;
  const int op = static_cast<int>(g.below(16));
  switch (op) {
#define CASE(n, T)                                                                                                     \
  case n:                                                                                                              \
    e = T::make(a, b);                                                                                                 \
    describe_input(g, eg, f, e);                                                                                       \
    r = simplify(g.chance(1, 2) ? e.as<T>() : static_cast<const T*>(nullptr), a, b);                                   \
    break;
    CASE(0, add)
    CASE(1, sub)
    CASE(2, mul)
    CASE(3, slinky::div)
    CASE(4, mod)
    CASE(5, min_node)
    CASE(6, max_node)
    CASE(7, less)
    CASE(8, less_equal)
    CASE(9, equal)
    CASE(10, not_equal)
    CASE(11, logical_and)
    CASE(12, logical_or)
#undef CASE
  case 13:
    e = logical_not::make(a);
    describe_input(g, eg, f, e);
    r = simplify(static_cast<const logical_not*>(nullptr), a);
    break;
  case 14: {
    expr c = eg.condition(static_cast<int>(g.range(1, 4)));
    e = select::make(c, a, b);
    describe_input(g, eg, f, e);
    r = simplify(static_cast<const class select*>(nullptr), c, a, b);
    break;
  }
  default: {
    intrinsic fn = g.pick({intrinsic::abs, intrinsic::and_then, intrinsic::or_else});
    std::vector<expr> args = {a};
    if (fn != intrinsic::abs) args.push_back(b);
    e = call::make(fn, args);
    describe_input(g, eg, f, e);
    r = simplify(static_cast<const call*>(nullptr), fn, args);
    break;
  }
  }
  check_same(g, eg, f, e, r, "simplify of an operation");
}

void t_intervals(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  node_context ctx;
  expr_gen eg(g, ctx, o);
  facts f;
  if (g.chance(1, 2)) f.generate(eg, g.chance(1, 2), 50);
  interval_expr e;
  e.min = top(g, eg, g.chance(1, 2));
  e.max = g.chance(1, 4) ? e.min : top(g, eg, g.chance(1, 2));
  if (g.chance(1, 8)) e.min = expr();
  if (g.chance(1, 8)) e.max = expr();
  if (g.describing()) g.note() << "simplify " << text(e, ctx) << "\n" << text(f, eg);
  interval_expr r = simplify(e, f.bounds, f.alignment);
  if (e.min.defined()) check_same(g, eg, f, e.min, r.min, "simplify of the min of an interval");
  if (e.max.defined()) check_same(g, eg, f, e.max, r.max, "simplify of the max of an interval");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C05";
  c.rule = "simplification changed the expression and at least one assignment of its variables was compared";
  c.assumptions = {
      "no shadowed lets (the builder removes them before simplifying)",
      "the original has no subexpression outside 64 bits",
      "values agree with the bounds and alignments given",
  };
  c.targets = {
      {"fixed", t_fixed, 1000, 10000},
      {"pattern", t_pattern, 200000, 20000000},
      {"random", t_random, 200000, 20000000},
      {"facts", t_facts, 200000, 20000000},
      {"conditions", t_conditions, 200000, 20000000},
      {"buffers", t_buffers, 100000, 10000000},
      {"operations", t_operations, 200000, 20000000},
      {"intervals", t_intervals, 100000, 5000000},
      {"infinity", t_infinity, 100000, 5000000},
  };
  c.hang_seconds = 30;
  c.attributions = {{"learns from a < max and min < a", [] { slinky::verif_skip_learn_min_max = true; }}};
  return pbt::run(argc, argv, c);
}
