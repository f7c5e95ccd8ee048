// C22: interval and box algebra is sound.
#include "exprs.h"

using namespace slinky;
using namespace ex;
using pbt::gen;

namespace {

struct setup {
  node_context ctx;
  expr_gen eg;
  gen& g;
  setup(gen& g, const options& o) : eg(g, ctx, o), g(g) {}

  expr endpoint() {
    switch (g.weighted({4, 3, 2})) {
    case 0: return expr(g.range(-9, 9));
    case 1: return eg.any_variable();
    default: return eg.any(static_cast<int>(g.range(2, 4)));
    }
  }
  // Intervals that may be unbounded in two ways, points in two ways, and empty.
  interval_expr interval(bool unbounded = true) {
    interval_expr r;
    switch (g.weighted({8, 2, unbounded ? 3 : 0, unbounded ? 1 : 0, 2})) {
    case 0: r = bounds(endpoint(), endpoint()); break;
    case 1: r = point(endpoint()); break;
    case 2: r = bounds(endpoint(), endpoint()); break;
    case 3: return g.pick<interval_expr>({interval_expr::all(), interval_expr::none(), interval_expr(),
        interval_expr::union_identity(), interval_expr::intersection_identity()});
    default: {
      expr m = endpoint();
      return bounds(m, m + g.range(-1, 6));
    }
    }
    if (unbounded && g.chance(1, 3)) r.min = g.chance(1, 2) ? expr() : negative_infinity();
    if (unbounded && g.chance(1, 3)) r.max = g.chance(1, 2) ? expr() : positive_infinity();
    return r;
  }
  env assign() {
    env e;
    for (var v : eg.vars) e.vars[v.id] = g.chance(1, 10) ? g.range(-200, 200) : g.range(-9, 9);
    return e;
  }
};

// The interval in an environment. If `known` is false, an endpoint has no value.
struct concrete {
  bool known = true, has_lo = false, has_hi = false, none = false;
  i128 lo = 0, hi = 0;

  concrete(const interval_expr& x, env& e) {
    if (x.min.defined()) {
      value v = eval(x.min, e, wide_lim);
      if (v.is_finite()) {
        has_lo = true;
        lo = v.v;
      } else if (v.kind == value::infinite) {
        none = none || v.v > 0;
      } else {
        known = false;
      }
    }
    if (x.max.defined()) {
      value v = eval(x.max, e, wide_lim);
      if (v.is_finite()) {
        has_hi = true;
        hi = v.v;
      } else if (v.kind == value::infinite) {
        none = none || v.v < 0;
      } else {
        known = false;
      }
    }
    none = none || (has_lo && has_hi && lo > hi);
  }
  bool contains(i128 v) const { return !none && (!has_lo || lo <= v) && (!has_hi || v <= hi); }
  // Points of the interval: all of a small one, otherwise what is near the ends.
  std::vector<i128> points() const {
    std::vector<i128> r;
    if (none) return r;
    if (has_lo && has_hi && hi - lo < 40) {
      for (i128 i = lo; i <= hi; ++i) r.push_back(i);
      return r;
    }
    i128 a = has_lo ? lo : has_hi ? hi - 30 : -15, b = has_hi ? hi : has_lo ? lo + 30 : 15;
    for (int i = 0; i < 6; ++i) {
      r.push_back(a + i);
      r.push_back(b - i);
    }
    r.push_back(a + (b - a) / 2);
    if (!has_lo) r.push_back(a - 100000);
    if (!has_hi) r.push_back(b + 100000);
    return r;
  }
  std::string str() const {
    return none ? "{}" : "[" + (has_lo ? ex::str(lo) : "-oo") + "," + (has_hi ? ex::str(hi) : "oo") + "]";
  }
};

i128 apply(int op, i128 x, i128 s) {
  switch (op) {
  case 0: return x + s;
  case 1: return x - s;
  case 2: return x * s;
  case 3: return fdiv(x, s);
  case 4: return s - x;
  default: return -x;
  }
}
const char* const op_names[] = {"+", "-", "*", "/", "rsub", "neg"};

interval_expr apply(gen& g, int op, const interval_expr& a, const expr& s) {
  const bool assign = g.chance(1, 3);
  interval_expr r = a;
  switch (op) {
  case 0:
    if (assign) return r += s;
    return g.chance(1, 2) ? a + s : s + a;
  case 1: return assign ? r -= s : a - s;
  case 2:
    if (assign) return r *= s;
    return g.chance(1, 2) ? a * s : s * a;
  case 3: return assign ? r /= s : a / s;
  case 4: return s - a;
  default: return -a;
  }
}

// An interval and a scalar.
void t_scalar(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 3));
  o.big = false;
  setup s(g, o);
  interval_expr a = s.interval();
  const int op = g.below(6);
  expr k = g.chance(1, 2) ? expr(g.range(-6, 6)) : s.endpoint();
  if (g.chance(1, 6)) k = g.pick<expr>({abs(k), -abs(k)});
  interval_expr r = apply(g, op, a, k);
  if (g.describing()) g.note() << text(a, s.ctx) << " " << op_names[op] << " " << text(k, s.ctx) << " = " << text(r, s.ctx) << "\n";
  int checked = 0;
  for (int i = 0; i < 10; ++i) {
    env e = s.assign();
    concrete ca(a, e);
    value kv = eval(k, e, wide_lim);
    if (!ca.known || !kv.is_finite()) continue;
    concrete cr(r, e);
    // 0 times an infinite endpoint has no value.
    if (!cr.known) continue;
    for (i128 x : ca.points()) {
      ++checked;
      PBT_CHECK(g, cr.contains(apply(op, x, kv.v)),
          text(a, s.ctx) << " " << op_names[op] << " " << text(k, s.ctx) << " = " << text(r, s.ctx) << ", but with "
                         << text(e, s.ctx) << " " << ca.str() << " becomes " << cr.str() << " without the result of " << str(x));
    }
    if (ca.none || !ca.has_lo || !ca.has_hi) continue;
    // Every bound is reached.
    i128 p = apply(op, ca.lo, kv.v), q = apply(op, ca.hi, kv.v);
    PBT_CHECK(g, cr.has_lo && cr.has_hi && cr.lo == std::min(p, q) && cr.hi == std::max(p, q),
        text(a, s.ctx) << " " << op_names[op] << " " << text(k, s.ctx) << " = " << text(r, s.ctx) << ", but with " << text(e, s.ctx)
                       << " " << ca.str() << " becomes " << cr.str());
  }
  g.count("points compared", checked);
  g.classify(op == 2 || op == 3, "scaled");
  if (checked > 0) g.nontrivial();
}

// Two intervals.
void t_pair(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 3));
  o.big = false;
  setup s(g, o);
  const int op = g.below(3);
  interval_expr a = s.interval(op != 2), b = s.interval(op != 2);
  if (g.chance(1, 8)) b = a;
  expr c = s.eg.condition(2);
  const bool assign = g.chance(1, 2);
  interval_expr r = a;
  switch (op) {
  case 0:
    if (assign) r |= b;
    else r = a | b;
    break;
  case 1:
    if (assign) r &= b;
    else r = a & b;
    break;
  default: r = select(c, a, b);
  }
  static const char* const names[] = {" | ", " & ", " or else "};
  auto what = [&] {
    return (op == 2 ? "if " + text(c, s.ctx) + " " : std::string()) + text(a, s.ctx) + names[op] + text(b, s.ctx) + " = " + text(r, s.ctx);
  };
  if (g.describing()) g.note() << what() << "\n";
  int checked = 0;
  for (int i = 0; i < 10; ++i) {
    env e = s.assign();
    concrete ca(a, e), cb(b, e), cr(r, e);
    if (!ca.known || !cb.known) continue;
    value cv = eval(c, e);
    if (op == 2 && !cv.is_finite()) continue;
    std::vector<i128> points = ca.points();
    for (i128 x : cb.points()) points.push_back(x);
    const std::size_t n = points.size();
    for (std::size_t j = 0; j < n; ++j) {
      points.push_back(points[j] - 1);
      points.push_back(points[j] + 1);
    }
    for (i128 x : points) {
      bool in;
      if (op == 0) {
        // Between the two, anything may be in the union.
        in = ca.contains(x) || cb.contains(x);
        if (!in && !(ca.none || cb.none)) {
          const bool below = (ca.has_lo && x < ca.lo) && (cb.has_lo && x < cb.lo);
          const bool above = (ca.has_hi && x > ca.hi) && (cb.has_hi && x > cb.hi);
          if (!below && !above) continue;
        } else if (!in) {
          continue;
        }
      } else if (op == 1) {
        in = ca.contains(x) && cb.contains(x);
      } else {
        in = (cv.v != 0 ? ca : cb).contains(x);
      }
      ++checked;
      PBT_CHECK(g, cr.known && cr.contains(x) == in,
          what() << ", but with " << text(e, s.ctx) << " " << ca.str() << names[op] << cb.str() << " is " << cr.str() << " and "
                 << str(x) << (in ? " is missing" : " should not be in it"));
    }
    g.classify(ca.none || cb.none, "empty");
  }
  g.count("points compared", checked);
  if (checked > 0) g.nontrivial();
}

// The functions that describe or make intervals.
void t_describe(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 3));
  o.big = false;
  setup s(g, o);
  interval_expr a = s.interval();
  interval_expr f = s.interval(false);
  expr x = s.endpoint(), y = s.endpoint();
  const int64_t m = g.pick<int64_t>({1, 2, 3, 4, 7, 8, 16});
  interval_expr by_range = range(x, y), by_extent = min_extent(x, y), by_point = point(x), by_bounds = bounds(x, y);
  interval_expr aligned = align(f, expr(m));
  expr clamped = clamp(x, a), contains = a.contains(x);
  if (g.describing()) g.note() << text(a, s.ctx) << " " << text(f, s.ctx) << " x=" << text(x, s.ctx) << " y=" << text(y, s.ctx) << " m=" << m << "\n";
  int checked = 0;
  for (int i = 0; i < 10; ++i) {
    env e = s.assign();
    auto ev = [&](const expr& q) { return eval(q, e, wide_lim); };
    value xv = ev(x), yv = ev(y);
    concrete ca(a, e), cf(f, e);
    if (!xv.is_finite() || !yv.is_finite()) continue;
    ++checked;
    auto is = [&](const interval_expr& r, i128 lo, i128 hi) {
      value p = ev(r.min), q = ev(r.max);
      return p.is_finite() && q.is_finite() && p.v == lo && q.v == hi;
    };
    PBT_CHECK(g, is(by_range, xv.v, yv.v - 1) && is(by_extent, xv.v, xv.v + yv.v - 1) && is(by_point, xv.v, xv.v) && is(by_bounds, xv.v, yv.v),
        "range, min_extent, point or bounds of " << text(x, s.ctx) << " and " << text(y, s.ctx) << " are " << text(by_range, s.ctx)
                                                 << " " << text(by_extent, s.ctx) << " " << text(by_point, s.ctx) << " "
                                                 << text(by_bounds, s.ctx));
    if (ca.known) {
      value v = ev(contains);
      PBT_CHECK(g, v.is_finite() && (v.v != 0) == ((!ca.has_lo || ca.lo <= xv.v) && (!ca.has_hi || xv.v <= ca.hi) && !ca.none),
          text(a, s.ctx) << ".contains(" << text(x, s.ctx) << ") is " << text(contains, s.ctx) << ", with " << text(e, s.ctx)
                         << " that is " << v.str());
      if (!ca.none) {
        v = ev(clamped);
        i128 should = xv.v;
        if (ca.has_hi) should = std::min(should, ca.hi);
        if (ca.has_lo) should = std::max(should, ca.lo);
        PBT_CHECK(g, v.is_finite() && v.v == should,
            "clamp(" << text(x, s.ctx) << ", " << text(a, s.ctx) << ") is " << text(clamped, s.ctx) << ", with " << text(e, s.ctx)
                     << " that is " << v.str() << ", not " << str(should));
      }
    }
    if (cf.known && cf.has_lo && cf.has_hi) {
      value b = ev(f.begin()), n = ev(f.end()), x2 = ev(f.extent()), em = ev(f.empty());
      PBT_CHECK(g, b.is_finite() && n.is_finite() && x2.is_finite() && em.is_finite() && b.v == cf.lo && n.v == cf.hi + 1 &&
              x2.v == cf.hi - cf.lo + 1 && (em.v != 0) == (cf.lo > cf.hi),
          "begin, end, extent and empty of " << text(f, s.ctx) << " are " << b.str() << " " << n.str() << " " << x2.str() << " "
                                             << em.str() << " with " << text(e, s.ctx));
      PBT_CHECK(g, is(aligned, fdiv(cf.lo, m) * m, fdiv(cf.hi + 1 + m - 1, m) * m - 1),
          "align(" << text(f, s.ctx) << ", " << m << ") is " << text(aligned, s.ctx) << ", wrong with " << text(e, s.ctx));
    }
    PBT_CHECK(g, concrete(a | interval_expr::union_identity(), e).str() == ca.str() || !ca.known || ca.none,
        text(a, s.ctx) << " with the identity of unions is " << text(a | interval_expr::union_identity(), s.ctx));
    PBT_CHECK(g, concrete(a & interval_expr::intersection_identity(), e).str() == ca.str() || !ca.known,
        text(a, s.ctx) << " with the identity of intersections is " << text(a & interval_expr::intersection_identity(), s.ctx));
  }
  g.count("assignments compared", checked);
  if (checked > 0) g.nontrivial();
}

// Boxes, possibly of different rank. What is said about dimensions that only one of them has is the interval of that one,
// or something bigger in the union.
void t_box(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 3));
  o.big = false;
  setup s(g, o);
  box_expr a(g.below(4)), b(g.below(4));
  for (interval_expr& i : a) i = s.interval();
  for (interval_expr& i : b) i = s.interval();
  const bool is_union = g.chance(1, 2);
  box_expr r = is_union ? a | b : a & b;
  auto what = [&] {
    std::ostringstream t;
    for (const box_expr* x : {&a, &b, &r}) {
      t << (x == &a ? "{" : x == &b ? (is_union ? " | {" : " & {") : " = {");
      for (const interval_expr& i : *x) t << text(i, s.ctx) << " ";
      t << "}";
    }
    return t.str();
  };
  if (g.describing()) g.note() << what() << "\n";
  PBT_CHECK(g, r.size() == std::max(a.size(), b.size()), what() << " has rank " << r.size());
  int checked = 0;
  for (int i = 0; i < 6; ++i) {
    env e = s.assign();
    for (std::size_t d = 0; d < r.size(); ++d) {
      concrete ca(d < a.size() ? a[d] : interval_expr(), e), cb(d < b.size() ? b[d] : interval_expr(), e), cr(r[d], e);
      if (!ca.known || !cb.known) continue;
      std::vector<i128> points;
      if (d < a.size()) points = ca.points();
      if (d < b.size()) for (i128 x : cb.points()) points.push_back(x);
      const std::size_t n = points.size();
      for (std::size_t j = 0; j < n && !is_union; ++j) {
        points.push_back(points[j] - 1);
        points.push_back(points[j] + 1);
      }
      for (i128 x : points) {
        const bool in = is_union || (ca.contains(x) && cb.contains(x));
        ++checked;
        PBT_CHECK(g, cr.known && cr.contains(x) == in,
            what() << " with " << text(e, s.ctx) << " dimension " << d << " is " << cr.str() << " and " << str(x)
                   << (in ? " is missing" : " should not be in it"));
      }
    }
  }
  g.classify(a.size() != b.size(), "different rank");
  g.count("points compared", checked);
  if (checked > 0) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C22";
  c.rule = "at least one point was compared";
  c.targets = {
      {"scalar", t_scalar, 700000, 20000000},
      {"pair", t_pair, 500000, 15000000},
      {"describe", t_describe, 300000, 9000000},
      {"box", t_box, 300000, 9000000},
  };
  return pbt::run(argc, argv, c);
}
