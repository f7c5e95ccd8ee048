// C16: modulus_remainder operations contain the result of the operation on any members.
#include "engine.h"
#include "slinky/base/modulus_remainder.h"

using pbt::gen;
using slinky::modulus_remainder;
typedef __int128 wide;
typedef modulus_remainder<int64_t> mr;

namespace {

// INT64_MIN is not in the domain: its negation (and so |.| of a modulus or quotient by -1) is not representable.
bool fits(wide x) { return x > INT64_MIN && x <= INT64_MAX; }

bool contains(const mr& m, int64_t x) {
  wide d = static_cast<wide>(x) - m.remainder;
  return m.modulus == 0 ? d == 0 : d % m.modulus == 0;
}

void put(std::ostream& os, const mr& m) { os << m.modulus << "*_ + " << m.remainder; }

struct value {
  mr m;
  int64_t x;  // A member of m.
};

// A description and a member of it.
value leaf(gen& g) {
  value v;
  switch (g.weighted({4, 6, 2, 2})) {
  case 0:  // A constant.
    v.m = mr(0, g.chance(1, 6) ? g.interesting64() : g.range(-20, 20));
    if (!fits(v.m.remainder)) v.m.remainder = -INT64_MAX;
    v.x = v.m.remainder;
    break;
  case 1: {
    int64_t m = g.range(1, 36);
    int64_t r = g.range(0, m - 1);
    v.m = mr(m, r);
    v.x = r + m * g.range(-20, 20);
    break;
  }
  case 2: {
    int64_t m = static_cast<int64_t>(1) << g.below(62);
    int64_t r = g.chance(1, 2) ? 0 : static_cast<int64_t>(g.below(m));
    v.m = mr(m, r);
    wide x = static_cast<wide>(r) + static_cast<wide>(m) * g.range(-4, 4);
    v.x = fits(x) ? static_cast<int64_t>(x) : r;
    break;
  }
  default: {
    int64_t m = g.range(1, INT64_MAX);
    int64_t r = g.chance(1, 2) ? 0 : static_cast<int64_t>(g.below(m));
    v.m = mr(m, r);
    wide x = static_cast<wide>(r) + static_cast<wide>(m) * g.range(-1, 1);
    v.x = fits(x) ? static_cast<int64_t>(x) : r;
    break;
  }
  }
  return v;
}

bool ok = true;

value tree(gen& g, int depth) {
  if (depth == 0 || g.chance(1, 4)) {
    value v = leaf(g);
    if (g.describing()) {
      g.note() << "[";
      put(g.note(), v.m);
      g.note() << " : " << v.x << "]";
    }
    return v;
  }
  int op = static_cast<int>(g.below(7));
  static const char* names[] = {"+", "-", "*", "/", "%", "|", "&"};
  if (g.describing()) g.note() << "(";
  value a = tree(g, depth - 1);
  if (g.describing()) g.note() << " " << names[op] << " ";
  value b;
  if (op == 6) {
    // Another description of the same value.
    b.x = a.x;
    int64_t m = g.chance(1, 8) ? g.range(1, INT64_MAX) : g.chance(1, 8) ? 0 : g.range(1, 48);
    b.m = mr(m, slinky::euclidean_mod<int64_t>(a.x, m, a.x));
    if (g.describing()) {
      g.note() << "[";
      put(g.note(), b.m);
      g.note() << "]";
    }
  } else {
    b = tree(g, depth - 1);
  }
  if (g.describing()) g.note() << ")";
  value r;
  wide x = 0;
  {
    const wide ar = a.m.remainder, br = b.m.remainder;
    if (ar + br == INT64_MIN || ar - br == INT64_MIN || br - ar == INT64_MIN || ar * br == INT64_MIN) {
      ok = false;
      return a;
    }
  }
  switch (op) {
  case 0:
    r.m = a.m + b.m;
    x = static_cast<wide>(a.x) + b.x;
    break;
  case 1:
    r.m = a.m - b.m;
    x = static_cast<wide>(a.x) - b.x;
    break;
  case 2:
    r.m = a.m * b.m;
    x = static_cast<wide>(a.x) * b.x;
    break;
  case 3: {
    r.m = a.m / b.m;
    x = slinky::euclidean_div<int64_t>(a.x, b.x);
    break;
  }
  case 4:
    r.m = a.m % b.m;
    x = slinky::euclidean_mod<int64_t>(a.x, b.x);
    break;
  case 5:
    r.m = a.m | b.m;
    x = g.chance(1, 2) ? a.x : b.x;
    if (!contains(r.m, a.x)) x = a.x;
    if (!contains(r.m, b.x)) x = b.x;
    break;
  case 6:
    r.m = a.m & b.m;
    x = a.x;
    break;
  }
  if (!fits(x) || r.m.modulus == INT64_MIN || r.m.remainder == INT64_MIN) {
    ok = false;
    return a;
  }
  r.x = static_cast<int64_t>(x);
  g.classify(names[op]);
  if (r.m.modulus != 1) {
    g.classify("informative result");
    g.nontrivial();
  }
  if (!contains(r.m, r.x)) {
    std::ostringstream ss;
    ss << "(";
    put(ss, a.m);
    ss << ") " << names[op] << " (";
    put(ss, b.m);
    ss << ") = ";
    put(ss, r.m);
    ss << " does not contain " << r.x << " from " << a.x << " " << names[op] << " " << b.x;
    g.fail(ss.str());
  }
  return r;
}

void trees(gen& g) {
  ok = true;
  for (int i = 0; i < 6 && ok; ++i) {
    if (g.describing()) g.note() << (i ? "; " : "");
    tree(g, static_cast<int>(g.range(1, 4)));
  }
}

// All small descriptions, all small members, exhaustively.
void small(gen& g) {
  int64_t ma = g.range(0, 12), mb = g.range(0, 12);
  int64_t ra = ma ? g.range(0, ma - 1) : g.range(-12, 12), rb = mb ? g.range(0, mb - 1) : g.range(-12, 12);
  mr a(ma, ra), b(mb, rb);
  if (g.describing()) {
    g.note() << "all members of ";
    put(g.note(), a);
    g.note() << " and ";
    put(g.note(), b);
  }
  mr add = a + b, sub = a - b, mul = a * b, div = a / b, mod = a % b, uni = a | b;
  mr scalar_ops[] = {a + rb, a - rb, a * rb, a / rb, a % rb};
  for (int i = -8; i <= 8; ++i)
    for (int j = -8; j <= 8; ++j) {
      int64_t x = ra + ma * i, y = rb + mb * j;
#define IN(d, v, name)                                                                                                 \
  PBT_CHECK(g, contains(d, v), name << ": " << (d).modulus << "*_ + " << (d).remainder << " does not contain " << (v)  \
                                    << " for members " << x << ", " << y)
      IN(add, x + y, "+");
      IN(sub, x - y, "-");
      IN(mul, x * y, "*");
      IN(div, slinky::euclidean_div<int64_t>(x, y), "/");
      IN(mod, slinky::euclidean_mod<int64_t>(x, y), "%");
      IN(uni, x, "| left");
      IN(uni, y, "| right");
      if (x == y) IN((a & b), x, "&");
      IN(scalar_ops[0], x + rb, "+ scalar");
      IN(scalar_ops[1], x - rb, "- scalar");
      IN(scalar_ops[2], x * rb, "* scalar");
      IN(scalar_ops[3], slinky::euclidean_div<int64_t>(x, rb), "/ scalar");
      IN(scalar_ops[4], slinky::euclidean_mod<int64_t>(x, rb), "% scalar");
      g.count("member pairs");
    }
  g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C16";
  c.rule =
      "Trees of + - * / % | & over (description, member) leaves, each intermediate description must contain the value "
      "computed on the members in 128-bit arithmetic; and all pairs of members of all small descriptions. Non-trivial: "
      "some result is not 'all integers' (trees), always (small).";
  c.assumptions = {"descriptions have 0 <= remainder < modulus, or modulus 0 for a constant, at the leaves",
      "values, and their negations, are representable in 64 bits (INT64_MIN is excluded)"};
  c.targets = {{"trees", trees, 900000, 30000000}, {"small", small, 60000, 1500000}};
  return pbt::run(argc, argv, c);
}
