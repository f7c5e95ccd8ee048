// C15: integer arithmetic primitives against 128-bit references.
#include <limits>
#include <type_traits>

#include "engine.h"
#include "slinky/base/arithmetic.h"

using pbt::gen;
typedef __int128 wide;

namespace {

std::string str(wide x) {
  if (x == 0) return "0";
  bool neg = x < 0;
  std::string s;
  while (x != 0) {
    int d = static_cast<int>(x % 10);
    s.insert(s.begin(), static_cast<char>('0' + (d < 0 ? -d : d)));
    x /= 10;
  }
  return neg ? "-" + s : s;
}

template <typename T>
bool fits(wide x) {
  return x >= std::numeric_limits<T>::min() && x <= std::numeric_limits<T>::max();
}
template <typename T>
T clamp(wide x) {
  if (x > std::numeric_limits<T>::max()) return std::numeric_limits<T>::max();
  if (x < std::numeric_limits<T>::min()) return std::numeric_limits<T>::min();
  return static_cast<T>(x);
}
wide abs128(wide x) { return x < 0 ? -x : x; }

// The unique (q, r) with a = b*q + r, 0 <= r < |b|.
void ref_euclid(wide a, wide b, wide& q, wide& r) {
  r = a % b;
  if (r < 0) r += abs128(b);
  q = (a - r) / b;
}
wide ref_floor(wide a, wide b) {  // b > 0
  wide q = a / b;
  if (q * b > a) --q;
  return q;
}
wide ref_ceil(wide a, wide b) {  // b > 0
  wide q = a / b;
  if (q * b < a) ++q;
  return q;
}
wide ref_gcd(wide a, wide b) {
  // Subtraction-free but independent: binary search of divisors is too slow, use the recursive definition on |.|.
  a = abs128(a);
  b = abs128(b);
  while (b) {
    wide t = a - (a / b) * b;
    a = b;
    b = t;
  }
  return a;
}

#define EQ(what, got, want)                                                                                            \
  PBT_CHECK(g, static_cast<wide>(got) == static_cast<wide>(want),                                                      \
      what << " of (" << str(a) << ", " << str(b) << ") is " << str(got) << ", expected " << str(want))

template <typename T>
void check_pair(gen& g, T a, T b) {
  using namespace slinky;
  const wide A = a, B = b;
  if (b != 0) {
    wide q, r;
    ref_euclid(A, B, q, r);
    if (fits<T>(q)) {
      EQ("euclidean_div", euclidean_div<T>(a, b), q);
      EQ("euclidean_mod", euclidean_mod<T>(a, b), r);
    }
    EQ("div_sat", div_sat<T>(a, b), clamp<T>(q));
  } else {
    EQ("euclidean_div", euclidean_div<T>(a, b), 0);
    EQ("euclidean_mod", euclidean_mod<T>(a, b), 0);
    EQ("euclidean_div defined zero", (euclidean_div<T>(a, b, 17)), 17);
    EQ("euclidean_mod defined zero", (euclidean_mod<T>(a, b, 17)), 17);
    EQ("div_sat", div_sat<T>(a, b), 0);
  }
  if (b > 0) {
    wide q, r;
    ref_euclid(A, B, q, r);
    EQ("euclidean_div_positive_divisor", euclidean_div_positive_divisor<T>(a, b), q);
    EQ("euclidean_mod_positive_modulus", euclidean_mod_positive_modulus<T>(a, b), r);
    EQ("floor_div", floor_div<T>(a, b), ref_floor(A, B));
    EQ("align_down", ((fits<T>(ref_floor(A, B) * B)) ? align_down<T>(a, b) : 0),
        fits<T>(ref_floor(A, B) * B) ? ref_floor(A, B) * B : 0);
    if (fits<T>(A + B) && fits<T>(A + B - 1)) {
      EQ("ceil_div", ceil_div<T>(a, b), ref_ceil(A, B));
      if (fits<T>(ref_ceil(A, B) * B)) EQ("align_up", align_up<T>(a, b), ref_ceil(A, B) * B);
    }
    if (fits<T>(A + (B >> 1))) {
      // Nearest, ties rounding up.
      EQ("round_div", round_div<T>(a, b), ref_floor(2 * A + B, 2 * B));
    }
  }
  EQ("add_sat", add_sat<T>(a, b), clamp<T>(A + B));
  EQ("sub_sat", sub_sat<T>(a, b), clamp<T>(A - B));
  EQ("mul_sat", mul_sat<T>(a, b), clamp<T>(A * B));
  EQ("add_overflows", add_overflows<T>(a, b), !fits<T>(A + B));
  EQ("sub_overflows", sub_overflows<T>(a, b), !fits<T>(A - B));
  EQ("mul_overflows", mul_overflows<T>(a, b), !fits<T>(A * B));
  T r = 5;
  EQ("add_with_overflow", add_with_overflow<T>(a, b, r), !fits<T>(A + B));
  EQ("add_with_overflow result", r, fits<T>(A + B) ? A + B : 0);
  r = 5;
  EQ("sub_with_overflow", sub_with_overflow<T>(a, b, r), !fits<T>(A - B));
  EQ("sub_with_overflow result", r, fits<T>(A - B) ? A - B : 0);
  r = 5;
  EQ("mul_with_overflow", mul_with_overflow<T>(a, b, r), !fits<T>(A * B));
  EQ("mul_with_overflow result", r, fits<T>(A * B) ? A * B : 0);
  if (a >= 0 && b >= 0) {
    wide d = ref_gcd(A, B);
    EQ("gcd", gcd<T>(a, b), d);
    if (d != 0 && fits<T>(A * B)) EQ("lcm", lcm<T>(a, b), A * B / d);
  } else if (a != std::numeric_limits<T>::min() && b != std::numeric_limits<T>::min()) {
    EQ("gcd magnitude", abs128(gcd<T>(a, b)), ref_gcd(A, B));
  }
  EQ("sign", sign<T>(a), a < 0 ? -1 : a > 0 ? 1 : 0);
  {
    bool p2 = false;
    for (int i = 0; i < static_cast<int>(sizeof(T) * 8 - 1); ++i) p2 = p2 || a == (static_cast<T>(1) << i);
    EQ("is_power_of_two", is_power_of_two<T>(a), p2);
  }
  g.count("operand pairs");
}

// Random operands, including extremes.
template <typename T>
T operand(gen& g) {
  if (sizeof(T) == 8) return static_cast<T>(g.interesting64());
  int64_t v = g.interesting64();
  switch (g.below(4)) {
  case 0: return static_cast<T>(std::numeric_limits<T>::max() - static_cast<T>(g.below(4)));
  case 1: return static_cast<T>(std::numeric_limits<T>::min() + static_cast<T>(g.below(4)));
  default: return static_cast<T>(v);
  }
}

template <typename T>
void pairs(gen& g) {
  for (int i = 0; i < 16; ++i) {
    T a = operand<T>(g), b;
    switch (g.below(6)) {
    case 0: b = a; break;
    case 1: b = static_cast<T>(a == std::numeric_limits<T>::min() ? a : -a); break;
    case 2: {
      // A product near the overflow boundary.
      wide lim = g.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
      b = a ? clamp<T>(lim / a + g.range(-1, 1)) : 0;
      break;
    }
    case 3: {
      // Differences/sums near the boundary.
      wide lim = g.chance(1, 2) ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
      b = clamp<T>((g.chance(1, 2) ? lim - a : a - lim) + g.range(-2, 2));
      break;
    }
    default: b = operand<T>(g);
    }
    if (g.describing()) g.note() << "(" << str(a) << ", " << str(b) << ") ";
    check_pair<T>(g, a, b);
  }
  g.nontrivial();
}

void pairs64(gen& g) { pairs<int64_t>(g); }
void pairs32(gen& g) { pairs<int32_t>(g); }

// Every pair in a small square.
void small_square(gen& g) {
  int64_t cx = g.range(-64, 64) , cy = g.range(-64, 64);
  if (g.describing()) g.note() << "all pairs within 12 of (" << cx << ", " << cy << ")";
  for (int64_t a = cx - 12; a <= cx + 12; ++a)
    for (int64_t b = cy - 12; b <= cy + 12; ++b) {
      check_pair<int64_t>(g, a, b);
      check_pair<int32_t>(g, static_cast<int32_t>(a), static_cast<int32_t>(b));
    }
  g.nontrivial();
}

// The bounds of sums of staircases contain all values, and are attained.
void staircase(gen& g) {
  int b1 = static_cast<int>(g.chance(1, 8) ? 0 : g.range(-40, 40));
  int c1 = static_cast<int>(g.range(-40, 40));
  int b2, c2;
  if (g.chance(3, 4) && b1 != 0) {
    // Equal and opposite slopes: c1/b1 == -c2/b2.
    int k = static_cast<int>(g.range(1, 6)) * (g.chance(1, 2) ? -1 : 1);
    int d = static_cast<int>(ref_gcd(b1, c1));
    if (d == 0) d = 1;
    b2 = b1 / d * k;
    c2 = -c1 / d * k;
  } else {
    b2 = static_cast<int>(g.range(-40, 40));
    c2 = static_cast<int>(g.range(-40, 40));
  }
  int a1 = static_cast<int>(g.range(-300, 300)), a2 = static_cast<int>(g.range(-300, 300));
  if (g.chance(1, 40)) b1 *= 1025, c1 *= 1025;
  if (g.describing())
    g.note() << "((x + " << a1 << ")/" << b1 << ")*" << c1 << " + ((x + " << a2 << ")/" << b2 << ")*" << c2;
  slinky::interval<int> r = slinky::staircase_sum_bounds(a1, b1, c1, a2, b2, c2);
  wide lo = 0, hi = 0;
  bool first = true;
  auto value = [&](int64_t x) {
    wide q1 = 0, q2 = 0, t;
    if (b1) ref_euclid(x + a1, b1, q1, t);
    if (b2) ref_euclid(x + a2, b2, q2, t);
    return q1 * c1 + q2 * c2;
  };
  for (int64_t x = -5000; x <= 5000; ++x) {
    wide y = value(x);
    if (first || y < lo) lo = y;
    if (first || y > hi) hi = y;
    first = false;
    PBT_CHECK(g, !r.min || y >= *r.min, "value " << str(y) << " at x = " << x << " is below the min " << *r.min);
    PBT_CHECK(g, !r.max || y <= *r.max, "value " << str(y) << " at x = " << x << " is above the max " << *r.max);
    if (b1 && b2 && x % 7 == 0) {
      int s = slinky::staircase<int>(static_cast<int>(x), a1, b1, c1);
      wide q, t;
      ref_euclid(x + a1, b1, q, t);
      PBT_CHECK(g, s == q * c1, "staircase at x = " << x << " is " << s);
    }
  }
  if (r.min) {
    g.classify("bounded staircase");
    g.nontrivial();
    PBT_CHECK(g, lo == *r.min, "the min " << *r.min << " is never attained, the least value is " << str(lo));
  } else {
    g.classify("unbounded staircase");
  }
  if (r.max) PBT_CHECK(g, hi == *r.max, "the max " << *r.max << " is never attained, the greatest value is " << str(hi));
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C15";
  c.rule =
      "Operand pairs drawn from small values, powers of two +-2, type extremes and pairs solved to sit on the overflow "
      "boundary (16 pairs per case), every pair of a 25x25 square, and staircase sums of equal and opposite slope. A "
      "pair case is always non-trivial; a staircase case is non-trivial if the code claims a bound.";
  c.assumptions = {"floor/ceil/round/align are specified for positive divisors (the only use in the code base)",
      "quotients that are not representable (min / -1) are outside euclidean_div/mod's domain; div_sat covers them"};
  c.targets = {{"pairs64", pairs64, 1200000, 40000000}, {"pairs32", pairs32, 600000, 20000000},
      {"small_square", small_square, 8000, 200000}, {"staircase", staircase, 60000, 2000000}};
  return pbt::run(argc, argv, c);
}
