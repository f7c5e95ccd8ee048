// Random expressions over a random environment, and an independent evaluator of expressions in exact arithmetic.
#ifndef VERIF_EXPRS_H
#define VERIF_EXPRS_H

#include <cassert>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "engine.h"
#include "slinky/builder/simplify.h"
#include "slinky/builder/substitute.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/expr.h"

namespace slinky {
// A hook in simplify.cc.
extern bool verif_skip_learn_min_max;
}  // namespace slinky

namespace ex {

using namespace slinky;
typedef __int128 i128;
using min_node = class slinky::min;
using max_node = class slinky::max;

inline std::string str(i128 x) {
  if (x == 0) return "0";
  bool neg = x < 0;
  std::string s;
  while (x != 0) {
    int d = static_cast<int>(x % 10);
    s += static_cast<char>('0' + (d < 0 ? -d : d));
    x /= 10;
  }
  if (neg) s += '-';
  return std::string(s.rbegin(), s.rend());
}

// The result of an exact evaluation.
struct value {
  enum kind_t { finite, infinite, indeterminate, unknown } kind = unknown;
  i128 v = 0;  // The value, or the sign of an infinity.
  static value num(i128 v) { return {finite, v}; }
  static value inf(int s) { return {infinite, s}; }
  static value ind() { return {indeterminate, 0}; }
  static value bad() { return {unknown, 0}; }
  bool is_finite() const { return kind == finite; }
  std::string str() const {
    switch (kind) {
    case finite: return ex::str(v);
    case infinite: return v > 0 ? "oo" : "-oo";
    case indeterminate: return "indeterminate";
    default: return "unknown";
    }
  }
};

struct buf_meta {
  struct dim_t {
    int64_t min, max, stride, fold;
  };
  int64_t elem_size = 1;
  std::vector<dim_t> dims;
};

// Values of symbols.
struct env {
  std::map<size_t, i128> vars;
  std::map<size_t, buf_meta> bufs;
};

inline i128 fdiv(i128 a, i128 b) {
  if (b == 0) return 0;
  i128 q = a / b, r = a % b;
  if (r < 0) q += b > 0 ? -1 : 1;
  return q;
}
inline i128 fmod(i128 a, i128 b) {
  if (b == 0) return 0;
  i128 r = a % b;
  if (r < 0) r += b > 0 ? b : -b;
  return r;
}

const i128 int64_lim = static_cast<i128>(1) << 63;
const i128 wide_lim = static_cast<i128>(1) << 120;

// Values of calls to functions that are not intrinsics.
typedef std::function<value(const call*, const std::vector<value>&)> call_handler;

// Evaluates expressions in exact arithmetic. Values of finite subexpressions outside [-limit, limit) are unknown.
struct evaluator {
  env& e;
  i128 limit;
  call_handler on_call;
  // Incremented for each expression node evaluated.
  int64_t steps = 0;

  evaluator(env& e, i128 limit) : e(e), limit(limit) {}

  value lim(i128 v) { return v < -limit || v >= limit ? value::bad() : value::num(v); }

  static int cmp(const value& a, const value& b) {
    // Both finite or infinite.
    i128 ka = a.kind == value::infinite ? a.v : 0, kb = b.kind == value::infinite ? b.v : 0;
    if (ka != kb) return ka < kb ? -1 : 1;
    if (a.kind == value::infinite) return 0;
    return a.v < b.v ? -1 : a.v > b.v ? 1 : 0;
  }

  value eval(expr_ref x) {
    if (!x.defined()) return value::bad();
    ++steps;
    switch (x.type()) {
    case expr_node_type::constant: return value::num(x.as<constant>()->value);
    case expr_node_type::variable: return eval_variable(x.as<variable>());
    case expr_node_type::let: {
      const let* l = x.as<let>();
      std::vector<std::pair<size_t, std::optional<i128>>> saved;
      value r = value::num(0);
      for (const auto& i : l->lets) {
        value v = eval(i.second);
        if (!v.is_finite()) {
          r = value::bad();
          break;
        }
        auto at = e.vars.find(i.first.id);
        saved.push_back({i.first.id, at == e.vars.end() ? std::nullopt : std::optional<i128>(at->second)});
        e.vars[i.first.id] = v.v;
      }
      if (r.is_finite()) r = eval(l->body);
      for (auto i = saved.rbegin(); i != saved.rend(); ++i) {
        if (i->second) {
          e.vars[i->first] = *i->second;
        } else {
          e.vars.erase(i->first);
        }
      }
      return r;
    }
    case expr_node_type::logical_not: {
      value a = eval(x.as<logical_not>()->a);
      if (a.kind == value::infinite) return value::num(0);
      if (!a.is_finite()) return a;
      return value::num(a.v == 0);
    }
    case expr_node_type::select: {
      const class select* s = x.as<class select>();
      value c = eval(s->condition);
      if (c.kind == value::infinite) return eval(s->true_value);
      if (!c.is_finite()) return c;
      return eval(c.v != 0 ? s->true_value : s->false_value);
    }
    case expr_node_type::call: return eval_call(x.as<call>());
    default: return eval_binary(x);
    }
  }

  value eval_variable(const variable* v) {
    if (v->field == buffer_field::none) {
      auto i = e.vars.find(v->sym.id);
      return i == e.vars.end() ? value::bad() : value::num(i->second);
    }
    auto i = e.bufs.find(v->sym.id);
    if (i == e.bufs.end()) return value::bad();
    const buf_meta& b = i->second;
    switch (v->field) {
    case buffer_field::rank: return value::num(b.dims.size());
    case buffer_field::elem_size: return value::num(b.elem_size);
    default: break;
    }
    if (v->dim < 0 || v->dim >= static_cast<int>(b.dims.size())) return value::bad();
    const buf_meta::dim_t& d = b.dims[v->dim];
    switch (v->field) {
    case buffer_field::min: return value::num(d.min);
    case buffer_field::max: return value::num(d.max);
    case buffer_field::stride: return value::num(d.stride);
    case buffer_field::fold_factor: return value::num(d.fold);
    default: return value::bad();
    }
  }

  value eval_call(const call* c) {
    switch (c->intrinsic) {
    case intrinsic::positive_infinity: return value::inf(1);
    case intrinsic::negative_infinity: return value::inf(-1);
    case intrinsic::indeterminate: return value::ind();
    case intrinsic::abs: {
      value a = eval(c->args[0]);
      if (a.kind == value::infinite) return value::inf(1);
      if (!a.is_finite()) return a;
      return lim(a.v < 0 ? -a.v : a.v);
    }
    case intrinsic::and_then:
    case intrinsic::or_else: {
      bool is_and = c->intrinsic == intrinsic::and_then;
      for (const expr& i : c->args) {
        value a = eval(i);
        if (a.kind == value::infinite) a = value::num(1);
        if (!a.is_finite()) return a;
        if ((a.v != 0) != is_and) return value::num(!is_and);
      }
      return value::num(is_and);
    }
    case intrinsic::none: {
      if (!on_call) return value::bad();
      std::vector<value> args;
      for (const expr& i : c->args) {
        args.push_back(eval(i));
        if (!args.back().is_finite()) return value::bad();
      }
      return on_call(c, args);
    }
    default: return value::bad();
    }
  }

  value eval_binary(expr_ref x) {
    const binary_op* op = static_cast<const binary_op*>(x.get());
    value a = eval(op->a), b = eval(op->b);
    if (a.kind == value::unknown || b.kind == value::unknown) return value::bad();
    if (a.kind == value::indeterminate || b.kind == value::indeterminate) return value::ind();
    bool inf = a.kind == value::infinite || b.kind == value::infinite;
    switch (x.type()) {
    case expr_node_type::add:
    case expr_node_type::sub: {
      int s = x.type() == expr_node_type::add ? 1 : -1;
      if (!inf) return lim(a.v + s * b.v);
      if (a.kind == b.kind) return a.v == s * b.v ? a : value::ind();
      return a.kind == value::infinite ? a : value::inf(static_cast<int>(s * b.v));
    }
    case expr_node_type::mul:
      if (!inf) {
        i128 r;
        if (__builtin_mul_overflow(a.v, b.v, &r)) return value::bad();
        return lim(r);
      } else {
        int sa = a.v < 0 ? -1 : a.v > 0, sb = b.v < 0 ? -1 : b.v > 0;
        return sa * sb == 0 ? value::ind() : value::inf(sa * sb);
      }
    case expr_node_type::div:
      if (!inf) return lim(fdiv(a.v, b.v));
      if (a.kind == b.kind) return value::ind();
      if (b.kind == value::infinite) return value::bad();
      if (b.v == 0) return value::bad();
      return value::inf(b.v < 0 ? -static_cast<int>(a.v) : static_cast<int>(a.v));
    case expr_node_type::mod: return inf ? value::bad() : value::num(fmod(a.v, b.v));
    case expr_node_type::min: return cmp(a, b) <= 0 ? a : b;
    case expr_node_type::max: return cmp(a, b) >= 0 ? a : b;
    case expr_node_type::equal: return value::num(cmp(a, b) == 0);
    case expr_node_type::not_equal: return value::num(cmp(a, b) != 0);
    case expr_node_type::less: return value::num(cmp(a, b) < 0);
    case expr_node_type::less_equal: return value::num(cmp(a, b) <= 0);
    case expr_node_type::logical_and:
      return value::num((a.kind == value::infinite || a.v != 0) && (b.kind == value::infinite || b.v != 0));
    case expr_node_type::logical_or:
      return value::num((a.kind == value::infinite || a.v != 0) || (b.kind == value::infinite || b.v != 0));
    default: return value::bad();
    }
  }
};

inline value eval(expr_ref x, env& e, i128 limit = int64_lim) { return evaluator(e, limit).eval(x); }

// Fully parenthesized text of an expression.
inline std::string text(expr_ref x, const node_context& ctx) {
  if (!x.defined()) return "<undef>";
  auto bin = [&](const char* op) {
    const binary_op* b = static_cast<const binary_op*>(x.get());
    return "(" + text(b->a, ctx) + " " + op + " " + text(b->b, ctx) + ")";
  };
  auto args = [&](const std::vector<expr>& l) {
    std::string s = "(";
    for (const expr& i : l) s += (s.size() > 1 ? ", " : "") + text(i, ctx);
    return s + ")";
  };
  switch (x.type()) {
  case expr_node_type::constant: return std::to_string(x.as<constant>()->value);
  case expr_node_type::variable: {
    const variable* v = x.as<variable>();
    std::string n = ctx.name(v->sym);
    const char* f[] = {"", "rank", "elem_size", "size_bytes", "min", "max", "stride", "fold_factor"};
    if (v->field != buffer_field::none) {
      n += std::string(".") + f[static_cast<int>(v->field)];
      if (v->field >= buffer_field::min) n += std::to_string(v->dim);
    }
    return n;
  }
  case expr_node_type::let: {
    std::string s = "let(";
    for (const auto& i : x.as<let>()->lets) s += ctx.name(i.first) + "=" + text(i.second, ctx) + ", ";
    return s + "in " + text(x.as<let>()->body, ctx) + ")";
  }
  case expr_node_type::add: return bin("+");
  case expr_node_type::sub: return bin("-");
  case expr_node_type::mul: return bin("*");
  case expr_node_type::div: return bin("/");
  case expr_node_type::mod: return bin("%");
  case expr_node_type::equal: return bin("==");
  case expr_node_type::not_equal: return bin("!=");
  case expr_node_type::less: return bin("<");
  case expr_node_type::less_equal: return bin("<=");
  case expr_node_type::logical_and: return bin("&&");
  case expr_node_type::logical_or: return bin("||");
  case expr_node_type::min: return "min" + args({x.as<class min>()->a, x.as<class min>()->b});
  case expr_node_type::max: return "max" + args({x.as<class max>()->a, x.as<class max>()->b});
  case expr_node_type::logical_not: return "!" + text(x.as<logical_not>()->a, ctx);
  case expr_node_type::select: {
    const class select* s = x.as<class select>();
    return "select" + args({s->condition, s->true_value, s->false_value});
  }
  case expr_node_type::call: {
    const call* c = x.as<call>();
    switch (c->intrinsic) {
    case intrinsic::positive_infinity: return "oo";
    case intrinsic::negative_infinity: return "-oo";
    case intrinsic::indeterminate: return "indeterminate";
    case intrinsic::abs: return "abs" + args(c->args);
    case intrinsic::and_then: return "and_then" + args(c->args);
    case intrinsic::or_else: return "or_else" + args(c->args);
    case intrinsic::none: return "fn" + args(c->args);
    default: return "intrinsic" + std::to_string(static_cast<int>(c->intrinsic)) + args(c->args);
    }
  }
  default: return "?";
  }
}
inline std::string text(const interval_expr& x, const node_context& ctx) {
  return "[" + text(x.min, ctx) + ", " + text(x.max, ctx) + "]";
}

// Calls f on every node of x.
template <typename F>
void visit_all(expr_ref x, F&& f) {
  if (!x.defined()) return;
  f(x);
  switch (x.type()) {
  case expr_node_type::constant:
  case expr_node_type::variable:
  case expr_node_type::none: return;
  case expr_node_type::let:
    for (const auto& i : x.as<let>()->lets) visit_all(i.second, f);
    visit_all(x.as<let>()->body, f);
    return;
  case expr_node_type::logical_not: visit_all(x.as<logical_not>()->a, f); return;
  case expr_node_type::select:
    visit_all(x.as<class select>()->condition, f);
    visit_all(x.as<class select>()->true_value, f);
    visit_all(x.as<class select>()->false_value, f);
    return;
  case expr_node_type::call:
    for (const expr& i : x.as<call>()->args) visit_all(i, f);
    return;
  default:
    visit_all(static_cast<const binary_op*>(x.get())->a, f);
    visit_all(static_cast<const binary_op*>(x.get())->b, f);
  }
}

// The symbols x uses that are not bound by a let in x.
inline void free_symbols(expr_ref x, std::set<size_t> bound, std::set<size_t>& out) {
  if (!x.defined()) return;
  switch (x.type()) {
  case expr_node_type::constant: return;
  case expr_node_type::variable:
    if (!bound.count(x.as<variable>()->sym.id)) out.insert(x.as<variable>()->sym.id);
    return;
  case expr_node_type::let:
    for (const auto& i : x.as<let>()->lets) {
      free_symbols(i.second, bound, out);
      bound.insert(i.first.id);
    }
    free_symbols(x.as<let>()->body, bound, out);
    return;
  case expr_node_type::logical_not: free_symbols(x.as<logical_not>()->a, bound, out); return;
  case expr_node_type::select:
    free_symbols(x.as<class select>()->condition, bound, out);
    free_symbols(x.as<class select>()->true_value, bound, out);
    free_symbols(x.as<class select>()->false_value, bound, out);
    return;
  case expr_node_type::call:
    for (const expr& i : x.as<call>()->args) free_symbols(i, bound, out);
    return;
  default:
    free_symbols(static_cast<const binary_op*>(x.get())->a, bound, out);
    free_symbols(static_cast<const binary_op*>(x.get())->b, bound, out);
  }
}
inline std::set<size_t> free_symbols(expr_ref x) {
  std::set<size_t> r;
  free_symbols(x, {}, r);
  return r;
}

// Shapes of expressions.
struct pattern {
  enum kind_t { wild, con, lit, pinf, ninf, maybe, op } kind;
  int64_t n = 0;
  std::string fn;
  std::vector<pattern> args;
};

struct pattern_parser {
  const char* p;
  void ws() {
    while (*p == ' ') ++p;
  }
  bool eat(const char* s) {
    ws();
    size_t n = strlen(s);
    if (strncmp(p, s, n)) return false;
    p += n;
    return true;
  }
  static pattern node(const std::string& f, std::vector<pattern> a) {
    pattern r{pattern::op};
    r.fn = f;
    r.args = std::move(a);
    return r;
  }
  pattern parse_or() {
    pattern a = parse_and();
    while (eat("||")) a = node("||", {a, parse_and()});
    return a;
  }
  pattern parse_and() {
    pattern a = parse_eq();
    while (eat("&&")) a = node("&&", {a, parse_eq()});
    return a;
  }
  pattern parse_eq() {
    pattern a = parse_rel();
    for (;;) {
      if (eat("==")) {
        a = node("==", {a, parse_rel()});
      } else if (eat("!=")) {
        a = node("!=", {a, parse_rel()});
      } else {
        return a;
      }
    }
  }
  pattern parse_rel() {
    pattern a = parse_add();
    for (;;) {
      if (eat("<=")) {
        a = node("<=", {a, parse_add()});
      } else if (eat("<")) {
        a = node("<", {a, parse_add()});
      } else {
        return a;
      }
    }
  }
  pattern parse_add() {
    pattern a = parse_mul();
    for (;;) {
      if (eat("+")) {
        a = node("+", {a, parse_mul()});
      } else if (eat("-")) {
        a = node("-", {a, parse_mul()});
      } else {
        return a;
      }
    }
  }
  pattern parse_mul() {
    pattern a = parse_unary();
    for (;;) {
      ws();
      if (eat("*")) {
        a = node("*", {a, parse_unary()});
      } else if (eat("/")) {
        a = node("/", {a, parse_unary()});
      } else if (eat("%")) {
        a = node("%", {a, parse_unary()});
      } else {
        return a;
      }
    }
  }
  pattern parse_unary() {
    ws();
    if (*p == '!' && p[1] != '=') {
      ++p;
      return node("!", {parse_unary()});
    }
    if (*p == '-') {
      ++p;
      ws();
      if (isdigit(*p)) {
        pattern r = parse_unary();
        r.n = -r.n;
        return r;
      }
      return node("neg", {parse_unary()});
    }
    if (eat("(")) {
      pattern r = parse_or();
      if (!eat(")")) abort();
      return r;
    }
    if (isdigit(*p)) {
      pattern r{pattern::lit};
      r.n = strtoll(p, const_cast<char**>(&p), 10);
      return r;
    }
    std::string id;
    while (isalnum(*p) || *p == '_') id += *p++;
    if (id == "INTMAX" || id == "INTMIN") {
      pattern r{pattern::lit};
      r.n = id == "INTMAX" ? std::numeric_limits<int64_t>::max() : std::numeric_limits<int64_t>::min();
      return r;
    }
    if (id == "PINF") return pattern{pattern::pinf};
    if (id == "NINF") return pattern{pattern::ninf};
    if (eat("(")) {
      std::vector<pattern> args;
      do {
        args.push_back(parse_or());
      } while (eat(","));
      if (!eat(")")) abort();
      if (id == "maybe") {
        pattern r{pattern::maybe};
        r.args = args;
        return r;
      }
      return node(id, args);
    }
    if (id.size() == 2 && id[0] == 'c') {
      pattern r{pattern::con};
      r.n = id[1] - '0';
      return r;
    }
    if (id.size() != 1) abort();
    pattern r{pattern::wild};
    r.n = id[0];
    return r;
  }
};

inline const std::vector<pattern>& patterns() {
  static const std::vector<pattern>* all = [] {
    static const char* const text[] = {
#include "expr_patterns.inc"
    };
    auto* r = new std::vector<pattern>();
    for (const char* t : text) {
      pattern_parser parser{t};
      r->push_back(parser.parse_or());
      parser.ws();
      if (*parser.p) abort();
    }
    return r;
  }();
  return *all;
}

// An expression written out, as by `text`, where variables are single letters.
inline expr make_expr(node_context& ctx, const pattern& p) {
  switch (p.kind) {
  case pattern::wild: return variable::make(ctx.insert(std::string(1, static_cast<char>(p.n))));
  case pattern::lit: return p.n;
  case pattern::pinf: return slinky::positive_infinity();
  case pattern::ninf: return slinky::negative_infinity();
  case pattern::op: break;
  default: abort();
  }
  const std::string& f = p.fn;
  std::vector<expr> a;
  for (const pattern& i : p.args) a.push_back(make_expr(ctx, i));
  if (f == "neg") return sub::make(0, a[0]);
  if (f == "!") return logical_not::make(a[0]);
  if (f == "abs") return slinky::abs(a[0]);
  if (f == "select") return select::make(a[0], a[1], a[2]);
  if (f == "let") return let::make(*as_variable(a[0]), a[1], a[2]);
  if (f == "+") return add::make(a[0], a[1]);
  if (f == "-") return sub::make(a[0], a[1]);
  if (f == "*") return mul::make(a[0], a[1]);
  if (f == "/") return slinky::div::make(a[0], a[1]);
  if (f == "%") return mod::make(a[0], a[1]);
  if (f == "min") return slinky::min::make(a[0], a[1]);
  if (f == "max") return slinky::max::make(a[0], a[1]);
  if (f == "==") return equal::make(a[0], a[1]);
  if (f == "!=") return not_equal::make(a[0], a[1]);
  if (f == "<") return less::make(a[0], a[1]);
  if (f == "<=") return less_equal::make(a[0], a[1]);
  if (f == "&&") return logical_and::make(a[0], a[1]);
  if (f == "||") return logical_or::make(a[0], a[1]);
  if (f == "and_then") return slinky::and_then(a[0], a[1]);
  if (f == "or_else") return slinky::or_else(a[0], a[1]);
  abort();
}

inline expr parse_expr(node_context& ctx, const char* text) {
  pattern_parser parser{text};
  pattern p = parser.parse_or();
  parser.ws();
  if (*parser.p) abort();
  return make_expr(ctx, p);
}

// Expressions that simplify once got wrong, and how it did.
inline const char* const once_wrong[] = {
    "select(max(a, b) <= 2, 1, select(a <= 2, 3, 4))",
    "select(2 < max(a, b), select(2 < a, 1, 2), 3)",  // Known finding.
    "select(min(a, b) < c, b, a)",  // Known finding.
    "select(a - 1, a - 1, a)",
    "!max(b, max(a - b, -1)) && select(b < a, a - b, a)",
    "(abs(a) == 2) || !(0 - max(a, 0))",
    "select(max(0, a) / -1, abs(abs(a)) == 2, 1)",
    "(max(a + a, 0) / 0) - min(let(x, (a + 1) % 2, a - (x + (a + a))), 0)",
    "((((a / 5) + 2147483648) / 5) * 5) < (a / 5)",
    "(a + a) * ((a * 2147483648) * 2147483648)",
    "min((select(b, ((c - d) + 1) - a, a) - ((c - d) + 1)), 0)",
};

struct options {
  int vars = 4;
  int bufs = 0;
  bool lets = true;
  bool shadow = false;  // lets may redefine symbols that are already defined.
  int let_weight = 1;
  bool infinities = false;
  bool big = true;  // occasionally big constants
  bool extreme = false;  // occasionally constants close to the limits of 64 bits
  bool raw = true;  // nodes not in canonical operand order
  bool calls = false;  // calls of functions that are not intrinsics
};

inline index_t test_function(index_t k, index_t a, index_t b) { return ((a ^ (k * 5)) & 15) - ((b ^ k) & 7); }

// The function an expression calls is identified by its index, which is its first argument.
inline value test_call(const call*, const std::vector<value>& args) {
  if (args.size() != 3) return value::bad();
  return value::num(test_function(static_cast<index_t>(args[0].v), static_cast<index_t>(args[1].v),
      static_cast<index_t>(args[2].v)));
}

class expr_gen {
public:
  pbt::gen& g;
  options opt;
  node_context& ctx;
  std::vector<var> vars;
  std::vector<var> bufs;
  std::vector<int> buf_rank;
  std::vector<var> in_scope;  // let bound
  std::vector<expr> pool;
  int lets_made = 0;
  std::set<int64_t> constants_used;
  int64_t unit = 1;

  expr_gen(pbt::gen& g, node_context& ctx, const options& opt) : g(g), opt(opt), ctx(ctx) {
    static const char* const names[] = {"a", "b", "c", "d", "e", "f", "g", "h"};
    for (int i = 0; i < opt.vars; ++i) vars.push_back(ctx.insert(names[i]));
    static const char* const bnames[] = {"B", "C", "D", "E"};
    for (int i = 0; i < opt.bufs; ++i) {
      bufs.push_back(ctx.insert(bnames[i]));
      buf_rank.push_back(static_cast<int>(g.range(1, 3)));
    }
    unit = g.pick<int64_t>({1, 1, 2, 3, 4, 5, 8, 16});
  }

  int64_t constant_value() {
    int64_t r;
    switch (g.weighted({8, 4, 3, 2, opt.big ? 1 : 0})) {
    case 0: r = g.range(-4, 9); break;
    case 1: r = unit * g.range(-4, 8); break;
    case 2: r = constants_used.empty() ? g.range(-2, 2) : near_used(); break;
    case 3: r = g.range(-100, 100); break;
    default:
      r = g.pick<int64_t>({1000, -1000, int64_t(1) << 20, -(int64_t(1) << 20), int64_t(1) << 31, -(int64_t(1) << 31)});
      if (opt.extreme && g.chance(1, 2)) {
        r = g.pick<int64_t>({int64_t(1) << 62, -(int64_t(1) << 62), std::numeric_limits<int64_t>::max(), -std::numeric_limits<int64_t>::max()});
      }
      if (g.chance(1, 2)) r = std::max(-std::numeric_limits<int64_t>::max(), g.chance(1, 2) ? saturate(r, 1) : saturate(r, -1));
      break;
    }
    constants_used.insert(r);
    return r;
  }
  static int64_t saturate(int64_t a, int64_t b) {
    int64_t r;
    return __builtin_add_overflow(a, b, &r) ? a : r;
  }
  int64_t near_used() {
    auto i = constants_used.begin();
    std::advance(i, g.below(constants_used.size()));
    int64_t r = *i;
    switch (g.below(6)) {
    case 0: return r;
    case 1: return saturate(r, 1);
    case 2: return r == -std::numeric_limits<int64_t>::max() ? r : saturate(r, -1);
    case 3: return r > -(1 << 30) && r < (1 << 30) ? -r : r;
    case 4: return r > -(1 << 30) && r < (1 << 30) ? r * g.range(-3, 3) : r;
    default: return r / 2;
    }
  }

  expr any_variable() {
    std::vector<var> l = vars;
    l.insert(l.end(), in_scope.begin(), in_scope.end());
    return variable::make(g.pick(l));
  }

  expr buffer_value() {
    size_t i = g.below(bufs.size());
    int d = static_cast<int>(g.below(buf_rank[i]));
    switch (g.weighted({4, 4, 1, 2, 1, 1})) {
    case 0: return buffer_min(bufs[i], d);
    case 1: return buffer_max(bufs[i], d);
    case 2: return buffer_stride(bufs[i], d);
    case 3: return buffer_extent(bufs[i], d);
    case 4: return buffer_fold_factor(bufs[i], d);
    default: return g.chance(1, 2) ? buffer_elem_size(bufs[i]) : buffer_rank(bufs[i]);
    }
  }

  expr leaf() {
    switch (g.weighted({5, 4, bufs.empty() ? 0 : 4, pool.empty() ? 0 : 2, opt.infinities ? 1 : 0})) {
    case 0: return vars.empty() && in_scope.empty() ? expr(constant_value()) : any_variable();
    case 1: return constant_value();
    case 2: return buffer_value();
    case 3: return g.pick(pool);
    default: return g.chance(1, 2) ? slinky::positive_infinity() : slinky::negative_infinity();
    }
  }

  // Operands of commutative operations are canonicalized by `make`, this makes a node as it is given.
  template <typename T>
  expr raw_node(expr a, expr b) {
    auto n = new T();
    n->a = std::move(a);
    n->b = std::move(b);
    return expr(n);
  }
  template <typename T>
  expr node(expr a, expr b) {
    if (opt.raw && g.chance(1, 8)) return raw_node<T>(std::move(a), std::move(b));
    return g.chance(1, 8) ? T::make(std::move(b), std::move(a)) : T::make(std::move(a), std::move(b));
  }
  template <typename T>
  expr ordered(expr a, expr b) {
    return T::make(std::move(a), std::move(b));
  }

  // The let bound symbols in_scope[i >= mark] go out of scope: nothing in the pool may mention them.
  bool mentions(expr_ref x, const std::set<size_t>& syms) {
    bool r = false;
    visit_all(x, [&](expr_ref i) {
      if (const variable* v = i.as<variable>()) r = r || syms.count(v->sym.id);
    });
    return r;
  }

  expr make_let(int size) {
    int n = static_cast<int>(g.range(1, 3));
    std::vector<std::pair<var, expr>> lets;
    size_t mark = in_scope.size();
    std::set<size_t> out;
    for (int i = 0; i < n; ++i) {
      expr v = any(std::max(1, size / (n + 1)));
      var s;
      if (opt.shadow && g.chance(1, 2)) {
        std::vector<var> l = vars;
        l.insert(l.end(), in_scope.begin(), in_scope.end());
        s = l.empty() ? ctx.insert("s") : g.pick(l);
      } else {
        s = ctx.insert("l" + std::to_string(lets_made++));
      }
      lets.push_back({s, v});
      in_scope.push_back(s);
      out.insert(s.id);
    }
    expr body = any(std::max(1, size - size / (n + 1) * n));
    in_scope.resize(mark);
    if (!opt.shadow) {
      for (size_t i = pool.size(); i-- > 0;) {
        if (mentions(pool[i], out)) pool.erase(pool.begin() + i);
      }
    }
    return let::make(std::move(lets), std::move(body));
  }

  expr condition(int size) {
    if (size <= 1 || g.chance(1, 12)) return any(size);
    int l = static_cast<int>(g.range(1, size));
    switch (g.weighted({6, 4, 3, 2, 3, 3, 2, 1, 1})) {
    case 0: return ordered<less>(any(l), any(size - l));
    case 1: return ordered<less_equal>(any(l), any(size - l));
    case 2: return node<equal>(any(l), any(size - l));
    case 3: return node<not_equal>(any(l), any(size - l));
    case 4: return node<logical_and>(condition(l), condition(size - l));
    case 5: return node<logical_or>(condition(l), condition(size - l));
    case 6: return logical_not::make(condition(size - 1));
    case 7: return slinky::and_then(condition(l), condition(size - l));
    default: return slinky::or_else(condition(l), condition(size - l));
    }
  }

  expr remember(expr x) {
    if (x.type() != expr_node_type::constant && pool.size() < 12) pool.push_back(x);
    return x;
  }

  expr any(int size) {
    if (size <= 1) return leaf();
    int l = static_cast<int>(g.range(1, size - 1));
    if (size == 2) l = 1;
    switch (g.weighted({5, 5, 3, 4, 3, 5, 5, 4, 3, opt.lets ? opt.let_weight : 0, 2, 2, 2, opt.calls ? 2 : 0})) {
    case 0: return remember(node<add>(any(l), any(size - l)));
    case 1: return remember(ordered<sub>(any(l), any(size - l)));
    case 2: return remember(node<mul>(any(l), g.chance(3, 4) ? expr(constant_value()) : any(size - l)));
    case 3: return remember(ordered<slinky::div>(any(l), g.chance(3, 4) ? expr(constant_value()) : any(size - l)));
    case 4: return remember(ordered<mod>(any(l), g.chance(3, 4) ? expr(constant_value()) : any(size - l)));
    case 5: return remember(node<class min>(any(l), any(size - l)));
    case 6: return remember(node<class max>(any(l), any(size - l)));
    case 7: return remember(condition(size));
    case 8: {
      int c = std::max(1, size / 3);
      expr cond = condition(c + 1);
      // Use what the condition talks about.
      remember(cond);
      return remember(select::make(cond, any(c), any(c)));
    }
    case 9: return make_let(size);
    case 10: return remember(call::make(intrinsic::abs, {any(size - 1)}));
    case 11: return remember(instantiate(g.pick(patterns())));
    case 12: {
      // A staircase of a shared expression.
      expr x = leaf();
      if (g.chance(1, 2)) x = x + constant_value();
      if (g.chance(3, 4)) x = x / constant_value();
      if (g.chance(1, 2)) x = x * constant_value();
      return remember(x);
    }
    default: {
      index_t k = g.range(0, 2);
      return remember(call::make(
          [k](const call* c, eval_context& ctx) -> index_t {
            return test_function(k, evaluate(c->args[1], ctx), evaluate(c->args[2], ctx));
          },
          {k, any(l), any(size - l)}));
    }
    }
  }

  // Make an expression of the shape of a pattern.
  std::map<int, expr> wilds;
  std::map<int, int64_t> cons;
  int wild_size = 1;
  expr instantiate(const pattern& p) {
    auto w = std::move(wilds);
    auto c = std::move(cons);
    int s = wild_size;
    wilds.clear();
    cons.clear();
    wild_size = g.weighted({6, 2, 1}) + 1;
    expr r = inst(p);
    wild_size = s;
    wilds = std::move(w);
    cons = std::move(c);
    return r;
  }
  int64_t con(int i) {
    auto at = cons.find(i);
    if (at != cons.end()) return at->second;
    int64_t r;
    // The conditions of rewrites compare constants, so they should often be related.
    if (!cons.empty() && g.chance(1, 3)) {
      auto j = cons.begin();
      std::advance(j, g.below(cons.size()));
      int64_t v = j->second;
      if (v > -1000000 && v < 1000000) {
        r = g.pick<int64_t>({v, -v, v + 1, v - 1, v * 2, v * unit, v / 2, v + unit});
      } else {
        r = v;
      }
      if (cons.size() >= 2 && g.chance(1, 3)) {
        int64_t v2 = cons.begin()->second;
        if (v2 > -1000000 && v2 < 1000000 && r > -1000000 && r < 1000000) r = g.pick<int64_t>({r + v2, r - v2, r * v2, v2 - r});
      }
    } else {
      r = constant_value();
    }
    return cons[i] = r;
  }
  expr wild(int i) {
    auto at = wilds.find(i);
    if (at != wilds.end()) return at->second;
    expr r = wild_size == 1 ? leaf() : g.chance(1, 3) ? condition(wild_size) : any(wild_size);
    return wilds[i] = r;
  }
  expr inst(const pattern& p) {
    switch (p.kind) {
    case pattern::wild: return wild(static_cast<int>(p.n));
    case pattern::con: return con(static_cast<int>(p.n));
    // INT64_MIN / -1 and its remainder are not representable, INT64_MIN is not a constant anyone writes.
    case pattern::lit:
      if (!opt.extreme && (p.n > (1 << 30) || p.n < -(1 << 30))) return leaf();
      return p.n == std::numeric_limits<int64_t>::min() ? p.n + 1 : p.n;
    case pattern::pinf: return opt.infinities ? slinky::positive_infinity() : leaf();
    case pattern::ninf: return opt.infinities ? slinky::negative_infinity() : leaf();
    case pattern::maybe: return inst(p.args[0]);
    case pattern::op: break;
    }
    const std::string& f = p.fn;
    if (f == "neg") return ordered<sub>(0, inst(p.args[0]));
    if (f == "!") return logical_not::make(inst(p.args[0]));
    if (f == "abs") return call::make(intrinsic::abs, {inst(p.args[0])});
    if (f == "select") {
      expr c = inst(p.args[0]);
      expr t = inst(p.args[1]);
      return select::make(c, t, inst(p.args[2]));
    }
    if (f == "staircase") {
      expr x = inst(p.args[0]);
      expr a = inst(p.args[1]), b = inst(p.args[2]), c = inst(p.args[3]);
      if (!is_zero(a)) x = x + a;
      if (!is_one(b)) x = x / b;
      if (!is_one(c)) x = x * c;
      return x;
    }
    // Absent optional operands leave the other operand.
    for (int i = 0; i < 2; ++i) {
      if (p.args[i].kind == pattern::maybe && g.chance(1, 2)) return inst(p.args[1 - i]);
    }
    expr a = inst(p.args[0]);
    expr b = inst(p.args[1]);
    if (f == "+") return node<add>(a, b);
    if (f == "-") return ordered<sub>(a, b);
    if (f == "*") return node<mul>(a, b);
    if (f == "/") return ordered<slinky::div>(a, b);
    if (f == "%") return ordered<mod>(a, b);
    if (f == "min") return node<class min>(a, b);
    if (f == "max") return node<class max>(a, b);
    if (f == "==") return node<equal>(a, b);
    if (f == "!=") return node<not_equal>(a, b);
    if (f == "<") return ordered<less>(a, b);
    if (f == "<=") return ordered<less_equal>(a, b);
    if (f == "&&") return node<logical_and>(a, b);
    if (f == "||") return node<logical_or>(a, b);
    if (f == "and_then") return slinky::and_then(a, b);
    if (f == "or_else") return slinky::or_else(a, b);
    abort();
  }
};

// What is known about the values of symbols, and how to choose values that agree with it.
struct facts {
  bounds_map bounds;
  alignment_map alignment;
  // The same, for each symbol of the generator.
  std::vector<std::optional<interval_expr>> var_bounds;
  std::vector<std::optional<alignment_type>> var_align;

  // Bounds are expressions of the variables before.
  void generate(expr_gen& eg, bool symbolic, int percent) {
    pbt::gen& g = eg.g;
    for (size_t i = 0; i < eg.vars.size(); ++i) {
      var_bounds.push_back(std::nullopt);
      var_align.push_back(std::nullopt);
      if (g.chance(percent, 100)) {
        interval_expr b;
        auto bound = [&](int64_t near) -> expr {
          if (symbolic && i > 0 && g.chance(1, 2)) {
            expr v = variable::make(eg.vars[g.below(i)]);
            switch (g.below(4)) {
            case 0: return v;
            case 1: return v + near;
            case 2: return v - near;
            default: return slinky::min(v, near);
            }
          }
          return near;
        };
        int64_t lo = g.weighted({3, 1}) == 0 ? g.range(-10, 10) : eg.constant_value();
        int64_t n = g.weighted({1, 3, 1}) == 0 ? 0 : g.range(0, 20);
        int64_t hi;
        if (__builtin_add_overflow(lo, n, &hi)) hi = lo;
        switch (g.weighted({4, 2, 2})) {
        case 0: b = {bound(lo), bound(hi)}; break;
        case 1: b = {bound(lo), expr()}; break;
        default: b = {expr(), bound(hi)}; break;
        }
        if (!b.min.defined() && g.chance(1, 4)) b.min = slinky::negative_infinity();
        if (!b.max.defined() && g.chance(1, 4)) b.max = slinky::positive_infinity();
        // A point has the same min and max object.
        if (b.min.defined() && b.max.defined() && slinky::match(b.min, b.max)) b.max = b.min;
        var_bounds.back() = b;
        bounds[eg.vars[i]] = b;
      }
      if (g.chance(percent, 200)) {
        int64_t m = g.pick<int64_t>({2, 1, 3, 4, 8, 16, eg.unit, 0});
        int64_t r = m == 0 ? g.range(-10, 10) : static_cast<int64_t>(g.below(m));
        var_align.back() = alignment_type(m, r);
        alignment[eg.vars[i]] = alignment_type(m, r);
      }
    }
  }

  // Choose values. False if there are none (or none were found).
  bool assign(expr_gen& eg, env& e) {
    pbt::gen& g = eg.g;
    for (size_t i = 0; i < eg.vars.size(); ++i) {
      i128 lo = -int64_lim, hi = int64_lim - 1;
      if (i < var_bounds.size() && var_bounds[i]) {
        if (var_bounds[i]->min.defined()) {
          value v = eval(var_bounds[i]->min, e);
          if (v.kind == value::finite) {
            lo = v.v;
          } else if (v.kind != value::infinite || v.v > 0) {
            return false;
          }
        }
        if (var_bounds[i]->max.defined()) {
          value v = eval(var_bounds[i]->max, e);
          if (v.kind == value::finite) {
            hi = v.v;
          } else if (v.kind != value::infinite || v.v < 0) {
            return false;
          }
        }
      }
      if (lo > hi) return false;
      i128 x;
      switch (g.weighted({4, 2, 3, 1})) {
      case 0: x = g.range(-12, 12); break;
      case 1: x = g.chance(1, 2) ? lo : hi; break;
      case 2: x = eg.constants_used.empty() ? 0 : eg.near_used(); break;
      default: x = g.chance(1, 3) ? g.range(-(int64_t(1) << 40), int64_t(1) << 40) : g.range(-300, 300); break;
      }
      // Unbounded variables: keep the values small enough to be useful.
      if (lo == -int64_lim && x == lo) x = -20;
      if (hi == int64_lim - 1 && x == hi) x = 20;
      if (x < lo || x > hi) {
        // Into the bounds.
        i128 span = hi - lo + 1;
        x = span <= 64 ? lo + static_cast<i128>(g.below(static_cast<uint64_t>(span))) : x < lo ? lo + g.range(0, 12) : hi - g.range(0, 12);
      }
      if (i < var_align.size() && var_align[i]) {
        int64_t m = var_align[i]->modulus, r = var_align[i]->remainder;
        if (m == 0) {
          x = r;
        } else {
          i128 up = x + fmod(r - x, m), down = x - fmod(x - r, m);
          x = up <= hi ? up : down;
        }
        if (x < lo || x > hi) return false;
      }
      if (x < -int64_lim || x >= int64_lim) return false;
      e.vars[eg.vars[i].id] = x;
    }
    for (size_t i = 0; i < eg.bufs.size(); ++i) {
      buf_meta m;
      m.elem_size = g.pick<int64_t>({1, 2, 4, 8, 12});
      for (int d = 0; d < eg.buf_rank[i]; ++d) {
        buf_meta::dim_t dm;
        dm.min = g.chance(3, 4) ? g.range(-8, 8) : eg.constants_used.empty() ? 0 : eg.near_used();
        if (dm.min > (int64_t(1) << 40) || dm.min < -(int64_t(1) << 40)) dm.min = 0;
        dm.max = dm.min + g.range(-1, 12);
        dm.stride = g.pick<int64_t>({0, 1, 2, 4, 16, 40, -4});
        dm.fold = g.chance(3, 4) ? dim::unfolded : g.range(1, 8);
        m.dims.push_back(dm);
      }
      e.bufs[eg.bufs[i].id] = m;
    }
    return true;
  }
};

inline std::string text(const env& e, const node_context& ctx) {
  std::string s;
  for (const auto& i : e.vars) s += (s.empty() ? "" : ", ") + ctx.name(var(i.first)) + "=" + str(i.second);
  for (const auto& i : e.bufs) {
    s += " " + ctx.name(var(i.first)) + "={elem_size " + std::to_string(i.second.elem_size);
    for (const auto& d : i.second.dims) {
      s += ", [" + std::to_string(d.min) + "," + std::to_string(d.max) + "] stride " + std::to_string(d.stride) + " fold " +
           std::to_string(d.fold);
    }
    s += "}";
  }
  return s;
}

inline std::string text(const facts& f, const expr_gen& eg) {
  std::string s;
  for (size_t i = 0; i < f.var_bounds.size(); ++i) {
    if (f.var_bounds[i]) s += "  " + eg.ctx.name(eg.vars[i]) + " in " + text(*f.var_bounds[i], eg.ctx) + "\n";
    if (f.var_align[i]) {
      s += "  " + eg.ctx.name(eg.vars[i]) + " = " + std::to_string(f.var_align[i]->remainder) + " mod " +
           std::to_string(f.var_align[i]->modulus) + "\n";
    }
  }
  return s;
}

}  // namespace ex

#endif
