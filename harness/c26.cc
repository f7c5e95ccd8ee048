// C26: printed text means what the program means.
#include "exprs.h"
#include "slinky/runtime/print.h"

using namespace slinky;
using namespace ex;
using pbt::gen;

namespace {

// Reads the text of an expression: operators in the order of C, calls, `let {x = a, y = b} in body` where the body is as
// long as possible (and `x` is short for `x = x`). Makes the nodes as they are written.
struct reader {
  node_context& ctx;
  std::string text;
  std::size_t at = 0;
  bool ok = true;
  std::string error;

  reader(node_context& ctx, std::string text) : ctx(ctx), text(std::move(text)) {}

  expr fail(const std::string& what) {
    if (ok) error = what + " expected at " + text.substr(at, 20);
    ok = false;
    return expr(0);
  }
  void ws() {
    while (at < text.size() && text[at] == ' ') ++at;
  }
  bool eat(const std::string& s) {
    ws();
    if (text.compare(at, s.size(), s) != 0) return false;
    at += s.size();
    return true;
  }
  void need(const std::string& s) {
    if (!eat(s)) fail(s);
  }
  template <typename T>
  static expr node(expr a, expr b) {
    auto n = new T();
    n->a = std::move(a);
    n->b = std::move(b);
    return expr(n);
  }

  expr any() { return logical_or_(); }
  expr logical_or_() {
    expr a = logical_and_();
    while (ok && eat("||")) a = node<logical_or>(a, logical_and_());
    return a;
  }
  expr logical_and_() {
    expr a = equality();
    while (ok && eat("&&")) a = node<logical_and>(a, equality());
    return a;
  }
  expr equality() {
    expr a = relation();
    while (ok) {
      if (eat("==")) a = node<equal>(a, relation());
      else if (eat("!=")) a = node<not_equal>(a, relation());
      else break;
    }
    return a;
  }
  expr relation() {
    expr a = sum();
    while (ok) {
      if (eat("<=")) a = node<less_equal>(a, sum());
      else if (eat(">=")) { expr b = sum(); a = node<less_equal>(b, a); }
      else if (eat("<")) a = node<less>(a, sum());
      else if (eat(">")) { expr b = sum(); a = node<less>(b, a); }
      else break;
    }
    return a;
  }
  expr sum() {
    expr a = product();
    while (ok) {
      if (eat("+")) a = node<add>(a, product());
      else if (eat("-")) a = node<sub>(a, product());
      else break;
    }
    return a;
  }
  expr product() {
    expr a = unary();
    while (ok) {
      if (eat("*")) a = node<mul>(a, unary());
      else if (eat("/")) a = node<slinky::div>(a, unary());
      else if (eat("%")) a = node<mod>(a, unary());
      else break;
    }
    return a;
  }
  bool digit() {
    ws();
    return at < text.size() && isdigit(static_cast<unsigned char>(text[at]));
  }
  expr number(bool negative) {
    uint64_t v = 0;
    while (digit()) v = v * 10 + static_cast<uint64_t>(text[at++] - '0');
    return expr(static_cast<index_t>(negative ? -v : v));
  }
  expr unary() {
    if (!ok) return expr(0);
    if (eat("!")) {
      expr a = unary();
      auto n = new logical_not();
      n->a = a;
      return expr(n);
    }
    if (eat("-oo()")) return negative_infinity();
    if (eat("-")) {
      if (digit()) return number(true);
      return node<sub>(expr(0), unary());
    }
    return primary();
  }
  std::vector<expr> args() {
    std::vector<expr> r;
    need("(");
    if (eat(")")) return r;
    do {
      r.push_back(any());
    } while (ok && eat(","));
    need(")");
    return r;
  }
  std::string name() {
    ws();
    std::size_t begin = at;
    while (at < text.size() && (isalnum(static_cast<unsigned char>(text[at])) || strchr("_#.<>$", text[at]))) {
      // < and > are part of the names of symbols without a name.
      if (text[at] == '<' && at != begin) break;
      if (text[at] == '>' && text[begin] != '<') break;
      ++at;
      if (text[at - 1] == '>') break;
    }
    if (begin == at) fail("a name");
    return text.substr(begin, at - begin);
  }
  var symbol() { return ctx.insert(name()); }
  expr primary() {
    ws();
    if (digit()) return number(false);
    if (eat("(")) {
      expr r = any();
      need(")");
      return r;
    }
    std::string n = name();
    if (!ok) return expr(0);
    if (n == "let") {
      std::vector<std::pair<var, expr>> lets;
      need("{");
      do {
        var s = symbol();
        lets.push_back({s, eat("=") ? any() : expr(variable::make(s))});
      } while (ok && eat(","));
      need("}");
      need("in");
      expr body = any();
      if (!ok) return expr(0);
      return let::make(std::move(lets), std::move(body));
    }
    ws();
    if (at >= text.size() || text[at] != '(') return variable::make(ctx.insert(n));
    static const std::map<std::string, buffer_field> fields = {{"buffer_rank", buffer_field::rank},
        {"buffer_elem_size", buffer_field::elem_size}, {"buffer_size_bytes", buffer_field::size_bytes},
        {"buffer_min", buffer_field::min}, {"buffer_max", buffer_field::max}, {"buffer_stride", buffer_field::stride},
        {"buffer_fold_factor", buffer_field::fold_factor}};
    auto field = fields.find(n);
    if (field != fields.end()) {
      need("(");
      var s = symbol();
      int dim = -1;
      if (eat(",")) {
        expr d = any();
        std::optional<index_t> c = as_constant(d);
        if (!c) return fail("a dimension");
        dim = static_cast<int>(*c);
      }
      need(")");
      return variable::make(s, field->second, dim);
    }
    std::vector<expr> a = args();
    if (!ok) return expr(0);
    if (n == "min" && a.size() == 2) return node<class min>(a[0], a[1]);
    if (n == "max" && a.size() == 2) return node<class max>(a[0], a[1]);
    if (n == "select" && a.size() == 3) return select::make(a[0], a[1], a[2]);
    static const std::map<std::string, intrinsic> calls = {{"abs", intrinsic::abs}, {"and_then", intrinsic::and_then},
        {"or_else", intrinsic::or_else}, {"oo", intrinsic::positive_infinity}, {"indeterminate", intrinsic::indeterminate},
        {"buffer_at", intrinsic::buffer_at}};
    auto c = calls.find(n);
    if (c == calls.end()) return fail("a function, not " + n + ",");
    return call::make(c->second, a);
  }
};

template <typename T>
std::string print_it(gen& g, const T& x, const node_context& ctx) {
  std::ostringstream s;
  if (g.chance(1, 2)) {
    s << std::tie(x, ctx);
  } else {
    print(s, x, &ctx);
  }
  return s.str();
}

void t_expr(gen& g) {
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  o.bufs = g.chance(1, 3) ? static_cast<int>(g.range(1, 2)) : 0;
  o.shadow = g.chance(1, 2);
  o.infinities = g.chance(1, 4);
  o.extreme = true;
  node_context ctx;
  expr_gen eg(g, ctx, o);
  facts f;
  expr e = g.chance(1, 3) ? eg.instantiate(g.pick(patterns())) : eg.any(static_cast<int>(g.range(2, 14)));
  // More lets inside of operators.
  if (g.chance(1, 3)) {
    var x = g.chance(1, 2) ? g.pick(eg.vars) : ctx.insert_unique("x");
    expr l = let::make(x, eg.any(2), variable::make(x) + eg.any(2));
    e = eg.node<add>(l, e);
    if (g.chance(1, 2)) e = !e;
  }
  std::string t = print_it(g, e, ctx);
  if (g.describing()) g.note() << t << "\n";
  reader r(ctx, t);
  expr back = r.any();
  r.ws();
  PBT_CHECK(g, r.ok && r.at == t.size(), "cannot read " << t << ": " << (r.ok ? "the end" : r.error) << " of\n  " << text(e, ctx));
  int checked = 0;
  for (int i = 0; i < 8; ++i) {
    env v;
    if (!f.assign(eg, v)) continue;
    value a = eval(e, v), b = eval(back, v);
    ++checked;
    PBT_CHECK(g, a.kind == b.kind && (a.kind == value::unknown || a.v == b.v || a.kind == value::indeterminate),
        t << "\nis the text of\n  " << text(e, ctx) << "\nbut reads as\n  " << text(back, ctx) << "\nWith " << text(v, ctx)
          << " that is " << b.str() << ", not " << a.str());
  }
  g.count("assignments compared", checked);
  if (checked > 0 && e.type() != expr_node_type::constant && e.type() != expr_node_type::variable) g.nontrivial();
}

// Without a context, symbols have numbers.
void t_numbered(gen& g) {
  node_context ctx;
  options o;
  o.vars = static_cast<int>(g.range(1, 4));
  o.shadow = g.chance(1, 2);
  for (int i = g.below(20); i > 0; --i) ctx.insert_unique();
  expr_gen eg(g, ctx, o);
  facts f;
  expr e = eg.any(static_cast<int>(g.range(2, 8)));
  std::ostringstream s;
  s << e;
  node_context names;
  reader r(names, s.str());
  expr back = r.any();
  r.ws();
  PBT_CHECK(g, r.ok && r.at == s.str().size(), "cannot read " << s.str() << ": " << (r.ok ? "the end" : r.error));
  int checked = 0;
  for (int i = 0; i < 6; ++i) {
    env v, w;
    if (!f.assign(eg, v)) continue;
    for (const auto& j : v.vars) w.vars[names.insert("<" + std::to_string(j.first) + ">").id] = j.second;
    value a = eval(e, v), b = eval(back, w);
    ++checked;
    PBT_CHECK(g, a.kind == b.kind && (a.kind == value::unknown || a.v == b.v),
        s.str() << "\nis the text of\n  " << text(e, ctx) << "\nWith " << text(v, ctx) << " that is " << b.str() << ", not " << a.str());
  }
  if (checked > 0 && e.type() != expr_node_type::constant) g.nontrivial();
}

// A history of making symbols: a name always means the same symbol, and no two symbols have the same name.
void t_names(gen& g) {
  node_context ctx;
  std::map<std::string, std::size_t> model;
  std::vector<std::string> names;
  const int n = static_cast<int>(g.range(1, 40));
  auto some_name = [&]() -> std::string {
    static const char* const base[] = {"x", "y", "x#0", "x#1", "_", "_#0", "x#0#0", "", "y.x", "x#2", "_#1", "x#10"};
    if (!names.empty() && g.chance(1, 3)) return g.pick(names);
    return base[g.below(std::size(base))];
  };
  for (int i = 0; i < n; ++i) {
    std::string s = some_name();
    switch (g.below(4)) {
    case 0: {
      var v = ctx.insert(s);
      auto at = model.find(s);
      if (g.describing()) g.note() << "insert " << s << " -> " << v.id << "\n";
      if (at != model.end()) {
        PBT_CHECK(g, v.id == at->second, "insert(" << s << ") is a new symbol " << v.id << ", not " << at->second);
      } else {
        PBT_CHECK(g, v.defined() && v.id == model.size(), "insert(" << s << ") is an existing symbol");
        model[s] = v.id;
        names.push_back(s);
      }
      break;
    }
    case 1:
    case 2: {
      const bool defaulted = g.chance(1, 3);
      var v = defaulted ? ctx.insert_unique() : g.chance(1, 2) ? var(ctx, s) : ctx.insert_unique(s);
      std::string name = ctx.name(v);
      if (g.describing()) g.note() << "insert_unique " << (defaulted ? "" : s) << " -> " << v.id << " " << name << "\n";
      PBT_CHECK(g, v.id == model.size() && !model.count(name), "insert_unique(" << s << ") is not new: " << name << " " << v.id);
      PBT_CHECK(g, name.compare(0, defaulted ? 1 : s.size(), defaulted ? "_" : s) == 0,
          "insert_unique(" << s << ") is called " << name);
      model[name] = v.id;
      names.push_back(name);
      break;
    }
    default: {
      std::optional<var> v = ctx.lookup(s);
      auto at = model.find(s);
      PBT_CHECK(g, v.has_value() == (at != model.end()) && (!v || v->id == at->second), "lookup(" << s << ") is wrong");
    }
    }
  }
  std::set<std::string> printed;
  for (const auto& i : model) {
    PBT_CHECK(g, ctx.name(var(i.second)) == i.first, "symbol " << i.second << " is called " << ctx.name(var(i.second)) << ", not " << i.first);
    std::string t = print_it(g, expr(variable::make(var(i.second))), ctx);
    PBT_CHECK(g, printed.insert(t).second, "two symbols are printed as " << t);
  }
  // Symbols of other contexts and no symbol.
  for (std::size_t i = 0; i < 3; ++i) {
    PBT_CHECK(g, printed.insert(ctx.name(var(model.size() + i))).second, "a symbol without a name is printed as another one");
  }
  PBT_CHECK(g, printed.insert(ctx.name(var())).second, "an undefined symbol is printed as another one");
  if (model.size() > 3) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C26";
  c.rule = "an expression with an operator was read back and evaluated, or a history made more than three symbols";
  c.targets = {
      {"expr", t_expr, 300000, 8000000},
      {"numbered", t_numbered, 100000, 3000000},
      {"names", t_names, 50000, 2000000},
  };
  return pbt::run(argc, argv, c);
}
