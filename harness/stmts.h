// Random statements over external buffers and integers, an independent interpreter of statements, and what it takes to
// run them with slinky's evaluator.
#ifndef VERIF_STMTS_H
#define VERIF_STMTS_H

#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "engine.h"
#include "exprs.h"
#include "slinky/base/thread_pool.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/print.h"
#include "slinky/runtime/stmt.h"

namespace sg {

using namespace slinky;

// ---------------------------------------------------------------------------------------------------------------------
// Views of memory

struct dimv {
  int64_t min = 0, max = 0, stride = 0, fold = -1;
  bool contains(int64_t x) const { return stride == 0 || (min <= x && x <= max); }
  int64_t offset(int64_t x) const {
    if (stride == 0) return 0;
    if (fold == dim::unfolded) return (x - min) * stride;
    int64_t m = x % fold;
    return (m < 0 ? m + fold : m) * stride;
  }
  bool broadcast() const { return min == 0 && max == 0 && stride == 0; }
};

struct view {
  char* base = nullptr;
  int64_t elem = 1;
  std::vector<dimv> d;

  dimv dim(size_t i) const { return i < d.size() ? d[i] : dimv{0, 0, 0, 0}; }
  bool empty() const {
    for (const dimv& i : d) {
      if (i.max < i.min) return true;
    }
    return false;
  }
  int64_t count() const {
    int64_t n = 1;
    for (const dimv& i : d) n *= i.max < i.min ? 0 : i.max - i.min + 1;
    return n;
  }
  void drop_broadcasts() {
    while (!d.empty() && d.back().broadcast()) d.pop_back();
  }
  // Calls f(address, coordinates) for every element.
  template <typename F>
  void each(F f) const {
    if (empty() || !base) return;
    std::vector<int64_t> x;
    for (const dimv& i : d) x.push_back(i.min);
    while (true) {
      char* p = base;
      for (size_t i = 0; i < d.size(); ++i) p += d[i].offset(x[i]);
      f(p, x);
      size_t i = 0;
      for (; i < d.size(); ++i) {
        if (x[i] < d[i].max) {
          ++x[i];
          break;
        }
        x[i] = d[i].min;
      }
      if (i == d.size()) return;
    }
  }
  // The address of x, null if it is out of bounds.
  char* at(const std::vector<int64_t>& x) const {
    char* p = base;
    for (size_t i = 0; i < d.size() && p; ++i) {
      int64_t xi = i < x.size() ? x[i] : 0;
      p = d[i].min <= xi && xi <= d[i].max ? p + d[i].offset(xi) : nullptr;
    }
    return p;
  }
  std::string str() const {
    std::ostringstream s;
    s << (base ? "" : "null ") << "elem " << elem;
    for (const dimv& i : d) {
      s << " [" << i.min << "," << i.max << (i.stride == 0 ? ",bcast" : "");
      if (i.fold != -1 && i.stride != 0) s << ",fold " << i.fold;
      s << "]";
    }
    return s.str();
  }
};

inline view of(const raw_buffer& b) {
  view v;
  v.base = static_cast<char*>(b.base);
  v.elem = b.elem_size;
  for (size_t i = 0; i < b.rank; ++i) {
    v.d.push_back({b.dims[i].min(), b.dims[i].max(), b.dims[i].stride(), b.dims[i].fold_factor()});
  }
  return v;
}

inline uint64_t mix(uint64_t a, uint64_t b) {
  a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2);
  a *= 0xbf58476d1ce4e5b9ull;
  return a ^ (a >> 29);
}

// ---------------------------------------------------------------------------------------------------------------------
// Calls

struct log {
  struct event {
    int site;
    uint64_t h;
  };
  std::vector<event> events;
  std::vector<std::string> text;
  bool verbose = false;
  int fail_at = -1;  // This call fails.
  int64_t elements = 0;
  int64_t limit = 200000;
  bool too_long = false;
  bool dataflow = false;
  int checks_failed = 0, calls_failed = 0;
  // Sites that do not read their inputs in dataflow mode.
  std::set<int>* blind = nullptr;
  // Called in dataflow mode before a call that reads.
  std::function<void(int site, const std::vector<view>& in, const std::vector<view>& out)> inspect;
  // Called before an element is written.
  std::function<void(char* at, const void* value, int64_t size)> write;

  void add(int site, uint64_t h, const std::string& s) {
    events.push_back({site, h});
    if (verbose) text.push_back(s);
  }
};

// What a call does: reads all of its inputs, then overwrites all of its outputs, with values that depend on all of it.
inline index_t run_call(int site, log& l, std::vector<view> in, std::vector<view> out, const std::vector<int64_t>& scalars) {
  for (view& v : in) v.drop_broadcasts();
  for (view& v : out) v.drop_broadcasts();
  int64_t n = 1;
  for (const view& v : in) n += v.count();
  for (const view& v : out) n += v.count();
  l.elements += n;
  if (l.elements > l.limit || static_cast<int64_t>(l.events.size()) > 4000) {
    l.too_long = true;
    return 99;
  }
  if (l.dataflow) {
    if (l.inspect) l.inspect(site, in, out);
    const bool blind = l.blind && l.blind->count(site);
    for (size_t o = 0; o < out.size(); ++o) {
      out[o].each([&](char* p, const std::vector<int64_t>& x) {
        uint64_t h = mix(site * 16 + o, 77);
        for (int64_t i : x) h = mix(h, i);
        if (!blind) {
          for (const view& v : in) {
            char* q = v.at(x);
            uint64_t e = 0;
            if (q) memcpy(&e, q, v.elem);
            h = mix(h, q ? e : 0x1234567);
          }
        }
        if (l.write) l.write(p, &h, out[o].elem);
        memcpy(p, &h, out[o].elem);
      });
    }
    l.add(site, 0, "");
    return 0;
  }
  uint64_t h = mix(site, 1234567);
  std::ostringstream s;
  if (l.verbose) s << "call " << site << "(";
  for (int64_t i : scalars) {
    h = mix(h, i);
    if (l.verbose) s << i << " ";
  }
  auto shape = [&](const view& v) {
    if (v.empty()) {
      h = mix(h, 555);
      if (l.verbose) s << "{empty}";
      return;
    }
    h = mix(h, v.base ? 3 : 4);
    h = mix(h, v.elem);
    for (const dimv& d : v.d) {
      h = mix(h, d.min);
      h = mix(h, d.max);
      h = mix(h, d.stride == 0);
      h = mix(h, d.stride == 0 ? -1 : d.fold);
    }
    if (l.verbose) s << "{" << v.str() << "}";
  };
  for (const view& v : in) {
    shape(v);
    uint64_t c = 1;
    v.each([&](char* p, const std::vector<int64_t>&) {
      uint64_t e = 0;
      memcpy(&e, p, v.elem);
      c = mix(c, e);
    });
    h = mix(h, c);
    if (l.verbose) s << "=" << std::hex << (c & 0xffff) << std::dec << " ";
  }
  if (l.verbose) s << "-> ";
  for (const view& v : out) shape(v);
  uint64_t k = h;
  for (const view& v : out) {
    v.each([&](char* p, const std::vector<int64_t>&) {
      k = mix(k, 17);
      memcpy(p, &k, v.elem);
    });
  }
  bool fails = static_cast<int>(l.events.size()) == l.fail_at;
  if (l.verbose) s << ")" << (fails ? " fails" : "");
  l.add(site, h, s.str());
  return fails ? 7 + site % 3 : 0;
}

// ---------------------------------------------------------------------------------------------------------------------
// Programs

struct options {
  bool shadow = false;     // Symbols may be declared again.
  bool shadow_allocs = true;  // Including by allocations.
  bool folds = true;
  bool parallel = true;
  bool async = true;
  bool shadow_async = true;   // Including by asyncs, whose symbol is not defined in the task.
  bool free = false;
  bool dataflow = false;   // Every buffer is written by one call, and only read after that.
  bool checks = true;
  bool scalars = true;
  bool fields = true;      // Expressions use metadata of buffers.
  bool constant_buffers = true;
  bool make_buffers = true;
  bool out_of_bounds = true;  // Slices may be out of bounds.
  bool empty_bases = true;  // Empty buffers may have a base that is not null.
  int size = 14;
};

struct ext_buf {
  var sym;
  int64_t elem;
  std::vector<dimv> d;
  int64_t base_offset = 0, bytes = 0;
  bool input = false;
};

struct program {
  node_context ctx;
  std::vector<ext_buf> bufs;
  std::vector<std::pair<var, int64_t>> ints;
  stmt body;
  log* l = nullptr;  // Where the calls report to.
  int sites = 0;
  int nodes = 0;
  std::map<std::string, int> kinds;
  std::set<int> looped;  // The buffers that are written in loops.
  // Memory of constant buffers.
  struct constant {
    std::shared_ptr<std::vector<char>> mem;
    std::vector<dim> dims;
    raw_buffer_ptr buf;
  };
  std::vector<std::shared_ptr<constant>> constants;
};

class generator {
public:
  pbt::gen& g;
  program& p;
  options o;
  struct buf {
    var sym;
    int rank;
    bool folded;
    int64_t elem;
    int root;
    bool bcast = false;  // Some dimension may be a broadcast.
  };
  struct scope {
    std::vector<buf> bufs;
    std::vector<var> ints;
  };
  struct root {
    bool readable, writable;
  };
  std::vector<root> roots;
  std::vector<var> names;
  int loops = 0, fresh = 0;

  generator(pbt::gen& g, program& p, const options& o) : g(g), p(p), o(o) {}

  var new_name(const char* base, const scope& s, bool may_shadow = true) {
    if (o.shadow && may_shadow && !names.empty() && g.chance(1, 3)) return g.pick(names);
    (void)s;
    var v = p.ctx.insert(base + std::to_string(fresh++));
    names.push_back(v);
    return v;
  }
  static void hide(scope& s, var v) {
    for (size_t i = 0; i < s.bufs.size();) {
      if (s.bufs[i].sym == v) s.bufs.erase(s.bufs.begin() + i);
      else ++i;
    }
    for (size_t i = 0; i < s.ints.size();) {
      if (s.ints[i] == v) s.ints.erase(s.ints.begin() + i);
      else ++i;
    }
  }
  static scope with(const scope& s, buf b) {
    scope r = s;
    hide(r, b.sym);
    r.bufs.push_back(b);
    return r;
  }
  static scope with(const scope& s, var v) {
    scope r = s;
    hide(r, v);
    r.ints.push_back(v);
    return r;
  }

  expr leaf(const scope& s) {
    switch (g.weighted({3, s.ints.empty() ? 0 : 6, s.bufs.empty() || !o.fields ? 0 : 3})) {
    case 0: return g.range(-3, 5);
    case 1: return expr(g.pick(s.ints));
    default: {
      const buf& b = g.pick(s.bufs);
      int d = static_cast<int>(g.below(b.rank + (g.chance(1, 6) ? 1 : 0)));
      if (b.rank == 0) d = 0;
      switch (g.weighted({4, 4, 1, 1})) {
      case 0: return buffer_min(b.sym, d);
      case 1: return buffer_max(b.sym, d);
      case 2: return buffer_extent(b.sym, d);
      default: return buffer_elem_size(b.sym);
      }
    }
    }
  }
  expr any(const scope& s, int size) {
    if (size <= 1) return leaf(s);
    int l = static_cast<int>(g.range(1, size - 1));
    switch (g.weighted({5, 4, 3, 3, 2, 4, 4, 3, 2, 1, 1, 1})) {
    case 0: return any(s, l) + any(s, size - l);
    case 1: return any(s, l) - any(s, size - l);
    case 2: return any(s, size - 1) * expr(g.range(-2, 3));
    case 3: return floor_div(any(s, size - 1), expr(g.range(1, 4)));
    case 4: return any(s, size - 1) % expr(g.range(1, 4));
    case 5: return slinky::min(any(s, l), any(s, size - l));
    case 6: return slinky::max(any(s, l), any(s, size - l));
    case 7: return select(cond(s, std::max(2, size / 2)), any(s, 1), any(s, size / 2));
    case 8: return cond(s, size);
    case 9: return abs(any(s, size - 1));
    case 10: {
      var v = new_name("t", s);
      expr value = any(s, l);
      return let::make(v, value, any(with(s, v), size - l));
    }
    default: {
      std::vector<std::pair<var, expr>> lets;
      scope in = s;
      for (int i = 0; i < 2; ++i) {
        var v = new_name("t", in);
        // The same symbol twice in one let is covered by the simplifier's own checks.
        bool dup = false;
        for (auto& j : lets) dup = dup || j.first == v;
        if (dup && !o.shadow) continue;
        lets.push_back({v, any(in, 1)});
        in = with(in, v);
      }
      return let::make(std::move(lets), any(in, size - l));
    }
    }
  }
  expr cond(const scope& s, int size) {
    int l = static_cast<int>(g.range(1, std::max(1, size - 1)));
    int r = std::max(1, size - l);
    switch (g.weighted({5, 4, 3, 2, 2, 2, 1, 1, 1})) {
    case 0: return any(s, l) < any(s, r);
    case 1: return any(s, l) <= any(s, r);
    case 2: return any(s, l) == any(s, r);
    case 3: return any(s, l) != any(s, r);
    case 4: return size < 3 ? any(s, l) < any(s, r) : cond(s, size / 2) && cond(s, size / 2);
    case 5: return size < 3 ? any(s, l) < any(s, r) : cond(s, size / 2) || cond(s, size / 2);
    case 6: return size < 3 ? any(s, 1) == 0 : !cond(s, size - 1);
    case 7: return size < 3 ? any(s, 1) == 0 : and_then(cond(s, size / 2), cond(s, size / 2));
    default: return size < 3 ? any(s, 1) == 0 : or_else(cond(s, size / 2), cond(s, size / 2));
    }
  }
  // A coordinate in dimension d of b.
  expr coord(const scope& s, const buf& b, int d) {
    if (g.chance(1, 8) && b.rank > 1) d = static_cast<int>(g.below(b.rank));
    switch (g.weighted({4, 4, s.ints.empty() ? 0 : 6, 2, 2})) {
    case 0: return buffer_min(b.sym, d) + g.range(0, 2);
    case 1: return buffer_max(b.sym, d) - g.range(0, 2);
    case 2: {
      expr v = g.pick(s.ints);
      int64_t k = g.range(-1, 2);
      if (g.chance(1, 5)) v = v * expr(g.range(-2, 2));
      if (g.chance(1, 8)) v = floor_div(v, expr(g.range(1, 3)));
      return k ? v + k : v;
    }
    case 3: return g.range(-2, 4);
    default: return clamp(any(s, 3), -5, 7);
    }
  }
  interval_expr bounds(const scope& s, const buf& b, int d) {
    switch (g.weighted({5, 3, 2, 2})) {
    case 0: {
      expr m = coord(s, b, d);
      if (g.chance(1, 2)) return {m, m + g.range(0, 3)};
      return {m, coord(s, b, d)};
    }
    case 1: return point(coord(s, b, d));
    case 2: return {coord(s, b, d), expr()};
    default: return {expr(), coord(s, b, d)};
    }
  }
  // In bounds of a buffer, wherever it is.
  expr in_bounds(const scope& s, const buf& b, int d) {
    if (o.out_of_bounds && g.chance(1, 4)) return coord(s, b, d);
    switch (g.weighted({3, 2, s.ints.empty() ? 0 : 5})) {
    case 0: return buffer_min(b.sym, d);
    case 1: return buffer_max(b.sym, d);
    default: return clamp(expr(g.pick(s.ints)) + g.range(-1, 1), buffer_min(b.sym, d), buffer_max(b.sym, d));
    }
  }

  stmt call(const scope& s, std::vector<buf> in, std::vector<buf> out, std::vector<expr> scalars) {
    (void)s;
    ++p.kinds["call"];
    const int site = p.sites++;
    program* pp = &p;
    call_stmt::symbol_list is, os;
    for (const buf& i : in) is.push_back(i.sym);
    for (const buf& i : out) os.push_back(i.sym);
    return call_stmt::make(
        [site, pp](const call_stmt* op, eval_context& ctx) -> index_t {
          std::vector<view> in, out;
          std::vector<int64_t> scalars;
          for (var i : op->inputs) in.push_back(of(*ctx.lookup_buffer(i)));
          for (var i : op->outputs) out.push_back(of(*ctx.lookup_buffer(i)));
          for (const expr& i : op->scalars) scalars.push_back(evaluate(i, ctx));
          return run_call(site, *pp->l, std::move(in), std::move(out), scalars);
        },
        std::move(is), std::move(os), std::move(scalars), {0, std::numeric_limits<int>::max(), "c" + std::to_string(site)});
  }
  stmt gen_call(const scope& s) {
    std::vector<buf> in, out;
    std::vector<buf> can_in, can_out;
    for (const buf& b : s.bufs) {
      if (roots[b.root].readable) can_in.push_back(b);
      if (roots[b.root].writable) can_out.push_back(b);
    }
    // Prefer what was declared last.
    auto pick = [&](const std::vector<buf>& l) -> const buf& {
      return g.chance(1, 2) ? l.back() : g.pick(l);
    };
    int n = can_out.empty() ? 0 : g.weighted({1, 8, 2});
    for (int i = 0; i < n; ++i) {
      const buf& b = pick(can_out);
      if (o.dataflow && i > 0 && b.root == out[0].root) continue;
      out.push_back(b);
    }
    if (o.dataflow && out.empty()) return stmt();
    n = can_in.empty() ? 0 : g.weighted({2, 6, 3});
    for (int i = 0; i < n; ++i) in.push_back(pick(can_in));
    std::vector<expr> scalars;
    while (o.scalars && g.chance(1, 3) && scalars.size() < 3) scalars.push_back(any(s, 3));
    if (o.dataflow) {
      for (const buf& b : out) {
        roots[b.root].readable = true;
        roots[b.root].writable = false;
        if (loops > 0) p.looped.insert(b.root);
      }
    }
    return call(s, in, out, scalars);
  }

  bool can_write(const scope& s) {
    for (const buf& b : s.bufs) {
      if (roots[b.root].writable) return true;
    }
    return false;
  }

  stmt gen(const scope& s, int size) {
    ++p.nodes;
    if (size <= 1) return gen_call(s);
    const bool b = !s.bufs.empty();
    const int w_loop = loops < 2 ? 4 : 0;
    switch (g.weighted({2, 6, w_loop, 2, 3, b ? 5 : 0, b ? 3 : 0, b ? 3 : 0, b ? 2 : 0, b ? 3 : 0, b ? 2 : 0,
        b && o.make_buffers ? 3 : 0, o.checks ? 1 : 0, o.constant_buffers ? 1 : 0, o.async ? 1 : 0})) {
    case 0: return gen_call(s);
    case 1: {
      ++p.kinds["block"];
      int n = static_cast<int>(g.range(2, 3));
      std::vector<stmt> r;
      for (int i = 0; i < n; ++i) r.push_back(gen(s, std::max(1, size / n)));
      return block::make(std::move(r));
    }
    case 2: {
      ++p.kinds["loop"];
      var v = new_name("i", s);
      interval_expr bounds;
      if (b && g.chance(1, 2)) {
        const buf& f = g.pick(s.bufs);
        int d = f.rank > 0 ? static_cast<int>(g.below(f.rank)) : 0;
        bounds = buffer_bounds(f.sym, d);
      } else {
        expr m = g.chance(1, 2) ? expr(g.range(-2, 2)) : clamp(any(s, 2), -3, 3);
        bounds = {m, m + (g.chance(1, 2) ? expr(g.range(0, 5)) : clamp(any(s, 2), -2, 5))};
      }
      expr step = g.weighted({5, 1}) == 0 ? expr(g.pick<int64_t>({1, 1, 1, 2, 3})) : clamp(any(s, 2), 1, 3);
      expr workers = loop::serial;
      bool par = o.parallel && g.chance(1, 4);
      if (par) workers = g.chance(1, 2) ? expr(loop::parallel) : expr(g.range(2, 3));
      else if (g.chance(1, 8)) workers = slinky::min(any(s, 2), 1);
      ++loops;
      scope in = with(s, v);
      stmt body = gen(in, size - 1);
      --loops;
      if (!body.defined()) return body;
      if (par) {
        ++p.kinds["parallel"];
        if (!o.dataflow && g.chance(1, 2)) body = closure(in, body);
      }
      return loop::make(v, workers, bounds, step, body);
    }
    case 3: {
      ++p.kinds["let"];
      int n = g.weighted({3, 2, 1}) + 1;
      std::vector<std::pair<var, expr>> lets;
      scope in = s;
      for (int i = 0; i < n; ++i) {
        var v = new_name("x", in);
        bool dup = false;
        for (auto& j : lets) dup = dup || j.first == v;
        if (dup && !o.shadow) continue;
        lets.push_back({v, clamp(any(in, 3), -6, 8)});
        in = with(in, v);
      }
      stmt body = gen(in, size - 1);
      if (!body.defined()) return body;
      return let_stmt::make(std::move(lets), body);
    }
    case 4: {
      ++p.kinds["allocate"];
      buf n;
      n.rank = static_cast<int>(g.range(0, 3));
      n.elem = g.pick<int64_t>({1, 2, 4});
      n.folded = false;
      n.root = static_cast<int>(roots.size());
      roots.push_back({!o.dataflow, true});
      std::vector<dim_expr> dims;
      for (int d = 0; d < n.rank; ++d) {
        if (g.chance(1, 8)) {
          dims.push_back({point(expr(0)), 0, expr()});
          continue;
        }
        interval_expr i;
        if (b && g.chance(2, 3)) {
          const buf& f = g.pick(s.bufs);
          int fd = f.rank > 0 ? static_cast<int>(g.below(f.rank)) : 0;
          i = buffer_bounds(f.sym, fd);
          int64_t k = g.range(0, 1);
          i.max = slinky::max(i.min, i.max) + k;
          if (g.chance(1, 4)) i.min = i.min - 1;
        } else {
          expr m = clamp(any(s, 2), -4, 4);
          i = {m, m + (g.chance(1, 2) ? expr(g.range(0, 4)) : clamp(any(s, 2), 0, 4))};
        }
        expr fold;
        if (o.folds && g.chance(1, 6)) {
          fold = g.range(1, 4);
          n.folded = true;
        }
        dims.push_back({i, expr(), fold});
      }
      n.sym = new_name("m", s, o.shadow_allocs);
      scope in = with(s, n);
      stmt body;
      if (!o.dataflow) {
        stmt init = call(in, {}, {n}, {});
        stmt rest = gen(in, size - 1);
        // A call reads the whole buffer at the end, so that its contents matter.
        if (g.chance(1, 2)) rest = block::make(rest, call(in, {n}, {}, {}));
        body = block::make(init, rest);
      } else {
        body = gen(in, size - 1);
        if (!body.defined()) return body;
        // Use it.
        if (g.chance(1, 2)) body = block::make(body, gen_call(in));
      }
      memory_type t = g.pick({memory_type::heap, memory_type::heap, memory_type::stack, memory_type::automatic});
      return allocate::make(n.sym, t, n.elem, std::move(dims), body);
    }
    case 5: {
      ++p.kinds["crop_dim"];
      buf src = g.pick(s.bufs), n = src;
      // The simplifier does not know if a dimension is a broadcast, which is not cropped.
      if (o.dataflow && (src.bcast || src.rank == 0)) return gen(s, size - 1);
      int d = static_cast<int>(g.below(std::max(1, src.rank + (!o.dataflow && g.chance(1, 8) ? 1 : 0))));
      interval_expr i = bounds(s, src, d);
      n.sym = o.shadow && g.chance(1, 3) ? src.sym : new_name("c", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return crop_dim::make(n.sym, src.sym, d, i, body);
    }
    case 6: {
      ++p.kinds["crop_buffer"];
      buf src = g.pick(s.bufs), n = src;
      if (o.dataflow && (src.bcast || src.rank == 0)) return gen(s, size - 1);
      int r = static_cast<int>(g.below(src.rank + 1)) + (!o.dataflow && g.chance(1, 8) ? 1 : 0);
      box_expr bs;
      for (int d = 0; d < r; ++d) bs.push_back(g.chance(1, 3) ? interval_expr() : bounds(s, src, d));
      n.sym = o.shadow && g.chance(1, 3) ? src.sym : new_name("c", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return crop_buffer::make(n.sym, src.sym, bs, body);
    }
    case 7: {
      ++p.kinds["slice_dim"];
      buf src = g.pick(s.bufs), n = src;
      // The simplifier ignores slices of broadcasts.
      if (o.dataflow && src.bcast) return gen(s, size - 1);
      int d = static_cast<int>(g.below(std::max(1, src.rank + (g.chance(1, 8) ? 1 : 0))));
      expr at = in_bounds(s, src, d);
      if (d < n.rank) --n.rank;
      n.sym = o.shadow && g.chance(1, 3) ? src.sym : new_name("s", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return slice_dim::make(n.sym, src.sym, d, at, body);
    }
    case 8: {
      ++p.kinds["slice_buffer"];
      buf src = g.pick(s.bufs), n = src;
      // The simplifier ignores slices of broadcasts.
      if (o.dataflow && src.bcast) return gen(s, size - 1);
      int r = static_cast<int>(g.below(src.rank + 1)) + (g.chance(1, 8) ? 1 : 0);
      std::vector<expr> at;
      for (int d = 0; d < r; ++d) {
        at.push_back(g.chance(1, 3) ? expr() : in_bounds(s, src, d));
        if (at.back().defined() && d < src.rank) --n.rank;
      }
      n.sym = o.shadow && g.chance(1, 3) ? src.sym : new_name("s", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return slice_buffer::make(n.sym, src.sym, at, body);
    }
    case 9: {
      ++p.kinds["transpose"];
      buf src = g.pick(s.bufs), n = src;
      std::vector<int> dims;
      // The base of a folded buffer is not its min, so a dimension of it cannot be dropped.
      if (!src.folded && g.chance(1, 3)) {
        int r = static_cast<int>(g.range(0, src.rank + (o.shadow && g.chance(1, 6) ? 1 : 0)));
        for (int d = 0; d < r; ++d) dims.push_back(d);
      } else {
        for (int d = 0; d < src.rank; ++d) dims.push_back(d);
        for (int i = src.rank - 1; i > 0; --i) std::swap(dims[i], dims[g.below(i + 1)]);
        if (!src.folded && g.chance(1, 4) && !dims.empty()) dims.pop_back();
        if (g.chance(1, 6)) dims.insert(dims.begin() + g.below(dims.size() + 1), transpose::new_dim);
      }
      n.rank = static_cast<int>(dims.size());
      for (int d : dims) n.bcast = n.bcast || d < 0 || d >= src.rank;
      n.sym = o.shadow && g.chance(1, 3) ? src.sym : new_name("y", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return transpose::make(n.sym, src.sym, dims, body);
    }
    case 10: {
      ++p.kinds["clone"];
      buf src = g.pick(s.bufs), n = src;
      n.sym = o.shadow && g.chance(1, 3) ? src.sym : new_name("k", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return clone_buffer::make(n.sym, src.sym, body);
    }
    case 11: {
      buf src = g.pick(s.bufs), n = src;
      if (src.folded) return gen(s, size - 1);
      ++p.kinds["make_buffer"];
      std::vector<expr> at;
      std::vector<dim_expr> dims;
      n.rank = 0;
      for (int d = 0; d < src.rank; ++d) {
        expr x = g.chance(1, 3) ? buffer_min(src.sym, d) : in_bounds(s, src, d);
        at.push_back(x);
        if (g.chance(1, 6)) continue;  // Slice this dimension.
        expr lo = g.chance(1, 2) ? x : expr(g.range(-2, 2));
        expr hi = lo + (buffer_max(src.sym, d) - x);
        if (g.chance(1, 4)) hi = slinky::min(hi, lo + g.range(o.empty_bases ? -1 : 0, 3));
        dims.push_back({{lo, hi}, buffer_stride(src.sym, d), expr()});
        ++n.rank;
      }
      if (dims.size() > 1 && g.chance(1, 3)) std::swap(dims[0], dims[dims.size() - 1]);
      if (g.chance(1, 6)) {
        dims.push_back({point(expr(0)), 0, expr()});
        ++n.rank;
        n.bcast = true;
      }
      if (at.empty()) at.push_back(0);
      n.sym = o.shadow && g.chance(1, 4) ? src.sym : new_name("z", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return make_buffer::make(n.sym, buffer_at(src.sym, at), buffer_elem_size(src.sym), dims, body);
    }
    case 12: {
      ++p.kinds["check"];
      expr c = cond(s, 4);
      if (o.dataflow) {
        // The simplifier aborts if it finds that a check can never hold.
        if (p.ints.empty()) return gen(s, size - 1);
        auto& i = g.pick(p.ints);
        c = c || expr(i.first) <= i.second - (g.chance(1, 8) ? 1 : 0);
      } else if (g.chance(3, 4)) {
        c = c || any(s, 2) <= 100;  // Most checks hold.
      }
      return block::make(check::make(c), gen(s, size - 1));
    }
    case 13: {
      ++p.kinds["constant_buffer"];
      auto k = std::make_shared<program::constant>();
      buf n;
      n.rank = static_cast<int>(g.range(0, 2));
      n.elem = g.pick<int64_t>({1, 2});
      n.folded = false;
      n.root = static_cast<int>(roots.size());
      roots.push_back({true, false});
      int64_t stride = n.elem;
      for (int d = 0; d < n.rank; ++d) {
        int64_t m = g.range(-2, 2), e = g.range(1, 3);
        k->dims.push_back(dim(m, m + e - 1, stride));
        stride *= e;
      }
      k->mem = std::make_shared<std::vector<char>>(stride + n.elem);
      for (size_t i = 0; i < k->mem->size(); ++i) (*k->mem)[i] = static_cast<char>(i * 29 + 3);
      k->buf = std::make_shared<raw_buffer>();
      k->buf->base = k->mem->data();
      k->buf->elem_size = n.elem;
      k->buf->rank = k->dims.size();
      k->buf->dims = k->dims.data();
      p.constants.push_back(k);
      n.sym = new_name("q", s);
      stmt body = gen(with(s, n), size - 1);
      if (!body.defined()) return body;
      return constant_buffer::make(n.sym, k->buf, body);
    }
    default: {
      ++p.kinds["async"];
      stmt task = gen(s, size / 2), body = gen(s, size / 2);
      if (!task.defined()) return body;
      if (!body.defined()) return task;
      if (g.chance(1, 2)) task = closure(s, task);
      if (g.chance(1, 2)) body = closure(s, body);
      return async::make(g.chance(1, 2) ? new_name("j", s, o.shadow_async) : var(), task, body);
    }
    }
  }
  // A closure of everything in scope.
  stmt closure(const scope& s, stmt body) {
    ++p.kinds["closure"];
    std::vector<std::pair<var, expr>> lets;
    for (const buf& i : s.bufs) lets.push_back({i.sym, variable::make(i.sym)});
    for (var i : s.ints) lets.push_back({i, variable::make(i)});
    return let_stmt::make(std::move(lets), std::move(body), /*is_closure=*/true);
  }

  void run() {
    scope s;
    int n = static_cast<int>(g.range(1, 3));
    if (o.dataflow) n = std::max(n, 2);
    for (int i = 0; i < n; ++i) {
      ext_buf e;
      e.sym = p.ctx.insert("b" + std::to_string(i));
      names.push_back(e.sym);
      e.elem = g.pick<int64_t>({1, 2, 4});
      e.input = o.dataflow && (i == 0 || (i > 1 && g.chance(1, 2)));
      int rank = static_cast<int>(g.range(i == 0 ? 1 : 0, 3));
      std::vector<int> order;
      for (int d = 0; d < rank; ++d) order.push_back(d);
      for (int d = rank - 1; d > 0; --d) std::swap(order[d], order[g.below(d + 1)]);
      e.d.resize(rank);
      int64_t stride = e.elem, lo = 0;
      buf b{e.sym, rank, false, e.elem, static_cast<int>(roots.size())};
      for (int d : order) {
        dimv& v = e.d[d];
        v.min = g.range(-3, 3);
        int64_t extent = o.empty_bases && g.chance(1, 16) ? 0 : g.range(1, 5);
        v.max = v.min + extent - 1;
        if (g.chance(1, 10) && (!o.dataflow || e.input)) {
          v.stride = 0;
          b.bcast = true;
          if (g.chance(1, 2)) v.min = v.max = 0;
          continue;
        }
        v.stride = stride;
        int64_t n = extent;
        if (o.folds && extent > 0 && g.chance(1, 8)) {
          v.fold = n = g.range(1, 4);
          b.folded = true;
        }
        stride *= std::max<int64_t>(n, 1) + (g.chance(1, 6) ? 1 : 0);
        if (g.chance(1, 10) && v.fold == -1) {
          v.stride = -v.stride;
          lo += (n > 0 ? n - 1 : 0) * v.stride;
        }
      }
      e.bytes = stride + e.elem;
      e.base_offset = -lo;
      e.bytes += e.base_offset;
      roots.push_back({!o.dataflow || e.input, !e.input});
      p.bufs.push_back(e);
      s.bufs.push_back(b);
    }
    int k = static_cast<int>(g.range(0, 2));
    for (int i = 0; i < k; ++i) {
      var v = p.ctx.insert("v" + std::to_string(i));
      names.push_back(v);
      p.ints.push_back({v, g.range(-3, 6)});
      s.ints.push_back(v);
    }
    int size = static_cast<int>(g.range(2, o.size));
    p.body = gen(s, size);
    if (o.dataflow) {
      // Produce what was not.
      while (g.chance(2, 3) && can_write(s)) p.body = block::make(p.body, gen(s, std::max(2, size / 2)));
    }
  }
};

inline std::string describe(const program& p) {
  std::ostringstream s;
  for (const ext_buf& b : p.bufs) {
    view v;
    v.elem = b.elem;
    v.d = b.d;
    s << p.ctx.name(b.sym) << ": " << v.str() << " strides";
    for (const dimv& d : b.d) s << " " << d.stride;
    s << "\n";
  }
  for (auto& i : p.ints) s << p.ctx.name(i.first) << " = " << i.second << "\n";
  s << std::tie(p.body, p.ctx);
  return s.str();
}

// ---------------------------------------------------------------------------------------------------------------------
// Running a program with slinky

// Runs tasks immediately, in a given order, with several copies of the task.
struct inline_pool : public thread_pool {
  bool backwards = false;
  bool deferred = false;  // Tasks run when they are waited for.
  int copies = 1;
  struct done_task : public task {
    std::function<void()> run;
    bool done() const override { return !run; }
  };
  int thread_count() const override { return 4; }
  ref_count<task> enqueue(std::size_t n, task_body t, int) override {
    auto all = [this, n, t]() {
      std::vector<task_body> c(copies, t);
      for (std::size_t i = 0; i < n; ++i) c[i % copies](backwards ? n - 1 - i : i);
    };
    auto r = new done_task();
    if (deferred) {
      r->run = all;
    } else {
      all();
    }
    return ref_count<task>(r);
  }
  void wait_for(task* t) override {
    auto d = static_cast<done_task*>(t);
    if (d && d->run) {
      auto run = std::move(d->run);
      d->run = nullptr;
      run();
    }
  }
  void wait_for(predicate_ref condition) override { condition(); }
  void atomic_call(function_ref<void()> t) override { t(); }
};

struct memory {
  std::vector<std::vector<char>> m;
  explicit memory(const program& p) {
    for (const ext_buf& b : p.bufs) {
      std::vector<char> v(b.bytes);
      for (size_t i = 0; i < v.size(); ++i) v[i] = static_cast<char>(mix(i, b.bytes) >> 3);
      m.push_back(std::move(v));
    }
  }
};

struct machine {
  memory mem;
  std::vector<std::vector<dim>> dims;
  std::vector<std::unique_ptr<raw_buffer>> bufs;
  eval_config cfg;
  eval_context ctx;
  inline_pool pool;
  int live = 0;
  std::string error;

  machine(const program& p, bool with_pool) : mem(p) {
    cfg.check_failed = [&p](const expr&) { ++p.l->checks_failed; };
    cfg.call_failed = [&p](const call_stmt*) { ++p.l->calls_failed; };
    cfg.allocate = [this](var, raw_buffer* b) {
      void* r = b->allocate();
      if (r) {
        memset(static_cast<char*>(b->base) + b->min_offset_bytes(), 0xCD, b->size_bytes());
        ++live;
      }
      return r;
    };
    cfg.free = [this](var, raw_buffer*, void* a) {
      --live;
      ::free(a);
    };
    cfg.auto_stack_threshold = 16;
    if (with_pool) cfg.thread_pool = &pool;
    ctx.config = &cfg;
    ctx.reserve(64);
    for (size_t i = 0; i < ctx.size(); ++i) ctx.set(var(i), 0x5a5a0000 + i);
    for (size_t i = 0; i < p.bufs.size(); ++i) {
      std::vector<dim> ds;
      for (const dimv& d : p.bufs[i].d) ds.push_back(dim(d.min, d.max, d.stride, d.fold));
      dims.push_back(std::move(ds));
    }
    for (size_t i = 0; i < p.bufs.size(); ++i) {
      bufs.emplace_back(new raw_buffer());
      raw_buffer& b = *bufs.back();
      b.base = mem.m[i].data() + p.bufs[i].base_offset;
      b.elem_size = p.bufs[i].elem;
      b.rank = dims[i].size();
      b.dims = dims[i].data();
      ctx[p.bufs[i].sym] = reinterpret_cast<index_t>(&b);
    }
    for (auto& i : p.ints) ctx[i.first] = i.second;
  }

  index_t run(const program& p, const stmt& s) {
    if (!s.defined()) return 0;
    std::vector<index_t> before;
    for (size_t i = 0; i < ctx.size(); ++i) before.push_back(ctx.lookup(var(i)));
    std::vector<view> shapes;
    for (auto& i : bufs) shapes.push_back(of(*i));
    std::vector<view> consts;
    for (auto& i : p.constants) consts.push_back(of(*i->buf));
    index_t r = evaluate(s, ctx);
    for (size_t i = 0; i < before.size(); ++i) {
      if (ctx.lookup(var(i)) != before[i]) {
        error = "symbol " + (i < 1000 ? p.ctx.name(var(i)) : "?") + " is not restored";
      }
    }
    auto same = [&](const view& a, const view& b) {
      bool r = a.base == b.base && a.elem == b.elem && a.d.size() == b.d.size();
      for (size_t d = 0; r && d < a.d.size(); ++d) {
        r = a.d[d].min == b.d[d].min && a.d[d].max == b.d[d].max && a.d[d].stride == b.d[d].stride && a.d[d].fold == b.d[d].fold;
      }
      return r;
    };
    for (size_t i = 0; i < bufs.size(); ++i) {
      if (!same(shapes[i], of(*bufs[i]))) error = "buffer " + p.ctx.name(p.bufs[i].sym) + " is not restored";
    }
    for (size_t i = 0; i < consts.size(); ++i) {
      if (!same(consts[i], of(*p.constants[i]->buf))) error = "a constant buffer is not restored";
    }
    if (live != 0) error = std::to_string(live) + " allocations leak";
    return r;
  }
};

// ---------------------------------------------------------------------------------------------------------------------
// The interpreter

class interpreter {
public:
  log& l;
  const inline_pool* pool;
  // The program does something that has no defined meaning.
  bool unknown = false;
  bool empty_loop = false;
  ex::env e;
  std::map<size_t, view> bufs;
  std::map<const base_stmt_node*, int> sites;
  std::vector<std::unique_ptr<std::vector<char>>> heap;

  // With slinky's calls: `site_of` is found by calling the statement's own target.
  interpreter(const program& p, memory& m, log& l, const inline_pool* pool) : l(l), pool(pool) {
    for (size_t i = 0; i < p.bufs.size(); ++i) {
      view v;
      v.base = m.m[i].data() + p.bufs[i].base_offset;
      v.elem = p.bufs[i].elem;
      v.d = p.bufs[i].d;
      bind(p.bufs[i].sym, v);
    }
    for (auto& i : p.ints) e.vars[i.first.id] = i.second;
  }

  struct saved {
    bool has_var = false, has_buf = false;
    ex::i128 v = 0;
    view b;
  };
  saved save(var s) {
    saved r;
    auto i = e.vars.find(s.id);
    if (i != e.vars.end()) r.has_var = true, r.v = i->second;
    auto j = bufs.find(s.id);
    if (j != bufs.end()) r.has_buf = true, r.b = j->second;
    return r;
  }
  void unset(var s) {
    e.vars.erase(s.id);
    e.bufs.erase(s.id);
    bufs.erase(s.id);
  }
  void restore(var s, const saved& o) {
    unset(s);
    if (o.has_var) e.vars[s.id] = o.v;
    if (o.has_buf) bind(s, o.b);
  }
  void bind(var s, const view& v) {
    unset(s);
    bufs[s.id] = v;
    ex::buf_meta m;
    m.elem_size = v.elem;
    for (const dimv& d : v.d) m.dims.push_back({d.min, d.max, d.stride, d.fold});
    // Dimensions that do not exist are broadcasts.
    for (int i = 0; i < 8; ++i) m.dims.push_back({0, 0, 0, 0});
    e.bufs[s.id] = std::move(m);
  }
  void set(var s, int64_t v) {
    unset(s);
    e.vars[s.id] = v;
  }
  const view& get(var s) {
    auto i = bufs.find(s.id);
    static const view none;
    if (i == bufs.end()) {
      unknown = true;
      return none;
    }
    return i->second;
  }

  int64_t eval(const expr& x) {
    ex::evaluator ev(e, ex::int64_lim);
    ex::value v = ev.eval(x);
    if (!v.is_finite()) {
      unknown = true;
      return 0;
    }
    return static_cast<int64_t>(v.v);
  }
  int64_t eval(const expr& x, int64_t def) { return x.defined() ? eval(x) : def; }

  index_t with(var s, const view& v, const stmt& body) {
    if (unknown) return 99;
    saved o = save(s);
    bind(s, v);
    index_t r = exec(body);
    restore(s, o);
    return r;
  }

  static void crop(view& v, size_t d, int64_t min, int64_t max) {
    if (d >= v.d.size()) return;
    dimv& i = v.d[d];
    min = std::max(min, i.min);
    max = std::min(max, i.max);
    if (min > max) {
      v.base = nullptr;
    } else if (v.base && i.fold == dim::unfolded) {
      v.base += i.offset(min);
    }
    i.min = min;
    i.max = max;
  }
  static char* slice_base(const view& v, size_t d, int64_t at) {
    return v.base && v.d[d].contains(at) ? v.base + v.d[d].offset(at) : nullptr;
  }

  index_t exec(const stmt& s) {
    if (!s.defined()) return 0;
    if (l.too_long || unknown) return 99;
    switch (s.type()) {
    case stmt_node_type::block:
      for (const stmt& i : s.as<block>()->stmts) {
        index_t r = exec(i);
        if (r) return r;
      }
      return 0;
    case stmt_node_type::call_stmt: {
      const call_stmt* c = s.as<call_stmt>();
      std::vector<view> in, out;
      std::vector<int64_t> scalars;
      for (var i : c->inputs) in.push_back(get(i));
      for (var i : c->outputs) out.push_back(get(i));
      for (const expr& i : c->scalars) scalars.push_back(eval(i));
      if (unknown) return 99;
      index_t r = run_call(std::atoi(c->attrs.name.c_str() + 1), l, in, out, scalars);
      if (r) ++l.calls_failed;
      return r;
    }
    case stmt_node_type::check:
      if (eval(s.as<check>()->condition)) return 0;
      ++l.checks_failed;
      return 1;
    case stmt_node_type::let_stmt: {
      const let_stmt* c = s.as<let_stmt>();
      std::vector<saved> o;
      for (auto& i : c->lets) {
        const variable* v = i.second.as<variable>();
        if (v && v->field == buffer_field::none && bufs.count(v->sym.id)) {
          view b = get(v->sym);
          o.push_back(save(i.first));
          bind(i.first, b);
        } else {
          int64_t x = eval(i.second);
          o.push_back(save(i.first));
          set(i.first, x);
        }
      }
      index_t r = exec(c->body);
      for (size_t i = o.size(); i-- > 0;) restore(c->lets[i].first, o[i]);
      return r;
    }
    case stmt_node_type::loop: {
      const loop* c = s.as<loop>();
      int64_t workers = eval(c->max_workers), min = eval(c->bounds.min), max = eval(c->bounds.max);
      int64_t step = eval(c->step, 1);
      if (step <= 0) unknown = true;
      if (unknown) return 99;
      std::vector<int64_t> is;
      for (int64_t i = min; i <= max; i += step) is.push_back(i);
      if (is.empty()) empty_loop = true;
      if (workers > 1 && pool && pool->backwards && is.size() > 1) std::reverse(is.begin(), is.end());
      saved o = save(c->sym);
      index_t r = 0;
      for (int64_t i : is) {
        set(c->sym, i);
        r = exec(c->body);
        if (r) break;
      }
      restore(c->sym, o);
      return r;
    }
    case stmt_node_type::async: {
      const async* c = s.as<async>();
      index_t r = exec(c->task);
      // The body does not know that the task failed.
      saved o;
      if (c->sym.defined()) {
        o = save(c->sym);
        unset(c->sym);
      }
      index_t b = exec(c->body);
      if (c->sym.defined()) restore(c->sym, o);
      return r ? r : b;
    }
    case stmt_node_type::allocate: {
      const allocate* c = s.as<allocate>();
      view v;
      v.elem = eval(c->elem_size);
      int64_t stride = v.elem;
      for (const dim_expr& i : c->dims) {
        dimv d;
        d.min = eval(i.bounds.min);
        d.max = eval(i.bounds.max);
        d.fold = eval(i.fold_factor, dim::unfolded);
        if (i.stride.defined()) {
          d.stride = eval(i.stride);
          if (d.stride != 0) unknown = true;
        } else {
          if (d.max < d.min) unknown = true;
          d.stride = stride;
          stride *= d.fold == dim::unfolded ? d.max - d.min + 1 : d.fold;
        }
        v.d.push_back(d);
      }
      if (unknown) return 99;
      // Padding, so that layouts differ from slinky's in the addresses they give things.
      heap.emplace_back(new std::vector<char>(stride + v.elem, 0x11));
      v.base = heap.back()->data();
      v.drop_broadcasts();
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::make_buffer: {
      const make_buffer* c = s.as<make_buffer>();
      view v;
      const call* at = c->base.as<call>();
      if (!at || at->intrinsic != intrinsic::buffer_at) {
        unknown = true;
        return 99;
      }
      const view& src = get(*as_variable(at->args[0]));
      v.base = src.base;
      for (size_t d = 0; d < src.d.size() && d + 1 < at->args.size(); ++d) {
        if (!at->args[d + 1].defined()) continue;
        view t = src;
        t.base = v.base;
        v.base = slice_base(t, d, eval(at->args[d + 1]));
      }
      v.elem = eval(c->elem_size);
      for (const dim_expr& i : c->dims) {
        v.d.push_back({eval(i.bounds.min), eval(i.bounds.max), eval(i.stride), eval(i.fold_factor, dim::unfolded)});
      }
      v.drop_broadcasts();
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::constant_buffer: {
      const constant_buffer* c = s.as<constant_buffer>();
      return with(c->sym, of(*c->value), c->body);
    }
    case stmt_node_type::clone_buffer: {
      const clone_buffer* c = s.as<clone_buffer>();
      view v = get(c->src);
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::crop_buffer: {
      const crop_buffer* c = s.as<crop_buffer>();
      const view src = get(c->src);
      view v = src;
      for (size_t d = 0; d < c->bounds.size(); ++d) {
        // All of the bounds are evaluated in terms of the original buffer.
        dimv i = src.dim(d);
        int64_t min = eval(c->bounds[d].min, i.min), max = eval(c->bounds[d].max, i.max);
        crop(v, d, min, max);
      }
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::crop_dim: {
      const crop_dim* c = s.as<crop_dim>();
      view v = get(c->src);
      dimv i = v.dim(c->dim);
      int64_t min = eval(c->bounds.min, i.min), max = eval(c->bounds.max, i.max);
      crop(v, c->dim, min, max);
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::slice_dim: {
      const slice_dim* c = s.as<slice_dim>();
      view v = get(c->src);
      if (c->dim < static_cast<int>(v.d.size())) {
        v.base = slice_base(v, c->dim, eval(c->at));
        v.d.erase(v.d.begin() + c->dim);
      }
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::slice_buffer: {
      const slice_buffer* c = s.as<slice_buffer>();
      const view src = get(c->src);
      view v = src;
      v.d.clear();
      for (size_t d = 0; d < src.d.size(); ++d) {
        if (d < c->at.size() && c->at[d].defined()) {
          view t = src;
          t.base = v.base;
          v.base = slice_base(t, d, eval(c->at[d]));
        } else {
          v.d.push_back(src.d[d]);
        }
      }
      return with(c->sym, v, c->body);
    }
    case stmt_node_type::transpose: {
      const transpose* c = s.as<transpose>();
      view v = get(c->src);
      if (c->sym == c->src && c->is_truncate()) {
        if (c->dims.size() < v.d.size()) v.d.resize(c->dims.size());
        v.drop_broadcasts();
        return with(c->sym, v, c->body);
      }
      std::vector<dimv> r;
      for (int d : c->dims) r.push_back(d < static_cast<int>(v.d.size()) ? v.d[d] : dimv{0, 0, 0, -1});
      v.d = r;
      v.drop_broadcasts();
      return with(c->sym, v, c->body);
    }
    default: unknown = true; return 99;
    }
  }
};

}  // namespace sg

#endif
