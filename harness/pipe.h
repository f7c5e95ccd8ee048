// Random pipelines: a graph of funcs (calls with windows, copies, pads, concatenations, stacks) with a random schedule, a
// naive reference evaluator of the graph, and a monitor that runs the built pipeline and judges every callback.
#ifndef VERIF_PIPE_H
#define VERIF_PIPE_H

#include <algorithm>
#include <atomic>
#include <cstring>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include "engine.h"
#include "slinky/base/arithmetic.h"
#include "slinky/base/thread_pool.h"
#include "slinky/builder/pipeline.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/pipeline.h"
#include "slinky/runtime/print.h"

namespace slinky {
extern bool verif_skip_learn_min_max;
}

namespace pl {

// A known defect of the simplifier.
inline pbt::attribution learns_from_max() {
  return {"learns from a < max and min < a", [] { slinky::verif_skip_learn_min_max = true; }};
}

using slinky::expr;
using slinky::index_t;
using slinky::interval_expr;
using slinky::raw_buffer;
using slinky::var;

struct ival {
  index_t lo = 0, hi = -1;
  bool empty() const { return hi < lo; }
  index_t extent() const { return empty() ? 0 : hi - lo + 1; }
  bool contains(index_t x) const { return lo <= x && x <= hi; }
  bool contains(const ival& i) const { return i.empty() || (lo <= i.lo && i.hi <= hi); }
  bool operator==(const ival& r) const { return lo == r.lo && hi == r.hi; }
};
inline ival hull(const ival& a, const ival& b) { return {std::min(a.lo, b.lo), std::max(a.hi, b.hi)}; }
inline ival meet(const ival& a, const ival& b) { return {std::max(a.lo, b.lo), std::min(a.hi, b.hi)}; }
using box = std::vector<ival>;
inline bool box_empty(const box& b) {
  for (const ival& i : b) {
    if (i.empty()) return true;
  }
  return false;
}
inline index_t volume(const box& b) {
  index_t v = 1;
  for (const ival& i : b) v *= i.extent();
  return v;
}
inline bool box_contains(const box& b, const index_t* x) {
  for (std::size_t d = 0; d < b.size(); ++d) {
    if (!b[d].contains(x[d])) return false;
  }
  return true;
}
// Calls f(const index_t* x) for every point of b.
template <typename F>
void for_each_point(const box& b, F&& f) {
  if (box_empty(b)) return;
  index_t x[8];
  for (std::size_t d = 0; d < b.size(); ++d) x[d] = b[d].lo;
  while (true) {
    f(static_cast<const index_t*>(x));
    std::size_t d = 0;
    for (; d < b.size(); ++d) {
      if (++x[d] <= b[d].hi) break;
      x[d] = b[d].lo;
    }
    if (d == b.size()) break;
  }
}
inline std::string str(const box& b) {
  std::ostringstream s;
  s << "{";
  for (std::size_t d = 0; d < b.size(); ++d) s << (d ? ", " : "") << "[" << b[d].lo << "," << b[d].hi << "]";
  s << "}";
  return s.str();
}
inline std::string str(const index_t* x, std::size_t n) {
  std::ostringstream s;
  s << "(";
  for (std::size_t d = 0; d < n; ++d) s << (d ? "," : "") << x[d];
  s << ")";
  return s.str();
}

inline uint64_t mix(uint64_t h) {
  h ^= h >> 31;
  h *= 0x9e3779b97f4a7c15ull;
  h ^= h >> 29;
  h *= 0xbf58476d1ce4e5b9ull;
  return h ^ (h >> 32);
}

// A coordinate of an input as a function of the vars of a func, monotone in each of them.
struct term {
  enum kind_t { VAR, CONST, MUL, DIV, SUM, NEG, CLAMP, ALIGN } kind = CONST;
  int v = 0, v2 = 0;
  index_t a = 1;      // factor
  index_t c = 0;      // offset
  index_t lo = 0, hi = 0;  // clamp
  bool arg = false;   // also add the pipeline's scalar argument

  index_t eval(const index_t* x, index_t argv, index_t dc = 0) const {
    index_t o = c + dc + (arg ? argv : 0);
    switch (kind) {
    case CONST: return o;
    case VAR: return x[v] + o;
    case MUL: return x[v] * a + o;
    case DIV: return slinky::euclidean_div(x[v], a) + o;
    case SUM: return x[v] + x[v2] * a + o;
    case NEG: return o - x[v];
    case CLAMP: return std::min(std::max(x[v] + o, lo), hi);
    case ALIGN: return slinky::euclidean_div(x[v], a) * a + o;
    }
    return 0;
  }
  // The bounds over (possibly empty) intervals of the vars, by their endpoints.
  ival eval(const std::vector<ival>& x, index_t argv, index_t dc) const {
    index_t l[8], h[8];
    for (std::size_t i = 0; i < x.size(); ++i) l[i] = x[i].lo, h[i] = x[i].hi;
    if (kind == NEG) return {eval(h, argv), eval(l, argv, dc)};
    return {eval(l, argv), eval(h, argv, dc)};
  }
  expr make(const std::vector<var>& x, var argsym, index_t dc = 0) const {
    expr o = c + dc;
    if (arg) o = argsym + o;
    bool zero = !arg && c + dc == 0;
    auto plus = [&](expr e) { return zero ? e : e + o; };
    switch (kind) {
    case CONST: return o;
    case VAR: return plus(x[v]);
    case MUL: return plus(expr(x[v]) * a);
    case DIV: return plus(slinky::floor_div(expr(x[v]), expr(a)));
    case SUM: return plus(a == 1 ? expr(x[v]) + x[v2] : expr(x[v]) + expr(x[v2]) * a);
    case NEG: return o - x[v];
    case CLAMP: return slinky::clamp(plus(x[v]), expr(lo), expr(hi));
    case ALIGN: return plus(slinky::align_down(expr(x[v]), expr(a)));
    }
    return expr();
  }
};
// An interval [t, t + w].
struct dimap {
  term t;
  index_t w = 0;
};

struct input_spec {
  int buf = -1;
  std::vector<dimap> bounds;
  bool in_place = false;
};

struct loop_spec {
  int v = 0;
  index_t step = 1;
  bool step_arg = false;  // the step is the pipeline's `split` argument
  int workers = 1;        // 1: serial, 0: parallel, n: at most n
};

struct crop_spec {
  bool defined = false;
  int of_input = -1;  // the crop is the bounds of this dimension of a pipeline input
  int of_dim = 0;
  ival at;
};

enum stage_kind { CALL, COPY, PAD, CONCAT, STACK };

struct stage {
  stage_kind kind = CALL;
  std::vector<input_spec> ins;
  std::vector<int> outs;
  std::vector<std::vector<int>> out_dims;  // for each output, which var each dimension is
  int nvars = 0;
  bool mix_coords = false;
  std::vector<loop_spec> loops;  // innermost first
  std::vector<crop_spec> crop;   // PAD: the crop of ins[0]. ins[1] is the padding.
  int dim = 0;                   // CONCAT, STACK
  std::vector<index_t> concat;   // CONCAT: the bounds
  // Schedule.
  int compute_at = -1;  // node, or -1 for the default
  int at_node = 0;      // where it actually is computed
  int innermost = 0;    // node of its innermost loop
  bool stack_default_dim = false;
};

enum buffer_kind { INPUT, CONSTANT, INTERMEDIATE, OUTPUT };

struct buffer_spec {
  buffer_kind kind = INTERMEDIATE;
  int rank = 0;
  int elem_size = 4;
  int producer = -1;
  bool broadcast = false; // produced by a copy (of a copy...) that broadcasts
  int full_dim = -1;  // the whole domain of this dimension is required
  std::vector<int> consumers;
  // Values outside of this must not be asked for.
  std::vector<ival> domain;
  // Schedule and constraints.
  std::vector<int> align;        // > 0: the bounds of this dimension are aligned to this
  int dense_dim = -1;            // this dimension has stride elem_size
  std::vector<bool> unfolded;    // this dimension has fold_factor = unfolded
  slinky::memory_type storage = slinky::memory_type::automatic;
  int store_at = -1;             // node, -1 default, -2 innermost
  // Inputs and constants.
  std::vector<ival> initial;     // known to be in bounds
};

struct loop_node {
  int parent = -1;
  int stage = -1;
  int v = -1;
};

struct graph {
  std::vector<buffer_spec> bufs;
  std::vector<stage> stages;  // producers first
  std::vector<loop_node> nodes;
  std::vector<int> inputs, outputs;
  bool uses_arg = false, uses_split = false;
  bool shared_vars = false;
  bool parallel = false;
  uint64_t seed = 1;
};

// One set of arguments to run the pipeline on: required and actual bounds of every buffer.
struct instance {
  index_t arg = 0, split = 1;
  std::vector<box> required;  // the hull of what is used of each buffer
  std::vector<box> actual;    // INPUT, CONSTANT, OUTPUT: the bounds of the buffer passed; INTERMEDIATE: the bounds allocated
  bool any_empty = false;
};

inline const char* kind_name(stage_kind k) {
  static const char* n[] = {"call", "copy", "pad", "concat", "stack"};
  return n[k];
}

// ---------------------------------------------------------------------------------------------------------------------
// Generation

struct gen_options {
  int max_stages = 6;
  bool copies = true;          // COPY, PAD, CONCAT, STACK stages
  bool more_copies = false;    // mostly copies
  bool in_place = true;
  bool schedule = true;
  bool parallel = true;
  bool limited_workers = true;
  bool align = true;
  bool constraints = true;
  bool args = true;
  bool constants = true;
  bool multi_output = true;
  bool pipelined = false;      // chains of stencils, in parallel loops
  bool partial_stack = false;  // ask for a part of a stack
  int max_volume = 1500;
  int max_extent = 9;
};

inline dimap gen_dimap(pbt::gen& g, const graph& gr, int nvars, const ival* domain, bool point_only, int prefer,
    const gen_options& o, bool& uses_arg) {
  dimap m;
  term& t = m.t;
  if (domain) {
    // Values are only defined in this domain.
    int w = nvars > 0 ? g.weighted({3, 2, 2}) : 1 + g.below(2);
    if (w == 0) {
      t.kind = term::CLAMP;
      t.v = g.below(nvars);
      t.c = g.range(-2, 2);
      t.lo = domain->lo;
      t.hi = domain->hi;
      if (!point_only) m.w = g.below(3);
    } else if (w == 1 && !point_only) {
      t.kind = term::CONST;
      t.c = domain->lo;
      m.w = std::min<index_t>(domain->hi - domain->lo, 5);
    } else {
      t.kind = term::CONST;
      t.c = g.range(domain->lo, domain->hi);
    }
    return m;
  }
  int kind = nvars == 0 ? 1 : g.weighted({10, 2, 2, 2, nvars > 1 ? 1 : 0, 1, 1, 1});
  t.kind = static_cast<term::kind_t>(kind);
  if (nvars > 0) t.v = prefer >= 0 && g.chance(4, 5) ? prefer : g.below(nvars);
  if (t.kind == term::SUM) {
    t.v2 = g.below(nvars - 1);
    if (t.v2 >= t.v) ++t.v2;
    t.a = g.range(1, 3);
  } else if (t.kind == term::MUL || t.kind == term::DIV || t.kind == term::ALIGN) {
    t.a = g.range(2, 3);
  } else if (t.kind == term::CLAMP) {
    t.lo = g.range(-3, 3);
    t.hi = t.lo + g.below(8);
  }
  t.c = g.chance(1, 2) ? 0 : g.range(-3, 3);
  if (o.args && g.chance(1, 16)) {
    t.arg = true;
    uses_arg = true;
  }
  if (!point_only && g.chance(1, 2)) {
    m.w = g.below(4);
    if (t.kind != term::CONST && m.w > 0 && g.chance(1, 2)) t.c = -(m.w / 2);
  }
  return m;
}

inline bool is_identity(const input_spec& in, const std::vector<int>& out_dims) {
  if (in.bounds.size() != out_dims.size()) return false;
  for (std::size_t d = 0; d < out_dims.size(); ++d) {
    const dimap& m = in.bounds[d];
    if (m.t.kind != term::VAR || m.t.v != out_dims[d] || m.t.c != 0 || m.t.arg || m.w != 0) return false;
  }
  return true;
}

// Each dimension of the source of a copy is a different dimension of the destination.
inline bool is_permutation(const input_spec& in) {
  std::set<int> vs;
  for (const dimap& m : in.bounds) {
    if (m.t.kind != term::VAR || m.w != 0 || !vs.insert(m.t.v).second) return false;
  }
  return true;
}

inline int add_buffer(graph& gr, buffer_kind kind, int rank, int elem_size) {
  buffer_spec b;
  b.kind = kind;
  b.rank = rank;
  b.elem_size = elem_size;
  b.domain.resize(rank, ival{1, 0});  // empty: unrestricted
  b.align.resize(rank, 0);
  b.unfolded.resize(rank, false);
  gr.bufs.push_back(b);
  return static_cast<int>(gr.bufs.size()) - 1;
}

inline int pick_input(pbt::gen& g, graph& gr, int elem_size, int rank = -1) {
  std::vector<int> c;
  for (std::size_t i = 0; i < gr.bufs.size(); ++i) {
    if (elem_size > 0 && gr.bufs[i].elem_size != elem_size) continue;
    if (rank >= 0 && gr.bufs[i].rank != rank) continue;
    int w = gr.bufs[i].kind == CONSTANT ? 1 : gr.bufs[i].consumers.empty() ? 4 : 1;
    for (int k = 0; k < w; ++k) c.push_back(i);
  }
  if (c.empty()) return -1;
  return c[c.size() - 1 - g.below(c.size())];
}

// Generates the graph.
inline graph gen_graph(pbt::gen& g, const gen_options& o) {
  graph gr;
  gr.seed = 1 + g.below(1000);
  gr.shared_vars = g.chance(1, 2);
  const int main_size = g.pick({4, 1, 2, 8});
  auto elem_size = [&]() { return g.chance(5, 6) ? main_size : g.pick({4, 1, 2, 8}); };
  int n_in = 1 + g.weighted({3, 2, 1});
  for (int i = 0; i < n_in; ++i) {
    int b = add_buffer(gr, INPUT, g.weighted({1, 4, 8, 3}), elem_size());
    gr.inputs.push_back(b);
  }
  if (o.constants && g.chance(1, 5)) add_buffer(gr, CONSTANT, g.weighted({3, 2, 1}), elem_size());

  const int n_stages = o.pipelined ? 3 + g.below(o.max_stages - 2) : 1 + g.below(o.max_stages);
  for (int si = 0; si < n_stages; ++si) {
    stage s;
    if (o.copies && g.chance(o.more_copies ? 3 : 1, o.more_copies ? 4 : 3)) {
      s.kind = static_cast<stage_kind>(1 + g.weighted({4, 4, 1, 1}));
    }
    std::vector<std::pair<int, std::vector<ival>>> out_shapes;
    int out_size = main_size;
    if (s.kind == CALL) {
      s.nvars = o.pipelined ? 1 + g.weighted({4, 8, 1}) : g.weighted({1, 4, 8, 3});
      s.mix_coords = g.chance(1, 2);
      int n = g.weighted({1, 8, 4, 1});
      for (int i = 0; i < n; ++i) {
        input_spec in;
        in.buf = pick_input(g, gr, 0);
        const buffer_spec& b = gr.bufs[in.buf];
        bool identity = b.rank == s.nvars && g.chance(2, 5);
        index_t vol = 1;
        for (int d = 0; d < b.rank; ++d) {
          dimap m;
          const ival* dom = b.domain[d].empty() ? nullptr : &b.domain[d];
          if (identity && !dom) {
            m.t.kind = term::VAR;
            m.t.v = d;
          } else if (o.pipelined && !dom && d < s.nvars && g.chance(3, 4)) {
            m.t.kind = term::VAR;
            m.t.v = d;
            m.w = g.below(3);
            m.t.c = g.range(-m.w, 0);
          } else {
            m = gen_dimap(g, gr, s.nvars, dom, false, d < s.nvars ? d : -1, o, gr.uses_arg);
          }
          if (vol * (m.w + 1) > 12 && !(dom && m.t.kind == term::CONST)) m.w = 0;
          vol *= m.w + 1;
          in.bounds.push_back(m);
        }
        s.ins.push_back(in);
      }
      int n_out = o.multi_output && s.nvars > 0 && g.chance(1, 8) ? 2 : 1;
      out_size = elem_size();
      for (int i = 0; i < n_out; ++i) {
        std::vector<int> dims(s.nvars);
        for (int d = 0; d < s.nvars; ++d) dims[d] = d;
        if (s.nvars > 1 && g.chance(1, 6)) std::swap(dims[g.below(s.nvars - 1)], dims[s.nvars - 1]);
        s.out_dims.push_back(dims);
        out_shapes.push_back({s.nvars, std::vector<ival>(s.nvars, ival{1, 0})});
      }
      if (n_out == 1 && o.in_place) {
        for (input_spec& in : s.ins) {
          if (gr.bufs[in.buf].elem_size == out_size && is_identity(in, s.out_dims[0]) && g.chance(3, 4)) {
            in.in_place = true;
          }
        }
      }
    } else {
      // Copies.
      input_spec in;
      in.buf = pick_input(g, gr, 0);
      const buffer_spec b = gr.bufs[in.buf];
      out_size = b.elem_size;
      if (s.kind == CONCAT && b.rank == 0) s.kind = STACK;
      if (s.kind == STACK && b.rank >= 3) s.kind = CONCAT;
      // A padded copy cannot tell a broadcast from bounds of [0, 0] (a known defect).
      if (s.kind == PAD && b.broadcast) s.kind = COPY;
      if (s.kind == COPY || s.kind == PAD) {
        s.nvars = b.rank;
        if (g.chance(1, 4)) s.nvars = std::max<int>(0, std::min<int>(3, b.rank + (g.chance(1, 2) ? 1 : -1)));
        std::vector<int> perm(b.rank);
        for (int d = 0; d < b.rank; ++d) perm[d] = d;
        if (b.rank > 1 && g.chance(1, 3)) std::swap(perm[g.below(b.rank - 1)], perm[b.rank - 1]);
        for (int d = 0; d < b.rank; ++d) {
          const ival* dom = b.domain[d].empty() ? nullptr : &b.domain[d];
          dimap m;
          if (!dom && perm[d] < s.nvars && g.chance(4, 5)) {
            m.t.kind = term::VAR;
            m.t.v = perm[d];
            if (g.chance(1, 2)) m.t.c = g.range(-3, 3);
          } else {
            m = gen_dimap(g, gr, s.nvars, dom, true, perm[d] < s.nvars ? perm[d] : -1, o, gr.uses_arg);
          }
          in.bounds.push_back(m);
        }
        s.ins.push_back(in);
        if (s.kind == PAD) {
          s.crop.resize(b.rank);
          for (int d = 0; d < b.rank; ++d) {
            // TODO: a constant coordinate outside of the crop.
            if (g.chance(1, 6) || s.ins[0].bounds[d].t.kind == term::CONST) continue;
            crop_spec& c = s.crop[d];
            c.defined = true;
            if (g.chance(1, 2)) {
              int i = gr.inputs[g.below(gr.inputs.size())];
              // Commonly, the crop is the bounds of the same input.
              if (gr.bufs[i].rank > 0) {
                c.of_input = i;
                c.of_dim = d < gr.bufs[i].rank ? d : gr.bufs[i].rank - 1;
              }
            }
            c.at.lo = g.range(-3, 3);
            c.at.hi = c.at.lo + g.below(7);
          }
          input_spec pad;
          int p = g.chance(1, 4) ? pick_input(g, gr, b.elem_size) : -1;
          bool ok = p >= 0 && gr.bufs[p].rank <= s.nvars && p != in.buf;
          if (ok) {
            for (const ival& d : gr.bufs[p].domain) ok = ok && d.empty();
          }
          if (ok) {
            pad.buf = p;
            for (int d = 0; d < gr.bufs[p].rank; ++d) {
              dimap m;
              m.t.kind = term::VAR;
              m.t.v = d;
              pad.bounds.push_back(m);
            }
          } else {
            pad.buf = add_buffer(gr, CONSTANT, 0, b.elem_size);
          }
          s.ins.push_back(pad);
        }
        std::vector<int> dims(s.nvars);
        for (int d = 0; d < s.nvars; ++d) dims[d] = d;
        s.out_dims.push_back(dims);
        out_shapes.push_back({s.nvars, std::vector<ival>(s.nvars, ival{1, 0})});
      } else {
        // All inputs have the same rank and size.
        s.ins.push_back(in);
        int n = 1 + g.below(3);
        for (int i = 0; i < n; ++i) {
          input_spec in2;
          in2.buf = pick_input(g, gr, b.elem_size, b.rank);
          s.ins.push_back(in2);
        }
        s.nvars = s.kind == CONCAT ? b.rank : b.rank + 1;
        s.dim = g.below(s.nvars);
        std::vector<ival> domain(s.nvars, ival{1, 0});
        if (s.kind == CONCAT) {
          index_t at = g.chance(2, 3) ? 0 : g.range(-4, 4);
          s.concat.push_back(at);
          for (std::size_t i = 0; i < s.ins.size(); ++i) s.concat.push_back(at += g.range(1, 4));
          domain[s.dim] = {s.concat.front(), s.concat.back() - 1};
        } else {
          domain[s.dim] = {0, static_cast<index_t>(s.ins.size()) - 1};
          s.stack_default_dim = s.dim == s.nvars - 1 && g.chance(1, 2);
        }
        bool ok = true;
        for (std::size_t i = 0; i < s.ins.size(); ++i) {
          input_spec& in2 = s.ins[i];
          const buffer_spec& b2 = gr.bufs[in2.buf];
          for (int d = 0, v = 0; d < b.rank; ++d, ++v) {
            dimap m;
            m.t.kind = term::VAR;
            if (s.kind == STACK && v == s.dim) ++v;
            m.t.v = v;
            ival need{1, 0};
            if (s.kind == CONCAT && d == s.dim) {
              m.t.c = -s.concat[i];
              need = {0, s.concat[i + 1] - s.concat[i] - 1};
              if (!b2.domain[d].empty() && !b2.domain[d].contains(need)) ok = false;
            } else if (!b2.domain[d].empty()) {
              domain[v] = domain[v].empty() ? b2.domain[d] : meet(domain[v], b2.domain[d]);
              if (domain[v].empty()) ok = false;
            }
            in2.bounds.push_back(m);
          }
        }
        if (!ok) continue;
        std::vector<int> dims(s.nvars);
        for (int d = 0; d < s.nvars; ++d) dims[d] = d;
        s.out_dims.push_back(dims);
        out_shapes.push_back({s.nvars, domain});
      }
    }
    int idx = gr.stages.size();
    for (const input_spec& in : s.ins) gr.bufs[in.buf].consumers.push_back(idx);
    for (auto& sh : out_shapes) {
      int b = add_buffer(gr, INTERMEDIATE, sh.first, out_size);
      gr.bufs[b].producer = idx;
      gr.bufs[b].domain = sh.second;
      if (s.kind == COPY || s.kind == PAD) {
        std::set<int> used;
        for (const dimap& m : s.ins[0].bounds) {
          if (m.t.kind == term::CONST) continue;
          used.insert(m.t.v);
          if (m.t.kind == term::SUM) used.insert(m.t.v2);
        }
        gr.bufs[b].broadcast = static_cast<int>(used.size()) < s.nvars || gr.bufs[s.ins[0].buf].broadcast;
      }
      if (s.kind == STACK && !o.partial_stack) gr.bufs[b].full_dim = s.dim;
      s.outs.push_back(b);
    }
    gr.stages.push_back(s);
  }
  // The outputs of stages that nobody consumes are the outputs of the pipeline.
  for (stage& s : gr.stages) {
    bool consumed = false;
    for (int b : s.outs) consumed = consumed || !gr.bufs[b].consumers.empty();
    if (consumed) {
      // Remove outputs nobody consumes.
      for (std::size_t i = s.outs.size(); i-- > 0;) {
        if (!gr.bufs[s.outs[i]].consumers.empty()) continue;
        gr.bufs[s.outs[i]].producer = -1;
        s.outs.erase(s.outs.begin() + i);
        s.out_dims.erase(s.out_dims.begin() + i);
      }
      continue;
    }
    for (std::size_t i = 0; i < s.outs.size(); ++i) {
      if (i > 0 && g.chance(1, 4)) continue;  // an unused output
      gr.bufs[s.outs[i]].kind = OUTPUT;
      gr.outputs.push_back(s.outs[i]);
    }
  }
  // Remove inputs nobody uses, most of the time.
  if (!g.chance(1, 8)) {
    std::vector<int> used;
    for (int i : gr.inputs) {
      bool u = !gr.bufs[i].consumers.empty();
      for (const stage& s : gr.stages) {
        for (const crop_spec& c : s.crop) u = u || c.of_input == i;
      }
      if (u) used.push_back(i);
    }
    gr.inputs = used;
  }
  return gr;
}

inline std::vector<int> path_to_root(const graph& gr, int n) {
  std::vector<int> p;
  for (; n >= 0; n = gr.nodes[n].parent) p.push_back(n);
  std::reverse(p.begin(), p.end());
  return p;
}

// Generates a schedule, or the default one.
inline void gen_schedule(pbt::gen& g, graph& gr, const gen_options& o) {
  gr.nodes = {loop_node()};
  gr.parallel = false;
  // A dimension that depends on more than one loop does not slide correctly (a known defect), don't nest loops then.
  bool nest = true;
  for (const stage& s : gr.stages) {
    for (const input_spec& i : s.ins) {
      for (const dimap& m : i.bounds) nest = nest && m.t.kind != term::SUM;
    }
  }
  for (int si = static_cast<int>(gr.stages.size()) - 1; si >= 0; --si) {
    stage& s = gr.stages[si];
    // The innermost loop that all consumers are in.
    std::vector<int> path = {0};
    bool first = true;
    for (int b : s.outs) {
      for (int c : gr.bufs[b].consumers) {
        std::vector<int> p = path_to_root(gr, gr.stages[c].innermost);
        if (first) {
          path = p;
          first = false;
        } else {
          std::size_t i = 0;
          while (i < path.size() && i < p.size() && path[i] == p[i]) ++i;
          path.resize(i);
        }
      }
    }
    s.compute_at = -1;
    s.loops.clear();
    const bool last = si == static_cast<int>(gr.stages.size()) - 1;
    if (o.schedule && (o.pipelined ? g.chance(1, 10) : g.chance(1, 3))) {
      s.compute_at = path[path.size() - 1 - g.below(path.size())];
      if (first && s.compute_at != 0) s.compute_at = 0;
      while (path.back() != s.compute_at) path.pop_back();
    }
    if (s.kind == STACK && !o.partial_stack) s.compute_at = 0, path.resize(1);
    s.at_node = path.back();
    int parent = s.at_node;
    if (o.schedule && s.nvars > 0 &&
        (o.pipelined ? last || g.chance(1, 10) : s.kind == CALL ? g.chance(1, 2) : g.chance(1, 5))) {
      std::vector<int> vs;
      for (int v = 0; v < s.nvars; ++v) {
        if (s.kind == STACK && v == s.dim) continue;
        vs.push_back(v);
      }
      int n = vs.empty() ? 0 : std::min<int>(vs.size(), 1 + g.weighted({5, 2, 1}));
      if (!nest) n = parent == 0 ? std::min(n, 1) : 0;
      for (int k = 0; k < n; ++k) {
        loop_spec l;
        int at = vs.size() - 1 - g.below(vs.size());
        l.v = vs[at];
        vs.erase(vs.begin() + at);
        l.step = g.weighted({4, 3, 1, 1, 1});
        l.step = l.step == 4 ? 100 : l.step + 1;
        if (o.args && g.chance(1, 12)) l.step_arg = gr.uses_split = true;
        if (o.parallel && (o.pipelined ? k == n - 1 || g.chance(1, 4) : g.chance(1, 4))) {
          l.workers = o.limited_workers && g.chance(1, 2) ? 2 + g.below(3) : 0;
          gr.parallel = true;
        }
        s.loops.push_back(l);
      }
      for (std::size_t k = s.loops.size(); k-- > 0;) {
        gr.nodes.push_back({parent, si, s.loops[k].v});
        parent = gr.nodes.size() - 1;
      }
    }
    s.innermost = parent;
    for (int bi : s.outs) {
      buffer_spec& b = gr.bufs[bi];
      if (b.kind == OUTPUT) {
        for (int d = 0; d < b.rank; ++d) b.unfolded[d] = g.chance(1, 2);
        if (o.constraints && b.rank > 0 && g.chance(1, 6)) b.dense_dim = g.below(b.rank);
        continue;
      }
      if (o.schedule && (o.pipelined ? g.chance(5, 6) : g.chance(2, 3))) {
        b.store_at = path[o.pipelined && g.chance(3, 4) ? 0 : path.size() - 1 - g.below(path.size())];
        if (b.store_at == path.back() && g.chance(1, 3)) b.store_at = -2;
      }
      if (o.schedule && g.chance(1, 3)) {
        b.storage = g.chance(1, 2) ? slinky::memory_type::stack : slinky::memory_type::heap;
      }
      if (o.constraints && b.rank > 0 && g.chance(1, 10)) b.dense_dim = g.below(b.rank);
      for (int d = 0; d < b.rank; ++d) {
        if (o.constraints && g.chance(1, 20)) b.unfolded[d] = true;
        if (o.align && b.domain[d].empty() && g.chance(1, 25)) b.align[d] = g.range(2, 4);
      }
    }
  }
  for (int i : gr.inputs) {
    buffer_spec& b = gr.bufs[i];
    for (int d = 0; d < b.rank; ++d) b.unfolded[d] = g.chance(1, 2);
    if (o.constraints && b.rank > 0 && g.chance(1, 8)) b.dense_dim = g.below(b.rank);
  }
}

// Computes what is required of every buffer from the bounds of the outputs (in `in.actual`). `in.actual` of the inputs may
// be preset, and is grown to contain what is required. Returns false if this is too big or out of some domain.
inline bool infer(const graph& gr, instance& in, int max_volume) {
  for (int iter = 0; iter < 8; ++iter) {
    std::vector<bool> has(gr.bufs.size(), false);
    in.required.assign(gr.bufs.size(), box());
    in.any_empty = false;
    for (int b : gr.outputs) {
      in.required[b] = in.actual[b];
      has[b] = true;
    }
    for (int si = static_cast<int>(gr.stages.size()) - 1; si >= 0; --si) {
      const stage& s = gr.stages[si];
      std::vector<ival> x(s.nvars);
      std::vector<bool> seen(s.nvars, false);
      for (std::size_t oi = 0; oi < s.outs.size(); ++oi) {
        int b = s.outs[oi];
        const buffer_spec& bs = gr.bufs[b];
        if (!has[b]) {
          in.required[b].assign(bs.rank, ival{1, 0});
          has[b] = true;
        }
        box& r = in.required[b];
        for (int d = 0; d < bs.rank; ++d) {
          if (bs.align[d] > 0) {
            r[d].lo = slinky::align_down<index_t>(r[d].lo, bs.align[d]);
            r[d].hi = slinky::align_up<index_t>(r[d].hi + 1, bs.align[d]) - 1;
          }
          if (!bs.domain[d].empty() && !bs.domain[d].contains(r[d])) return false;
          if (bs.full_dim == d && !(r[d] == bs.domain[d])) return false;
        }
        if (bs.kind == INTERMEDIATE) in.actual[b] = r;
        if (volume(r) > max_volume) return false;
        if (box_empty(r)) in.any_empty = true;
        for (int d = 0; d < bs.rank; ++d) {
          int v = s.out_dims[oi][d];
          x[v] = seen[v] ? hull(x[v], r[d]) : r[d];
          seen[v] = true;
        }
      }
      for (std::size_t ii = 0; ii < s.ins.size(); ++ii) {
        const input_spec& is = s.ins[ii];
        box r(gr.bufs[is.buf].rank);
        for (std::size_t d = 0; d < r.size(); ++d) {
          r[d] = is.bounds[d].t.eval(x, in.arg, is.bounds[d].w);
          if (s.kind == PAD && ii == 0 && s.crop[d].defined) {
            const crop_spec& c = s.crop[d];
            r[d] = meet(r[d], c.of_input >= 0 ? in.actual[c.of_input][c.of_dim] : c.at);
          } else if (s.kind == CONCAT && static_cast<int>(d) == s.dim) {
            r[d] = meet(r[d], {0, s.concat[ii + 1] - s.concat[ii] - 1});
          }
        }
        // TODO: the simplifier assumes that coordinates at the min of a buffer are in bounds.
        if (s.kind == PAD && ii == 0 && box_empty(r) && !is_permutation(is)) return false;
        if (!has[is.buf]) {
          in.required[is.buf] = r;
          has[is.buf] = true;
        } else {
          for (std::size_t d = 0; d < r.size(); ++d) in.required[is.buf][d] = hull(in.required[is.buf][d], r[d]);
        }
      }
    }
    bool grown = false;
    for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
      const buffer_spec& bs = gr.bufs[b];
      if (bs.kind != INPUT && bs.kind != CONSTANT) continue;
      if (!has[b]) in.required[b].assign(bs.rank, ival{1, 0});
      box& a = in.actual[b];
      if (a.empty()) a.assign(bs.rank, ival{1, 0});
      for (int d = 0; d < bs.rank; ++d) {
        // The checks compare the bounds even when they are empty.
        ival need = in.required[b][d];
        if (!has[b]) continue;
        if (bs.kind == CONSTANT && need.empty()) continue;
        ival n = a[d].empty() ? need : hull(a[d], need);
        if (a[d].empty() && need.empty()) n = {need.lo, need.lo};
        if (!(n == a[d])) {
          a[d] = n;
          grown = true;
        }
        if (need.empty()) {
          in.any_empty = true;
          // min <= need.lo and max >= need.hi
          if (a[d].lo > need.lo) a[d].lo = need.lo, grown = true;
          if (a[d].hi < need.hi) a[d].hi = need.hi, grown = true;
        }
      }
      if (volume(a) > max_volume * 2) return false;
    }
    if (!grown) return true;
  }
  return false;
}

// Chooses bounds for the outputs (and some slack for the inputs).
inline bool gen_instance(pbt::gen& g, const graph& gr, const gen_options& o, instance& in, bool exact = false) {
  in.arg = g.range(-3, 3);
  in.split = g.range(1, 4);
  std::vector<box> outs;
  for (int b : gr.outputs) {
    box x(gr.bufs[b].rank);
    for (int d = 0; d < gr.bufs[b].rank; ++d) {
      const ival& dom = gr.bufs[b].domain[d];
      if (!dom.empty()) {
        x[d].lo = g.chance(1, 2) ? dom.lo : g.range(dom.lo, dom.hi);
        x[d].hi = g.chance(1, 2) ? dom.hi : g.range(x[d].lo, dom.hi);
        if (gr.bufs[b].full_dim == d) x[d] = dom;
      } else {
        x[d].lo = g.chance(1, 2) ? 0 : g.range(-4, 4);
        x[d].hi = x[d].lo + g.below(o.max_extent);
      }
    }
    outs.push_back(x);
  }
  std::vector<box> preset(gr.bufs.size());
  for (int i : gr.inputs) {
    box x(gr.bufs[i].rank);
    for (ival& d : x) {
      d.lo = g.range(-2, 2);
      d.hi = d.lo + g.below(5);
    }
    bool used_by_crop = false;
    for (const stage& s : gr.stages) {
      for (const crop_spec& c : s.crop) used_by_crop = used_by_crop || c.of_input == i;
    }
    if (used_by_crop) preset[i] = x;
  }
  for (int attempt = 0; attempt < 4; ++attempt) {
    in.actual.assign(gr.bufs.size(), box());
    for (std::size_t i = 0; i < preset.size(); ++i) in.actual[i] = preset[i];
    for (std::size_t i = 0; i < gr.outputs.size(); ++i) in.actual[gr.outputs[i]] = outs[i];
    if (infer(gr, in, o.max_volume)) {
      for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
        if (gr.bufs[b].kind == INPUT && !preset[b].empty()) continue;
        if (gr.bufs[b].kind == INPUT && in.actual[b].size() == 0 && gr.bufs[b].rank > 0) {
          in.actual[b].assign(gr.bufs[b].rank, ival{0, 0});
        }
        if (gr.bufs[b].kind == INPUT && !exact && g.chance(1, 3)) {
          for (ival& d : in.actual[b]) {
            d.lo -= g.below(3);
            d.hi += g.below(3);
          }
        }
      }
      return true;
    }
    for (box& x : outs) {
      std::size_t i = &x - &outs[0];
      for (std::size_t d = 0; d < x.size(); ++d) {
        if (gr.bufs[gr.outputs[i]].full_dim == static_cast<int>(d)) continue;
        x[d].hi = std::max(x[d].lo, x[d].lo + x[d].extent() / 2 - (x[d].extent() > 1 ? 1 : 0));
      }
    }
  }
  return false;
}

// ---------------------------------------------------------------------------------------------------------------------
// The reference evaluator

class oracle {
public:
  const graph& gr;
  const instance& in;
  std::vector<std::vector<uint64_t>> values;
  std::vector<box> where;

  oracle(const graph& gr, const instance& in) : gr(gr), in(in) {
    values.resize(gr.bufs.size());
    where = in.actual;
    for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
      if (where[b].size() != static_cast<std::size_t>(gr.bufs[b].rank)) where[b].assign(gr.bufs[b].rank, ival{1, 0});
      std::vector<uint64_t> v;
      for_each_point(where[b], [&](const index_t* x) { v.push_back(compute(b, x)); });
      values[b] = std::move(v);
    }
  }

  static uint64_t trunc(uint64_t v, int elem_size) { return elem_size == 8 ? v : v & ((1ull << (elem_size * 8)) - 1); }

  // The contents of inputs and constants.
  uint64_t leaf(int b, const index_t* x) const {
    uint64_t h = mix(gr.seed * 1000003 + b + 1);
    for (int d = 0; d < gr.bufs[b].rank; ++d) h = mix(h * 31 + x[d]);
    return trunc(h, gr.bufs[b].elem_size);
  }

  // What a CALL computes for output oi at x (the vars), where read(ii, coords) reads an input.
  template <typename Read>
  uint64_t call(int si, int oi, const index_t* x, Read&& read) const {
    const stage& s = gr.stages[si];
    uint64_t h = mix(gr.seed * 7919 + si * 64 + oi);
    if (s.mix_coords) {
      for (int v = 0; v < s.nvars; ++v) h = mix(h + x[v]);
    }
    for (std::size_t ii = 0; ii < s.ins.size(); ++ii) {
      box r = input_box(si, ii, x);
      for_each_point(r, [&](const index_t* c) { h = h * 0x100000001b3ull + read(static_cast<int>(ii), c) + 1; });
      h = mix(h + ii);
    }
    return trunc(h, gr.bufs[s.outs[oi]].elem_size);
  }
  box input_box(int si, int ii, const index_t* x) const {
    const input_spec& is = gr.stages[si].ins[ii];
    box r(is.bounds.size());
    for (std::size_t d = 0; d < r.size(); ++d) {
      const dimap& m = is.bounds[d];
      r[d] = {m.t.eval(x, in.arg), m.t.eval(x, in.arg, m.w)};
    }
    return r;
  }

  uint64_t get(int b, const index_t* x) const {
    const box& w = where[b];
    index_t at = 0, stride = 1;
    for (std::size_t d = 0; d < w.size(); ++d) {
      if (!w[d].contains(x[d])) return compute(b, x);
      at += (x[d] - w[d].lo) * stride;
      stride *= w[d].extent();
    }
    if (static_cast<std::size_t>(at) < values[b].size()) return values[b][at];
    return compute(b, x);
  }

  uint64_t compute(int b, const index_t* y) const {
    const buffer_spec& bs = gr.bufs[b];
    if (bs.producer < 0) return leaf(b, y);
    const stage& s = gr.stages[bs.producer];
    int oi = 0;
    while (s.outs[oi] != b) ++oi;
    index_t x[8] = {};
    for (int d = 0; d < bs.rank; ++d) x[s.out_dims[oi][d]] = y[d];
    if (s.kind == CALL) {
      return call(bs.producer, oi, x, [&](int ii, const index_t* c) { return get(s.ins[ii].buf, c); });
    }
    int ii = 0;
    if (s.kind == CONCAT) {
      while (ii + 2 < static_cast<int>(s.concat.size()) && x[s.dim] >= s.concat[ii + 1]) ++ii;
    } else if (s.kind == STACK) {
      ii = std::min<index_t>(std::max<index_t>(0, x[s.dim]), s.ins.size() - 1);
    }
    index_t c[8];
    auto at = [&](int ii) {
      const input_spec& is = s.ins[ii];
      for (std::size_t d = 0; d < is.bounds.size(); ++d) c[d] = is.bounds[d].t.eval(x, in.arg);
    };
    at(ii);
    if (s.kind == PAD) {
      for (std::size_t d = 0; d < s.crop.size(); ++d) {
        const crop_spec& cr = s.crop[d];
        if (!cr.defined) continue;
        ival i = cr.of_input >= 0 ? in.actual[cr.of_input][cr.of_dim] : cr.at;
        if (!i.contains(c[d])) {
          at(1);
          return get(s.ins[1].buf, c);
        }
      }
    }
    return get(s.ins[ii].buf, c);
  }
};

// ---------------------------------------------------------------------------------------------------------------------
// Memory for the inputs and outputs.

struct memory {
  std::vector<slinky::dim> dims;
  std::vector<uint8_t> bytes;
  raw_buffer buf = {};

  void make(const box& b, int elem_size, const std::vector<int>& order, int gap, bool negative, uint8_t fill) {
    dims.assign(b.size(), slinky::dim());
    index_t stride = elem_size;
    index_t offset = 0;
    for (std::size_t k = 0; k < order.size(); ++k) {
      int d = order[k];
      bool neg = negative && k + 1 == order.size() && k > 0;
      dims[d].set_bounds(b[d].lo, b[d].hi);
      dims[d].set_stride(neg ? -stride : stride);
      dims[d].set_fold_factor(slinky::dim::unfolded);
      if (neg) offset = stride * std::max<index_t>(0, b[d].extent() - 1);
      stride = stride * std::max<index_t>(1, b[d].extent()) + (k + 1 < order.size() ? gap * elem_size : 0);
    }
    const int guard = 64;
    bytes.assign(guard * 2 + stride + elem_size * 4, fill);
    buf.base = bytes.data() + guard + (16 - reinterpret_cast<uintptr_t>(bytes.data() + guard) % 16) % 16 + offset;
    buf.elem_size = elem_size;
    buf.rank = b.size();
    buf.dims = dims.data();
  }
};

inline uint64_t load(const void* p, int size) {
  uint64_t v = 0;
  memcpy(&v, p, size);
  return v;
}
inline void* addr(const raw_buffer& b, const index_t* x) {
  char* p = reinterpret_cast<char*>(b.base);
  for (std::size_t d = 0; d < b.rank; ++d) p += b.dims[d].flat_offset_bytes(x[d]);
  return p;
}

// ---------------------------------------------------------------------------------------------------------------------
// Building

struct monitor;

struct built {
  slinky::node_context ctx;
  std::vector<slinky::buffer_expr_ptr> bufs;
  std::vector<std::unique_ptr<slinky::func>> funcs;
  std::vector<std::vector<var>> vars;
  std::vector<std::shared_ptr<std::vector<slinky::dim>>> dims;
  var arg, split;
  slinky::pipeline p;
  // The monitor to call.
  std::shared_ptr<monitor*> mon = std::make_shared<monitor*>(nullptr);
};

// Judges a run.
struct monitor {
  const graph& gr;
  const instance& in;
  const oracle& orc;
  bool check_values = true;
  bool check_shapes = true;
  int fail_call = -1;   // this call fails
  std::mutex m;
  std::string error;
  std::atomic<int> calls{0};
  std::atomic<bool> stopped{false};
  std::vector<std::vector<int>> produced;  // how often each element of each buffer was computed by a call
  std::vector<const void*> read_only;      // bases of the inputs
  bool count_produced = false;
  std::function<void()> on_call;
  std::function<monitor*(const slinky::eval_context&)> route;  // which monitor this call is for, if not this one
  std::atomic<int64_t> elements{0};

  monitor(const graph& gr, const instance& in, const oracle& orc) : gr(gr), in(in), orc(orc) {}

  void fail(const std::string& msg) {
    std::unique_lock<std::mutex> l(m);
    if (error.empty()) error = msg;
  }

  index_t call(int si, const slinky::call_stmt* op, slinky::eval_context& ctx) {
    if (route) {
      monitor* m = route(ctx);
      if (!m) return fail("a callback is given another configuration"), 0;
      return m->call(si, op, ctx);
    }
    int n = calls++;
    if (on_call) on_call();
    if (n == fail_call) return 1000 + n;
    const stage& s = gr.stages[si];
    std::vector<raw_buffer> ins, outs;
    for (var v : op->inputs) {
      const raw_buffer* b = ctx.lookup_buffer(v);
      if (!b) return fail("stage " + std::to_string(si) + ": an input is null"), 0;
      ins.push_back(*b);
    }
    for (var v : op->outputs) {
      const raw_buffer* b = ctx.lookup_buffer(v);
      if (!b) return fail("stage " + std::to_string(si) + ": an output is null"), 0;
      outs.push_back(*b);
    }
    if (ins.size() != s.ins.size() || outs.size() != s.outs.size()) return fail("wrong number of buffers"), 0;
    // Dimensions that a buffer does not have are broadcasts.
    slinky::dim dims[16][8];
    int n_dims = 0;
    auto extend = [&](raw_buffer& b, int bi) {
      if (n_dims >= 16 || b.rank >= static_cast<std::size_t>(gr.bufs[bi].rank)) return;
      slinky::dim* to = dims[n_dims++];
      for (int d = 0; d < gr.bufs[bi].rank; ++d) to[d] = b.dim(d);
      b.dims = to;
      b.rank = gr.bufs[bi].rank;
    };
    for (std::size_t i = 0; i < ins.size(); ++i) extend(ins[i], s.ins[i].buf);
    for (std::size_t i = 0; i < outs.size(); ++i) extend(outs[i], s.outs[i]);
    for (std::size_t i = 0; i < ins.size(); ++i) {
      if (!shape_ok(si, "input", i, s.ins[i].buf, ins[i])) return 0;
    }
    for (std::size_t i = 0; i < outs.size(); ++i) {
      if (!shape_ok(si, "output", i, s.outs[i], outs[i])) return 0;
    }
    for (std::size_t oi = 0; oi < outs.size(); ++oi) {
      const raw_buffer& ob = outs[oi];
      box r(ob.rank);
      for (std::size_t d = 0; d < ob.rank; ++d) r[d] = {ob.dims[d].min(), ob.dims[d].max()};
      if (box_empty(r)) continue;
      if (!ob.base) return fail("stage " + std::to_string(si) + ": an output has no memory"), 0;
      for (std::size_t d = 0; d < ob.rank; ++d) {
        if (!orc.where[s.outs[oi]][d].contains(r[d])) {
          return fail("stage " + std::to_string(si) + " (" + name(s.outs[oi]) + ") is asked to compute " + str(r) +
                      " but only " + str(orc.where[s.outs[oi]]) + " is required"),
                 0;
        }
        const slinky::dim& od = ob.dims[d];
        if (od.fold_factor() != slinky::dim::unfolded && od.fold_factor() > 0 && r[d].extent() > od.fold_factor()) {
          return fail("stage " + std::to_string(si) + " (" + name(s.outs[oi]) + ") is asked to compute " + str(r) +
                      " into a buffer folded by " + std::to_string(od.fold_factor())),
                 0;
        }
      }
      bool ok = true;
      for_each_point(r, [&](const index_t* y) {
        if (!ok) return;
        index_t x[8] = {};
        for (std::size_t d = 0; d < ob.rank; ++d) x[s.out_dims[oi][d]] = y[d];
        uint64_t v = orc.call(si, oi, x, [&](int ii, const index_t* c) -> uint64_t {
          const raw_buffer& ib = ins[ii];
          if (!ok) return 0;
          if (!ib.base) {
            ok = false;
            fail("stage " + std::to_string(si) + ": input " + name(s.ins[ii].buf) + " has no memory");
            return 0;
          }
          for (std::size_t d = 0; d < ib.rank; ++d) {
            if (!ib.dims[d].contains(c[d])) {
              ok = false;
              fail("stage " + std::to_string(si) + " computing " + str(y, ob.rank) + " of " + name(s.outs[oi]) +
                   " needs " + str(c, ib.rank) + " of " + name(s.ins[ii].buf) + ", which is out of bounds in dimension " +
                   std::to_string(d) + " [" + std::to_string(ib.dims[d].min()) + "," +
                   std::to_string(ib.dims[d].max()) + "]");
              return 0;
            }
          }
          uint64_t got = load(addr(ib, c), ib.elem_size);
          if (check_values) {
            uint64_t want = orc.get(s.ins[ii].buf, c);
            if (got != want) {
              ok = false;
              std::ostringstream ss;
              ss << "stage " << si << " computing " << str(y, ob.rank) << " of " << name(s.outs[oi]) << " reads "
                 << str(c, ib.rank) << " of " << name(s.ins[ii].buf) << ", which is " << std::hex << got
                 << " but should be " << want;
              fail(ss.str());
            }
          }
          return got;
        });
        if (!ok) return;
        memcpy(addr(ob, y), &v, ob.elem_size);
        ++elements;
      });
      if (!ok) return 0;
      if (count_produced) {
        std::unique_lock<std::mutex> l(m);
        int b = s.outs[oi];
        if (produced.size() < gr.bufs.size()) produced.resize(gr.bufs.size());
        if (produced[b].empty()) produced[b].assign(volume(orc.where[b]), 0);
        for_each_point(r, [&](const index_t* y) { ++produced[b][flat(b, y)]; });
      }
    }
    return 0;
  }
  index_t flat(int b, const index_t* y) const {
    index_t at = 0, stride = 1;
    const box& w = orc.where[b];
    for (std::size_t d = 0; d < w.size(); ++d) {
      at += (y[d] - w[d].lo) * stride;
      stride *= w[d].extent();
    }
    return at;
  }

  static std::string name(int b) { return "b" + std::to_string(b); }

  bool shape_ok(int si, const char* what, int i, int b, const raw_buffer& buf) {
    if (!check_shapes) return true;
    const buffer_spec& bs = gr.bufs[b];
    std::string who = "stage " + std::to_string(si) + " " + what + " " + std::to_string(i) + " (" + name(b) + ")";
    if (static_cast<int>(buf.rank) != bs.rank) return fail(who + ": wrong rank " + std::to_string(buf.rank)), false;
    if (static_cast<int>(buf.elem_size) != bs.elem_size) return fail(who + ": wrong elem_size"), false;
    for (int d = 0; d < bs.rank; ++d) {
      if (buf.dims[d].extent() <= 1) continue;
      if (bs.dense_dim == d && buf.dims[d].stride() != bs.elem_size) {
        return fail(who + ": dimension " + std::to_string(d) + " must have stride " + std::to_string(bs.elem_size) +
                    " but has " + std::to_string(buf.dims[d].stride())),
               false;
      }
      if (bs.unfolded[d] && buf.dims[d].fold_factor() != slinky::dim::unfolded) {
        return fail(who + ": dimension " + std::to_string(d) + " must not be folded"), false;
      }
    }
    return true;
  }
};

inline std::unique_ptr<built> build(const graph& gr, const instance& in, const slinky::build_options& options,
    const slinky::copy_stmt::callable& copy_impl = slinky::copy) {
  using namespace slinky;
  auto r = std::make_unique<built>();
  node_context& ctx = r->ctx;
  r->arg = var(ctx, "N");
  r->split = var(ctx, "S");
  static const char* names[] = {"x", "y", "z", "w"};
  std::vector<var> shared;
  for (const char* n : names) shared.push_back(var(ctx, n));
  for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
    const buffer_spec& bs = gr.bufs[b];
    std::string name = "b" + std::to_string(b);
    buffer_expr_ptr be;
    if (bs.kind == CONSTANT) {
      std::vector<dim> dims(bs.rank);
      for (int d = 0; d < bs.rank; ++d) dims[d].set_bounds(in.actual[b][d].lo, in.actual[b][d].hi);
      raw_buffer tmp = {};
      tmp.elem_size = bs.elem_size;
      tmp.rank = bs.rank;
      tmp.dims = dims.data();
      tmp.init_strides();
      raw_buffer_ptr c = raw_buffer::make(bs.rank, bs.elem_size, dims.data());
      oracle* none = nullptr;
      (void)none;
      box where = in.actual[b];
      for_each_point(where, [&](const index_t* x) {
        uint64_t h = mix(gr.seed * 1000003 + b + 1);
        for (int d = 0; d < bs.rank; ++d) h = mix(h * 31 + x[d]);
        memcpy(addr(*c, x), &h, bs.elem_size);
      });
      be = buffer_expr::make_constant(ctx, name, std::move(c));
    } else {
      be = buffer_expr::make(ctx, name, bs.rank, bs.elem_size);
      for (int d = 0; d < bs.rank; ++d) {
        if (bs.align[d] > 0) {
          expr a = bs.align[d];
          be->dim(d).bounds = {align_down(buffer_min(be->sym(), d), a), align_up(buffer_max(be->sym(), d) + 1, a) - 1};
        }
        if (bs.dense_dim == d) be->dim(d).stride = bs.elem_size;
        if (bs.unfolded[d]) be->dim(d).fold_factor = dim::unfolded;
      }
      be->store_in(bs.storage);
    }
    r->bufs.push_back(be);
  }
  for (std::size_t si = 0; si < gr.stages.size(); ++si) {
    const stage& s = gr.stages[si];
    std::vector<var> x = shared;
    if (!gr.shared_vars) {
      x.clear();
      for (int v = 0; v < s.nvars; ++v) x.push_back(var(ctx, names[v] + std::to_string(si)));
    }
    r->vars.push_back(x);
    std::vector<func::input> inputs;
    for (const input_spec& is : s.ins) {
      func::input i;
      i.buffer = r->bufs[is.buf];
      for (const dimap& m : is.bounds) {
        if (m.w == 0) {
          i.bounds.push_back(point(m.t.make(x, r->arg)));
        } else if (m.t.kind == term::NEG) {
          i.bounds.push_back({m.t.make(x, r->arg), m.t.make(x, r->arg, m.w)});
        } else {
          i.bounds.push_back({m.t.make(x, r->arg), m.t.make(x, r->arg, m.w)});
        }
      }
      inputs.push_back(std::move(i));
    }
    std::vector<func::output> outputs;
    for (std::size_t oi = 0; oi < s.outs.size(); ++oi) {
      func::output o;
      o.buffer = r->bufs[s.outs[oi]];
      for (int v : s.out_dims[oi]) o.dims.push_back(x[v]);
      outputs.push_back(std::move(o));
    }
    auto f = std::make_unique<func>();
    switch (s.kind) {
    case CALL: {
      call_stmt::attributes attrs;
      attrs.name = "f" + std::to_string(si);
      for (std::size_t i = 0; i < s.ins.size(); ++i) {
        if (s.ins[i].in_place) attrs.allow_in_place |= 1 << i;
      }
      auto mon = r->mon;
      int idx = si;
      *f = func(call_stmt::callable([mon, idx](const call_stmt* op, eval_context& ctx) -> index_t {
        return (*mon)->call(idx, op, ctx);
      }),
          std::move(inputs), std::move(outputs), {}, attrs);
      break;
    }
    case COPY: *f = func::make_copy(std::move(inputs[0]), std::move(outputs[0]), copy_impl); break;
    case PAD: {
      for (const crop_spec& c : s.crop) {
        if (!c.defined) {
          inputs[0].input_crop.push_back(interval_expr());
        } else if (c.of_input >= 0) {
          inputs[0].input_crop.push_back(r->bufs[c.of_input]->dim(c.of_dim).bounds);
        } else {
          inputs[0].input_crop.push_back({expr(c.at.lo), expr(c.at.hi)});
        }
      }
      *f = func::make_copy(std::move(inputs[0]), std::move(outputs[0]), std::move(inputs[1]), copy_impl);
      break;
    }
    case CONCAT:
    case STACK: {
      std::vector<buffer_expr_ptr> srcs;
      for (const input_spec& is : s.ins) srcs.push_back(r->bufs[is.buf]);
      if (s.kind == CONCAT) {
        std::vector<expr> bounds;
        for (index_t b : s.concat) bounds.push_back(b);
        *f = func::make_concat(srcs, std::move(outputs[0]), s.dim, bounds, copy_impl);
      } else if (s.stack_default_dim) {
        *f = func::make_stack(srcs, std::move(outputs[0]), static_cast<std::size_t>(-1), copy_impl);
      } else {
        *f = func::make_stack(srcs, std::move(outputs[0]), s.dim, copy_impl);
      }
      break;
    }
    }
    r->funcs.push_back(std::move(f));
  }
  auto id = [&](int node) {
    const loop_node& n = gr.nodes[node];
    if (n.stage < 0) return loop_id();
    return loop_id{r->funcs[n.stage].get(), r->vars[n.stage][n.v]};
  };
  for (std::size_t si = 0; si < gr.stages.size(); ++si) {
    const stage& s = gr.stages[si];
    func& f = *r->funcs[si];
    std::vector<func::loop_info> loops;
    for (const loop_spec& l : s.loops) {
      expr step = l.step_arg ? expr(r->split) : expr(l.step);
      expr workers = l.workers == 0 ? expr(static_cast<index_t>(loop::parallel)) : expr(static_cast<index_t>(l.workers));
      loops.push_back(func::loop_info(r->vars[si][l.v], step, workers));
    }
    if (!loops.empty()) f.loops(loops);
    if (s.compute_at == 0) {
      f.compute_root();
    } else if (s.compute_at > 0) {
      f.compute_at(id(s.compute_at));
    }
    for (int b : s.outs) {
      int at = gr.bufs[b].store_at;
      if (at == 0) {
        r->bufs[b]->store_root();
      } else if (at > 0) {
        r->bufs[b]->store_at(id(at));
      } else if (at == -2) {
        r->bufs[b]->store_at(loop_id{&f, var()});
      }
    }
  }
  std::vector<buffer_expr_ptr> ins, outs;
  for (int b : gr.inputs) ins.push_back(r->bufs[b]);
  for (int b : gr.outputs) outs.push_back(r->bufs[b]);
  std::vector<var> args;
  if (gr.uses_arg) args.push_back(r->arg);
  if (gr.uses_split) args.push_back(r->split);
  r->p = build_pipeline(ctx, args, ins, outs, {}, options);
  return r;
}

// ---------------------------------------------------------------------------------------------------------------------
// Running

struct io {
  std::vector<std::unique_ptr<memory>> mem;  // by buffer
  std::vector<std::vector<uint8_t>> before;

  // How inputs and outputs are laid out is part of the case.
  struct layout {
    std::vector<int> order;
    int gap = 0;
    bool negative = false;
  };
  static std::vector<layout> gen_layouts(pbt::gen& g, const graph& gr) {
    std::vector<layout> r(gr.bufs.size());
    for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
      const buffer_spec& bs = gr.bufs[b];
      if (bs.kind != INPUT && bs.kind != OUTPUT) continue;
      layout& l = r[b];
      for (int d = 0; d < bs.rank; ++d) l.order.push_back(d);
      if (bs.rank > 1 && g.chance(1, 3)) std::swap(l.order[g.below(bs.rank - 1)], l.order[bs.rank - 1]);
      if (bs.dense_dim >= 0) {
        auto i = std::find(l.order.begin(), l.order.end(), bs.dense_dim);
        std::swap(*i, l.order[0]);
      }
      if (g.chance(1, 3)) l.gap = g.below(3);
      l.negative = g.chance(1, 12);
    }
    return r;
  }

  io(const graph& gr, const instance& in, const oracle& orc, const std::vector<layout>& layouts) {
    mem.resize(gr.bufs.size());
    before.resize(gr.bufs.size());
    for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
      const buffer_spec& bs = gr.bufs[b];
      if (bs.kind != INPUT && bs.kind != OUTPUT) continue;
      mem[b] = std::make_unique<memory>();
      mem[b]->make(orc.where[b], bs.elem_size, layouts[b].order, layouts[b].gap, layouts[b].negative, 0xA5 ^ b);
      if (bs.kind == INPUT) {
        for_each_point(orc.where[b], [&](const index_t* x) {
          uint64_t v = orc.leaf(b, x);
          memcpy(addr(mem[b]->buf, x), &v, bs.elem_size);
        });
      }
      before[b] = mem[b]->bytes;
    }
  }
  std::vector<index_t> args(const graph& gr, const instance& in) const {
    std::vector<index_t> r;
    if (gr.uses_arg) r.push_back(in.arg);
    if (gr.uses_split) r.push_back(in.split);
    return r;
  }
  std::vector<const raw_buffer*> ptrs(const std::vector<int>& l) const {
    std::vector<const raw_buffer*> r;
    for (int b : l) r.push_back(&mem[b]->buf);
    return r;
  }

  index_t run(const graph& gr, const instance& in, const built& p, slinky::eval_context& ctx) const {
    std::vector<index_t> a = args(gr, in);
    std::vector<const raw_buffer*> i = ptrs(gr.inputs), o = ptrs(gr.outputs);
    return p.p.evaluate(slinky::span<const index_t>(a.data(), a.size()),
        slinky::span<const raw_buffer*>(i.data(), i.size()), slinky::span<const raw_buffer*>(o.data(), o.size()), ctx);
  }

  // Checks everything about the memory after a (successful) run. Returns an error.
  std::string check(const graph& gr, const oracle& orc, bool outputs_written = true) const {
    for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
      if (!mem[b]) continue;
      const buffer_spec& bs = gr.bufs[b];
      std::vector<uint8_t> want = before[b];
      if (bs.kind == OUTPUT && outputs_written) {
        std::string err;
        for_each_point(orc.where[b], [&](const index_t* x) {
          uint64_t v = orc.get(b, x);
          uint8_t* p = reinterpret_cast<uint8_t*>(addr(mem[b]->buf, x));
          if (err.empty() && load(p, bs.elem_size) != v) {
            std::ostringstream ss;
            ss << "output b" << b << str(x, bs.rank) << " is " << std::hex << load(p, bs.elem_size) << ", should be " << v;
            err = ss.str();
          }
          memcpy(want.data() + (p - mem[b]->bytes.data()), &v, bs.elem_size);
        });
        if (!err.empty()) return err;
      }
      if (want != mem[b]->bytes) {
        return bs.kind == INPUT ? "input b" + std::to_string(b) + " was modified"
                                : outputs_written ? "memory that is not an element of output b" + std::to_string(b) + " was modified"
                                                  : "output b" + std::to_string(b) + " was modified";
      }
    }
    return "";
  }
  // Checks that a run that failed only wrote to elements of outputs. Returns an error.
  std::string check_failed(const graph& gr, const oracle& orc) const {
    for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
      if (!mem[b]) continue;
      std::vector<uint8_t> want = before[b];
      if (gr.bufs[b].kind == OUTPUT) {
        for_each_point(orc.where[b], [&](const index_t* x) {
          uint8_t* p = reinterpret_cast<uint8_t*>(addr(mem[b]->buf, x));
          memcpy(want.data() + (p - mem[b]->bytes.data()), p, gr.bufs[b].elem_size);
        });
      }
      if (want != mem[b]->bytes) {
        return gr.bufs[b].kind == INPUT ? "input b" + std::to_string(b) + " was modified"
                                        : "memory that is not an element of output b" + std::to_string(b) + " was modified";
      }
    }
    return "";
  }
  void reset() {
    for (std::size_t b = 0; b < mem.size(); ++b) {
      if (mem[b]) memcpy(mem[b]->bytes.data(), before[b].data(), before[b].size());
    }
  }
};

// Tracks allocations.
struct heap {
  std::mutex m;
  struct alloc {
    std::size_t size;
    var sym;
  };
  std::map<void*, alloc> live;
  int allocs = 0, frees = 0;
  int fail_at = -1;
  int64_t bytes = 0, peak = 0;
  std::string error;
  std::function<void(var, const raw_buffer&)> on_alloc;
  index_t base_alignment = 1, stride_alignment = 1;

  void install(slinky::eval_config& cfg) {
    cfg.allocate = [this](var v, raw_buffer* b) -> void* {
      int n;
      {
        std::unique_lock<std::mutex> l(m);
        n = b->elem_count() > 0 ? allocs++ : -2;
        if (n == fail_at) return nullptr;
      }
      void* p = b->allocate(base_alignment, stride_alignment);
      std::size_t size = b->size_bytes();
      // Every in bounds element must be inside.
      if (p && size > 0) {
        char* lo = reinterpret_cast<char*>(b->base) + b->min_offset_bytes();
        memset(lo, 0xCD, size);
      }
      std::unique_lock<std::mutex> l(m);
      if (on_alloc) on_alloc(v, *b);
      if (p) {
        live[p] = {size, v};
        bytes += size;
        peak = std::max(peak, bytes);
      }
      return p;
    };
    cfg.free = [this](var v, raw_buffer* b, void* p) {
      {
        std::unique_lock<std::mutex> l(m);
        ++frees;
        auto i = live.find(p);
        if (i == live.end()) {
          if (error.empty()) error = "free of a pointer that is not a live allocation";
          return;
        }
        if (!(i->second.sym == v) && error.empty()) error = "free of an allocation with another symbol";
        bytes -= i->second.size;
        live.erase(i);
      }
      ::free(p);
    };
  }
};

// ---------------------------------------------------------------------------------------------------------------------
// Description

inline std::string str(const term& t, index_t dc = 0) {
  std::ostringstream s;
  index_t c = t.c + dc;
  std::string v = "v" + std::to_string(t.v);
  switch (t.kind) {
  case term::CONST: break;
  case term::VAR: s << v; break;
  case term::MUL: s << v << "*" << t.a; break;
  case term::DIV: s << v << "/" << t.a; break;
  case term::SUM: s << v << "+v" << t.v2 << "*" << t.a; break;
  case term::NEG: s << "-" << v; break;
  case term::CLAMP: s << "clamp(" << v; break;
  case term::ALIGN: s << "align_down(" << v << "," << t.a << ")"; break;
  }
  if (c != 0 || t.kind == term::CONST) s << (t.kind == term::CONST ? "" : c > 0 ? "+" : "") << c;
  if (t.arg) s << "+N";
  if (t.kind == term::CLAMP) s << "," << t.lo << "," << t.hi << ")";
  return s.str();
}

inline void describe(std::ostream& o, const graph& gr) {
  auto node = [&](int n) {
    std::ostringstream s;
    if (gr.nodes[n].stage < 0) {
      s << "root";
    } else {
      s << "(stage " << gr.nodes[n].stage << ", v" << gr.nodes[n].v << ")";
    }
    return s.str();
  };
  for (std::size_t i = 0; i < gr.bufs.size(); ++i) {
    const buffer_spec& b = gr.bufs[i];
    static const char* kinds[] = {"input", "constant", "intermediate", "output"};
    o << "  b" << i << ": " << kinds[b.kind] << " rank " << b.rank << " size " << b.elem_size;
    if (b.dense_dim >= 0) o << " dim(" << b.dense_dim << ").stride=elem_size";
    for (int d = 0; d < b.rank; ++d) {
      if (b.unfolded[d]) o << " dim(" << d << ").unfolded";
      if (b.align[d]) o << " dim(" << d << ").align=" << b.align[d];
    }
    if (b.storage != slinky::memory_type::automatic) o << (b.storage == slinky::memory_type::stack ? " stack" : " heap");
    if (b.store_at == -2) o << " store innermost";
    if (b.store_at >= 0 && !gr.nodes.empty()) o << " store_at " << node(b.store_at);
    o << "\n";
  }
  for (std::size_t i = 0; i < gr.stages.size(); ++i) {
    const stage& s = gr.stages[i];
    o << "  stage " << i << ": " << kind_name(s.kind);
    for (std::size_t oi = 0; oi < s.outs.size(); ++oi) {
      o << " b" << s.outs[oi] << "(";
      for (std::size_t d = 0; d < s.out_dims[oi].size(); ++d) o << (d ? "," : "") << "v" << s.out_dims[oi][d];
      o << ")";
    }
    o << " <-";
    for (const input_spec& in : s.ins) {
      o << " b" << in.buf << "[";
      for (std::size_t d = 0; d < in.bounds.size(); ++d) {
        o << (d ? ", " : "") << str(in.bounds[d].t);
        if (in.bounds[d].w) o << " .. " << str(in.bounds[d].t, in.bounds[d].w);
      }
      o << "]" << (in.in_place ? " in place" : "");
    }
    for (std::size_t d = 0; d < s.crop.size(); ++d) {
      if (!s.crop[d].defined) continue;
      o << " crop" << d << "=";
      if (s.crop[d].of_input >= 0) {
        o << "b" << s.crop[d].of_input << ".dim(" << s.crop[d].of_dim << ")";
      } else {
        o << "[" << s.crop[d].at.lo << "," << s.crop[d].at.hi << "]";
      }
    }
    if (s.kind == CONCAT || s.kind == STACK) o << " dim " << s.dim;
    if (s.kind == CONCAT) {
      o << " at";
      for (index_t b : s.concat) o << " " << b;
    }
    if (!s.loops.empty()) {
      o << " loops(";
      for (const loop_spec& l : s.loops) {
        o << "{v" << l.v << ", " << (l.step_arg ? "S" : std::to_string(l.step));
        if (l.workers == 0) o << ", parallel";
        if (l.workers > 1) o << ", workers " << l.workers;
        o << "}";
      }
      o << ")";
    }
    if (s.compute_at >= 0) o << " compute_at " << node(s.compute_at);
    o << "\n";
  }
}
inline void describe(std::ostream& o, const graph& gr, const instance& in) {
  if (gr.uses_arg) o << "  N=" << in.arg;
  if (gr.uses_split) o << "  S=" << in.split;
  for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
    o << "  b" << b << (gr.bufs[b].kind == INTERMEDIATE ? " required " : "=") << str(in.actual[b]);
  }
  o << "\n";
}

}  // namespace pl

#endif
