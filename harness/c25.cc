// C25: sliding windows neither recompute nor allocate more than they need.
#include <algorithm>
#include <cstring>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <vector>

#include "engine.h"
#include "slinky/builder/pipeline.h"
#include "slinky/runtime/evaluate.h"
#include "slinky/runtime/pipeline.h"
#include "slinky/runtime/print.h"

namespace {

using namespace slinky;

constexpr int max_rank = 3;

// Element x of a consumer reads elements [k * x + lo, k * x + hi] of its producer.
struct window {
  index_t k = 1, lo = 0, hi = 0;
};

struct edge {
  int from = 0;
  std::vector<window> w;
};

struct stage {
  std::vector<edge> in;
  bool explicit_compute = false, explicit_store = false;
  // If this is set, the stage is computed in a loop of its own, inside the loops of the output.
  int own_loop = -1;
  index_t own_step = 1;
};

struct loop_of {
  int dim;
  index_t step;
};

// Stage i produces buffer i + 1. Buffer 0 is the input, the last buffer is the output.
struct chain {
  int rank = 1;
  std::vector<stage> stages;
  std::vector<loop_of> loops;  // Innermost first
  index_t min[max_rank], max[max_rank];
  bool no_alias = false;
};

struct options {
  bool strides = false, diamonds = false;
  int loops = 1;
};

chain gen_chain(pbt::gen& g, const options& o) {
  chain c;
  c.rank = g.range(1, o.loops > 1 ? 2 : max_rank);
  if (o.loops > 1) c.rank = 2;
  const int n = g.range(2, 4);
  for (int i = 0; i < n; ++i) {
    stage s;
    const int edges = o.diamonds && g.chance(1, 2) ? 2 : 1;
    for (int j = 0; j < edges; ++j) {
      edge e;
      // Every buffer must be consumed, so the first edge is from the previous stage.
      e.from = j == 0 ? i : g.range(0, i);
      for (int d = 0; d < c.rank; ++d) {
        window w;
        if (o.strides && g.chance(1, 4)) w.k = g.range(2, 3);
        if (g.chance(3, 4)) {
          w.lo = g.range(-2, 2);
          w.hi = w.lo + g.range(0, 3);
        }
        e.w.push_back(w);
      }
      s.in.push_back(e);
    }
    s.explicit_compute = g.chance(1, 4);
    s.explicit_store = g.chance(1, 4);
    c.stages.push_back(s);
  }
  std::vector<int> dims;
  for (int d = 0; d < c.rank; ++d) dims.push_back(d);
  for (int i = 0; i < o.loops && !dims.empty(); ++i) {
    const int j = g.range(0, static_cast<int>(dims.size()) - 1);
    c.loops.push_back({dims[j], static_cast<index_t>(g.range(1, 4))});
    dims.erase(dims.begin() + j);
  }
  for (int d = 0; d < c.rank; ++d) {
    c.min[d] = g.range(-5, 5);
    c.max[d] = c.min[d] + g.range(0, c.rank == 3 ? 8 : 14);
  }
  return c;
}

std::string describe(const chain& c) {
  std::ostringstream s;
  for (size_t i = 0; i < c.stages.size(); ++i) {
    s << "b" << i + 1 << "(x..) from";
    for (const edge& e : c.stages[i].in) {
      s << " b" << e.from << "[";
      for (const window& w : e.w) s << (&w == &e.w[0] ? "" : ", ") << w.k << "*x+(" << w.lo << ".." << w.hi << ")";
      s << "]";
    }
    if (c.stages[i].explicit_compute) s << " compute_at";
    if (c.stages[i].explicit_store) s << " store_root";
    s << "\n";
  }
  s << "loops";
  for (const loop_of& l : c.loops) s << " dim " << l.dim << " step " << l.step;
  s << "; output";
  for (int d = 0; d < c.rank; ++d) s << " [" << c.min[d] << ", " << c.max[d] << "]";
  s << "\n";
  return s.str();
}

// What is required of a buffer: the hull, and the elements in it that are read.
struct region {
  bool any = false;
  index_t lo[max_rank] = {0, 0, 0}, hi[max_rank] = {-1, -1, -1};
  std::set<std::vector<index_t>> points;
};

template <typename F>
void for_each(const std::vector<std::pair<index_t, index_t>>& b, F&& f) {
  for (const auto& i : b) {
    if (i.second < i.first) return;
  }
  std::vector<index_t> x;
  for (const auto& i : b) x.push_back(i.first);
  while (true) {
    f(x);
    size_t d = 0;
    for (; d < b.size(); ++d) {
      if (++x[d] <= b[d].second) break;
      x[d] = b[d].first;
    }
    if (d == b.size()) return;
  }
}

// The regions of each buffer required to produce the output.
std::vector<region> required(const chain& c) {
  std::vector<region> r(c.stages.size() + 1);
  region& out = r.back();
  out.any = true;
  std::vector<std::pair<index_t, index_t>> b;
  for (int d = 0; d < c.rank; ++d) {
    out.lo[d] = c.min[d];
    out.hi[d] = c.max[d];
    b.push_back({c.min[d], c.max[d]});
  }
  for_each(b, [&](const std::vector<index_t>& x) { out.points.insert(x); });
  for (int i = static_cast<int>(c.stages.size()) - 1; i >= 0; --i) {
    const region& me = r[i + 1];
    for (const edge& e : c.stages[i].in) {
      region& p = r[e.from];
      for (int d = 0; d < c.rank; ++d) {
        index_t lo = me.lo[d] * e.w[d].k + e.w[d].lo, hi = me.hi[d] * e.w[d].k + e.w[d].hi;
        p.lo[d] = p.any ? std::min(p.lo[d], lo) : lo;
        p.hi[d] = p.any ? std::max(p.hi[d], hi) : hi;
      }
      p.any = true;
      for (const auto& x : me.points) {
        std::vector<std::pair<index_t, index_t>> w;
        for (int d = 0; d < c.rank; ++d) w.push_back({x[d] * e.w[d].k + e.w[d].lo, x[d] * e.w[d].k + e.w[d].hi});
        for_each(w, [&](const std::vector<index_t>& y) { p.points.insert(y); });
      }
    }
  }
  return r;
}

// How many elements of dimension d each buffer needs to store if the consumers slide in a loop over d with this step.
struct need {
  index_t extent, advance;
};
std::vector<need> storage(const chain& c, int d, index_t step) {
  const int n = c.stages.size();
  // In iteration t, stage i newly produces (hi + advance * (t - 1), hi + advance * t].
  std::vector<index_t> hi(n + 1), lo(n + 1), adv(n + 1);
  std::vector<bool> any(n + 1);
  hi[n] = step - 1;
  lo[n] = 0;
  adv[n] = step;
  for (int i = n - 1; i >= 0; --i) {
    for (const edge& e : c.stages[i].in) {
      const window& w = e.w[d];
      // What the consumer newly produces is what it requires.
      const index_t new_lo = hi[i + 1] - adv[i + 1] + 1;
      index_t l = std::min(new_lo, hi[i + 1]) * w.k + w.lo, h = hi[i + 1] * w.k + w.hi;
      const int p = e.from;
      lo[p] = any[p] ? std::min(lo[p], l) : l;
      hi[p] = any[p] ? std::max(hi[p], h) : h;
      adv[p] = any[p] ? std::max(adv[p], adv[i + 1] * w.k) : adv[i + 1] * w.k;
      any[p] = true;
    }
  }
  std::vector<need> r;
  for (int i = 0; i <= n; ++i) r.push_back({hi[i] - lo[i] + 1, adv[i]});
  return r;
}

struct counts {
  std::vector<region>* req = nullptr;
  std::vector<std::map<std::vector<index_t>, int>> n;
  int64_t elements = 0;
};

void run(pbt::gen& g, const options& o) {
  chain c = gen_chain(g, o);
  const int n = c.stages.size();
  if (g.describing()) g.note() << describe(c);

  node_context ctx;
  std::vector<buffer_expr_ptr> bufs;
  for (int i = 0; i <= n; ++i) {
    bufs.push_back(buffer_expr::make(ctx, "b" + std::to_string(i), c.rank, 1));
    bufs.back()->store_in(memory_type::heap);
  }
  std::vector<var> vars;
  const char* names[] = {"x", "y", "z"};
  for (int d = 0; d < c.rank; ++d) vars.push_back(var(ctx, names[d]));

  std::vector<region> req = required(c);
  counts cs;
  cs.n.resize(n + 1);
  std::vector<std::unique_ptr<func>> funcs(n);
  for (int i = 0; i < n; ++i) {
    std::vector<func::input> in;
    for (const edge& e : c.stages[i].in) {
      box_expr b;
      for (int d = 0; d < c.rank; ++d) {
        expr at = e.w[d].k == 1 ? expr(vars[d]) : vars[d] * e.w[d].k;
        b.push_back({at + e.w[d].lo, at + e.w[d].hi});
      }
      in.push_back({bufs[e.from], b});
    }
    counts* pc = &cs;
    const int rank = c.rank;
    auto impl = [pc, i, rank](const call_stmt* op, eval_context& ec) -> index_t {
      const raw_buffer* b = ec.lookup_buffer(op->outputs[0]);
      std::vector<std::pair<index_t, index_t>> box;
      for (int d = 0; d < rank; ++d) box.push_back({b->dim(d).min(), b->dim(d).max()});
      for_each(box, [&](const std::vector<index_t>& x) {
        ++pc->n[i + 1][x];
        ++pc->elements;
      });
      return 0;
    };
    funcs[i] = std::make_unique<func>(call_stmt::callable(impl), std::move(in),
        std::vector<func::output>{{bufs[i + 1], vars}}, std::vector<expr>{},
        call_stmt::attributes{.name = "f" + std::to_string(i)});
  }
  std::vector<func::loop_info> loops;
  for (const loop_of& l : c.loops) loops.push_back({vars[l.dim], l.step});
  funcs[n - 1]->loops(loops);
  for (int i = 0; i + 1 < n; ++i) {
    if (c.stages[i].explicit_compute) funcs[i]->compute_at({funcs[n - 1].get(), vars[c.loops[0].dim]});
    if (c.stages[i].explicit_store) bufs[i + 1]->store_root();
  }
  pipeline p = build_pipeline(ctx, {bufs[0]}, {bufs[n]}, build_options{.no_checks = g.chance(1, 4)});
  if (g.describing()) {
    std::ostringstream s;
    s << std::tie(p.body, ctx);
    g.note() << s.str() << "\n";
  }

  auto shape = [&](raw_buffer& b, std::vector<dim>& dims, const region& r) {
    dims.assign(c.rank, dim());
    for (int d = 0; d < c.rank; ++d) dims[d].set_bounds(r.lo[d], r.hi[d]);
    b.rank = c.rank;
    b.dims = dims.data();
    b.elem_size = 1;
    b.base = nullptr;
    return b.allocate();
  };
  raw_buffer in, out;
  std::vector<dim> in_dims, out_dims;
  void* in_mem = shape(in, in_dims, req[0]);
  void* out_mem = shape(out, out_dims, req[n]);

  struct allocation {
    std::string name;
    std::vector<std::pair<index_t, index_t>> dims;  // min, how many are stored.
  };
  std::vector<allocation> allocs;
  std::string check;
  eval_config cfg;
  cfg.auto_stack_threshold = 0;
  cfg.allocate = [&](var v, raw_buffer* b) {
    allocation a;
    a.name = ctx.name(v);
    for (size_t d = 0; d < b->rank; ++d) {
      index_t e = b->dim(d).extent();
      if (b->dim(d).fold_factor() > 0) e = std::min(e, b->dim(d).fold_factor());
      a.dims.push_back({b->dim(d).min(), std::max<index_t>(e, 0)});
    }
    allocs.push_back(a);
    return b->allocate();
  };
  cfg.check_failed = [&](const expr& e) {
    std::ostringstream s;
    s << std::tie(e, ctx);
    check = s.str();
  };
  eval_context ec;
  ec.config = &cfg;
  const raw_buffer* inputs[] = {&in};
  const raw_buffer* outputs[] = {&out};
  index_t status = p.evaluate(inputs, outputs, ec);
  ::free(in_mem);
  ::free(out_mem);
  PBT_CHECK(g, status == 0, "the pipeline failed: " << check);

  g.count("elements computed", cs.elements);
  const loop_of& outer = c.loops.back();
  const index_t extent = c.max[outer.dim] - c.min[outer.dim] + 1;
  bool overlaps = false;
  for (int i = 0; i < n; ++i) {
    for (const edge& e : c.stages[i].in) {
      if (e.from > 0) overlaps = overlaps || e.w[outer.dim].hi > e.w[outer.dim].lo;
    }
  }
  if (extent > outer.step && overlaps) g.nontrivial();
  g.classify(extent > outer.step ? "several iterations" : "one iteration");
  if (overlaps) g.classify("windows overlap");

  for (int i = 1; i <= n; ++i) {
    for (const auto& x : req[i].points) {
      auto it = cs.n[i].find(x);
      const int k = it == cs.n[i].end() ? 0 : it->second;
      if (k == 1) continue;
      std::ostringstream s;
      for (index_t j : x) s << " " << j;
      PBT_CHECK(g, k == 1, "element" << s.str() << " of b" << i << " is computed " << k << " times");
    }
  }
  PBT_CHECK(g, static_cast<int>(allocs.size()) <= n - 1, "there are " << allocs.size() << " allocations");
  std::vector<need> needs = storage(c, outer.dim, outer.step);
  for (const allocation& a : allocs) {
    int b = -1;
    for (int i = 1; i < n; ++i) {
      if (a.name == ctx.name(bufs[i]->sym())) b = i;
    }
    PBT_CHECK(g, b > 0, "an allocation of " << a.name);
    for (int d = 0; d < c.rank; ++d) {
      const index_t all = req[b].hi[d] - req[b].lo[d] + 1;
      PBT_CHECK(g, a.dims[d].second <= all || d == outer.dim,
          "b" << b << " stores " << a.dims[d].second << " elements of dimension " << d << ", " << all << " are required");
    }
    const index_t limit = needs[b].extent;
    if (a.dims[outer.dim].second < req[b].hi[outer.dim] - req[b].lo[outer.dim] + 1) g.classify("folded");
    PBT_CHECK(g, a.dims[outer.dim].second <= limit, "b" << b << " stores " << a.dims[outer.dim].second
                                                        << " elements of the loop dimension, an iteration needs "
                                                        << limit << " and advances by " << needs[b].advance);
  }
}

void chains(pbt::gen& g) { run(g, {}); }
void diamonds(pbt::gen& g) {
  options o;
  o.diamonds = true;
  run(g, o);
}
void strided(pbt::gen& g) {
  options o;
  o.strides = true;
  run(g, o);
}
void nested(pbt::gen& g) {
  options o;
  o.loops = 2;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C25";
  c.rule = "the loop runs for several iterations, and a stage computed in it has a window of several elements";
  c.targets = {{"chains", chains, 3000, 60000}, {"diamonds", diamonds, 3000, 60000}, {"strided", strided, 3000, 60000},
      {"nested", nested, 3000, 60000}};
  return pbt::run(argc, argv, c);
}
