// C18: the checks accept exactly the buffers the pipeline can run on.
#include "pipe_run.h"

using namespace pl;
using pbt::gen;

namespace {

const char* mutations[] = {"null", "rank", "elem_size", "too small", "stride", "fold factor", "too big", "alignment",
    "negative extent"};

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in, /*exact=*/g.chance(3, 4))) return g.discard();
  slinky::build_options bo;
  if (g.chance(1, 4)) bo.no_alias_buffers = true;
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  const int kind = g.below(9);
  const uint64_t which = g.below(100000), which_dim = g.below(100000), how = g.below(4);
  const index_t by = 1 + g.below(3);
  describe_case(g, gr, in);
  oracle orc(gr, in);
  auto p = build(gr, in, bo);
  describe_body(g, *p);
  io mem(gr, in, orc, layouts);
  runner r(gr, in, orc);
  outcome ok = r.run(*p, mem);
  if (ok.checks_failed > 0) return g.fail("buffers that satisfy all requirements are rejected: " + ok.check);
  if (!ok.ok()) {
    g.classify(true, "accepted, but wrong");
    return g.discard();
  }

  // Now break one requirement.
  std::vector<std::pair<int, int>> can;  // buffer, dimension
  // What is required of a padded copy depends on the bounds of other buffers.
  bool pads = false;
  for (const stage& s : gr.stages) pads = pads || s.kind == PAD;
  for (std::size_t b = 0; b < gr.bufs.size(); ++b) {
    const buffer_spec& bs = gr.bufs[b];
    const bool input = std::find(gr.inputs.begin(), gr.inputs.end(), b) != gr.inputs.end();
    if (!input && bs.kind != OUTPUT) continue;
    if (kind < 3) {
      can.push_back({b, 0});
      continue;
    }
    for (int d = 0; d < bs.rank; ++d) {
      const ival& a = in.actual[b][d];
      switch (kind) {
      case 3:
        // The required region of inputs of callbacks.
        if (input && !pads && static_cast<std::size_t>(d) < in.required[b].size() && !box_empty(in.required[b]) && !in.any_empty) {
          can.push_back({b, d});
        }
        break;
      case 4:
        if (bs.dense_dim == d && a.extent() > 1) can.push_back({b, d});
        break;
      case 5:
        // An input that is not required to be unfolded may be folded.
        if (a.extent() > 1 && (!input || bs.unfolded[d])) can.push_back({b, d});
        break;
      case 6:
        if (!box_empty(in.actual[b])) can.push_back({b, d});
        break;
      case 7:
        if (bs.align[d] > 1) can.push_back({b, d});
        break;
      case 8:
        if (input && !pads && !in.any_empty && static_cast<std::size_t>(d) < in.required[b].size() && !box_empty(in.required[b])) {
          can.push_back({b, d});
        }
        break;
      }
    }
  }
  g.classify(can.empty(), "nothing to break");
  if (can.empty()) return;
  int b = can[which % can.size()].first, d = can[which % can.size()].second;
  (void)which_dim;
  raw_buffer& buf = mem.mem[b]->buf;
  mem.reset();
  std::vector<index_t> args = mem.args(gr, in);
  std::vector<const raw_buffer*> ins = mem.ptrs(gr.inputs), outs = mem.ptrs(gr.outputs);
  slinky::dim dims[10];
  std::copy(buf.dims, buf.dims + buf.rank, dims);
  buf.dims = dims;
  std::ostringstream what;
  what << mutations[kind] << ": b" << b;
  const ival a = kind > 2 ? in.actual[b][d] : ival{0, 0};
  switch (kind) {
  case 0:
    for (auto& i : ins) {
      if (i == &buf) i = nullptr;
    }
    for (auto& i : outs) {
      if (i == &buf) i = nullptr;
    }
    break;
  case 1:
    if (buf.rank > 0 && how % 2 == 0) {
      --buf.rank;
    } else {
      dims[buf.rank] = slinky::dim();
      dims[buf.rank].set_bounds(0, how > 1 ? 0 : 1);
      dims[buf.rank].set_stride(how > 1 ? 0 : 8);
      ++buf.rank;
    }
    what << " rank " << buf.rank;
    break;
  case 2:
    buf.elem_size = how == 0 ? buf.elem_size * 2 : how == 1 ? buf.elem_size + 1 : how == 2 ? buf.elem_size / 2 : 0;
    what << " elem_size " << buf.elem_size;
    break;
  case 3: {
    ival req = in.required[b][d];
    if (how % 2 == 0) {
      index_t min = req.lo + by;
      if (min > a.hi) min = req.lo + 1;
      // The address of the new min.
      buf.base = reinterpret_cast<char*>(buf.base) + dims[d].stride() * (min - a.lo);
      dims[d].set_bounds(min, std::max(a.hi, min));
    } else {
      dims[d].set_bounds(a.lo, req.hi - std::min(by, req.hi - a.lo + 1));
    }
    what << " dim " << d << " [" << dims[d].min() << "," << dims[d].max() << "] of required " << str(in.required[b]);
    break;
  }
  case 4:
    dims[d].set_stride(how == 0 ? 0 : how == 1 ? -dims[d].stride() : dims[d].stride() * 2);
    what << " dim " << d << " stride " << dims[d].stride();
    break;
  case 5:
    if (gr.bufs[b].unfolded[d] && how % 2 == 0) {
      dims[d].set_fold_factor(a.extent() + by);
    } else {
      dims[d].set_fold_factor(std::max<index_t>(1, a.extent() - by));
    }
    what << " dim " << d << " fold_factor " << dims[d].fold_factor();
    break;
  case 6: {
    // More than can be addressed.
    const index_t big = static_cast<index_t>(1) << 62;
    if (how % 2 == 0) {
      dims[d].set_bounds(std::min<index_t>(a.lo, 0), std::max<index_t>(a.hi, big - 1 + (how == 2)));
      dims[d].set_stride(4);
    } else {
      dims[d].set_bounds(a.lo - 4, a.hi + 4);
      dims[d].set_stride(how == 1 ? big : -big);
    }
    what << " dim " << d << " [" << dims[d].min() << "," << dims[d].max() << "] stride " << dims[d].stride();
    break;
  }
  case 7:
    if (how % 2 == 0) {
      dims[d].set_bounds(a.lo - 1, a.hi);
    } else {
      dims[d].set_bounds(a.lo, a.hi + 1);
    }
    what << " dim " << d << " [" << dims[d].min() << "," << dims[d].max() << "]";
    break;
  case 8:
    dims[d].set_bounds(a.lo, a.lo - 1 - static_cast<index_t>(how));
    what << " dim " << d << " [" << dims[d].min() << "," << dims[d].max() << "]";
    break;
  }
  if (g.describing()) g.note() << "  " << what.str() << "\n";
  monitor mon(gr, in, orc);
  mon.check_values = mon.check_shapes = false;
  mon.fail_call = 0;
  *p->mon = &mon;
  slinky::eval_config cfg;
  int checks_failed = 0;
  cfg.check_failed = [&](const expr&) { ++checks_failed; };
  cfg.call_failed = [&](const slinky::call_stmt*) {};
  heap h;
  h.install(cfg);
  if (gr.parallel) cfg.thread_pool = &shared_pool();
  slinky::eval_context ctx;
  ctx.config = &cfg;
  index_t status = p->p.evaluate(slinky::span<const index_t>(args.data(), args.size()),
      slinky::span<const raw_buffer*>(ins.data(), ins.size()), slinky::span<const raw_buffer*>(outs.data(), outs.size()), ctx);
  if (checks_failed == 0) return g.fail("accepted: " + what.str(), std::string("accepts ") + mutations[kind]);
  if (status == 0) return g.fail("a check failed, but returns 0: " + what.str());
  if (mon.calls > 0) return g.fail("a callback runs before the check fails: " + what.str());
  if (h.allocs > 0) return g.fail("memory is allocated before the check fails: " + what.str());
  for (std::size_t i = 0; i < mem.mem.size(); ++i) {
    if (mem.mem[i] && mem.mem[i]->bytes != mem.before[i]) return g.fail("buffers are modified: " + what.str());
  }
  g.nontrivial();
  g.classify(true, mutations[kind]);
  g.classify(gr.bufs[b].kind == OUTPUT, "an output is wrong");
}

void t_calls(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_unscheduled(gen& g) {
  gen_options o;
  o.copies = false;
  o.schedule = false;
  run(g, o);
}
void t_copies(gen& g) {
  gen_options o;
  o.schedule = false;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C18";
  c.rule = "one requirement was broken, and the buffers were rejected";
  c.targets = {
      {"calls", t_calls, 3000, 10000},
      {"unscheduled", t_unscheduled, 4000, 10000},
      {"copies", t_copies, 2000, 4000},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
