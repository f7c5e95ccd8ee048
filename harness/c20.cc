// C20: every internal allocation is valid, live for all its uses and freed exactly once.
#include "pipe_run.h"

using namespace pl;
using pbt::gen;

namespace {

void run(gen& g, const gen_options& o) {
  graph gr = gen_graph(g, o);
  if (gr.outputs.empty()) return g.discard();
  gen_schedule(g, gr, o);
  instance in;
  if (!gen_instance(g, gr, o, in)) return g.discard();
  slinky::build_options bo;
  if (g.chance(1, 2)) bo.no_alias_buffers = true;
  std::vector<io::layout> layouts = io::gen_layouts(g, gr);
  struct variant {
    std::size_t threshold;
    index_t base, stride;
    int storage;  // 0: as it is, 1: all on the heap, 2: all on the stack, 3: all automatic
    bool hook;
  };
  std::vector<variant> vs;
  for (int i = 0; i < 3; ++i) {
    variant v;
    v.threshold = g.pick({0, 1, 16, 64, 256, 4096, 1 << 20});
    v.base = g.pick({1, 2, 16, 32, 64, 256});
    v.stride = g.pick({1, 2, 4, 16, 64});
    v.storage = i == 0 ? 0 : g.below(4);
    v.hook = i == 0 || g.chance(2, 3);
    vs.push_back(v);
  }
  describe_case(g, gr, in);
  oracle orc(gr, in);
  int allocs = 0;
  for (std::size_t i = 0; i < vs.size(); ++i) {
    const variant& v = vs[i];
    graph gv = gr;
    for (buffer_spec& b : gv.bufs) {
      if (b.kind != INTERMEDIATE) continue;
      if (v.storage == 1) b.storage = slinky::memory_type::heap;
      if (v.storage == 2) b.storage = slinky::memory_type::stack;
      if (v.storage == 3) b.storage = slinky::memory_type::automatic;
    }
    auto p = build(gv, in, bo);
    std::ostringstream what;
    what << "threshold " << v.threshold << " base_alignment " << v.base << " stride_alignment " << v.stride << " storage "
         << v.storage << (v.hook ? " own allocator" : "");
    if (g.describing()) g.note() << what.str() << "\n";
    describe_body(g, *p);
    io mem(gv, in, orc, layouts);
    runner r(gv, in, orc);
    heap h;
    std::string shape;
    h.base_alignment = v.base;
    h.stride_alignment = v.stride;
    h.on_alloc = [&](var, const raw_buffer& b) {
      if (!shape.empty()) return;
      if (b.base && b.elem_count() > 0) {
        uintptr_t lo = reinterpret_cast<uintptr_t>(b.base) + b.min_offset_bytes();
        if (lo % v.base) shape = "an allocation is not aligned to " + std::to_string(v.base);
      }
      if (b.elem_size == 0) shape = "an allocation has elem_size 0";
      for (std::size_t d = 0; d < b.rank; ++d) {
        if (b.dim(d).stride() == slinky::dim::auto_stride) shape = "an allocation has no stride";
        if (b.dim(d).fold_factor() == 0) shape = "an allocation has fold_factor 0";
      }
    };
    if (v.hook) r.h = &h;
    r.configure = [&](slinky::eval_config& c) {
      c.auto_stack_threshold = v.threshold;
      c.base_alignment = v.base;
      c.stride_alignment = v.stride;
    };
    outcome out = r.run(*p, mem);
    if (i == 0 && !out.ok()) {
      // If that is not because of the allocations, it is for C01 to say. AddressSanitizer is always ours.
      g.classify(true, "wrong");
      return g.discard();
    }
    if (!out.ok()) return g.fail(what.str() + ": " + out.str());
    if (!shape.empty()) return g.fail(what.str() + ": " + shape);
    if (!h.error.empty()) return g.fail(what.str() + ": " + h.error);
    if (!h.live.empty()) return g.fail(what.str() + ": " + std::to_string(h.live.size()) + " allocations leak");
    if (v.hook && h.frees > 0 && h.bytes != 0) return g.fail("sizes change between allocate and free");
    if (v.hook && v.storage == 2 && h.allocs > 0) return g.fail(what.str() + ": stack buffers are allocated on the heap");
    allocs += h.allocs;
    g.count("allocations", h.allocs);
  }
  if (allocs > 0) g.nontrivial();
  g.classify(gr.parallel, "threads");
}

void t_calls(gen& g) {
  gen_options o;
  o.copies = false;
  run(g, o);
}
void t_serial(gen& g) {
  gen_options o;
  o.copies = false;
  o.parallel = false;
  run(g, o);
}
void t_unscheduled(gen& g) {
  gen_options o;
  o.schedule = false;
  run(g, o);
}
void t_mixed(gen& g) {
  gen_options o;
  run(g, o);
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C20";
  c.rule = "memory was allocated for an intermediate buffer with the allocation functions of the check";
  c.targets = {
      {"calls", t_calls, 1500, 8000},
      {"serial", t_serial, 1500, 8000},
      {"unscheduled", t_unscheduled, 1000, 3000},
      {"mixed", t_mixed, 1000, 2000},
  };
  c.hang_seconds = 60;
  c.attributions = {pl::learns_from_max()};
  return pbt::run(argc, argv, c);
}
