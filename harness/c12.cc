// C12: sorting, fusing and optimizing dimensions preserve what buffers address.
#include "bufgen.h"

using namespace bufgen;
using pbt::gen;
using slinky::span;

namespace {

typedef std::vector<const char*> tuple;
// The multiset of addresses (one per buffer) that belong to the same coordinate. Null: out of bounds of that buffer.
typedef std::map<tuple, int> relation;

void enumerate(const std::vector<const raw_buffer*>& bufs, relation& r, index_t& count) {
  count = 0;
  for_all(bufs[0]->dims, bufs[0]->rank, [&](const coords& c) {
    tuple t(bufs.size());
    for (std::size_t i = 0; i < bufs.size(); ++i) t[i] = model_address(*bufs[i], c);
    ++r[t];
    ++count;
  });
}

struct bufset {
  std::vector<owned> bufs;
  std::vector<raw_buffer*> ptrs;
  std::vector<const raw_buffer*> cptrs() const { return std::vector<const raw_buffer*>(ptrs.begin(), ptrs.end()); }
};

void generate(gen& g, bufset& s, int n, bool whole, int min_rank = 0) {
  options o;
  o.allow_aliasing = true;
  o.max_elems = 300;
  o.min_rank = min_rank;
  if (g.chance(1, 10)) o.max_rank = 6;
  s.bufs.resize(n);
  const bool dense = g.chance(2, 3);
  for (int i = 0; i < n; ++i) {
    owned& b = s.bufs[i];
    b.buf.elem_size = i > 0 && g.chance(2, 3) ? s.bufs[0].buf.elem_size : gen_elem_size(g);
    if (i == 0) {
      gen_dims(g, b.dims, o);
    } else {
      gen_related_dims(g, s.bufs[0].dims, b.dims, o);
      if (whole) {
        // Same rank and bounds for all buffers.
        b.dims.resize(s.bufs[0].dims.size());
        for (std::size_t d = 0; d < b.dims.size(); ++d) {
          b.dims[d].set_bounds(s.bufs[0].dims[d].min(), s.bufs[0].dims[d].max());
          if (b.dims[d].stride() == 0) b.dims[d] = dim(b.dims[d].min(), b.dims[d].max());
        }
      }
    }
    if (dense) {
      index_t st = b.buf.elem_size;
      for (dim& d : b.dims) {
        if (d.stride() != dim::auto_stride) continue;
        if (g.chance(1, 10)) {
          d.set_stride(0);
          continue;
        }
        d.set_stride(g.chance(1, 20) ? st * 2 : st);
        st = d.stride() * std::max<index_t>(d.max() - d.min() + 1, 1);
      }
      if (b.dims.size() > 1 && g.chance(1, 4)) {
        // Same memory order, different dimension order.
        std::size_t x = g.below(b.dims.size()), y = g.below(b.dims.size());
        std::swap(b.dims[x], b.dims[y]);
        if (i > 0) {
          index_t lo = b.dims[x].min(), hi = b.dims[x].max();
          b.dims[x].set_bounds(b.dims[y].min(), b.dims[y].max());
          b.dims[y].set_bounds(lo, hi);
        }
      }
    } else {
      gen_strides(g, b.dims, b.buf.elem_size, o);
    }
    // Dimensions of stride 0 that are not broadcasts have no bounds as far as addressing is concerned. The first buffer
    // defines the domain: it has no such dimensions where fusing could discard them.
    b.sync();
    b.buf.base = reinterpret_cast<void*>((i + 1) * static_cast<uintptr_t>(1) << 40);
    s.ptrs.push_back(&b.buf);
  }
}

void describe(gen& g, const bufset& s, const char* what) {
  if (!g.describing()) return;
  g.note() << what << "(";
  for (std::size_t i = 0; i < s.ptrs.size(); ++i) {
    if (i) g.note() << ", ";
    put(g.note(), *s.ptrs[i]);
  }
  g.note() << ")\n";
}

void compare(gen& g, const bufset& s, const relation& before, index_t count_before, const char* what) {
  relation after;
  index_t count;
  enumerate(s.cptrs(), after, count);
  if (after == before) return;
  std::ostringstream ss;
  ss << what << " changed what the buffers address, " << count_before << " -> " << count << " elements, now";
  for (const raw_buffer* b : s.ptrs) ss << " " << str(*b);
  g.fail(ss.str());
}

std::vector<int> gen_dim_sets(gen& g, std::size_t rank) {
  std::vector<int> r(g.chance(1, 6) ? g.below(rank + 1) : rank);
  for (int& i : r) i = static_cast<int>(g.below(3));
  return r;
}

template <typename Fn>
int apply_op(const std::vector<raw_buffer*>& b, const Fn& fn) {
  switch (b.size()) {
  case 1: return fn(*b[0]);
  case 2: return fn(*b[0], *b[1]);
  case 3: return fn(*b[0], *b[1], *b[2]);
  default: return fn(*b[0], *b[1], *b[2], *b[3]);
  }
}

void joint(gen& g) {
  bufset s;
  int n = static_cast<int>(g.range(1, 4));
  generate(g, s, n, g.chance(1, 3));
  for (dim& d : s.bufs[0].dims) {
    // The first buffer defines the domain. A stride 0 dimension has no bounds, and may be fused with a broadcast.
    if (d.stride() == 0 && !d.is_broadcast()) d.set_stride(s.bufs[0].buf.elem_size);
  }
  int op = static_cast<int>(g.below(6));
  static const char* names[] = {"optimize_dims", "fuse_contiguous_dims", "sort_dims", "optimize_dims with sets",
      "fuse_contiguous_dims with sets", "sort_dims with sets"};
  describe(g, s, names[op]);
  std::vector<int> sets;
  if (op >= 3) {
    sets = gen_dim_sets(g, s.ptrs[0]->rank);
    if (g.describing()) {
      g.note() << "dim_sets={";
      for (int i : sets) g.note() << " " << i;
      g.note() << " }\n";
    }
  }
  relation before;
  index_t count;
  enumerate(s.cptrs(), before, count);
  std::vector<std::vector<dim>> old;
  for (owned& b : s.bufs) old.push_back(b.dims);
  std::vector<std::size_t> ranks;
  for (raw_buffer* b : s.ptrs) ranks.push_back(b->rank);

  int result = apply_op(s.ptrs, [&](auto&... bufs) -> int {
    switch (op) {
    case 0: return slinky::optimize_dims(bufs...);
    case 1: return slinky::fuse_contiguous_dims(bufs...);
    case 2: return slinky::sort_dims(bufs...);
    case 3: return slinky::optimize_dims(span<const int>(sets.data(), sets.size()), bufs...);
    case 4: return slinky::fuse_contiguous_dims(span<const int>(sets.data(), sets.size()), bufs...);
    default: return slinky::sort_dims(span<const int>(sets.data(), sets.size()), bufs...);
    }
  });
  compare(g, s, before, count, names[op]);
  if (op != 2 && op != 5) {
    PBT_CHECK(g, ranks[0] >= s.ptrs[0]->rank && static_cast<int>(ranks[0] - s.ptrs[0]->rank) <= result,
        names[op] << " reports " << result << " fused, rank went from " << ranks[0] << " to " << s.ptrs[0]->rank);
  }
  if (op == 2 || op == 5) {
    for (int i = 0; i < n; ++i) PBT_CHECK(g, s.ptrs[i]->rank == ranks[i], "sorting changed the rank");
    bool changed = false;
    for (int i = 0; i < n; ++i) {
      for (std::size_t d = 0; d < ranks[i]; ++d) changed |= old[i][d] != s.ptrs[i]->dims[d];
    }
    PBT_CHECK(g, !changed || result, "sort_dims returned false, but it changed the dimensions");
  }
  if (op == 2) {
    std::size_t common = *std::min_element(ranks.begin(), ranks.end());
    for (std::size_t d = 0; d + 1 < common; ++d) {
      PBT_CHECK(g, s.ptrs[0]->dims[d].stride() <= s.ptrs[0]->dims[d + 1].stride(), "not sorted");
    }
  }
  if (op >= 3 && (op == 4 || op == 5)) {
    // No dimension moved or fused across sets: with all dimensions in different sets nothing happens.
    bool all_different = sets.size() >= ranks[0];
    for (std::size_t i = 0; i < sets.size(); ++i) {
      for (std::size_t j = 0; j < i; ++j) all_different &= sets[i] != sets[j];
    }
    if (all_different) PBT_CHECK(g, result == 0, names[op] << " did something across different sets");
  }
  g.count("elements", count);
  g.classify(names[op]);
  g.classify(result > 0, "changed something");
  if (count > 1 && result > 0) g.nontrivial();
}

// Fusing two given dimensions of one buffer, when allowed.
void single(gen& g) {
  bufset s;
  int n = static_cast<int>(g.range(1, 3));
  generate(g, s, n, true, 2);
  for (owned& b : s.bufs) {
    for (dim& d : b.dims) {
      if (d.stride() == 0 && !d.is_broadcast()) d.set_stride(b.buf.elem_size);
    }
  }
  std::size_t rank = s.ptrs[0]->rank;
  if (rank < 2) return g.discard();
  std::size_t inner = g.below(rank), outer = g.below(rank);
  if (inner == outer) return g.discard();
  describe(g, s, "fuse");
  int type = static_cast<int>(g.below(2));
  if (g.describing()) g.note() << "inner=" << inner << " outer=" << outer << (type ? " remove" : " keep") << "\n";
  bool can = true;
  for (raw_buffer* b : s.ptrs) can = can && slinky::can_fuse(b->dim(inner), b->dim(outer));
  g.classify(can, "can fuse");
  if (!can) return;
  relation before;
  index_t count;
  enumerate(s.cptrs(), before, count);
  for (raw_buffer* b : s.ptrs) {
    if (type) {
      slinky::fuse<slinky::fuse_type::remove>(inner, outer, *b);
    } else {
      slinky::fuse<slinky::fuse_type::keep>(inner, outer, *b);
    }
    PBT_CHECK(g, b->rank == rank - (type ? 1 : 0), "unexpected rank after fusing");
  }
  compare(g, s, before, count, "fuse");
  g.count("elements", count);
  if (count > 1) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C12";
  c.rule = "there is more than one element and the operation changed some dimension";
  c.assumptions = {"the first buffer defines the domain, and its stride 0 dimensions are broadcasts (min = max = 0)",
      "a stride 0 dimension of another buffer has no bounds"};
  c.targets = {{"joint", joint, 1000000, 60000000}, {"single", single, 800000, 60000000}};
  return pbt::run(argc, argv, c);
}
