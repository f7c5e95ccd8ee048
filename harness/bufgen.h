// Generators of buffers, and an independent model of what they address.
#ifndef VERIF_BUFGEN_H
#define VERIF_BUFGEN_H

#include <algorithm>
#include <cstdint>
#include <cstring>
#include <map>
#include <memory>
#include <string>
#include <vector>

#include "engine.h"
#include "slinky/runtime/buffer.h"

namespace bufgen {

using slinky::dim;
using slinky::index_t;
using slinky::raw_buffer;

typedef std::vector<index_t> coords;

inline index_t floor_mod(index_t a, index_t b) {
  index_t r = a % b;
  return r < 0 ? r + b : r;
}

// What the interface says a dimension contributes to the address of coordinate `i`.
inline index_t model_offset(const dim& d, index_t i) {
  if (d.stride() == 0) return 0;
  if (d.fold_factor() != dim::unfolded) return floor_mod(i, d.fold_factor()) * d.stride();
  return (i - d.min()) * d.stride();
}
inline bool model_in_bounds(const dim& d, index_t i) { return d.stride() == 0 || (d.min() <= i && i <= d.max()); }

// The address of `c`, where coordinates beyond the rank are ignored, and missing coordinates are 0.
inline char* model_address(const raw_buffer& b, const coords& c) {
  if (!b.base) return nullptr;
  index_t offset = 0;
  for (std::size_t d = 0; d < b.rank; ++d) {
    index_t i = d < c.size() ? c[d] : 0;
    if (!model_in_bounds(b.dims[d], i)) return nullptr;
    offset += model_offset(b.dims[d], i);
  }
  return static_cast<char*>(b.base) + offset;
}

// Call fn(coords) for every coordinate in bounds of dims.
template <typename Fn>
void for_all(const dim* dims, std::size_t rank, const Fn& fn) {
  for (std::size_t d = 0; d < rank; ++d) {
    if (dims[d].max() < dims[d].min()) return;
  }
  coords c(rank);
  for (std::size_t d = 0; d < rank; ++d) c[d] = dims[d].min();
  for (;;) {
    fn(const_cast<const coords&>(c));
    std::size_t d = 0;
    for (; d < rank; ++d) {
      if (c[d] < dims[d].max()) {
        ++c[d];
        break;
      }
      c[d] = dims[d].min();
    }
    if (d == rank) return;
  }
}

inline index_t count_all(const dim* dims, std::size_t rank) {
  index_t n = 1;
  for (std::size_t d = 0; d < rank; ++d) n *= dims[d].max() >= dims[d].min() ? dims[d].max() - dims[d].min() + 1 : 0;
  return n;
}

inline void put(std::ostream& os, const dim& d) {
  os << "[" << d.min() << "," << d.max() << "]";
  if (d.stride() == dim::auto_stride) {
    os << "*auto";
  } else {
    os << "*" << d.stride();
  }
  if (d.fold_factor() != dim::unfolded) os << "%" << d.fold_factor();
}
inline void put(std::ostream& os, const raw_buffer& b) {
  os << "{" << (b.base ? "" : "null ") << b.elem_size << "B:";
  for (std::size_t d = 0; d < b.rank; ++d) {
    os << " ";
    put(os, b.dims[d]);
  }
  os << "}";
}
inline std::string str(const raw_buffer& b) {
  std::ostringstream ss;
  put(ss, b);
  return ss.str();
}

// A buffer in a heap block of exactly the bytes its elements span (so that ASan sees any access outside it).
class owned {
public:
  raw_buffer buf{};
  std::vector<dim> dims;
  std::unique_ptr<char[]> mem;
  std::size_t size = 0;

  owned() = default;
  owned(owned&&) = default;
  owned& operator=(owned&&) = default;

  void sync() {
    buf.dims = dims.data();
    buf.rank = dims.size();
  }

  // Allocates memory for the elements addressed by the dims.
  void allocate(pbt::gen& g, unsigned fill_seed) {
    sync();
    index_t lo = 0, hi = 0;
    bool empty = false;
    for (const dim& d : dims) {
      if (d.max() < d.min()) {
        empty = true;
        continue;
      }
      index_t a, b;
      if (d.stride() == 0) continue;
      if (d.fold_factor() != dim::unfolded) {
        // The base of a folded dimension is the address of a multiple of the fold factor, and is backed by memory, as
        // are all positions in the fold.
        a = 0;
        b = (d.fold_factor() - 1) * d.stride();
      } else {
        a = 0;
        b = (d.max() - d.min()) * d.stride();
      }
      lo += std::min(a, b);
      hi += std::max(a, b);
    }
    size = empty ? 0 : static_cast<std::size_t>(hi - lo) + buf.elem_size;
    mem.reset(new char[size]);
    for (std::size_t i = 0; i < size; ++i) {
      fill_seed = fill_seed * 1664525u + 1013904223u;
      mem[i] = static_cast<char>(fill_seed >> 24);
    }
    // An empty buffer may or may not have a base.
    buf.base = empty ? (g.chance(1, 3) ? mem.get() : nullptr) : mem.get() - lo;
  }
};

struct options {
  int min_rank = 0;
  int max_rank = 4;
  bool allow_empty = true;
  bool allow_zero_stride = true;
  bool allow_folds = true;
  // Folds smaller than the extent, where several coordinates share an address.
  bool allow_aliasing = false;
  index_t max_elems = 600;
};

inline index_t gen_extent(pbt::gen& g, const options& o, index_t budget) {
  index_t e;
  switch (g.weighted({4, 8, 3, o.allow_empty ? 1 : 0})) {
  case 0: e = 1; break;
  case 1: e = g.range(1, 5); break;
  case 2: e = g.range(1, 17); break;
  default: return 0;
  }
  return std::min(e, std::max<index_t>(budget, 1));
}

inline index_t gen_elem_size(pbt::gen& g) { return g.pick<index_t>({1, 4, 2, 8, 3, 16, 12, 40}); }

// Give strides to dims that have none (stride == auto_stride): distinct coordinates get distinct bytes, possibly with
// padding between them.
inline void gen_strides(pbt::gen& g, std::vector<dim>& dims, index_t elem_size, const options& o) {
  std::vector<int> order(dims.size());
  for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
  if (g.chance(1, 3)) {
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[i - 1 - g.below(i)]);
  }
  index_t s = elem_size;
  for (int d : order) {
    dim& x = dims[d];
    if (x.stride() != dim::auto_stride) continue;
    if (o.allow_zero_stride && g.chance(1, 8)) {
      x.set_stride(0);
      if (g.chance(1, 2) && x.min() == x.max()) x.set_point(0);
      continue;
    }
    switch (g.weighted({8, 2, 1})) {
    case 0: break;
    case 1: s += elem_size * g.range(1, 3); break;
    case 2: s += g.range(1, 3); break;
    }
    index_t extent = std::max<index_t>(x.max() - x.min() + 1, 0);
    if (x.fold_factor() != dim::unfolded) extent = x.fold_factor();
    x.set_stride(g.chance(1, 12) ? -s : s);
    s *= std::max<index_t>(extent, 1);
  }
}

inline void gen_dims(pbt::gen& g, std::vector<dim>& dims, const options& o) {
  int rank = static_cast<int>(g.range(o.min_rank, o.max_rank));
  index_t budget = o.max_elems;
  dims.clear();
  for (int d = 0; d < rank; ++d) {
    index_t extent = gen_extent(g, o, budget);
    if (extent > 0) budget /= extent;
    index_t min = g.chance(1, 2) ? 0 : g.range(-7, 7);
    dim x(min, min + extent - 1, dim::auto_stride, dim::unfolded);
    if (o.allow_folds && g.chance(1, 5)) {
      index_t lo = o.allow_aliasing && g.chance(1, 3) ? 1 : std::max<index_t>(extent, 1);
      x.set_fold_factor(g.range(lo, std::max<index_t>(extent, 1) + 4));
    }
    dims.push_back(x);
  }
}

// Dims related to `like`, often with the same bounds, sometimes shifted, smaller, bigger, or of different rank.
inline void gen_related_dims(pbt::gen& g, const std::vector<dim>& like, std::vector<dim>& dims, const options& o) {
  dims.clear();
  int rank = static_cast<int>(like.size());
  switch (g.weighted({6, 2, 1})) {
  case 0: break;
  case 1: rank = static_cast<int>(g.range(0, rank)); break;
  case 2: rank = static_cast<int>(g.range(rank, rank + 2)); break;
  }
  const bool same = g.chance(1, 3);
  for (int d = 0; d < rank; ++d) {
    dim x = d < static_cast<int>(like.size()) ? like[d] : dim(0, 0, 0, dim::unfolded);
    index_t min = x.min(), max = x.max();
    if (!same) {
      switch (g.weighted({8, 2, 2, 1, 1})) {
      case 0: break;
      case 1: min += g.range(-2, 2); break;
      case 2: max += g.range(-2, 2); break;
      case 3: {
        index_t t = g.range(-9, 9);
        min += t;
        max += t;
        break;
      }
      case 4:
        min = g.range(-3, 3);
        max = min + gen_extent(g, o, 6) - 1;
        break;
      }
    }
    if (max < min) {
      if (o.allow_empty) {
        max = min - 1;
      } else {
        max = min;
      }
    }
    dim y(min, max, dim::auto_stride, dim::unfolded);
    if (o.allow_folds && g.chance(1, 6)) {
      index_t extent = std::max<index_t>(max - min + 1, 1);
      index_t lo = o.allow_aliasing && g.chance(1, 3) ? 1 : extent;
      y.set_fold_factor(g.range(lo, extent + 4));
    }
    dims.push_back(y);
  }
}

}  // namespace bufgen

#endif
