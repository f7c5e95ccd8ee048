// C11: automatic strides and allocation give disjoint elements inside aligned memory.
#include "bufgen.h"

using namespace bufgen;
using pbt::gen;
typedef __int128 wide;

namespace {

wide alloc_extent(const dim& d) {
  if (d.fold_factor() != dim::unfolded) return d.fold_factor();
  wide e = static_cast<wide>(d.max()) - d.min() + 1;
  return e < 0 ? 0 : e;
}

// The bytes, relative to the base, that the elements span. false: there are no elements.
bool byte_range(const raw_buffer& b, wide& lo, wide& hi) {
  lo = 0;
  hi = b.elem_size;
  for (std::size_t d = 0; d < b.rank; ++d) {
    if (b.dims[d].max() < b.dims[d].min()) return false;
    if (b.dims[d].stride() == 0) continue;
    wide s = (alloc_extent(b.dims[d]) - 1) * b.dims[d].stride();
    (s < 0 ? lo : hi) += s;
  }
  return true;
}

wide abs(wide x) { return x < 0 ? -x : x; }

// Dimensions, some of whose strides are given. The given strides do not overlap: each is at least the product of the
// stride and extent of the next smaller one.
void gen_mixed_dims(gen& g, owned& b, bool all_auto, bool huge) {
  options o;
  o.max_elems = 500;
  o.allow_zero_stride = false;
  o.max_rank = g.chance(1, 8) ? 6 : 4;
  b.buf.elem_size = gen_elem_size(g);
  gen_dims(g, b.dims, o);
  if (huge) {
    for (dim& d : b.dims) {
      if (!g.chance(1, 2)) continue;
      index_t extent = (static_cast<index_t>(1) << g.range(8, 61)) + g.range(-2, 2);
      index_t min = g.chance(1, 2) ? g.range(-5, 5) : -extent / 2;
      d.set_min_extent(min, extent);
      if (d.fold_factor() != dim::unfolded && g.chance(1, 2)) d.set_fold_factor(extent + g.range(0, 3));
    }
  }
  if (!all_auto) {
    std::vector<int> order(b.dims.size());
    for (std::size_t i = 0; i < order.size(); ++i) order[i] = i;
    for (std::size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[i - 1 - g.below(i)]);
    wide s = b.buf.elem_size;
    for (int d : order) {
      if (g.chance(1, 2)) continue;
      if (g.chance(1, 10)) {
        b.dims[d].set_stride(0);
        continue;
      }
      // Leave room for other dimensions, sometimes.
      s *= g.weighted({3, 2}) == 0 ? 1 : g.range(1, 8);
      if (g.chance(1, 5)) s += g.range(0, 5);
      if (huge && g.chance(1, 10)) s <<= g.range(0, 40);
      if (s > INT64_MAX - 1) break;
      b.dims[d].set_stride(static_cast<index_t>(g.chance(1, 8) ? -s : s));
      s *= std::max<wide>(1, alloc_extent(b.dims[d]));
      if (s > INT64_MAX - 1) break;
    }
  }
  b.sync();
}

void check_strides(gen& g, const owned& b, const std::vector<dim>& before, index_t alignment) {
  for (std::size_t d = 0; d < before.size(); ++d) {
    const dim &x = before[d], &y = b.dims[d];
    PBT_CHECK(g, x.min() == y.min() && x.max() == y.max() && x.fold_factor() == y.fold_factor(), "bounds changed");
    PBT_CHECK(g, y.stride() != dim::auto_stride, "dimension " << d << " has no stride");
    if (x.stride() != dim::auto_stride) {
      PBT_CHECK(g, x.stride() == y.stride(), "the given stride of dimension " << d << " changed");
    } else {
      PBT_CHECK(g, y.stride() > 0, "automatic stride " << y.stride());
      PBT_CHECK(g, y.stride() == static_cast<index_t>(b.buf.elem_size) || y.stride() % alignment == 0,
          "automatic stride " << y.stride() << " of dimension " << d << " is neither elem_size nor aligned to "
                              << alignment);
    }
  }
}

// No two elements at distinct (folded) coordinates overlap.
void check_disjoint(gen& g, const owned& b, wide lo, wide hi) {
  if (hi - lo > 200000) return;
  std::vector<dim> d = b.dims;
  index_t n = 1;
  for (dim& x : d) {
    if (x.stride() == 0) {
      x.set_point(x.min());
    } else {
      // All positions in a fold are distinct.
      x.set_min_extent(x.min(), static_cast<index_t>(alloc_extent(x)));
    }
    n *= x.extent();
  }
  if (n > 5000) return;
  std::vector<char> used(static_cast<std::size_t>(hi - lo));
  for_all(d.data(), d.size(), [&](const coords& c) {
    index_t o = 0;
    for (std::size_t i = 0; i < d.size(); ++i) o += model_offset(b.dims[i], c[i]);
    for (std::size_t i = 0; i < b.buf.elem_size; ++i) {
      char& u = used[static_cast<std::size_t>(o + i - lo)];
      if (u) {
        std::ostringstream ss;
        ss << "elements overlap: " << str(b.buf) << " at (";
        for (index_t x : c) ss << " " << x;
        ss << " )";
        g.fail(ss.str());
      }
      u = 1;
    }
  });
  g.count("elements checked to be disjoint", n);
}

void init_strides(gen& g) {
  owned b;
  bool all_auto = g.chance(1, 4);
  bool huge = g.chance(1, 4);
  gen_mixed_dims(g, b, all_auto, huge);
  if (huge && all_auto && g.chance(1, 8)) b.buf.elem_size = static_cast<std::size_t>(1) << g.range(10, 63);
  index_t alignment = static_cast<index_t>(1) << g.below(8);
  if (g.describing()) {
    g.note() << "init_strides(" << alignment << ") of ";
    put(g.note(), b.buf);
    g.note() << "\n";
  }
  std::vector<dim> before = b.dims;
  bool unknown = false, known = false;
  for (const dim& d : before) {
    unknown |= d.stride() == dim::auto_stride;
    known |= d.stride() != dim::auto_stride;
  }
  auto size = b.buf.init_strides(alignment);
  if (!size) {
    g.classify("reported as too big");
    // It must be true that it is too big, give or take the padding of the biggest dimension.
    wide s = static_cast<wide>(b.buf.elem_size) + alignment;
    for (const dim& d : before) {
      wide e = std::max<wide>(1, alloc_extent(d));
      if (d.stride() != 0 && d.stride() != dim::auto_stride) s += abs(d.stride()) * e;
    }
    if (s > INT64_MAX) return g.nontrivial();
    // An upper bound of what the automatic dimensions need: each at worst is placed after all the others, aligned.
    wide bound = s;
    for (const dim& d : before) {
      if (d.stride() == dim::auto_stride) {
        bound = (bound + alignment) * std::max<wide>(1, alloc_extent(d));
        if (bound > (static_cast<wide>(1) << 64)) break;
      }
    }
    PBT_CHECK(g, bound > INT64_MAX, "reported as too big, but it is not");
    g.nontrivial();
    return;
  }
  check_strides(g, b, before, alignment);
  wide lo, hi;
  bool elements = byte_range(b.buf, lo, hi);
  if (elements) {
    PBT_CHECK(g, hi - lo <= static_cast<wide>(*size), "size " << *size << " is less than the elements span, "
        << static_cast<double>(hi - lo) << ": " << str(b.buf));
    PBT_CHECK(g, static_cast<wide>(*size) < hi - lo + alignment, "size " << *size << " is more than needed: "
        << str(b.buf));
    PBT_CHECK(g, *size % alignment == 0, "size is not aligned");
    PBT_CHECK(g, static_cast<wide>(b.buf.size_bytes()) == hi - lo, "size_bytes() is " << b.buf.size_bytes()
        << ", the elements of " << str(b.buf) << " span " << static_cast<double>(hi - lo));
    PBT_CHECK(g, validate_buffer(b.buf), "not valid: " << str(b.buf));
    check_disjoint(g, b, lo, hi);
    if (all_auto && alignment == 1) {
      // The first dimension is innermost, and there is no padding.
      wide s = b.buf.elem_size;
      for (const dim& d : b.dims) {
        PBT_CHECK(g, alloc_extent(d) <= 1 || d.stride() == s, "automatic strides are not dense: " << str(b.buf));
        s *= alloc_extent(d);
      }
    }
  } else {
    bool fold = false;
    for (const dim& d : b.dims) fold |= d.fold_factor() != dim::unfolded;
    PBT_CHECK(g, fold || b.buf.size_bytes() == 0, "size_bytes() of an empty buffer is " << b.buf.size_bytes());
  }
  g.classify(unknown && known, "some strides given");
  g.classify(huge, "huge");
  g.classify(!elements, "empty");
  if (unknown && b.dims.size() > 1) g.nontrivial();
}

// Writes every element, so ASan sees any that are outside the allocation.
void touch(gen& g, const raw_buffer& b) {
  for_all(b.dims, b.rank, [&](const coords& c) {
    void* a = b.address_at(slinky::span<const index_t>(c.data(), c.size()));
    PBT_CHECK(g, a == model_address(b, c), "address_at disagrees with the dimensions");
    memset(a, 1, b.elem_size);
  });
}

void allocate(gen& g) {
  owned b;
  int how = static_cast<int>(g.below(3));
  gen_mixed_dims(g, b, g.chance(1, 4), false);
  index_t alignment = static_cast<index_t>(1) << g.below(9);
  index_t stride_alignment = static_cast<index_t>(1) << g.below(6);
  if (how > 0) {
    options o;
    gen_strides(g, b.dims, b.buf.elem_size, o);
  }
  if (g.describing()) {
    static const char* names[] = {"allocate", "make", "make_copy"};
    g.note() << names[how] << " ";
    put(g.note(), b.buf);
    g.note() << " base alignment " << alignment << " stride alignment " << stride_alignment << "\n";
  }
  std::vector<dim> before = b.dims;
  wide lo, hi;
  bool negative = false;
  for (const dim& d : b.dims) negative |= d.stride() < 0 && alloc_extent(d) > 1;
  g.classify(negative, "negative strides");
  switch (how) {
  case 0: {
    void* p = b.buf.allocate(alignment, stride_alignment);
    PBT_CHECK(g, p, "not allocated");
    check_strides(g, b, before, stride_alignment);
    if (byte_range(b.buf, lo, hi)) {
      PBT_CHECK(g, (reinterpret_cast<uintptr_t>(b.buf.base) + static_cast<index_t>(lo)) % alignment == 0,
          "not aligned");
      touch(g, b.buf);
    }
    free(p);
    break;
  }
  case 1: {
    auto p = raw_buffer::make(b.dims.size(), b.buf.elem_size, b.dims.data(), alignment);
    PBT_CHECK(g, p->rank == b.dims.size() && p->elem_size == b.buf.elem_size, "wrong rank or elem_size");
    for (std::size_t d = 0; d < b.dims.size(); ++d) PBT_CHECK(g, p->dims[d] == b.dims[d], "wrong dimension");
    if (byte_range(*p, lo, hi)) {
      PBT_CHECK(g, (reinterpret_cast<uintptr_t>(p->base) + static_cast<index_t>(lo)) % alignment == 0, "not aligned");
      touch(g, *p);
    }
    break;
  }
  default: {
    b.allocate(g, 5);
    auto p = raw_buffer::make_copy(b.buf, alignment);
    for_all(b.dims.data(), b.dims.size(), [&](const coords& c) {
      PBT_CHECK(g, memcmp(model_address(b.buf, c), model_address(*p, c), b.buf.elem_size) == 0, "copy differs");
    });
    touch(g, *p);
    break;
  }
  }
  index_t n = count_all(b.dims.data(), b.dims.size());
  g.count("elements", n);
  if (n > 1) g.nontrivial();
}

void validate(gen& g) {
  owned b;
  gen_mixed_dims(g, b, false, true);
  for (dim& d : b.dims) {
    if (d.stride() == dim::auto_stride) {
      if (g.chance(1, 10)) continue;
      d.set_stride(g.chance(1, 2) ? g.range(-64, 64) : g.interesting64());
    } else if (g.chance(1, 4)) {
      d.set_stride(g.interesting64());
    }
  }
  uintptr_t base = 0;
  switch (g.below(4)) {
  case 0: base = 0; break;
  case 1: base = static_cast<uintptr_t>(g.range(1, 4096)); break;
  case 2: base = ~static_cast<uintptr_t>(0) - static_cast<uintptr_t>(g.range(0, 4096)); break;
  case 3: base = static_cast<uintptr_t>(g.interesting64()); break;
  }
  b.buf.base = reinterpret_cast<void*>(base);
  if (g.describing()) {
    g.note() << "validate_buffer base=" << base << " ";
    put(g.note(), b.buf);
    g.note() << "\n";
  }
  // The exact answer.
  wide lo = 0, hi = 0;
  bool ok = true, empty = false;
  for (const dim& d : b.dims) {
    wide e = alloc_extent(d);
    if (e == 0 || d.max() < d.min()) empty = true;
    if (d.stride() == 0) continue;
    if (e == 0) {
      empty = true;
      continue;
    }
    if (d.stride() == dim::auto_stride && e > 1) ok = false;
    wide s = (e - 1) * d.stride();
    (s < 0 ? lo : hi) += s;
  }
  bool fits = ok && lo >= INT64_MIN && hi <= INT64_MAX;
  if (base && fits) {
    fits = static_cast<wide>(base) + lo >= 0 &&
           static_cast<wide>(base) + hi + static_cast<wide>(b.buf.elem_size) <= static_cast<wide>(UINT64_MAX);
  }
  bool result = slinky::validate_buffer(b.buf);
  if (empty) {
    // There is nothing to address. Whether it is valid only depends on whether the other dimensions overflow.
    if (fits) PBT_CHECK(g, result, "an empty buffer is reported invalid");
  } else {
    PBT_CHECK(g, result == fits, "validate_buffer returned " << result << " for " << str(b.buf));
  }
  g.classify(fits, "valid");
  g.classify(empty, "empty");
  if (!empty && !b.dims.empty()) g.nontrivial();
  // size_bytes of a buffer with representable size is exact, and elem_count counts.
  if (fits && !empty && hi - lo + static_cast<wide>(b.buf.elem_size) <= static_cast<wide>(INT64_MAX)) {
    bool autos = false;
    for (const dim& d : b.dims) autos |= d.stride() == dim::auto_stride;
    if (!autos) {
      PBT_CHECK(g, static_cast<wide>(b.buf.size_bytes()) == hi - lo + static_cast<wide>(b.buf.elem_size),
          "size_bytes() is " << b.buf.size_bytes());
    }
  }
}

void elem_count(gen& g) {
  owned b;
  options o;
  gen_dims(g, b.dims, o);
  b.buf.elem_size = gen_elem_size(g);
  gen_strides(g, b.dims, b.buf.elem_size, o);
  b.sync();
  if (g.describing()) {
    put(g.note(), b.buf);
    g.note() << "\n";
  }
  index_t n = 0;
  for_all(b.dims.data(), b.dims.size(), [&](const coords&) { ++n; });
  PBT_CHECK(g, static_cast<index_t>(b.buf.elem_count()) == n, "elem_count() is " << b.buf.elem_count() << ", not " << n);
  int v = static_cast<int>(g.range(-100, 100));
  auto s = raw_buffer::make_scalar(v, static_cast<index_t>(1) << g.below(7));
  PBT_CHECK(g, s->rank == 0 && s->elem_size == sizeof(int) && *static_cast<int*>(s->base) == v, "make_scalar is wrong");
  if (n > 1) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C11";
  c.rule = "init_strides: at least two dimensions and one automatic stride, or reported as too big; allocate and "
           "elem_count: more than one element; validate: at least one dimension, not empty";
  c.assumptions = {"given strides do not overlap each other", "extents are representable",
      "the alignment of a buffer with negative strides is the alignment of its lowest address"};
  c.targets = {{"init_strides", init_strides, 1200000, 50000000}, {"allocate", allocate, 600000, 20000000},
      {"validate", validate, 1500000, 50000000}, {"elem_count", elem_count, 400000, 4000000}};
  return pbt::run(argc, argv, c);
}
