// C09: copy and pad write exactly the right elements with the right values.
#include "bufgen.h"

using namespace bufgen;
using pbt::gen;

namespace {

struct snapshot {
  const char* p;
  std::vector<char> bytes;
};

// True if the coordinate is in bounds of `dims` for the purposes of padding: a broadcast is never padded.
bool in_src(const dim* dims, std::size_t rank, const coords& c) {
  for (std::size_t d = 0; d < rank; ++d) {
    index_t i = d < c.size() ? c[d] : 0;
    if (dims[d].is_broadcast()) continue;
    if (i < dims[d].min() || i > dims[d].max()) return false;
  }
  return true;
}

void check_memory(gen& g, const owned& b, const std::vector<char>& expected, const char* what) {
  if (b.size == 0) return;
  if (memcmp(b.mem.get(), expected.data(), b.size) == 0) return;
  for (std::size_t i = 0; i < b.size; ++i) {
    if (b.mem[i] != expected[i]) {
      // Find whether this byte belongs to an element.
      std::string where = "outside all elements";
      for_all(b.dims.data(), b.dims.size(), [&](const coords& c) {
        char* a = model_address(b.buf, c);
        if (a <= b.mem.get() + i && b.mem.get() + i < a + b.buf.elem_size) {
          std::ostringstream ss;
          ss << "of element (";
          for (std::size_t d = 0; d < c.size(); ++d) ss << (d ? "," : "") << c[d];
          ss << ")";
          where = ss.str();
        }
      });
      std::ostringstream ss;
      ss << what << ": byte " << where << " is wrong";
      g.fail(ss.str());
    }
  }
}

std::vector<char> contents(const owned& b) { return std::vector<char>(b.mem.get(), b.mem.get() + b.size); }

void gen_dst(gen& g, owned& b) {
  options o;
  o.allow_zero_stride = false;
  b.buf.elem_size = gen_elem_size(g);
  gen_dims(g, b.dims, o);
  gen_strides(g, b.dims, b.buf.elem_size, o);
}

// Widen dims of b until they contain dst (or are broadcasts).
void cover(std::vector<dim>& dims, const owned& dst) {
  for (std::size_t d = 0; d < dims.size(); ++d) {
    dim x = d < dst.dims.size() ? dst.dims[d] : dim(0, 0, 0);
    if (x.max() < x.min()) continue;
    dims[d].set_bounds(std::min(dims[d].min(), x.min()), std::max(dims[d].max(), x.max()));
    if (dims[d].max() < dims[d].min()) dims[d].set_bounds(x.min(), x.max());
    if (dims[d].fold_factor() != dim::unfolded) {
      dims[d].set_fold_factor(std::max<index_t>(dims[d].fold_factor(), dims[d].max() - dims[d].min() + 1));
    }
  }
}

void make_dense(std::vector<dim>& dims, index_t elem_size) {
  index_t s = elem_size;
  for (dim& d : dims) {
    d.set_stride(s);
    s *= std::max<index_t>(d.fold_factor() != dim::unfolded ? d.fold_factor() : d.max() - d.min() + 1, 1);
  }
}

void gen_source_strides(gen& g, owned& b) {
  options o;
  switch (g.weighted({3, 3, 1})) {
  case 0:
    make_dense(b.dims, b.buf.elem_size);
    for (dim& d : b.dims) {
      if (g.chance(1, 8)) d.set_stride(0);
    }
    break;
  case 1: gen_strides(g, b.dims, b.buf.elem_size, o); break;
  case 2:
    // Overlapping views.
    gen_strides(g, b.dims, b.buf.elem_size, o);
    if (!b.dims.empty()) {
      dim& d = b.dims[g.below(b.dims.size())];
      if (d.stride() != 0) d.set_stride(b.buf.elem_size * g.range(-2, 2));
    }
    break;
  }
}

void make_repetitive(gen& g, owned& b) {
  if (g.chance(1, 2)) return;
  if (g.chance(1, 2)) {
    // All bytes equal, which is a fast path when filling.
    memset(b.mem.get(), static_cast<int>(g.range(0, 255)), b.size);
    return;
  }
  // All bytes equal but some, or some period.
  if (g.chance(1, 2)) {
    memset(b.mem.get(), static_cast<int>(g.range(0, 255)), b.size);
    if (b.size > 0) b.mem.get()[g.below(b.size)] ^= 1 + g.below(255);
  } else {
    const std::size_t period = 1 + g.below(8);
    for (std::size_t i = period; i < b.size; ++i) b.mem.get()[i] = b.mem.get()[i - period];
  }
}

void gen_pad(gen& g, const owned& dst, owned& p) {
  options o;
  p.buf.elem_size = dst.buf.elem_size;
  p.dims.clear();
  switch (g.weighted({4, 2, 4})) {
  case 0: break;
  case 1:
    for (std::size_t d = 0; d < dst.dims.size(); ++d) p.dims.push_back(dim::broadcast());
    break;
  case 2: {
    o.allow_aliasing = true;
    gen_related_dims(g, dst.dims, p.dims, o);
    cover(p.dims, dst);
    gen_source_strides(g, p);
    break;
  }
  }
  p.allocate(g, 77);
  make_repetitive(g, p);
}

void describe(gen& g, const owned& src, const owned& dst, const owned* pad) {
  if (!g.describing()) return;
  g.note() << "src=";
  put(g.note(), src.buf);
  g.note() << " dst=";
  put(g.note(), dst.buf);
  if (pad) {
    g.note() << " pad=";
    put(g.note(), pad->buf);
  }
  g.note() << "\n";
}

void features(gen& g, const owned& dst, const owned& src, index_t n) {
  bool fold = false, neg = false;
  for (const dim& d : dst.dims) fold |= d.fold_factor() != dim::unfolded, neg |= d.stride() < 0;
  bool zero = false;
  for (const dim& d : src.dims) fold |= d.fold_factor() != dim::unfolded, neg |= d.stride() < 0, zero |= d.stride() == 0;
  g.classify(fold, "folded");
  g.classify(neg, "negative strides");
  g.classify(zero, "zero source strides");
  g.classify(n == 0, "empty destination");
  g.count("elements", n);
}

void copy_unpadded(gen& g) {
  owned dst, src;
  gen_dst(g, dst);
  dst.allocate(g, 1);
  options o;
  o.allow_aliasing = true;
  src.buf.elem_size = dst.buf.elem_size;
  gen_related_dims(g, dst.dims, src.dims, o);
  cover(src.dims, dst);
  gen_source_strides(g, src);
  src.allocate(g, 2);
  make_repetitive(g, src);
  describe(g, src, dst, nullptr);

  std::vector<char> src_before = contents(src), expected = contents(dst);
  index_t n = 0;
  for_all(dst.dims.data(), dst.dims.size(), [&](const coords& c) {
    memcpy(&expected[model_address(dst.buf, c) - dst.mem.get()], model_address(src.buf, c), dst.buf.elem_size);
    ++n;
  });
  slinky::copy(src.buf, dst.buf);
  check_memory(g, dst, expected, "destination");
  check_memory(g, src, src_before, "source");
  features(g, dst, src, n);
  if (n > 1) g.nontrivial();
}

void copy_padded(gen& g) {
  owned dst, src, pad;
  gen_dst(g, dst);
  dst.allocate(g, 1);
  options o;
  o.allow_aliasing = true;
  src.buf.elem_size = dst.buf.elem_size;
  gen_related_dims(g, dst.dims, src.dims, o);
  gen_source_strides(g, src);
  for (dim& d : src.dims) {
    // A dimension of stride 0 has no bounds, it is only padded if it is not a broadcast.
    if (d.stride() == 0) d = dim::broadcast();
  }
  src.allocate(g, 2);
  make_repetitive(g, src);
  gen_pad(g, dst, pad);
  describe(g, src, dst, &pad);

  std::vector<char> src_before = contents(src), expected = contents(dst), pad_before = contents(pad);
  index_t n = 0, padded = 0;
  for_all(dst.dims.data(), dst.dims.size(), [&](const coords& c) {
    bool in = in_src(src.dims.data(), src.dims.size(), c);
    memcpy(&expected[model_address(dst.buf, c) - dst.mem.get()], model_address(in ? src.buf : pad.buf, c),
        dst.buf.elem_size);
    ++n;
    padded += !in;
  });
  slinky::copy(src.buf, dst.buf, pad.buf);
  check_memory(g, dst, expected, "destination");
  check_memory(g, src, src_before, "source");
  check_memory(g, pad, pad_before, "padding");
  features(g, dst, src, n);
  g.classify(padded == 0, "no padding needed");
  g.classify(padded == n, "all padding");
  if (padded > 0 && padded < n) g.nontrivial();
}

// The source is a crop of the destination itself.
void copy_in_place(gen& g) {
  owned dst, pad;
  gen_dst(g, dst);
  dst.allocate(g, 1);
  raw_buffer src = dst.buf;
  std::vector<dim> src_dims = dst.dims;
  src.dims = src_dims.data();
  for (std::size_t d = 0; d < dst.dims.size(); ++d) {
    if (g.chance(1, 2)) continue;
    index_t a = dst.dims[d].min(), b = dst.dims[d].max();
    if (a > b) continue;
    a = g.range(a, b);
    b = g.range(a, b);
    if (src.base && dst.dims[d].fold_factor() == dim::unfolded) {
      src.base = static_cast<char*>(src.base) + (a - dst.dims[d].min()) * dst.dims[d].stride();
    }
    src_dims[d].set_bounds(a, b);
  }
  gen_pad(g, dst, pad);
  if (g.describing()) {
    g.note() << "in place, src=";
    put(g.note(), src);
    g.note() << " dst=";
    put(g.note(), dst.buf);
    g.note() << " pad=";
    put(g.note(), pad.buf);
    g.note() << "\n";
  }
  std::vector<char> expected = contents(dst), pad_before = contents(pad);
  index_t n = 0, padded = 0;
  for_all(dst.dims.data(), dst.dims.size(), [&](const coords& c) {
    ++n;
    if (in_src(src_dims.data(), src_dims.size(), c)) return;
    memcpy(&expected[model_address(dst.buf, c) - dst.mem.get()], model_address(pad.buf, c), dst.buf.elem_size);
    ++padded;
  });
  if (n == 0) return g.discard();
  slinky::copy(src, dst.buf, pad.buf);
  check_memory(g, dst, expected, "destination");
  check_memory(g, pad, pad_before, "padding");
  g.count("elements", n);
  if (padded > 0 && padded < n) g.nontrivial();
}

void pad_only(gen& g) {
  owned dst, pad;
  gen_dst(g, dst);
  dst.allocate(g, 1);
  gen_pad(g, dst, pad);
  options o;
  std::vector<dim> bounds;
  gen_related_dims(g, dst.dims, bounds, o);
  bounds.resize(dst.dims.size(), dim::broadcast());
  gen_strides(g, bounds, dst.buf.elem_size, o);
  for (dim& d : bounds) {
    if (d.stride() == 0) d = dim::broadcast();
  }
  if (g.describing()) {
    g.note() << "pad bounds={";
    for (const dim& d : bounds) {
      g.note() << " ";
      put(g.note(), d);
    }
    g.note() << "} dst=";
    put(g.note(), dst.buf);
    g.note() << " pad=";
    put(g.note(), pad.buf);
    g.note() << "\n";
  }
  std::vector<char> expected = contents(dst), pad_before = contents(pad);
  index_t n = 0, padded = 0;
  for_all(dst.dims.data(), dst.dims.size(), [&](const coords& c) {
    ++n;
    if (in_src(bounds.data(), bounds.size(), c)) return;
    memcpy(&expected[model_address(dst.buf, c) - dst.mem.get()], model_address(pad.buf, c), dst.buf.elem_size);
    ++padded;
  });
  slinky::pad(bounds.data(), dst.buf, pad.buf);
  check_memory(g, dst, expected, "destination");
  check_memory(g, pad, pad_before, "padding");
  g.count("elements", n);
  if (padded > 0 && padded < n) g.nontrivial();
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C09";
  c.rule = "copy: more than one element is copied; padded: some but not all elements come from the padding";
  c.assumptions = {"destination elements do not overlap", "source and padding do not overlap the destination, except "
      "for in-place padding where the source is a crop of the destination",
      "the padding is in bounds wherever it is needed",
      "source dimensions of stride 0 in padded copies are broadcasts"};
  c.targets = {{"copy", copy_unpadded, 2000000, 60000000}, {"copy_padded", copy_padded, 3000000, 60000000},
      {"copy_in_place", copy_in_place, 800000, 30000000}, {"pad", pad_only, 1000000, 30000000}};
  return pbt::run(argc, argv, c);
}
