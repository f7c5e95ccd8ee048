// C10: element and slice iteration visit each coordinate once, with the right addresses.
#include "bufgen.h"

using namespace bufgen;
using pbt::gen;
using slinky::span;

namespace {

typedef std::vector<const char*> tuple;

std::string show(const tuple& t, const std::vector<const raw_buffer*>& bufs) {
  std::ostringstream ss;
  for (std::size_t n = 0; n < t.size(); ++n) {
    if (n) ss << ", ";
    if (t[n]) ss << "base" << (t[n] - static_cast<char*>(bufs[n]->base) >= 0 ? "+" : "")
                 << t[n] - static_cast<char*>(bufs[n]->base);
    else ss << "null";
  }
  return ss.str();
}

template <typename F>
void call_elements(const std::vector<const raw_buffer*>& b, const F& f) {
  typedef const void* p;
  auto c = [](const void* x) { return static_cast<const char*>(x); };
  switch (b.size()) {
  case 1: slinky::for_each_element([&](p x) { f({c(x)}); }, *b[0]); break;
  case 2: slinky::for_each_element([&](p x, p y) { f({c(x), c(y)}); }, *b[0], *b[1]); break;
  case 3: slinky::for_each_element([&](p x, p y, p z) { f({c(x), c(y), c(z)}); }, *b[0], *b[1], *b[2]); break;
  case 4:
    slinky::for_each_element([&](p x, p y, p z, p w) { f({c(x), c(y), c(z), c(w)}); }, *b[0], *b[1], *b[2], *b[3]);
    break;
  case 5:
    slinky::for_each_element([&](p x, p y, p z, p w, p v) { f({c(x), c(y), c(z), c(w), c(v)}); }, *b[0], *b[1], *b[2],
        *b[3], *b[4]);
    break;
  default:
    slinky::for_each_element([&](p x, p y, p z, p w, p v, p u) { f({c(x), c(y), c(z), c(w), c(v), c(u)}); }, *b[0],
        *b[1], *b[2], *b[3], *b[4], *b[5]);
    break;
  }
}

template <typename F>
void call_slices(const std::vector<const raw_buffer*>& b, const F& f) {
  typedef const void* p;
  auto c = [](const void* x) { return static_cast<const char*>(x); };
  switch (b.size()) {
  case 1: slinky::for_each_contiguous_slice(*b[0], [&](index_t n, p x) { f(n, {c(x)}); }); break;
  case 2: slinky::for_each_contiguous_slice(*b[0], [&](index_t n, p x, p y) { f(n, {c(x), c(y)}); }, *b[1]); break;
  case 3:
    slinky::for_each_contiguous_slice(
        *b[0], [&](index_t n, p x, p y, p z) { f(n, {c(x), c(y), c(z)}); }, *b[1], *b[2]);
    break;
  case 4:
    slinky::for_each_contiguous_slice(
        *b[0], [&](index_t n, p x, p y, p z, p w) { f(n, {c(x), c(y), c(z), c(w)}); }, *b[1], *b[2], *b[3]);
    break;
  case 5:
    slinky::for_each_contiguous_slice(
        *b[0], [&](index_t n, p x, p y, p z, p w, p v) { f(n, {c(x), c(y), c(z), c(w), c(v)}); }, *b[1], *b[2], *b[3],
        *b[4]);
    break;
  default:
    slinky::for_each_contiguous_slice(
        *b[0], [&](index_t n, p x, p y, p z, p w, p v, p u) { f(n, {c(x), c(y), c(z), c(w), c(v), c(u)}); }, *b[1],
        *b[2], *b[3], *b[4], *b[5]);
    break;
  }
}

void iterate(gen& g, bool slices) {
  static const int counts[] = {1, 2, 2, 2, 3, 3, 4, 5, 6};
  int n = counts[g.below(9)];
  options o;
  o.allow_aliasing = true;
  o.max_elems = 400;
  if (g.chance(1, 10)) o.max_rank = 6;
  std::vector<owned> bufs(n);
  std::vector<const raw_buffer*> ptrs(n);
  const bool same_strides = g.chance(1, 2);
  for (int i = 0; i < n; ++i) {
    owned& b = bufs[i];
    if (i > 0 && g.chance(1, 12)) {
      // The same buffer object again.
      ptrs[i] = ptrs[g.below(i)];
      continue;
    }
    b.buf.elem_size = i > 0 && g.chance(2, 3) ? bufs[0].buf.elem_size : gen_elem_size(g);
    if (i == 0) {
      gen_dims(g, b.dims, o);
    } else {
      gen_related_dims(g, bufs[0].dims, b.dims, o);
    }
    if (same_strides) {
      index_t s = b.buf.elem_size;
      for (dim& d : b.dims) {
        if (d.stride() != dim::auto_stride) continue;
        if (i > 0 && g.chance(1, 8)) {
          d.set_stride(0);
          continue;
        }
        d.set_stride(s);
        // The stride of the next dimension that makes this one fusable may be smaller than the storage of a fold.
        s *= std::max<index_t>(d.max() - d.min() + 1, 1);
      }
    } else {
      gen_strides(g, b.dims, b.buf.elem_size, o);
      if (!b.dims.empty() && g.chance(1, 12)) {
        // An overlapping (e.g. stencil) view.
        b.dims[g.below(b.dims.size())].set_stride(b.buf.elem_size * g.range(-2, 2));
      }
    }
    b.sync();
    // Only addresses are computed: no memory is needed. Bases are far apart.
    b.buf.base = reinterpret_cast<void*>((i + 1) * static_cast<uintptr_t>(1) << 40);
    if (g.chance(1, 14)) b.buf.base = nullptr;
    ptrs[i] = &b.buf;
  }
  if (g.describing()) {
    g.note() << (slices ? "for_each_contiguous_slice" : "for_each_element") << "(";
    for (int i = 0; i < n; ++i) {
      g.note() << (i ? ", " : "") << "buf";
      int same = i;
      for (int j = 0; j < i; ++j) if (ptrs[j] == ptrs[i]) { same = j; break; }
      g.note() << same;
      if (same == i) {
        g.note() << "=";
        put(g.note(), *ptrs[i]);
      }
    }
    g.note() << ")\n";
  }

  // What should be visited. Buffers of higher rank than the first are accessed at 0 in the extra dimensions.
  std::map<tuple, int> expected;
  index_t expected_count = 0;
  bool any_null = false, any_fold = false;
  for_all(ptrs[0]->dims, ptrs[0]->rank, [&](const coords& c) {
    tuple t(n);
    for (int i = 0; i < n; ++i) {
      t[i] = model_address(*ptrs[i], c);
      if (!t[i] && ptrs[i]->base) any_null = true;
    }
    ++expected[t];
    ++expected_count;
  });
  std::size_t max_rank = 0;
  for (int i = 0; i < n; ++i) {
    max_rank = std::max(max_rank, ptrs[i]->rank);
    for (std::size_t d = 0; d < ptrs[i]->rank; ++d) any_fold |= ptrs[i]->dims[d].is_folded();
  }

  index_t visited = 0;
  int calls = 0;
  auto visit = [&](const tuple& t) {
    auto it = expected.find(t);
    if (it == expected.end()) g.fail("visited addresses (" + show(t, ptrs) + ") that no coordinate has");
    if (it->second == 0) g.fail("visited addresses (" + show(t, ptrs) + ") too many times");
    --it->second;
    ++visited;
  };
  if (slices) {
    call_slices(ptrs, [&](index_t extent, const tuple& t) {
      ++calls;
      if (extent <= 0) g.fail("a slice of extent " + std::to_string(extent));
      if (extent > expected_count - visited) g.fail("slices have more elements than the buffer");
      tuple e = t;
      for (index_t i = 0; i < extent; ++i) {
        visit(e);
        for (int k = 0; k < n; ++k) {
          if (e[k]) e[k] += ptrs[k]->elem_size;
        }
      }
    });
  } else {
    call_elements(ptrs, [&](const tuple& t) {
      ++calls;
      visit(t);
    });
  }
  if (visited != expected_count) {
    g.fail("visited " + std::to_string(visited) + " of " + std::to_string(expected_count) + " elements");
  }
  g.count("elements", visited);
  g.count("callback calls", calls);
  g.classify(expected_count == 0, "empty");
  g.classify(any_null, "partially out of bounds");
  g.classify(any_fold, "crosses a fold");
  g.classify(max_rank > ptrs[0]->rank, "other buffer has higher rank");
  g.classify(slices && calls > 0 && calls < visited, "multi-element slices");
  g.classify(n > 4, "more than 4 buffers");
  if (expected_count > 1) g.nontrivial();
}

void elements(gen& g) { iterate(g, false); }
void slices(gen& g) { iterate(g, true); }

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C10";
  c.rule = "the first buffer has more than one element, so visiting order, fusing and planning matter";
  c.assumptions = {"buffers of rank above the first buffer's are accessed at coordinate 0 of the extra dimensions",
      "auto_stride has been replaced before iterating"};
  c.targets = {{"elements", elements, 600000, 12000000}, {"slices", slices, 600000, 12000000}};
  return pbt::run(argc, argv, c);
}
