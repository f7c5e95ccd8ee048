// C13: views keep addressing the same elements, and owned memory is freed exactly once.
#include "bufgen.h"

#include <sanitizer/allocator_interface.h>

using namespace bufgen;
using pbt::gen;
using slinky::buffer;
using slinky::span;

namespace {

constexpr std::size_t N = 6;

// The model of a view: every dimension of the view is a dimension of the original buffer, renamed by an offset.
struct view {
  struct vdim {
    int orig;       // Dimension of the original, or -1 for a broadcast that was added.
    index_t shift;  // coordinate in the view = coordinate in the original + shift
    index_t min, max;
  };
  std::vector<vdim> dims;
  coords fixed;  // Coordinates of the sliced dimensions of the original.
  bool null = false;
};

char* model_at(const owned& o, const view& v, const coords& c) {
  if (v.null || !o.buf.base) return nullptr;
  coords x = v.fixed;
  for (std::size_t d = 0; d < v.dims.size(); ++d) {
    if (v.dims[d].orig >= 0) x[v.dims[d].orig] = c[d] - v.dims[d].shift;
  }
  index_t offset = 0;
  for (std::size_t d = 0; d < o.dims.size(); ++d) offset += model_offset(o.dims[d], x[d]);
  return static_cast<char*>(o.buf.base) + offset;
}

bool view_contains(const owned& o, const view& v, std::size_t d, index_t i) {
  const view::vdim& x = v.dims[d];
  if (x.orig < 0 || o.dims[x.orig].stride() == 0) return true;
  return x.min <= i && i <= x.max;
}

void check(gen& g, const owned& o, const view& v, const raw_buffer& b) {
  PBT_CHECK(g, b.rank == v.dims.size(), "rank is " << b.rank << ", should be " << v.dims.size());
  PBT_CHECK(g, b.elem_size == o.buf.elem_size, "elem_size changed");
  bool empty = false;
  for (std::size_t d = 0; d < b.rank; ++d) {
    const view::vdim& x = v.dims[d];
    PBT_CHECK(g, b.dims[d].min() == x.min && b.dims[d].max() == x.max, "bounds of dimension " << d << " are ["
        << b.dims[d].min() << "," << b.dims[d].max() << "], should be [" << x.min << "," << x.max << "]");
    if (x.orig >= 0) {
      PBT_CHECK(g, b.dims[d].stride() == o.dims[x.orig].stride(), "stride of dimension " << d << " changed");
      PBT_CHECK(g, b.dims[d].fold_factor() == o.dims[x.orig].fold_factor(), "fold of dimension " << d << " changed");
    }
    PBT_CHECK(g, b.dims[d].extent() == std::max<index_t>(0, x.max - x.min + 1), "extent of dimension " << d);
    PBT_CHECK(g, b.dims[d].empty() == (x.max < x.min), "empty() of dimension " << d);
    empty |= x.max < x.min;
  }
  // The model does not define the base of a buffer with no elements.
  if (!empty) PBT_CHECK(g, (b.base == nullptr) == (v.null || !o.buf.base), "base is " << (b.base ? "not " : "") << "null");
  for_all(b.dims, b.rank, [&](const coords& c) {
    char* expected = model_at(o, v, c);
    span<const index_t> s(c.data(), c.size());
    PBT_CHECK(g, b.contains(s), "does not contain a coordinate in bounds");
    void* at = b.address_at(s);
    if (at != expected) {
      std::ostringstream ss;
      ss << "address of (";
      for (index_t i : c) ss << " " << i;
      ss << " ) is ";
      if (at) ss << "offset " << static_cast<char*>(at) - o.mem.get();
      else ss << "null";
      ss << ", should be ";
      if (expected) ss << "offset " << expected - o.mem.get();
      else ss << "null";
      g.fail(ss.str());
    }
    void* v2 = b.rank == 0   ? b.address_at()
               : b.rank == 1 ? b.address_at(c[0])
               : b.rank == 2 ? b.address_at(c[0], c[1])
               : b.rank == 3 ? b.address_at(c[0], c[1], c[2])
               : b.rank == 4 ? b.address_at(c[0], c[1], c[2], c[3])
                             : at;
    PBT_CHECK(g, v2 == at, "address_at(indices...) and address_at(span) disagree");
    g.count("addresses");
  });
  // Coordinates in and around the bounds.
  for (int k = 0; k < 4; ++k) {
    coords c(b.rank);
    bool in = true;
    for (std::size_t d = 0; d < b.rank; ++d) {
      c[d] = g.range(v.dims[d].min - 2, std::max(v.dims[d].min, v.dims[d].max) + 2);
      in = in && view_contains(o, v, d, c[d]);
    }
    PBT_CHECK(g, b.contains(span<const index_t>(c.data(), c.size())) == in, "contains() is wrong");
    bool v2 = b.rank == 1   ? b.contains(c[0])
              : b.rank == 2 ? b.contains(c[0], c[1])
              : b.rank == 3 ? b.contains(c[0], c[1], c[2])
              : b.rank == 4 ? b.contains(c[0], c[1], c[2], c[3])
                            : in;
    PBT_CHECK(g, v2 == in, "contains(indices...) is wrong");
    // Extra indices are in implicit broadcasts.
    if (b.rank == 1) PBT_CHECK(g, b.contains(c[0], static_cast<index_t>(7)) == in, "contains with an extra index");
  }
}

void views(gen& g) {
  owned o;
  options opt;
  opt.max_elems = 200;
  opt.allow_aliasing = true;
  if (g.chance(1, 8)) opt.max_rank = 5;
  o.buf.elem_size = gen_elem_size(g);
  gen_dims(g, o.dims, opt);
  gen_strides(g, o.dims, o.buf.elem_size, opt);
  o.allocate(g, 3);
  if (g.describing()) {
    put(g.note(), o.buf);
    g.note() << "\n";
  }
  view v;
  v.fixed.resize(o.dims.size());
  for (std::size_t d = 0; d < o.dims.size(); ++d) {
    v.dims.push_back({static_cast<int>(d), 0, o.dims[d].min(), o.dims[d].max()});
  }
  buffer<void, N> b(o.buf);
  // The base of a buffer that is empty is not defined by the model.
  struct removed {
    view::vdim d;
    index_t at;
    int pos;
  };
  std::vector<removed> sliced;
  int ops = static_cast<int>(g.range(1, 6));
  int effective = 0;
  check(g, o, v, b);
  for (int i = 0; i < ops; ++i) {
    int rank = static_cast<int>(v.dims.size());
    int op = g.weighted({5, 5, 2, 2, 3, 3, 2});
    std::ostringstream what;
    switch (op) {
    case 0: {  // crop
      int d = static_cast<int>(g.range(0, rank));
      index_t lo = 0, hi = 0;
      if (d < rank) {
        lo = g.range(v.dims[d].min - 3, v.dims[d].max + 3);
        hi = g.range(v.dims[d].min - 3, v.dims[d].max + 3);
        if (lo > hi && !g.chance(1, 4)) std::swap(lo, hi);
      }
      what << "crop(" << d << ", " << lo << ", " << hi << ")";
      b.crop(d, lo, hi);
      if (d < rank) {
        v.dims[d].min = std::max(v.dims[d].min, lo);
        v.dims[d].max = std::min(v.dims[d].max, hi);
        if (v.dims[d].max < v.dims[d].min) v.null = true;
        ++effective;
      }
      break;
    }
    case 1: {  // slice(d, at)
      int d = static_cast<int>(g.range(0, rank));
      index_t at = d < rank ? g.range(v.dims[d].min - (g.chance(1, 4) ? 2 : 0), v.dims[d].max + (g.chance(1, 4) ? 2 : 0))
                            : g.range(-2, 2);
      const bool in = d < rank && view_contains(o, v, d, at);
      // A view of something empty does not have to say where it is.
      what << "slice(" << d << ", " << at << ")";
      if (in && b.base() && g.chance(1, 3)) {
        what << " in_bounds";
        b.slice(d, slinky::in_bounds{at});
      } else {
        b.slice(d, at);
      }
      if (d < rank) {
        sliced.push_back({v.dims[d], at, d});
        if (!in) v.null = true;
        if (v.dims[d].orig >= 0) v.fixed[v.dims[d].orig] = at - v.dims[d].shift;
        v.dims.erase(v.dims.begin() + d);
        ++effective;
      }
      break;
    }
    case 2: {  // slice at the min of an unfolded dimension
      if (rank == 0) continue;
      int d = static_cast<int>(g.below(rank));
      const view::vdim x = v.dims[d];
      if (x.orig >= 0 && o.dims[x.orig].stride() != 0 && o.dims[x.orig].fold_factor() != dim::unfolded) continue;
      if (x.max < x.min) continue;
      what << "slice(" << d << ")";
      b.slice(d);
      sliced.push_back({x, x.min, d});
      if (x.orig >= 0) v.fixed[x.orig] = x.min - x.shift;
      v.dims.erase(v.dims.begin() + d);
      ++effective;
      break;
    }
    case 3: {  // slice several unfolded dimensions at their mins
      std::vector<std::size_t> ds;
      bool ok = true;
      for (int d = 0; d < rank; ++d) {
        const view::vdim x = v.dims[d];
        if (x.max < x.min) ok = false;
        if (x.orig >= 0 && o.dims[x.orig].stride() != 0 && o.dims[x.orig].fold_factor() != dim::unfolded) continue;
        if (g.chance(1, 2)) ds.push_back(d);
      }
      if (!ok || ds.empty()) continue;
      what << "slice({";
      for (std::size_t d : ds) what << " " << d;
      what << " })";
      b.slice(span<const std::size_t>(ds.data(), ds.size()));
      for (std::size_t k = ds.size(); k-- > 0;) {
        const view::vdim x = v.dims[ds[k]];
        if (x.orig >= 0) v.fixed[x.orig] = x.min - x.shift;
        v.dims.erase(v.dims.begin() + ds[k]);
      }
      sliced.clear();
      ++effective;
      break;
    }
    case 4: {  // translate
      if (rank == 0) continue;
      std::vector<index_t> t(g.range(1, rank));
      what << "translate(";
      for (std::size_t d = 0; d < t.size(); ++d) {
        t[d] = g.range(-5, 5);
        int k = v.dims[d].orig;
        // Translating a folded dimension is only possible by multiples of the fold.
        if (k >= 0 && o.dims[k].fold_factor() != dim::unfolded) t[d] *= o.dims[k].fold_factor();
        what << " " << t[d];
        v.dims[d].shift += t[d];
        v.dims[d].min += t[d];
        v.dims[d].max += t[d];
      }
      what << " )";
      if (t.size() == 1) b.translate(t[0]);
      else if (t.size() == 2) b.translate(t[0], t[1]);
      else b.translate(span<const index_t>(t.data(), t.size()));
      ++effective;
      break;
    }
    case 5: {  // undo the last slice
      if (sliced.empty() || rank + 1 > static_cast<int>(N)) continue;
      removed r = sliced.back();
      sliced.pop_back();
      int d = r.pos;
      what << "unslice(" << d << ")";
      // Put the dimension back such that the base is its min (or the base of its folds).
      const dim* od = r.d.orig >= 0 ? &o.dims[r.d.orig] : nullptr;
      bool fold = od && od->stride() != 0 && od->fold_factor() != dim::unfolded;
      if (fold) {
        sliced.clear();
        continue;
      }
      dim x(r.at, std::max(r.d.max, r.at), od ? od->stride() : 0, od ? od->fold_factor() : dim::unfolded);
      b.unslice(d, x);
      view::vdim y = r.d;
      y.min = x.min();
      y.max = x.max();
      v.dims.insert(v.dims.begin() + d, y);
      ++effective;
      break;
    }
    default: {  // continue with a copy of the buffer object
      what << "copy";
      buffer<void, N> c(b);
      check(g, o, v, c);
      buffer<void, N> m(std::move(c));
      b = m;
      break;
    }
    }
    if (g.describing()) g.note() << what.str() << "\n";
    check(g, o, v, b);
  }
  g.count("operations", ops);
  if (effective >= 2) g.nontrivial();
}

// Ownership.
int64_t live = 0;
bool counting = false;
void on_malloc(const volatile void*, std::size_t) {
  if (counting) ++live;
}
void on_free(const volatile void* p) {
  if (counting && p) --live;
}

typedef buffer<int32_t, 3> buf3;
typedef buffer<int32_t, 4> buf4;

struct slot {
  bool owns = false;
  int data = -1;  // Which allocation this points to, or -1.
  std::vector<dim> dims;
};

void ownership(gen& g) {
  static bool installed = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free);
  (void)installed;
  live = 0;
  int next = 0;
  std::map<int, int32_t*> alive;
  slot m[5];
  {
    buf4 b[3];
    buf3 c[2];
    for (buf4& i : b) i = buf4(static_cast<std::size_t>(0));
    for (buf3& i : c) i = buf3(static_cast<std::size_t>(0));
    auto with = [&](int i, auto&& fn) {
      if (i < 3) fn(b[i]);
      else fn(c[i - 3]);
    };
    auto drop = [&](int i) {
      if (m[i].owns) alive.erase(m[i].data);
      m[i].owns = false;
    };
    int ops = static_cast<int>(g.range(1, 14));
    int transfers = 0;
    for (int k = 0; k < ops; ++k) {
      int i = static_cast<int>(g.below(5)), j = static_cast<int>(g.below(5));
      int op = g.weighted({4, 3, 4, 2, 2, 2});
      if (g.describing()) {
        static const char* names[] = {"allocate", "copy assign", "move assign", "free", "move construct", "raw assign"};
        g.note() << names[op] << " " << i << " " << j << "\n";
      }
      counting = true;
      switch (op) {
      case 0: {  // i = a new allocation
        counting = false;
        drop(i);
        m[i].dims.clear();
        options o;
        o.max_rank = 3;
        o.max_elems = 20;
        o.allow_empty = false;
        o.allow_folds = false;
        gen_dims(g, m[i].dims, o);
        index_t s = 4;
        for (dim& d : m[i].dims) {
          d.set_stride(s);
          s *= d.extent();
        }
        counting = true;
        with(i, [&](auto& x) {
          x = std::decay_t<decltype(x)>(m[i].dims.size());
          for (std::size_t d = 0; d < m[i].dims.size(); ++d) x.mutable_dim(d) = m[i].dims[d];
          x.allocate();
        });
        counting = false;
        m[i].owns = true;
        m[i].data = next;
        with(i, [&](auto& x) { alive[next] = x.base(); });
        for (index_t e = 0; e < s / 4; ++e) alive[next][e] = next * 1000 + static_cast<int>(e);
        ++next;
        break;
      }
      case 1:  // i = j
        with(i, [&](auto& x) { with(j, [&](auto& y) { x = const_cast<const std::decay_t<decltype(y)>&>(y); }); });
        counting = false;
        if (i != j) {
          drop(i);
          m[i].data = m[j].data;
          m[i].dims = m[j].dims;
        }
        break;
      case 2:  // i = move(j)
        with(i, [&](auto& x) { with(j, [&](auto& y) { x = std::move(y); }); });
        counting = false;
        if (i != j) {
          drop(i);
          m[i] = m[j];
          m[j].owns = false;
          ++transfers;
        }
        break;
      case 3:
        with(i, [&](auto& x) { x.free(); });
        counting = false;
        drop(i);
        break;
      case 4: {  // Through a temporary of another size.
        with(i, [&](auto& x) {
          with(j, [&](auto& y) {
            buffer<int32_t, 5> t(std::move(y));
            x = std::move(t);
          });
        });
        counting = false;
        if (i != j) {
          drop(i);
          m[i] = m[j];
          m[j].owns = false;
        }
        ++transfers;
        break;
      }
      case 5: {
        with(i, [&](auto& x) { with(j, [&](auto& y) { x = static_cast<const raw_buffer&>(y); }); });
        counting = false;
        if (i != j) {
          drop(i);
          m[i].data = m[j].data;
          m[i].dims = m[j].dims;
        }
        break;
      }
      }
      counting = false;
      PBT_CHECK(g, live == static_cast<int64_t>(alive.size()),
          live << " allocations are live, should be " << alive.size());
      for (int s = 0; s < 5; ++s) {
        with(s, [&](auto& x) {
          if (m[s].data < 0) return;
          PBT_CHECK(g, x.rank == m[s].dims.size(), "rank of buffer " << s << " is wrong");
          for (std::size_t d = 0; d < m[s].dims.size(); ++d) {
            PBT_CHECK(g, x.dim(d) == m[s].dims[d], "dimension of buffer " << s << " is wrong");
          }
          auto it = alive.find(m[s].data);
          if (it == alive.end()) return;
          PBT_CHECK(g, x.base() == it->second, "buffer " << s << " points to the wrong memory");
          int e = 0;
          for_all(m[s].dims.data(), m[s].dims.size(), [&](const coords& cc) {
            PBT_CHECK(g, x(span<const index_t>(cc.data(), cc.size())) == m[s].data * 1000 + e, "wrong contents");
            ++e;
          });
        });
      }
    }
    g.count("operations", ops);
    if (transfers && next) g.nontrivial();
    counting = true;
  }
  counting = false;
  PBT_CHECK(g, live == 0, live << " allocations were leaked");
}

}  // namespace

int main(int argc, char** argv) {
  pbt::config c;
  c.property = "C13";
  c.rule = "views: at least two operations that change the view; ownership: at least one allocation and one move";
  c.assumptions = {"folded dimensions are translated by multiples of the fold factor",
      "slicing without a position is only defined for unfolded dimensions",
      "dimensions are put back (unsliced) at the position where they were sliced"};
  c.targets = {{"views", views, 1200000, 50000000}, {"ownership", ownership, 400000, 15000000}};
  return pbt::run(argc, argv, c);
}
