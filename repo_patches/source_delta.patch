From e0395c83418618a1e7eca0f6c7691a1fac6e106d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:25 +0000
Subject: [PATCH 01/76] fix: modulus_remainder intersection defaults to a sound
 result when the lcm overflows

---
 slinky/base/modulus_remainder.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/base/modulus_remainder.h b/slinky/base/modulus_remainder.h
index 797f608..f1e7da2 100644
--- a/slinky/base/modulus_remainder.h
+++ b/slinky/base/modulus_remainder.h
@@ -155,7 +155,10 @@ template <typename T>
 modulus_remainder<T> operator&(const modulus_remainder<T>& a, const modulus_remainder<T>& b) {
   if (a.modulus == 0) return a;
   if (b.modulus == 0) return b;
-  if (a.remainder == 0 && b.remainder == 0) return {lcm(a.modulus, b.modulus), 0};
+  if (a.remainder == 0 && b.remainder == 0) {
+    T m;
+    if (!mul_with_overflow(a.modulus / gcd(a.modulus, b.modulus), b.modulus, m)) return {m, 0};
+  }
   // We have x == ma * y + ra == mb * z + rb
 
   // We want to synthesize these two facts into one modulus
-- 
2.43.0


From f7f6deaad9b206e2b34b7cbb78c175a19f20aa3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:16 +0000
Subject: [PATCH 02/76] fix: can_fuse does not ignore the stride of an extent 1
 outer dimension when a fold is involved

---
 slinky/runtime/buffer.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index dd35b07..a17d693 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -763,7 +763,12 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0) return true;
+  if (outer.min() == outer.max() && outer.stride() != 0 && inner.fold_factor() == dim::unfolded &&
+      outer.fold_factor() == dim::unfolded) {
+    // The stride of the outer dimension is irrelevant. This isn't true if a dimension is folded: fusing moves the min,
+    // and the address in a folded dimension depends on the min.
+    return true;
+  }
 
   index_t next_stride = inner.stride() * (inner.max() - inner.min() + 1);
   if (next_stride != outer.stride()) return false;
-- 
2.43.0


From 4efb7b1d6a2e1025710920533bf53ebb28b5aa4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 03/76] fix: for_each_contiguous_slice does not use more than
 one overlapping dimension as the slice

---
 slinky/runtime/buffer.cc | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 872279d..53a6a1a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -805,6 +805,9 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
   for_each_loop<BufsSize>* outer_loop = loop;
 
   index_t slice_extent = 1;
+  // Only one dimension (possibly several fused dimensions) can be the slice. If more than one dimension has a stride
+  // equal to the element size, the dimensions overlap, and the product of their extents is not contiguous.
+  bool have_slice = false;
   index_t extent = 1;
   for (int d = rank - 1; d >= 0; --d) {
     const dim& buf_dim = buf.dim(d);
@@ -814,7 +817,8 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
     } else if (buf_dim.max() < buf_dim.min() || use_nonlinear_loop(bufs, d)) {
       // extent > 1 and there is a folded dimension in one of the buffers, or we need to crop one of the buffers, or the
       // loops are empty.
-      if (SkipContiguous && is_contiguous_slice(bufs, d)) {
+      if (SkipContiguous && !have_slice && is_contiguous_slice(bufs, d)) {
+        have_slice = true;
         loop->impl = for_each_impl_nonlinear<F, BufsSize, false, true>;
         inner_impl = for_each_impl_nonlinear<F, BufsSize, true, true>;
       } else {
@@ -869,8 +873,9 @@ SLINKY_NO_STACK_PROTECTOR SLINKY_INLINE void for_each_impl(span<const raw_buffer
 
     if (extent == 1 || (d > 0 && can_fuse(bufs, d))) {
       // Let this fuse with the next dimension.
-    } else if (SkipContiguous && is_contiguous_slice(bufs, d)) {
+    } else if (SkipContiguous && !have_slice && is_contiguous_slice(bufs, d)) {
       // This is the slice dimension.
+      have_slice = true;
       slice_extent *= extent;
       extent = 1;
     } else {
-- 
2.43.0


From 304788c00bc06b40c0b80453b528a5002054a2d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 04/76] fix: copying to a destination that is empty in any
 dimension does nothing

---
 slinky/runtime/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 53a6a1a..2fd0b6a 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -336,7 +336,7 @@ void copy_impl(raw_buffer& src, raw_buffer& dst) {
   const slinky::dim& dst_dim0 = dst.dim(0);
   const slinky::dim& src_dim0 = src.dim(0);
 
-  if (dst_dim0.empty()) {
+  if (dst.elem_count() == 0) {
     // Empty destination, nothing to do.
   } else if (dst_dim0.fold_factor() > 0 || src_dim0.fold_factor() > 0 || dst_dim0.stride() != elem_size ||
              (src_dim0.stride() != 0 && src_dim0.stride() != elem_size)) {
-- 
2.43.0


From 782bc882724c9e2b49b1ccb3f9415c5c066670a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 05/76] fix: pad does not ignore bounds of [0, 0] that are not
 a broadcast

---
 slinky/runtime/buffer.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 2fd0b6a..d9820af 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -469,7 +469,10 @@ void pad(const dim* in_bounds, const raw_buffer& dst, const raw_buffer& pad) {
 
   raw_buffer src = {nullptr, dst.elem_size, dst.rank, SLINKY_ALLOCA(dim, dst.rank)};
   for (std::size_t d = 0; d < dst.rank; ++d) {
-    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), 0, in_bounds[d].fold_factor()};
+    // The stride here only needs to allow optimizing the dimensions with dst, but it must not make the dimension look
+    // like a broadcast if it isn't one, because those are not padded.
+    const index_t stride = in_bounds[d].is_broadcast() ? 0 : dst.dims[d].stride();
+    src.dims[d] = {in_bounds[d].min(), in_bounds[d].max(), stride, dst.dims[d].fold_factor()};
   }
 
   raw_buffer pad_opt = pad;
-- 
2.43.0


From 8c5412895550fd68d3fd32857792e368c53520d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 06/76] fix: a padded copy from a source out of bounds in a
 dimension the destination does not have is all padding

---
 slinky/runtime/buffer.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index d9820af..6df17b3 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -388,8 +388,15 @@ void copy_impl(raw_buffer& src, raw_buffer& dst) {
 // is where this is slow (because we can only copy one or a few elements at a time).
 
 // This function copies `pad` to `dst` where `dst` is out of bounds of `src` in dimension `d`, and then crops `dst` such
-// that only the unpadded area remains in dimension `d`.
-void pad_impl(raw_buffer& src, raw_buffer& dst, raw_buffer& pad) {
+// that only the unpadded area remains in dimension `d`. Returns false if there is no unpadded area because `dst` is out
+// of bounds of `src` in a dimension that `dst` does not have.
+bool pad_impl(raw_buffer& src, raw_buffer& dst, raw_buffer& pad) {
+  for (std::size_t d = dst.rank; d < src.rank; ++d) {
+    if (!src.dims[d].contains(dst.dim(d))) {
+      copy_impl(pad, dst);
+      return false;
+    }
+  }
   for (int d = static_cast<int>(std::min(src.rank, dst.rank)) - 1; d >= 0; --d) {
     const slinky::dim& src_d = src.dims[d];
     if (src_d.is_broadcast()) {
@@ -417,6 +424,7 @@ void pad_impl(raw_buffer& src, raw_buffer& dst, raw_buffer& pad) {
     // If the src was bigger, crop it, so the bounds should match.
     src.crop(d, dst_d.min(), dst_d.max());
   }
+  return true;
 }
 
 }  // namespace
@@ -445,9 +453,8 @@ SLINKY_NO_STACK_PROTECTOR void copy(const raw_buffer& src, const raw_buffer& dst
     optimize_dims(dst_opt, src_opt, pad_opt);
 
     // Implement the padding in all but the first dimension.
-    pad_impl(src_opt, dst_opt, pad_opt);
-    if (src_opt.base == dst_opt.base) {
-      // This is an in-place padded copy, we're done.
+    if (!pad_impl(src_opt, dst_opt, pad_opt) || src_opt.base == dst_opt.base) {
+      // This is an in-place padded copy, or there is nothing left to copy, we're done.
       return;
     }
   } else {
-- 
2.43.0


From 9aff878486316920a829a490aa3774fb020df348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 07/76] fix: can_fuse does not discard the bounds of an outer
 dimension by fusing it into a dimension of stride 0

---
 slinky/runtime/buffer.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index a17d693..1b76d4a 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -763,10 +763,12 @@ bool validate_buffer(const raw_buffer& buf);
 // Returns true if the two dimensions can be fused.
 inline bool can_fuse(const dim& inner, const dim& outer) {
   if (inner.empty()) return false;
-  if (outer.min() == outer.max() && outer.stride() != 0 && inner.fold_factor() == dim::unfolded &&
-      outer.fold_factor() == dim::unfolded) {
-    // The stride of the outer dimension is irrelevant. This isn't true if a dimension is folded: fusing moves the min,
-    // and the address in a folded dimension depends on the min.
+  if (outer.min() == outer.max() && outer.stride() != 0 && inner.stride() != 0 &&
+      inner.fold_factor() == dim::unfolded && outer.fold_factor() == dim::unfolded) {
+    // The stride of the outer dimension is irrelevant, with two exceptions:
+    // - If the inner stride is 0, the bounds of the outer dimension would be lost, because a dimension with stride 0
+    //   contains everything.
+    // - If a dimension is folded, fusing moves the min, and the address in a folded dimension depends on the min.
     return true;
   }
 
-- 
2.43.0


From ee2060e9a7c18f1e6df0475e7db0ce6a884a31c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:47 +0000
Subject: [PATCH 08/76] fix: init_strides reports shapes that are too big
 instead of failing an assertion

---
 slinky/runtime/buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index 6df17b3..be30a3b 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -238,7 +238,7 @@ std::optional<std::size_t> raw_buffer::init_strides_impl(index_t alignment) {
         break;
       }
     }
-    assert(dim_i.stride() != dim::auto_stride);
+    assert(overflow || dim_i.stride() != dim::auto_stride);
   }
 
   index_t size = 0;
-- 
2.43.0


From ac3a075d397697a95d3457a4919af35f2f458716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 09/76] fix: copy_small_n_backward of more than 4 elements
 copies backward from the end, like the small cases

---
 slinky/runtime/buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 1b76d4a..7a03ceb 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -538,7 +538,7 @@ void copy_small_n_backward(const T* src, std::size_t n, T* dst) {
   case 2: *(--dst) = *(--src);
   case 1: *(--dst) = *(--src);
   case 0: return;
-  default: std::copy_backward(src, src + n, dst + n); return;
+  default: std::copy_backward(src - n, src, dst); return;
   }
 }
 
-- 
2.43.0


From 5f296152a4d14e9ede0284a7023b3ad0417e30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:52 +0000
Subject: [PATCH 10/76] fix: allocated buffers with negative strides do not
 address memory before the allocation

---
 slinky/runtime/buffer.cc   | 10 ++++++++--
 slinky/runtime/buffer.h    |  3 +++
 slinky/runtime/evaluate.cc |  2 +-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/slinky/runtime/buffer.cc b/slinky/runtime/buffer.cc
index be30a3b..839ccb9 100644
--- a/slinky/runtime/buffer.cc
+++ b/slinky/runtime/buffer.cc
@@ -78,6 +78,12 @@ std::size_t alloc_size(std::size_t rank, std::size_t elem_size, const dim* dims)
 
 }  // namespace
 
+std::ptrdiff_t raw_buffer::min_offset_bytes() const {
+  index_t flat_min = 0;
+  index_t flat_max = 0;
+  return calculate_flat_bounds(rank, dims, flat_min, flat_max) ? flat_min : 0;
+}
+
 std::size_t raw_buffer::size_bytes() const { return alloc_size(rank, elem_size, dims); }
 
 std::size_t raw_buffer::elem_count() const {
@@ -106,7 +112,7 @@ raw_buffer_ptr raw_buffer::make(std::size_t rank, std::size_t elem_size, const c
     new (buf->dims) slinky::dim[buf->rank];
   }
   buf->base = data_size > 0 ? mem : nullptr;
-  buf->base = align_up(buf->base, alignment);
+  buf->base = offset_bytes(align_up(buf->base, alignment), rank == 0 || dims ? -buf->min_offset_bytes() : 0);
   return raw_buffer_ptr(buf, free);
 }
 
@@ -254,7 +260,7 @@ void* raw_buffer::allocate(index_t base_alignment, index_t stride_alignment) {
   std::optional<std::size_t> size = init_strides(stride_alignment);
   if (!size) return nullptr;
   void* allocation = malloc(*size + base_alignment - 1);
-  base = align_up(allocation, base_alignment);
+  base = offset_bytes(align_up(allocation, base_alignment), -min_offset_bytes());
   return allocation;
 }
 
diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 7a03ceb..76c3bb5 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -417,6 +417,9 @@ public:
 
   std::size_t size_bytes() const;
 
+  // The offset of the lowest address of this buffer from `base`, which is negative if there are negative strides.
+  std::ptrdiff_t min_offset_bytes() const;
+
   std::size_t elem_count() const;
 
   // If any strides are `auto_stride`, replace them with automatically determined strides.
diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index e66e759..f53cbbf 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -623,7 +623,7 @@ public:
       if (op->storage == memory_type::stack || *size <= context.config->auto_stack_threshold) {
         std::size_t alignment = context.config->base_alignment;
         buffer.base = SLINKY_ALLOCA(char, *size + alignment - 1);
-        buffer.base = align_up(buffer.base, alignment);
+        buffer.base = offset_bytes_non_null(align_up(buffer.base, alignment), -buffer.min_offset_bytes());
         buffer.allocation = nullptr;
       } else {
         buffer.allocation = context.config->allocate(op->sym, &buffer);
-- 
2.43.0


From e161058356184ec293e7940725f758227e60ed17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:13 +0000
Subject: [PATCH 11/76] fix: moving a buffer into a buffer with different dims
 storage compiles

---
 slinky/runtime/buffer.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/runtime/buffer.h b/slinky/runtime/buffer.h
index 76c3bb5..bc0f7f2 100644
--- a/slinky/runtime/buffer.h
+++ b/slinky/runtime/buffer.h
@@ -550,6 +550,10 @@ void copy_small_n_backward(const T* src, std::size_t n, T* dst) {
 template <typename T, std::size_t DimsSize>
 class buffer : public raw_buffer {
 private:
+  // Moving a buffer with a different number of dims takes ownership of its data.
+  template <typename U, std::size_t OtherDimsSize>
+  friend class buffer;
+
   void* to_free;
 
   // Avoid default constructor of slinky::dim, we might not use this.
-- 
2.43.0


From 7fe24fe056b9bb53433b07452d52f764b1a67d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 12/76] fix: thread_pool_impl keeps the init task alive for the
 threads that run it

---
 slinky/base/thread_pool_impl.cc | 2 +-
 slinky/base/thread_pool_impl.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/slinky/base/thread_pool_impl.cc b/slinky/base/thread_pool_impl.cc
index 3b6fdf1..403b644 100644
--- a/slinky/base/thread_pool_impl.cc
+++ b/slinky/base/thread_pool_impl.cc
@@ -88,7 +88,7 @@ bool thread_pool_impl::task_impl::all_work_started() const {
   return true;
 }
 
-thread_pool_impl::thread_pool_impl(int workers, function_ref<void()> init) : stop_(false) {
+thread_pool_impl::thread_pool_impl(int workers, std::function<void()> init) : stop_(false) {
   expect_workers(workers);
   auto worker = [this, init]() {
     if (init) init();
diff --git a/slinky/base/thread_pool_impl.h b/slinky/base/thread_pool_impl.h
index 888de8a..4a88034 100644
--- a/slinky/base/thread_pool_impl.h
+++ b/slinky/base/thread_pool_impl.h
@@ -96,7 +96,7 @@ public:
   // `init` is a task that is run on each newly created thread.
   // Pass workers = 0 to have a thread pool with no worker threads and
   // use `run_worker` to enter a thread into the thread pool.
-  thread_pool_impl(int workers = 3, function_ref<void()> init = nullptr);
+  thread_pool_impl(int workers = 3, std::function<void()> init = nullptr);
   ~thread_pool_impl() override;
 
   // Enters the calling thread into the thread pool as a worker. Does not return until `condition` returns true.
-- 
2.43.0


From b67e6e549737896d03c4e2bbdb75e5bd53aab04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:32 +0000
Subject: [PATCH 13/76] fix: a condition that is not a boolean is not known to
 be 1

---
 slinky/builder/simplify.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b906da2..71b613e 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -672,9 +672,9 @@ public:
         learn_from_less_equal(lt->a, lt->b);
       } else if (const equal* eq = c.as<equal>()) {
         learn_from_equal(eq->a, eq->b);
-      } else if (!as_constant(c) && !as_variable(c)) {
-        // We couldn't learn anything, just add the whole expression as a fact, if it isn't a constant or variable,
-        // which could rewrite the value from any x not zero to 1.
+      } else if (!as_constant(c) && is_boolean(c)) {
+        // We couldn't learn anything, just add the whole expression as a fact, if it is a boolean. If it isn't, this
+        // could rewrite the value from any x not zero to 1.
         facts.push_back({c, expr(true)});
       }
     }
-- 
2.43.0


From 4918a592d5c8ff7009ba4cab6f59e412d1fb075c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:42 +0000
Subject: [PATCH 14/76] Add a guarded hook to attribute a known defect of the
 simplifier

---
 slinky/builder/simplify.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 71b613e..ee39457 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -28,6 +28,10 @@
 
 namespace slinky {
 
+#ifdef SLINKY_VERIF
+bool verif_skip_learn_min_max = false;
+#endif
+
 namespace {
 
 expr strip_boolean(expr x) {
@@ -620,6 +624,10 @@ public:
     }
 
     void learn_from_less(const expr& a, const expr& b) {
+#ifdef SLINKY_VERIF
+      // Used to attribute a wrong result to the (known) wrong distribution over min and max below.
+      if (verif_skip_learn_min_max && (b.as<class max>() || a.as<class min>())) return;
+#endif
       if (const class max* r = b.as<class max>()) {
         // a < max(x, y) ==> a < x && a < y
         learn_from_less(a, r->a);
@@ -640,6 +648,10 @@ public:
       }
     }
     void learn_from_less_equal(const expr& a, const expr& b) {
+#ifdef SLINKY_VERIF
+      // Used to attribute a wrong result to the (known) wrong distribution over min and max below.
+      if (verif_skip_learn_min_max && (b.as<class max>() || a.as<class min>())) return;
+#endif
       if (const class max* r = b.as<class max>()) {
         // a <= max(x, y) ==> a <= x && a <= y
         learn_from_less_equal(a, r->a);
-- 
2.43.0


From 6a863014c3c4f970e111bc9c5f8bb286cd20338f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 15/76] fix: bounds of a let do not replace the values of the
 lets with bounds

---
 slinky/builder/simplify.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index ee39457..5376cdb 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2543,6 +2543,18 @@ public:
 
   void visit(const variable* op) override { set_result(constant_required ? expr() : expr(op)); }
 
+  void visit(const let* op) override {
+    // We don't know how the body uses the values of the lets, so we can't replace them with bounds.
+    expr body = mutate(op->body);
+    if (!body.defined() || as_constant(body)) {
+      set_result(std::move(body));
+    } else if (body.same_as(op->body)) {
+      set_result(op);
+    } else {
+      set_result(let::make(op->lets, std::move(body)));
+    }
+  }
+
   template <typename T>
   void visit_min_max(const T* op, bool take_constant) {
     expr a = mutate(op->a);
-- 
2.43.0


From 11dbb0e3558365992337fecf6c4b6417a8d824f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:46 +0000
Subject: [PATCH 16/76] fix: bounds of a condition that is not a boolean do not
 decide it

---
 slinky/builder/simplify.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 5376cdb..58d595a 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2688,10 +2688,13 @@ public:
   void visit(const less* op) override { visit_less(op); }
   void visit(const less_equal* op) override { visit_less(op); }
 
+  // Mutate an operand of a logical op. A bound of an operand that is not a boolean does not tell us if it is true.
+  expr mutate_boolean(const expr& x, int sign) { return strip_boolean(mutate(x, is_boolean(x) ? sign : 0)); }
+
   template <typename T>
   void visit_logical_and_or(const T* op, int new_sign) {
-    expr a = strip_boolean(mutate(op->a, new_sign));
-    expr b = strip_boolean(mutate(op->b, new_sign));
+    expr a = mutate_boolean(op->a, new_sign);
+    expr b = mutate_boolean(op->b, new_sign);
 
     if (as_constant(b)) std::swap(a, b);
 
@@ -2721,7 +2724,7 @@ public:
   void visit(const logical_or* op) override { visit_logical_and_or(op, std::max(sign, 0)); }
 
   void visit(const logical_not* op) override {
-    expr a = strip_boolean(mutate(op->a, -sign));
+    expr a = mutate_boolean(op->a, -sign);
     if (auto ca = as_constant(a)) {
       set_result(*ca != 0 ? 0 : 1);
     } else if (sign != 0) {
@@ -2774,8 +2777,8 @@ public:
       // - We're constant folding.
       const bool is_and = op->intrinsic == intrinsic::and_then;
       const int new_sign = is_and ? std::min(sign, 0) : std::max(sign, 0);
-      expr a = strip_boolean(mutate(op->args[0], new_sign));
-      expr b = strip_boolean(mutate(op->args[1], new_sign));
+      expr a = mutate_boolean(op->args[0], new_sign);
+      expr b = mutate_boolean(op->args[1], new_sign);
 
       if (auto ca = as_constant(a)) {
         if (*ca) {
-- 
2.43.0


From e51e03be6ea1ba1677a4b0cb66bc42d0fbb119c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:43 +0000
Subject: [PATCH 17/76] fix: bounds of sums of staircases are not computed from
 truncated constants

---
 slinky/base/arithmetic.cc         | 39 ++++++++++++++++++++++---------
 slinky/base/arithmetic.h          | 11 +++++++--
 slinky/builder/rewrite.h          |  2 +-
 slinky/builder/simplify_bounds.cc |  2 +-
 4 files changed, 39 insertions(+), 15 deletions(-)

diff --git a/slinky/base/arithmetic.cc b/slinky/base/arithmetic.cc
index b4063d0..480bde9 100644
--- a/slinky/base/arithmetic.cc
+++ b/slinky/base/arithmetic.cc
@@ -5,30 +5,47 @@
 
 namespace slinky {
 
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2) {
+template <typename T>
+interval<T> staircase_sum_bounds(T a1, T b1, T c1, T a2, T b2, T c2) {
   if (b1 == 0 && b2 == 0) {
     return {0, 0};
-  } else if (c1 * b2 != -c2 * b1) {
-    return {};
   } else if (b1 == 0 || b2 == 0) {
     return {};
   }
 
-  // The ratios of the two sides are equal. The value of this expression is a periodic pattern.
-  // We need to search the period for the min and max.
   // If these constants get so big, we need to revisit this algorithm.
-  if (abs(b1) > 1024 || abs(b2) > 1024) {
+  if (b1 < -1024 || b1 > 1024 || b2 < -1024 || b2 > 1024) {
     return {};
   }
-  int min = std::numeric_limits<int>::max();
-  int max = std::numeric_limits<int>::min();
-  const int period = lcm(abs(b1), abs(b2));
-  for (int x = 0; x < period; ++x) {
-    const int y = euclidean_div(x + a1, b1) * c1 + euclidean_div(x + a2, b2) * c2;
+
+  T c1_b2, c2_b1;
+  if (__builtin_mul_overflow(c1, b2, &c1_b2) || __builtin_mul_overflow(c2, b1, &c2_b1) || add_overflows(c1_b2, c2_b1)) {
+    return {};
+  } else if (c1_b2 + c2_b1 != 0) {
+    return {};
+  }
+
+  // The ratios of the two sides are equal. The value of this expression is a periodic pattern.
+  // We need to search the period for the min and max.
+  T min = std::numeric_limits<T>::max();
+  T max = std::numeric_limits<T>::min();
+  const T period = lcm(b1 < 0 ? -b1 : b1, b2 < 0 ? -b2 : b2);
+  for (T x = 0; x < period; ++x) {
+    T y1, y2, y;
+    if (__builtin_add_overflow(x, a1, &y1) || __builtin_mul_overflow(euclidean_div(y1, b1), c1, &y1) ||
+        __builtin_add_overflow(x, a2, &y2) || __builtin_mul_overflow(euclidean_div(y2, b2), c2, &y2) ||
+        __builtin_add_overflow(y1, y2, &y)) {
+      return {};
+    }
     min = std::min(min, y);
     max = std::max(max, y);
   }
   return {min, max};
 }
 
+template interval<std::int32_t> staircase_sum_bounds(
+    std::int32_t, std::int32_t, std::int32_t, std::int32_t, std::int32_t, std::int32_t);
+template interval<std::int64_t> staircase_sum_bounds(
+    std::int64_t, std::int64_t, std::int64_t, std::int64_t, std::int64_t, std::int64_t);
+
 }  // namespace slinky
diff --git a/slinky/base/arithmetic.h b/slinky/base/arithmetic.h
index fe9ac1b..dabb3a9 100644
--- a/slinky/base/arithmetic.h
+++ b/slinky/base/arithmetic.h
@@ -4,6 +4,7 @@
 #include <cassert>
 #include <cmath>
 #include <cstddef>
+#include <cstdint>
 #include <limits>
 #include <optional>
 #include <utility>
@@ -236,8 +237,14 @@ struct interval {
 };
 
 // Returns the [min, max] interval over all x of ((x + a1)/b1)*c1 + ((x + a2)/b2)*c2
-// Returns std::nullopt if unbounded.
-interval<int> staircase_sum_bounds(int a1, int b1, int c1, int a2, int b2, int c2);
+// Returns std::nullopt if unbounded, or if computing the bounds would overflow.
+template <typename T>
+interval<T> staircase_sum_bounds(T a1, T b1, T c1, T a2, T b2, T c2);
+
+extern template interval<std::int32_t> staircase_sum_bounds(
+    std::int32_t, std::int32_t, std::int32_t, std::int32_t, std::int32_t, std::int32_t);
+extern template interval<std::int64_t> staircase_sum_bounds(
+    std::int64_t, std::int64_t, std::int64_t, std::int64_t, std::int64_t, std::int64_t);
 
 }  // namespace slinky
 
diff --git a/slinky/builder/rewrite.h b/slinky/builder/rewrite.h
index c5c9c73..df50e12 100644
--- a/slinky/builder/rewrite.h
+++ b/slinky/builder/rewrite.h
@@ -676,7 +676,7 @@ SLINKY_UNIQUE index_t substitute(
   index_t a2 = substitute(r.a2, ctx, overflowed);
   index_t b2 = substitute(r.b2, ctx, overflowed);
   index_t c2 = substitute(r.c2, ctx, overflowed);
-  interval<int> bounds = staircase_sum_bounds(a1, b1, c1, a2, b2, c2);
+  interval<index_t> bounds = staircase_sum_bounds(a1, b1, c1, a2, b2, c2);
   if (r.bound_sign < 0) {
     return bounds.min ? *bounds.min : std::numeric_limits<index_t>::min();
   } else {
diff --git a/slinky/builder/simplify_bounds.cc b/slinky/builder/simplify_bounds.cc
index 8b3ae2b..110ce5b 100644
--- a/slinky/builder/simplify_bounds.cc
+++ b/slinky/builder/simplify_bounds.cc
@@ -74,7 +74,7 @@ void tighten_correlated_bounds_stairs(interval_expr& bounds, const expr& a, cons
   index_t rb = rhs.matched(c1);
   index_t rc = rhs.matched(c2) * sign_b;
 
-  interval<int> sb = staircase_sum_bounds(la, lb, lc, ra, rb, rc);
+  interval<index_t> sb = staircase_sum_bounds(la, lb, lc, ra, rb, rc);
   if (sb.min) bounds.min = simplify(static_cast<const class max*>(nullptr), bounds.min, *sb.min);
   if (sb.max) bounds.max = simplify(static_cast<const class min*>(nullptr), bounds.max, *sb.max);
 }
-- 
2.43.0


From 4e21ffb192255c12a6f69fb4293ce4b122b265f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:41 +0000
Subject: [PATCH 18/76] fix: simplifying products whose constant factors
 overflow together terminates

---
 slinky/builder/simplify_rules.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/simplify_rules.h b/slinky/builder/simplify_rules.h
index 826d78d..53627aa 100644
--- a/slinky/builder/simplify_rules.h
+++ b/slinky/builder/simplify_rules.h
@@ -391,7 +391,7 @@ bool apply_mul_rules(Fn&& apply) {
       apply((x*c0)*c1, x*eval(c0*c1)) ||
       apply((x + c0)*c1, x*c1 + eval(c0*c1)) ||
       apply((c0 - x)*c1, x*eval(-c1) + eval(c0*c1)) ||
-      apply(y*(x*c0), (x*y)*c0) ||
+      apply(y*(x*c0), (x*y)*c0, !is_constant(y)) ||
 
       apply(select(x, c0, c1)*c2, select(x, eval(c0*c2), eval(c1*c2))) ||
       apply(select(x, y, c1)*c2, select(x, y*c2, eval(c1*c2))) ||
-- 
2.43.0


From 61945f81fea3b78ef714616c6b7d090d94ee2d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:54 +0000
Subject: [PATCH 19/76] fix: adding a constant to a select does not count
 cancellations it discards

---
 slinky/builder/simplify.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 58d595a..1302194 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -176,6 +176,7 @@ public:
   void visit(const class min* op) override { visit_min_max(op); }
   void visit(const class max* op) override { visit_min_max(op); }
   void visit(const class select* op) override {
+    int old_cancelled = cancelled;
     expr t = mutate(op->true_value);
     if (t.defined()) {
       expr f = mutate(op->false_value);
@@ -184,6 +185,8 @@ public:
         return;
       }
     }
+    // We didn't use the result of adding to the true value, so we didn't use anything it cancelled either.
+    cancelled = old_cancelled;
     set_result(expr());
   }
 
-- 
2.43.0


From a4ca8688a226df17746541c4c2cd49a57f3da0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:03 +0000
Subject: [PATCH 20/76] fix: slice the padding along with the destination of a
 copy implemented with loops

---
 slinky/builder/optimizations.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 209e2fc..49165d3 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1311,6 +1311,8 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   // Start by making a call to copy.
   // We're going to slice this buffer, to avoid messing with metadata in the user expressions, work on a clone instead.
   var dst = ctx.insert_unique(ctx.name(op->dst) + ".sliced");
+  // The padding is indexed by the coordinates of dst, so it needs to be sliced too.
+  var pad = op->pad.defined() ? ctx.insert_unique(ctx.name(op->pad) + ".sliced") : var();
   call_stmt::attributes copy_attrs;
   copy_attrs.name = "copy";
   stmt result = call_stmt::make(
@@ -1326,7 +1328,7 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-      {}, {op->src, dst, op->pad}, {}, std::move(copy_attrs));
+      {}, {op->src, dst, pad}, {}, std::move(copy_attrs));
 
   std::vector<expr> src_x = op->src_x;
   std::vector<var> dst_x = op->dst_x;
@@ -1362,9 +1364,11 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   // Any dimensions left need loops and slices.
   for (int d = 0; d < static_cast<index_t>(dst_x.size()); ++d) {
     if (!dst_x[d].defined()) continue;
+    if (pad.defined()) result = slice_dim::make(pad, pad, d, dst_x[d], result);
     result = slice_dim::make(dst, dst, d, dst_x[d], result);
     result = loop::make(dst_x[d], loop::serial, buffer_bounds(dst, d), 1, result);
   }
+  if (pad.defined()) result = clone_buffer::make(pad, op->pad, std::move(result));
   return clone_buffer::make(dst, op->dst, std::move(result));
 }
 
-- 
2.43.0


From 15e8c74f0904e6cad32216f998cd7e3e53979eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:14 +0000
Subject: [PATCH 21/76] fix: do nothing when the destination of a copy is
 sliced out of bounds

---
 slinky/builder/optimizations.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 49165d3..36e4ee3 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1325,6 +1325,8 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         assert(src_buf);
         assert(dst_buf);
         assert(pad_buf);
+        // The dst can be sliced out of bounds (e.g. a part of a stack that isn't needed), there is nothing to copy then.
+        if (!dst_buf->base) return 0;
         impl(*src_buf, *dst_buf, *pad_buf);
         return 0;
       },
-- 
2.43.0


From 34ce345645286220dc0a6f403b738a4bee9c8750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:12 +0000
Subject: [PATCH 22/76] fix: do not alias a buffer to another if there is more
 than one copy between them

---
 slinky/builder/optimizations.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 36e4ee3..abf580a 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -525,6 +525,12 @@ public:
         }
 
         var target_var = alias.target;
+        if (std::count_if(info.aliases.begin(), info.aliases.end(),
+                [=](const alias_info& i) { return i.target == target_var; }) > 1) {
+          // There is more than one copy between these buffers (e.g. a buffer concatenated with itself), an alias can only
+          // replace one of them.
+          continue;
+        }
         std::optional<buffer_info>& target_info = buffers[target_var];
         assert(target_info);
 
-- 
2.43.0


From b5eef09dff655c8d00e4f123dd463d06cadb48dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:47 +0000
Subject: [PATCH 23/76] fix: grow the target of an alias by the bounds of the
 aliased allocation, not its intersection with the target

---
 slinky/builder/optimizations.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index abf580a..d1969d0 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -563,7 +563,7 @@ public:
             // starts.
             int target_d = alias.permutation[d];
             if (target_d < static_cast<int>(target_info->dims.size())) {
-              target_info->dims[target_d].bounds |= alias.at[target_d] + min_extent(0, alias.dims[d].bounds.extent());
+              target_info->dims[target_d].bounds |= alias.at[target_d] + min_extent(0, info.dims[d].bounds.extent());
             }
           }
         } else if (!any_stride_defined(target_info->dims) && !alias.is_contiguous_copy) {
-- 
2.43.0


From 4b8222c1c25e89dc63db79199dbebb734ea60522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:20 +0000
Subject: [PATCH 24/76] fix: a padded copy from a source sliced out of bounds
 is all padding

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index d1969d0..8bd6de4 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1333,7 +1333,12 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         assert(pad_buf);
         // The dst can be sliced out of bounds (e.g. a part of a stack that isn't needed), there is nothing to copy then.
         if (!dst_buf->base) return 0;
-        impl(*src_buf, *dst_buf, *pad_buf);
+        if (!src_buf->base && pad_buf->base) {
+          // The src is sliced out of bounds (or empty), everything is padding.
+          impl(*pad_buf, *dst_buf, no_padding);
+        } else {
+          impl(*src_buf, *dst_buf, *pad_buf);
+        }
         return 0;
       },
       {}, {op->src, dst, pad}, {}, std::move(copy_attrs));
-- 
2.43.0


From 613a11e99f90aa75cc4fd4ae379048b7d3290958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:16 +0000
Subject: [PATCH 25/76] fix: keep the input crop of a padded copy of a buffer
 that is bigger than the crop

---
 slinky/builder/pipeline.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/pipeline.cc b/slinky/builder/pipeline.cc
index 7eafc3d..745a32b 100644
--- a/slinky/builder/pipeline.cc
+++ b/slinky/builder/pipeline.cc
@@ -528,12 +528,13 @@ std::vector<dim_expr> substitute_from_map(std::vector<dim_expr> dims, span<const
 }
 
 // Perform a substitute limited to call or copy inputs only.
-stmt substitute_inputs(const stmt& s, const symbol_map<var>& subs) {
+stmt substitute_inputs(const stmt& s, const symbol_map<var>& subs, node_context& ctx) {
   class m : public stmt_mutator {
     const symbol_map<var>& subs;
+    node_context& ctx;
 
   public:
-    m(const symbol_map<var>& subs) : subs(subs) {}
+    m(const symbol_map<var>& subs, node_context& ctx) : subs(subs), ctx(ctx) {}
 
     void visit(const call_stmt* op) override {
       bool changed = false;
@@ -563,8 +564,22 @@ stmt substitute_inputs(const stmt& s, const symbol_map<var>& subs) {
         set_result(op);
       }
     }
+
+    void visit(const crop_buffer* op) override {
+      const copy_stmt* copy = op->body.as<copy_stmt>();
+      if (copy && copy->pad.defined() && copy->src == op->sym && op->sym == op->src && subs[op->src]) {
+        // This is the input crop of a padded copy, which defines where the padding is. The crop should apply to the
+        // substituted buffer.
+        var cropped = ctx.insert_unique(ctx.name(op->sym));
+        var pad = subs[copy->pad] ? *subs[copy->pad] : copy->pad;
+        stmt body = copy_stmt::make(copy->impl, cropped, copy->src_x, copy->dst, copy->dst_x, pad);
+        set_result(crop_buffer::make(cropped, *subs[op->src], op->bounds, std::move(body)));
+      } else {
+        stmt_mutator::visit(op);
+      }
+    }
   };
-  return m(subs).mutate(s);
+  return m(subs, ctx).mutate(s);
 }
 
 // Finds if expr depends on any of the buffer_min/buffer_max from dependent_dims.
@@ -1287,7 +1302,7 @@ public:
     // are used as an input arguments. This does a batch substitution by replacing multiple
     // buffer names at once and relies on the fact that the same var can't be written
     // by two different funcs.
-    body.body = substitute_inputs(body.body, uncropped_subs);
+    body.body = substitute_inputs(body.body, uncropped_subs, ctx);
 
     if (here.root()) return body;
 
-- 
2.43.0


From 9038a7cc80abcbed84f38781529761330f20b820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:20 +0000
Subject: [PATCH 26/76] fix: the offset of a copied dimension can depend on
 dimensions of the destination that are implemented with loops

---
 slinky/builder/optimizations.cc | 43 ++++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 8bd6de4..394ad79 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -126,7 +126,7 @@ bool is_copy(var src, expr src_x, int src_d, var dst, span<const var> dst_x, int
   } else {
     // If a src_x depends on multiple dst_x, only consider this dst dim for now.
     for (int i = 0; i < static_cast<int>(dst_x.size()); ++i) {
-      if (i != dst_d) {
+      if (i != dst_d && dst_x[i].defined()) {
         src_x = substitute(src_x, dst_x[i], buffer_min(dst, i));
       }
     }
@@ -1349,21 +1349,40 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
 
   // If we just leave these two arrays alone, the copy will be correct, but slow.
   // We can speed it up by finding dimensions we can let pass through to the copy.
-  for (int dst_d = 0; dst_d < static_cast<int>(dst_x.size()); ++dst_d) {
-    int src_d;
-    if (!is_copy_dst_dim(op, dst_d, src_d)) {
-      continue;
+  auto is_copy_dim = [&](span<const var> copy_x, int dst_d, int& src_d, expr& at, dim_expr& src_dim) {
+    if (!is_copy_dst_dim(op, dst_d, src_d)) return false;
+    expr src_x = src_d != transpose::new_dim ? op->src_x[src_d] : expr();
+    return is_copy(op->src, src_x, src_d, op->dst, copy_x, dst_d, at, src_dim);
+  };
+
+  // Find the dimensions that can pass through to the copy first: the offset of a dimension in the src can depend on the
+  // dimensions of the dst that can't.
+  std::vector<var> copy_x = op->dst_x;
+  for (bool changed = true; changed;) {
+    changed = false;
+    for (int dst_d = 0; dst_d < static_cast<int>(copy_x.size()); ++dst_d) {
+      int src_d;
+      expr at;
+      dim_expr src_dim;
+      if (copy_x[dst_d].defined() && !is_copy_dim(copy_x, dst_d, src_d, at, src_dim)) {
+        copy_x[dst_d] = var();
+        changed = true;
+      }
     }
+  }
 
-    dim_expr src_dim;
+  for (int dst_d = 0; dst_d < static_cast<int>(dst_x.size()); ++dst_d) {
+    if (!copy_x[dst_d].defined()) continue;
+
+    int src_d;
     expr at;
-    if (is_copy(op, src_d, dst_d, at, src_dim)) {
-      src_dims.push_back(src_dim);
-      if (at.defined()) {
-        src_x[src_d] = at;
-      }
-      dst_x[dst_d] = var();
+    dim_expr src_dim;
+    is_copy_dim(copy_x, dst_d, src_d, at, src_dim);
+    src_dims.push_back(src_dim);
+    if (at.defined()) {
+      src_x[src_d] = at;
     }
+    dst_x[dst_d] = var();
   }
 
   // TODO: Try to optimize reshapes, where the index of the input is an "unpacking" of a flat index of the output.
-- 
2.43.0


From dacc4d2b6375d9e196f75485f035939e8303ed35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 27/76] fix: simplifying a self shadowing truncate that does
 nothing terminates

---
 slinky/builder/simplify.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 1302194..37262f2 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2419,6 +2419,11 @@ public:
       if (transpose::is_truncate(dims) && (*src_info)->rank >= 0 &&
           (*src_info)->rank <= static_cast<int>(dims.size())) {
         // This truncate is a no-op.
+        if (op->sym == src) {
+          // This is a self shadowing truncate, substituting the symbol with itself would never terminate.
+          set_result(mutate(op->body));
+          return;
+        }
         auto s = set_value_in_scope(vars, op->sym, expr_info::substitution(variable::make(src)));
         set_result(mutate(op->body));
         return;
-- 
2.43.0


From 17d64abd2b28e8fc73f94cd68ffba7cde57db606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:53 +0000
Subject: [PATCH 28/76] fix: undefined bounds of a crop are the bounds of its
 source when sliding and folding

---
 slinky/builder/slide_and_fold_storage.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index c47b021..1e55551 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -522,8 +522,8 @@ public:
   // Resolve `bounds` (the merged required region for `sym`) against the currently-tracked buffer
   // bounds, and propagate the narrowed region to other buffers that reference `sym`. Shared by
   // visit(crop_buffer) and visit(crop_dim).
-  void resolve_crop_bounds(var sym, box_expr& bounds) {
-    define_undef_bounds(bounds, sym);
+  void resolve_crop_bounds(var sym, var src, box_expr& bounds) {
+    define_undef_bounds(bounds, src);
     substitute_bounds(bounds, buffer_bounds);
     // This simplify can be heavy, but is really useful in reducing the size of the expressions.
     for (interval_expr& b : bounds) {
@@ -543,7 +543,7 @@ public:
     std::optional<box_expr> bounds = buffer_bounds[op->src];
     merge_crop(bounds, op->bounds);
     if (bounds) {
-      resolve_crop_bounds(op->sym, *bounds);
+      resolve_crop_bounds(op->sym, op->src, *bounds);
     }
 
     {
@@ -569,7 +569,7 @@ public:
     symbol_map<box_expr> saved_buffer_bounds = buffer_bounds;
     std::optional<box_expr> bounds = buffer_bounds[op->src];
     merge_crop(bounds, op->dim, op->bounds);
-    resolve_crop_bounds(op->sym, *bounds);
+    resolve_crop_bounds(op->sym, op->src, *bounds);
 
     {
       auto set_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
-- 
2.43.0


From 75902696e9c913410417e82eaa55a452f1bf7244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:37 +0000
Subject: [PATCH 29/76] fix: do not alias a padded copy if its source is
 cropped

---
 slinky/builder/optimizations.cc | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 394ad79..7000ba2 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -289,6 +289,9 @@ class copy_aliaser : public stmt_mutator {
 
     bool is_contiguous_copy = false;
 
+    // If this alias is of a padded copy, the source of the copy.
+    var pad_src;
+
     bool disabled = false;
   };
 
@@ -752,6 +755,7 @@ public:
 
     // If there is no padding, we can assume that the src is always in bounds of dst.
     a.assume_in_bounds = !op->pad.defined();
+    if (op->pad.defined()) a.pad_src = op->src;
 
     a.elem_size = buffer_elem_size(op->src);
 
@@ -816,6 +820,7 @@ public:
     }
 
     a.assume_in_bounds = false;
+    if (op->pad.defined()) a.pad_src = op->src;
     a.elem_size = buffer_elem_size(op->dst);
 
     info->aliases.push_back(std::move(a));
@@ -847,6 +852,9 @@ public:
         if (a.target == sym) {
           handler(a);
         }
+        if (a.pad_src == sym) {
+          a.pad_src = src;
+        }
         // Substitute buffer metadata of sym with the corresponding src dimensions.
         for (dim_expr& d : a.dims) {
           d = substitute_buffer(d, sym, sub_dims, src);
@@ -895,7 +903,8 @@ public:
   }
 
   template <typename T>
-  void visit_buffer_mutator(const T* op, function_ref<void(alias_info&)> handler, span<const int> dim_map) {
+  void visit_buffer_mutator(const T* op, function_ref<void(alias_info&)> handler, span<const int> dim_map,
+      bool is_crop = false) {
     // We need to know which alias candidates are added inside this mutator.
     symbol_map<buffer_info> old_buffers(buffers.size());
     std::swap(old_buffers, buffers);
@@ -912,6 +921,15 @@ public:
     stmt_mutator::visit(op);
 
     scoped_trace trace("visit_buffer_mutator");
+    if (is_crop) {
+      // If the source of a padded copy is cropped, the alias would replace the elements outside the crop with padding.
+      for (std::optional<buffer_info>& i : buffers) {
+        if (!i) continue;
+        for (alias_info& a : i->aliases) {
+          a.disabled = a.disabled || (a.pad_src.defined() && a.pad_src == op->sym);
+        }
+      }
+    }
     merge_buffer_info(old_buffers, op->sym, op->src, handler, dim_map);
   }
 
@@ -957,7 +975,7 @@ public:
 
   void visit(const crop_buffer* op) override {
     std::size_t rank = buffers[op->src] ? buffers[op->src]->dims.size() : 0;
-    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank));
+    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank), /*is_crop=*/true);
 
     std::vector<dim_expr> subs(op->bounds.size());
     for (std::size_t i = 0; i < subs.size(); ++i) {
@@ -968,7 +986,7 @@ public:
 
   void visit(const crop_dim* op) override {
     std::size_t rank = buffers[op->src] ? buffers[op->src]->dims.size() : 0;
-    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank));
+    visit_buffer_mutator(op, [](alias_info&) {}, iota(rank), /*is_crop=*/true);
 
     std::vector<dim_expr> subs(op->dim + 1);
     subs[op->dim].bounds = op->bounds & buffer_bounds(op->src, op->dim);
-- 
2.43.0


From f36c25bccc921ba21b123066e7e9db4de34fbdef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:18 +0000
Subject: [PATCH 30/76] fix: the alias of the destination of a strided copy
 starts at the right element of the source

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 7000ba2..b6025bc 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -739,7 +739,12 @@ public:
       }
 
       if (at.defined()) {
-        a.at[src_d] = at - src_dim.bounds.min + buffer_min(op->dst, dst_d);
+        // The alias starts at the element of src copied to the min of dst.
+        a.at[src_d] = op->src_x[src_d];
+        for (int i = 0; i < static_cast<int>(op->dst_x.size()); ++i) {
+          if (!op->dst_x[i].defined()) continue;
+          a.at[src_d] = substitute(a.at[src_d], op->dst_x[i], buffer_min(op->dst, i));
+        }
       }
 
       if (dst_d >= static_cast<int>(a.dims.size())) {
-- 
2.43.0


From 005818221b4a44ca951a247718b9247ce10cb459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:08 +0000
Subject: [PATCH 31/76] fix: simplifying a self shadowing transpose of a
 substituted buffer

---
 slinky/builder/simplify.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 37262f2..580e030 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2387,9 +2387,9 @@ public:
   }
 
   void visit(const transpose* op) override {
-    const std::optional<buffer_info>* src_info = &buffers[op->src];
-
     var src = visit_symbol(op->src);
+    const std::optional<buffer_info>* src_info = &buffers[src];
+
     std::vector<int> dims = op->dims;
     while (src_info && *src_info) {
       if (const transpose* t = (*src_info)->decl.as<transpose>()) {
@@ -2443,6 +2443,8 @@ public:
       }
     }
 
+    // If this is a self shadowing transpose, the body should not see any substitution of the symbol outside it.
+    auto hide_sym = set_value_in_scope(vars, op->sym, std::nullopt);
     stmt body = mutate_with_buffer(op, op->body, op->sym, src, std::move(sym_info));
 
     auto make_transpose = [&](stmt body) {
-- 
2.43.0


From 96442901d4d179f89e39ea68e03d15bf2ca1e7f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:56 +0000
Subject: [PATCH 32/76] fix: padded copies whose source coordinate depends on
 more than one dimension of the destination

---
 slinky/builder/optimizations.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index b6025bc..507383b 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1375,6 +1375,13 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   auto is_copy_dim = [&](span<const var> copy_x, int dst_d, int& src_d, expr& at, dim_expr& src_dim) {
     if (!is_copy_dst_dim(op, dst_d, src_d)) return false;
     expr src_x = src_d != transpose::new_dim ? op->src_x[src_d] : expr();
+    if (op->pad.defined() && src_x.defined() && depends_on(src_x, copy_x[dst_d]).any()) {
+      for (int i = 0; i < static_cast<int>(copy_x.size()); ++i) {
+        // If the src coordinate depends on more than one dst dimension, where the padding is in one of the dimensions
+        // depends on the other.
+        if (i != dst_d && copy_x[i].defined() && depends_on(src_x, copy_x[i]).any()) return false;
+      }
+    }
     return is_copy(op->src, src_x, src_d, op->dst, copy_x, dst_d, at, src_dim);
   };
 
-- 
2.43.0


From 9e31cf74d865ef38ca5b427e8c4b1f07b19fb5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:12 +0000
Subject: [PATCH 33/76] fix: do not slide a dimension of a buffer if other
 dimensions also change between iterations of the loop

---
 slinky/builder/slide_and_fold_storage.cc | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 1e55551..6e1de37 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -335,6 +335,21 @@ public:
     return expr();
   }
 
+  // Returns true if a dimension of `bounds` other than `d` includes regions not included by the previous iteration of
+  // the loop.
+  bool other_dims_change(const box_expr& bounds, int d, const loop_info& loop) {
+    for (int i = 0; i < static_cast<int>(bounds.size()); ++i) {
+      if (i == d || !depends_on(bounds[i], loop.sym).any()) continue;
+      interval_expr cur = simplify(bounds[i], expr_bounds, expr_alignment);
+      interval_expr prev = {
+          substitute(cur.min, loop.sym, expr(loop.sym) - loop.step),
+          substitute(cur.max, loop.sym, expr(loop.sym) - loop.step),
+      };
+      if (!prove_true(prev.min <= cur.min && cur.max <= prev.max, expr_bounds, expr_alignment)) return true;
+    }
+    return false;
+  }
+
   void slide_and_fold_buffer(const var& output, const stmt& body) {
     scoped_trace trace("slide_and_fold_buffer");
     // We only want to fold if we are inside of the loop and the cropped buffer
@@ -394,6 +409,11 @@ public:
         continue;
       }
 
+      if (other_dims_change(*bounds, d, loop)) {
+        // The overlap in this dimension was not computed by the previous iteration of the loop.
+        continue;
+      }
+
       // Allowing the leading edge to not change means that some calls may ask for empty buffers.
       expr is_monotonic_increasing = prev_bounds_d.min <= cur_bounds_d.min && prev_bounds_d.max <= cur_bounds_d.max;
       expr is_monotonic_decreasing = prev_bounds_d.min >= cur_bounds_d.min && prev_bounds_d.max >= cur_bounds_d.max;
-- 
2.43.0


From dda406e79ad424fe2eae8450fe50df153754f63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:22 +0000
Subject: [PATCH 34/76] fix: do not fold a dimension again for each of the
 producers of a buffer

---
 slinky/builder/slide_and_fold_storage.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 6e1de37..37dcfe9 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -182,6 +182,9 @@ public:
 
     // Unique ID of the loop this fold is for.
     int loop_id = -1;
+
+    // The factor of a folded dimension may not be constant.
+    bool is_folded() const { return factor.defined() && !is_positive_infinity(factor); }
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
 
@@ -362,7 +365,7 @@ public:
       for (int d = 0; d < static_cast<int>(fold_factors[output]->size()); ++d) {
         expr fold = (*fold_factors[output])[d].factor;
         expr overlap = (*fold_factors[output])[d].overlap;
-        if (!is_finite(fold)) continue;
+        if (!(*fold_factors[output])[d].is_folded()) continue;
         // If fold is finite and bounds don't overlap the fold and overlap
         // will be set to the same expr.
         did_overlapped_fold = did_overlapped_fold || !match(fold, overlap);
@@ -377,9 +380,8 @@ public:
 
     for (int d = 0; d < static_cast<int>(bounds->size()); ++d) {
       if (fold_factors[output] && (d < static_cast<int>(fold_factors[output]->size()))) {
-        expr fold_factor = (*fold_factors[output])[d].factor;
         // Skip if we already folded this dimension.
-        if (is_finite(fold_factor)) continue;
+        if ((*fold_factors[output])[d].is_folded()) continue;
       }
 
       interval_expr cur_bounds_d = (*bounds)[d];
@@ -502,13 +504,13 @@ public:
             continue;
           }
 
-          expr fold_factor = (*fold_factors[output])[d].factor;
-          if (!is_finite(fold_factor)) {
+          if (!(*fold_factors[output])[d].is_folded()) {
             continue;
           }
+          expr fold_factor = (*fold_factors[output])[d].factor;
 
           loop.add_synchronization();
-          if (!depends_on(fold_factor, loop.sym).any()) {
+          if (!depends_on(fold_factor, loop.sym).any() && !depends_on(fold_factor, loop.worker_count).any()) {
             // We need an extra fold per worker when parallelizing the loop.
             // TODO: This extra folding seems excessive, it allows all workers to execute any stage.
             // If we can figure out how to add some synchronization to limit the number of workers that
-- 
2.43.0


From 234636e57189841c9d1ab9a32534aec6dfac58ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:41 +0000
Subject: [PATCH 35/76] fix: copies and aliases of folded buffers at an offset
 that is not a multiple of the fold factor

---
 slinky/builder/optimizations.cc | 112 ++++++++++++++++++++++++++++++--
 slinky/builder/optimizations.h  |   3 +-
 2 files changed, 110 insertions(+), 5 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 507383b..fde2f5d 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -266,6 +266,13 @@ bool dim_has_stride(const dim_expr& d) {
   }
   return d.stride.defined();
 }
+
+// Returns true if dimension `d` might be folded.
+bool is_folded_dim(span<const dim_expr> dims, int d) {
+  return 0 <= d && d < static_cast<int>(dims.size()) && dims[d].fold_factor.defined() &&
+         !is_constant(dims[d].fold_factor, dim::unfolded);
+}
+
 bool any_stride_defined(span<const dim_expr> dims) { return std::any_of(dims.begin(), dims.end(), dim_has_stride); }
 
 class copy_aliaser : public stmt_mutator {
@@ -438,6 +445,13 @@ class copy_aliaser : public stmt_mutator {
         }
       }
 
+      const int target_fold_d = alias.permutation[d];
+      if (is_folded_dim(target_info.dims, target_fold_d)) {
+        // We can only alias a folded dimension if the alias is at an offset that is a multiple of the fold factor.
+        expr offset = alias.at[target_fold_d].defined() ? alias.at[target_fold_d] - alloc_info.dims[d].bounds.min : 0;
+        if (!prove_true(offset % target_info.dims[target_fold_d].fold_factor == 0)) return false;
+      }
+
       if (alloc_dims[d].fold_factor.defined()) {
         if (!alias_dim.fold_factor.defined() || is_constant(alias_dim.fold_factor, dim::unfolded)) {
           // The target isn't folded, we can alias this buffer. We lose our fold factor, but it's not going to occupy
@@ -607,6 +621,10 @@ public:
         for (std::size_t d = 0; d < alias_dims.size(); ++d) {
           alias_dims[d].bounds = info.dims[d].bounds;
         }
+        for (std::size_t d = 0; d < alias.permutation.size(); ++d) {
+          // The base of a folded dimension is the base of a fold, not the min.
+          if (is_folded_dim(target_info->dims, alias.permutation[d])) alias.at[alias.permutation[d]] = expr();
+        }
         stmt result =
             make_buffer::make(sym, buffer_at(alloc_var, alias.at), elem_size, std::move(alias_dims), std::move(body));
         // Wrap with the original buffer in case we want to use the metadata in the construction of the buffer.
@@ -1335,7 +1353,7 @@ stmt fuse_siblings(const stmt& s) {
   return sibling_fuser().mutate(s);
 }
 
-stmt implement_copy(const copy_stmt* op, node_context& ctx) {
+stmt implement_copy(const copy_stmt* op, node_context& ctx, span<const expr> src_fold_factors) {
   scoped_trace trace("implement_copy");
   // Start by making a call to copy.
   // We're going to slice this buffer, to avoid messing with metadata in the user expressions, work on a clone instead.
@@ -1382,7 +1400,16 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
         if (i != dst_d && copy_x[i].defined() && depends_on(src_x, copy_x[i]).any()) return false;
       }
     }
-    return is_copy(op->src, src_x, src_d, op->dst, copy_x, dst_d, at, src_dim);
+    if (!is_copy(op->src, src_x, src_d, op->dst, copy_x, dst_d, at, src_dim)) return false;
+    if (0 <= src_d && src_d < static_cast<int>(src_fold_factors.size()) && src_fold_factors[src_d].defined() &&
+        depends_on(src_x, copy_x[dst_d]).any()) {
+      // The base of a folded dimension is the base of a fold, not the min, so we can only translate the dimension by a
+      // multiple of the fold factor.
+      expr offset = simplify(src_x - copy_x[dst_d]);
+      if (depends_on(offset, op->dst_x).any() || !prove_true(offset % src_fold_factors[src_d] == 0)) return false;
+      at = expr();
+    }
+    return true;
   };
 
   // Find the dimensions that can pass through to the copy first: the offset of a dimension in the src can depend on the
@@ -1409,7 +1436,7 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
     dim_expr src_dim;
     is_copy_dim(copy_x, dst_d, src_d, at, src_dim);
     src_dims.push_back(src_dim);
-    if (at.defined()) {
+    if (src_d != transpose::new_dim) {
       src_x[src_d] = at;
     }
     dst_x[dst_d] = var();
@@ -1434,9 +1461,86 @@ stmt implement_copy(const copy_stmt* op, node_context& ctx) {
   return clone_buffer::make(dst, op->dst, std::move(result));
 }
 
+namespace {
+
+class copy_implementer : public stmt_mutator {
+  node_context& ctx;
+
+  // The fold factors of the dimensions of buffers that are folded, which are undefined if the dimension is not folded.
+  symbol_map<std::vector<expr>> fold_factors;
+
+  template <typename T>
+  void visit_buffer_decl(const T* op, std::optional<std::vector<expr>> decl_fold_factors) {
+    auto s = set_value_in_scope(fold_factors, op->sym, std::move(decl_fold_factors));
+    stmt_mutator::visit(op);
+  }
+
+public:
+  copy_implementer(node_context& ctx) : ctx(ctx) {}
+
+  void visit(const copy_stmt* op) override {
+    if (const std::optional<std::vector<expr>>& src = fold_factors[op->src]) {
+      set_result(implement_copy(op, ctx, *src));
+    } else {
+      set_result(implement_copy(op, ctx));
+    }
+  }
+
+  template <typename T>
+  void visit_dims(const T* op) {
+    std::vector<expr> result;
+    for (const dim_expr& d : op->dims) {
+      expr fold_factor = d.fold_factor;
+      if (const variable* v = fold_factor.as<variable>()) {
+        if (v->field == buffer_field::fold_factor) {
+          // This is the fold factor of another buffer, we only know it if we know the fold factors of that buffer.
+          const std::optional<std::vector<expr>>& src = fold_factors[v->sym];
+          fold_factor = src && v->dim < static_cast<int>(src->size()) ? (*src)[v->dim] : expr();
+        }
+      }
+      if (fold_factor.defined() && is_constant(fold_factor, dim::unfolded)) fold_factor = expr();
+      result.push_back(std::move(fold_factor));
+    }
+    visit_buffer_decl(op, std::move(result));
+  }
+  void visit(const allocate* op) override { visit_dims(op); }
+  void visit(const make_buffer* op) override { visit_dims(op); }
+  void visit(const constant_buffer* op) override { visit_buffer_decl(op, std::nullopt); }
+
+  void visit(const clone_buffer* op) override { visit_buffer_decl(op, fold_factors[op->src]); }
+  void visit(const crop_buffer* op) override { visit_buffer_decl(op, fold_factors[op->src]); }
+  void visit(const crop_dim* op) override { visit_buffer_decl(op, fold_factors[op->src]); }
+  void visit(const slice_buffer* op) override {
+    std::optional<std::vector<expr>> result = fold_factors[op->src];
+    if (result) {
+      for (int d = static_cast<int>(std::min(op->at.size(), result->size())) - 1; d >= 0; --d) {
+        if (op->at[d].defined()) result->erase(result->begin() + d);
+      }
+    }
+    visit_buffer_decl(op, std::move(result));
+  }
+  void visit(const slice_dim* op) override {
+    std::optional<std::vector<expr>> result = fold_factors[op->src];
+    if (result && op->dim < static_cast<int>(result->size())) result->erase(result->begin() + op->dim);
+    visit_buffer_decl(op, std::move(result));
+  }
+  void visit(const transpose* op) override {
+    std::optional<std::vector<expr>> result;
+    if (const std::optional<std::vector<expr>>& src = fold_factors[op->src]) {
+      result = std::vector<expr>(op->dims.size());
+      for (std::size_t i = 0; i < op->dims.size(); ++i) {
+        if (0 <= op->dims[i] && op->dims[i] < static_cast<int>(src->size())) (*result)[i] = (*src)[op->dims[i]];
+      }
+    }
+    visit_buffer_decl(op, std::move(result));
+  }
+};
+
+}  // namespace
+
 stmt implement_copies(const stmt& s, node_context& ctx) {
   scoped_trace trace("implement_copies");
-  return recursive_mutate<copy_stmt>(s, [&](const copy_stmt* op) { return implement_copy(op, ctx); });
+  return copy_implementer(ctx).mutate(s);
 }
 
 namespace {
diff --git a/slinky/builder/optimizations.h b/slinky/builder/optimizations.h
index 76b6c1e..cb1ff0d 100644
--- a/slinky/builder/optimizations.h
+++ b/slinky/builder/optimizations.h
@@ -23,7 +23,8 @@ stmt fuse_siblings(const stmt& s);
 
 // Given a copy_stmt, produce an implementation that calls `slinky::copy`, possibly inside loops that implement copy
 // operations that `slinky::copy` cannot express.
-stmt implement_copy(const copy_stmt* c, node_context& ctx);
+// `src_fold_factors` are the fold factors of the source, for the dimensions that are folded.
+stmt implement_copy(const copy_stmt* c, node_context& ctx, span<const expr> src_fold_factors = {});
 
 // Replace every `copy_stmt` with the result of `implement_copy`
 stmt implement_copies(const stmt& s, node_context& ctx);
-- 
2.43.0


From 2569b0d4b86930801aa4ca834b840c8db014d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:04 +0000
Subject: [PATCH 36/76] fix: the alignment of a loop variable depends on the
 min of the loop

---
 slinky/builder/simplify.cc               | 6 +++---
 slinky/builder/slide_and_fold_storage.cc | 3 ++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 580e030..65f3510 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1403,7 +1403,8 @@ public:
   }
 
   void visit(const loop* op) override {
-    interval_expr bounds = mutate(op->bounds);
+    expr_info min_info, max_info;
+    interval_expr bounds = mutate(op->bounds, &min_info, &max_info);
     expr step = mutate(op->step);
     expr max_workers = mutate(op->max_workers);
 
@@ -1426,8 +1427,7 @@ public:
       if (i) ++i->loop_depth;
     }
     alignment_type alignment;
-    if (auto cstep = as_constant(step)) alignment.modulus = *cstep;
-    if (auto cmin = as_constant(bounds.min)) alignment.remainder = *cmin;
+    if (auto cstep = as_constant(step)) alignment = min_info.alignment + alignment_type(*cstep, 0);
     // If we're in the body of the loop, then we know that bounds.max >= bounds.min.
     stmt body = mutate_with_bounds(op->body, op->sym, {bounds.min, mutate(max(bounds.min, bounds.max))}, alignment);
     for (auto& i : buffers) {
diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 37dcfe9..72f9963 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -741,7 +741,8 @@ public:
 
       auto maybe_min = as_constant(loop_bounds.min);
       auto maybe_step = as_constant(op->step);
-      index_t modulus = maybe_step ? *maybe_step : 1;
+      // We only know the alignment if we know the min of the loop.
+      index_t modulus = (maybe_min && maybe_step) ? *maybe_step : 1;
       index_t remainder = (maybe_min && maybe_step) ? *maybe_min % *maybe_step : 0;
 
       auto set_expr_alignment = set_value_in_scope(expr_alignment, op->sym, {modulus, remainder});
-- 
2.43.0


From cc707046a19a85373c978a9733fc4419bae9a803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:36 +0000
Subject: [PATCH 37/76] fix: the padding of a copy is a consumer of a buffer
 that may be folded

---
 slinky/builder/slide_and_fold_storage.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 72f9963..2a52ea9 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -538,7 +538,8 @@ public:
   }
   void visit(const copy_stmt* op) override {
     set_result(op);
-    visit_call_or_copy({&op->src, 1}, {&op->dst, 1});
+    const var inputs[] = {op->src, op->pad};
+    visit_call_or_copy({inputs, op->pad.defined() ? 2u : 1u}, {&op->dst, 1});
   }
 
   // Resolve `bounds` (the merged required region for `sym`) against the currently-tracked buffer
-- 
2.43.0


From b39207f738daec3472f734aa6c060cfdbf63b860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:08:03 +0000
Subject: [PATCH 38/76] fix: do not fold a buffer in a loop if the buffer
 slides in another loop

---
 slinky/builder/slide_and_fold_storage.cc | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 2a52ea9..7341fe1 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -183,6 +183,9 @@ public:
     // Unique ID of the loop this fold is for.
     int loop_id = -1;
 
+    // Unique ID of the loop this dimension slides in, if any.
+    int slide_loop_id = -1;
+
     // The factor of a folded dimension may not be constant.
     bool is_folded() const { return factor.defined() && !is_positive_infinity(factor); }
   };
@@ -353,6 +356,17 @@ public:
     return false;
   }
 
+  // Returns true if a dimension of `output` slides in a loop other than `loop`. If so, the values of `output` need to
+  // live longer than an iteration of that loop, so dimensions of `output` cannot be folded in `loop`.
+  bool slides_in_other_loop(var output, const loop_info& loop) {
+    if (!fold_factors[output]) return false;
+    const std::vector<dim_fold_info>& info = *fold_factors[output];
+    for (int i = 0; i < static_cast<int>(info.size()); ++i) {
+      if (info[i].slide_loop_id >= 0 && info[i].slide_loop_id != loop.loop_id) return true;
+    }
+    return false;
+  }
+
   void slide_and_fold_buffer(const var& output, const stmt& body) {
     scoped_trace trace("slide_and_fold_buffer");
     // We only want to fold if we are inside of the loop and the cropped buffer
@@ -404,6 +418,7 @@ public:
       if (prove_true(overlap.empty(), expr_bounds, expr_alignment)) {
         // The bounds of each loop iteration do not overlap. We can't re-use work between loop iterations, but we
         // can fold the storage.
+        if (slides_in_other_loop(output, loop)) continue;
         expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
         if (fold_factor.defined()) {
           vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
@@ -425,7 +440,7 @@ public:
         expr old_min = cur_bounds_d.min;
         expr new_min = simplify(prev_bounds_d.max + 1, expr_bounds, expr_alignment);
 
-        if (!did_overlapped_fold) {
+        if (!did_overlapped_fold && !slides_in_other_loop(output, loop)) {
           expr fold_factor =
               constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds, expr_alignment).max, loop);
           if (fold_factor.defined()) {
@@ -438,6 +453,8 @@ public:
           }
         }
 
+        vector_at(fold_factors[output], d).slide_loop_id = loop.loop_id;
+
         // Now that we're only computing the newly required parts of the domain, we need
         // to move the loop min back so we compute the whole required region.
         expr new_min_at_new_loop_min = substitute(new_min, loop.sym, x);
-- 
2.43.0


From 3b4052e3d5869d61310aa2c765d181f5de45830a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:52 +0000
Subject: [PATCH 39/76] fix: fold factors of staircases, and buffer_at of
 buffers that may be folded

---
 slinky/builder/simplify.cc               |  9 +++++----
 slinky/builder/slide_and_fold_storage.cc | 12 +++++++-----
 2 files changed, 12 insertions(+), 9 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 65f3510..84cf231 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1163,10 +1163,11 @@ public:
         }
         for (int d = 0; d < static_cast<int>(std::min(info->dims.size(), args.size() - 1)); ++d) {
           dim_expr dim = info->dims[d].value();
-          if (!dim.fold_factor.defined() && prove_true(args[d + 1] == dim.bounds.min)) {
-            // This argument is equal to the default value, and we know it is in bounds.
-            args[d + 1] = expr();
-          } else if (dim.fold_factor.defined() && prove_true(args[d + 1] == 0)) {
+          // The default value of a folded dimension is 0, not the min. We may not know if the dimension is folded or not.
+          const bool maybe_folded = dim.fold_factor.defined() && !is_constant(dim.fold_factor, dim::unfolded);
+          const bool maybe_unfolded = !dim.fold_factor.defined() || !prove_true(dim.fold_factor < dim::unfolded);
+          if ((!maybe_folded || prove_true(args[d + 1] == 0)) &&
+              (!maybe_unfolded || prove_true(args[d + 1] == dim.bounds.min))) {
             // This argument is equal to the default value, and we know it is in bounds.
             args[d + 1] = expr();
           } else if (prove_constant_true(dim.is_broadcast())) {
diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 7341fe1..f3e539a 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -443,11 +443,13 @@ public:
         if (!did_overlapped_fold && !slides_in_other_loop(output, loop)) {
           expr fold_factor =
               constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds, expr_alignment).max, loop);
-          if (fold_factor.defined()) {
-            // Align the fold factor to the loop step size, so it doesn't try to crop across a folding boundary.
-            expr overlap = simplify(
-                constant_upper_bound(bounds_of(cur_bounds_d.max - new_min + 1, expr_bounds, expr_alignment).max),
-                expr_bounds);
+          // Align the fold factor to the loop step size, so it doesn't try to crop across a folding boundary.
+          expr overlap =
+              simplify(constant_upper_bound(bounds_of(cur_bounds_d.max - new_min + 1, expr_bounds, expr_alignment).max),
+                  expr_bounds);
+          // If the bounds increase by more than their extent, we produce more than the bounds.
+          if (fold_factor.defined()) fold_factor = simplify(max(fold_factor, overlap), expr_bounds, expr_alignment);
+          if (fold_factor.defined() && is_finite(fold_factor)) {
             vector_at(fold_factors[output], d) = {fold_factor, overlap, loop.loop_id};
             did_overlapped_fold = true;
           }
-- 
2.43.0


From b26babe78c0dd2973e3649aa14696b9c40345b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:12 +0000
Subject: [PATCH 40/76] fix: aliases of folded buffers check the fold factor if
 the strides are not constrained

---
 slinky/builder/optimizations.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index fde2f5d..ccd33bd 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -424,18 +424,19 @@ class copy_aliaser : public stmt_mutator {
       } else if (!alloc_has_stride) {
         // The allocation doesn't care what the strides are.
       } else if (!target_has_stride) {
-        if (!alloc_info.dims[d].stride.defined()) continue;
-        int target_d = alias.permutation[d];
-        if (target_d < static_cast<int>(target_stride.size())) {
-          expr& target_stride_d = target_stride[target_d];
-          if (target_stride_d.defined() && !prove_true(target_stride_d == alloc_info.dims[d].stride)) {
-            // We tried to set the same dimension to two different strides.
+        if (alloc_info.dims[d].stride.defined()) {
+          int target_d = alias.permutation[d];
+          if (target_d < static_cast<int>(target_stride.size())) {
+            expr& target_stride_d = target_stride[target_d];
+            if (target_stride_d.defined() && !prove_true(target_stride_d == alloc_info.dims[d].stride)) {
+              // We tried to set the same dimension to two different strides.
+              return false;
+            }
+            target_stride_d = alloc_info.dims[d].stride;
+          } else if (!prove_true(alloc_info.dims[d].stride == 0)) {
+            // This dimension must have stride 0, or we can't alias an implicit broadcast.
             return false;
           }
-          target_stride_d = alloc_info.dims[d].stride;
-        } else if (!prove_true(alloc_info.dims[d].stride == 0)) {
-          // This dimension must have stride 0, or we can't alias an implicit broadcast.
-          return false;
         }
       } else {
         // There are strides on both the allocation and the target, they must be equal.
-- 
2.43.0


From f0bf7e97d55b6454b7b5f983463d8c3c202bcc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:53 +0000
Subject: [PATCH 41/76] fix: do not slide buffers with bounds that depend on
 the loop via other buffers

---
 slinky/builder/slide_and_fold_storage.cc | 62 ++++++++++++++++++++++--
 1 file changed, 59 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index f3e539a..8fe19c8 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -1,5 +1,6 @@
 #include "slinky/builder/slide_and_fold_storage.h"
 
+#include <algorithm>
 #include <cassert>
 #include <cstddef>
 #include <cstdlib>
@@ -166,6 +167,28 @@ expr where_true_upper_bound(const expr& condition, var x, const expr& initial_gu
   return result;
 }
 
+// Check if an expression depends on the bounds of a dimension of a buffer.
+class bounds_dependency : public recursive_node_visitor {
+  var sym;
+  int dim;
+
+public:
+  bounds_dependency(var sym, int dim) : sym(sym), dim(dim) {}
+  bool found = false;
+
+  void visit(const variable* op) override {
+    found = found ||
+            (op->sym == sym && op->dim == dim && (op->field == buffer_field::min || op->field == buffer_field::max));
+  }
+};
+
+bool depends_on_bounds(const interval_expr& x, var sym, int dim) {
+  bounds_dependency v(sym, dim);
+  if (x.min.defined()) x.min.accept(&v);
+  if (x.max.defined()) x.max.accept(&v);
+  return v.found;
+}
+
 // Try to find cases where we can do "sliding window" or "line buffering" optimizations. When there
 // is a producer that is consumed by a stencil operation in a loop, the producer can incrementally produce
 // only the values required by the next iteration, and re-use the rest of the values from the previous iteration.
@@ -228,6 +251,9 @@ public:
     // Unique loop ID.
     int loop_id = -1;
 
+    // The dimensions of buffers declared in this loop, and of buffers cropped in this loop.
+    std::vector<std::pair<var, int>> decls, crops;
+
     bool add_synchronization() {
       if (prove_true(sync_stages + 1 >= max_workers)) {
         // It's pointless to add more stages to the loop, because we can't run then in parallel anyways, it would just
@@ -341,11 +367,25 @@ public:
     return expr();
   }
 
+  // Returns true if `bounds` depends on the bounds of any of `buffers`, other than `output`.
+  static bool depends_on_any_bounds(
+      var output, const interval_expr& bounds, const std::vector<std::pair<var, int>>& buffers) {
+    return std::any_of(buffers.begin(), buffers.end(), [&](const std::pair<var, int>& i) {
+      return i.first != output && depends_on_bounds(bounds, i.first, i.second);
+    });
+  }
+
   // Returns true if a dimension of `bounds` other than `d` includes regions not included by the previous iteration of
   // the loop.
-  bool other_dims_change(const box_expr& bounds, int d, const loop_info& loop) {
+  bool other_dims_change(var output, const box_expr& bounds, int d, const loop_info& loop) {
     for (int i = 0; i < static_cast<int>(bounds.size()); ++i) {
-      if (i == d || !depends_on(bounds[i], loop.sym).any()) continue;
+      if (i == d) continue;
+      if (depends_on_any_bounds(output, bounds[i], loop.decls) ||
+          depends_on_any_bounds(output, bounds[i], loop.crops)) {
+        // These bounds may depend on the loop, but we don't know how.
+        return true;
+      }
+      if (!depends_on(bounds[i], loop.sym).any()) continue;
       interval_expr cur = simplify(bounds[i], expr_bounds, expr_alignment);
       interval_expr prev = {
           substitute(cur.min, loop.sym, expr(loop.sym) - loop.step),
@@ -426,7 +466,7 @@ public:
         continue;
       }
 
-      if (other_dims_change(*bounds, d, loop)) {
+      if (depends_on_any_bounds(output, (*bounds)[d], loop.decls) || other_dims_change(output, *bounds, d, loop)) {
         // The overlap in this dimension was not computed by the previous iteration of the loop.
         continue;
       }
@@ -594,7 +634,12 @@ public:
 
       slide_and_fold_buffer(op->sym, op->body);
 
+      const std::size_t outer_crops = loops.back().crops.size();
+      for (int d = 0; d < static_cast<int>(op->bounds.size()); ++d) {
+        if (op->bounds[d].min.defined() || op->bounds[d].max.defined()) loops.back().crops.push_back({op->sym, d});
+      }
       stmt body = mutate(op->body);
+      loops.back().crops.resize(outer_crops);
       if (buffer_bounds[op->sym]) {
         // If we folded something, the bounds required may have shrank, update the crop.
         box_expr new_bounds = *buffer_bounds[op->sym];
@@ -619,7 +664,9 @@ public:
 
       slide_and_fold_buffer(op->sym, op->body);
 
+      loops.back().crops.push_back({op->sym, op->dim});
       stmt body = mutate(op->body);
+      loops.back().crops.pop_back();
       interval_expr new_bounds = (*buffer_bounds[op->sym])[op->dim];
 
       if (body.same_as(op->body) && new_bounds.same_as(op->bounds)) {
@@ -631,6 +678,15 @@ public:
     buffer_bounds = std::move(saved_buffer_bounds);
   }
 
+  void visit(const make_buffer* op) override {
+    const std::size_t outer_decls = loops.back().decls.size();
+    for (int d = 0; d < static_cast<int>(op->dims.size()); ++d) {
+      loops.back().decls.push_back({op->sym, d});
+    }
+    stmt_mutator::visit(op);
+    loops.back().decls.resize(outer_decls);
+  }
+
   void visit(const slice_buffer* op) override {
     std::optional<box_expr> bounds = buffer_bounds[op->src];
     if (bounds) {
-- 
2.43.0


From 5ca1d2dfd3184ef98199d1b5cb741d7146c65b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:01 +0000
Subject: [PATCH 42/76] fix: sliding does not compute the gaps between what
 iterations require

---
 slinky/builder/slide_and_fold_storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 8fe19c8..669284c 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -479,6 +479,10 @@ public:
         // so we can incrementally compute only the newly required bounds.
         expr old_min = cur_bounds_d.min;
         expr new_min = simplify(prev_bounds_d.max + 1, expr_bounds, expr_alignment);
+        if (!prove_true(new_min >= old_min, expr_bounds, expr_alignment)) {
+          // There may be a gap between the bounds of two iterations, which is not required.
+          new_min = simplify(max(new_min, old_min), expr_bounds, expr_alignment);
+        }
 
         if (!did_overlapped_fold && !slides_in_other_loop(output, loop)) {
           expr fold_factor =
-- 
2.43.0


From ef21845d89a42c66e0e962f3023a06eab9a1a6c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:59 +0000
Subject: [PATCH 43/76] fix: loop invariants of a loop may consume buffers via
 the base of another buffer

---
 slinky/builder/simplify.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 84cf231..b7ce696 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1296,6 +1296,10 @@ public:
   // Find all buffers accessed in `s`, adding them, and all the aliases of them, to `bufs`.
   void buffers_accessed_via_aliases(const stmt& s, bool consumed, std::set<var>& bufs) {
     std::vector<var> raw = find_buffer_dependencies(s, consumed, !consumed);
+    for (var i : find_dependencies(s)) {
+      // The address of this buffer might be the base of another buffer, which may be consumed or produced.
+      if (depends_on(s, i).buffer_base) raw.push_back(i);
+    }
     for (var i : raw) {
       while (i.defined()) {
         bufs.insert(i);
-- 
2.43.0


From 34ba04c2882f3086c090fa756f59f276a952de81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:25 +0000
Subject: [PATCH 44/76] fix: do not fold an allocation in the loop that
 contains it

---
 slinky/builder/slide_and_fold_storage.cc | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 669284c..112ae3f 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -213,6 +213,8 @@ public:
     bool is_folded() const { return factor.defined() && !is_positive_infinity(factor); }
   };
   symbol_map<std::vector<dim_fold_info>> fold_factors;
+  // The innermost loop each buffer is allocated in.
+  symbol_map<int> allocated_in;
 
   static std::vector<dim_fold_info> get_dim_fold_info(const std::vector<dim_expr>& dims) {
     std::vector<dim_fold_info> info(dims.size(), dim_fold_info());
@@ -334,6 +336,7 @@ public:
     auto set_buffer_bounds = set_value_in_scope(buffer_bounds, op->sym, bounds);
     // Initialize the fold factors.
     auto set_fold_factors = set_value_in_scope(fold_factors, op->sym, get_dim_fold_info(op->dims));
+    auto set_allocated_in = set_value_in_scope(allocated_in, op->sym, loops.back().loop_id);
     stmt body = mutate(op->body);
 
     // When we constructed the pipeline, the buffer dimensions were set to buffer_* calls.
@@ -427,6 +430,10 @@ public:
     }
 
     loop_info& loop = loops.back();
+    if (allocated_in.lookup(output, -1) == loop.loop_id) {
+      // Each iteration of this loop has its own allocation of this buffer.
+      return;
+    }
     std::optional<box_expr>& bounds = buffer_bounds[output];
     if (!bounds) return;
 
-- 
2.43.0


From 03f06fff033cd29473f590dc531eef31f8e40009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:31 +0000
Subject: [PATCH 45/76] fix: fold factors are positive

---
 slinky/builder/slide_and_fold_storage.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 112ae3f..1269c24 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -364,6 +364,11 @@ public:
   expr constant_fold_factor(expr extent_bound, const loop_info& loop) {
     expr fold_factor = simplify(std::move(extent_bound), expr_bounds, expr_alignment);
     fold_factor = simplify(constant_upper_bound(fold_factor), expr_bounds, expr_alignment);
+    auto constant = as_constant(fold_factor);
+    if (constant && *constant <= 0) {
+      // The buffer is always empty here, but it might not be elsewhere.
+      return expr();
+    }
     if (is_finite(fold_factor) && !depends_on(fold_factor, loop.sym).any()) {
       return fold_factor;
     }
-- 
2.43.0


From 2cb6f3a997a2825d7e19d477aa3e7a053e6a47de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:30 +0000
Subject: [PATCH 46/76] fix: parallel loops with empty bounds do nothing

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index f53cbbf..408db66 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -450,7 +450,7 @@ public:
     interval bounds = eval(op->bounds);
     index_t step = eval(op->step, 1);
     assert(step != 0);
-    std::size_t n = ceil_div(bounds.max - bounds.min + 1, step);
+    std::size_t n = std::max<index_t>(0, ceil_div(bounds.max - bounds.min + 1, step));
 
     if (n == 0) {
       return 0;
-- 
2.43.0


From dad1ca87e602bca4c07e0afd24226781914c27b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 47/76] fix: a failing iteration of a pipelined loop does not
 hang the others

Iterations wait for semaphores that a failed iteration never signals. Waiting
iterations now give up when the loop failed, and no more iterations start.
---
 slinky/runtime/evaluate.cc | 27 +++++++++++++++++++++++----
 slinky/runtime/evaluate.h  |  6 ++++++
 2 files changed, 29 insertions(+), 4 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 408db66..ad296a0 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -258,7 +258,14 @@ public:
       sems[i] = reinterpret_cast<index_t*>(eval(op->args[i * 2 + 0]));
       counts[i] = eval(op->args[i * 2 + 1], 1);
     }
-    context.config->thread_pool->wait_for([=]() {
+    const std::atomic<index_t>* loop_result = context.loop_result;
+    bool failed = false;
+    context.config->thread_pool->wait_for([=, &failed]() {
+      // If an iteration of this loop failed, it may never signal the semaphores.
+      if (loop_result && *loop_result != 0) {
+        failed = true;
+        return true;
+      }
       // Check we can acquire all of the semaphores before acquiring any of them.
       for (std::size_t i = 0; i < sem_count; ++i) {
         if (*sems[i] < counts[i]) return false;
@@ -269,7 +276,7 @@ public:
       }
       return true;
     });
-    return 1;
+    return failed ? 0 : 1;
   }
 
   index_t eval_trace_begin(const call* op) {
@@ -427,6 +434,7 @@ public:
       // The body is a closure, so we know exactly which symbols we need to copy to the new local context.
       context.reserve(parent_context.size());
       context.config = parent_context.config;
+      context.loop_result = parent_context.loop_result;
 
       // Assume that this let_stmt is a closure for this loop. We'll evaluate the values using the parent
       // context, but assign them to our local context.
@@ -481,18 +489,25 @@ public:
       shared_state state = {context, step, bounds.min, op->sym, body, closure};
 
       auto task = [&state, context = eval_context()](index_t i) mutable {
+        // If an iteration already failed, don't start any more.
+        if (state.result != 0) return;
+
         if (context.size() == 0) {
           // We store the context in the lambda so we can initialize it once per worker. This assumes that the thread
           // pool makes a copy of the worker function, which is perhaps sketchy, but it does do that.
           init_context(context, state.context, state.closure, state.sym);
+          context.loop_result = &state.result;
         }
 
         context.set(state.sym, i * state.step + state.min);
         // Evaluate the parallel loop body with our copy of the context.
         index_t result_i = evaluate(state.body, context);
         if (result_i != 0) {
-          index_t zero = 0;
-          state.result.compare_exchange_strong(zero, result_i);
+          // Other iterations may be waiting for this one, use `atomic_call` to wake them up.
+          state.context.config->thread_pool->atomic_call([&]() {
+            index_t zero = 0;
+            state.result.compare_exchange_strong(zero, result_i);
+          });
         }
       };
 
@@ -905,6 +920,10 @@ public:
 
   index_t eval(const check* op) {
     if (!eval(op->condition)) {
+      if (context.loop_result && *context.loop_result != 0) {
+        // We gave up waiting for another iteration that failed, which was already reported.
+        return *context.loop_result;
+      }
       return check_failed(op);
     } else {
       return 0;
diff --git a/slinky/runtime/evaluate.h b/slinky/runtime/evaluate.h
index a18ac71..ceb365d 100644
--- a/slinky/runtime/evaluate.h
+++ b/slinky/runtime/evaluate.h
@@ -1,6 +1,8 @@
 #ifndef SLINKY_RUNTIME_EVALUATE_H
 #define SLINKY_RUNTIME_EVALUATE_H
 
+#include <atomic>
+
 #include "slinky/base/allocator.h"
 #include "slinky/base/util.h"
 #include "slinky/runtime/expr.h"
@@ -84,6 +86,10 @@ public:
   std::size_t size() const { return values_.size(); }
 
   const eval_config* config;
+
+  // If this context is for an iteration of a parallel loop, this is the result of that loop so far. If it is not zero,
+  // an iteration failed, and other iterations must not wait for it.
+  std::atomic<index_t>* loop_result = nullptr;
 };
 
 index_t evaluate(const expr& e, eval_context& context);
-- 
2.43.0


From f39d37caa5796eed51bb1d3f0205d924a862b645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:33 +0000
Subject: [PATCH 48/76] fix: detect allocations that fail without setting the
 base

---
 slinky/runtime/evaluate.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index ad296a0..802d2a6 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -604,6 +604,8 @@ public:
   // Not using SLINKY_NO_STACK_PROTECTOR here because this actually could allocate a lot of memory on the stack.
   index_t eval(const allocate* op) {
     allocated_buffer buffer;
+    // If the allocation fails, the base might not be set.
+    buffer.base = nullptr;
     buffer.elem_size = eval(op->elem_size);
     std::size_t rank = op->dims.size();
     buffer.dims = SLINKY_ALLOCA(dim, rank);
-- 
2.43.0


From 0582f7116c937fc3f5393d45721771ac749c94c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:59:48 +0000
Subject: [PATCH 49/76] fix: intersecting boxes of different rank reads out of
 bounds

---
 slinky/runtime/expr_stmt.cc | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/slinky/runtime/expr_stmt.cc b/slinky/runtime/expr_stmt.cc
index 21b2440..7a5616d 100644
--- a/slinky/runtime/expr_stmt.cc
+++ b/slinky/runtime/expr_stmt.cc
@@ -406,12 +406,9 @@ box_expr operator|(box_expr a, const box_expr& b) {
 
 box_expr operator&(box_expr a, const box_expr& b) {
   a.resize(std::max(a.size(), b.size()));
-  for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) {
+  for (std::size_t i = 0; i < b.size(); ++i) {
     a[i] &= b[i];
   }
-  for (std::size_t i = b.size(); i < a.size(); ++i) {
-    a[i] = b[i];
-  }
   return a;
 }
 
-- 
2.43.0


From 489946b6fac45b11ab8c3afb92ad3734911a66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:02:50 +0000
Subject: [PATCH 50/76] fix: printing a let says where its body ends

---
 slinky/runtime/print.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/print.cc b/slinky/runtime/print.cc
index 064c901..09325af 100644
--- a/slinky/runtime/print.cc
+++ b/slinky/runtime/print.cc
@@ -244,9 +244,9 @@ public:
   void visit(const constant* c) override { *this << c->value; }
 
   void visit(const let* l) override {
-    *this << "let {";
+    *this << "(let {";
     print_vector(l->lets);
-    *this << "} in " << l->body;
+    *this << "} in " << l->body << ")";
   }
 
   void visit(const let_stmt* l) override {
-- 
2.43.0


From a7ba2886474bf17090c77fc45fbab2b062c867e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:07 +0000
Subject: [PATCH 51/76] fix: iterations of a parallel loop do not share folds
 of loops inside it

---
 slinky/builder/slide_and_fold_storage.cc | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 1269c24..6e0c39f 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -749,12 +749,22 @@ public:
   // worker (the folds would race), so such folds are dropped.
   stmt resolve_worker_count(const loop_info& l, const expr& max_workers, stmt result) {
     result = substitute(result, l.worker_count, max_workers);
+    const bool parallel = l.data_parallel && !prove_true(max_workers == loop::serial);
     for (std::optional<std::vector<dim_fold_info>>& i : fold_factors) {
       if (!i) continue;
+      if (parallel && std::none_of(i->begin(), i->end(), [&](const dim_fold_info& j) {
+            return j.is_folded() && j.loop_id == l.loop_id;
+          })) {
+        // The iterations of this loop may use the same elements of this buffer, which is allocated outside this loop. If
+        // it is folded in a loop inside this loop, the iterations would overwrite each other's folds.
+        for (dim_fold_info& j : *i) {
+          if (j.loop_id > l.loop_id) j.factor = expr();
+        }
+      }
       for (dim_fold_info& j : *i) {
         if (!depends_on(j.factor, l.worker_count).any()) continue;
 
-        if (l.data_parallel && !prove_true(max_workers == loop::serial)) {
+        if (parallel) {
           // This is a data parallel loop, remove the folding.
           // TODO: We have other options that would be better:
           // - Move the allocation into the loop.
-- 
2.43.0


From 261386827a61e00c91085fa158459a7dcf59d885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:02 +0000
Subject: [PATCH 52/76] fix: the last stage of a pipelined loop includes
 everything after it

---
 slinky/builder/slide_and_fold_storage.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 6e0c39f..71653be 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -189,6 +189,15 @@ bool depends_on_bounds(const interval_expr& x, var sym, int dim) {
   return v.found;
 }
 
+class remove_stmt : public stmt_mutator {
+  const stmt& s;
+
+public:
+  remove_stmt(const stmt& s) : s(s) {}
+
+  stmt mutate(const stmt& x) override { return x.same_as(s) ? stmt() : stmt_mutator::mutate(x); }
+};
+
 // Try to find cases where we can do "sliding window" or "line buffering" optimizations. When there
 // is a producer that is consumed by a stencil operation in a loop, the producer can incrementally produce
 // only the values required by the next iteration, and re-use the rest of the values from the previous iteration.
@@ -249,6 +258,8 @@ public:
     // We only track the stage we're currently working on. This optional being present indicates the current stage needs
     // synchronization, and the value indicates which stage it is.
     std::optional<int> stage;
+    // The signal at the end of the last stage we've added synchronization for.
+    stmt last_signal;
 
     // Unique loop ID.
     int loop_id = -1;
@@ -297,14 +308,15 @@ public:
     // pipeline stage.
     loop_info& l = loops.back();
     if (l.stage) {
+      // Signal we've done this iteration.
+      l.last_signal = check::make(semaphore_signal(buffer_at(l.semaphores, *l.stage, floor_div(expr(l.sym), l.step))));
       result = block::make({
           // Wait for the previous iteration of this stage to complete.
           // The l.sym here is equal to l.min + x * l.step, so dividing l.sym by l.step we  get floor_div(l.min) + x.
           // This works even if l.min is not divisible by l.step, because it remains constant w.r.t to the loop index.
           check::make(semaphore_wait(buffer_at(l.semaphores, *l.stage, floor_div(expr(l.sym), l.step) - 1))),
           result,
-          // Signal we've done this iteration.
-          check::make(semaphore_signal(buffer_at(l.semaphores, *l.stage, floor_div(expr(l.sym), l.step)))),
+          l.last_signal,
       });
       l.stage = std::nullopt;
     }
@@ -861,6 +873,11 @@ public:
 
     const loop_info& l = loops.back();
     const int stage_count = l.sync_stages;
+    if (!l.data_parallel && stage_count > 1) {
+      // Everything after the last stage is part of the last stage, or another iteration may overwrite what this
+      // iteration has yet to read.
+      body = block::make({remove_stmt(l.last_signal).mutate(body), l.last_signal});
+    }
     expr max_workers = l.data_parallel ? op->max_workers : std::max(1, stage_count);
     stmt result = loop::make(op->sym, max_workers, loop_bounds, op->step, std::move(body));
 
-- 
2.43.0


From 7eebdd07ea21fd56482ec6962ea260c8003f3402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:14 +0000
Subject: [PATCH 53/76] fix: synchronize pipelined loops that slide buffers
 without folding them

---
 slinky/builder/slide_and_fold_storage.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 71653be..518e978 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -586,6 +586,10 @@ public:
 
         expr loop_var = variable::make(loop.sym);
         for (int d = 0; d < static_cast<int>(fold_factors[output]->size()); ++d) {
+          if ((*fold_factors[output])[d].slide_loop_id == loop.loop_id) {
+            // Even if this dimension is not folded, this iteration needs what the previous iteration computed.
+            loop.add_synchronization();
+          }
           if ((*fold_factors[output])[d].loop_id != loop.loop_id) {
             // This is a fold factor for a different loop.
             continue;
-- 
2.43.0


From 6ba500886220e95bb86aee5190a1fcef61acebf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:09 +0000
Subject: [PATCH 54/76] fix: fold factors of pipelined loops include the gaps
 between what iterations compute

---
 slinky/builder/slide_and_fold_storage.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 518e978..48c253a 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -215,6 +215,9 @@ public:
     // Unique ID of the loop this fold is for.
     int loop_id = -1;
 
+    // How much more storage each iteration that may run at the same time needs.
+    expr worker_extent;
+
     // Unique ID of the loop this dimension slides in, if any.
     int slide_loop_id = -1;
 
@@ -485,7 +488,14 @@ public:
         if (slides_in_other_loop(output, loop)) continue;
         expr fold_factor = constant_fold_factor(bounds_of(cur_bounds_d.extent(), expr_bounds).max, loop);
         if (fold_factor.defined()) {
-          vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id};
+          // There may be gaps between the bounds of each iteration.
+          expr step = max(cur_bounds_d.min - prev_bounds_d.min, prev_bounds_d.max - cur_bounds_d.max);
+          expr worker_extent = constant_fold_factor(max(bounds_of(step, expr_bounds, expr_alignment).max, fold_factor), loop);
+          if (!worker_extent.defined()) {
+            if (!prove_true(loop.max_workers == loop::serial)) continue;
+            worker_extent = fold_factor;
+          }
+          vector_at(fold_factors[output], d) = {fold_factor, fold_factor, loop.loop_id, worker_extent};
         }
         continue;
       }
@@ -518,7 +528,7 @@ public:
           // If the bounds increase by more than their extent, we produce more than the bounds.
           if (fold_factor.defined()) fold_factor = simplify(max(fold_factor, overlap), expr_bounds, expr_alignment);
           if (fold_factor.defined() && is_finite(fold_factor)) {
-            vector_at(fold_factors[output], d) = {fold_factor, overlap, loop.loop_id};
+            vector_at(fold_factors[output], d) = {fold_factor, overlap, loop.loop_id, overlap};
             did_overlapped_fold = true;
           }
         }
@@ -615,7 +625,7 @@ public:
             // doable by making the worker index available to the loop body, and using that to grab a slice of this
             // buffer, so each worker can get its own fold.
 
-            fold_factor += (loop.worker_count - 1) * (*fold_factors[output])[d].overlap;
+            fold_factor += (loop.worker_count - 1) * (*fold_factors[output])[d].worker_extent;
             vector_at(fold_factors[output], d).factor = simplify(fold_factor);
           }
         }
-- 
2.43.0


From cf6a685be56ad202756d9901da935c08e4adcd12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:49:19 +0000
Subject: [PATCH 55/76] fix: a buffer allocated outside a pipelined loop was
 folded in a serial loop inside it

The stages of a pipelined loop run concurrently on different iterations, so
they overwrite each other's folds of a buffer that is folded by a loop inside
it, as the iterations of a data parallel loop do.
---
 slinky/builder/slide_and_fold_storage.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/slide_and_fold_storage.cc b/slinky/builder/slide_and_fold_storage.cc
index 48c253a..9bfa88e 100644
--- a/slinky/builder/slide_and_fold_storage.cc
+++ b/slinky/builder/slide_and_fold_storage.cc
@@ -775,10 +775,11 @@ public:
   // worker (the folds would race), so such folds are dropped.
   stmt resolve_worker_count(const loop_info& l, const expr& max_workers, stmt result) {
     result = substitute(result, l.worker_count, max_workers);
-    const bool parallel = l.data_parallel && !prove_true(max_workers == loop::serial);
+    const bool concurrent = !prove_true(max_workers == loop::serial);
+    const bool parallel = l.data_parallel && concurrent;
     for (std::optional<std::vector<dim_fold_info>>& i : fold_factors) {
       if (!i) continue;
-      if (parallel && std::none_of(i->begin(), i->end(), [&](const dim_fold_info& j) {
+      if (concurrent && std::none_of(i->begin(), i->end(), [&](const dim_fold_info& j) {
             return j.is_folded() && j.loop_id == l.loop_id;
           })) {
         // The iterations of this loop may use the same elements of this buffer, which is allocated outside this loop. If
-- 
2.43.0


From 71f38c9dc574d5bbf38c56940c4cc58f5005b104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:56:38 +0000
Subject: [PATCH 56/76] fix: the simplifier dropped needed clamps of crop
 bounds multiplied or divided by a negative constant

A negative factor reverses the order of the bounds, so a bound that is implied
by the buffer's on one side of it says nothing on the other.
---
 slinky/builder/simplify.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index b7ce696..a412a5f 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2019,7 +2019,7 @@ public:
         }
       }
     } else if (const div* xa = x.as<div>()) {
-      if (as_constant(xa->b)) {
+      if (is_positive(xa->b)) {
         // We have T(x / y, b). We can rewrite to T(x, b * y) / y, and if we can eliminate the bound, the whole
         // bound is redundant.
         for (const expr& i : bounds) {
@@ -2030,7 +2030,7 @@ public:
         }
       }
     } else if (const mul* xa = x.as<mul>()) {
-      if (as_constant(xa->b)) {
+      if (is_positive(xa->b)) {
         // We have T(x * y, b). We can do something similar to the above, but we need to be careful because division
         // is not invertible. Since we're looking for bounds, we can use a conservative rounding. If we're looking for
         // redundant mins, we should round up, and redundant maxes should round down.
-- 
2.43.0


From ca8233dc8dac8bb9fe9e3adf3f5172e951bfba48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:16 +0000
Subject: [PATCH 57/76] fix: a let that defines a symbol twice did not restore
 its value

The old values were restored in the order they were saved in, so the symbol
kept the value of its first definition.
---
 slinky/runtime/evaluate.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 802d2a6..5bf4a2f 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -175,7 +175,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse, in case a symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       context.set(op->lets[i].first, old_values[i]);
     }
     return result;
@@ -413,7 +414,8 @@ public:
       old_values[i] = context.set(let.first, eval(let.second));
     }
     index_t result = eval(op->body);
-    for (size_t i = 0; i < size; ++i) {
+    // Restore in reverse, in case a symbol is defined more than once.
+    for (size_t i = size; i-- > 0;) {
       const auto& let = op->lets[i];
       context.set(let.first, old_values[i]);
     }
-- 
2.43.0


From 29defc66f06b21d1b63076eac292c381810b6697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:17 +0000
Subject: [PATCH 58/76] fix: async did not restore the symbol of its task

---
 slinky/runtime/evaluate.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 5bf4a2f..576b635 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -569,7 +569,7 @@ public:
 
     context.reserve(op->sym.id + 1);
     index_t old_sym = 0;
-    if (op->sym.defined()) context.set(op->sym, reinterpret_cast<index_t>(&*task));
+    if (op->sym.defined()) old_sym = context.set(op->sym, reinterpret_cast<index_t>(&*task));
 
     index_t result = eval_with_new_context(op->body);
 
-- 
2.43.0


From cd01273ab5a0e321984e5b4f174afb2d9f8ccbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:17 +0000
Subject: [PATCH 59/76] fix: an in-place crop_buffer evaluated its bounds while
 cropping

The bounds of later dimensions that use the bounds of earlier dimensions of the
same buffer saw them cropped already, unlike when the crop is not in place.
---
 slinky/runtime/evaluate.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 576b635..f78338c 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -726,17 +726,17 @@ public:
 
     std::size_t crop_rank = std::min(op->bounds.size(), buffer->rank);
     interval* old_bounds = SLINKY_ALLOCA(interval, crop_rank);
+    interval* new_bounds = SLINKY_ALLOCA(interval, crop_rank);
 
     void* old_base = buffer->base;
+    // The bounds are in terms of the original buffer, so evaluate all of them before cropping any dimension.
     for (std::size_t d = 0; d < crop_rank; ++d) {
-      slinky::dim& dim = buffer->dims[d];
-      index_t old_min = dim.min();
-      index_t old_max = dim.max();
-      old_bounds[d].min = old_min;
-      old_bounds[d].max = old_max;
-
-      interval bounds = eval(op->bounds[d], {old_min, old_max});
-      buffer->crop(d, bounds.min, bounds.max);
+      const slinky::dim& dim = buffer->dims[d];
+      old_bounds[d] = {dim.min(), dim.max()};
+      new_bounds[d] = eval(op->bounds[d], old_bounds[d]);
+    }
+    for (std::size_t d = 0; d < crop_rank; ++d) {
+      buffer->crop(d, new_bounds[d].min, new_bounds[d].max);
     }
 
     index_t result = eval(op->body);
-- 
2.43.0


From bd30b8b0fbe9d715da1fd3e3c8ebeb4094b0febd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:17 +0000
Subject: [PATCH 60/76] fix: an in-place truncation to more dimensions than a
 buffer has read past its dimensions

---
 slinky/runtime/evaluate.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index f78338c..0d6a00a 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -884,7 +884,8 @@ public:
 
       // In-place truncate, all we need to do is set the rank (and restore it).
       std::size_t old_rank = src_buf->rank;
-      src_buf->rank = op->dims.size();
+      // Dims beyond the rank are broadcasts, which we don't need.
+      src_buf->rank = std::min(old_rank, op->dims.size());
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 31060290ff07786d2a852388248e7a3f4f3767e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:16:15 +0000
Subject: [PATCH 61/76] fix: substitute the symbols in a loop's max_workers

---
 slinky/builder/substitute.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 0a02551..204b1e6 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -489,13 +489,15 @@ void substitutor::visit(const let_stmt* op) { set_result(mutate_let(this, op));
 void substitutor::visit(const loop* op) {
   interval_expr bounds = mutate(op->bounds);
   expr step = mutate(op->step);
+  expr max_workers = mutate(op->max_workers);
   var sym = enter_decl(op->sym);
   stmt body = sym.defined() ? mutate(op->body) : op->body;
   sym = sym.defined() ? sym : op->sym;
-  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) && body.same_as(op->body)) {
+  if (sym == op->sym && bounds.same_as(op->bounds) && step.same_as(op->step) &&
+      max_workers.same_as(op->max_workers) && body.same_as(op->body)) {
     set_result(op);
   } else {
-    set_result(loop::make(sym, op->max_workers, std::move(bounds), std::move(step), std::move(body)));
+    set_result(loop::make(sym, std::move(max_workers), std::move(bounds), std::move(step), std::move(body)));
   }
   exit_decls();
 }
-- 
2.43.0


From 082d9bdd771652793241eb73c90e4b4bc5459ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:26 +0000
Subject: [PATCH 62/76] fix: compare max_workers, storage and is_closure when
 matching statements

---
 slinky/builder/substitute.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 204b1e6..91861e4 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -253,7 +253,12 @@ public:
     }
   }
 
-  void visit(const let_stmt* op) override { visit_let(static_cast<const let_stmt*>(op)); }
+  void visit(const let_stmt* op) override {
+    const let_stmt* el = static_cast<const let_stmt*>(self);
+
+    if (!try_match(el->is_closure, op->is_closure)) return;
+    visit_let(op);
+  }
 
   void visit(const block* op) override {
     const block* bs = static_cast<const block*>(self);
@@ -265,6 +270,7 @@ public:
     const loop* ls = static_cast<const loop*>(self);
 
     if (!try_match(ls->sym, op->sym)) return;
+    if (!try_match(ls->max_workers, op->max_workers)) return;
     if (!try_match(ls->bounds, op->bounds)) return;
     if (!try_match(ls->step, op->step)) return;
     if (!try_match(ls->body, op->body)) return;
@@ -308,6 +314,7 @@ public:
     assert(as);
 
     if (!try_match(as->sym, op->sym)) return;
+    if (!try_match(as->storage, op->storage)) return;
     if (!try_match(as->elem_size, op->elem_size)) return;
     if (!try_match(as->dims, op->dims)) return;
     if (!try_match(as->body, op->body)) return;
-- 
2.43.0


From c90a5e0af1e3a7b0e8a4fb8b0c6f093191d38b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:18:22 +0000
Subject: [PATCH 63/76] fix: restore symbols declared more than once by a let
 in the right order when deshadowing

---
 slinky/builder/optimizations.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index ccd33bd..84b31cc 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1867,7 +1867,12 @@ public:
     return renamed;
   }
 
-  void exit_decls(int n) override { decls.erase(decls.begin() + decls.size() - n, decls.end()); }
+  void exit_decls(int n) override {
+    // The same symbol can be declared more than once by one let, so we need to restore the symbols in reverse order.
+    for (; n > 0; --n) {
+      decls.pop_back();
+    }
+  }
 
   void visit(const loop* op) override {
     interval_expr bounds = mutate(op->bounds);
-- 
2.43.0


From b827b4bb6cce6b8a8f36dd725a3a60b16c4359b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:23:27 +0000
Subject: [PATCH 64/76] fix: do not substitute the metadata of a buffer that
 other buffers still refer to

---
 slinky/builder/simplify.cc | 42 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 10 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index a412a5f..d08524b 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1287,6 +1287,14 @@ public:
     return mutate(body);
   }
 
+  // Attempt to remove all uses of the buffer `buf` by substituting its metadata. Returns nullopt if the result still uses
+  // `buf`, which can happen if we need the metadata of another buffer (e.g. a crop) of `buf`.
+  std::optional<stmt> substitute_buffer_meta(const stmt& body, var buf, var src, const buffer_info& buffer) {
+    stmt result = mutate_with_buffer(nullptr, body, buf, src, buffer);
+    if (depends_on(result, buf).any()) return std::nullopt;
+    return result;
+  }
+
   stmt mutate_with_bounds(stmt body, var v, interval_expr bounds, alignment_type alignment = {}) {
     assert(!vars.contains(v));
     auto set_bounds = set_value_in_scope(vars, v, {std::move(bounds), alignment});
@@ -1678,8 +1686,10 @@ public:
       return;
     } else if (!deps.buffer_data()) {
       // We only needed the buffer meta, not the allocation itself.
-      set_result(mutate_with_buffer(nullptr, op->body, op->sym, std::move(info)));
-      return;
+      if (std::optional<stmt> result = substitute_buffer_meta(op->body, op->sym, info.src, info)) {
+        set_result(std::move(*result));
+        return;
+      }
     }
 
     stmt before, after;
@@ -1782,8 +1792,11 @@ public:
 
     if (can_substitute_buffer(deps)) {
       // We only needed the buffer meta, not the buffer itself.
-      set_result(mutate_with_buffer(nullptr, op->body, op->sym, find_buffer_data_dependency(base), std::move(info)));
-      return;
+      if (std::optional<stmt> result =
+              substitute_buffer_meta(op->body, op->sym, find_buffer_data_dependency(base), info)) {
+        set_result(std::move(*result));
+        return;
+      }
     }
 
     if (const call* bc = as_intrinsic(base, intrinsic::buffer_at)) {
@@ -1899,10 +1912,15 @@ public:
       if (!deps.any()) {
         // This make_buffer is unused.
         return body;
-      } else if (can_substitute_buffer(deps)) {
+      }
+      if (can_substitute_buffer(deps)) {
         // We only needed the buffer meta, not the buffer itself.
-        return mutate_with_buffer(nullptr, body, op->sym, find_buffer_data_dependency(base), info);
-      } else if (changed || !body.same_as(op->body)) {
+        if (std::optional<stmt> result =
+                substitute_buffer_meta(body, op->sym, find_buffer_data_dependency(base), info)) {
+          return *result;
+        }
+      }
+      if (changed || !body.same_as(op->body)) {
         return make_buffer::make(op->sym, base, info.elem_size.value(), info.dim_exprs(), std::move(body));
       } else {
         return stmt(op);
@@ -1938,10 +1956,14 @@ public:
       if (!deps.any()) {
         // This constant_buffer is unused.
         return body;
-      } else if (can_substitute_buffer(deps)) {
+      }
+      if (can_substitute_buffer(deps)) {
         // We only needed the buffer meta, not the buffer itself.
-        return mutate_with_buffer(nullptr, body, op->sym, info);
-      } else if (!body.same_as(op->body)) {
+        if (std::optional<stmt> result = substitute_buffer_meta(body, op->sym, info.src, info)) {
+          return *result;
+        }
+      }
+      if (!body.same_as(op->body)) {
         return constant_buffer::make(op->sym, op->value, std::move(body));
       } else {
         return stmt(op);
-- 
2.43.0


From 4823d87a98934584d061118a46dd9d1a72ead602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:28:18 +0000
Subject: [PATCH 65/76] fix: an in-place truncation did not remove trailing
 broadcasts like other transposes do

---
 slinky/runtime/evaluate.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/slinky/runtime/evaluate.cc b/slinky/runtime/evaluate.cc
index 0d6a00a..836d15d 100644
--- a/slinky/runtime/evaluate.cc
+++ b/slinky/runtime/evaluate.cc
@@ -886,6 +886,7 @@ public:
       std::size_t old_rank = src_buf->rank;
       // Dims beyond the rank are broadcasts, which we don't need.
       src_buf->rank = std::min(old_rank, op->dims.size());
+      remove_trailing_broadcasts(*src_buf);
       index_t result = eval(op->body);
       src_buf->rank = old_rank;
       return result;
-- 
2.43.0


From 2aa244d1e283d2025fa9144e8a08b828fa0eafcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:58 +0000
Subject: [PATCH 66/76] fix: a transpose of a transpose of a substituted buffer
 used the old symbol

---
 slinky/builder/simplify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index d08524b..cd8492b 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2428,7 +2428,7 @@ public:
           }
           // This is a transpose of another transpose. Rewrite this to directly transpose the parent.
           dims = permute(dims, t->dims, transpose::new_dim);
-          src = t->src;
+          src = visit_symbol(t->src);
           src_info = &buffers[src];
           continue;
         }
-- 
2.43.0


From 89835d7c7b8c9c71814d3081976db90bffe4f3d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:31:56 +0000
Subject: [PATCH 67/76] fix: a make_buffer of a buffer of unknown rank was not
 truncated when it became a crop or slice

---
 slinky/builder/simplify.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index cd8492b..e04eda1 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1815,7 +1815,7 @@ public:
       expr elem_size = info.elem_size.value();
 
       auto make_truncate = [&](var src, int rank, stmt body) {
-        if (src_info && src_info->rank <= rank) {
+        if (src_info && src_info->rank >= 0 && src_info->rank <= rank) {
           // We know all the dims, and the rank is already what we want to truncate to.
           return body;
         }
-- 
2.43.0


From d8830ce0699d9a2c47abfeacce7828e431e9507f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:33:51 +0000
Subject: [PATCH 68/76] fix: merging nested crops did not account for the
 implicit clamp of the outer crop

---
 slinky/builder/simplify.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index e04eda1..0aeeae6 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2159,13 +2159,24 @@ public:
     return deps.buffer_output || deps.buffer_src || deps.buffer_dst || deps.buffer_bounds;
   }
 
+  // The bounds of a crop are implicitly clamped to the bounds of the buffer being cropped.
+  static interval_expr effective_crop_bounds(interval_expr bounds, var src, int dim) {
+    if (bounds.min.defined()) bounds.min = max(bounds.min, buffer_min(src, dim));
+    if (bounds.max.defined()) bounds.max = min(bounds.max, buffer_max(src, dim));
+    return bounds;
+  }
+
   void visit_crop(const base_stmt_node* op, var op_sym, var op_src, box_expr op_bounds, stmt op_body) {
     std::optional<buffer_info> info = get_buffer_info(op_src);
 
     while (info && info->decl.defined() && info->loop_depth == 0) {
       if (const crop_buffer* c = info->decl.as<crop_buffer>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->bounds);
+        box_expr c_bounds(c->bounds.size());
+        for (std::size_t d = 0; d < c->bounds.size(); ++d) {
+          c_bounds[d] = effective_crop_bounds(c->bounds[d], c->src, d);
+        }
+        auto c_dims = make_dims_from_bounds(c_bounds);
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
@@ -2177,7 +2188,7 @@ public:
         op = nullptr;
       } else if (const crop_dim* c = info->decl.as<crop_dim>()) {
         // Substitute the outer crop bounds into this crop's bounds.
-        auto c_dims = make_dims_from_bounds(c->dim, c->bounds);
+        auto c_dims = make_dims_from_bounds(c->dim, effective_crop_bounds(c->bounds, c->src, c->dim));
         for (interval_expr& i : op_bounds) {
           i = substitute_buffer(i, op_src, c_dims, c->sym);
         }
-- 
2.43.0


From d1d06213ed432115fcfe46f25ef04a63a5b91972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:37 +0000
Subject: [PATCH 69/76] fix: comparing constant buffers without data crashed

---
 slinky/builder/simplify.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 0aeeae6..e05c2b8 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -66,7 +66,12 @@ bool buffers_equal(const raw_buffer& a, const raw_buffer& b) {
   for_each_contiguous_slice(
       a,
       [&](index_t slice_extent, const void* a, const void* b) {
-        equal = equal && std::memcmp(a, b, slice_extent * elem_size) == 0;
+        if (a && b) {
+          equal = equal && std::memcmp(a, b, slice_extent * elem_size) == 0;
+        } else {
+          // The buffers may not have any data, e.g. if they are an out of bounds slice of a constant.
+          equal = equal && a == b;
+        }
       },
       b);
   return equal;
-- 
2.43.0


From b5402302dfbd2e2e0ebafba8fe0990b29eceec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:09 +0000
Subject: [PATCH 70/76] fix: dropping the loop variable of a crop left
 undefined operands in the bounds

---
 slinky/builder/simplify.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index e05c2b8..f5222db 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -1326,7 +1326,7 @@ public:
     }
   }
 
-  // Substitute expr() in for loop_var only in crop bounds within s, and only if those crop bounds do not crop a folded
+  // Remove bounds that depend on loop_var only in crop bounds within s, and only if those crop bounds do not crop a folded
   // dimension.
   stmt remove_loop_var_in_crop_bounds(const stmt& s, var loop_var) {
     class m : public node_mutator {
@@ -1347,7 +1347,11 @@ public:
           // This dimension is folded, don't drop crops.
           return bounds;
         }
-        return substitute(bounds, loop_var, expr());
+        // If any part of a bound depends on the loop variable, we don't know anything about that bound.
+        interval_expr result = bounds;
+        if (depends_on(result.min, loop_var).any()) result.min = expr();
+        if (depends_on(result.max, loop_var).any()) result.max = expr();
+        return result;
       }
 
       void visit(const crop_dim* op) override {
-- 
2.43.0


From e096b68823853746ca4ae8d210c289bf015e9c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:43:07 +0000
Subject: [PATCH 71/76] fix: a clamp of the min of a crop was removed when it
 was not redundant

---
 slinky/builder/simplify.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index f5222db..204281d 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2139,8 +2139,9 @@ public:
         // just take the new min.
         result.min = ctx.matched(w);
       }
-    } else if (match(ctx, x + min(y, z), result.min)) {
-      // This is the same as above, but the select was simplified.
+    } else if (match(ctx, x + min(y, z), result.min) && prove_true(ctx.matched(x) > 0)) {
+      // This is the same as above, but the select was simplified. If y is less than z, x + y and x + z are both greater
+      // than y, so the crop is empty.
       if (is_variable(ctx.matched(y), buf, buffer_field::max, dim) || match(ctx.matched(y), result.max)) {
         result.min = mutate(ctx.matched(x) + ctx.matched(z));
       } else if (is_variable(ctx.matched(z), buf, buffer_field::max, dim) || match(ctx.matched(z), result.max)) {
-- 
2.43.0


From eead2b682601f5bba222638754792c78a4cef39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:45:06 +0000
Subject: [PATCH 72/76] fix: the simplifier read dimension -1 of a buffer that
 is transposed with a new dimension

---
 slinky/builder/simplify.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/simplify.cc b/slinky/builder/simplify.cc
index 204281d..8734011 100644
--- a/slinky/builder/simplify.cc
+++ b/slinky/builder/simplify.cc
@@ -2485,6 +2485,8 @@ public:
       for (size_t i = 0; i < dims.size(); ++i) {
         if (0 <= dims[i] && dims[i] < static_cast<int>((*src_info)->dims.size())) {
           sym_info.dims[i] = (*src_info)->dims[dims[i]];
+        } else if (dims[i] == transpose::new_dim) {
+          sym_info.dims[i] = dim_expr{point(expr(0)), 0, dim::unfolded};
         } else {
           sym_info.dims[i] = buffer_dim(src, dims[i]);
         }
-- 
2.43.0


From 780b87644a1cdb75b7c9781c190de41818d6006b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:07:24 +0000
Subject: [PATCH 73/76] fix: substitution skipped everything inside an async
 that does not declare a symbol

---
 slinky/builder/substitute.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 91861e4..1b28de3 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -660,6 +660,17 @@ void substitutor::visit(const crop_dim* op) {
 }
 
 void substitutor::visit(const async* op) {
+  if (!op->sym.defined()) {
+    // This async does not declare a symbol.
+    stmt task = mutate(op->task);
+    stmt body = mutate(op->body);
+    if (task.same_as(op->task) && body.same_as(op->body)) {
+      set_result(op);
+    } else {
+      set_result(async::make(var(), std::move(task), std::move(body)));
+    }
+    return;
+  }
   var sym = enter_decl(op->sym);
   stmt task = sym.defined() ? mutate(op->task) : op->task;
   stmt body = sym.defined() ? mutate(op->body) : op->body;
-- 
2.43.0


From 9e4cb28dd9a5da4a133ce701371998b2c6abe55a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:10:52 +0000
Subject: [PATCH 74/76] fix: substitute_buffer captured symbols of the
 replacement that lets declare

---
 slinky/builder/substitute.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/slinky/builder/substitute.cc b/slinky/builder/substitute.cc
index 1b28de3..9fcc62d 100644
--- a/slinky/builder/substitute.cc
+++ b/slinky/builder/substitute.cc
@@ -862,7 +862,19 @@ public:
   buffer_substitutor(var target, expr elem_size, span<const dim_expr> dims, var def = var())
       : target(target), elem_size(elem_size), dims(dims), def(def) {}
 
-  var enter_decl(var x) override { return x != target ? x : var(); }
+  // True if what is substituted for the metadata of the target uses `x`.
+  bool replacement_depends_on(var x) const {
+    if (def.defined() && x == def) return true;
+    if (depends_on(elem_size, x).any()) return true;
+    for (const dim_expr& i : dims) {
+      if (depends_on(i.bounds, x).any() || depends_on(i.stride, x).any() || depends_on(i.fold_factor, x).any()) {
+        return true;
+      }
+    }
+    return false;
+  }
+
+  var enter_decl(var x) override { return x != target && !replacement_depends_on(x) ? x : var(); }
 
   stmt mutate(const stmt& s) override { SLINKY_UNREACHABLE << "can't substitute buffer into stmt"; }
   dim_expr mutate(const dim_expr& e) { return {mutate(e.bounds), mutate(e.stride), mutate(e.fold_factor)}; }
-- 
2.43.0


From 4171c0e0d316b7bc7eb8784e9aaa7b9bc55e42aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:16:10 +0000
Subject: [PATCH 75/76] fix: expressions that call functions or validate
 buffers were classified as pure

---
 slinky/runtime/depends_on.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/slinky/runtime/depends_on.cc b/slinky/runtime/depends_on.cc
index 5918f40..99cd57a 100644
--- a/slinky/runtime/depends_on.cc
+++ b/slinky/runtime/depends_on.cc
@@ -99,6 +99,16 @@ public:
         if (op->args[i].defined()) op->args[i].accept(this);
       }
     } else {
+      switch (op->intrinsic) {
+      case intrinsic::abs:
+      case intrinsic::negative_infinity:
+      case intrinsic::positive_infinity:
+      case intrinsic::indeterminate:
+      case intrinsic::and_then:
+      case intrinsic::or_else: break;
+      // The value of anything else may change without the values of the arguments changing.
+      default: is_pure = false; break;
+      }
       recursive_node_visitor::visit(op);
     }
   }
-- 
2.43.0


From 71687f04bd4f1ec21b8aae28dc2829f05ff715a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:20:11 +0000
Subject: [PATCH 76/76] fix: buffers were freed early in a task of an async
 while its body may still use them

---
 slinky/builder/optimizations.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/slinky/builder/optimizations.cc b/slinky/builder/optimizations.cc
index 84b31cc..f027af7 100644
--- a/slinky/builder/optimizations.cc
+++ b/slinky/builder/optimizations.cc
@@ -1598,6 +1598,8 @@ public:
   void visit(const copy_stmt* op) override { visit_terminal(stmt(op)); }
   void visit(const check* op) override { visit_terminal(stmt(op)); }
   void visit(const let_stmt* op) override { visit_terminal(stmt(op)); }
+  // The task and the body of an async may run at the same time, so we can't free a buffer in either of them.
+  void visit(const async* op) override { visit_terminal(stmt(op)); }
 
   // Remaining functions collect all the buffer symbols which refer the original allocate
   // symbol or its dependencies.
-- 
2.43.0

