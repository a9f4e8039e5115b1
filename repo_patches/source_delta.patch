From 91ef99698be9f1b4741ae34a2162760c850a5e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 01/15] fix: take the new reference before releasing the old
 one in ptr copy assignment

Assigning a handle to itself, or from a handle stored inside the node it is the
last owner of, released the node before reading and incrementing it.
---
 sdd/mem/ptr.hh | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/sdd/mem/ptr.hh b/sdd/mem/ptr.hh
index 9594e20..5886bd1 100644
--- a/sdd/mem/ptr.hh
+++ b/sdd/mem/ptr.hh
@@ -97,16 +97,19 @@ public:
   noexcept
   {
     assert(other.x_ != nullptr); // Don't copy from an already moved ptr.
-    if (x_ != nullptr)
+    // Take the new reference before releasing the current one: other may be *this, or it may be
+    // stored in the data that is about to be deleted.
+    Unique* const previous = x_;
+    x_ = other.x_;
+    x_->increment_reference_counter();
+    if (previous != nullptr)
     {
-      x_->decrement_reference_counter();
-      if (x_->is_not_referenced())
+      previous->decrement_reference_counter();
+      if (previous->is_not_referenced())
       {
-        deletion_handler<Unique>()(x_);
+        deletion_handler<Unique>()(previous);
       }
     }
-    x_ = other.x_;
-    x_->increment_reference_counter();
     return *this;
   }
 
-- 
2.43.0


From 5f88b5b1fda25abe19693d3e63d112ac03fbe5fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 02/15] fix: clear the LRU list together with the cache entries

After a reset, evictions used the entries destroyed by the reset.
---
 sdd/mem/cache.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sdd/mem/cache.hh b/sdd/mem/cache.hh
index e37a761..74aad60 100644
--- a/sdd/mem/cache.hh
+++ b/sdd/mem/cache.hh
@@ -270,6 +270,7 @@ public:
                                 x->~cache_entry_type();
                                 pool_.deallocate(x);
                               });
+    lru_list_.clear();
   }
 
   /// @brief Get the number of cached operations.
-- 
2.43.0


From 60c2c54643a3dda3707222ba4c0d3dee5843a0a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 03/15] fix: refuse to initialize a second configuration using
 live values

The guard tested the wrong global: two configurations sharing a type of values
overwrote the values manager of each other.
---
 sdd/manager.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/manager.hh b/sdd/manager.hh
index 2fe1bc8..92b6553 100644
--- a/sdd/manager.hh
+++ b/sdd/manager.hh
@@ -36,7 +36,7 @@ manager<C>
 init(const C& configuration = C{})
 {
   using values_type = typename C::Values;
-  if (*global_ptr<C>() == nullptr and *global_ptr<values_type>() == nullptr)
+  if (*global_ptr<C>() == nullptr and *global_values_ptr<values_type>() == nullptr)
   {
     auto vm_ptr = std::make_unique<values_manager<values_type>>(configuration);
     *global_values_ptr<values_type>() = vm_ptr.get();
-- 
2.43.0


From 647a1ec649429e86d80e4af843a959dfa09b4b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 04/15] fix: flat_set::insert returns an iterator on the
 unified set

The returned iterator pointed into a destroyed temporary.
---
 sdd/values/flat_set.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sdd/values/flat_set.hh b/sdd/values/flat_set.hh
index 158caba..139d605 100644
--- a/sdd/values/flat_set.hh
+++ b/sdd/values/flat_set.hh
@@ -96,7 +96,7 @@ public:
       fs.shrink_to_fit();
       ptr_ = create(std::move(fs));
     }
-    return insertion;
+    return {ptr_->data().find(x), insertion.second};
   }
 
   /// @brief Returns an iterator pointing to the first element in the flat set.
-- 
2.43.0


From 8fa8173cafff6eb0526bbc882f4f6ff4993d3fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 05/15] fix: FORCE keeps the order with the smallest span

The smallest span was never updated: the last order was always returned.
---
 sdd/order/strategies/force.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/strategies/force.hh b/sdd/order/strategies/force.hh
index 59e5463..f44d447 100644
--- a/sdd/order/strategies/force.hh
+++ b/sdd/order/strategies/force.hh
@@ -60,7 +60,7 @@ public:
 
     // Keep a copy of the order with the smallest span.
     auto best_order = std::vector<std::reference_wrapper<vertex_type>>{sorted_vertices};
-    const auto smallest_span = std::numeric_limits<double>::max();
+    auto smallest_span = std::numeric_limits<double>::max();
 
     while (iterations-- != 0)
     {
@@ -100,6 +100,7 @@ public:
       {
         // We keep the order that minimizes the span.
         best_order = sorted_vertices;
+        smallest_span = span;
       }
     }
 
-- 
2.43.0


From cf1871cf4f23ee44cf436518dba446279b9d3efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:33:17 +0000
Subject: [PATCH 06/15] fix: order::flat keeps the position of the output
 iterator across hierarchies

The advanced iterator was lost when leaving a nested order: identifiers were
overwritten with any output iterator which is not an inserter.
---
 sdd/order/order.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 819fd1f..896fd16 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -214,21 +214,22 @@ private:
   /// @brief Recursion on the order to get flat nodes
   template <typename OutputIterator>
   static
-  void
+  OutputIterator
   flat_impl(OutputIterator it, const order_node<C>* current)
   {
     if (current != nullptr)
     {
       if (current->nested())
       {
-        flat_impl(it, current->nested());
+        it = flat_impl(it, current->nested());
       }
       else
       {
         *it++ = current->identifier().user();
       }
-      flat_impl(it, current->next());
+      it = flat_impl(it, current->next());
     }
+    return it;
   }
 
   /// @brief Construct with a shallow copy an already existing order.
-- 
2.43.0


From 34bd4682d0774b9140970563ceeeb2dddf527f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:34:17 +0000
Subject: [PATCH 07/15] fix: bitset comparison and hash no longer overflow with
 more than 64 values

Both went through to_ulong() in noexcept functions: the program was terminated
when a larger bitset contained a high value.
---
 sdd/values/bitset.hh | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sdd/values/bitset.hh b/sdd/values/bitset.hh
index 30478c2..7a9a304 100644
--- a/sdd/values/bitset.hh
+++ b/sdd/values/bitset.hh
@@ -78,7 +78,19 @@ public:
   operator<(const bitset& lhs, const bitset& rhs)
   noexcept
   {
-    return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    if (Size <= std::numeric_limits<unsigned long>::digits)
+    {
+      return lhs.content_.to_ulong() < rhs.content_.to_ulong();
+    }
+    // to_ulong() can't represent the content.
+    for (std::size_t i = Size; i-- > 0;)
+    {
+      if (lhs.content_[i] != rhs.content_[i])
+      {
+        return rhs.content_[i];
+      }
+    }
+    return false;
   }
 
   bitset&
@@ -214,7 +226,7 @@ struct hash<sdd::values::bitset<Size>>
   operator()(const sdd::values::bitset<Size>& b)
   const noexcept
   {
-    return sdd::hash::seed(b.content_.to_ulong());
+    return sdd::hash::seed(std::hash<std::bitset<Size>>()(b.content_));
   }
 };
   
-- 
2.43.0


From caa02d2d136c2e6d5cf6eb79d5eb091eef8403ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:35:49 +0000
Subject: [PATCH 08/15] fix: regroup locals in an intersection of homomorphisms
 only if they are selectors

Otherwise, the images of different arcs which intersect were lost, both at
construction and by rewrite().
---
 sdd/hom/intersection.hh | 10 +++++++++-
 sdd/hom/rewrite.hh      |  9 ++++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/sdd/hom/intersection.hh b/sdd/hom/intersection.hh
index 0948ffd..f8ac756 100644
--- a/sdd/hom/intersection.hh
+++ b/sdd/hom/intersection.hh
@@ -144,10 +144,18 @@ struct intersection_builder
   }
 
   /// @brief Regroup locals.
+  ///
+  /// Only selectors can be regrouped: the intersection of the images of two arcs which have
+  /// different successors would be lost otherwise.
   void
-  operator()(const _local<C>& l, const homomorphism<C>&)
+  operator()(const _local<C>& l, const homomorphism<C>& h)
   const
   {
+    if (not l.h.selector())
+    {
+      operands_.insert(h);
+      return;
+    }
     auto insertion = locals_.emplace(l.target, hom_list_type{});
     insertion.first->second.emplace_back(l.h);
   }
diff --git a/sdd/hom/rewrite.hh b/sdd/hom/rewrite.hh
index 87c38bf..bf39567 100644
--- a/sdd/hom/rewrite.hh
+++ b/sdd/hom/rewrite.hh
@@ -45,10 +45,13 @@ struct rewriter
   using hom_list_type = std::deque<homomorphism<C>>;
 
   /// @brief Get the F, G and L parts of a set of homomorphisms.
+  ///
+  /// The L part of an intersection must contain only selectors (see intersection_builder).
   template <typename InputIterator>
   static
   std::tuple<hom_list_type, hom_list_type, hom_list_type, bool>
-  partition(const order<C>& o, InputIterator begin, InputIterator end)
+  partition( const order<C>& o, InputIterator begin, InputIterator end
+           , bool only_selectors_in_L = false)
   {
     bool has_id = false;
     hom_list_type F;
@@ -64,7 +67,7 @@ struct rewriter
       {
         F.push_back(*begin);
       }
-      else if (mem::is<_local<C>>(*begin))
+      else if (mem::is<_local<C>>(*begin) and (not only_selectors_in_L or begin->selector()))
       {
         const _local<C>& l = mem::variant_cast<const _local<C>>(**begin);
         L.push_back(l.h);
@@ -115,7 +118,7 @@ struct rewriter
   operator()(const _intersection<C>& s, const homomorphism<C>& h, const order<C>& o)
   const
   {
-    auto&& p = partition(o, s.begin(), s.end());
+    auto&& p = partition(o, s.begin(), s.end(), true);
     auto& F = std::get<0>(p);
     auto& G = std::get<1>(p);
     auto& L = std::get<2>(p);
-- 
2.43.0


From 2a4db1e2a87480857fd1890e60232eb6505b9b91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:40 +0000
Subject: [PATCH 09/15] fix: report nodes with more arcs than the configured
 alpha_size_type can store

The number of arcs was silently truncated: combinations were lost.
---
 sdd/dd/definition.hh | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sdd/dd/definition.hh b/sdd/dd/definition.hh
index 1a42deb..1305259 100644
--- a/sdd/dd/definition.hh
+++ b/sdd/dd/definition.hh
@@ -8,6 +8,8 @@
 
 #include <cassert>
 #include <functional> // bind
+#include <limits>
+#include <stdexcept> // length_error
 
 #include "sdd/internal_manager_fwd.hh"
 #include "sdd/dd/alpha.hh"
@@ -475,6 +477,11 @@ private:
   unique_type&
   unify_node(variable_type var, dd::alpha_builder<C, Valuation>&& builder)
   {
+    if (builder.size() > std::numeric_limits<typename C::alpha_size_type>::max())
+    {
+      throw std::length_error("Too many arcs for the configured alpha_size_type.");
+    }
+
     // Will be erased by the unicity table, either it's an already existing node or a deletion
     // is requested by ptr.
     // Note that the alpha function is allocated right behind the node, thus extra care must be
-- 
2.43.0


From 3e0ae2ddec5cd904b9bf82961a388c0c8b9e80f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:03 +0000
Subject: [PATCH 10/15] fix: give the generation of paths a stack that fits
 deep diagrams

---
 sdd/dd/definition.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sdd/dd/definition.hh b/sdd/dd/definition.hh
index 1305259..00a5e2d 100644
--- a/sdd/dd/definition.hh
+++ b/sdd/dd/definition.hh
@@ -213,7 +213,10 @@ public:
   paths()
   const
   {
-    return path_generator<C>(std::bind(dd::paths<C>, std::placeholders::_1, *this));
+    // The generation of paths is recursive: the default size of a coroutine's stack is overflowed
+    // by diagrams with several hundreds of levels. Thus, give it the usual size of a main stack.
+    return path_generator<C>( std::bind(dd::paths<C>, std::placeholders::_1, *this)
+                            , boost::coroutines::attributes(8 * 1024 * 1024));
   }
 
   /// @brief Indicate if the SDD is |0|.
-- 
2.43.0


From 1cd5824dc53863b4db4af235cba4422f923c2166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:50 +0000
Subject: [PATCH 11/15] fix: release blocks that begin right after the arena's
 buffer

---
 sdd/mem/linear_alloc.hh | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sdd/mem/linear_alloc.hh b/sdd/mem/linear_alloc.hh
index b0c3948..843e007 100644
--- a/sdd/mem/linear_alloc.hh
+++ b/sdd/mem/linear_alloc.hh
@@ -101,7 +101,9 @@ public:
   noexcept
   {
     assert(pointer_in_buffer(position_) && "linear_alloc has outlived arena");
-    if (pointer_in_buffer(p))
+    // A block which begins right after the buffer was allocated by the default allocator (only an
+    // empty one can be located here otherwise).
+    if (pointer_in_buffer(p) and (n == 0 or p != buffer_.get() + size_))
     {
       if (p + n == position_) // The memory pointed by p was the last allocated one.
       {
-- 
2.43.0


From 13c9da284f5842a28c1ab7fa0b31e7736733a2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:20 +0000
Subject: [PATCH 12/15] fix: print the variables of an order as numbers
 whatever their type

---
 sdd/order/order.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 896fd16..8f20f72 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -333,7 +333,8 @@ operator<<(std::ostream& os, const order<C>& ord)
     if (not o.empty())
     {
       const std::string spaces(indent, ' ');
-      os << spaces << o.identifier() << " (" << o.variable() << ")\n";
+      // +o.variable(): widen the type, useful to print the values of char and unsigned char types.
+      os << spaces << o.identifier() << " (" << +o.variable() << ")\n";
       if (not o.nested().empty())
       {
         helper(o.nested(), indent + 2);
-- 
2.43.0


From 59385b84585cfd1df6e1fc58f4dc2050809a4190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 13/15] fix: equal orders have the same hash

std::hash<order> hashed addresses, whereas operator== compares structures: cons
operations made of equal parts, but of orders built separately, were not unified.
---
 sdd/order/order.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sdd/order/order.hh b/sdd/order/order.hh
index 8f20f72..5af62ad 100644
--- a/sdd/order/order.hh
+++ b/sdd/order/order.hh
@@ -367,7 +367,8 @@ struct hash<sdd::order<C>>
   const noexcept
   {
     using namespace sdd::hash;
-    return seed(o.nodes_ptr_.get()) (val(o.head_));
+    // Equal orders, even built separately, must have the same hash.
+    return o.empty() ? seed() : seed(o.position()) (val(o.identifier()));
   }
 };
 
-- 
2.43.0


From 79d73760e3074db51ccbed7ab2a10e1cdb8d3101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:00 +0000
Subject: [PATCH 14/15] fix: don't use iterators invalidated by a rehash when
 counting paths

---
 sdd/dd/count_combinations.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sdd/dd/count_combinations.hh b/sdd/dd/count_combinations.hh
index 9047e3e..9baf4d2 100644
--- a/sdd/dd/count_combinations.hh
+++ b/sdd/dd/count_combinations.hh
@@ -51,14 +51,16 @@ struct count_combinations_visitor
   operator()(const flat_node<C>& n)
   {
     const auto insertion = cache_.emplace(&n, 0);
+    // A reference, as recursive calls may rehash the cache, which invalidates iterators.
+    auto& res = insertion.first->second;
     if (insertion.second)
     {
       for (const auto& arc : n)
       {
-        insertion.first->second += size(arc.valuation()) * visit(*this, arc.successor());
+        res += size(arc.valuation()) * visit(*this, arc.successor());
       }
     }
-    return insertion.first->second;
+    return res;
   }
 
   /// @brief The number of paths for a hierarchical SDD.
@@ -66,14 +68,16 @@ struct count_combinations_visitor
   operator()(const hierarchical_node<C>& n)
   {
     const auto insertion = cache_.emplace(&n, 0);
+    // A reference, as recursive calls may rehash the cache, which invalidates iterators.
+    auto& res = insertion.first->second;
     if (insertion.second)
     {
       for (const auto& arc : n)
       {
-        insertion.first->second += visit(*this, arc.valuation()) * visit(*this, arc.successor());
+        res += visit(*this, arc.valuation()) * visit(*this, arc.successor());
       }
     }
-    return insertion.first->second;
+    return res;
   }
 };
 
-- 
2.43.0


From bafecd393edf67e84730c8a4d93e4650e25700ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:20:39 +0000
Subject: [PATCH 15/15] fix: print terms with the variables as numbers, even if
 they are characters

---
 sdd/hom/function.hh            | 2 +-
 sdd/hom/local.hh               | 2 +-
 sdd/hom/saturation_fixpoint.hh | 2 +-
 sdd/tools/dot/homomorphism.hh  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/sdd/hom/function.hh b/sdd/hom/function.hh
index 6c59e63..55917ba 100644
--- a/sdd/hom/function.hh
+++ b/sdd/hom/function.hh
@@ -319,7 +319,7 @@ struct LIBSDD_ATTRIBUTE_PACKED _function
   std::ostream&
   operator<<(std::ostream& os, const _function& x)
   {
-    os << "fun(" << x.target << ", ";
+    os << "fun(" << +x.target << ", ";
     x.fun_ptr->print(os);
     return os << ")";
   }
diff --git a/sdd/hom/local.hh b/sdd/hom/local.hh
index 6ac73f0..04c3faf 100644
--- a/sdd/hom/local.hh
+++ b/sdd/hom/local.hh
@@ -117,7 +117,7 @@ struct LIBSDD_ATTRIBUTE_PACKED _local
   std::ostream&
   operator<<(std::ostream& os, const _local& l)
   {
-    return os << "@(" << l.target << ", " << l.h << ")";
+    return os << "@(" << +l.target << ", " << l.h << ")";
   }
 };
 
diff --git a/sdd/hom/saturation_fixpoint.hh b/sdd/hom/saturation_fixpoint.hh
index 5438a63..e23cc0d 100644
--- a/sdd/hom/saturation_fixpoint.hh
+++ b/sdd/hom/saturation_fixpoint.hh
@@ -154,7 +154,7 @@ public:
   std::ostream&
   operator<<(std::ostream& os, const _saturation_fixpoint& s)
   {
-    os << "Sat(@" << s.variable << ",  " << s.F << " + " << s.L;
+    os << "Sat(@" << +s.variable << ",  " << s.F << " + " << s.L;
     if (s.G_size != 0)
     {
       os << " + ";
diff --git a/sdd/tools/dot/homomorphism.hh b/sdd/tools/dot/homomorphism.hh
index 9ece691..4584cbc 100644
--- a/sdd/tools/dot/homomorphism.hh
+++ b/sdd/tools/dot/homomorphism.hh
@@ -88,7 +88,7 @@ struct hom_to_dot_visitor
     {
       os_ << node("h", &h) << " [label=\"@\"];\n";
       const auto n = visit(*this, h.h);
-      os_ << node("h", &h) << " -> " << n << " [label=\"" << h.target << "\"]\n";
+      os_ << node("h", &h) << " -> " << n << " [label=\"" << +h.target << "\"]\n";
     }
     return node("h", &h);
   }
-- 
2.43.0

