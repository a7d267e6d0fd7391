From c73828d91d1f2309a68f30babd58e1f3418fa630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:20 +0000
Subject: [PATCH 01/25] fix: reuse the registry's slot (not a local copy) when
 registering a type class

The free slot pointer pointed to a loop-local copy of the slot, so a type class
registered after another one was unregistered was lost (and the stack was written to).
---
 code/dynamix/domain.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index d17587e..4bd27bb 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -343,7 +343,7 @@ public:
         // search in reverse order while also checking for name clashes
         const type_class** free_slot = nullptr;
         for (auto i = reg->sparse_type_classes.rbegin(); i != reg->sparse_type_classes.rend(); ++i) {
-            auto tc = *i;
+            auto& tc = *i;
             if (tc) {
                 if (tc->name == new_tc.name) throw_exception::duplicate_name(m_domain, new_tc);
             }
-- 
2.43.0


From e3f60a18c951e262ab045d24ae8260bf46d56ca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:20 +0000
Subject: [PATCH 02/25] fix: complete object mutations to the empty type

A mutation to a type with no mixins was never complete: removing the last mixin of an
object asserted, or leaked and left the object unchanged in release builds.
---
 code/dynamix/object_mutation.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index e978afe..92466cb 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -30,6 +30,7 @@ object_mutation::object_mutation(object& obj, const type& type, int) noexcept
     , m_target_mixin_data(nullptr)
     , m_allocated_upto(0)
     , m_updated_upto(0)
+    , m_complete(type.num_mixins() == 0) // no mixins, nothing to update
 {
     // mixin data is allocated at this point by the delagator constructor
 }
@@ -96,6 +97,12 @@ void object_mutation::allocate_mixin_data() {
         return;
     }
 
+    if (m_target_type.num_mixins() == 0) {
+        // mutating to the empty type
+        // empty objects have no mixin data so there's nothing to allocate
+        return;
+    }
+
     // * allocate using object allocator
     // * fill object pointer appropriately to newly allocated mixins
     // * attach common external mixins to mixin_data elements
-- 
2.43.0


From 5230a0be54b762715567ee01e4395ade7d33dfb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:20 +0000
Subject: [PATCH 03/25] fix: don't cancel mutations performed during stack
 unwinding

A mutation in (code called by) a destructor which runs because of an unrelated exception
was silently rolled back, and an object constructed there was left without a type.
---
 code/dynamix/mutate.hpp          | 5 ++++-
 code/dynamix/object_mutation.cpp | 2 +-
 code/dynamix/object_mutation.hpp | 7 +++++++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate.hpp b/code/dynamix/mutate.hpp
index fea31fb..2d84044 100644
--- a/code/dynamix/mutate.hpp
+++ b/code/dynamix/mutate.hpp
@@ -6,6 +6,8 @@
 #include "mutate_to.hpp"
 #include "domain.hpp"
 
+#include <exception>
+
 namespace dynamix {
 // regular mutate with ops as arguments
 template <typename... Ops>
@@ -25,13 +27,14 @@ class gradual_mutation {
     type_mutation m_type_mut;
     object& m_obj;
     bool m_applied = false;
+    const int m_initial_uncaught_exceptions = std::uncaught_exceptions();
 public:
     gradual_mutation(object& obj)
         : m_type_mut(obj.get_type())
         , m_obj(obj)
     {}
     ~gradual_mutation() noexcept(false) {
-        if (std::uncaught_exceptions()) return;
+        if (std::uncaught_exceptions() != m_initial_uncaught_exceptions) return;
         if (m_applied) return;
         apply();
     }
diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index 92466cb..be5f005 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -49,7 +49,7 @@ object_mutation::object_mutation(std::nullptr_t, object& obj) noexcept
 object_mutation::~object_mutation() noexcept(false) {
     if (m_moved_out_from) return;
 
-    if (std::uncaught_exceptions()) {
+    if (std::uncaught_exceptions() != m_initial_uncaught_exceptions) {
         rollback();
         return;
     }
diff --git a/code/dynamix/object_mutation.hpp b/code/dynamix/object_mutation.hpp
index 2ae8e55..2c93224 100644
--- a/code/dynamix/object_mutation.hpp
+++ b/code/dynamix/object_mutation.hpp
@@ -9,6 +9,8 @@
 #include "globals.hpp"
 #include "object_mutation_funcs.hpp"
 
+#include <exception>
+
 namespace dynamix {
 class object;
 
@@ -159,6 +161,11 @@ private:
 
     bool m_complete = false;
 
+    // number of uncaught exceptions at the time of construction
+    // if it's different in the destructor, we're being unwound because of an exception
+    // (a mutation may also be started and completed while another exception is being handled)
+    const int m_initial_uncaught_exceptions = std::uncaught_exceptions();
+
     // rust-style bool to help us support moving mutations
     bool m_moved_out_from = false;
 };
-- 
2.43.0


From 64fbce4e999aca9b8bae7481b95ad99724238ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:47 +0000
Subject: [PATCH 04/25] fix: make a manually finalized object mutation final

If an exception was thrown after finalize() the destructor rolled back the mixins and
buffers which the object already owned, destroying them twice.
---
 code/dynamix/object_mutation.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/code/dynamix/object_mutation.cpp b/code/dynamix/object_mutation.cpp
index be5f005..369ea36 100644
--- a/code/dynamix/object_mutation.cpp
+++ b/code/dynamix/object_mutation.cpp
@@ -192,6 +192,7 @@ void object_mutation::destroy_new_mixins() noexcept {
 }
 
 void object_mutation::rollback() noexcept {
+    if (m_moved_out_from) return; // already finalized or rolled back
     m_complete = false;
     if (&m_target_type != m_old_type) {
         // tag: same_type_shortcut
@@ -204,6 +205,8 @@ void object_mutation::rollback() noexcept {
 
 void object_mutation::finalize() noexcept {
     if (!m_complete) return;
+    if (m_moved_out_from) return; // already finalized or rolled back
+    m_moved_out_from = true;
 
     if (&m_target_type == m_old_type) {
         // tag: same_type_shortcut
-- 
2.43.0


From 9bfa22f916ccd48c0f78a3659766615f03e58f4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:47 +0000
Subject: [PATCH 05/25] fix: allow requests with dependency mixins in domains
 with no mutation rules

Dropping the dependencies was mistaken for a rule change and reported as a cycle.
---
 code/dynamix/domain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 4bd27bb..76ae0fa 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -474,7 +474,8 @@ public:
                 if (i == 0) return last_result; // first application changed nothing
                 return original_query;
             }
-            if (i == max_depenency_depth || i == int(rules.size())) {
+            // (with no rules at all, the only possible change is the removal of dependencies above)
+            if (i == max_depenency_depth || (i == int(rules.size()) && !rules.empty())) {
                 // again: this is not necessarily a real cycle but we treat it as such
                 throw_exception::cyclic_rule_deps(mutation);
             }
-- 
2.43.0


From c6fb166984380aee4c97219c26e5126bc2f3a79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:21 +0000
Subject: [PATCH 06/25] fix: don't store type queries which became obsolete
 while being computed

Queries are computed under a shared lock (or none, while a type is created) and stored
later under a unique one. If a rule was added or removed, a mixin unregistered, or types
collected in between, a stale (or dangling) result was cached and returned from then on.
---
 code/dynamix/domain.cpp | 32 +++++++++++++++++++++++++++-----
 1 file changed, 27 insertions(+), 5 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 76ae0fa..0cddcba 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -166,6 +166,11 @@ public:
         // stored type queries
         // with them we avoid applying mutation rules for the same type query
         type_query_map type_queries;
+
+        // changed each time when existing or in-progress type queries may become obsolete
+        // type queries are computed and stored under different locks: if this has changed
+        // in the mean time, the result of the computation must not be stored
+        uint64_t query_epoch = 0;
     };
     data_mutex<type_registry> m_type_registry;
 
@@ -287,6 +292,7 @@ public:
     void unregister_mixin(mixin_info& info) {
         {
             auto treg = m_type_registry.unique_lock();
+            ++treg->query_epoch;
             // since this mixin is no longer valid
             // remove all queries which contain it either as key or as value
             auto& queries = treg->type_queries;
@@ -415,6 +421,7 @@ public:
         // we need to invalidate stored type queries
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->query_epoch;
     }
     void remove_mutation_rule(const mutation_rule_info& info) noexcept {
         auto reg = m_type_registry.unique_lock();
@@ -428,6 +435,7 @@ public:
         reg->mutation_rules.erase(f);
         // we can't tell which ones the rule affects, so we have to invalidate them all
         reg->type_queries.clear();
+        ++reg->query_epoch;
     }
 
     // applies mutation rules for mutation and returns the original query to be preserved
@@ -492,6 +500,7 @@ public:
 
         type_query original_query(m_allocator); // prepare original query with our allocator
         const type* found = nullptr;
+        uint64_t epoch = 0;
 
         {
             // search for stored query for this combo
@@ -501,6 +510,8 @@ public:
                 if (f != reg->type_queries.end()) return *f->second;
             }
 
+            epoch = reg->query_epoch;
+
             // query is not available, so we need to apply mutation rules
             // we can do it while holding the shared lock
             original_query = apply_mutation_rules_l(mutation, reg->mutation_rules);
@@ -524,11 +535,17 @@ public:
             // worst (and extremely rare) case we wasted cpu applying the same rules twice
 
             auto reg = m_type_registry.unique_lock();
-            reg->type_queries[std::move(original_query)] = found;
-            return *found;
+            if (reg->query_epoch == epoch) {
+                reg->type_queries[std::move(original_query)] = found;
+                return *found;
+            }
+
+            // rules or types were changed or removed while we weren't holding the lock
+            // we can't store the query and can't be sure that the type still exists
+            if (found == &m_empty_type) return *found;
         }
 
-        return create_type(mutation, std::move(original_query));
+        return create_type(mutation, std::move(original_query), epoch);
     }
 
     const type& get_type(itlib::span<const mixin_info* const> mixins) {
@@ -687,7 +704,8 @@ public:
     };
 
     // create type for a given mutation requested by a given query
-    const type& create_type(type_mutation& mutation, type_query&& query) {
+    // epoch is the query epoch at the time when the mutation rules were applied
+    const type& create_type(type_mutation& mutation, type_query&& query, uint64_t epoch) {
         mixin_info_span mixins(mutation.mixins);
 
         // first check validity
@@ -832,12 +850,16 @@ public:
         // but the code below is safe in such a case)
 
         const type* reg_type = res.first->get();
-        reg->type_queries[std::move(query)] = reg_type;
+        if (reg->query_epoch == epoch) {
+            // only store the query if it's not made obsolete in the mean time
+            reg->type_queries[std::move(query)] = reg_type;
+        }
         return *reg_type;
     }
 
     void garbage_collect_types() noexcept {
         auto l = m_type_registry.unique_lock();
+        ++l->query_epoch;
         auto& types = l->types;
         auto& queries = l->type_queries;
         for (auto it = types.begin(); it != types.end(); ) {
-- 
2.43.0


From 806626e3f611130761ca4c86d631ab022adac537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:21 +0000
Subject: [PATCH 07/25] fix: don't drop types and queries when unregistering a
 foreign mixin

The types with the own mixin which happens to have the same id were destroyed (even ones
with living objects) before the error for the foreign mixin was thrown.
---
 code/dynamix/domain.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 0cddcba..46bfbd8 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -290,6 +290,14 @@ public:
     }
 
     void unregister_mixin(mixin_info& info) {
+        {
+            // mixin is not our own?
+            // check this first: don't touch our queries and types because of a foreign mixin's id
+            auto reg = m_element_registry.shared_lock();
+            auto& sparse_mixins = reg->sparse_mixins;
+            if (info.iid() >= sparse_mixins.size() || sparse_mixins[info.iid()] != &info) throw_exception::unreg_foreign(m_domain, info);
+        }
+
         {
             auto treg = m_type_registry.unique_lock();
             ++treg->query_epoch;
-- 
2.43.0


From f4c8545fcb35697448cf32ae7e44c34d366d7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:21 +0000
Subject: [PATCH 08/25] fix: remove a mixin's mutation rules if its
 registration fails

---
 code/dynamix/mixin_info_data.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/mixin_info_data.cpp b/code/dynamix/mixin_info_data.cpp
index 7b7729a..cfa5794 100644
--- a/code/dynamix/mixin_info_data.cpp
+++ b/code/dynamix/mixin_info_data.cpp
@@ -7,10 +7,20 @@
 namespace dynamix::util {
 
 void mixin_info_data::register_in(domain& dom) {
-    for (auto* r : mutation_rule_infos) {
-        dom.add_mutation_rule(*r);
+    auto added_upto = mutation_rule_infos.begin();
+    try {
+        for (; added_upto != mutation_rule_infos.end(); ++added_upto) {
+            dom.add_mutation_rule(**added_upto);
+        }
+        dom.register_mixin(info);
+    }
+    catch (...) {
+        // don't leave rules for a mixin which is not registered
+        for (auto i = mutation_rule_infos.begin(); i != added_upto; ++i) {
+            dom.remove_mutation_rule(**i);
+        }
+        throw;
     }
-    dom.register_mixin(info);
 }
 
 void mixin_info_data::unregister_from(domain& dom) noexcept {
-- 
2.43.0


From bd0eaae21172349baf9a64a421484c7db862b524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:21 +0000
Subject: [PATCH 09/25] fix: return an error from dnmx_object_reset_type to
 null for sealed objects

The exception from object::clear was thrown through the C function.
---
 code/dynamix/object-c.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 2fc40c0..5405b91 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -105,19 +105,18 @@ bool dnmx_object_clear(dnmx_object_handle ho) {
     return true;
 }
 dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_handle ht) {
-    if (ht) {
-        try {
+    try {
+        if (ht) {
             self->reset_type(*type::from_c_handle(ht));
         }
-        catch (std::exception&) {
-            return -1;
+        else {
+            self->clear();
         }
+        return dnmx_result_success;
     }
-    else {
-        self->clear();
+    catch (std::exception&) {
+        return -1;
     }
-
-    return dnmx_result_success;
 }
 
 bool dnmx_object_is_empty(dnmx_const_object_handle ho) {
-- 
2.43.0


From 8bc243d9029f075124ba6b4a21e5b9ae3b590116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:31 +0000
Subject: [PATCH 10/25] fix: the type mutation constructor from a type can
 throw

It allocates the mixin list, so a failing allocation terminated the program.
---
 code/dynamix/type_mutation.cpp | 2 +-
 code/dynamix/type_mutation.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/type_mutation.cpp b/code/dynamix/type_mutation.cpp
index 7cf6ccd..e66f4aa 100644
--- a/code/dynamix/type_mutation.cpp
+++ b/code/dynamix/type_mutation.cpp
@@ -22,7 +22,7 @@ type_mutation::type_mutation(domain& d, const allocator& alloc) noexcept
     , mixins(alloc)
 {}
 
-type_mutation::type_mutation(const type& base, const allocator& alloc) noexcept
+type_mutation::type_mutation(const type& base, const allocator& alloc)
     : type_mutation(base.dom, alloc)
 {
     mixins.assign(base.mixins.begin(), base.mixins.end());
diff --git a/code/dynamix/type_mutation.hpp b/code/dynamix/type_mutation.hpp
index c82d647..5c78418 100644
--- a/code/dynamix/type_mutation.hpp
+++ b/code/dynamix/type_mutation.hpp
@@ -30,7 +30,7 @@ public:
 
     // start a mutation with a specific base
     // optionally provide an allocator for the type template
-    explicit type_mutation(const type& base, const allocator& alloc = {}) noexcept;
+    explicit type_mutation(const type& base, const allocator& alloc = {});
 
     // add mixin
     void add(const mixin_info& info) { mixins.push_back(&info); }
-- 
2.43.0


From 9170928b4acdb0564c285c38c66851a70ffbeff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 11/25] fix: make adding a mixin by name with an init function
 compile

The op referred to a member which doesn't exist.
---
 code/dynamix/mutate_ops.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/mutate_ops.hpp b/code/dynamix/mutate_ops.hpp
index c30c5d0..d00fe95 100644
--- a/code/dynamix/mutate_ops.hpp
+++ b/code/dynamix/mutate_ops.hpp
@@ -58,7 +58,7 @@ struct add_mixin_op_with_func_by_name final : public mutate_op_by_name, public o
         : mutate_op_by_name(name)
         , object_mutate_op_with_func<ConstructNew_Func>(std::forward<ConstructNew_Func>(func))
     {}
-    void apply_to_type_mutation(type_mutation& mut) { this->info_to_add = &mut.add(name); }
+    void apply_to_type_mutation(type_mutation& mut) { this->affected_info = &mut.add(name); }
 };
 
 template <typename ConstructNew_Func>
-- 
2.43.0


From ee804e75356ce8b0b7b95dcdabcad70e4f97a2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 12/25] fix: compare lengths of string views which share their
 beginning

Views of different length with the same begin pointer compared equal.
---
 code/dnmx/bits/sv.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/code/dnmx/bits/sv.h b/code/dnmx/bits/sv.h
index 6d5d449..66faaaa 100644
--- a/code/dnmx/bits/sv.h
+++ b/code/dnmx/bits/sv.h
@@ -80,11 +80,11 @@ static inline bool dnmx_sv_is_empty(dnmx_sv sv) { return sv.begin == sv.end; }
 static inline size_t dnmx_sv_len(dnmx_sv sv) { return sv.end - sv.begin; }
 
 static inline int dnmx_sv_cmp(dnmx_sv a, dnmx_sv b) {
-    // avoid memcmp with null
-    if (a.begin == b.begin) return 0;
     size_t alen = dnmx_sv_len(a);
-    if (!b.begin) return !!alen;
     size_t blen = dnmx_sv_len(b);
+    // avoid memcmp with null
+    if (a.begin == b.begin) return (alen > blen) - (alen < blen);
+    if (!b.begin) return !!alen;
     if (!a.begin) return -!!blen;
 
     if (alen == blen) {
-- 
2.43.0


From 67611f07c59e4be09dd527a3ffe9f65deb2ac998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 13/25] fix: ignore construct ops by name for mixins which
 don't exist in mutate_to

The null info of the op was dereferenced. Ops for mixins which are not in the type are ignored.
---
 code/dynamix/mutate_to.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index 09481eb..bf1207a 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -33,6 +33,7 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     obj_mutates_end = std::remove_if(obj_mutates, obj_mutates_end, [&type](object_mutate_op* op) {
         if (!op) return true; // null (non add-mixin op)
         if (!op->overrides_init()) return true; // valid op, which doesn't override init, so we don't need it
+        if (!op->affected_info) return true; // op by name of a mixin which doesn't exist (and so is not in type)
         auto index = type.index_of(op->affected_info->id);
         if (index == invalid_mixin_index) return true; // mixin which was removed by rules
         op->mixin_index = index; // assign index
-- 
2.43.0


From 00a3ae962f864fa2987ad6017c5d3f969f1c4746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:51 +0000
Subject: [PATCH 14/25] fix: throw on multiple init overrides for the same
 mixin in mutate_to

The second init function was called for the next mixin in the object.
---
 code/dynamix/mutate_to.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/mutate_to.hpp b/code/dynamix/mutate_to.hpp
index bf1207a..f342974 100644
--- a/code/dynamix/mutate_to.hpp
+++ b/code/dynamix/mutate_to.hpp
@@ -49,8 +49,8 @@ void mutate_to(object& obj, const type& type, Ops&&... ops) {
     object_mutation obj_mut(obj, type);
     for (auto i = obj_mutates; i != obj_mutates_end; ++i) {
         auto& op = **i;
-        obj_mut.default_construct_each_new_mixin(op.mixin_index);
-        obj_mut.update_next_mixin([&op](init_new_args args) {
+        // this throws if there is another op for the same mixin
+        obj_mut.update_at(op.mixin_index, [&op](init_new_args args) {
             op.do_init(args);
         }, util::noop_udpate_common_func);
     }
-- 
2.43.0


From a88a1d693f3af51426000e1deb4e7f70420fe405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:55 +0000
Subject: [PATCH 15/25] fix: don't lock the domain recursively when dumping it

---
 code/dynamix/dbg_dmp.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/code/dynamix/dbg_dmp.cpp b/code/dynamix/dbg_dmp.cpp
index c8e386d..b38e7d5 100644
--- a/code/dynamix/dbg_dmp.cpp
+++ b/code/dynamix/dbg_dmp.cpp
@@ -178,14 +178,21 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_mutation_rules) {
-        out << "## " << d.num_mutation_rules() << " Mutation Rules\n";
+        // count by traversing: the domain is locked by tr, and its own functions would lock it recursively
+        int count = 0;
+        tr.traverse_mutation_rules([&](const mutation_rule_info&, uint32_t) { ++count; });
+
+        out << "## " << count << " Mutation Rules\n";
         tr.traverse_mutation_rules([&](const mutation_rule_info& mri, uint32_t refs) {
             dbg_dmp(out, mri, flags);
             out << ", " << refs << " refs\n";
         });
     }
     if (flags & dnmx_dom_dmp_types) {
-        out << "## " << d.num_types() << " Types\n";
+        int count = 0;
+        tr.traverse_types([&](const type&) { ++count; });
+
+        out << "## " << count << " Types\n";
         tr.traverse_types([&](const type& t) {
             dbg_dmp_l(out, t, flags, &tr);
             out << '\n';
@@ -202,7 +209,10 @@ void dbg_dmp(std::ostream& out, const domain& d, uint32_t flags) {
         });
     }
     if (flags & dnmx_dom_dmp_type_queries) {
-        out << "## " << d.num_type_queries() << " Type Queries\n";
+        int count = 0;
+        tr.traverse_type_queries([&](itlib::span<const mixin_info* const>, const type&) { ++count; });
+
+        out << "## " << count << " Type Queries\n";
         tr.traverse_type_queries([&](itlib::span<const mixin_info* const> mixins, const type& qt) {
             out << "tq: ";
             output_mixins(out, mixins);
-- 
2.43.0


From bd498543c170679ed4e177cfab30201887ed6d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 16/25] fix: don't let any exception out of the C functions

---
 code/dynamix/domain-c.cpp          | 35 +++++++++++++++++++++---------
 code/dynamix/mixin_allocator-c.cpp |  9 ++++++--
 code/dynamix/mutate-c.cpp          |  4 ++--
 code/dynamix/object-c.cpp          | 14 ++++++------
 code/dynamix/type-c.cpp            |  2 +-
 code/dynamix/type_mutation-c.cpp   | 14 ++++++------
 6 files changed, 49 insertions(+), 29 deletions(-)

diff --git a/code/dynamix/domain-c.cpp b/code/dynamix/domain-c.cpp
index eb801d1..7caa81d 100644
--- a/code/dynamix/domain-c.cpp
+++ b/code/dynamix/domain-c.cpp
@@ -15,8 +15,13 @@ extern "C" {
 #define self domain::from_c_handle(hd)
 
 dnmx_domain_handle dnmx_create_domain(dnmx_sv name, dnmx_domain_settings settings, uintptr_t user_data, void* context) {
-    auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
-    return new_dom->to_c_hanlde();
+    try {
+        auto new_dom = new dynamix::domain(name.to_std(), settings, user_data, context);
+        return new_dom->to_c_hanlde();
+    }
+    catch (...) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_domain(dnmx_domain_handle hd) {
     delete self;
@@ -34,12 +39,17 @@ dnmx_error_return_t dnmx_register_feature(dnmx_domain_handle hd, dnmx_feature_in
         self->register_feature(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
 void dnmx_unregister_feature(dnmx_domain_handle hd, dnmx_feature_info* info) {
-    self->unregister_feature(*info);
+    try {
+        self->unregister_feature(*info);
+    }
+    catch (...) {
+        // foreign or unregistered info: nothing to unregister
+    }
 }
 
 dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
@@ -47,12 +57,17 @@ dnmx_error_return_t dnmx_register_mixin(dnmx_domain_handle hd, dnmx_mixin_info*
         self->register_mixin(*info);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
 void dnmx_unregister_mixin(dnmx_domain_handle hd, dnmx_mixin_info* info) {
-    self->unregister_mixin(*info);
+    try {
+        self->unregister_mixin(*info);
+    }
+    catch (...) {
+        // foreign or unregistered info: nothing to unregister
+    }
 }
 
 const dnmx_feature_info* dnmx_get_feature_info_by_id(dnmx_domain_handle hd, dnmx_feature_id id) {
@@ -76,7 +91,7 @@ dnmx_error_return_t dnmx_register_type_class(dnmx_domain_handle hd, const dnmx_t
         self->register_type_class(*tc);
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -94,7 +109,7 @@ dnmx_error_return_t dnmx_add_mutation_rule(dnmx_domain_handle hd, const dnmx_mut
         self->add_mutation_rule(*info);
         return 0;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -106,7 +121,7 @@ dnmx_type_handle dnmx_get_type_from_infos(dnmx_domain_handle hd, const dnmx_mixi
     try {
         return &self->get_type({mixins, num_mixins});
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -117,7 +132,7 @@ dnmx_type_handle dnmx_get_type(dnmx_domain_handle hd, dnmx_type_mutation_handle*
         *hmut = nullptr;
         return &self->get_type(std::move(*pmut));
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
diff --git a/code/dynamix/mixin_allocator-c.cpp b/code/dynamix/mixin_allocator-c.cpp
index 5eeb4fe..d190412 100644
--- a/code/dynamix/mixin_allocator-c.cpp
+++ b/code/dynamix/mixin_allocator-c.cpp
@@ -34,8 +34,13 @@ using namespace dynamix;
 
 extern "C" {
 dnmx_mixin_allocator_handle dnmx_create_mixin_allocator(dnmx_alloc_mixin_func alloc, dnmx_dealloc_mixin_func dealloc) {
-    auto ret = new c_mixin_allocator(alloc, dealloc);
-    return ret->to_c_hanlde();
+    try {
+        auto ret = new c_mixin_allocator(alloc, dealloc);
+        return ret->to_c_hanlde();
+    }
+    catch (...) {
+        return nullptr;
+    }
 }
 void dnmx_destroy_mixin_allocator(dnmx_mixin_allocator_handle ha) {
     delete mixin_allocator::from_c_handle(ha);
diff --git a/code/dynamix/mutate-c.cpp b/code/dynamix/mutate-c.cpp
index 94ef437..5c1cf75 100644
--- a/code/dynamix/mutate-c.cpp
+++ b/code/dynamix/mutate-c.cpp
@@ -62,7 +62,7 @@ dnmx_error_return_t dnmx_mutate_to(dnmx_object_handle obj, dnmx_type_handle ht,
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -120,7 +120,7 @@ DYNAMIX_API dnmx_error_return_t dnmx_mutate(dnmx_object_handle ho, const dnmx_mu
 
         return result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 5405b91..9078cd7 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -17,7 +17,7 @@ dnmx_object_handle dnmx_create_object_empty(dnmx_domain_handle hd) {
         auto obj = new object(*domain::from_c_handle(hd));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -26,7 +26,7 @@ dnmx_object_handle dnmx_create_object_default(dnmx_type_handle ht) {
         auto obj = new object(*type::from_c_handle(ht));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -35,7 +35,7 @@ dnmx_object_handle dnmx_create_object_copy(dnmx_const_object_handle ho) {
         auto obj = new object(object::from_c_handle(ho)->copy());
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -44,7 +44,7 @@ dnmx_object_handle dnmx_create_object_usurp(dnmx_object_handle ho) {
         auto obj = new object(std::move(*object::from_c_handle(ho)));
         return obj->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -57,7 +57,7 @@ dnmx_error_return_t dnmx_object_copy_from(dnmx_object_handle ho, dnmx_const_obje
         self->copy_from(*object::from_c_handle(source));
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -114,7 +114,7 @@ dnmx_error_return_t dnmx_object_reset_type(dnmx_object_handle ho, dnmx_type_hand
         }
         return dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         return -1;
     }
 }
@@ -141,7 +141,7 @@ dnmx_int_result dnmx_object_compare(dnmx_const_object_handle ho, dnmx_const_obje
         ret.result = self->compare(*object::from_c_handle(b));
         ret.error = dnmx_result_success;
     }
-    catch (std::exception&) {
+    catch (...) {
         ret.error = -1;
     }
     return ret;
diff --git a/code/dynamix/type-c.cpp b/code/dynamix/type-c.cpp
index 2c937a7..8d34112 100644
--- a/code/dynamix/type-c.cpp
+++ b/code/dynamix/type-c.cpp
@@ -55,7 +55,7 @@ bool dnmx_type_is_of_name(dnmx_type_handle ht, dnmx_sv name) {
     try {
         return self->is_of(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
diff --git a/code/dynamix/type_mutation-c.cpp b/code/dynamix/type_mutation-c.cpp
index 588bdd0..d5862a0 100644
--- a/code/dynamix/type_mutation-c.cpp
+++ b/code/dynamix/type_mutation-c.cpp
@@ -17,7 +17,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_empty(dnmx_domain_handle hd)
         auto mut = new type_mutation(*domain::from_c_handle(hd));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -27,7 +27,7 @@ dnmx_type_mutation_handle dnmx_create_type_mutation_from_type(dnmx_type_handle h
         auto mut = new type_mutation(*type::from_c_handle(ht));
         return mut->to_c_hanlde();
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -61,7 +61,7 @@ bool dnmx_type_mutation_add(dnmx_type_mutation_handle hmut, const dnmx_mixin_inf
         self->add(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -69,7 +69,7 @@ bool dnmx_type_mutation_add_if_lacking(dnmx_type_mutation_handle hmut, const dnm
     try {
         return self->add_if_lacking(*info);
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -84,7 +84,7 @@ bool dnmx_type_mutation_to_back(dnmx_type_mutation_handle hmut, const dnmx_mixin
         self->to_back(*info);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
@@ -92,7 +92,7 @@ const dnmx_mixin_info* dnmx_type_mutation_to_back_by_name(dnmx_type_mutation_han
     try {
         return &self->to_back(name.to_std());
     }
-    catch (std::exception&) {
+    catch (...) {
         return nullptr;
     }
 }
@@ -111,7 +111,7 @@ bool dnmx_type_mutation_set_mixins(dnmx_type_mutation_handle hmut, const dnmx_mi
         self->mixins.assign(mixins, mixins + num_mixins);
         return true;
     }
-    catch (std::exception&) {
+    catch (...) {
         return false;
     }
 }
-- 
2.43.0


From a7b781f9f8332d44399c9f8efe5f4bd3737eb69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:23:27 +0000
Subject: [PATCH 17/25] fix: define the declared dnmx_object_implements_strong
 functions

---
 code/dynamix/object-c.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/code/dynamix/object-c.cpp b/code/dynamix/object-c.cpp
index 9078cd7..8bc7ce1 100644
--- a/code/dynamix/object-c.cpp
+++ b/code/dynamix/object-c.cpp
@@ -80,6 +80,13 @@ bool dnmx_object_has_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
     return self->has(name.to_std());
 }
 
+bool dnmx_object_implements_strong(dnmx_const_object_handle ho, const dnmx_feature_info* info) {
+    return self->get_type().implements_strong(*info);
+}
+bool dnmx_object_implements_strong_by_name(dnmx_const_object_handle ho, dnmx_sv name) {
+    return self->get_type().implements_strong(name.to_std());
+}
+
 const void* dnmx_object_get(dnmx_const_object_handle ho, const dnmx_mixin_info* info) {
     return self->get(*info);
 }
-- 
2.43.0


From 7311a11eee0a93b6b644f233d026229a15ab1903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:02 +0000
Subject: [PATCH 18/25] fix: construct mixins whose class has an operator new
 of its own

---
 code/dynamix/bits/make_from_tuple.hpp | 2 +-
 code/dynamix/mixin_info_util.hpp      | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/code/dynamix/bits/make_from_tuple.hpp b/code/dynamix/bits/make_from_tuple.hpp
index d01a7f2..262b717 100644
--- a/code/dynamix/bits/make_from_tuple.hpp
+++ b/code/dynamix/bits/make_from_tuple.hpp
@@ -12,7 +12,7 @@ template <typename T, typename Tuple, std::size_t... I>
 void _make_from_tuple_impl(void* ptr, Tuple&& tup, std::index_sequence<I...>)
 {
     static_assert(std::is_constructible_v<T, decltype(std::get<I>(std::declval<Tuple>()))...>);
-    new (ptr) T(std::get<I>(std::forward<Tuple>(tup))...);
+    ::new (ptr) T(std::get<I>(std::forward<Tuple>(tup))...);
 }
 
 template <typename T, typename Tuple>
diff --git a/code/dynamix/mixin_info_util.hpp b/code/dynamix/mixin_info_util.hpp
index a9dbffc..9ff4ca8 100644
--- a/code/dynamix/mixin_info_util.hpp
+++ b/code/dynamix/mixin_info_util.hpp
@@ -14,7 +14,7 @@ namespace dynamix::util {
 
 template <typename Mixin>
 dnmx_error_return_t call_mixin_default_ctor(const mixin_info*, void* memory) {
-    new (memory) Mixin;
+    ::new (memory) Mixin;
     return result_success;
 }
 template <typename Mixin>
@@ -23,7 +23,7 @@ void call_mixin_dtor(const mixin_info*, void* memory) noexcept {
 }
 template <typename Mixin>
 dnmx_error_return_t call_mixin_copy_ctor(const mixin_info*, void* memory, const void* source) {
-    new (memory) Mixin(*reinterpret_cast<const Mixin*>(source));
+    ::new (memory) Mixin(*reinterpret_cast<const Mixin*>(source));
     return result_success;
 }
 template <typename Mixin>
@@ -33,7 +33,7 @@ dnmx_error_return_t call_mixin_copy_assignment(const mixin_info*, void* target,
 }
 template <typename Mixin>
 void call_mixin_move_ctor(const mixin_info*, void* memory, void* source) noexcept {
-    new (memory) Mixin(std::move(*reinterpret_cast<Mixin*>(source)));
+    ::new (memory) Mixin(std::move(*reinterpret_cast<Mixin*>(source)));
 }
 template <typename Mixin>
 void call_mixin_move_assignment(const mixin_info*, void* target, void* source) noexcept {
-- 
2.43.0


From 3655e843b816af73587dacbca342033b14d915fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:47 +0000
Subject: [PATCH 19/25] fix: don't truncate sizes of more than 32 bits in the
 compat default memory resource

---
 code/dynamix/compat/pmr/memory_resource.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/compat/pmr/memory_resource.cpp b/code/dynamix/compat/pmr/memory_resource.cpp
index a70b082..b0e26bc 100644
--- a/code/dynamix/compat/pmr/memory_resource.cpp
+++ b/code/dynamix/compat/pmr/memory_resource.cpp
@@ -22,7 +22,9 @@ class default_resource final : public memory_resource {
         if (alignment < sizeof_ptr) alignment = sizeof_ptr;
 #endif
         // aligned_alloc requires size to be a multiple of alignment
-        auto size = dynamix::util::next_multiple(bytes, alignment);
+        // (don't use util::next_multiple here: it's for byte_size_t which may be smaller than std::size_t)
+        const std::size_t size = (bytes + alignment - 1) / alignment * alignment;
+        if (size < bytes) throw std::bad_alloc{}; // overflow
         void* ret = aligned_alloc(alignment, size);
 #endif
         if (!ret) throw std::bad_alloc{};
-- 
2.43.0


From acb24fdbe671788c2bdec48cb9cf0802441de50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 20/25] fix: let DYNAMIX_FORCE_PMR_COMPAT be defined by the
 user, as documented

---
 code/dynamix/compat/pmr/pmr.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/code/dynamix/compat/pmr/pmr.hpp b/code/dynamix/compat/pmr/pmr.hpp
index fdbd723..ab946f8 100644
--- a/code/dynamix/compat/pmr/pmr.hpp
+++ b/code/dynamix/compat/pmr/pmr.hpp
@@ -4,7 +4,9 @@
 #pragma once
 #include <cstdint> // minimal header that will give us _LIBCPP_VERSION
 
-#define DYNAMIX_FORCE_PMR_COMPAT 0
+#if !defined(DYNAMIX_FORCE_PMR_COMPAT)
+#   define DYNAMIX_FORCE_PMR_COMPAT 0
+#endif
 
 #if DYNAMIX_FORCE_PMR_COMPAT || (defined(_LIBCPP_VERSION) && _LIBCPP_VERSION < 16000)
 #   define DYNAMIX_HAS_PMR 0
-- 
2.43.0


From 9d4712059fe5e9a12057b9eda67d8833d3871c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:48 +0000
Subject: [PATCH 21/25] fix: name of compat::pmr::memory_resource when using
 std::pmr

---
 code/dynamix/compat/pmr/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/code/dynamix/compat/pmr/memory_resource.hpp b/code/dynamix/compat/pmr/memory_resource.hpp
index 233c7cf..899e1b0 100644
--- a/code/dynamix/compat/pmr/memory_resource.hpp
+++ b/code/dynamix/compat/pmr/memory_resource.hpp
@@ -7,7 +7,7 @@
 #if DYNAMIX_HAS_PMR
 #include <memory_resource>
 namespace dynamix::compat::pmr {
-using memory_resouce = std::pmr::memory_resource;
+using memory_resource = std::pmr::memory_resource;
 }
 #else
 #include "../../../dnmx/api.h"
-- 
2.43.0


From ae061789a856a14184638c89fc0a233929253d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:04 +0000
Subject: [PATCH 22/25] fix: define v1compat's mixin_list::add(name), which was
 only declared

---
 v1compat/code/dynamix/v1compat/mutation_rules.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/v1compat/code/dynamix/v1compat/mutation_rules.cpp b/v1compat/code/dynamix/v1compat/mutation_rules.cpp
index 1aa29ad..2e580ff 100644
--- a/v1compat/code/dynamix/v1compat/mutation_rules.cpp
+++ b/v1compat/code/dynamix/v1compat/mutation_rules.cpp
@@ -67,6 +67,11 @@ std::shared_ptr<mutation_rule> remove_mutation_rule(mutation_rule_id id) {
     return r;
 }
 
+void impl::mixin_list::add(std::string_view name) {
+    // throws if there's no such mixin
+    add(type_mutation(domain::instance()).add(name));
+}
+
 void dependent_mixins_oneshot::apply_to(type_mutation& mut) {
     if (!mut.has(*master)) return;
     for (auto i : infos) {
-- 
2.43.0


From ff131d28ae4f2b42ac320dad825b69773cd06b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:25:32 +0000
Subject: [PATCH 23/25] fix: name of v1compat messages with a default
 implementation

---
 v1compat/gen/arity_message_macros_template | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/gen/arity_message_macros_template b/v1compat/gen/arity_message_macros_template
index 3d12434..4149fba 100644
--- a/v1compat/gen/arity_message_macros_template
+++ b/v1compat/gen/arity_message_macros_template
@@ -58,7 +58,7 @@
 #define DYNAMIX_V1_DEFINE_MESSAGE_%{arity}_WITH_DEFAULT_IMPL(return_type, message_name %{args_coma}) \
     static return_type I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::obj_t& %{coma_args_signature}); \
     const ::dynamix::common_feature_info& I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::get_info_safe() { \
-        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name))), multicast, (void*) \
+        static ::dynamix::common_feature_info the_info(dnmx_make_sv_lit(I_DNMX_PP_STRINGIZE(message_name)), multicast, (void*) \
             (static_cast<I_DYNAMIX_V1_MSG_STRUCT_NAME(message_name)::traits::sig_t*>(I_DYNAMIX_V1_DEFAULT_IMPL_FUNC_NAME(message_name)))); \
         return the_info; \
     } \
-- 
2.43.0


From 27487920c8ac41943c6a82f9bff383389afbabc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:27:54 +0000
Subject: [PATCH 24/25] fix: v1compat's substitute_mixin when the target is
 already there

---
 v1compat/code/dynamix/v1compat/common_mutation_rules.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
index c2bfe67..5bdc05e 100644
--- a/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
+++ b/v1compat/code/dynamix/v1compat/common_mutation_rules.hpp
@@ -68,7 +68,7 @@ class substitute_mixin : public mutation_rule {
     virtual void apply_to(type_mutation& mut) override {
         if (mut.has<SourceMixin>()) {
             mut.remove<SourceMixin>();
-            mut.add<TargetMixin>();
+            mut.add_if_lacking<TargetMixin>();
         }
     }
 };
-- 
2.43.0


From a999f245411aeecde4b32381596be029ffaf12a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:12 +0000
Subject: [PATCH 25/25] fix: don't cache type queries with mixins which aren't
 registered in the domain

A mutation rule may remove such a mixin (or it may be a dependency) so a type is produced, but no
unregister call would ever drop the query, so it could outlive the mixin info and give a wrong
type to a later request when the info is changed or its memory is reused.
---
 code/dynamix/domain.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/code/dynamix/domain.cpp b/code/dynamix/domain.cpp
index 46bfbd8..19f3907 100644
--- a/code/dynamix/domain.cpp
+++ b/code/dynamix/domain.cpp
@@ -503,6 +503,13 @@ public:
         }
     }
 
+    // check if all mixins of a query are registered in this domain
+    // mutation rules may remove ones which aren't and produce a valid type, but the query must not be stored:
+    // there would be no unregister call to remove it and it could outlive the mixin
+    bool is_own_query(const type_query& query) const noexcept {
+        return itlib::qall_of(query, [this](const mixin_info* m) { return m->dom == &m_domain; });
+    }
+
     const type& get_type(type_mutation& mutation) {
         if (&mutation.dom != &m_domain) throw_exception::foreign_mutation(m_domain, mutation);
 
@@ -544,7 +551,9 @@ public:
 
             auto reg = m_type_registry.unique_lock();
             if (reg->query_epoch == epoch) {
-                reg->type_queries[std::move(original_query)] = found;
+                if (is_own_query(original_query)) {
+                    reg->type_queries[std::move(original_query)] = found;
+                }
                 return *found;
             }
 
@@ -858,7 +867,7 @@ public:
         // but the code below is safe in such a case)
 
         const type* reg_type = res.first->get();
-        if (reg->query_epoch == epoch) {
+        if (reg->query_epoch == epoch && is_own_query(query)) {
             // only store the query if it's not made obsolete in the mean time
             reg->type_queries[std::move(query)] = reg_type;
         }
-- 
2.43.0

