From 3985c2aa3303e2184837b1b0fbb6100fd408dc9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:44 +0000
Subject: [PATCH 01/12] fix: nested lock permissions carry their AddRemove
 right

is_add_remove_allowed only looked for AddRemove at the top level of a lock's
permission list, while is_read_allowed and is_write_allowed also look into
nested Lock<> permissions. A Lock<ECS, Lock<ECS, AddRemove>> therefore counted
as a plain WriteAll lock in subset checks while still carrying AddRemove deeper
down, so a lock without the right could be converted to one that claims it.
---
 inc/Tecs_permissions.hh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_permissions.hh b/inc/Tecs_permissions.hh
index decc83d..93f2133 100644
--- a/inc/Tecs_permissions.hh
+++ b/inc/Tecs_permissions.hh
@@ -131,13 +131,13 @@ namespace Tecs {
     struct is_write_allowed<T, const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_write_allowed<T, Permissions>...> {};
 
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const Lock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     template<typename ECSType, typename... Permissions>
-    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : contains<AddRemove, Permissions...> {};
+    struct is_add_remove_allowed<const DynamicLock<ECSType, Permissions...>> : std::disjunction<is_add_remove_allowed<Permissions>...> {};
     // clang-format on
 
     // Check SubLock <= Lock for component type T
-- 
2.43.0


From 8994dacb0755f8c2a430d7140481e0ef40c6a9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 02/12] fix: const Get of a missing global component no longer
 adds it

Lock::Get<const T>() on a lock with AddRemove rights set the presence bit of
a missing global component without marking its storage as written. The commit
then published the presence bit but not the value, and later transactions read
past the end of the storage. Like Entity::Get, only a mutable Get adds the
component now.
---
 inc/Tecs_lock.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 71a0ee0..d2d31f6 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -209,7 +209,7 @@ namespace Tecs {
 #endif
 
             auto &storage = instance.template Storage<CompType>();
-            if constexpr (is_add_remove_allowed<LockType>()) {
+            if constexpr (is_add_remove_allowed<LockType>() && !std::is_const<ReturnType>()) {
 #ifdef TECS_UNCHECKED_MODE
                 auto &metadata = permissions[0] ? instance.globalWriteMetadata : instance.globalReadMetadata;
 #endif
-- 
2.43.0


From c0fb54d7e85736b89c05e0eafdc553947a4ed54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 03/12] fix: EntityView::rend() includes the first entity

A reverse_iterator dereferences the element before its base, so the end of a
reversed range has the base start_index. With start_index + 1 the first entity
was never visited, and iterating over an empty view ran out of bounds.
---
 inc/Tecs_entity_view.hh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 5c393f5..2ce6cfa 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -138,7 +138,7 @@ namespace Tecs {
         }
 
         inline reverse_iterator rend() const noexcept {
-            return reverse_iterator(iterator{*this, start_index + 1});
+            return reverse_iterator(iterator{*this, start_index});
         }
 
         inline reference operator[](size_type index) const {
-- 
2.43.0


From 07b4663d01b0e59d54e3f2f707f87ac8d9a49520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 04/12] fix: EntityView::subview() no longer overflows with its
 default count

start_index + offset + count wraps around for the default count, so subview(n)
with n > 0 ended before it started and threw. An offset past the end of the
view (but within the storage) was only rejected by accident, and one large
enough to wrap around wasn't rejected at all.
---
 inc/Tecs_entity_view.hh | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 2ce6cfa..3ec2423 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -162,7 +162,17 @@ namespace Tecs {
 #ifndef TECS_UNCHECKED_MODE
             if (storage == nullptr) throw std::runtime_error("EntityView::subview storage is null");
 #endif
-            return EntityView(*storage, start_index + offset, std::min(end_index, start_index + offset + count));
+            // Compare against the remaining size so that large offsets and counts can't overflow.
+            size_type available = size();
+            if (offset > available) {
+#ifndef TECS_UNCHECKED_MODE
+                throw std::runtime_error("EntityView::subview offset out of range: " + std::to_string(offset));
+#else
+                offset = available;
+#endif
+            }
+            size_type start = start_index + offset;
+            return EntityView(*storage, start, start + std::min(count, available - offset));
         }
 
     private:
-- 
2.43.0


From 03bd03b5666f149a98851cba6a9c69a1716c7b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 05/12] fix: EntityView::operator[] indexes relative to the
 start of the view

The index was applied to the underlying storage, so a subview with a non-zero
offset could not be indexed from 0 to size() - 1, and disagreed with
begin()[index] and with what its iterators visit.
---
 inc/Tecs_entity_view.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_entity_view.hh b/inc/Tecs_entity_view.hh
index 3ec2423..37ecd0d 100644
--- a/inc/Tecs_entity_view.hh
+++ b/inc/Tecs_entity_view.hh
@@ -143,11 +143,11 @@ namespace Tecs {
 
         inline reference operator[](size_type index) const {
 #ifndef TECS_UNCHECKED_MODE
-            if (index < start_index || index >= end_index) {
+            if (index >= size()) {
                 throw std::runtime_error("EntityView index out of range: " + std::to_string(index));
             }
 #endif
-            return (*storage)[index];
+            return (*storage)[start_index + index];
         }
 
         inline size_type size() const noexcept {
-- 
2.43.0


From 2ef00f75cd2146778af1c8af6fa1cc262edf9977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:09 +0000
Subject: [PATCH 06/12] fix: Entity::Unset of several components through an
 entity list reference

Removing the first component nulls its entry in the entity list. If *this is
that entry, the remaining components were removed from entity index 0 instead.
Copy the index first, like Entity::Destroy does.
---
 inc/Tecs_entity.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index e8dfd80..032525c 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -292,7 +292,11 @@ namespace Tecs {
             }
 #endif
 
-            (lock.template RemoveComponents<Tn>(index), ...);
+            // It is possible for *this to be a reference to a component's writeValidEntities list
+            // Copy the index before removing components so the same entity is used for all of them.
+            size_t copy = index;
+
+            (lock.template RemoveComponents<Tn>(copy), ...);
         }
 
         template<typename LockType>
-- 
2.43.0


From b49a68a0ca69924e7c74ce3edc292819c36a33ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:37 +0000
Subject: [PATCH 07/12] fix: TECS_HEADER_ONLY compiles again

Entity handles carry the id of their ECS instance, but the id only existed
without TECS_HEADER_ONLY, so anything using NewEntity or GetInstanceId failed
to compile in header-only mode. Keep the id in both modes, with the counter
as an inline variable when there is no library to define it.
---
 inc/Tecs.hh             | 4 ----
 inc/Tecs_transaction.hh | 2 ++
 2 files changed, 2 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs.hh b/inc/Tecs.hh
index 1a027c7..6738a2a 100644
--- a/inc/Tecs.hh
+++ b/inc/Tecs.hh
@@ -31,9 +31,7 @@ namespace Tecs {
     class ECS {
     public:
         ECS() {
-#ifndef TECS_HEADER_ONLY
             ecsId = ++nextEcsId;
-#endif
         }
 
         /**
@@ -182,9 +180,7 @@ namespace Tecs {
         TraceInfo transactionTrace;
 #endif
 
-#ifndef TECS_HEADER_ONLY
         size_t ecsId;
-#endif
 
         template<typename, typename...>
         friend class Lock;
diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index b96fb2f..ad0eb68 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -29,6 +29,8 @@ namespace Tecs {
     extern thread_local size_t activeTransactionsCount;
     extern std::atomic_size_t nextEcsId;
     extern std::atomic_size_t nextTransactionId;
+#else
+    inline std::atomic_size_t nextEcsId(0);
 #endif
 
     /**
-- 
2.43.0


From d6ed54ee7e10a47f96dc7fad73ab1d47fcc27800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:34 +0000
Subject: [PATCH 08/12] fix: release the metadata commit lock after the
 component entity lists are swapped

A transaction without read access to a component may list the entities having it
(EntitiesWith, PreviousEntitiesWith) with only the metadata read lock. Those lists were
still being swapped when the committing transaction had already unlocked the metadata.
---
 inc/Tecs_transaction.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/inc/Tecs_transaction.hh b/inc/Tecs_transaction.hh
index ad0eb68..7e5b923 100644
--- a/inc/Tecs_transaction.hh
+++ b/inc/Tecs_transaction.hh
@@ -249,7 +249,6 @@ namespace Tecs {
                         this->instance.metadata.readComponents.swap(this->instance.metadata.writeComponents);
                         this->instance.metadata.readValidEntities.swap(this->instance.metadata.writeValidEntities);
                         this->instance.globalReadMetadata = this->instance.globalWriteMetadata;
-                        this->instance.metadata.CommitUnlock();
                     }
                 }
                 ( // For each AllComponentTypes
@@ -269,6 +268,10 @@ namespace Tecs {
                         }
                     }(),
                     ...);
+                // Component entity lists are readable with only the metadata lock, so it must be unlocked last.
+                if constexpr (is_add_remove_allowed<LockType>()) {
+                    if (this->writeAccessedFlags[0]) this->instance.metadata.CommitUnlock();
+                }
             }
 
             ( // For each AllComponentTypes, reset the write storage to match read.
-- 
2.43.0


From bff73aefe9f2b4aa8e952574acc0b76ed3e3d245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:17 +0000
Subject: [PATCH 09/12] fix: DynamicLock::TryLock did not compile with more
 than 63 component types

std::bitset's element assignment is not a constant expression before C++23, so the permission sets of worlds with at
least 64 component types cannot be constexpr variables.
---
 inc/Tecs_lock.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index d2d31f6..8a98ed4 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -468,8 +468,8 @@ namespace Tecs {
             if constexpr (Lock<ECS, StaticPermissions...>::template has_permissions<DynamicLockType>()) {
                 return DynamicLockType(this->instance, this->base, this->permissions);
             } else {
-                static constexpr auto requestedRead = generateReadBitset<DynamicLockType>();
-                static constexpr auto requestedWrite = generateWriteBitset<DynamicLockType>();
+                static const auto requestedRead = generateReadBitset<DynamicLockType>();
+                static const auto requestedWrite = generateWriteBitset<DynamicLockType>();
                 if ((requestedRead & readPermissions) == requestedRead &&
                     (requestedWrite & this->permissions) == requestedWrite) {
                     return DynamicLockType(this->instance, this->base, this->permissions);
-- 
2.43.0


From eaa42e84b912f7a9d25bc6fe939ddb9613a8fd3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:47 +0000
Subject: [PATCH 10/12] fix: quote thread and component names in trace CSV
 files

A name containing a comma, quote or line break shifted the columns of its row, so the file no longer
contained the recorded events.
---
 inc/Tecs_tracing.hh | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_tracing.hh b/inc/Tecs_tracing.hh
index b9cd2f5..0df562c 100644
--- a/inc/Tecs_tracing.hh
+++ b/inc/Tecs_tracing.hh
@@ -90,6 +90,18 @@ namespace Tecs {
             return ss.str();
         }
 
+        // Quote a field if it would otherwise be read as something else than a single CSV value.
+        static std::string EscapeCSV(const std::string &field) {
+            if (field.find_first_of(",\"\r\n") == std::string::npos) return field;
+
+            std::string quoted = "\"";
+            for (char c : field) {
+                if (c == '"') quoted += '"';
+                quoted += c;
+            }
+            return quoted + "\"";
+        }
+
         void SaveToCSV(std::ostream &out) {
             out << "Transaction Event,Transaction Thread Id,Transaction TimeNs";
             out << ",Metadata Event,Metadata Thread Id,Metadata TimeNs";
@@ -98,7 +110,9 @@ namespace Tecs {
             }
             for (size_t i = 0; i < componentEvents.size(); i++) {
                 auto &name = componentNames[i];
-                out << "," << name << " Event," << name << " Thread Id," << name << " TimeNs";
+                out << "," << EscapeCSV(name + " Event");
+                out << "," << EscapeCSV(name + " Thread Id");
+                out << "," << EscapeCSV(name + " TimeNs");
             }
             out << std::endl;
 
@@ -108,7 +122,7 @@ namespace Tecs {
 
                 if (row < transactionEvents.size()) {
                     auto &event = transactionEvents[row];
-                    out << event.type << "," << GetThreadName(event.thread) << ",";
+                    out << event.type << "," << EscapeCSV(GetThreadName(event.thread)) << ",";
                     out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch()).count();
                     done = false;
                 } else {
@@ -117,7 +131,7 @@ namespace Tecs {
 
                 if (row < metadataEvents.size()) {
                     auto &event = metadataEvents[row];
-                    out << "," << event.type << "," << GetThreadName(event.thread) << ",";
+                    out << "," << event.type << "," << EscapeCSV(GetThreadName(event.thread)) << ",";
                     out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch()).count();
                     done = false;
                 } else {
@@ -127,7 +141,7 @@ namespace Tecs {
                 for (auto &events : componentEvents) {
                     if (row < events.size()) {
                         auto &event = events[row];
-                        out << "," << event.type << "," << GetThreadName(event.thread) << ",";
+                        out << "," << event.type << "," << EscapeCSV(GetThreadName(event.thread)) << ",";
                         out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch())
                                    .count();
                         done = false;
-- 
2.43.0


From b9d902eb74c044a09ac1694601964d8c4606212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:01 +0000
Subject: [PATCH 11/12] fix: write trace CSV times independently of the
 stream's number format

A stream with digit grouping or a non-decimal base changed the times, grouping even the number of columns.
---
 inc/Tecs_tracing.hh | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_tracing.hh b/inc/Tecs_tracing.hh
index 0df562c..b0a6b73 100644
--- a/inc/Tecs_tracing.hh
+++ b/inc/Tecs_tracing.hh
@@ -102,6 +102,11 @@ namespace Tecs {
             return quoted + "\"";
         }
 
+        // Independent of the number formatting (locale, base) of the stream it is written to.
+        static std::string FormatTimeNs(const std::chrono::steady_clock::time_point &time) {
+            return std::to_string(std::chrono::duration_cast<std::chrono::nanoseconds>(time.time_since_epoch()).count());
+        }
+
         void SaveToCSV(std::ostream &out) {
             out << "Transaction Event,Transaction Thread Id,Transaction TimeNs";
             out << ",Metadata Event,Metadata Thread Id,Metadata TimeNs";
@@ -123,7 +128,7 @@ namespace Tecs {
                 if (row < transactionEvents.size()) {
                     auto &event = transactionEvents[row];
                     out << event.type << "," << EscapeCSV(GetThreadName(event.thread)) << ",";
-                    out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch()).count();
+                    out << FormatTimeNs(event.time);
                     done = false;
                 } else {
                     out << ",,";
@@ -132,7 +137,7 @@ namespace Tecs {
                 if (row < metadataEvents.size()) {
                     auto &event = metadataEvents[row];
                     out << "," << event.type << "," << EscapeCSV(GetThreadName(event.thread)) << ",";
-                    out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch()).count();
+                    out << FormatTimeNs(event.time);
                     done = false;
                 } else {
                     out << ",,,";
@@ -142,8 +147,7 @@ namespace Tecs {
                     if (row < events.size()) {
                         auto &event = events[row];
                         out << "," << event.type << "," << EscapeCSV(GetThreadName(event.thread)) << ",";
-                        out << std::chrono::duration_cast<std::chrono::nanoseconds>(event.time.time_since_epoch())
-                                   .count();
+                        out << FormatTimeNs(event.time);
                         done = false;
                     } else {
                         out << ",,,";
-- 
2.43.0


From b28993cf41038266f1b9b9f30a1b6d07a4ec99dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:45 +0000
Subject: [PATCH 12/12] fix: absent components take the default constructed
 value

Assigning {} does not compile if the default constructor is explicit, and
calls another assignment operator if the component type has one that takes
a number or an initializer list.
---
 inc/Tecs_entity.hh | 2 +-
 inc/Tecs_lock.hh   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/inc/Tecs_entity.hh b/inc/Tecs_entity.hh
index 032525c..0b780e2 100644
--- a/inc/Tecs_entity.hh
+++ b/inc/Tecs_entity.hh
@@ -149,7 +149,7 @@ namespace Tecs {
                     lock.base->writeAccessedFlags[0] = true;
 
                     // Reset value before allowing reading.
-                    storage.writeComponents[index] = {};
+                    storage.writeComponents[index] = CompType();
                     metadata[1 + lock.instance.template GetComponentIndex<CompType>()] = true;
                     auto &validEntities = storage.writeValidEntities;
                     storage.validEntityIndexes[index] = validEntities.size();
diff --git a/inc/Tecs_lock.hh b/inc/Tecs_lock.hh
index 8a98ed4..5589c7f 100644
--- a/inc/Tecs_lock.hh
+++ b/inc/Tecs_lock.hh
@@ -219,7 +219,7 @@ namespace Tecs {
                     metadata[1 + instance.template GetComponentIndex<CompType>()] = true;
                     storage.writeComponents.resize(1);
                     // Reset value before allowing reading.
-                    storage.writeComponents[0] = {};
+                    storage.writeComponents[0] = CompType();
                 }
 #ifndef TECS_UNCHECKED_MODE
             } else if (!instance.template BitsetHas<CompType>(metadata)) {
@@ -377,7 +377,7 @@ namespace Tecs {
 
                     metadata[1 + instance.template GetComponentIndex<T>()] = false;
                     auto &compIndex = instance.template Storage<T>();
-                    compIndex.writeComponents[index] = {};
+                    compIndex.writeComponents[index] = T();
                     size_t validIndex = compIndex.validEntityIndexes[index];
                     compIndex.writeValidEntities[validIndex] = Entity();
                 }
@@ -394,7 +394,7 @@ namespace Tecs {
                 base->template SetAccessFlag<T>(true);
 
                 metadata[1 + instance.template GetComponentIndex<T>()] = false;
-                instance.template Storage<T>().writeComponents[0] = {};
+                instance.template Storage<T>().writeComponents[0] = T();
             }
         }
 
-- 
2.43.0

