From cef8180c37a5c7d84c058772f975422010f2bb05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 01/10] fix: do not access creation functions out of bounds for
 schema version 0

---
 src/CollectionBufferFactory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CollectionBufferFactory.cc b/src/CollectionBufferFactory.cc
index 8c48ea0..33ee245 100644
--- a/src/CollectionBufferFactory.cc
+++ b/src/CollectionBufferFactory.cc
@@ -15,7 +15,7 @@ std::optional<podio::CollectionReadBuffers>
 CollectionBufferFactory::createBuffers(const std::string& collType, SchemaVersionT version, bool subsetColl) const {
   if (const auto typeIt = m_funcMap.find(collType); typeIt != m_funcMap.end()) {
     const auto& [_, versionMap] = *typeIt;
-    if (versionMap.size() >= version) {
+    if (version > 0 && versionMap.size() >= version) {
       return versionMap[version - 1](subsetColl);
     }
   }
-- 
2.43.0


From 8445226be6c343b7fe1b35aa12ef8ebb920dab3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:42 +0000
Subject: [PATCH 02/10] fix: do not access evolution functions out of bounds
 for schema version 0

---
 src/SchemaEvolution.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index f21bb4f..423e649 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -24,7 +24,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     }
 
     const auto& typeEvolFuncs = m_evolutionFuncs[mapIndex];
-    if (fromVersion < typeEvolFuncs.size()) {
+    if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
       return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
-- 
2.43.0


From 98505ef584a5aa0962eae7ed40e82b8585c8b297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:43 +0000
Subject: [PATCH 03/10] fix: do not let auto generated evolution functions
 override user defined ones

---
 include/podio/SchemaEvolution.h | 17 ++++++++++++-----
 src/SchemaEvolution.cc          |  9 +++++----
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/include/podio/SchemaEvolution.h b/include/podio/SchemaEvolution.h
index 5eb82c6..07e255e 100644
--- a/include/podio/SchemaEvolution.h
+++ b/include/podio/SchemaEvolution.h
@@ -30,10 +30,21 @@ class SchemaEvolution {
   /// The interface of any evolution function takes buffers and a version and
   /// returns buffers.
   using EvolutionFuncT = std::function<podio::CollectionReadBuffers(podio::CollectionReadBuffers&&, SchemaVersionT)>;
+public:
+  /// Enum to make it possible to prioritize evolution functions during
+  /// registration, making AutoGenerated lower priority than UserDefined
+  enum class Priority { AutoGenerated = 0, UserDefined = 1 };
+
+private:
+  /// An evolution function and the priority with which it has been registered
+  struct PrioritizedFunc {
+    EvolutionFuncT func{};
+    Priority priority{Priority::AutoGenerated};
+  };
   /// Each datatype gets its own version "map" where the index defines the
   /// version from which the schema evolution has to start to end up in the
   /// current version
-  using EvolFuncVersionMapT = std::vector<EvolutionFuncT>;
+  using EvolFuncVersionMapT = std::vector<PrioritizedFunc>;
 
   /// Helper struct combining the current schema version of each type and an
   /// index into the schema evolution "map" below
@@ -51,10 +62,6 @@ class SchemaEvolution {
   using EvolutionMapT = std::vector<EvolFuncVersionMapT>;
 
 public:
-  /// Enum to make it possible to prioritize evolution functions during
-  /// registration, making AutoGenerated lower priority than UserDefined
-  enum class Priority { AutoGenerated = 0, UserDefined = 1 };
-
   /// The SchemaEvolution is a singleton so we disable all copy and move
   /// constructors explicitly
   SchemaEvolution(const SchemaEvolution&) = delete;
diff --git a/src/SchemaEvolution.cc b/src/SchemaEvolution.cc
index 423e649..6f5f000 100644
--- a/src/SchemaEvolution.cc
+++ b/src/SchemaEvolution.cc
@@ -27,7 +27,7 @@ podio::CollectionReadBuffers SchemaEvolution::evolveBuffers(podio::CollectionRea
     if (fromVersion > 0 && fromVersion < typeEvolFuncs.size()) {
       // Do we need this check? In principle we could ensure at registration
       // time that this is always guaranteed
-      return typeEvolFuncs[fromVersion - 1](std::move(oldBuffers), fromVersion);
+      return typeEvolFuncs[fromVersion - 1].func(std::move(oldBuffers), fromVersion);
     }
   }
 
@@ -62,9 +62,10 @@ void SchemaEvolution::registerEvolutionFunc(const std::string& collType, SchemaV
     versionMap.resize(currentVersion);
   }
 
-  versionMap[fromVersion - 1] = evolutionFunc;
-  if (priority != Priority::UserDefined) {
-    //  std::cerr << "Not updating evolution function because priority is not UserDefined" << std::endl;
+  // Never let an auto generated function override a user defined one
+  auto& current = versionMap[fromVersion - 1];
+  if (priority == Priority::UserDefined || current.priority != Priority::UserDefined) {
+    current = {evolutionFunc, priority};
   }
 }
 
-- 
2.43.0


From 3b439a5d1928c6c43b956357681baf339513c79f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 04/10] fix: free the objects of a collection that is move
 assigned to

The defaulted move assignment replaced the storage of a non-empty collection
without cleaning up the objects it owned, so they were leaked.
---
 include/podio/detail/LinkCollectionImpl.h | 15 ++++++++++++++-
 python/templates/Collection.cc.jinja2     | 15 +++++++++++++++
 python/templates/Collection.h.jinja2      |  2 +-
 3 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index cf498c3..ac8e7e7 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -69,7 +69,20 @@ public:
   LinkCollection(const LinkCollection&) = delete;
   LinkCollection& operator=(const LinkCollection&) = delete;
   LinkCollection(LinkCollection&&) = default;
-  LinkCollection& operator=(LinkCollection&&) = default;
+  LinkCollection& operator=(LinkCollection&& other) {
+    if (this != &other) {
+      // Need to clean up the current contents first, because the storage does
+      // not do that on its own
+      m_storage.clear(m_isSubsetColl);
+
+      m_isPrepared = other.m_isPrepared;
+      m_isSubsetColl = other.m_isSubsetColl;
+      m_collectionID = other.m_collectionID;
+      m_storageMtx = std::move(other.m_storageMtx);
+      m_storage = std::move(other.m_storage);
+    }
+    return *this;
+  }
 #if defined(__cpp_lib_containers_ranges)
   /// Constructor from range in order to enable the use of std::ranges::to see
   /// @ref from.
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 0acc2e7..445df94 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -53,6 +53,21 @@ Mutable{{ class.bare_type }} {{ collection_type }}::at(std::size_t index) {
   return Mutable{{ class.bare_type }}(podio::utils::MaybeSharedPtr(m_storage.entries.at(index)));
 }
 
+{{ collection_type }}& {{ collection_type }}::operator=({{ collection_type }}&& other) {
+  if (this != &other) {
+    // Need to clean up the current contents first, because the storage does not
+    // do that on its own
+    m_storage.clear(m_isSubsetColl);
+
+    m_isPrepared = other.m_isPrepared;
+    m_isSubsetColl = other.m_isSubsetColl;
+    m_collectionID = other.m_collectionID;
+    m_storageMtx = std::move(other.m_storageMtx);
+    m_storage = std::move(other.m_storage);
+  }
+  return *this;
+}
+
 std::size_t {{ collection_type }}::size() const {
   return m_storage.entries.size();
 }
diff --git a/python/templates/Collection.h.jinja2 b/python/templates/Collection.h.jinja2
index c74a50d..ae3ee0c 100644
--- a/python/templates/Collection.h.jinja2
+++ b/python/templates/Collection.h.jinja2
@@ -61,7 +61,7 @@ public:
   {{ class.bare_type }}Collection(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection& operator=(const {{ class.bare_type}}Collection& ) = delete;
   {{ class.bare_type }}Collection({{ class.bare_type }}Collection&&) = default;
-  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&&) = default;
+  {{ class.bare_type }}Collection& operator=({{ class.bare_type }}Collection&& other);
 
   ~{{ class.bare_type }}Collection() override;
 #if defined(__cpp_lib_containers_ranges)
-- 
2.43.0


From 644a9c47606dcdfacf3060e28f0169d19521d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 05/10] fix: restore the data buffers of a collection that is
 no longer a subset collection

Turning an empty subset collection back into a normal one left it without the
buffers that are needed for its data and relations, so preparing it for writing
dereferenced a null pointer.
---
 include/podio/detail/LinkCollectionImpl.h | 3 +++
 python/templates/Collection.cc.jinja2     | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/podio/detail/LinkCollectionImpl.h b/include/podio/detail/LinkCollectionImpl.h
index ac8e7e7..f7bd674 100644
--- a/include/podio/detail/LinkCollectionImpl.h
+++ b/include/podio/detail/LinkCollectionImpl.h
@@ -320,6 +320,9 @@ public:
 
     if (setSubset) {
       m_storage.makeSubsetCollection();
+    } else if (m_isSubsetColl) {
+      // Subset collections do not have the necessary data buffers
+      m_storage = CollectionDataT();
     }
     m_isSubsetColl = setSubset;
   }
diff --git a/python/templates/Collection.cc.jinja2 b/python/templates/Collection.cc.jinja2
index 445df94..a155b6a 100644
--- a/python/templates/Collection.cc.jinja2
+++ b/python/templates/Collection.cc.jinja2
@@ -93,6 +93,9 @@ void {{ collection_type }}::setSubsetCollection(bool setSubset) {
 
   if (setSubset) {
     m_storage.makeSubsetCollection();
+  } else if (m_isSubsetColl) {
+    // Subset collections do not have the necessary data buffers
+    m_storage = {{ class.bare_type }}CollectionData();
   }
   m_isSubsetColl = setSubset;
 }
-- 
2.43.0


From bde7224072d9fb02a55d443d08416b86764aedb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 06/10] fix: do not store data twice if preparing a collection
 for writing failed before

If preparing a collection threw because of a relation to an untracked object,
the data of all its objects stayed in the buffers. Preparing it again appended
them once more and accessed the relations beyond their end.
---
 python/templates/CollectionData.cc.jinja2 | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/templates/CollectionData.cc.jinja2 b/python/templates/CollectionData.cc.jinja2
index 0452da5..a39421e 100644
--- a/python/templates/CollectionData.cc.jinja2
+++ b/python/templates/CollectionData.cc.jinja2
@@ -141,7 +141,12 @@ void {{ class_type }}::prepareForWrite(bool isSubsetColl) {
     return;
   }
 
-  // Normal collections have to store the data and all the relations
+  // Normal collections have to store the data and all the relations. Start from
+  // empty buffers in case a previous attempt did not succeed
+  m_data->clear();
+{% for member in VectorMembers %}
+  m_vec_{{ member.name }}->clear();
+{% endfor %}
   m_data->reserve(entries.size());
   for (const auto& obj : entries) { m_data->push_back(obj->data); }
 
-- 
2.43.0


From 5fe5e819475e122a599c06f606029fd2346975b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:32 +0000
Subject: [PATCH 07/10] fix: get the number of parameters only while holding
 the lock

GenericParameters::getKeys accessed the map before acquiring the lock that
protects it.
---
 include/podio/GenericParameters.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/podio/GenericParameters.h b/include/podio/GenericParameters.h
index f21e15d..5d6ae5b 100644
--- a/include/podio/GenericParameters.h
+++ b/include/podio/GenericParameters.h
@@ -232,10 +232,10 @@ template <ValidGenericDataType T>
 std::vector<std::string> GenericParameters::getKeys() const {
   std::vector<std::string> keys;
   const auto& map = getMap<T>();
-  keys.reserve(map.size());
   {
     auto& mtx = getMutex<T>();
     std::lock_guard lock{mtx};
+    keys.reserve(map.size());
     std::transform(map.begin(), map.end(), std::back_inserter(keys), [](const auto& pair) { return pair.first; });
   }
 
-- 
2.43.0


From 7b0b22c961aab823fd37fab4a8f8148985a4d0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:06 +0000
Subject: [PATCH 08/10] fix: hold the map mutex while bookkeeping retrieved IDs
 in Frame

FrameModel::get(ID) changed m_retrievedIDs without any lock, although it runs
whenever references are resolved for a collection obtained via the (thread
safe) const get.
---
 include/podio/Frame.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 1f83030..388a76e 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -502,7 +502,10 @@ bool Frame::FrameModel<FrameDataT>::get(uint32_t collectionID, CollectionBase*&
   if (!name) {
     return false;
   }
-  const auto& [_, inserted] = m_retrievedIDs.insert(collectionID);
+  const bool inserted = [&]() {
+    std::lock_guard lock{*m_mapMtx};
+    return m_retrievedIDs.insert(collectionID).second;
+  }();
 
   if (inserted) {
     auto coll = doGet(name.value());
-- 
2.43.0


From 2632f7364d7a1d6f05bc7b8067f9a570cb6f9603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:07 +0000
Subject: [PATCH 09/10] fix: refuse to put a collection under a name that raw
 data still holds

Frame::put only looked at the collections that were already unpacked, so a
second collection under the name of one that was not unpacked yet was accepted.
It then shadowed the stored one and the name was listed twice by
getAvailableCollections.
---
 include/podio/Frame.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index 388a76e..c2ebdde 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -9,6 +9,7 @@
 #include "podio/SchemaEvolution.h"
 #include "podio/utilities/TypeHelpers.h"
 
+#include <algorithm>
 #include <concepts>
 #include <initializer_list>
 #include <memory>
@@ -528,13 +529,16 @@ template <typename FrameDataT>
 const podio::CollectionBase* Frame::FrameModel<FrameDataT>::put(std::unique_ptr<podio::CollectionBase> coll,
                                                                 const std::string& name) {
   {
-    std::lock_guard lock{*m_mapMtx};
+    std::scoped_lock lock{*m_mapMtx, *m_dataMtx};
+    // The name may also be taken by a collection that has not been unpacked yet
+    const auto rawNames = m_data->getAvailableCollections();
+    if (std::find(rawNames.begin(), rawNames.end(), name) != rawNames.end()) {
+      throw std::invalid_argument("An object with key " + name + " already exists in the frame");
+    }
     auto [it, success] = m_collections.try_emplace(name, std::move(coll));
     if (success) {
       // TODO: Check whether this collection is already known to the idTable
       // -> What to do on collision?
-      // -> Check before we emplace it into the internal map to prevent possible
-      //    collisions from collections that are potentially present from rawdata?
       it->second->setID(m_idTable.add(name));
       return it->second.get();
     } else {
-- 
2.43.0


From 7392cca838910dd29a23fb028d07faf965bc5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:12 +0000
Subject: [PATCH 10/10] fix: hold the map mutex while copying the collection ID
 table of a Frame

Frame::getName and Frame::getCollectionIDTableForWrite copied the contents of
the table without any lock, although a concurrent put may add to it.
---
 include/podio/Frame.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/podio/Frame.h b/include/podio/Frame.h
index c2ebdde..4e71051 100644
--- a/include/podio/Frame.h
+++ b/include/podio/Frame.h
@@ -135,7 +135,8 @@ class Frame {
     bool get(uint32_t collectionID, podio::CollectionBase*& collection) const override;
 
     podio::CollectionIDTable getIDTable() const override {
-      // Make a copy
+      // Make a copy. Collections are only added to the table with this lock held
+      std::lock_guard lock{*m_mapMtx};
       return {m_idTable.ids(), m_idTable.names()};
     }
 
-- 
2.43.0

