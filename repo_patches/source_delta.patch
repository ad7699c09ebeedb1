From 3fb7d7e9d97429574373053d6e84880c5d15af89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:29 +0000
Subject: [PATCH 01/23] fix: refuse truncated or malformed input instead of
 hanging or accepting it

Reading past a failure left the loader spinning (failbit is not eofbit) or
using variables that were never read, and a truncated file was taken for a
complete one. Failed reads inside a section now raise InvalidFormat, and so does
a missing end marker or an input error.
---
 src/load_msh.cpp | 52 ++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 6 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..949dbdb 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,4 +1,5 @@
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
@@ -18,24 +19,57 @@
 
 namespace mshio {
 
+namespace {
+
+// Makes failed reads of `in` throw while in scope.
+class ThrowOnFailure
+{
+public:
+    explicit ThrowOnFailure(std::istream& in)
+        : m_in(in)
+        , m_mask(in.exceptions())
+    {
+        // The content of a section is followed by its end marker: reaching the end of input means
+        // that the section is truncated.
+        m_in.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
+    }
+    // The end marker itself may be the last thing in the input.
+    void allow_eof() { m_in.exceptions(std::ios_base::failbit | std::ios_base::badbit); }
+    ~ThrowOnFailure()
+    {
+        try {
+            m_in.exceptions(m_mask);
+        } catch (...) {
+            // The mask is restored; a failure is already being reported.
+        }
+    }
+    ThrowOnFailure(const ThrowOnFailure&) = delete;
+    ThrowOnFailure& operator=(const ThrowOnFailure&) = delete;
+
+private:
+    std::istream& m_in;
+    std::ios_base::iostate m_mask;
+};
+
+} // namespace
+
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (!in.eof() && buf != flag) {
+    while (buf != flag) {
         in >> buf;
     }
 }
 
 MshSpec load_msh(std::istream& in)
-{
+try {
     MshSpec spec;
     std::string buf, end_str;
 
-    while (!in.eof()) {
-        buf.clear();
-        in >> buf;
-        if (buf.size() == 0 || buf[0] != '$') continue;
+    while (in >> buf) {
+        if (buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
+        ThrowOnFailure guard(in);
         if (buf == "$MeshFormat") {
             load_mesh_format(in, spec);
         } else if (buf == "$Entities") {
@@ -61,11 +95,17 @@ MshSpec load_msh(std::istream& in)
         } else {
             std::cerr << "Warning: skipping section \"" << buf << "\"" << std::endl;
         }
+        guard.allow_eof();
         forward_to(in, end_str);
     }
+    if (in.bad() || !in.eof()) {
+        throw InvalidFormat("Unable to read from the input stream.");
+    }
 
     load_msh_post_process(spec);
     return spec;
+} catch (const std::ios_base::failure&) {
+    throw InvalidFormat("MSH data is truncated or malformed.");
 }
 
 MshSpec load_msh(const std::string& filename)
-- 
2.43.0


From f4b12661ceaa0011f89895b5d5f253e5a51f1b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:49 +0000
Subject: [PATCH 02/23] fix: regroup MSH 2.2 nodes without assuming dense or
 known node tags

The regrouping indexed an array spanning the node tag range with the node tags
found in elements: an element that refers to an unknown node wrote out of
bounds, and sparse tags needed memory in proportion to their range.
---
 src/load_msh_post_process.cpp | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..3a97674 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,6 +5,9 @@
 
 #include <cassert>
 #include <limits>
+#include <unordered_map>
+#include <utility>
+#include <vector>
 
 namespace mshio {
 namespace v22 {
@@ -14,19 +17,16 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
-    auto node_index = [&](size_t node_tag) {
-        return static_cast<size_t>(node_tag - nodes.min_node_tag);
-    };
+    // Node tags may be sparse, and elements may refer to nodes that do not exist.
+    std::unordered_map<size_t, std::pair<size_t, size_t>> node_entities;
 
     for (const auto& block : elements.entity_blocks) {
         const auto n = nodes_per_element(block.element_type);
         for (size_t i = 0; i < block.num_elements_in_block; i++) {
             for (size_t j = 0; j < n; j++) {
-                size_t idx = node_index(block.data[i * (n + 1) + j + 1]);
-                entity_dims[idx] = block.entity_dim;
-                entity_tags[idx] = block.entity_tag;
+                auto& entity = node_entities[block.data[i * (n + 1) + j + 1]];
+                entity.first = block.entity_dim;
+                entity.second = block.entity_tag;
             }
         }
     }
@@ -38,9 +38,12 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     size_t curr_dim = INVALID, curr_tag = INVALID;
     for (auto& block : nodes.entity_blocks) {
         for (size_t i = 0; i < block.num_nodes_in_block; i++) {
-            size_t idx = node_index(block.tags[i]);
-            size_t dim = entity_dims[idx];
-            size_t tag = entity_tags[idx];
+            size_t dim = 0, tag = 0;
+            auto it = node_entities.find(block.tags[i]);
+            if (it != node_entities.end()) {
+                dim = it->second.first;
+                tag = it->second.second;
+            }
 
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
-- 
2.43.0


From cb1e5870a5e4200d53a63f88153ed32c007e1432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 03/23] fix: do not reserve the whole node count for every MSH
 2.2 node block

Nodes that alternate between entities make one block each, and every block
reserved room for all nodes: memory grew with the square of the node count.
---
 src/load_msh_post_process.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 3a97674..ee8823c 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -48,8 +48,6 @@ void regroup_nodes_into_blocks(MshSpec& spec)
             if (dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
                 auto& curr_block = node_blocks.back();
-                curr_block.tags.reserve(block.num_nodes_in_block);
-                curr_block.data.reserve(block.num_nodes_in_block * 3);
                 curr_block.entity_dim = static_cast<int>(dim);
                 curr_block.entity_tag = static_cast<int>(tag);
                 curr_dim = dim;
-- 
2.43.0


From 0437b74cd0fa3778d8216bcca2b8c71879656bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:20 +0000
Subject: [PATCH 04/23] fix: refuse counts and flags that no array can match
 when loading

---
 src/io_utils.cpp          | 11 +++++++++++
 src/io_utils.h            |  3 +++
 src/load_msh_curves.cpp   |  8 ++++----
 src/load_msh_data.cpp     | 14 ++++++++++++++
 src/load_msh_elements.cpp |  7 ++++---
 src/load_msh_nodes.cpp    | 31 ++++++++++++++++++++++---------
 src/load_msh_patches.cpp  | 10 ++++++----
 7 files changed, 64 insertions(+), 20 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 56ef54a..7e5d5b2 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -1,5 +1,7 @@
 #include "io_utils.h"
 
+#include <mshio/exception.h>
+
 #include <istream>
 
 namespace mshio {
@@ -18,5 +20,14 @@ void eat_white_space(std::istream& in, size_t count)
     }
 }
 
+size_t checked_size(size_t count, size_t size, size_t extra)
+{
+    constexpr size_t max_size = std::numeric_limits<size_t>::max();
+    if ((size > 0 && count > max_size / size) || count * size > max_size - extra) {
+        throw InvalidFormat("MSH data declares an impossible number of values.");
+    }
+    return count * size + extra;
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index a8255cb..ac7aafb 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -7,5 +7,8 @@ namespace mshio {
 
 void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t>::max());
 
+// Computes count * size + extra, throws InvalidFormat if the result does not fit in size_t.
+size_t checked_size(size_t count, size_t size, size_t extra = 0);
+
 } // namespace mshio
 
diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..bf6468d 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -22,8 +22,8 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
         in >> curve.num_knots;
         in >> curve.with_weights;
 
-        size_t num_entries =
-            curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
+        size_t num_entries = checked_size(
+            curve.num_control_points, (curve.with_weights > 0) ? 4 : 3, curve.num_knots);
         curve.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
             in >> curve.data[j];
@@ -50,8 +50,8 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
         in >> curve.with_weights;
 
         eat_white_space(in, 1);
-        size_t num_entries =
-            curve.num_control_points * ((curve.with_weights > 0) ? 4 : 3) + curve.num_knots;
+        size_t num_entries = checked_size(
+            curve.num_control_points, (curve.with_weights > 0) ? 4 : 3, curve.num_knots);
         curve.data.resize(num_entries);
         in.read(reinterpret_cast<char*>(curve.data.data()), sizeof(double) * num_entries);
     }
diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..d52eda8 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -37,6 +37,13 @@ void load_data_header(std::istream& in, DataHeader& header)
     assert(in.good());
 }
 
+void check_num_nodes_per_element(const DataEntry& entry)
+{
+    if (entry.num_nodes_per_element < 0) {
+        throw InvalidFormat("Data entry has negative number of nodes per element.");
+    }
+}
+
 namespace v41 {
 void load_data_entry(
     std::istream& in, DataEntry& entry, size_t fields_per_entry, bool is_element_node_data)
@@ -51,6 +58,7 @@ void load_data_entry(
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
+        check_num_nodes_per_element(entry);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -71,6 +79,7 @@ void load_data_entry(
         int32_t num_nodes_per_element;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
+        check_num_nodes_per_element(entry);
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -92,6 +101,10 @@ void load_data(std::istream& in,
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
 
+    if (data.header.int_tags[1] < 0 || data.header.int_tags[2] < 0) {
+        throw InvalidFormat("Data has negative number of fields or entries.");
+    }
+
     size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
     size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
     data.entries.resize(num_entries);
@@ -115,6 +128,7 @@ void load_data(std::istream& in,
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
+                check_num_nodes_per_element(entry);
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..cc5e25c 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -39,7 +39,7 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.num_elements_in_block;
 
         const size_t n = nodes_per_element(block.element_type);
-        block.data.resize(block.num_elements_in_block * (n + 1));
+        block.data.resize(checked_size(block.num_elements_in_block, n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
                 in >> block.data[j * (n + 1) + k];
@@ -69,7 +69,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
 
         const size_t n = nodes_per_element(block.element_type);
-        block.data.resize(block.num_elements_in_block * (n + 1));
+        block.data.resize(checked_size(block.num_elements_in_block, n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
         assert(in.good());
@@ -197,7 +197,8 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         // a regrouping will happen at post-processing time.
         for (size_t i = 0; i < num_elements_in_block; i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()),
+                static_cast<std::streamsize>(4 * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
 
             min_tag = std::min(min_tag, element_id);
diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index f6c4627..b4477e0 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -14,6 +14,22 @@
 namespace mshio {
 namespace v41 {
 
+namespace {
+size_t get_entries_per_node(const NodeBlock& block)
+{
+    if (block.parametric < 0 || block.parametric > 3) {
+        throw InvalidFormat("Invalid parametric flag in node block.");
+    }
+    if (block.parametric != 1) {
+        return 3;
+    }
+    if (block.entity_dim < 0 || block.entity_dim > 3) {
+        throw InvalidFormat("Invalid entity dimension in parametric node block.");
+    }
+    return static_cast<size_t>(3 + block.entity_dim);
+}
+} // namespace
+
 void load_nodes_ascii(std::istream& in, MshSpec& spec)
 {
     Nodes& nodes = spec.nodes;
@@ -37,10 +53,8 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         }
         assert(in.good());
 
-        assert(block.parametric >= 0 && block.parametric <= 3);
-        const size_t entries_per_node =
-            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
-        block.data.resize(block.num_nodes_in_block * entries_per_node);
+        const size_t entries_per_node = get_entries_per_node(block);
+        block.data.resize(checked_size(block.num_nodes_in_block, entries_per_node));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             for (size_t k = 0; k < entries_per_node; k++) {
                 in >> block.data[j * entries_per_node + k];
@@ -73,9 +87,8 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
         assert(in.good());
 
-        const size_t entries_per_node =
-            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
-        block.data.resize(block.num_nodes_in_block * entries_per_node);
+        const size_t entries_per_node = get_entries_per_node(block);
+        block.data.resize(checked_size(block.num_nodes_in_block, entries_per_node));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(
                 sizeof(double) * block.num_nodes_in_block * entries_per_node));
@@ -102,7 +115,7 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
-    block.data.resize(block.num_nodes_in_block * 3);
+    block.data.resize(checked_size(block.num_nodes_in_block, 3));
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         in >> block.tags[i];
         in >> block.data[i * 3];
@@ -134,7 +147,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     nodes.num_nodes += block.num_nodes_in_block;
 
     block.tags.resize(block.num_nodes_in_block);
-    block.data.resize(block.num_nodes_in_block * 3);
+    block.data.resize(checked_size(block.num_nodes_in_block, 3));
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         assert(in.good());
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..f25d291 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -25,8 +25,9 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
         in >> patch.with_weights;
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
-        const size_t num_entries =
-            patch.num_control_points * dim + patch.num_u_knots + patch.num_v_knots;
+        const size_t num_entries = checked_size(patch.num_control_points,
+            dim,
+            checked_size(patch.num_u_knots, 1, patch.num_v_knots));
 
         patch.data.resize(num_entries);
         for (size_t j = 0; j < num_entries; j++) {
@@ -56,8 +57,9 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
         in >> patch.with_weights;
 
         const size_t dim = (patch.with_weights > 0) ? 4 : 3;
-        const size_t num_entries =
-            patch.num_control_points * dim + patch.num_u_knots + patch.num_v_knots;
+        const size_t num_entries = checked_size(patch.num_control_points,
+            dim,
+            checked_size(patch.num_u_knots, 1, patch.num_v_knots));
 
         patch.data.resize(num_entries);
         eat_white_space(in, 1);
-- 
2.43.0


From 718b23b55a8a65cc2927ab101baec5af6875d8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:54 +0000
Subject: [PATCH 05/23] fix: accumulate the $Elements sections of a MSH 2.2
 file

---
 src/load_msh_elements.cpp | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index cc5e25c..1afe387 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -84,12 +84,22 @@ template <typename Entity>
 void create_entities(
     const std::map<int, std::set<int>>& entity_tag_to_physical_tags, std::vector<Entity>& entities)
 {
+    // A previous $Elements section may have created some of the entities already.
+    std::map<int, size_t> existing;
+    for (size_t i = 0; i < entities.size(); i++) {
+        existing.emplace(entities[i].tag, i);
+    }
     for (const auto& entry : entity_tag_to_physical_tags) {
-        entities.emplace_back();
-        Entity& entity = entities.back();
-        entity.tag = entry.first;
-        entity.physical_group_tags.insert(
-            entity.physical_group_tags.end(), entry.second.begin(), entry.second.end());
+        const auto it = existing.find(entry.first);
+        if (it == existing.end()) {
+            entities.emplace_back();
+            entities.back().tag = entry.first;
+        }
+        auto& groups = (it == existing.end() ? entities.back() : entities[it->second])
+                           .physical_group_tags;
+        std::set<int> all_groups(groups.begin(), groups.end());
+        all_groups.insert(entry.second.begin(), entry.second.end());
+        groups.assign(all_groups.begin(), all_groups.end());
     }
 }
 } // namespace
@@ -172,8 +182,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
 void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    in >> elements.num_elements;
-    elements.entity_blocks.reserve(elements.num_elements);
+    size_t num_elements;
+    in >> num_elements;
+    elements.num_elements += num_elements;
     eat_white_space(in, 1);
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
@@ -182,7 +193,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     int32_t min_tag = std::numeric_limits<int32_t>::max();
     int32_t max_tag = 0;
     size_t num_processed_elements = 0;
-    while (num_processed_elements != elements.num_elements) {
+    while (num_processed_elements != num_elements) {
         int32_t element_type, num_elements_in_block, num_tags, element_id;
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
@@ -235,7 +246,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             }
 
             num_processed_elements++;
-            if (num_processed_elements > elements.num_elements) {
+            if (num_processed_elements > num_elements) {
                 throw InvalidFormat("Inconsistent element count detected!");
             }
         }
-- 
2.43.0


From 2d6f7e1e0da15721f6bc5ea8e643223533a26a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:34 +0000
Subject: [PATCH 06/23] fix: do not let the caller's stream settings or locale
 change what is read and written

---
 src/load_msh.cpp | 48 ++++++++++++++++++++++++++++--------------------
 src/save_msh.cpp | 21 ++++++++++++++++++++-
 2 files changed, 48 insertions(+), 21 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 949dbdb..3186f1b 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -15,40 +15,41 @@
 #include <cassert>
 #include <fstream>
 #include <iostream>
+#include <locale>
 #include <string>
 
 namespace mshio {
 
 namespace {
 
-// Makes failed reads of `in` throw while in scope.
-class ThrowOnFailure
+// A stream of its own on the buffer of another stream, so that neither the format settings, locale
+// and exception mask of the caller's stream nor changes to them matter to anyone.
+class PrivateStream
 {
 public:
-    explicit ThrowOnFailure(std::istream& in)
-        : m_in(in)
-        , m_mask(in.exceptions())
+    explicit PrivateStream(std::istream& caller)
+        : stream(nullptr)
+        , m_caller(caller)
     {
-        // The content of a section is followed by its end marker: reaching the end of input means
-        // that the section is truncated.
-        m_in.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
+        stream.imbue(std::locale::classic());
+        stream.rdbuf(caller.rdbuf());
+        stream.setstate(caller.rdstate());
     }
-    // The end marker itself may be the last thing in the input.
-    void allow_eof() { m_in.exceptions(std::ios_base::failbit | std::ios_base::badbit); }
-    ~ThrowOnFailure()
+    ~PrivateStream()
     {
         try {
-            m_in.exceptions(m_mask);
+            m_caller.setstate(stream.rdstate());
         } catch (...) {
-            // The mask is restored; a failure is already being reported.
+            // Failures are reported by load_msh itself, and reaching the end of input is not one.
         }
     }
-    ThrowOnFailure(const ThrowOnFailure&) = delete;
-    ThrowOnFailure& operator=(const ThrowOnFailure&) = delete;
+    PrivateStream(const PrivateStream&) = delete;
+    PrivateStream& operator=(const PrivateStream&) = delete;
+
+    std::istream stream;
 
 private:
-    std::istream& m_in;
-    std::ios_base::iostate m_mask;
+    std::istream& m_caller;
 };
 
 } // namespace
@@ -61,15 +62,20 @@ void forward_to(std::istream& in, const std::string& flag)
     }
 }
 
-MshSpec load_msh(std::istream& in)
+MshSpec load_msh(std::istream& caller_in)
 try {
+    PrivateStream private_stream(caller_in);
+    std::istream& in = private_stream.stream;
+
     MshSpec spec;
     std::string buf, end_str;
 
     while (in >> buf) {
         if (buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
-        ThrowOnFailure guard(in);
+        // The content of a section is followed by its end marker: reaching the end of input means
+        // that the section is truncated.
+        in.exceptions(std::ios_base::failbit | std::ios_base::badbit | std::ios_base::eofbit);
         if (buf == "$MeshFormat") {
             load_mesh_format(in, spec);
         } else if (buf == "$Entities") {
@@ -95,8 +101,10 @@ try {
         } else {
             std::cerr << "Warning: skipping section \"" << buf << "\"" << std::endl;
         }
-        guard.allow_eof();
+        // The end marker itself may be the last thing in the input.
+        in.exceptions(std::ios_base::failbit | std::ios_base::badbit);
         forward_to(in, end_str);
+        in.exceptions(std::ios_base::goodbit);
     }
     if (in.bad() || !in.eof()) {
         throw InvalidFormat("Unable to read from the input stream.");
diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..0dcd6b3 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,10 +12,14 @@
 
 #include <cassert>
 #include <fstream>
+#include <locale>
+#include <ostream>
 
 namespace mshio {
 
-void save_msh(std::ostream& out, const MshSpec& spec)
+namespace {
+
+void save_sections(std::ostream& out, const MshSpec& spec)
 {
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
@@ -50,6 +54,21 @@ void save_msh(std::ostream& out, const MshSpec& spec)
 #endif
 }
 
+} // namespace
+
+void save_msh(std::ostream& out, const MshSpec& spec)
+{
+    // Write to the same buffer with a stream of our own, so that neither the format settings and
+    // locale of the caller's stream nor changes to them matter to anyone.
+    std::ostream private_out(nullptr);
+    private_out.imbue(std::locale::classic());
+    private_out.rdbuf(out.rdbuf());
+    private_out.setstate(out.rdstate());
+
+    save_sections(private_out, spec);
+    out.setstate(private_out.rdstate());
+}
+
 void save_msh(const std::string& filename, const MshSpec& spec)
 {
     std::ofstream fout(filename.c_str(), std::ios::binary);
-- 
2.43.0


From 81e05ba8da405b4d1e4d750eddabaeae3ff42144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:36 +0000
Subject: [PATCH 07/23] fix: write doubles with enough digits to read them back
 exactly

---
 src/save_msh.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 0dcd6b3..958ffcf 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,6 +12,7 @@
 
 #include <cassert>
 #include <fstream>
+#include <limits>
 #include <locale>
 #include <ostream>
 
@@ -64,6 +65,8 @@ void save_msh(std::ostream& out, const MshSpec& spec)
     private_out.imbue(std::locale::classic());
     private_out.rdbuf(out.rdbuf());
     private_out.setstate(out.rdstate());
+    // Enough digits to read back every double exactly.
+    private_out.precision(std::numeric_limits<double>::max_digits10);
 
     save_sections(private_out, spec);
     out.setstate(private_out.rdstate());
-- 
2.43.0


From 4072baff89d9529cbce76bb9ca270c3a9ed920bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:39 +0000
Subject: [PATCH 08/23] fix: report failure to write the output file

---
 src/save_msh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 958ffcf..7286e4a 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -15,6 +15,7 @@
 #include <limits>
 #include <locale>
 #include <ostream>
+#include <stdexcept>
 
 namespace mshio {
 
@@ -79,6 +80,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (!fout) {
+        throw std::runtime_error("Unable to write the output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0


From 492e1774f3e7de730aa3e0a3cafdf092a8890837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:43 +0000
Subject: [PATCH 09/23] fix: do not leave a reversed tag range behind an empty
 MSH 2.2 section

---
 src/load_msh_post_process.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index ee8823c..d1794a4 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -68,6 +68,10 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     }
     std::swap(spec.nodes.entity_blocks, node_blocks);
     spec.nodes.num_entity_blocks = spec.nodes.entity_blocks.size();
+    if (spec.nodes.num_nodes == 0) {
+        spec.nodes.min_node_tag = 0;
+        spec.nodes.max_node_tag = 0;
+    }
 }
 
 void regroup_elements_into_blocks(MshSpec& spec)
@@ -99,6 +103,10 @@ void regroup_elements_into_blocks(MshSpec& spec)
 
     std::swap(spec.elements.entity_blocks, element_blocks);
     spec.elements.num_entity_blocks = spec.elements.entity_blocks.size();
+    if (spec.elements.num_elements == 0) {
+        spec.elements.min_element_tag = 0;
+        spec.elements.max_element_tag = 0;
+    }
 }
 
 } // namespace v22
-- 
2.43.0


From 418cc383726e67e593a1f8b6714cb7a82c5f2111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:08 +0000
Subject: [PATCH 10/23] fix: do not write headers of empty element blocks in
 MSH 2.2 binary files

---
 src/save_msh_elements.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..4bec34e 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -99,6 +99,8 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        // The element headers end where the total number of elements is reached.
+        if (block.num_elements_in_block == 0) continue;
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
         const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
-- 
2.43.0


From f3e1bd9f07f94fece6f9c073c4ab4d32dba89364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:11 +0000
Subject: [PATCH 11/23] fix: do not drop the blocks of a mesh whose blocks are
 all empty

---
 src/save_msh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 7286e4a..4b44667 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -30,10 +30,10 @@ void save_sections(std::ostream& out, const MshSpec& spec)
     if (!spec.entities.empty()) {
         save_entities(out, spec);
     }
-    if (spec.nodes.num_nodes > 0) {
+    if (spec.nodes.num_nodes > 0 || !spec.nodes.entity_blocks.empty()) {
         save_nodes(out, spec);
     }
-    if (spec.elements.num_elements > 0) {
+    if (spec.elements.num_elements > 0 || !spec.elements.entity_blocks.empty()) {
         save_elements(out, spec);
     }
     if (spec.node_data.size() > 0) {
-- 
2.43.0


From e9e495f6119c6089a90a1f57f0f346bcf749b66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:14 +0000
Subject: [PATCH 12/23] fix: refuse to load or save unsupported versions, file
 types and data sizes

---
 src/load_msh_format.cpp |  6 ++++++
 src/save_msh_format.cpp | 17 +++++++++++++++++
 2 files changed, 23 insertions(+)

diff --git a/src/load_msh_format.cpp b/src/load_msh_format.cpp
index 6288d0c..48f2771 100644
--- a/src/load_msh_format.cpp
+++ b/src/load_msh_format.cpp
@@ -25,6 +25,12 @@ void load_mesh_format(std::istream& in, MshSpec& spec)
     in >> format.file_type;
     in >> format.data_size;
 
+    if (format.file_type != 0 && format.file_type != 1) {
+        std::stringstream msg;
+        msg << "Unsupported MSH file type: " << format.file_type;
+        throw UnsupportedFeature(msg.str());
+    }
+
     if (format.version == "4.1" && sizeof(size_t) != format.data_size) {
         std::stringstream msg;
         msg << "MSH file (v4.1) requested data size of " << format.data_size
diff --git a/src/save_msh_format.cpp b/src/save_msh_format.cpp
index e4785c3..5a51e05 100644
--- a/src/save_msh_format.cpp
+++ b/src/save_msh_format.cpp
@@ -1,14 +1,31 @@
 #include "save_msh_format.h"
 
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include <ostream>
+#include <sstream>
 
 namespace mshio {
 
 void save_mesh_format(std::ostream& out, const MshSpec& spec)
 {
     const MeshFormat& format = spec.mesh_format;
+    // Anything but this cannot be loaded again.
+    if (format.version != "2.2" && format.version != "4.1") {
+        throw UnsupportedFeature("Unsupported MSH version: " + format.version);
+    }
+    if (format.file_type != 0 && format.file_type != 1) {
+        std::stringstream msg;
+        msg << "Unsupported MSH file type: " << format.file_type;
+        throw UnsupportedFeature(msg.str());
+    }
+    if (format.version == "4.1" && format.data_size != sizeof(size_t)) {
+        std::stringstream msg;
+        msg << "Unsupported MSH data size: " << format.data_size;
+        throw UnsupportedFeature(msg.str());
+    }
+
     out << "$MeshFormat" << std::endl;
     out << format.version << " " << format.file_type << " " << format.data_size << std::endl;
     if (format.file_type == 1) {
-- 
2.43.0


From 46e4891f37754039662a328e663a2a3db8ca092b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:19 +0000
Subject: [PATCH 13/23] fix: keep the physical group of elements when saving as
 MSH 2.2

---
 src/save_msh_elements.cpp | 61 ++++++++++++++++++++++++++++++++++-----
 1 file changed, 54 insertions(+), 7 deletions(-)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 4bec34e..241eba4 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -6,10 +6,13 @@
 #include <mshio/exception.h>
 
 #include <algorithm>
+#include <array>
 #include <cassert>
 #include <fstream>
+#include <map>
 #include <sstream>
 #include <string>
+#include <vector>
 
 
 namespace mshio {
@@ -67,20 +70,64 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
 
 namespace v22 {
 
+namespace {
+
+// The physical group of the elements of each entity, by entity dimension and tag. Format 2.2 has
+// room for one group per element.
+using PhysicalTags = std::array<std::map<int, int>, 4>;
+
+template <typename Entity>
+void collect_physical_tags(const std::vector<Entity>& entities, std::map<int, int>& physical_tags)
+{
+    for (const Entity& entity : entities) {
+        if (!entity.physical_group_tags.empty()) {
+            physical_tags.emplace(entity.tag, entity.physical_group_tags.front());
+        }
+    }
+}
+
+PhysicalTags get_physical_tags(const MshSpec& spec)
+{
+    PhysicalTags physical_tags;
+    collect_physical_tags(spec.entities.points, physical_tags[0]);
+    collect_physical_tags(spec.entities.curves, physical_tags[1]);
+    collect_physical_tags(spec.entities.surfaces, physical_tags[2]);
+    collect_physical_tags(spec.entities.volumes, physical_tags[3]);
+    return physical_tags;
+}
+
+// The tags written with each element: the physical group, if any, and the entity.
+std::vector<int32_t> get_element_tags(const PhysicalTags& physical_tags, const ElementBlock& block)
+{
+    if (block.entity_dim >= 0 && block.entity_dim <= 3) {
+        const auto& tags = physical_tags[static_cast<size_t>(block.entity_dim)];
+        const auto it = tags.find(block.entity_tag);
+        if (it != tags.end()) {
+            return {it->second, block.entity_tag};
+        }
+    }
+    return {block.entity_tag};
+}
+
+} // namespace
+
 void save_elements_ascii(std::ostream& out, const MshSpec& spec)
 {
     const Elements& elements = spec.elements;
+    const PhysicalTags physical_tags = get_physical_tags(spec);
     out << elements.num_elements << std::endl;
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
         int element_type = block.element_type;
         const size_t n = nodes_per_element(element_type);
-        constexpr int num_tags = 1;
+        const std::vector<int32_t> tags = get_element_tags(physical_tags, block);
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             size_t element_number = block.data[j * (n + 1)];
-            out << element_number << " " << element_type << " " << num_tags << " "
-                << block.entity_tag << " ";
+            out << element_number << " " << element_type << " " << tags.size() << " ";
+            for (const int32_t tag : tags) {
+                out << tag << " ";
+            }
             for (size_t k = 0; k < n; k++) {
                 out << block.data[j * (n + 1) + k + 1];
                 if (k == n - 1) {
@@ -96,25 +143,25 @@ void save_elements_ascii(std::ostream& out, const MshSpec& spec)
 void save_elements_binary(std::ostream& out, const MshSpec& spec)
 {
     const Elements& elements = spec.elements;
+    const PhysicalTags physical_tags = get_physical_tags(spec);
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
         // The element headers end where the total number of elements is reached.
         if (block.num_elements_in_block == 0) continue;
         const int32_t element_type = block.element_type;
-        constexpr int32_t num_tags = 1;
+        const std::vector<int32_t> tags = get_element_tags(physical_tags, block);
+        const int32_t num_tags = static_cast<int32_t>(tags.size());
         const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
 
         const size_t n = nodes_per_element(element_type);
-        const int32_t tag = static_cast<int32_t>(block.entity_tag);
-
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             const int32_t element_number = static_cast<int32_t>(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
-            out.write(reinterpret_cast<const char*>(&tag), 4);
+            out.write(reinterpret_cast<const char*>(tags.data()), 4 * num_tags);
             for (size_t k = 0; k < n; k++) {
                 const int32_t node_id = static_cast<int32_t>(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
-- 
2.43.0


From 357929f03db74cfcc40b0f565a6ae668ff39e2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:30 +0000
Subject: [PATCH 14/23] fix: check everything the counts in a specification
 promise, without crashing

---
 src/validate_spec.cpp | 78 +++++++++++++++++++++++++++++++++++++++----
 1 file changed, 72 insertions(+), 6 deletions(-)

diff --git a/src/validate_spec.cpp b/src/validate_spec.cpp
index 438d201..931a7a3 100644
--- a/src/validate_spec.cpp
+++ b/src/validate_spec.cpp
@@ -1,7 +1,10 @@
+#include "element_utils.h"
+
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
 #include <string>
+#include <vector>
 
 namespace mshio {
 
@@ -25,27 +28,43 @@ void validate_spec(const MshSpec& spec)
     ASSERT(
         elements.min_element_tag <= elements.max_element_tag, "Min element tag > max element tag.");
 
+    // Whether a == b * c, without overflow.
+    auto is_product = [](size_t a, size_t b, size_t c) {
+        return c == 0 ? a == 0 : (a / c == b && a % c == 0);
+    };
+
+    size_t num_nodes = 0;
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         const NodeBlock& block = nodes.entity_blocks[i];
+        num_nodes += block.num_nodes_in_block;
         ASSERT(block.tags.size() == block.num_nodes_in_block, "Inconsist number of node tags.");
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             ASSERT(block.tags[j] >= nodes.min_node_tag, "Node tag < min node tag.");
             ASSERT(block.tags[j] <= nodes.max_node_tag, "Node tag > max node tag.");
         }
 
-        if (block.parametric > 0) {
-            ASSERT(block.data.size() ==
-                       block.num_nodes_in_block * static_cast<size_t>(3 + block.entity_dim),
+        ASSERT(block.parametric >= 0 && block.parametric <= 3, "Invalid parametric flag.");
+        if (block.parametric == 1) {
+            ASSERT(block.entity_dim >= 0 && block.entity_dim <= 3,
+                "Invalid dimension of parametric node block.");
+            ASSERT(is_product(block.data.size(),
+                       block.num_nodes_in_block,
+                       static_cast<size_t>(3 + block.entity_dim)),
                 "Invalide node data size.");
         } else {
-            ASSERT(block.data.size() == block.num_nodes_in_block * 3, "Invalid node data size.");
+            ASSERT(is_product(block.data.size(), block.num_nodes_in_block, 3),
+                "Invalid node data size.");
         }
     }
+    ASSERT(num_nodes == nodes.num_nodes, "Inconsistent number of nodes.");
 
+    size_t num_elements = 0;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
-        const size_t entries_per_element = block.data.size() / block.num_elements_in_block;
-        ASSERT(block.data.size() % entries_per_element == 0, "Invalid element data size.");
+        num_elements += block.num_elements_in_block;
+        const size_t entries_per_element = nodes_per_element(block.element_type) + 1;
+        ASSERT(is_product(block.data.size(), block.num_elements_in_block, entries_per_element),
+            "Invalid element data size.");
         for (size_t j = 0; j < block.data.size(); j++) {
             if (j % entries_per_element == 0) {
                 ASSERT(block.data[j] >= elements.min_element_tag, "Element tag < min element tag.");
@@ -56,6 +75,53 @@ void validate_spec(const MshSpec& spec)
             }
         }
     }
+    ASSERT(num_elements == elements.num_elements, "Inconsistent number of elements.");
+
+    auto validate_data = [&](const std::vector<Data>& all_data, bool is_element_node_data) {
+        for (const Data& data : all_data) {
+            const std::vector<int>& int_tags = data.header.int_tags;
+            ASSERT(int_tags.size() >= 3, "Data requires at least 3 int tags.");
+            ASSERT(int_tags[1] >= 0, "Negative number of fields in data.");
+            ASSERT(int_tags[2] >= 0 && static_cast<size_t>(int_tags[2]) == data.entries.size(),
+                "Inconsistent number of data entries.");
+            for (const DataEntry& entry : data.entries) {
+                const int num_values = is_element_node_data ? entry.num_nodes_per_element : 1;
+                ASSERT(num_values >= 0, "Negative number of nodes in data entry.");
+                ASSERT(is_product(entry.data.size(),
+                           static_cast<size_t>(num_values),
+                           static_cast<size_t>(int_tags[1])),
+                    "Invalid data entry size.");
+            }
+        }
+    };
+    validate_data(spec.node_data, false);
+    validate_data(spec.element_data, false);
+    validate_data(spec.element_node_data, true);
+
+#ifdef MSHIO_EXT_NANOSPLINE
+    const std::string& version = spec.nanospline_format.version;
+    ASSERT(!version.empty() && version.find_first_of(" \t\n\v\f\r") == std::string::npos,
+        "Invalid NanoSpline format version.");
+    // Whether the data consists of so many knots and control points.
+    auto is_spline_data = [&](size_t size, size_t knots, size_t points, size_t with_weights) {
+        return size >= knots && is_product(size - knots, points, (with_weights > 0) ? 4 : 3);
+    };
+    for (const Curve& curve : spec.curves) {
+        ASSERT(is_spline_data(curve.data.size(),
+                   curve.num_knots,
+                   curve.num_control_points,
+                   curve.with_weights),
+            "Invalid curve data size.");
+    }
+    for (const Patch& patch : spec.patches) {
+        ASSERT(patch.data.size() >= patch.num_u_knots &&
+                   is_spline_data(patch.data.size() - patch.num_u_knots,
+                       patch.num_v_knots,
+                       patch.num_control_points,
+                       patch.with_weights),
+            "Invalid patch data size.");
+    }
+#endif
 }
 
 } // namespace mshio
-- 
2.43.0


From 5814973e7f93f8f48a7464bad6af2ed47295b553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:51 +0000
Subject: [PATCH 15/23] fix: print all coordinates of parametric nodes in
 msh_inspect

---
 examples/msh_inspect.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/examples/msh_inspect.cpp b/examples/msh_inspect.cpp
index 82c26f2..020375d 100644
--- a/examples/msh_inspect.cpp
+++ b/examples/msh_inspect.cpp
@@ -130,10 +130,12 @@ int main(int argc, char** argv)
         std::cout << "  entity tag: " << block.entity_tag << std::endl;
         std::cout << "  parametric: " << block.parametric << std::endl;
         std::cout << "  num nodes in block: " << block.num_nodes_in_block << std::endl;
+        const size_t entries_per_node =
+            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             std::cout << "    " << block.tags[j] << ": ";
-            for (size_t k = 0; k < 3 + block.parametric; k++) {
-                std::cout << block.data[j * (3 + block.parametric) + k] << " ";
+            for (size_t k = 0; k < entries_per_node; k++) {
+                std::cout << block.data[j * entries_per_node + k] << " ";
             }
             std::cout << std::endl;
         }
-- 
2.43.0


From f288e52a4ff5966314803d96d6dea6fa3c416419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:52 +0000
Subject: [PATCH 16/23] fix: expose num_nodes_per_element to Python under its
 own name

---
 python/pymshio.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/pymshio.cpp b/python/pymshio.cpp
index 19b7ec5..97fa9aa 100644
--- a/python/pymshio.cpp
+++ b/python/pymshio.cpp
@@ -92,6 +92,8 @@ NB_MODULE(pymshio, m)
     nb::class_<mshio::DataEntry>(m, "DataEntry")
         .def(nb::init<>())
         .def_rw("tag", &mshio::DataEntry::tag)
+        .def_rw("num_nodes_per_element", &mshio::DataEntry::num_nodes_per_element)
+        // The name of earlier releases.
         .def_rw("num_nodes_per_elements", &mshio::DataEntry::num_nodes_per_element)
         .def_rw("data", &mshio::DataEntry::data)
         .def("__repr__", [](const mshio::DataEntry& self) {
-- 
2.43.0


From 2dafb50b75bf897a2ac3622e47f2b8cb1069f97f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:21 +0000
Subject: [PATCH 17/23] fix: refuse unsupported element types in binary output
 as in text

---
 src/save_msh_elements.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 241eba4..26303ca 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -55,6 +55,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
 
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        assert_element_is_supported(block.element_type);
 
         out.write(reinterpret_cast<const char*>(&block.entity_dim), sizeof(int));
         out.write(reinterpret_cast<const char*>(&block.entity_tag), sizeof(int));
@@ -147,6 +148,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        assert_element_is_supported(block.element_type);
         // The element headers end where the total number of elements is reached.
         if (block.num_elements_in_block == 0) continue;
         const int32_t element_type = block.element_type;
-- 
2.43.0


From e2adb89ebb1d8e9230044808554f814e3decfc1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:51 +0000
Subject: [PATCH 18/23] fix: end binary curve and patch sections on a line of
 their own so that they can be skipped

---
 src/save_msh_curves.cpp  | 1 +
 src/save_msh_patches.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/save_msh_curves.cpp b/src/save_msh_curves.cpp
index 54efb42..a3895dc 100644
--- a/src/save_msh_curves.cpp
+++ b/src/save_msh_curves.cpp
@@ -65,6 +65,7 @@ void save_curves_binary(std::ostream& out, const MshSpec& spec)
 
         out.write(reinterpret_cast<const char*>(curve.data.data()), sizeof(double) * num_entries);
     }
+    out << std::endl;
 #endif
 }
 
diff --git a/src/save_msh_patches.cpp b/src/save_msh_patches.cpp
index e68fa6b..c5eec51 100644
--- a/src/save_msh_patches.cpp
+++ b/src/save_msh_patches.cpp
@@ -72,6 +72,7 @@ void save_patches_binary(std::ostream& out, const MshSpec& spec)
 
         out.write(reinterpret_cast<const char*>(patch.data.data()), sizeof(double) * num_entries);
     }
+    out << std::endl;
 #endif
 }
 
-- 
2.43.0


From e08e6b2f0a616fd7aefdbf717fb7bb88bfbb7bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 19/23] Revert "fix: print all coordinates of parametric nodes
 in msh_inspect"

This reverts commit 5814973e7f93f8f48a7464bad6af2ed47295b553.
---
 examples/msh_inspect.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/examples/msh_inspect.cpp b/examples/msh_inspect.cpp
index 020375d..82c26f2 100644
--- a/examples/msh_inspect.cpp
+++ b/examples/msh_inspect.cpp
@@ -130,12 +130,10 @@ int main(int argc, char** argv)
         std::cout << "  entity tag: " << block.entity_tag << std::endl;
         std::cout << "  parametric: " << block.parametric << std::endl;
         std::cout << "  num nodes in block: " << block.num_nodes_in_block << std::endl;
-        const size_t entries_per_node =
-            static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             std::cout << "    " << block.tags[j] << ": ";
-            for (size_t k = 0; k < entries_per_node; k++) {
-                std::cout << block.data[j * entries_per_node + k] << " ";
+            for (size_t k = 0; k < 3 + block.parametric; k++) {
+                std::cout << block.data[j * (3 + block.parametric) + k] << " ";
             }
             std::cout << std::endl;
         }
-- 
2.43.0


From 820fd3100faf2b51f6a72d6baf24c1732fcc2f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:58 +0000
Subject: [PATCH 20/23] Revert "fix: check everything the counts in a
 specification promise, without crashing"

This reverts commit 357929f03db74cfcc40b0f565a6ae668ff39e2ba.
---
 src/validate_spec.cpp | 78 ++++---------------------------------------
 1 file changed, 6 insertions(+), 72 deletions(-)

diff --git a/src/validate_spec.cpp b/src/validate_spec.cpp
index 931a7a3..438d201 100644
--- a/src/validate_spec.cpp
+++ b/src/validate_spec.cpp
@@ -1,10 +1,7 @@
-#include "element_utils.h"
-
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
 #include <string>
-#include <vector>
 
 namespace mshio {
 
@@ -28,43 +25,27 @@ void validate_spec(const MshSpec& spec)
     ASSERT(
         elements.min_element_tag <= elements.max_element_tag, "Min element tag > max element tag.");
 
-    // Whether a == b * c, without overflow.
-    auto is_product = [](size_t a, size_t b, size_t c) {
-        return c == 0 ? a == 0 : (a / c == b && a % c == 0);
-    };
-
-    size_t num_nodes = 0;
     for (size_t i = 0; i < nodes.num_entity_blocks; i++) {
         const NodeBlock& block = nodes.entity_blocks[i];
-        num_nodes += block.num_nodes_in_block;
         ASSERT(block.tags.size() == block.num_nodes_in_block, "Inconsist number of node tags.");
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
             ASSERT(block.tags[j] >= nodes.min_node_tag, "Node tag < min node tag.");
             ASSERT(block.tags[j] <= nodes.max_node_tag, "Node tag > max node tag.");
         }
 
-        ASSERT(block.parametric >= 0 && block.parametric <= 3, "Invalid parametric flag.");
-        if (block.parametric == 1) {
-            ASSERT(block.entity_dim >= 0 && block.entity_dim <= 3,
-                "Invalid dimension of parametric node block.");
-            ASSERT(is_product(block.data.size(),
-                       block.num_nodes_in_block,
-                       static_cast<size_t>(3 + block.entity_dim)),
+        if (block.parametric > 0) {
+            ASSERT(block.data.size() ==
+                       block.num_nodes_in_block * static_cast<size_t>(3 + block.entity_dim),
                 "Invalide node data size.");
         } else {
-            ASSERT(is_product(block.data.size(), block.num_nodes_in_block, 3),
-                "Invalid node data size.");
+            ASSERT(block.data.size() == block.num_nodes_in_block * 3, "Invalid node data size.");
         }
     }
-    ASSERT(num_nodes == nodes.num_nodes, "Inconsistent number of nodes.");
 
-    size_t num_elements = 0;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
-        num_elements += block.num_elements_in_block;
-        const size_t entries_per_element = nodes_per_element(block.element_type) + 1;
-        ASSERT(is_product(block.data.size(), block.num_elements_in_block, entries_per_element),
-            "Invalid element data size.");
+        const size_t entries_per_element = block.data.size() / block.num_elements_in_block;
+        ASSERT(block.data.size() % entries_per_element == 0, "Invalid element data size.");
         for (size_t j = 0; j < block.data.size(); j++) {
             if (j % entries_per_element == 0) {
                 ASSERT(block.data[j] >= elements.min_element_tag, "Element tag < min element tag.");
@@ -75,53 +56,6 @@ void validate_spec(const MshSpec& spec)
             }
         }
     }
-    ASSERT(num_elements == elements.num_elements, "Inconsistent number of elements.");
-
-    auto validate_data = [&](const std::vector<Data>& all_data, bool is_element_node_data) {
-        for (const Data& data : all_data) {
-            const std::vector<int>& int_tags = data.header.int_tags;
-            ASSERT(int_tags.size() >= 3, "Data requires at least 3 int tags.");
-            ASSERT(int_tags[1] >= 0, "Negative number of fields in data.");
-            ASSERT(int_tags[2] >= 0 && static_cast<size_t>(int_tags[2]) == data.entries.size(),
-                "Inconsistent number of data entries.");
-            for (const DataEntry& entry : data.entries) {
-                const int num_values = is_element_node_data ? entry.num_nodes_per_element : 1;
-                ASSERT(num_values >= 0, "Negative number of nodes in data entry.");
-                ASSERT(is_product(entry.data.size(),
-                           static_cast<size_t>(num_values),
-                           static_cast<size_t>(int_tags[1])),
-                    "Invalid data entry size.");
-            }
-        }
-    };
-    validate_data(spec.node_data, false);
-    validate_data(spec.element_data, false);
-    validate_data(spec.element_node_data, true);
-
-#ifdef MSHIO_EXT_NANOSPLINE
-    const std::string& version = spec.nanospline_format.version;
-    ASSERT(!version.empty() && version.find_first_of(" \t\n\v\f\r") == std::string::npos,
-        "Invalid NanoSpline format version.");
-    // Whether the data consists of so many knots and control points.
-    auto is_spline_data = [&](size_t size, size_t knots, size_t points, size_t with_weights) {
-        return size >= knots && is_product(size - knots, points, (with_weights > 0) ? 4 : 3);
-    };
-    for (const Curve& curve : spec.curves) {
-        ASSERT(is_spline_data(curve.data.size(),
-                   curve.num_knots,
-                   curve.num_control_points,
-                   curve.with_weights),
-            "Invalid curve data size.");
-    }
-    for (const Patch& patch : spec.patches) {
-        ASSERT(patch.data.size() >= patch.num_u_knots &&
-                   is_spline_data(patch.data.size() - patch.num_u_knots,
-                       patch.num_v_knots,
-                       patch.num_control_points,
-                       patch.with_weights),
-            "Invalid patch data size.");
-    }
-#endif
 }
 
 } // namespace mshio
-- 
2.43.0


From 89cc10b605b4e59fd5ced91d9f49918adfc1c7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:40 +0000
Subject: [PATCH 21/23] fix: do not lose names silently when memory runs out
 while saving

---
 src/io_utils.cpp                 | 10 ++++++++++
 src/io_utils.h                   |  6 ++++++
 src/save_msh_data.cpp            |  5 +++--
 src/save_msh_physical_groups.cpp |  6 ++++--
 4 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 7e5d5b2..437ceb0 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -29,5 +29,15 @@ size_t checked_size(size_t count, size_t size, size_t extra)
     return count * size + extra;
 }
 
+void write_quoted(std::ostream& out, const std::string& text)
+{
+    out.put('"');
+    for (const char ch : text) {
+        if (ch == '"' || ch == '\\') out.put('\\');
+        out.put(ch);
+    }
+    out.put('"');
+}
+
 } // namespace mshio
 
diff --git a/src/io_utils.h b/src/io_utils.h
index ac7aafb..c4f2af7 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -2,6 +2,8 @@
 
 #include <istream>
 #include <limits>
+#include <ostream>
+#include <string>
 
 namespace mshio {
 
@@ -10,5 +12,9 @@ void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t
 // Computes count * size + extra, throws InvalidFormat if the result does not fit in size_t.
 size_t checked_size(size_t count, size_t size, size_t extra = 0);
 
+// Writes what std::quoted writes. The latter builds the text in a string stream of its own, which
+// loses it without a trace if memory runs out.
+void write_quoted(std::ostream& out, const std::string& text);
+
 } // namespace mshio
 
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index eb35260..aa77a0b 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -1,10 +1,10 @@
 #include "save_msh_data.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
 #include <cassert>
-#include <iomanip>
 #include <ostream>
 #include <string>
 
@@ -20,7 +20,8 @@ void save_data(std::ostream& out,
 {
     out << data.header.string_tags.size() << std::endl;
     for (const std::string& tag : data.header.string_tags) {
-        out << std::quoted(tag) << std::endl;
+        write_quoted(out, tag);
+        out << std::endl;
     }
 
     out << data.header.real_tags.size() << std::endl;
diff --git a/src/save_msh_physical_groups.cpp b/src/save_msh_physical_groups.cpp
index 40bbff7..37f4b35 100644
--- a/src/save_msh_physical_groups.cpp
+++ b/src/save_msh_physical_groups.cpp
@@ -1,10 +1,11 @@
 #include "save_msh_physical_groups.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
 
 #include <cassert>
-#include <iomanip>
+#include <ostream>
 
 namespace mshio {
 
@@ -17,7 +18,8 @@ void save_physical_groups(std::ostream& out, const MshSpec& spec)
     for (const auto& group: groups) {
         out << group.dim << " ";
         out << group.tag << " ";
-        out << std::quoted(group.name) << std::endl;
+        write_quoted(out, group.name);
+        out << std::endl;
     }
     out << "$EndPhysicalNames" << std::endl;
 }
-- 
2.43.0


From e0c44447025d2335e2c580242fc755bff9cd7d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:59 +0000
Subject: [PATCH 22/23] fix: keep loading 2.2 files fast for node tags at
 regular distances

---
 src/load_msh_post_process.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index d1794a4..2e99c91 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -5,7 +5,7 @@
 
 #include <cassert>
 #include <limits>
-#include <unordered_map>
+#include <map>
 #include <utility>
 #include <vector>
 
@@ -17,8 +17,9 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     auto& nodes = spec.nodes;
     auto& elements = spec.elements;
 
-    // Node tags may be sparse, and elements may refer to nodes that do not exist.
-    std::unordered_map<size_t, std::pair<size_t, size_t>> node_entities;
+    // Node tags may be sparse, and elements may refer to nodes that do not exist. Not a hash table:
+    // tags at regular distances could make it slow.
+    std::map<size_t, std::pair<size_t, size_t>> node_entities;
 
     for (const auto& block : elements.entity_blocks) {
         const auto n = nodes_per_element(block.element_type);
-- 
2.43.0


From 1a09555d4fb29d2457edb4e1d5e907a0c1cf4296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:26 +0000
Subject: [PATCH 23/23] fix: refuse tags that do not fit the 32 bits of the
 format instead of altering them

---
 src/io_utils.cpp          | 10 ++++++++++
 src/io_utils.h            |  5 +++++
 src/save_msh_data.cpp     |  4 ++--
 src/save_msh_elements.cpp |  6 +++---
 src/save_msh_nodes.cpp    |  3 ++-
 5 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/io_utils.cpp b/src/io_utils.cpp
index 437ceb0..c25861a 100644
--- a/src/io_utils.cpp
+++ b/src/io_utils.cpp
@@ -29,6 +29,16 @@ size_t checked_size(size_t count, size_t size, size_t extra)
     return count * size + extra;
 }
 
+int32_t to_int32(size_t value)
+{
+    const int32_t result = static_cast<int32_t>(value);
+    if (static_cast<size_t>(result) != value) {
+        throw UnsupportedFeature(
+            "MSH format has 32 bits for a tag or count of " + std::to_string(value) + ".");
+    }
+    return result;
+}
+
 void write_quoted(std::ostream& out, const std::string& text)
 {
     out.put('"');
diff --git a/src/io_utils.h b/src/io_utils.h
index c4f2af7..fe489b9 100644
--- a/src/io_utils.h
+++ b/src/io_utils.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <cstdint>
 #include <istream>
 #include <limits>
 #include <ostream>
@@ -12,6 +13,10 @@ void eat_white_space(std::istream& in, size_t count = std::numeric_limits<size_t
 // Computes count * size + extra, throws InvalidFormat if the result does not fit in size_t.
 size_t checked_size(size_t count, size_t size, size_t extra = 0);
 
+// Converts a tag or count to the 32 bits that format 2.2 and binary data entries have for it, throws
+// UnsupportedFeature if another number would be read back.
+int32_t to_int32(size_t value);
+
 // Writes what std::quoted writes. The latter builds the text in a string stream of its own, which
 // loses it without a trace if memory runs out.
 void write_quoted(std::ostream& out, const std::string& text);
diff --git a/src/save_msh_data.cpp b/src/save_msh_data.cpp
index aa77a0b..71664ef 100644
--- a/src/save_msh_data.cpp
+++ b/src/save_msh_data.cpp
@@ -42,7 +42,7 @@ void save_data(std::ostream& out,
                 // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
                 // bits tag, which is inconsistent with their spec.  Maybe
                 // report a bug?
-                tag = static_cast<int32_t>(entry.tag);
+                tag = to_int32(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 // out.write(reinterpret_cast<const char*>(&entry.tag), sizeof(size_t));
                 if (is_element_node_data) {
@@ -55,7 +55,7 @@ void save_data(std::ostream& out,
         } else if (version == "2.2") {
             int32_t tag, num_nodes_per_element;
             for (const DataEntry& entry : data.entries) {
-                tag = static_cast<int32_t>(entry.tag);
+                tag = to_int32(entry.tag);
                 out.write(reinterpret_cast<const char*>(&tag), 4);
                 if (is_element_node_data) {
                     num_nodes_per_element = static_cast<int32_t>(entry.num_nodes_per_element);
diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index 26303ca..8e0906e 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -154,18 +154,18 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
         const int32_t element_type = block.element_type;
         const std::vector<int32_t> tags = get_element_tags(physical_tags, block);
         const int32_t num_tags = static_cast<int32_t>(tags.size());
-        const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
+        const int32_t num_element_in_block = to_int32(block.num_elements_in_block);
         out.write(reinterpret_cast<const char*>(&element_type), 4);
         out.write(reinterpret_cast<const char*>(&num_element_in_block), 4);
         out.write(reinterpret_cast<const char*>(&num_tags), 4);
 
         const size_t n = nodes_per_element(element_type);
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
-            const int32_t element_number = static_cast<int32_t>(block.data[j * (n + 1)]);
+            const int32_t element_number = to_int32(block.data[j * (n + 1)]);
             out.write(reinterpret_cast<const char*>(&element_number), 4);
             out.write(reinterpret_cast<const char*>(tags.data()), 4 * num_tags);
             for (size_t k = 0; k < n; k++) {
-                const int32_t node_id = static_cast<int32_t>(block.data[j * (n + 1) + k + 1]);
+                const int32_t node_id = to_int32(block.data[j * (n + 1) + k + 1]);
                 out.write(reinterpret_cast<const char*>(&node_id), 4);
             }
         }
diff --git a/src/save_msh_nodes.cpp b/src/save_msh_nodes.cpp
index f08fbca..69e7dff 100644
--- a/src/save_msh_nodes.cpp
+++ b/src/save_msh_nodes.cpp
@@ -1,4 +1,5 @@
 #include "save_msh_nodes.h"
+#include "io_utils.h"
 
 #include <mshio/MshSpec.h>
 #include <mshio/exception.h>
@@ -95,7 +96,7 @@ void save_nodes_binary(std::ostream& out, const MshSpec& spec)
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         for (size_t j = 0; j < block.num_nodes_in_block; j++) {
-            const int32_t node_id = static_cast<int32_t>(block.tags[j]);
+            const int32_t node_id = to_int32(block.tags[j]);
             out.write(reinterpret_cast<const char*>(&node_id), 4);
             out.write(reinterpret_cast<const char*>(block.data.data() + j * entries_per_node),
                 static_cast<std::streamsize>(sizeof(double) * 3));
-- 
2.43.0

