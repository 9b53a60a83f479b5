From 49d5d581981da1d23ac4734bbdb7a62b23b65423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 01/12] fix: ASCII output loses digits of floating point values

Doubles were written with the default six significant digits, so saving and
loading changed most coordinates.
---
 src/save_msh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 8f90b88..6827c8e 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -12,11 +12,14 @@
 
 #include <cassert>
 #include <fstream>
+#include <limits>
 
 namespace mshio {
 
 void save_msh(std::ostream& out, const MshSpec& spec)
 {
+    // Enough digits for every double to be read back exactly.
+    const std::streamsize precision = out.precision(std::numeric_limits<double>::max_digits10);
     save_mesh_format(out, spec);
     if (spec.physical_groups.size() > 0) {
         save_physical_groups(out, spec);
@@ -48,6 +51,7 @@ void save_msh(std::ostream& out, const MshSpec& spec)
         save_patches(out, spec);
     }
 #endif
+    out.precision(precision);
 }
 
 void save_msh(const std::string& filename, const MshSpec& spec)
-- 
2.43.0


From 34bed191ca46bf9dd0dbdd4f6c06c46e208ad630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 02/12] fix: save_msh ignores write errors

A full disk or any other write failure was silent: the stream state was never
looked at.
---
 src/save_msh.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save_msh.cpp b/src/save_msh.cpp
index 6827c8e..8335411 100644
--- a/src/save_msh.cpp
+++ b/src/save_msh.cpp
@@ -61,6 +61,10 @@ void save_msh(const std::string& filename, const MshSpec& spec)
         throw std::runtime_error("Unable to open output file to write!");
     }
     save_msh(fout, spec);
+    fout.close();
+    if (!fout) {
+        throw std::runtime_error("Unable to write output file!");
+    }
 }
 
 } // namespace mshio
-- 
2.43.0


From 809d4c99d116fc9145fafa63473203bb4f559d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 03/12] fix: save_msh writes files of unsupported versions

The version was checked only by the node, element and entity writers, so a spec
without those sections was written under any version.
---
 src/save_msh_format.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/save_msh_format.cpp b/src/save_msh_format.cpp
index e4785c3..f11b9d2 100644
--- a/src/save_msh_format.cpp
+++ b/src/save_msh_format.cpp
@@ -1,6 +1,7 @@
 #include "save_msh_format.h"
 
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include <ostream>
 
@@ -9,6 +10,9 @@ namespace mshio {
 void save_mesh_format(std::ostream& out, const MshSpec& spec)
 {
     const MeshFormat& format = spec.mesh_format;
+    if (format.version != "2.2" && format.version != "4.1") {
+        throw UnsupportedFeature("Unsupported MSH version: " + format.version);
+    }
     out << "$MeshFormat" << std::endl;
     out << format.version << " " << format.file_type << " " << format.data_size << std::endl;
     if (format.file_type == 1) {
-- 
2.43.0


From 6410cb8b9d9e2c4930c3a7794664b0a18ac4149d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 04/12] fix: load_msh hangs on unreadable input and returns
 damaged sections

Once a number cannot be parsed the stream stays in the failed state without
ever reaching end-of-file, so both loops ran forever; a truncated section was
returned as if complete.
---
 src/load_msh.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index 1c65163..cfa88a6 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -1,4 +1,5 @@
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include "load_msh_curves.h"
 #include "load_msh_data.h"
@@ -21,9 +22,10 @@ namespace mshio {
 void forward_to(std::istream& in, const std::string& flag)
 {
     std::string buf;
-    while (!in.eof() && buf != flag) {
-        in >> buf;
+    while (in >> buf) {
+        if (buf == flag) return;
     }
+    throw InvalidFormat("Section is damaged or its end marker is missing: " + flag);
 }
 
 MshSpec load_msh(std::istream& in)
@@ -31,9 +33,7 @@ MshSpec load_msh(std::istream& in)
     MshSpec spec;
     std::string buf, end_str;
 
-    while (!in.eof()) {
-        buf.clear();
-        in >> buf;
+    while (in >> buf) {
         if (buf.size() == 0 || buf[0] != '$') continue;
         end_str = "$End" + buf.substr(1);
         if (buf == "$MeshFormat") {
-- 
2.43.0


From 34f3d4b1a0fef4498a4318c02f62b8aa529c75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 05/12] fix: load_msh ignores read errors

An I/O error while reading (a directory given as path, for instance) looked like
the end of an empty file.
---
 src/load_msh.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/load_msh.cpp b/src/load_msh.cpp
index cfa88a6..630fabe 100644
--- a/src/load_msh.cpp
+++ b/src/load_msh.cpp
@@ -15,6 +15,7 @@
 #include <cassert>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 namespace mshio {
@@ -64,6 +65,10 @@ MshSpec load_msh(std::istream& in)
         forward_to(in, end_str);
     }
 
+    if (in.bad()) {
+        throw std::runtime_error("Error while reading input!");
+    }
+
     load_msh_post_process(spec);
     return spec;
 }
-- 
2.43.0


From 004f2c8a03b6ce801ede86311a00d7eb43d5c1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 06/12] fix: load_elements overflows the size of a huge element
 block

The product of the declared count and the entries per element wraps around, and
the ASCII reader then writes beyond the list.
---
 src/load_msh_elements.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 9ec3bc6..8cbe808 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -39,6 +39,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> block.num_elements_in_block;
 
         const size_t n = nodes_per_element(block.element_type);
+        if (block.num_elements_in_block > block.data.max_size() / (n + 1)) {
+            throw InvalidFormat("Element block is too large!");
+        }
         block.data.resize(block.num_elements_in_block * (n + 1));
         for (size_t j = 0; j < block.num_elements_in_block; j++) {
             for (size_t k = 0; k <= n; k++) {
@@ -69,6 +72,9 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&block.num_elements_in_block), sizeof(size_t));
 
         const size_t n = nodes_per_element(block.element_type);
+        if (block.num_elements_in_block > block.data.max_size() / (n + 1)) {
+            throw InvalidFormat("Element block is too large!");
+        }
         block.data.resize(block.num_elements_in_block * (n + 1));
         in.read(reinterpret_cast<char*>(block.data.data()),
             static_cast<std::streamsize>(sizeof(size_t) * block.data.size()));
-- 
2.43.0


From 3b2d6380ec42fa033fb35a8462bb5cae200aac8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 07/12] fix: load_elements (2.2) trusts headers it failed to
 read

Truncated input left the element header uninitialised or unchanged, a negative
tag count became a huge size, 4 * num_tags overflowed, a block header that could
not be read kept the binary loop running forever, and a second section restarted
the total of the first.
---
 src/load_msh_elements.cpp | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/load_msh_elements.cpp b/src/load_msh_elements.cpp
index 8cbe808..88a5a53 100644
--- a/src/load_msh_elements.cpp
+++ b/src/load_msh_elements.cpp
@@ -103,7 +103,7 @@ void create_entities(
 void load_elements_ascii(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    size_t num_elements;
+    size_t num_elements = 0;
     in >> num_elements;
 
     // Due to v2.2 constraints, each element is parsed as a separate block, and
@@ -111,8 +111,8 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
     elements.num_entity_blocks += num_elements;
     elements.num_elements += num_elements;
 
-    int element_num, element_type;
-    int num_tags;
+    int element_num = 0, element_type = 0;
+    int num_tags = 0;
     std::vector<int> tags;
     std::vector<int> node_ids;
 
@@ -122,6 +122,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
         in >> element_num;
         in >> element_type;
         in >> num_tags;
+        if (!in || num_tags < 0) {
+            throw InvalidFormat("Invalid element header!");
+        }
         tags.resize(static_cast<size_t>(num_tags));
         for (int j = 0; j < num_tags; j++) {
             in >> tags[static_cast<size_t>(j)];
@@ -178,8 +181,9 @@ void load_elements_ascii(std::istream& in, MshSpec& spec)
 void load_elements_binary(std::istream& in, MshSpec& spec)
 {
     Elements& elements = spec.elements;
-    in >> elements.num_elements;
-    elements.entity_blocks.reserve(elements.num_elements);
+    size_t num_elements = 0;
+    in >> num_elements;
+    elements.num_elements += num_elements;
     eat_white_space(in, 1);
 
     std::array<std::map<int, std::set<int>>, 4> entity_tag_to_physical_tags;
@@ -188,11 +192,14 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
     int32_t min_tag = std::numeric_limits<int32_t>::max();
     int32_t max_tag = 0;
     size_t num_processed_elements = 0;
-    while (num_processed_elements != elements.num_elements) {
-        int32_t element_type, num_elements_in_block, num_tags, element_id;
+    while (num_processed_elements != num_elements) {
+        int32_t element_type = 0, num_elements_in_block = 0, num_tags = 0, element_id = 0;
         in.read(reinterpret_cast<char*>(&element_type), 4);
         in.read(reinterpret_cast<char*>(&num_elements_in_block), 4);
         in.read(reinterpret_cast<char*>(&num_tags), 4);
+        if (!in || num_elements_in_block < 0 || num_tags < 0) {
+            throw InvalidFormat("Invalid element header!");
+        }
 
         tags.resize(static_cast<size_t>(num_tags));
 
@@ -203,7 +210,8 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
         // a regrouping will happen at post-processing time.
         for (size_t i = 0; i < num_elements_in_block; i++) {
             in.read(reinterpret_cast<char*>(&element_id), 4);
-            in.read(reinterpret_cast<char*>(tags.data()), 4 * num_tags);
+            in.read(reinterpret_cast<char*>(tags.data()),
+                static_cast<std::streamsize>(sizeof(int32_t) * tags.size()));
             in.read(reinterpret_cast<char*>(node_ids.data()), static_cast<int>(4 * n));
 
             min_tag = std::min(min_tag, element_id);
@@ -240,7 +248,7 @@ void load_elements_binary(std::istream& in, MshSpec& spec)
             }
 
             num_processed_elements++;
-            if (num_processed_elements > elements.num_elements) {
+            if (num_processed_elements > num_elements) {
                 throw InvalidFormat("Inconsistent element count detected!");
             }
         }
-- 
2.43.0


From 5b93740534064c75151798181651a7fce8e8f5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 08/12] fix: load_nodes uses unchecked dimensions and unread
 tags

A parametric block with an entity dimension outside 0..3 overflowed the size of
its data, and a truncated 2.2 binary section stored an uninitialised tag.
---
 src/load_msh_nodes.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/load_msh_nodes.cpp b/src/load_msh_nodes.cpp
index f6c4627..4964a9f 100644
--- a/src/load_msh_nodes.cpp
+++ b/src/load_msh_nodes.cpp
@@ -38,6 +38,9 @@ void load_nodes_ascii(std::istream& in, MshSpec& spec)
         assert(in.good());
 
         assert(block.parametric >= 0 && block.parametric <= 3);
+        if (block.parametric == 1 && (block.entity_dim < 0 || block.entity_dim > 3)) {
+            throw InvalidFormat("Invalid entity dimension!");
+        }
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         block.data.resize(block.num_nodes_in_block * entries_per_node);
@@ -73,6 +76,9 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(size_t) * block.num_nodes_in_block));
         assert(in.good());
 
+        if (block.parametric == 1 && (block.entity_dim < 0 || block.entity_dim > 3)) {
+            throw InvalidFormat("Invalid entity dimension!");
+        }
         const size_t entries_per_node =
             static_cast<size_t>(3 + ((block.parametric == 1) ? block.entity_dim : 0));
         block.data.resize(block.num_nodes_in_block * entries_per_node);
@@ -138,7 +144,7 @@ void load_nodes_binary(std::istream& in, MshSpec& spec)
     eat_white_space(in, 1);
     for (size_t i = 0; i < block.num_nodes_in_block; i++) {
         assert(in.good());
-        int tag;
+        int tag = 0;
         in.read(reinterpret_cast<char*>(&tag), sizeof(int));
         block.tags[i] = static_cast<size_t>(tag);
         in.read(reinterpret_cast<char*>(block.data.data() + i * 3), sizeof(double) * 3);
-- 
2.43.0


From 2114720554fab90a232a5f19bb8ea1b7d0862e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 09/12] fix: load_data overflows on negative counts and uses
 unread values

Negative field or node counts made the entry size wrap around, so the ASCII
reader wrote beyond the list; counts and tags of a truncated section were
uninitialised.
---
 src/load_msh_data.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/load_msh_data.cpp b/src/load_msh_data.cpp
index 9063532..346be62 100644
--- a/src/load_msh_data.cpp
+++ b/src/load_msh_data.cpp
@@ -15,7 +15,7 @@ namespace internal {
 
 void load_data_header(std::istream& in, DataHeader& header)
 {
-    size_t num_string_tags, num_real_tags, num_int_tags;
+    size_t num_string_tags = 0, num_real_tags = 0, num_int_tags = 0;
 
     in >> num_string_tags;
     header.string_tags.resize(num_string_tags);
@@ -45,12 +45,15 @@ void load_data_entry(
     // Based on trial and error, it seems Gmsh 4.7.1 still expect 32
     // bits tag, which is inconsistent with their spec.  Maybe
     // report a bug?
-    int32_t tag_32;
+    int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
     entry.tag = static_cast<size_t>(tag_32);
     // in.read(reinterpret_cast<char*>(&entry.tag), sizeof(size_t));
     if (is_element_node_data) {
         in.read(reinterpret_cast<char*>(&entry.num_nodes_per_element), sizeof(int));
+        if (entry.num_nodes_per_element < 0) {
+            throw InvalidFormat("Invalid number of nodes in element node data.");
+        }
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -64,13 +67,16 @@ namespace v22 {
 void load_data_entry(
     std::istream& in, DataEntry& entry, size_t fields_per_entry, bool is_element_node_data)
 {
-    int32_t tag_32;
+    int32_t tag_32 = 0;
     in.read(reinterpret_cast<char*>(&tag_32), 4);
     entry.tag = static_cast<size_t>(tag_32);
     if (is_element_node_data) {
-        int32_t num_nodes_per_element;
+        int32_t num_nodes_per_element = 0;
         in.read(reinterpret_cast<char*>(&num_nodes_per_element), 4);
         entry.num_nodes_per_element = static_cast<int>(num_nodes_per_element);
+        if (entry.num_nodes_per_element < 0) {
+            throw InvalidFormat("Invalid number of nodes in element node data.");
+        }
         entry.data.resize(fields_per_entry * static_cast<size_t>(entry.num_nodes_per_element));
     } else {
         entry.data.resize(fields_per_entry);
@@ -92,6 +98,10 @@ void load_data(std::istream& in,
         throw InvalidFormat("Data requires at least 3 int tags.");
     }
 
+    if (data.header.int_tags[1] < 0 || data.header.int_tags[2] < 0) {
+        throw InvalidFormat("Data requires non-negative field and entry counts.");
+    }
+
     size_t fields_per_entry = static_cast<size_t>(data.header.int_tags[1]);
     size_t num_entries = static_cast<size_t>(data.header.int_tags[2]);
     data.entries.resize(num_entries);
@@ -115,6 +125,9 @@ void load_data(std::istream& in,
             in >> entry.tag;
             if (is_element_node_data) {
                 in >> entry.num_nodes_per_element;
+                if (entry.num_nodes_per_element < 0) {
+                    throw InvalidFormat("Invalid number of nodes in element node data.");
+                }
                 entry.data.resize(fields_per_entry * entry.num_nodes_per_element);
                 for (size_t j = 0; j < entry.num_nodes_per_element; j++) {
                     for (size_t k = 0; k < fields_per_entry; k++) {
-- 
2.43.0


From 0c5e9f5985c75bebe474fe5d468279eb33ef59f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 10/12] fix: loaders use counts they failed to read

A read from a stream that has already failed leaves its target untouched, so the
counts of a truncated entities, physical group, curve or patch section were
uninitialised.
---
 src/load_msh_curves.cpp          |  4 ++--
 src/load_msh_entities.cpp        | 32 ++++++++++++++++----------------
 src/load_msh_patches.cpp         |  4 ++--
 src/load_msh_physical_groups.cpp |  2 +-
 4 files changed, 21 insertions(+), 21 deletions(-)

diff --git a/src/load_msh_curves.cpp b/src/load_msh_curves.cpp
index 9e21d15..f67723b 100644
--- a/src/load_msh_curves.cpp
+++ b/src/load_msh_curves.cpp
@@ -9,7 +9,7 @@ void load_curves_ascii(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& curves = spec.curves;
-    size_t num_curves;
+    size_t num_curves = 0;
     in >> num_curves;
 
     curves.resize(num_curves);
@@ -36,7 +36,7 @@ void load_curves_binary(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& curves = spec.curves;
-    size_t num_curves;
+    size_t num_curves = 0;
     in >> num_curves;
 
     curves.resize(num_curves);
diff --git a/src/load_msh_entities.cpp b/src/load_msh_entities.cpp
index 83f0cc1..5033286 100644
--- a/src/load_msh_entities.cpp
+++ b/src/load_msh_entities.cpp
@@ -12,7 +12,7 @@ namespace v41 {
 
 void load_entities_ascii(std::istream& in, MshSpec& spec)
 {
-    size_t num_points, num_curves, num_surfaces, num_volumes;
+    size_t num_points = 0, num_curves = 0, num_surfaces = 0, num_volumes = 0;
     in >> num_points;
     in >> num_curves;
     in >> num_surfaces;
@@ -31,7 +31,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> point.x;
         in >> point.y;
         in >> point.z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
         point.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
@@ -48,13 +48,13 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> curve.max_x;
         in >> curve.max_y;
         in >> curve.max_z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
         curve.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> curve.physical_group_tags[j];
         }
-        size_t num_boundary_points;
+        size_t num_boundary_points = 0;
         in >> num_boundary_points;
         curve.boundary_point_tags.resize(num_boundary_points);
         for (size_t j = 0; j < num_boundary_points; j++) {
@@ -71,13 +71,13 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> surface.max_x;
         in >> surface.max_y;
         in >> surface.max_z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
         surface.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> surface.physical_group_tags[j];
         }
-        size_t num_boundary_curves;
+        size_t num_boundary_curves = 0;
         in >> num_boundary_curves;
         surface.boundary_curve_tags.resize(num_boundary_curves);
         for (size_t j = 0; j < num_boundary_curves; j++) {
@@ -94,13 +94,13 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
         in >> volume.max_x;
         in >> volume.max_y;
         in >> volume.max_z;
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in >> num_physical_groups;
         volume.physical_group_tags.resize(num_physical_groups);
         for (size_t j = 0; j < num_physical_groups; j++) {
             in >> volume.physical_group_tags[j];
         }
-        size_t num_boundary_surfaces;
+        size_t num_boundary_surfaces = 0;
         in >> num_boundary_surfaces;
         volume.boundary_surface_tags.resize(num_boundary_surfaces);
         for (size_t j = 0; j < num_boundary_surfaces; j++) {
@@ -114,7 +114,7 @@ void load_entities_ascii(std::istream& in, MshSpec& spec)
 void load_entities_binary(std::istream& in, MshSpec& spec)
 {
     eat_white_space(in, 1);
-    size_t num_points, num_curves, num_surfaces, num_volumes;
+    size_t num_points = 0, num_curves = 0, num_surfaces = 0, num_volumes = 0;
     in.read(reinterpret_cast<char*>(&num_points), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_curves), sizeof(size_t));
     in.read(reinterpret_cast<char*>(&num_surfaces), sizeof(size_t));
@@ -133,7 +133,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&point.x), sizeof(double));
         in.read(reinterpret_cast<char*>(&point.y), sizeof(double));
         in.read(reinterpret_cast<char*>(&point.z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
         assert(in.good());
 
@@ -152,7 +152,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&curve.max_x), sizeof(double));
         in.read(reinterpret_cast<char*>(&curve.max_y), sizeof(double));
         in.read(reinterpret_cast<char*>(&curve.max_z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
         assert(in.good());
 
@@ -161,7 +161,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
         assert(in.good());
 
-        size_t num_boundary_points;
+        size_t num_boundary_points = 0;
         in.read(reinterpret_cast<char*>(&num_boundary_points), sizeof(size_t));
         assert(in.good());
 
@@ -180,7 +180,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&surface.max_x), sizeof(double));
         in.read(reinterpret_cast<char*>(&surface.max_y), sizeof(double));
         in.read(reinterpret_cast<char*>(&surface.max_z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
         assert(in.good());
 
@@ -189,7 +189,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
         assert(in.good());
 
-        size_t num_boundary_curves;
+        size_t num_boundary_curves = 0;
         in.read(reinterpret_cast<char*>(&num_boundary_curves), sizeof(size_t));
         assert(in.good());
 
@@ -208,7 +208,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
         in.read(reinterpret_cast<char*>(&volume.max_x), sizeof(double));
         in.read(reinterpret_cast<char*>(&volume.max_y), sizeof(double));
         in.read(reinterpret_cast<char*>(&volume.max_z), sizeof(double));
-        size_t num_physical_groups;
+        size_t num_physical_groups = 0;
         in.read(reinterpret_cast<char*>(&num_physical_groups), sizeof(size_t));
         assert(in.good());
 
@@ -217,7 +217,7 @@ void load_entities_binary(std::istream& in, MshSpec& spec)
             static_cast<std::streamsize>(sizeof(int) * num_physical_groups));
         assert(in.good());
 
-        size_t num_boundary_surfaces;
+        size_t num_boundary_surfaces = 0;
         in.read(reinterpret_cast<char*>(&num_boundary_surfaces), sizeof(size_t));
         assert(in.good());
 
diff --git a/src/load_msh_patches.cpp b/src/load_msh_patches.cpp
index 161c679..79cb930 100644
--- a/src/load_msh_patches.cpp
+++ b/src/load_msh_patches.cpp
@@ -9,7 +9,7 @@ void load_patches_ascii(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& patches = spec.patches;
-    size_t num_patches;
+    size_t num_patches = 0;
     in >> num_patches;
     patches.resize(num_patches);
 
@@ -40,7 +40,7 @@ void load_patches_binary(std::istream& in, MshSpec& spec)
 {
 #ifdef MSHIO_EXT_NANOSPLINE
     auto& patches = spec.patches;
-    size_t num_patches;
+    size_t num_patches = 0;
     in >> num_patches;
     patches.resize(num_patches);
 
diff --git a/src/load_msh_physical_groups.cpp b/src/load_msh_physical_groups.cpp
index c857d4a..98b0b5b 100644
--- a/src/load_msh_physical_groups.cpp
+++ b/src/load_msh_physical_groups.cpp
@@ -12,7 +12,7 @@ namespace mshio {
 void load_physical_groups(std::istream& in, MshSpec& spec)
 {
     auto& groups = spec.physical_groups;
-    int num_groups;
+    int num_groups = 0;
     in >> num_groups;
     spec.physical_groups.resize(num_groups);
     for (int i = 0; i < num_groups; i++) {
-- 
2.43.0


From 3ed31fec54f2c1d89490b608bc9842b060ebcc5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 11/12] fix: regrouping 2.2 nodes writes out of bounds

Elements that use a node tag outside the range of the listed nodes, or files
without nodes, indexed beyond the lookup tables.
---
 src/load_msh_post_process.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/load_msh_post_process.cpp b/src/load_msh_post_process.cpp
index 77d9dc3..947c951 100644
--- a/src/load_msh_post_process.cpp
+++ b/src/load_msh_post_process.cpp
@@ -2,6 +2,7 @@
 #include "element_utils.h"
 
 #include <mshio/MshSpec.h>
+#include <mshio/exception.h>
 
 #include <cassert>
 #include <limits>
@@ -17,7 +18,11 @@ void regroup_nodes_into_blocks(MshSpec& spec)
     std::vector<size_t> entity_dims(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
     std::vector<size_t> entity_tags(nodes.max_node_tag - nodes.min_node_tag + 1, 0);
     auto node_index = [&](size_t node_tag) {
-        return static_cast<size_t>(node_tag - nodes.min_node_tag);
+        const size_t index = static_cast<size_t>(node_tag - nodes.min_node_tag);
+        if (index >= entity_dims.size()) {
+            throw InvalidFormat("Node tag is out of range!");
+        }
+        return index;
     };
 
     for (const auto& block : elements.entity_blocks) {
@@ -42,7 +47,7 @@ void regroup_nodes_into_blocks(MshSpec& spec)
             size_t dim = entity_dims[idx];
             size_t tag = entity_tags[idx];
 
-            if (dim != curr_dim || tag != curr_tag) {
+            if (node_blocks.empty() || dim != curr_dim || tag != curr_tag) {
                 node_blocks.emplace_back();
                 auto& curr_block = node_blocks.back();
                 curr_block.tags.reserve(block.num_nodes_in_block);
-- 
2.43.0


From 0fceefb67c8490c20d6d70d1162b7d19c3acec10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:05 +0000
Subject: [PATCH 12/12] fix: 2.2 binary writer emits headers of empty element
 blocks

The reader stops once the declared number of elements is read, so the header of a
trailing empty block ran into the end marker and hid it.
---
 src/save_msh_elements.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/save_msh_elements.cpp b/src/save_msh_elements.cpp
index af91257..8756023 100644
--- a/src/save_msh_elements.cpp
+++ b/src/save_msh_elements.cpp
@@ -99,6 +99,7 @@ void save_elements_binary(std::ostream& out, const MshSpec& spec)
     out << elements.num_elements << std::endl;
     for (size_t i = 0; i < elements.num_entity_blocks; i++) {
         const ElementBlock& block = elements.entity_blocks[i];
+        if (block.num_elements_in_block == 0) continue;
         const int32_t element_type = block.element_type;
         constexpr int32_t num_tags = 1;
         const int32_t num_element_in_block = static_cast<int32_t>(block.num_elements_in_block);
-- 
2.43.0

