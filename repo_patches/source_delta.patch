From ba4aae9a7f0e4f2b3bb80a848542c147b66d1ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:11 +0000
Subject: [PATCH 001/140] fix: Node::swap keeps parent links and sibling slots
 consistent

---
 src/libs/conduit/conduit_node.cpp | 41 ++++++++++++++++++++++---------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d166625..e1b1cfb 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8717,40 +8717,47 @@ Node::swap(Node &n_b)
     Schema *schema_a = m_schema;
     Schema *schema_b = n_b.m_schema;
 
+    // find both indices before we modify either parent schema, so that
+    // swapping two children of the same parent finds the proper slots
+    index_t idx_a = -1;
+    index_t idx_b = -1;
+
     // check if node a has a parent Node
     if(this->parent() != NULL)
     {
         // find index in parent schema
-        Schema *a_parent_schema = schema_a->parent();
-        index_t idx = a_parent_schema->child_index(schema_a);
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_a = schema_a->parent()->child_index(schema_a);
+        if(idx_a < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in this Node's parent.");
         }
-
-        a_parent_schema->children()[idx] = schema_b;
     }
 
     // check if node b has a parent Node
     if(n_b.parent() != NULL)
     {
         // find index in parent schema
-        Schema *b_parent_schema = schema_b->parent();
-        index_t idx = b_parent_schema->child_index(schema_b);
-
-        // as we swap, we need to make sure the parent schema is updated
-        if(idx < 0)
+        idx_b = schema_b->parent()->child_index(schema_b);
+        if(idx_b < 0)
         {
             // error
             CONDUIT_ERROR("Node::swap internal error,"
                          "failed to find schema child index in passed Node's parent.");
 
         }
+    }
 
-        b_parent_schema->children()[idx] = schema_a;
+    // as we swap, we need to make sure the parent schemas are updated
+    if(idx_a >= 0)
+    {
+        schema_a->parent()->children()[idx_a] = schema_b;
+    }
+
+    if(idx_b >= 0)
+    {
+        schema_b->parent()->children()[idx_b] = schema_a;
     }
 
     // swap-o-rama
@@ -8775,6 +8782,16 @@ Node::swap(Node &n_b)
     // this should be an efficient O(1)
     std::swap(m_children,n_b.m_children);
 
+    // the swapped children need to point to their new parents
+    for(size_t i=0; i < m_children.size(); i++)
+    {
+        m_children[i]->m_parent = this;
+    }
+
+    for(size_t i=0; i < n_b.m_children.size(); i++)
+    {
+        n_b.m_children[i]->m_parent = &n_b;
+    }
 }
 
 
-- 
2.43.0


From c90dcdddc886d256817fc12bb08b55d72cefcef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:57:29 +0000
Subject: [PATCH 002/140] fix: Node::add_child on a list or leaf node resets it
 to an object first

---
 src/libs/conduit/conduit_node.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index e1b1cfb..e95e4f6 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14285,6 +14285,10 @@ Node::add_child(const std::string &name)
         return child(name);
     }
 
+    // adding a named child forces OBJECT_ID, any existing
+    // data or list children are released
+    init_object();
+
     Schema &child_schema = m_schema->add_child(name);
     Schema *child_ptr = &child_schema;
     Node *child_node = new Node();
-- 
2.43.0


From 61e84b1f4306d928d8661f6481d2a066821787c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:04 +0000
Subject: [PATCH 003/140] fix: Node::set from an array copies the source's
 element count, not the destination's

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++----------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index e95e4f6..d09ad7a 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -937,7 +937,7 @@ Node::set_int8_array(const int8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -959,7 +959,7 @@ Node::set_int16_array(const int16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -981,7 +981,7 @@ Node::set_int32_array(const int32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1003,7 +1003,7 @@ Node::set_int64_array(const int64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1029,7 +1029,7 @@ Node::set_uint8_array(const uint8_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1051,7 +1051,7 @@ Node::set_uint16_array(const uint16_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1073,7 +1073,7 @@ Node::set_uint32_array(const uint32_array  &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1095,7 +1095,7 @@ Node::set_uint64_array(const uint64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1120,7 +1120,7 @@ Node::set_float32_array(const float32_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1142,7 +1142,7 @@ Node::set_float64_array(const float64_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1168,7 +1168,7 @@ Node::set(const char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1188,7 +1188,7 @@ Node::set(const signed_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1204,7 +1204,7 @@ Node::set(const unsigned_char_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1224,7 +1224,7 @@ Node::set(const short_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1239,7 +1239,7 @@ Node::set(const unsigned_short_array&data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1259,7 +1259,7 @@ Node::set(const int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1274,7 +1274,7 @@ Node::set(const unsigned_int_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1294,7 +1294,7 @@ Node::set(const long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1309,7 +1309,7 @@ Node::set(const unsigned_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1329,7 +1329,7 @@ Node::set(const long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1344,7 +1344,7 @@ Node::set(const unsigned_long_long_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1364,7 +1364,7 @@ Node::set(const float_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
@@ -1384,7 +1384,7 @@ Node::set(const double_array &data)
     const DataType dest_dtype = dtype();
     const DataType src_dtype  = data.dtype();
     utils::conduit_memcpy_strided_elements(element_ptr(0),   // dest
-            (size_t)dest_dtype.number_of_elements(), // num eles to copy
+            (size_t)src_dtype.number_of_elements(),  // num eles to copy
             (size_t)dest_dtype.element_bytes(),      // bytes per element
             (size_t)dest_dtype.stride(),             // dest stride per ele
             data.element_ptr(0),                     // src
-- 
2.43.0


From 2161450329667356d3d30793b4a36ff0b8fc0747 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:14 +0000
Subject: [PATCH 004/140] fix: Node::set from a vector or initializer list
 honours the stride of a strided leaf

---
 src/libs/conduit/conduit_node.cpp | 414 ++++++++++++++++++++----------
 1 file changed, 276 insertions(+), 138 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d09ad7a..7ae41fc 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -1495,9 +1495,12 @@ void
 Node::set_int8_vector(const std::vector<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int8),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1512,9 +1515,12 @@ void
 Node::set_int16_vector(const std::vector<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int16),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1529,9 +1535,12 @@ void
 Node::set_int32_vector(const std::vector<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1546,9 +1555,12 @@ void
 Node::set_int64_vector(const std::vector<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1567,9 +1579,12 @@ void
 Node::set_uint8_vector(const std::vector<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint8)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint8),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint8));
 }
 
 //---------------------------------------------------------------------------//
@@ -1584,9 +1599,12 @@ void
 Node::set_uint16_vector(const std::vector<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint16)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint16),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint16));
 }
 
 //---------------------------------------------------------------------------//
@@ -1601,9 +1619,12 @@ void
 Node::set_uint32_vector(const std::vector<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1618,9 +1639,12 @@ void
 Node::set_uint64_vector(const std::vector<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(uint64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(uint64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1639,9 +1663,12 @@ void
 Node::set_float32_vector(const std::vector<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float32)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float32),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float32));
 }
 
 //---------------------------------------------------------------------------//
@@ -1657,9 +1684,12 @@ void
 Node::set_float64_vector(const std::vector<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float64)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float64),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float64));
 }
 
 //---------------------------------------------------------------------------//
@@ -1679,9 +1709,12 @@ void
 Node::set(const std::vector<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1691,9 +1724,12 @@ void
 Node::set(const std::vector<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(signed char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(signed char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -1701,9 +1737,12 @@ void
 Node::set(const std::vector<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned char)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned char),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned char));
 }
 //-----------------------------------------------------------------------------
 #endif // end use char check
@@ -1716,9 +1755,12 @@ void
 Node::set(const std::vector<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(short),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -1726,9 +1768,12 @@ void
 Node::set(const std::vector<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned short)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned short),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned short));
 }
 //-----------------------------------------------------------------------------
 #endif // end use short check
@@ -1741,9 +1786,12 @@ void
 Node::set(const std::vector<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -1751,9 +1799,12 @@ void
 Node::set(const std::vector<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned int)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned int),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned int));
 }
 //-----------------------------------------------------------------------------
 #endif // end use int check
@@ -1766,9 +1817,12 @@ void
 Node::set(const std::vector<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1776,9 +1830,12 @@ void
 Node::set(const std::vector<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long check
@@ -1791,9 +1848,12 @@ void
 Node::set(const std::vector<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -1801,9 +1861,12 @@ void
 Node::set(const std::vector<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(unsigned long long)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long long),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(unsigned long long));
 }
 //-----------------------------------------------------------------------------
 #endif // end use long long check
@@ -1816,9 +1879,12 @@ void
 Node::set(const std::vector<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(float)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -1831,9 +1897,12 @@ void
 Node::set(const std::vector<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          &data[0],
-                          sizeof(double)*data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(double),
+                                           (size_t)dtype().stride(),
+                                           &data[0],
+                                           sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
@@ -1869,9 +1938,12 @@ void
 Node::set_int8_initializer_list(const std::initializer_list<int8> &data)
 {
     init(DataType::int8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int8),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1888,9 +1960,12 @@ void
 Node::set_int16_initializer_list(const std::initializer_list<int16> &data)
 {
     init(DataType::int16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int16),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1907,9 +1982,12 @@ void
 Node::set_int32_initializer_list(const std::initializer_list<int32> &data)
 {
     init(DataType::int32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int32));
 }
 
 //-----------------------------------------------------------------------------
@@ -1927,9 +2005,12 @@ void
 Node::set_int64_initializer_list(const std::initializer_list<int64> &data)
 {
     init(DataType::int64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int64));
 }
 
 //-----------------------------------------------------------------------------
@@ -1951,9 +2032,12 @@ void
 Node::set_uint8_initializer_list(const std::initializer_list<uint8> &data)
 {
     init(DataType::uint8(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint8) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint8),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint8));
 }
 
 //-----------------------------------------------------------------------------
@@ -1970,9 +2054,12 @@ void
 Node::set_uint16_initializer_list(const std::initializer_list<uint16> &data)
 {
     init(DataType::uint16(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint16) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint16),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint16));
 }
 
 //-----------------------------------------------------------------------------
@@ -1989,9 +2076,12 @@ void
 Node::set_uint32_initializer_list(const std::initializer_list<uint32> &data)
 {
     init(DataType::uint32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2008,9 +2098,12 @@ void
 Node::set_uint64_initializer_list(const std::initializer_list<uint64> &data)
 {
     init(DataType::uint64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(uint64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(uint64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(uint64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2032,9 +2125,12 @@ void
 Node::set_float32_initializer_list(const std::initializer_list<float32> &data)
 {
     init(DataType::float32(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float32) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float32),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float32));
 }
 
 //-----------------------------------------------------------------------------
@@ -2051,9 +2147,12 @@ void
 Node::set_float64_initializer_list(const std::initializer_list<float64> &data)
 {
     init(DataType::float64(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float64) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float64),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float64));
 }
 
 //-----------------------------------------------------------------------------
@@ -2072,9 +2171,12 @@ void
 Node::set(const std::initializer_list<char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2084,9 +2186,12 @@ void
 Node::set(const std::initializer_list<signed char> &data)
 {
     init(DataType::c_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(signed char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(signed char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(signed char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2094,9 +2199,12 @@ void
 Node::set(const std::initializer_list<unsigned char> &data)
 {
     init(DataType::c_unsigned_char(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned char) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned char),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned char));
 }
 
 //-----------------------------------------------------------------------------
@@ -2110,9 +2218,12 @@ void
 Node::set(const std::initializer_list<short> &data)
 {
     init(DataType::c_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(short),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2120,9 +2231,12 @@ void
 Node::set(const std::initializer_list<unsigned short> &data)
 {
     init(DataType::c_unsigned_short(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned short) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned short),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned short));
 }
 
 //-----------------------------------------------------------------------------
@@ -2136,9 +2250,12 @@ void
 Node::set(const std::initializer_list<int> &data)
 {
     init(DataType::c_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(int),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2146,9 +2263,12 @@ void
 Node::set(const std::initializer_list<unsigned int> &data)
 {
     init(DataType::c_unsigned_int(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned int) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned int),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned int));
 }
 
 //-----------------------------------------------------------------------------
@@ -2162,9 +2282,12 @@ void
 Node::set(const std::initializer_list<long> &data)
 {
     init(DataType::c_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2172,9 +2295,12 @@ void
 Node::set(const std::initializer_list<unsigned long> &data)
 {
     init(DataType::c_unsigned_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2188,9 +2314,12 @@ void
 Node::set(const std::initializer_list<long long> &data)
 {
     init(DataType::c_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(long long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2198,9 +2327,12 @@ void
 Node::set(const std::initializer_list<unsigned long long> &data)
 {
     init(DataType::c_unsigned_long_long(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(unsigned long long) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(unsigned long long),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(unsigned long long));
 }
 
 //-----------------------------------------------------------------------------
@@ -2214,9 +2346,12 @@ void
 Node::set(const std::initializer_list<float> &data)
 {
     init(DataType::c_float(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(float) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(float),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(float));
 }
 //-----------------------------------------------------------------------------
 #endif // end use float check
@@ -2229,9 +2364,12 @@ void
 Node::set(const std::initializer_list<double> &data)
 {
     init(DataType::c_double(data.size()));
-    utils::conduit_memcpy(element_ptr(0),
-                          (void*)data.begin(),
-                          sizeof(double) * data.size());
+    utils::conduit_memcpy_strided_elements(element_ptr(0),
+                                           data.size(),
+                                           sizeof(double),
+                                           (size_t)dtype().stride(),
+                                           (void*)data.begin(),
+                                           sizeof(double));
 }
 //-----------------------------------------------------------------------------
 #endif // end use double check
-- 
2.43.0


From c52597196b5a06ce5a4cb829480bcba96fdf48de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:37 +0000
Subject: [PATCH 005/140] fix: Node::serialize advances by the compact size of
 each child

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 7ae41fc..210e6c6 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -17772,7 +17772,7 @@ Node::serialize(uint8 *data,index_t curr_offset) const
         for(itr = m_children.begin(); itr < m_children.end(); ++itr)
         {
             (*itr)->serialize(&data[0],curr_offset);
-            curr_offset+=(*itr)->total_strided_bytes();
+            curr_offset+=(*itr)->total_bytes_compact();
         }
     }
     else
-- 
2.43.0


From 2fd4a5a7d3c8d55ff5c90576232f14a06a1ecbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:59:57 +0000
Subject: [PATCH 006/140] fix: Node::set from itself, an ancestor or a
 descendant

---
 src/libs/conduit/conduit_node.cpp | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 210e6c6..78176fd 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -468,6 +468,31 @@ Node::mmap(const std::string &stream_path,
 void
 Node::set_node(const Node &node)
 {
+    // setting a node to itself is a no-op
+    if(this == &node)
+    {
+        return;
+    }
+
+    // if one node holds the other, we have to copy the source first
+    // (reset() would destroy it, or we would walk the tree we are creating)
+    bool nested = false;
+    for(const Node *n = node.m_parent; n != NULL && !nested; n = n->m_parent)
+    {
+        nested = (n == this);
+    }
+    for(const Node *n = m_parent; n != NULL && !nested; n = n->m_parent)
+    {
+        nested = (n == &node);
+    }
+    if(nested)
+    {
+        Node n_src;
+        n_src.set_node(node);
+        set_node(n_src);
+        return;
+    }
+
     if(node.dtype().id() == DataType::OBJECT_ID)
     {
         reset();
-- 
2.43.0


From 516763232333adda7a1c255cce3dab58b845b590 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:16:04 +0000
Subject: [PATCH 007/140] fix: DataAccessor prints 8-bit integers as numbers

---
 src/libs/conduit/conduit_data_accessor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_data_accessor.cpp b/src/libs/conduit/conduit_data_accessor.cpp
index 24eec99..88ac27e 100644
--- a/src/libs/conduit/conduit_data_accessor.cpp
+++ b/src/libs/conduit/conduit_data_accessor.cpp
@@ -468,7 +468,8 @@ DataAccessor<T>::to_json_stream(std::ostream &os) const
         }
         else
         {
-            os << element(idx);
+            // note: unary + makes sure 8-bit ints print as numbers
+            os << +element(idx);
         }
 
         first=false;
@@ -579,7 +580,8 @@ DataAccessor<T>::to_summary_string_stream(std::ostream &os,
             }
             else
             {
-                os << element(idx);
+                // note: unary + makes sure 8-bit ints print as numbers
+                os << +element(idx);
             }
 
             idx++;
-- 
2.43.0


From d328b93ebe80a07c8f54456c0a61550f1cc7dc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:17:17 +0000
Subject: [PATCH 008/140] fix: Node::to_*_array results have exactly the
 source's number of elements

---
 src/libs/conduit/conduit_node.cpp | 62 +++++++++++++++++++------------
 1 file changed, 39 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 78176fd..7fb7c22 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -9972,6 +9972,22 @@ Node::to_long_double() const
 #endif
 //---------------------------------------------------------------------------//
 
+//---------------------------------------------------------------------------//
+/// helper that prepares the result of an array conversion
+///
+/// a compatible leaf keeps its number of elements on set(), so make sure
+/// we start from scratch when the lengths differ
+//---------------------------------------------------------------------------//
+static void
+init_array_result(const DataType &dtype, Node &res)
+{
+    if(res.dtype().number_of_elements() != dtype.number_of_elements())
+    {
+        res.reset();
+    }
+    res.set(dtype);
+}
+
 //---------------------------------------------------------------------------//
 /// convert array to a signed integer arrays
 //---------------------------------------------------------------------------//
@@ -9980,7 +9996,7 @@ Node::to_long_double() const
 void
 Node::to_int8_array(Node &res)  const
 {
-    res.set(DataType::int8(dtype().number_of_elements()));
+    init_array_result(DataType::int8(dtype().number_of_elements()),res);
     int8_array res_array = res.as_int8_array();
 
     switch(dtype().id())
@@ -10053,7 +10069,7 @@ Node::to_int8_array(Node &res)  const
 void
 Node::to_int16_array(Node &res) const
 {
-    res.set(DataType::int16(dtype().number_of_elements()));
+    init_array_result(DataType::int16(dtype().number_of_elements()),res);
 
     int16_array res_array = res.as_int16_array();
 
@@ -10126,7 +10142,7 @@ Node::to_int16_array(Node &res) const
 void
 Node::to_int32_array(Node &res) const
 {
-    res.set(DataType::int32(dtype().number_of_elements()));
+    init_array_result(DataType::int32(dtype().number_of_elements()),res);
 
     int32_array res_array = res.as_int32_array();
 
@@ -10199,7 +10215,7 @@ Node::to_int32_array(Node &res) const
 void
 Node::to_int64_array(Node &res) const
 {
-    res.set(DataType::int64(dtype().number_of_elements()));
+    init_array_result(DataType::int64(dtype().number_of_elements()),res);
 
     int64_array res_array = res.as_int64_array();
 
@@ -10276,7 +10292,7 @@ Node::to_int64_array(Node &res) const
 void
 Node::to_uint8_array(Node &res)  const
 {
-    res.set(DataType::uint8(dtype().number_of_elements()));
+    init_array_result(DataType::uint8(dtype().number_of_elements()),res);
 
     uint8_array res_array = res.as_uint8_array();
 
@@ -10349,7 +10365,7 @@ Node::to_uint8_array(Node &res)  const
 void
 Node::to_uint16_array(Node &res) const
 {
-    res.set(DataType::uint16(dtype().number_of_elements()));
+    init_array_result(DataType::uint16(dtype().number_of_elements()),res);
 
     uint16_array res_array = res.as_uint16_array();
 
@@ -10422,7 +10438,7 @@ Node::to_uint16_array(Node &res) const
 void
 Node::to_uint32_array(Node &res) const
 {
-    res.set(DataType::uint32(dtype().number_of_elements()));
+    init_array_result(DataType::uint32(dtype().number_of_elements()),res);
 
     uint32_array res_array = res.as_uint32_array();
 
@@ -10496,7 +10512,7 @@ Node::to_uint32_array(Node &res) const
 void
 Node::to_uint64_array(Node &res) const
 {
-    res.set(DataType::uint64(dtype().number_of_elements()));
+    init_array_result(DataType::uint64(dtype().number_of_elements()),res);
 
     uint64_array res_array = res.as_uint64_array();
 
@@ -10572,7 +10588,7 @@ Node::to_uint64_array(Node &res) const
 void
 Node::to_float32_array(Node &res) const
 {
-    res.set(DataType::float32(dtype().number_of_elements()));
+    init_array_result(DataType::float32(dtype().number_of_elements()),res);
 
     float32_array res_array = res.as_float32_array();
 
@@ -10646,7 +10662,7 @@ Node::to_float32_array(Node &res) const
 void
 Node::to_float64_array(Node &res) const
 {
-    res.set(DataType::float64(dtype().number_of_elements()));
+    init_array_result(DataType::float64(dtype().number_of_elements()),res);
 
     float64_array res_array = res.as_float64_array();
 
@@ -10723,7 +10739,7 @@ Node::to_float64_array(Node &res) const
 void
 Node::to_index_t_array(Node &res) const
 {
-    res.set(DataType::index_t(dtype().number_of_elements()));
+    init_array_result(DataType::index_t(dtype().number_of_elements()),res);
 
     index_t_array res_array = res.as_index_t_array();
 
@@ -10800,7 +10816,7 @@ Node::to_index_t_array(Node &res) const
 void
 Node::to_char_array(Node &res) const
 {
-    res.set(DataType::c_char(dtype().number_of_elements()));
+    init_array_result(DataType::c_char(dtype().number_of_elements()),res);
 
     char_array res_array = res.as_char_array();
 
@@ -10873,7 +10889,7 @@ Node::to_char_array(Node &res) const
 void
 Node::to_short_array(Node &res) const
 {
-    res.set(DataType::c_short(dtype().number_of_elements()));
+    init_array_result(DataType::c_short(dtype().number_of_elements()),res);
 
     short_array res_array = res.as_short_array();
 
@@ -10946,7 +10962,7 @@ Node::to_short_array(Node &res) const
 void
 Node::to_int_array(Node &res) const
 {
-    res.set(DataType::c_int(dtype().number_of_elements()));
+    init_array_result(DataType::c_int(dtype().number_of_elements()),res);
 
     int_array res_array = res.as_int_array();
 
@@ -11019,7 +11035,7 @@ Node::to_int_array(Node &res) const
 void
 Node::to_long_array(Node &res) const
 {
-    res.set(DataType::c_long(dtype().number_of_elements()));
+    init_array_result(DataType::c_long(dtype().number_of_elements()),res);
 
     long_array res_array = res.as_long_array();
 
@@ -11094,7 +11110,7 @@ Node::to_long_array(Node &res) const
 void
 Node::to_signed_long_long_array(Node &res) const
 {
-    res.set(DataType::c_signed_long_long(dtype().number_of_elements()));
+    init_array_result(DataType::c_signed_long_long(dtype().number_of_elements()),res);
 
     signed_long_long_array res_array = res.as_signed_long_long_array();
 
@@ -11173,7 +11189,7 @@ Node::to_signed_long_long_array(Node &res) const
 void
 Node::to_unsigned_char_array(Node &res) const
 {
-    res.set(DataType::c_unsigned_char(dtype().number_of_elements()));
+    init_array_result(DataType::c_unsigned_char(dtype().number_of_elements()),res);
 
     unsigned_char_array res_array = res.as_unsigned_char_array();
 
@@ -11246,7 +11262,7 @@ Node::to_unsigned_char_array(Node &res) const
 void
 Node::to_unsigned_short_array(Node &res) const
 {
-    res.set(DataType::c_unsigned_short(dtype().number_of_elements()));
+    init_array_result(DataType::c_unsigned_short(dtype().number_of_elements()),res);
 
     unsigned_short_array res_array = res.as_unsigned_short_array();
 
@@ -11319,7 +11335,7 @@ Node::to_unsigned_short_array(Node &res) const
 void
 Node::to_unsigned_int_array(Node &res) const
 {
-    res.set(DataType::c_unsigned_int(dtype().number_of_elements()));
+    init_array_result(DataType::c_unsigned_int(dtype().number_of_elements()),res);
 
     unsigned_int_array res_array = res.as_unsigned_int_array();
 
@@ -11392,7 +11408,7 @@ Node::to_unsigned_int_array(Node &res) const
 void
 Node::to_unsigned_long_array(Node &res) const
 {
-    res.set(DataType::c_unsigned_long(dtype().number_of_elements()));
+    init_array_result(DataType::c_unsigned_long(dtype().number_of_elements()),res);
 
     unsigned_long_array res_array = res.as_unsigned_long_array();
 
@@ -11467,7 +11483,7 @@ Node::to_unsigned_long_array(Node &res) const
 void
 Node::to_unsigned_long_long_array(Node &res) const
 {
-    res.set(DataType::c_unsigned_long_long(dtype().number_of_elements()));
+    init_array_result(DataType::c_unsigned_long_long(dtype().number_of_elements()),res);
 
     unsigned_long_long_array res_array = res.as_unsigned_long_long_array();
 
@@ -11544,7 +11560,7 @@ Node::to_unsigned_long_long_array(Node &res) const
 void
 Node::to_float_array(Node &res) const
 {
-    res.set(DataType::c_float(dtype().number_of_elements()));
+    init_array_result(DataType::c_float(dtype().number_of_elements()),res);
 
     float_array res_array = res.as_float_array();
 
@@ -11617,7 +11633,7 @@ Node::to_float_array(Node &res) const
 void
 Node::to_double_array(Node &res) const
 {
-    res.set(DataType::c_double(dtype().number_of_elements()));
+    init_array_result(DataType::c_double(dtype().number_of_elements()),res);
 
     double_array res_array = res.as_double_array();
 
-- 
2.43.0


From f33ee07a9601936a57f045a41d9f9d96885dfe76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:21 +0000
Subject: [PATCH 009/140] fix: json_sanitize tracks string starts and escapes
 exactly

A string at the very start of the text was not seen as a string, and a string
ending in an escaped backslash was not seen to end, so such text was mangled
before it was parsed.
---
 src/libs/conduit/conduit_utils.cpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 6601ae1..94aea2f 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -958,6 +958,7 @@ json_sanitize(const std::string &json)
     std::string res;
     bool        in_comment=false;
     bool        in_string=false;
+    bool        in_escape=false;
     bool        in_id =false;
     std::string cur_id = "";
 
@@ -965,12 +966,25 @@ json_sanitize(const std::string &json)
     {
         bool emit = true;
         // check for start & end of a string
-        if(json[i] == '\"' &&  ( i > 0 && ( json[i-1] != '\\' )))
+        if(in_string)
         {
-            if(in_string)
+            if(in_escape)
+            {
+                // this char is escaped, it can't end the string
+                in_escape = false;
+            }
+            else if(json[i] == '\\')
+            {
+                in_escape = true;
+            }
+            else if(json[i] == '\"')
+            {
                 in_string = false;
-            else
-                in_string = true;
+            }
+        }
+        else if(json[i] == '\"' && !in_comment)
+        {
+            in_string = true;
         }
 
         // handle two cases were we want to sanitize:
-- 
2.43.0


From 9787779cf592ba405a91916ecd8a270448952477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:21 +0000
Subject: [PATCH 010/140] fix: Schema::equals and compatible look children up
 by name, not by path

Children whose names contain a slash were never found, so a schema with such a
child was not equal to itself.
---
 src/libs/conduit/conduit_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index e7c7bfe..87b5d89 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -322,7 +322,7 @@ Schema::compatible(const Schema &s) const
             itr++)
         {
             // make sure we actually have the path
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 // use index to fetch the child from the other schema
                 const Schema &s_chld = s.child(itr->second);
@@ -379,7 +379,7 @@ Schema::equals(const Schema &s) const
             itr != s.object_map().end() && res;
             itr++)
         {
-            if(has_path(itr->first))
+            if(has_child(itr->first))
             {
                 size_t s_idx = (size_t) itr->second;
                 res = s.children()[s_idx]->equals(child(itr->first));
@@ -394,7 +394,7 @@ Schema::equals(const Schema &s) const
             itr != object_map().end() && res;
             itr++)
         {
-            if(s.has_path(itr->first))
+            if(s.has_child(itr->first))
             {
                 size_t idx = (size_t) itr->second;
                 res = children()[idx]->equals(s.child(itr->first));
-- 
2.43.0


From 351def6f1f4a359fea52ece64579994def42c2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:21 +0000
Subject: [PATCH 011/140] fix: Schema::fetch_existing follows '..' to the
 parent

---
 src/libs/conduit/conduit_schema.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 87b5d89..42a48c2 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -917,8 +917,6 @@ Schema::fetch_existing(const std::string &path)
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
 
-    size_t idx = (size_t) child_index(p_curr);
-    
     // check for parent
     if(p_curr == "..")
     {
@@ -931,7 +929,9 @@ Schema::fetch_existing(const std::string &path)
             return m_parent->fetch_existing(p_next);
         }
     }
-    
+
+    size_t idx = (size_t) child_index(p_curr);
+
     if(p_next.empty())
     {
         return *children()[idx];
-- 
2.43.0


From cd2ed904e8e1050c8da25a1092131dcc42b2f9ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:49 +0000
Subject: [PATCH 012/140] fix: JSON output escapes special characters in child
 names

---
 src/libs/conduit/conduit_node.cpp   | 2 +-
 src/libs/conduit/conduit_schema.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 7fb7c22..30e4fc2 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -13696,7 +13696,7 @@ Node::to_json_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< m_schema->object_order()[i] << "\": ";
+            os << "\""<< utils::escape_special_chars(m_schema->object_order()[i]) << "\": ";
             m_children[i]->to_json_generic(os,
                                            detailed,
                                            address,
diff --git a/src/libs/conduit/conduit_schema.cpp b/src/libs/conduit/conduit_schema.cpp
index 42a48c2..34be22d 100644
--- a/src/libs/conduit/conduit_schema.cpp
+++ b/src/libs/conduit/conduit_schema.cpp
@@ -546,7 +546,7 @@ Schema::to_json_stream(std::ostream &os,
         for(size_t i=0; i < nchildren;i++)
         {
             utils::indent(os,indent,depth+1,pad);
-            os << "\""<< object_order()[i] << "\": ";
+            os << "\""<< utils::escape_special_chars(object_order()[i]) << "\": ";
             children()[i]->to_json_stream(os,indent,depth+1,pad,eoe);
             if(i < nchildren-1)
                 os << ",";
-- 
2.43.0


From 5cade4f0f5835758462c3f2ec6aa6b815fc72374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:22 +0000
Subject: [PATCH 013/140] fix: the copying JSON walk copies every leaf and
 follows the source layout

Leaves given by type name alone were aliased instead of copied, and offsets
after a strided leaf were advanced by its compact size, so values were read
from the wrong place.
---
 src/libs/conduit/conduit_generator.cpp | 78 +++++++++++++++-----------
 1 file changed, 46 insertions(+), 32 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index feb5ef3..097c1ec 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -182,7 +182,8 @@ public:
                                          const conduit_rapidjson::Value &jvalue);
     
     // if data pointer is provided, data is copied into dest node
-    static void    walk_json_schema(Node   *node,
+    // returns the number of strided bytes described by the source schema
+    static index_t walk_json_schema(Node   *node,
                                     Schema *schema,
                                     void   *data,
                                     const conduit_rapidjson::Value &jvalue,
@@ -1357,13 +1358,17 @@ Generator::Parser::JSON::walk_pure_json_schema(Node *node,
 
 
 //---------------------------------------------------------------------------//
-void 
+index_t
 Generator::Parser::JSON::walk_json_schema(Node   *node,
                                           Schema *schema,
                                           void   *data,
                                           const conduit_rapidjson::Value &jvalue,
                                           index_t curr_offset)
 {
+    // total strided bytes of what we describe, in terms of the source layout
+    // (the nodes we create are compact, so we can't ask them)
+    index_t src_bytes = 0;
+
     // object cases
     if(jvalue.IsObject())
     {
@@ -1407,14 +1412,15 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                     curr_node->set_schema_ptr(curr_schema);
                     curr_node->set_parent(node);
                     node->append_node_ptr(curr_node);
-                    walk_json_schema(curr_node,
-                                     curr_schema,
-                                     data,
-                                     dt_value,
-                                     curr_offset);
+                    index_t child_bytes = walk_json_schema(curr_node,
+                                                           curr_schema,
+                                                           data,
+                                                           dt_value,
+                                                           curr_offset);
+                    src_bytes += child_bytes;
                     // auto offset only makes sense when we have data
                     if(data != NULL)
-                        curr_offset += curr_schema->total_strided_bytes();
+                        curr_offset += child_bytes;
                 }
                 
             }
@@ -1426,6 +1432,7 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
 
                 DataType des_dtype;
                 src_dtype.compact_to(des_dtype);
+                src_bytes = src_dtype.strided_bytes();
 
                 // check for explciit address
                 if(jvalue.HasMember("address"))
@@ -1495,15 +1502,16 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                 curr_node->set_schema_ptr(curr_schema);
                 curr_node->set_parent(node);
                 node->append_node_ptr(curr_node);
-                walk_json_schema(curr_node,
-                                 curr_schema,
-                                 data,
-                                 itr->value,
-                                 curr_offset);
+                index_t child_bytes = walk_json_schema(curr_node,
+                                                       curr_schema,
+                                                       data,
+                                                       itr->value,
+                                                       curr_offset);
+                src_bytes += child_bytes;
                 
                 // auto offset only makes sense when we have data
                 if(data != NULL)
-                    curr_offset += curr_schema->total_strided_bytes();
+                    curr_offset += child_bytes;
             }
             
         }
@@ -1521,33 +1529,37 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(node);
             node->append_node_ptr(curr_node);
-            walk_json_schema(curr_node,
-                             curr_schema,
-                             data,
-                             jvalue[i],
-                             curr_offset);
+            index_t child_bytes = walk_json_schema(curr_node,
+                                                   curr_schema,
+                                                   data,
+                                                   jvalue[i],
+                                                   curr_offset);
+            src_bytes += child_bytes;
             // auto offset only makes sense when we have data
             if(data != NULL)
-                curr_offset += curr_schema->total_strided_bytes();
+                curr_offset += child_bytes;
         }
     }
     // Simplest case, handles "uint32", "float64", with extended type info
     else if(jvalue.IsString())
     {
-        DataType dtype;
-        parse_leaf_dtype(jvalue,curr_offset,dtype);
-        schema->set(dtype);
-        
+        DataType src_dtype;
+        parse_leaf_dtype(jvalue,curr_offset,src_dtype);
+
+        DataType des_dtype;
+        src_dtype.compact_to(des_dtype);
+        src_bytes = src_dtype.strided_bytes();
+
+        // node is already linked to the schema pointer
+        // we need to dynamically alloc
+        node->set(des_dtype);  // causes an init
+
         if(data != NULL)
         {
-            // node is already linked to the schema pointer
-            node->set_data_ptr(data);
-        }
-        else
-        {
-            // node is already linked to the schema pointer
-            // we need to dynamically alloc
-            node->set(dtype);  // causes an init
+            // copy bytes from src data to node's memory
+            utils::conduit_memcpy(node->data_ptr(),
+                                  ((uint8*)data) + src_dtype.offset(),
+                                  (size_t)src_dtype.bytes_compact());
         }
     }
     else
@@ -1556,6 +1568,8 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                       << "Invalid JSON type for parsing Node."
                       << " Expected: JSON Object, Array, or String");
     }
+
+    return src_bytes;
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 56fcfd820a4d7191cf0ea4383f6f2bb03b08b830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:46 +0000
Subject: [PATCH 014/140] fix: the YAML walks follow the source layout;
 walk_external keeps offsets and strides

As for JSON: leaves given by type name were aliased by the copying walk, offsets
after a strided leaf were wrong, and walk_external dropped every offset and
stride (and printed the schema).
---
 src/libs/conduit/conduit_generator.cpp | 87 ++++++++++++++++----------
 1 file changed, 54 insertions(+), 33 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 097c1ec..db5404c 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -351,7 +351,8 @@ public:
                                     index_t curr_offset,
                                     const bool external = false);
 
-    static void    walk_yaml_schema(Node   *node,
+    // returns the number of strided bytes described by the source schema
+    static index_t walk_yaml_schema(Node   *node,
                                     Schema *schema,
                                     void   *data,
                                     yaml_document_t *yaml_doc,
@@ -2648,7 +2649,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
 
 
 //---------------------------------------------------------------------------//
-void 
+index_t
 Generator::Parser::YAML::walk_yaml_schema(Node *node,
                                           Schema *schema,
                                           void *data,
@@ -2657,6 +2658,10 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                                           index_t curr_offset,
                                           const bool external)
 {
+    // total strided bytes of what we describe, in terms of the source layout
+    // (the nodes we create may be compact, so we can't ask them)
+    index_t src_bytes = 0;
+
     // object cases
     if (check_yaml_is_mapping_node(yaml_node))
     {
@@ -2709,17 +2714,18 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                     curr_node->set_schema_ptr(curr_schema);
                     curr_node->set_parent(node);
                     node->append_node_ptr(curr_node);
-                    walk_yaml_schema(curr_node,
-                                     curr_schema,
-                                     data,
-                                     yaml_doc,
-                                     dt_value,
-                                     curr_offset,
-                                     external);
+                    index_t child_bytes = walk_yaml_schema(curr_node,
+                                                           curr_schema,
+                                                           data,
+                                                           yaml_doc,
+                                                           dt_value,
+                                                           curr_offset,
+                                                           external);
+                    src_bytes += child_bytes;
                     // auto offset only makes sense when we have data
                     if (data)
                     {
-                        curr_offset += curr_schema->total_strided_bytes();
+                        curr_offset += child_bytes;
                     }
                 }
             }
@@ -2731,6 +2737,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
 
                 DataType des_dtype;
                 src_dtype.compact_to(des_dtype);
+                src_bytes = src_dtype.strided_bytes();
 
                 // check for explicit address
                 const yaml_node_t* address_value = fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "address");
@@ -2746,8 +2753,7 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (external) // handle conduit_yaml_external case
                         {
                             // node is already linked to the schema pointer
-                            schema->set(des_dtype);
-                            schema->print();
+                            schema->set(src_dtype);
                             node->set_data_ptr(data);
                         }
                         else
@@ -2817,18 +2823,19 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                 curr_node->set_schema_ptr(curr_schema);
                 curr_node->set_parent(node);
                 node->append_node_ptr(curr_node);
-                walk_yaml_schema(curr_node,
-                                 curr_schema,
-                                 data,
-                                 yaml_doc,
-                                 yaml_child,
-                                 curr_offset,
-                                 external);
+                index_t child_bytes = walk_yaml_schema(curr_node,
+                                                       curr_schema,
+                                                       data,
+                                                       yaml_doc,
+                                                       yaml_child,
+                                                       curr_offset,
+                                                       external);
+                src_bytes += child_bytes;
 
                 // auto offset only makes sense when we have data
                 if (data)
                 {
-                    curr_offset += curr_schema->total_strided_bytes();
+                    curr_offset += child_bytes;
                 }
             }
         }
@@ -2849,37 +2856,49 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
             curr_node->set_schema_ptr(curr_schema);
             curr_node->set_parent(node);
             node->append_node_ptr(curr_node);
-            walk_yaml_schema(curr_node,
-                             curr_schema,
-                             data,
-                             yaml_doc,
-                             yaml_child,
-                             curr_offset,
-                             external);
+            index_t child_bytes = walk_yaml_schema(curr_node,
+                                                   curr_schema,
+                                                   data,
+                                                   yaml_doc,
+                                                   yaml_child,
+                                                   curr_offset,
+                                                   external);
+            src_bytes += child_bytes;
             // auto offset only makes sense when we have data
             if (data)
             {
-                curr_offset += curr_schema->total_strided_bytes();
+                curr_offset += child_bytes;
             }
         }
     }
     // Simplest case, handles "uint32", "float64", with extended type info
     else if (check_yaml_is_scalar_node(yaml_node))
     {
-        DataType dtype;
-        parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, dtype);
-        schema->set(dtype);
+        DataType src_dtype;
+        parse_leaf_dtype(yaml_doc, yaml_node, curr_offset, src_dtype);
+        src_bytes = src_dtype.strided_bytes();
 
-        if (data)
+        if (data && external)
         {
             // node is already linked to the schema pointer
+            schema->set(src_dtype);
             node->set_data_ptr(data);
         }
         else
         {
+            DataType des_dtype;
+            src_dtype.compact_to(des_dtype);
             // node is already linked to the schema pointer
             // we need to dynamically alloc
-            node->set(dtype);  // causes an init
+            node->set(des_dtype);  // causes an init
+
+            if (data)
+            {
+                // copy bytes from src data to node's memory
+                utils::conduit_memcpy(node->data_ptr(),
+                                      ((uint8*)data) + src_dtype.offset(),
+                                      (size_t)src_dtype.bytes_compact());
+            }
         }
     }
     else
@@ -2888,6 +2907,8 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                       << "Invalid YAML type for parsing Node."
                       << " Expected: YAML Object, Array, or String");
     }
+
+    return src_bytes;
 }
 
 
-- 
2.43.0


From 00140455316b5e026ab59ed60274da26a7d95809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:36:54 +0000
Subject: [PATCH 015/140] fix: YAML schemas: an explicit number_of_elements of
 0 stays 0, and the default is 1

The test was inverted with respect to the JSON parser: zero became one, and a
leaf without a count became empty.
---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index db5404c..647e1f3 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2593,7 +2593,7 @@ Generator::Parser::YAML::parse_leaf_dtype(yaml_document_t *yaml_doc,
                 length = get_yaml_sequence_length(value_node);
             }
             // support explicit length 0 in a schema
-            else if (fetch_yaml_node_from_object_by_name(yaml_doc, yaml_node, "number_of_elements"))
+            else if (!num_ele_node)
             {
                 length = 1;
             }
-- 
2.43.0


From af5b67b1d6fd32a874bf687363fca215b6f18c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 016/140] fix: Node::list_of_external replaces what the node
 held

release() keeps the schema, so on a node that already was a list the old
schema's children stayed in front of the new ones.
---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 30e4fc2..8d270a7 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14947,7 +14947,7 @@ Node::list_of_external(void *data,
                        const Schema &schema,
                        index_t num_entries)
 {
-    release();
+    reset();
     init_list();
 
     Schema s_compact;
-- 
2.43.0


From efe627c49fcc1e0e012b5bc394c663dccb3c10cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:09 +0000
Subject: [PATCH 017/140] fix: Node::load reports a binary file that is too
 short

The missing bytes were silently left uninitialized.
---
 src/libs/conduit/conduit_node.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 8d270a7..7325e11 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -304,6 +304,12 @@ Node::load(const std::string &stream_path,
         CONDUIT_ERROR("<Node::load> failed to open: " << stream_path);
     }
     ifs.read((char *)m_data,dsize);
+    if(ifs.gcount() != (std::streamsize)dsize)
+    {
+        CONDUIT_ERROR("<Node::load> failed to read " << dsize << " bytes from: "
+                      << stream_path << " (only " << ifs.gcount()
+                      << " available)");
+    }
     ifs.close();
 
     //
-- 
2.43.0


From 7fe029c32d8b6478637b9f2ead67afbd491b7a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:57 +0000
Subject: [PATCH 018/140] fix: escape control characters in strings; unescape
 keeps unknown escapes as they are

---
 src/libs/conduit/conduit_utils.cpp | 36 +++++++++++++++++++++++++++---
 1 file changed, 33 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 94aea2f..0311ad9 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1181,7 +1181,18 @@ escape_special_chars(const std::string &input)
 
             default:
             {
-                res += val;
+                // other control chars are not allowed inside of
+                // json or yaml strings, they need a \u00XX escape
+                if( (unsigned char)val < 0x20 || val == 0x7f)
+                {
+                    char buffer[8] = {0};
+                    snprintf(buffer,8,"\\u%04x",(unsigned int)val);
+                    res += buffer;
+                }
+                else
+                {
+                    res += val;
+                }
             }
         }
     }
@@ -1256,11 +1267,30 @@ unescape_special_chars(const std::string &input)
                     i++;
                     break;
                 }
-                // \uFFFF & unknown escape strings
+                // \u00XX, as used by escape_special_chars
+                case 'u':
+                {
+                    std::string hex = input.substr(i+2,4);
+                    if( hex.size() == 4 &&
+                        hex.find_first_not_of("0123456789abcdefABCDEF") == std::string::npos &&
+                        strtol(hex.c_str(),NULL,16) < 0x80)
+                    {
+                        res += (char)strtol(hex.c_str(),NULL,16);
+                        // skip escape sequence
+                        i+=5;
+                    }
+                    else
+                    {
+                        // simply emit
+                        res += input[i];
+                    }
+                    break;
+                }
+                // unknown escape strings
                 default:
                 {
                     // simply emit
-                    res += val;
+                    res += input[i];
                     break;
                 }
             }
-- 
2.43.0


From 7f76dd270e3ef06a2cb4d261ebee4fda1d4525d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:57 +0000
Subject: [PATCH 019/140] fix: conduit_json inline strings are unescaped once,
 not twice

---
 src/libs/conduit/conduit_generator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 647e1f3..7aeffc7 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -958,8 +958,9 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
     {
         if(node.dtype().id() == DataType::CHAR8_STR_ID)
         {
+            // note: the json parser already resolved any escapes
             std::string sval(jvalue.GetString());
-            node.set(utils::unescape_special_chars(sval));
+            node.set(sval);
         }
         else
         {
-- 
2.43.0


From 709e6dfa23686849eb74b530a31a4967cf8d2dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:57 +0000
Subject: [PATCH 020/140] fix: conduit_json reads back non-finite scalar floats

---
 src/libs/conduit/conduit_generator.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 7aeffc7..5e42afc 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -962,6 +962,20 @@ Generator::Parser::JSON::parse_inline_leaf(const conduit_rapidjson::Value &jvalu
             std::string sval(jvalue.GetString());
             node.set(sval);
         }
+        else if(node.dtype().is_floating_point() &&
+                string_is_double(jvalue.GetString()))
+        {
+            // non-finite floats (nan, inf) are written as strings
+            float64 val = string_to_double(jvalue.GetString());
+            if(node.dtype().id() == DataType::FLOAT32_ID)
+            {
+                node.set((float32)val);
+            }
+            else
+            {
+                node.set(val);
+            }
+        }
         else
         {
              // JSON type incompatible with char8_str
-- 
2.43.0


From d21c509fefdd67641341981a5dd57a9201435412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:50:17 +0000
Subject: [PATCH 021/140] fix: lists of strings that spell finite numbers stay
 lists of strings in JSON

---
 src/libs/conduit/conduit_generator.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 5e42afc..60d3e36 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -15,6 +15,7 @@
 //-----------------------------------------------------------------------------
 #include <stdio.h>
 #include <cstdlib>
+#include <cmath>
 
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
@@ -501,7 +502,9 @@ Generator::Parser::JSON::json_to_numeric_dtype(const conduit_rapidjson::Value &j
     }
     else if(jvalue.IsString()) // we may have strings that are nan, inf, etc
     {
-        if(string_is_double(jvalue.GetString()))
+        // finite numbers are never written as strings
+        if(string_is_double(jvalue.GetString()) &&
+           !std::isfinite(string_to_double(jvalue.GetString())))
         {
             res  = DataType::FLOAT64_ID;
         }
-- 
2.43.0


From 1990143e942e01214db356efe2ca816cd756c772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:31 +0000
Subject: [PATCH 022/140] fix: YAML output quotes names that are not plain
 scalars

---
 src/libs/conduit/conduit_node.cpp | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 7325e11..d9a5d32 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14058,6 +14058,30 @@ Node::to_base64_json(std::ostream &os,
 //---------------------------------------------------------------------------//
 
 
+//---------------------------------------------------------------------------//
+// names that are not plain yaml scalars need to be quoted
+//---------------------------------------------------------------------------//
+static std::string
+yaml_key_string(const std::string &name)
+{
+    bool quote = name.empty() ||
+                 name[0] == ' ' ||
+                 std::string("-?:,[]{}#&*!|>'\"%@`").find(name[0]) != std::string::npos ||
+                 name.compare(0,3,"...") == 0 ||
+                 name[name.size()-1] == ' ' ||
+                 name[name.size()-1] == ':' ||
+                 name.find(": ") != std::string::npos ||
+                 name.find(" #") != std::string::npos;
+
+    // control chars
+    for(size_t i = 0; i < name.size() && !quote; i++)
+    {
+        quote = (unsigned char)name[i] < 0x20 || name[i] == 0x7f;
+    }
+
+    return quote ? "\"" + utils::escape_special_chars(name) + "\"" : name;
+}
+
 //---------------------------------------------------------------------------//
 std::string
 Node::to_yaml_generic(bool detailed,
@@ -14111,7 +14135,7 @@ Node::to_yaml_generic(std::ostream &os,
         for(size_t i=0; i <  nchildren;i++)
         {
             utils::indent(os,indent,depth,pad);
-            os << m_schema->object_order()[i] << ": ";
+            os << yaml_key_string(m_schema->object_order()[i]) << ": ";
             m_children[i]->to_yaml_generic(os,
                                            detailed,
                                            indent,
-- 
2.43.0


From a73d32d0de27a8b475896631aaf8cb25b000f303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:42 +0000
Subject: [PATCH 023/140] fix: Node::fetch_existing of an empty path is an
 error, not endless recursion

---
 src/libs/conduit/conduit_node.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index d9a5d32..a7a20dc 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14550,6 +14550,11 @@ Node::fetch_existing(const std::string &path) const
                       << ") is not an object");
     }
 
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing empty path string");
+    }
+
     std::string p_curr;
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
@@ -14599,6 +14604,11 @@ Node::fetch_existing(const std::string &path)
                       << ") is not an object");
     }
 
+    if(path.empty())
+    {
+        CONDUIT_ERROR("Cannot fetch_existing empty path string");
+    }
+
     std::string p_curr;
     std::string p_next;
     utils::split_path(path,p_curr,p_next);
-- 
2.43.0


From 84ddc460058a050e9ec4817e80ada42264ad68b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:55:42 +0000
Subject: [PATCH 024/140] fix: json_sanitize keeps identifiers at the start and
 the end of the text

---
 src/libs/conduit/conduit_utils.cpp | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 0311ad9..0229c0b 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1009,9 +1009,9 @@ json_sanitize(const std::string &json)
                 {
                     // ids can't start with numbers ,
                     // check the prior char if it exists
-                    if(i > 0 &&
-                       !check_num_char(json[i-1]) &&
-                       json[i-1] != '.')
+                    if(i == 0 ||
+                       (!check_num_char(json[i-1]) &&
+                        json[i-1] != '.'))
                     {
                         in_id = true;
                         // accum id chars
@@ -1066,6 +1066,21 @@ json_sanitize(const std::string &json)
             res += json[i];
     }
 
+    // the input may end with an id
+    if(in_id)
+    {
+        if( !(cur_id == "true"  ||
+              cur_id == "false" ||
+              cur_id == "null" ))
+        {
+            res += "\"" + cur_id + "\"";
+        }
+        else
+        {
+            res += cur_id;
+        }
+    }
+
     return res;
 }
 
-- 
2.43.0


From 07ad41d126be180b5e445932f825d7996ac6aa45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:57:27 +0000
Subject: [PATCH 025/140] fix: DataType: zero strided elements extend over zero
 bytes

---
 src/libs/conduit/conduit_data_type.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_data_type.cpp b/src/libs/conduit/conduit_data_type.cpp
index af6a717..636eb38 100644
--- a/src/libs/conduit/conduit_data_type.cpp
+++ b/src/libs/conduit/conduit_data_type.cpp
@@ -641,6 +641,9 @@ conduit::index_t
 DataType::strided_bytes() const
 {
     // this is the memory extent excluding the offset
+    // (zero elements don't extend over any memory)
+    if(m_num_ele == 0)
+        return 0;
     return m_stride * (m_num_ele -1) + m_ele_bytes;
 }
 
@@ -656,7 +659,7 @@ DataType::bytes_compact() const
 conduit::index_t
 DataType::spanned_bytes() const
 {
-    return m_offset + m_stride * (m_num_ele -1) + m_ele_bytes;
+    return m_offset + strided_bytes();
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 0ba1eb0ffd0b73d9577cc6f1a21f389505c22a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:59:34 +0000
Subject: [PATCH 026/140] fix: float64_to_string: the largest finite values
 stay finite

---
 src/libs/conduit/conduit_utils.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 0229c0b..f386c9d 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -38,6 +38,7 @@
 #include <stdlib.h>
 
 #include <algorithm>
+#include <cmath>
 #include <limits>
 #include <fstream>
 #include <map>
@@ -1396,6 +1397,13 @@ float64_to_string(float64 value)
     char buffer[64] = {0};
     snprintf(buffer,64,"%.15g",value);
 
+    // the largest finite values can round up to something that
+    // overflows, they need all their digits
+    if(std::isfinite(value) && !std::isfinite(strtod(buffer,NULL)))
+    {
+        snprintf(buffer,64,"%.17g",value);
+    }
+
     std::string res(buffer);
 
     // we check for inf or nan in string form.
-- 
2.43.0


From 87fd6a9af040118818d7e2686537302f7b1e9e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:42 +0000
Subject: [PATCH 027/140] fix: JSON values of unexpected types are errors, not
 aborts or undefined values

---
 src/libs/conduit/conduit_generator.cpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 60d3e36..884498d 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -17,9 +17,27 @@
 #include <cstdlib>
 #include <cmath>
 
+//-----------------------------------------------------------------------------
+// -- conduit error handling, used by our RAPIDJSON_ASSERT -- 
+//-----------------------------------------------------------------------------
+#include "conduit_error.hpp"
+#include "conduit_utils.hpp"
+
 //-----------------------------------------------------------------------------
 // -- rapidjson includes -- 
 //-----------------------------------------------------------------------------
+// a JSON value that does not have the type we ask for is an error in the
+// input, report it as an error (the default is to abort, or with NDEBUG
+// to silently use some other value)
+#define RAPIDJSON_ASSERT(x)                                                  \
+{                                                                            \
+    if(!(x))                                                                 \
+    {                                                                        \
+        CONDUIT_ERROR("JSON Generator error:\n"                              \
+                      << "unexpected JSON value type: " << #x);              \
+    }                                                                        \
+}
+
 #include "rapidjson/document.h"
 #include "rapidjson/error/en.h"
 
@@ -29,12 +47,6 @@
 #include "yaml.h"
 
 
-//-----------------------------------------------------------------------------
-// -- conduit library includes -- 
-//-----------------------------------------------------------------------------
-#include "conduit_error.hpp"
-#include "conduit_utils.hpp"
-
 
 //-----------------------------------------------------------------------------
 //
-- 
2.43.0


From 70aa2133a72385b73c0cf083bb3c1404e9f4e3ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:42 +0000
Subject: [PATCH 028/140] fix: walk_external without data allocates leaves
 given by type name

---
 src/libs/conduit/conduit_generator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 884498d..59a5d18 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1778,11 +1778,11 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
     {
         DataType dtype;
         parse_leaf_dtype(jvalue,curr_offset,dtype);
-        schema->set(dtype);
         
         if(data != NULL)
         {
              // node is already linked to the schema pointer
+             schema->set(dtype);
              node->set_data_ptr(data);
         }
         else
-- 
2.43.0


From 501726d14f1ab875a0f9e1a251117916ae61622b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:12 +0000
Subject: [PATCH 029/140] fix: negative sizes in YAML schemas are errors

---
 src/libs/conduit/conduit_generator.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 59a5d18..6676ac0 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2046,7 +2046,12 @@ Generator::Parser::YAML::get_yaml_long(const yaml_node_t *yaml_node)
 unsigned long
 Generator::Parser::YAML::get_yaml_unsigned_long(const yaml_node_t *yaml_node)
 {
-    return string_to_unsigned_long(get_yaml_string(yaml_node));
+    const char *yaml_value_str = get_yaml_string(yaml_node);
+    // strtoul accepts (and wraps) negative values
+    CONDUIT_ASSERT(string_to_long(yaml_value_str) >= 0,
+                   "YAML Generator error:\n"
+                   << "expected a non-negative number, got: " << yaml_value_str);
+    return string_to_unsigned_long(yaml_value_str);
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From 769cba003961fd2d05be9af704ac8eb1b136ac23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:08:58 +0000
Subject: [PATCH 030/140] fix: schema length references must exist; YAML looks
 them up where they are

---
 src/libs/conduit/conduit_generator.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 6676ac0..6bda9c2 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1421,7 +1421,10 @@ Generator::Parser::JSON::walk_json_schema(Node   *node,
                     {
                         const std::string ref_path = 
                           jvalue["length"]["reference"].GetString();
-                        length = node->fetch(ref_path).to_index_t();
+                        // the referenced node must exist already,
+                        // (fetch would create it)
+                        node->set(DataType::object());
+                        length = node->fetch_existing(ref_path).to_index_t();
                     }
                     else
                     {
@@ -1635,7 +1638,10 @@ Generator::Parser::JSON::walk_json_schema_external(Node   *node,
                     {
                         std::string ref_path = 
                           jvalue["length"]["reference"].GetString();
-                        length = node->fetch(ref_path).to_index_t();
+                        // the referenced node must exist already,
+                        // (fetch would create it)
+                        node->set(DataType::object());
+                        length = node->fetch_existing(ref_path).to_index_t();
                     }
                     else
                     {
@@ -2721,7 +2727,10 @@ Generator::Parser::YAML::walk_yaml_schema(Node *node,
                         if (ref_value)
                         {
                             const std::string ref_path = get_yaml_string(ref_value);
-                            length = node->fetch(ref_path).to_index_t();
+                            // the referenced node must exist already,
+                        // (fetch would create it)
+                        node->set(DataType::object());
+                        length = node->fetch_existing(ref_path).to_index_t();
                         }
                         else
                         {
-- 
2.43.0


From 7dee04b77eae2d0cb9b8f3394ac7bcff51eb950f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:23 +0000
Subject: [PATCH 031/140] fix: YAML values that should be scalars but are not
 are errors

---
 src/libs/conduit/conduit_generator.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index 6bda9c2..d199e04 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -2085,6 +2085,8 @@ Generator::Parser::YAML::check_yaml_is_mapping_node(const yaml_node_t *yaml_node
 const char *
 Generator::Parser::YAML::get_yaml_string(const yaml_node_t *yaml_node)
 {
+    CONDUIT_ASSERT(check_yaml_is_scalar_node(yaml_node),
+                   "YAML Generator error:\nExpected a yaml scalar value.");
     const char *yaml_value_str = (const char*) yaml_node->data.scalar.value;
     CONDUIT_ASSERT(yaml_value_str, "YAML Generator error:\nInvalid yaml scalar value.");
     return yaml_value_str;
-- 
2.43.0


From 47211d2803552997627c5fe6786f3c3fb5c868e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:00 +0000
Subject: [PATCH 032/140] fix: YAML aliases to a containing node are errors,
 not endless recursion

---
 src/libs/conduit/conduit_generator.cpp | 60 ++++++++++++++++++++++++++
 1 file changed, 60 insertions(+)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index d199e04..ec088ef 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -244,6 +244,11 @@ public:
        // when things go wrong
        void         parse(const char *yaml_txt);
 
+       // checks if any alias below a node refers to one of the nodes
+       // that contain it (states: 0 = unseen, 1 = being visited, 2 = done)
+       bool         has_alias_cycle(int node_id,
+                                    std::vector<int> &states);
+
        yaml_document_t *yaml_doc_ptr();
        yaml_node_t     *yaml_doc_root_ptr();
 
@@ -1965,6 +1970,61 @@ Generator::Parser::YAML::YAMLParserWrapper::parse(const char *yaml_txt)
     {
         m_yaml_doc_is_valid = true;
     }
+
+    // an alias to a node that contains the alias is valid yaml, but it
+    // can't be expanded into a tree
+    if(yaml_doc_root_ptr() != NULL)
+    {
+        std::vector<int> states(m_yaml_doc.nodes.top - m_yaml_doc.nodes.start + 1,
+                                0);
+        if(has_alias_cycle(1,states))
+        {
+            CONDUIT_ERROR("YAML Generator error:\n"
+                          "alias refers to a node that contains it.");
+        }
+    }
+}
+
+//---------------------------------------------------------------------------//
+bool
+Generator::Parser::YAML::YAMLParserWrapper::has_alias_cycle(int node_id,
+                                                            std::vector<int> &states)
+{
+    if(states[node_id] != 0)
+    {
+        return states[node_id] == 1;
+    }
+
+    states[node_id] = 1;
+
+    yaml_node_t *yaml_node = yaml_document_get_node(&m_yaml_doc, node_id);
+
+    if(yaml_node->type == YAML_SEQUENCE_NODE)
+    {
+        for(yaml_node_item_t *itr = yaml_node->data.sequence.items.start;
+            itr < yaml_node->data.sequence.items.top; itr++)
+        {
+            if(has_alias_cycle(*itr,states))
+            {
+                return true;
+            }
+        }
+    }
+    else if(yaml_node->type == YAML_MAPPING_NODE)
+    {
+        for(yaml_node_pair_t *itr = yaml_node->data.mapping.pairs.start;
+            itr < yaml_node->data.mapping.pairs.top; itr++)
+        {
+            if(has_alias_cycle(itr->key,states) ||
+               has_alias_cycle(itr->value,states))
+            {
+                return true;
+            }
+        }
+    }
+
+    states[node_id] = 2;
+    return false;
 }
 
 //---------------------------------------------------------------------------//
-- 
2.43.0


From c1f07b78b65a77b8b63ecc5eba2b5d542eaa1726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:12:00 +0000
Subject: [PATCH 033/140] fix: Node::as_string of a string leaf with zero
 elements is empty

---
 src/libs/conduit/conduit_node.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index a7a20dc..5a5fbd6 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -15697,6 +15697,11 @@ Node::as_string() const
                         DataType::CHAR8_STR_ID,
                         "as_string() const",
                         std::string());
+    // a string leaf with zero elements has no terminator to look for
+    if(dtype().number_of_elements() == 0)
+    {
+        return std::string();
+    }
     return std::string(as_char8_str());
 }
 
-- 
2.43.0


From a0c4af58ecbfb8fb3bcc316d6a43f99052fdab2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:16:43 +0000
Subject: [PATCH 034/140] fix: conduit_base64_json: schemas larger than the
 data and partial base64 groups stay in bounds

---
 src/libs/conduit/conduit_generator.cpp | 8 ++++++++
 src/libs/conduit/conduit_schema.hpp    | 1 +
 src/libs/conduit/conduit_utils.cpp     | 3 ++-
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_generator.cpp b/src/libs/conduit/conduit_generator.cpp
index ec088ef..54768a1 100644
--- a/src/libs/conduit/conduit_generator.cpp
+++ b/src/libs/conduit/conduit_generator.cpp
@@ -1848,6 +1848,14 @@ Generator::Parser::JSON::parse_base64(Node *node,
         index_t encoded_len = (index_t) base64_str.length();
         index_t dec_buff_size = utils::base64_decode_buffer_size(encoded_len);
 
+        // the schema may not describe more than what is decoded
+        if(s.spanned_bytes() > dec_buff_size)
+        {
+            CONDUIT_ERROR("conduit_base64_json protocol error: schema describes "
+                          << s.spanned_bytes() << " bytes, but data/base64 holds "
+                          << "at most " << dec_buff_size);
+        }
+
         // decode buffer
         Node bb64_decode;
         bb64_decode.set(DataType::char8_str(dec_buff_size));
diff --git a/src/libs/conduit/conduit_schema.hpp b/src/libs/conduit/conduit_schema.hpp
index 1b70dc5..269799d 100644
--- a/src/libs/conduit/conduit_schema.hpp
+++ b/src/libs/conduit/conduit_schema.hpp
@@ -52,6 +52,7 @@ public:
     friend class Node;
     friend class NodeIterator;
     friend class NodeConstIterator;
+    friend class Generator;
 
 //----------------------------------------------------------------------------
 //
diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index f386c9d..01afc7d 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1357,7 +1357,8 @@ base64_encode_buffer_size(index_t src_nbytes)
 index_t
 base64_decode_buffer_size(index_t encoded_nbytes)
 {
-    return (encoded_nbytes / 4) * 3 + 1;
+    // round up: a trailing partial group also decodes to bytes
+    return ((encoded_nbytes + 3) / 4) * 3 + 1;
 }
 
 
-- 
2.43.0


From 983ed2a0cbee309481373ae848616b830481c79e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:54 +0000
Subject: [PATCH 035/140] fix: relaxed integer diffs compare every element, not
 only the first

---
 src/libs/conduit/conduit_node.cpp | 46 +++++++++++++++++++++++--------
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 5a5fbd6..3ec4628 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -18075,6 +18075,34 @@ Node::find_first_data_ptr() const
     return res;
 }
 
+//---------------------------------------------------------------------------//
+// helper for relaxed integer diffs: compares the values of the elements of `a`
+// to those at the same index of `b`, which may be of another integer type
+//---------------------------------------------------------------------------//
+static bool
+integer_values_differ(const Node &a, const Node &b)
+{
+    const bool a_unsigned = a.dtype().is_unsigned_integer();
+    const bool b_unsigned = b.dtype().is_unsigned_integer();
+
+    int64_accessor  a_svals = a.as_int64_accessor();
+    int64_accessor  b_svals = b.as_int64_accessor();
+    uint64_accessor a_uvals = a.as_uint64_accessor();
+    uint64_accessor b_uvals = b.as_uint64_accessor();
+
+    for(index_t i = 0; i < a.dtype().number_of_elements(); i++)
+    {
+        const bool a_negative = !a_unsigned && a_svals[i] < 0;
+        const bool b_negative = !b_unsigned && b_svals[i] < 0;
+
+        if(a_negative != b_negative || a_uvals[i] != b_uvals[i])
+        {
+            return true;
+        }
+    }
+    return false;
+}
+
 //---------------------------------------------------------------------------//
 bool
 Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) const
@@ -18091,12 +18119,9 @@ Node::diff(const Node &n, Node &info, const float64 epsilon, bool relaxint) cons
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() != n.dtype().number_of_elements() ||
+                      integer_values_differ(*this, n);
             else
                 res = true;
         }
@@ -18279,12 +18304,9 @@ Node::diff_compatible(const Node &n, Node &info, const float64 epsilon,
         // We ought to be able to compare integers of different sizes.
         if(relaxint)
         {
-            if(dtype().is_signed_integer() && n.dtype().is_signed_integer())
-                res = to_int64() != n.to_int64();
-            else if(dtype().is_unsigned_integer() && n.dtype().is_unsigned_integer())
-                res = to_uint64() != n.to_uint64();
-            else if(dtype().is_integer() && n.dtype().is_integer())
-                res = to_int64() != n.to_int64();
+            if(dtype().is_integer() && n.dtype().is_integer())
+                res = dtype().number_of_elements() > n.dtype().number_of_elements() ||
+                      integer_values_differ(*this, n);
             else
                 res = true;
         }
-- 
2.43.0


From 115695b9c79ee7bccbc21df201f83b0d916b17cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:17:54 +0000
Subject: [PATCH 036/140] fix: diff reports NaN against a number

---
 src/libs/conduit/conduit_data_array.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/libs/conduit/conduit_data_array.cpp b/src/libs/conduit/conduit_data_array.cpp
index ababf48..c86ff25 100644
--- a/src/libs/conduit/conduit_data_array.cpp
+++ b/src/libs/conduit/conduit_data_array.cpp
@@ -248,6 +248,8 @@ DataArray<T>::diff(const DataArray<T> &array, Node &info, const float64 epsilon)
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // NaN only matches NaN
+                res |= ((*this)[i] != (*this)[i]) != (array[i] != array[i]);
             }
             else
             {
@@ -423,6 +425,8 @@ DataArray<T>::diff_compatible(const DataArray<T> &array, Node &info, const float
             if(dtype().is_floating_point())
             {
                 res |= info_ptr[i] > epsilon || info_ptr[i] < -epsilon;
+                // NaN only matches NaN
+                res |= ((*this)[i] != (*this)[i]) != (array[i] != array[i]);
             }
             else
             {
-- 
2.43.0


From 545af79dd3d4d58aa3295517be9a9838442db359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:18 +0000
Subject: [PATCH 037/140] fix: IOHandle::list_child_names of a missing HDF5
 path gives an empty list

---
 src/libs/relay/conduit_relay_io_handle.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index 53d42d4..ff91dd0 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -782,7 +782,12 @@ HDF5Handle::list_child_names(const std::string &path,
 {
     // note: wrong mode errors are handled before dispatch to interface
 
-    hdf5_group_list_child_names(m_h5_id, path, res);
+    // the list is empty if the path does not exist
+    res.clear();
+    if(hdf5_has_path(m_h5_id, path))
+    {
+        hdf5_group_list_child_names(m_h5_id, path, res);
+    }
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 0b48b8be0db1cbba435846ead311c272cba47116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:18 +0000
Subject: [PATCH 038/140] fix: save_merged with the conduit_silo protocol
 merges with the existing file

---
 src/libs/relay/conduit_relay_io.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io.cpp b/src/libs/relay/conduit_relay_io.cpp
index 0d5e891..aba9814 100644
--- a/src/libs/relay/conduit_relay_io.cpp
+++ b/src/libs/relay/conduit_relay_io.cpp
@@ -514,11 +514,25 @@ save_merged(const Node &node,
     else if( protocol == "conduit_silo")
     {
 #ifdef CONDUIT_RELAY_IO_SILO_ENABLED
+        // split off the silo object name
+        std::string file_path;
+        std::string sub_path;
+        conduit::utils::split_file_path(path,
+                                        std::string(":"),
+                                        file_path,
+                                        sub_path);
         Node n;
         // support case where the path is initially empty
-        if(utils::is_file(path))
+        if(utils::is_file(file_path))
         {
-            silo_read(path,n);
+            DBfile *dbfile = DBOpen(file_path.c_str(), DB_HDF5, DB_READ);
+            CONDUIT_ASSERT(dbfile, "Error opening Silo file for reading: " << file_path);
+            // (or does not hold this object yet)
+            if(DBInqVarExists(dbfile, (sub_path + "_conduit_json").c_str()))
+            {
+                silo_read(dbfile,sub_path,n);
+            }
+            DBClose(dbfile);
         }
         n.update(node);
         silo_write(n,path);
-- 
2.43.0


From 88393721802055c600eadc4132fbd6126cd9a0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 039/140] fix: accept the documented HDF5 libver option v110

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 40c0a8e..cabf6a8 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -3185,7 +3185,7 @@ create_hdf5_file_access_plist()
         {
             h5_status = H5Pset_libver_bounds(h5_fa_props, H5F_LIBVER_V18, H5F_LIBVER_V18);
         }
-        else if(HDF5Options::libver == "v1110")
+        else if(HDF5Options::libver == "v110")
         {
             h5_status = H5Pset_libver_bounds(h5_fa_props, H5F_LIBVER_V18, H5F_LIBVER_V110);
         }
-- 
2.43.0


From 14daaa37fec84ff0cdcd19f970b0f9bddecefe40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:42 +0000
Subject: [PATCH 040/140] fix: loading a missing object from a conduit_silo
 file is an error

---
 src/libs/relay/conduit_relay_io_silo.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index adf06e2..c2232f4 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -209,6 +209,9 @@ void silo_read(DBfile *dbfile,
     int schema_len = DBGetVarLength(dbfile, src_json.c_str());
     int data_len   = DBGetVarLength(dbfile, src_data.c_str());
 
+    CONDUIT_ASSERT(schema_len >= 0 && data_len >= 0,
+        "Silo file does not hold a conduit Node named: " << silo_obj_path);
+
     char *schema = new char[schema_len];
     char *data   = new char[data_len];
 
-- 
2.43.0


From 4dd85f333160f9a87aa44d3d3b6f97683e71a9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:47:57 +0000
Subject: [PATCH 041/140] fix: write-only append handles of basic protocols
 keep the file's contents

---
 src/libs/relay/conduit_relay_io_handle.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle.cpp b/src/libs/relay/conduit_relay_io_handle.cpp
index ff91dd0..b5d4426 100644
--- a/src/libs/relay/conduit_relay_io_handle.cpp
+++ b/src/libs/relay/conduit_relay_io_handle.cpp
@@ -409,8 +409,9 @@ BasicHandle::open()
     // we start out with a blank slate
     if( utils::is_file( path() ) )
     {
-        // read if handle is not 'write' only and we aren't truncating
-        if( open_mode_read() && !open_mode_truncate() )
+        // read if we aren't truncating ('write' only handles append as well,
+        // their close must keep what is already in the file)
+        if( !open_mode_truncate() )
         {
             // read from file
             io::load(path(),
-- 
2.43.0


From 467fc9737f60c1ea6f6ba0420e266cd77f95d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:13 +0000
Subject: [PATCH 042/140] fix: path based HDF5 reads and writes close the file
 when they fail

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 82 ++++++++++++++++++++----
 1 file changed, 70 insertions(+), 12 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index cabf6a8..0bbaf05 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -3308,6 +3308,40 @@ hdf5_close_file(hid_t hdf5_id)
 }
 
 
+//-----------------------------------------------------------------------------
+// closes a file that was opened by one of the path based methods, and
+// anything opened through it, after an error occurred. Without this hdf5
+// would keep the file open (and locked) until the end of the program.
+//-----------------------------------------------------------------------------
+static void
+hdf5_close_file_after_error(hid_t hdf5_id)
+{
+    HDF5ErrorStackSupressor supress_hdf5_errors;
+
+    const unsigned int h5_obj_types = H5F_OBJ_DATASET |
+                                      H5F_OBJ_GROUP   |
+                                      H5F_OBJ_DATATYPE |
+                                      H5F_OBJ_ATTR    |
+                                      H5F_OBJ_LOCAL;
+
+    ssize_t h5_num_objs = H5Fget_obj_count(hdf5_id, h5_obj_types);
+    if(h5_num_objs > 0)
+    {
+        std::vector<hid_t> h5_objs((size_t)h5_num_objs, -1);
+        h5_num_objs = H5Fget_obj_ids(hdf5_id,
+                                     h5_obj_types,
+                                     (size_t)h5_num_objs,
+                                     &h5_objs[0]);
+        for(ssize_t i = 0; i < h5_num_objs; i++)
+        {
+            H5Idec_ref(h5_objs[(size_t)i]);
+        }
+    }
+
+    H5Fclose(hdf5_id);
+}
+
+
 
 //---------------------------------------------------------------------------//
 void
@@ -3621,10 +3655,18 @@ hdf5_write(const Node &node,
         h5_file_id = hdf5_create_file(file_path);
     }
 
-    hdf5_write(node,
-               h5_file_id,
-               hdf5_path,
-               opts);
+    try
+    {
+        hdf5_write(node,
+                   h5_file_id,
+                   hdf5_path,
+                   opts);
+    }
+    catch(...)
+    {
+        hdf5_close_file_after_error(h5_file_id);
+        throw;
+    }
 
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
@@ -3766,10 +3808,18 @@ hdf5_read(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
-    hdf5_read(h5_file_id,
-              hdf5_path,
-              opts,
-              node);
+    try
+    {
+        hdf5_read(h5_file_id,
+                  hdf5_path,
+                  opts,
+                  node);
+    }
+    catch(...)
+    {
+        hdf5_close_file_after_error(h5_file_id);
+        throw;
+    }
 
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
@@ -3911,10 +3961,18 @@ hdf5_read_info(const std::string &file_path,
     // open the hdf5 file for reading
     hid_t h5_file_id = hdf5_open_file_for_read(file_path);
 
-    hdf5_read_info(h5_file_id,
-              hdf5_path,
-              opts,
-              node);
+    try
+    {
+        hdf5_read_info(h5_file_id,
+                  hdf5_path,
+                  opts,
+                  node);
+    }
+    catch(...)
+    {
+        hdf5_close_file_after_error(h5_file_id);
+        throw;
+    }
 
     // close the hdf5 file
     CONDUIT_CHECK_HDF5_ERROR(H5Fclose(h5_file_id),
-- 
2.43.0


From f7f6e44b2fbad6fa6a97b8e0b765911157e0d80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:29 +0000
Subject: [PATCH 043/140] fix: HDF5 reads through a file id use the root
 group's creation order

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 0bbaf05..b400b28 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -2653,7 +2653,20 @@ read_hdf5_group_into_conduit_node(hid_t hdf5_group_id,
 
     // check for creation order index using propertylist
 
-    hid_t h5_gc_plist = H5Gget_create_plist(hdf5_group_id);
+    // note: the id may be a file id, open the group itself since only groups
+    // have this property list
+    hid_t h5_gc_plist = -1;
+    hid_t h5_gc_group_id = H5Gopen(hdf5_group_id, ".", H5P_DEFAULT);
+
+    if( CONDUIT_HDF5_VALID_ID(h5_gc_group_id) )
+    {
+        h5_gc_plist = H5Gget_create_plist(h5_gc_group_id);
+        CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Gclose(h5_gc_group_id),
+                                                        hdf5_group_id,
+                                                        ref_path,
+                                               "Failed to close HDF5 Group "
+                                               << h5_gc_group_id);
+    }
 
     if( CONDUIT_HDF5_VALID_ID(h5_gc_plist) )
     {
-- 
2.43.0


From c7af946ab1a08312dc85f5c11682fc200fb0018d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:29 +0000
Subject: [PATCH 044/140] fix: an empty node is reported incompatible with an
 HDF5 dataset without leaking ids

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index b400b28..65443c9 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -987,6 +987,20 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
                 res = false;
             }
         }
+        else if(dtype.is_empty())
+        {
+            // conduit empty is only compatible with a H5S_NULL data space
+            std::ostringstream oss;
+            oss << "Conduit Node (empty) at path '" << ref_path << "'"
+                << " is not compatible with given HDF5 Dataset at path"
+                << " '" << ref_path << "'"
+                << "\nAn empty Conduit Node is only compatible with a HDF5"
+                << " dataset that has a H5S_NULL Dataspace";
+
+            incompat_details = oss.str();
+
+            res = false;
+        }
         else
         {
             // get the hdf5 datatype that matchs the conduit dtype
-- 
2.43.0


From 316fa514f66bb7e8dd034c5e1f10faa2d6c1f3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 045/140] fix: close the parent group after converting an HDF5
 dataset to extendible

H5Dclose does not close a group id, so the file stayed open.
---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 65443c9..6a82036 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1790,7 +1790,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
             // close the old dataset to prevent the old identifier from
             // interfering
             H5Oclose(hdf5_dset_id);
-            H5Dclose(hdf5_dset_parent_id);
+            H5Oclose(hdf5_dset_parent_id);
 
             hdf5_dset_id = H5Oopen(hdf5_id,
                 hdf5_dset_path.c_str(), H5P_DEFAULT);
-- 
2.43.0


From 3f60de4a01cc97510d6e437a6ba737dca6215c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 046/140] fix: HDF5 writes with offset 0 to a fixed dataset of
 another size

The whole dataset was written from the node's memory, reading past its
end when the node is smaller and dropping elements when it is larger.
---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 6a82036..012dc04 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1688,9 +1688,10 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
     hsize_t dataset_max_dims[1];
     H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
 
-    // if the layout is fixed and no offset/stride is supplied,
-    // the entire array is overwriten
-    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1)
+    // if the layout is fixed, no offset/stride is supplied, and the node
+    // fills the dataset, the entire array is overwriten
+    if (dataset_max_dims[0] != H5S_UNLIMITED && offset == 0 && stride == 1 &&
+        (dt.is_string() || (hsize_t)dt.number_of_elements() == dataset_dim))
     {
 
         // if the node is compact, we can write directly from its data ptr
-- 
2.43.0


From ea94fd289efc15f05e6b60a3726acfe9af149001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:31 +0000
Subject: [PATCH 047/140] fix: stack overflow when writing over N-dimensional
 HDF5 datasets

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index 012dc04..e470222 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -1013,7 +1013,8 @@ check_if_conduit_leaf_is_compatible_with_hdf5_obj(const DataType &dtype,
             // we will check the 1d-properties of the hdf5 dataspace
             hssize_t h5_test_num_ele = H5Sget_simple_extent_npoints(h5_test_dspace);
 
-            hsize_t dataset_max_dims[1];
+            // (H5S_MAX_RANK: the dataset may have any number of dims)
+            hsize_t dataset_max_dims[H5S_MAX_RANK] = {0};
             H5Sget_simple_extent_dims(h5_test_dspace, NULL, dataset_max_dims);
 
             // string case is special, check it first
@@ -1685,7 +1686,7 @@ write_conduit_leaf_to_hdf5_dataset(const Node &node,
     // get dimensions of dset
     hid_t dataspace = H5Dget_space(hdf5_dset_id);
     hsize_t dataset_dim = H5Sget_simple_extent_npoints(dataspace);
-    hsize_t dataset_max_dims[1];
+    hsize_t dataset_max_dims[H5S_MAX_RANK] = {0};
     H5Sget_simple_extent_dims(dataspace, NULL, dataset_max_dims);
 
     // if the layout is fixed, no offset/stride is supplied, and the node
-- 
2.43.0


From 4f29e1a3c84d84fd21f6398ee7a794b26c554a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:44 +0000
Subject: [PATCH 048/140] fix: a failed HDF5 read through an open id closes the
 object it read

---
 src/libs/relay/conduit_relay_io_hdf5.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_hdf5.cpp b/src/libs/relay/conduit_relay_io_hdf5.cpp
index e470222..ef1216b 100644
--- a/src/libs/relay/conduit_relay_io_hdf5.cpp
+++ b/src/libs/relay/conduit_relay_io_hdf5.cpp
@@ -3800,11 +3800,20 @@ hdf5_read(hid_t hdf5_id,
                             "Failed to fetch HDF5 object from: "
                              << hdf5_id << ":" << hdf5_path);
 
-    read_hdf5_tree_into_conduit_node(h5_child_obj,
-                                     hdf5_path,
-                                     false,
-                                     opts,
-                                     dest);
+    try
+    {
+        read_hdf5_tree_into_conduit_node(h5_child_obj,
+                                         hdf5_path,
+                                         false,
+                                         opts,
+                                         dest);
+    }
+    catch(...)
+    {
+        // don't leave the object (and with it the file) open
+        H5Oclose(h5_child_obj);
+        throw;
+    }
 
     CONDUIT_CHECK_HDF5_ERROR_WITH_FILE_AND_REF_PATH(H5Oclose(h5_child_obj),
                                                     hdf5_id,
-- 
2.43.0


From c4155b89567c09362e02ef7c072ad7046c987feb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:28:56 +0000
Subject: [PATCH 049/140] fix: extents of a uniform coordset with a fractional
 origin

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cec1bed..e4f0dbf 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1450,21 +1450,21 @@ coordset::extents(const Node &n)
         float64 min, max;
         if(csys_type == "uniform")
         {
-            index_t origin = 0;
+            float64 origin = 0.0;
             float64 spacing = 1.0;
             index_t dim = n["dims"][LOGICAL_AXES[i]].to_index_t();
             if(n.has_child("origin")
                 && n["origin"].has_child(csys_axes[i]))
             {
-                origin = n["origin"][csys_axes[i]].to_index_t();
+                origin = n["origin"][csys_axes[i]].to_float64();
             }
             if(n.has_child("spacing")
                 && n["spacing"].has_child("d"+csys_axes[i]))
             {
                 spacing = n["spacing"]["d" + csys_axes[i]].to_float64();
             }
-            min = (float64)origin;
-            max = (float64)origin + (spacing * ((float64)dim - 1.));
+            min = origin;
+            max = origin + (spacing * ((float64)dim - 1.));
             if(spacing < 0.)
             {
                 std::swap(min, max);
-- 
2.43.0


From fafdf1fd25f40b5208d5a4e7f771625fbbf2a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:18 +0000
Subject: [PATCH 050/140] fix: generate_offsets of polyhedra that have only one
 of the two offsets

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index e4f0dbf..651ac4a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -2401,10 +2401,15 @@ topology::unstructured::generate_offsets(const Node &topo,
 
     // Selectively reset now that early returns have happened. We do the
     // checks for the polyhedral case since some offsets might exist.
+    // Offsets that do exist are passed on to the destination.
     if(!elem_offsets_exist)
         dest_ele_offsets.reset();
+    else if(&dest_ele_offsets != &topo["elements/offsets"])
+        dest_ele_offsets.set_external(topo["elements/offsets"]);
     if(!subelem_offsets_exist)
         dest_subele_offsets.reset();
+    else if(&dest_subele_offsets != &topo["subelements/offsets"])
+        dest_subele_offsets.set_external(topo["subelements/offsets"]);
 
     ///
     /// Generate Cases
-- 
2.43.0


From 6916601166a7f6d3eaf0de462c897a04b1f8038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:19 +0000
Subject: [PATCH 051/140] fix: topology metadata of topologies with strided
 connectivity

---
 .../conduit_blueprint_mesh_topology_metadata.cpp       | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
index f13ea68..40dfdbb 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_topology_metadata.cpp
@@ -1614,8 +1614,11 @@ TopologyMetadata::Implementation::dispatch_connectivity_ph(const conduit::Node &
     const conduit::Node &sizes)
 {
     // Dispatch to different versions based on connectivity type.
+    // Only compact arrays can be accessed using raw pointers.
     index_t sizeslen = sizes.dtype().number_of_elements();
-    if(sizes.dtype().is_int32())
+    if(!sizes.dtype().is_compact())
+        dispatch_shape_ph(subel, sizes.as_index_t_accessor(), sizeslen);
+    else if(sizes.dtype().is_int32())
         dispatch_shape_ph(subel, sizes.as_int32_ptr(), sizeslen);
     else if(sizes.dtype().is_uint32())
         dispatch_shape_ph(subel, sizes.as_uint32_ptr(), sizeslen);
@@ -1636,7 +1639,10 @@ TopologyMetadata::Implementation::dispatch_connectivity(const ShapeType &shape,
     const conduit::Node &conn)
 {
     // Dispatch to different versions based on connectivity type.
-    if(conn.dtype().is_int32())
+    // Only compact arrays can be accessed using raw pointers.
+    if(!conn.dtype().is_compact())
+        dispatch_shape(shape, conn.as_index_t_accessor(), conn.dtype().number_of_elements());
+    else if(conn.dtype().is_int32())
         dispatch_shape(shape, conn.as_int32_ptr(), conn.dtype().number_of_elements());
     else if(conn.dtype().is_uint32())
         dispatch_shape(shape, conn.as_uint32_ptr(), conn.dtype().number_of_elements());
-- 
2.43.0


From e80325e3afa7f54e9aea0abd438af7311e50ea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:19 +0000
Subject: [PATCH 052/140] fix: centroids of elements with more than 8 vertices
 or a vertex repeated three times

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index f801220..8f1eb38 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -1416,7 +1416,7 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
             {
                 if(values[left[i]] == values[right[i]])
                 {
-                    mask[right[i]]--;
+                    mask[right[i]] = 0;
                     needmask = true;
                 }
             }
@@ -1427,7 +1427,7 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
             {
                 if(values[offset + left[i]] == values[offset + right[i]])
                 {
-                    mask[right[i]]--;
+                    mask[right[i]] = 0;
                     needmask = true;
                 }
             }
@@ -1441,11 +1441,11 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
         {
             for(int row = 0; row < n; row++)
             {
-                for(int col = row + 1; col <= n; col++)
+                for(int col = row + 1; col < n; col++)
                 {
                     if(values[row] == values[col])
                     {
-                        mask[col]--;
+                        mask[col] = 0;
                         needmask = true;
                     }
                 }
@@ -1455,11 +1455,11 @@ unique_mask(const Container &values, index_t offset, index_t n, int *mask)
         {
             for(int row = 0; row < n; row++)
             {
-                for(int col = row + 1; col <= n; col++)
+                for(int col = row + 1; col < n; col++)
                 {
                     if(values[offset + row] == values[offset + col])
                     {
-                        mask[col]--;
+                        mask[col] = 0;
                         needmask = true;
                     }
                 }
-- 
2.43.0


From 974e93fb76ec99438f93ec9c520eda8d8e1ba9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:40:19 +0000
Subject: [PATCH 053/140] fix: generate_sides maps fields of topologies that
 have no sizes

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 8f1eb38..77e0b70 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -5280,7 +5280,7 @@ namespace detail
         bool vert_assoc = false; // true if the current field is vertex associated
         int dimensions = 0; // are we in 2D or 3D?
         int new_num_shapes = 0; // the number of new triangles or tetrahedrons
-        int num_orig_shapes = topo_src["elements/sizes"].dtype().number_of_elements(); // the number of original polygons or polyhedra
+        int num_orig_shapes = bputils::topology::length(topo_src); // the number of original polygons or polyhedra
         Node volumes_info; // a container for the volumes of old shapes and the ratio between new and old volumes for each new shape
         bool volumes_calculated = false; // so we only calculate the volumes once as we go through the while loop
         float64_accessor volume_ratio; // a float64 accessor to the ratio between new and old volumes for each new shape
-- 
2.43.0


From 6cf2fc2bd99467ba5f2c5609c29d0963b512fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:15 +0000
Subject: [PATCH 054/140] fix: verify of mixed topologies answers for shape
 maps of any integer type and for malformed ones

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 21 ++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 77e0b70..32f574f 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -512,6 +512,11 @@ bool verify_shapes_node(const Node &node, const Node &shape_map, Node &info)
   bool res = true;
   res &= verify_integer_field(protocol, node, info);
 
+  if(!res)
+  {
+    return res;
+  }
+
   const int32_accessor shapes = node.value();
 
   std::vector<int32> range;
@@ -554,7 +559,9 @@ bool verify_mixed_elements_node(const Node& topo_elems, Node &info_elems, bool&
   elems_res &= verify_field_exists(protocol, topo_elems, info_elems, "shape_map") &&
       conduit::blueprint::mesh::topology::shape_map::verify(topo_elems["shape_map"], info_elems["shape_map"]);
 
-  elems_res &= verify_field_exists(protocol, topo_elems, info_elems, "shapes") &&
+  // the shapes can only be checked against a valid shape_map
+  elems_res = elems_res &&
+      verify_field_exists(protocol, topo_elems, info_elems, "shapes") &&
       verify_shapes_node(topo_elems["shapes"], topo_elems["shape_map"], info_elems["shapes"]);
 
   return elems_res;
@@ -6136,6 +6143,14 @@ mesh::topology::shape_map::verify(const Node& shape_map,
 
   for (const Node &child : shape_map.children())
   {
+    if (!child.dtype().is_integer() ||
+        child.dtype().number_of_elements() < 1)
+    {
+      log::error(info, protocol, log::quote(child.name()) + "is not an integer");
+      res = false;
+      continue;
+    }
+
     bool isEnum = false;
     for(const auto &enum_value : bputils::TOPO_SHAPES)
     {
@@ -6144,12 +6159,12 @@ mesh::topology::shape_map::verify(const Node& shape_map,
     if (isEnum)
     {
       log::info(info, protocol, "has valid value "+ log::quote(child.name()) +
-      "(" + std::to_string(child.as_int32()) + ")");
+      "(" + std::to_string(child.to_int64()) + ")");
     }
     else
     {
       log::error(info, protocol, "has invalid value " + log::quote(child.name()) +
-        "(" + std::to_string(child.as_int32()) + ")");
+        "(" + std::to_string(child.to_int64()) + ")");
     }
     res &= isEnum;
   }
-- 
2.43.0


From e887b3f94892a9e3496264cb6a26f6ddb0cf0fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 055/140] fix: specset verify answers for materials without
 species

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 32f574f..c07ce8e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6675,7 +6675,8 @@ mesh::specset::verify(const Node &specset,
             }
             else
             {
-                const index_t specmat_len = specmat.child(0).dtype().number_of_elements();
+                const index_t specmat_len = specmat.number_of_children() > 0 ?
+                    specmat.child(0).dtype().number_of_elements() : 0;
                 if(specmats_len == 0)
                 {
                     specmats_len = specmat_len;
-- 
2.43.0


From 673e128cc74a80a96302dd611de463b0ae6ec653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 056/140] fix: verify of polyhedral topologies answers for
 subelements whose shape is not a string

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index c07ce8e..1530f86 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -644,7 +644,8 @@ bool verify_poly_node(bool is_mixed_topo,
                         subnode_res &= verify_field_exists(protocol, sub_node, subnode_info, "shape") &&
                         blueprint::mesh::topology::shape::verify(sub_node["shape"], subnode_info["shape"]);
                         subnode_res &= verify_integer_field(protocol, sub_node, subnode_info, "connectivity");
-                        subnode_res &= sub_node["shape"].as_string() == "polygonal";
+                        subnode_res &= sub_node["shape"].dtype().is_string() &&
+                                       sub_node["shape"].as_string() == "polygonal";
                         subnode_res &= blueprint::o2mrelation::verify(sub_node, subnode_info);
                     }
                     else
-- 
2.43.0


From a103edaf2970595bd43cd36cab1ebd29111a3025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 057/140] fix: adjset verify compares the dimensions of a
 window

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 1530f86..86b1283 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6798,10 +6798,10 @@ mesh::adjset::verify(const Node &adjset,
                         index_t window_dim = wndw["origin"].number_of_children();
                         window_res &= !wndw.has_child("dims") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "dims", false, window_dim);
+                                wndw_info, "dims", false, false, window_dim);
                         window_res &= !wndw.has_child("ratio") ||
                             verify_object_field(protocol, wndw,
-                                wndw_info, "ratio", false, window_dim);
+                                wndw_info, "ratio", false, false, window_dim);
                     }
 
                     log::validation(wndw_info,window_res);
-- 
2.43.0


From 7feec25d9189afd445d7df721637028fa69f1ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 058/140] fix: matset verify rejects volume_fractions without
 materials

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 86b1283..253403e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6249,8 +6249,11 @@ mesh::matset::verify(const Node &matset,
 
             res &= vfs_res;
         }
-        else if(matset["volume_fractions"].dtype().is_object() &&
-            verify_object_field(protocol, matset, info, "volume_fractions"))
+        else if(!verify_object_field(protocol, matset, info, "volume_fractions"))
+        {
+            res &= vfs_res &= false;
+        }
+        else
         {
             log::info(info, protocol, "detected multi-buffer matset");
 
-- 
2.43.0


From 1068e1c324fb95eb48e84503a30844a9339b540b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:23 +0000
Subject: [PATCH 059/140] fix: generate_index of fields with uni-buffer
 matset_values

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 253403e..d2859a6 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -2412,7 +2412,8 @@ mesh::generate_index_for_single_domain(const Node &mesh,
             }
             else
             {
-                if(fld["matset_values"].child(0).dtype().is_object())
+                if(fld["matset_values"].number_of_children() > 0 &&
+                   fld["matset_values"].child(0).dtype().is_object())
                 {
                     ncomps = fld["matset_values"].child(0).number_of_children();
                 }
-- 
2.43.0


From f91cf15fa9876c8e29bcce97ff8871094f1bc0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:14 +0000
Subject: [PATCH 060/140] fix: O2MIndex counts the ones of relations without
 sizes, offsets and indices

---
 .../conduit_blueprint_o2mrelation_index.cpp      | 16 +++++++++++++++-
 .../conduit_blueprint_o2mrelation_index.hpp      |  3 +++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp
index 7ae519d..aadbd68 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.cpp
@@ -45,13 +45,21 @@ namespace o2mrelation
 
 //---------------------------------------------------------------------------//
 O2MIndex::O2MIndex()
+: m_data_size(0)
 {
 // empty //
 }
 
 //---------------------------------------------------------------------------//
 O2MIndex::O2MIndex(const Node *node)
+: m_data_size(0)
 {
+    const std::vector<std::string> paths = data_paths(*node);
+    if(!paths.empty())
+    {
+        m_data_size = (*node)[paths.front()].dtype().number_of_elements();
+    }
+
     if (node->has_child("sizes"))
     {
         m_sizes_acc = (*node)["sizes"].as_index_t_accessor();
@@ -75,7 +83,8 @@ O2MIndex::O2MIndex(const Node &node)
 O2MIndex::O2MIndex(const O2MIndex &itr)
 : m_sizes_acc(itr.m_sizes_acc),
   m_indices_acc(itr.m_indices_acc),
-  m_offsets_acc(itr.m_offsets_acc)
+  m_offsets_acc(itr.m_offsets_acc),
+  m_data_size(itr.m_data_size)
 { }
 
 //---------------------------------------------------------------------------//
@@ -87,6 +96,7 @@ O2MIndex::operator=(const O2MIndex &itr)
         m_sizes_acc = itr.m_sizes_acc;
         m_indices_acc = itr.m_indices_acc;
         m_offsets_acc = itr.m_offsets_acc;
+        m_data_size = itr.m_data_size;
     }
     return *this;
 }
@@ -166,6 +176,10 @@ O2MIndex::size(index_t one_index) const
         {
             nelements = m_indices_acc.number_of_elements();
         }
+        else
+        {
+            nelements = m_data_size;
+        }
     }
     else
     {
diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp
index 8daf7e8..ea9b323 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_index.hpp
@@ -113,6 +113,9 @@ private:
     index_t_accessor m_sizes_acc;
     index_t_accessor m_indices_acc;
     index_t_accessor m_offsets_acc;
+    /// Length of the data, the number of "ones" of relations w/o sizes,
+    /// offsets and indices
+    index_t          m_data_size;
 };
 //-----------------------------------------------------------------------------
 // -- end conduit::blueprint::o2mrelation::O2MIndex --
-- 
2.43.0


From 2856daffc02469ca004ba1628f5eb2be5c97b2c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:29:14 +0000
Subject: [PATCH 061/140] fix: specset to_silo accepts material maps of any
 integer type

---
 src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index b01006a..5c828e7 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -1489,7 +1489,7 @@ to_silo(const conduit::Node &specset,
         CONDUIT_ASSERT(matset_vals_itr.name() == matmap_itr.name(), 
             "blueprint::mesh::specset::to_silo materials must be in the same order "
             "between passed specset and passed matset.");
-        matmap_map[matmap_entry.as_int()] = matmap_index;
+        matmap_map[matmap_entry.to_int()] = matmap_index;
         matmap_index ++;
     }
 
-- 
2.43.0


From e23ae352a5eacd973aec35bfdf56db6f03eb402d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:30:59 +0000
Subject: [PATCH 062/140] fix: specset to_silo replaces the old contents of its
 destination

---
 src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index 5c828e7..ef13a16 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -1493,6 +1493,8 @@ to_silo(const conduit::Node &specset,
         matmap_index ++;
     }
 
+    // specnames are appended, so drop what an earlier call left in dest
+    dest.reset();
     dest["nmatspec"].set(DataType::index_t(nmat));
     index_t_array nmatspec = dest["nmatspec"].value();
     matset_vals_itr.to_front();
-- 
2.43.0


From a22ef13213c5acce0079eef11ff04965b4cb96a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:03 +0000
Subject: [PATCH 063/140] fix: matset to_silo uses a signed type for the
 negative entries of matlist

---
 src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index ef13a16..ccc702b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -81,7 +81,10 @@ to_silo(const conduit::Node &field,
         const float64 epsilon)
 {
     Node temp, data;
-    const DataType int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    // matlist marks mixed elements with negative values, so a signed type is needed
+    const DataType widest_int_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_INT_DTYPES);
+    const DataType int_dtype = widest_int_dtype.is_signed_integer() ?
+                               widest_int_dtype : DataType::int64();
     const DataType float_dtype = bputils::find_widest_dtype(matset, bputils::DEFAULT_FLOAT_DTYPE);
     // if matset_values is not empty, we will
     // apply the same xform to it as we do to the volume fractions.
-- 
2.43.0


From a552088f5b524c1e24c57455fb5d509bae89bed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:33:05 +0000
Subject: [PATCH 064/140] fix: O2MIterator looks every item up in indices, as
 O2MIndex does

---
 .../conduit_blueprint_o2mrelation_iterator.cpp        | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
index 3e9cc9f..2fc3464 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation_iterator.cpp
@@ -426,13 +426,16 @@ O2MIterator::index(index_t one_index, index_t many_index, IndexType itype) const
             offset = m_offsets_node->as_index_t_accessor()[one_index];
         }
 
-        index = offset;
+        index = offset + (many_index - 1);
         if(m_indices_node)
         {
-            index = m_indices_node->as_index_t_accessor()[offset];
+            // sizes and offsets refer to entries of indices
+            const index_t_accessor indices = m_indices_node->as_index_t_accessor();
+            if(index >= 0 && index < indices.number_of_elements())
+            {
+                index = indices[index];
+            }
         }
-
-        index += (many_index - 1);
     }
     else if(itype == ONE)
     {
-- 
2.43.0


From dbdac93119295603780c1b2ef5c40ef6b868945c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:38:19 +0000
Subject: [PATCH 065/140] fix: matset to_silo gets past elements without
 materials

---
 .../conduit_blueprint_mesh_matset_xforms.cpp      | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
index ccc702b..7cf5d46 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_matset_xforms.cpp
@@ -197,11 +197,10 @@ to_silo(const conduit::Node &field,
             mat_eids.set_external(matset["element_ids"]);
         }
 
-        blueprint::o2mrelation::O2MIterator mat_iter(matset);
-        while(mat_iter.has_next(o2mrelation::DATA))
+        // note: O2MIterator does not get past groups without entries
+        const blueprint::o2mrelation::O2MIndex mat_o2m(matset);
+        for(index_t elem_ind_index = 0; elem_ind_index < mat_o2m.size(); elem_ind_index++)
         {
-            const index_t elem_ind_index = mat_iter.next(o2mrelation::ONE);
-
             // -- get element id -- //
             // this is either "elem_ind_index" from the o2m, or
             // this index applied to the material-to-elements map
@@ -215,12 +214,10 @@ to_silo(const conduit::Node &field,
             const index_t elem_index = mset_is_matdom ? temp.to_index_t() : elem_ind_index;
 
             // we now have the element index, find all material indicies
-            // using the o2m-many iter
-            mat_iter.to_front(o2mrelation::MANY);
-            while(mat_iter.has_next(o2mrelation::MANY))
+            // using the o2m relation
+            for(index_t many_index = 0; many_index < mat_o2m.size(elem_ind_index); many_index++)
             {
-                mat_iter.next(o2mrelation::MANY);
-                const index_t mat_ind_index = mat_iter.index(o2mrelation::DATA);
+                const index_t mat_ind_index = mat_o2m.index(elem_ind_index, many_index);
 
                 // this index now allows us to fetch the
                 //  vol frac
-- 
2.43.0


From 92cf6b5b7449e722d0c47f3ca31553d5dad482b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:16 +0000
Subject: [PATCH 066/140] fix: mcarray to_contiguous and to_interleaved keep
 list components and names with slashes

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 3f31c7d..402a448 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -173,7 +173,10 @@ to_contiguous(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (the components of a list have no names)
+        Schema &s_comp = src.dtype().is_list() ? s_dest.append()
+                                               : s_dest.add_child(name);
+        s_comp.set(curr_dt);
         
         // update the offset for the next component
         curr_offset += elem_bytes * curr_dt.number_of_elements();
@@ -232,7 +235,10 @@ to_interleaved(const conduit::Node &src,
         curr_dt.set_offset(curr_offset);
         
         // put the dtype into our schema with the correct name
-        s_dest[name] = curr_dt;
+        // (the components of a list have no names)
+        Schema &s_comp = src.dtype().is_list() ? s_dest.append()
+                                               : s_dest.add_child(name);
+        s_comp.set(curr_dt);
         
         // update the offset for the next component
         curr_offset += elem_bytes;
-- 
2.43.0


From a77a4b0505bbf1061a0c2c23d17f2463a3bb4d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:16 +0000
Subject: [PATCH 067/140] fix: o2mrelation compact_to of relations with one
 group or with several data arrays

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 6a3bfb6..54ed95a 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -211,9 +211,10 @@ void compact_to(const conduit::Node &o2mrelation,
 
         conduit::Node o2m_temp, res_temp;
         index_t curr_index = 0, curr_offset = 0;
-        while(o2miter.has_next(conduit::blueprint::o2mrelation::ONE))
+        const index_t num_ones = o2miter.elements(conduit::blueprint::o2mrelation::ONE);
+        for(index_t one_index = 0; one_index < num_ones; one_index++)
         {
-            const index_t one_index = o2miter.next(conduit::blueprint::o2mrelation::ONE);
+            o2miter.to(one_index, conduit::blueprint::o2mrelation::ONE);
 
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
             o2m_temp.set(curr_offset);
@@ -225,7 +226,7 @@ void compact_to(const conduit::Node &o2mrelation,
                 o2miter.next(conduit::blueprint::o2mrelation::MANY);
                 const index_t data_index = o2miter.index(conduit::blueprint::o2mrelation::DATA);
 
-                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++, curr_index++)
+                for(index_t pi = 0; pi < (index_t)o2m_paths_curr.size(); pi++)
                 {
                     const conduit::Node &o2m_data = o2mrelation[o2m_paths_curr[pi]];
                     conduit::Node &res_data = res[o2m_paths_curr[pi]];
@@ -235,6 +236,9 @@ void compact_to(const conduit::Node &o2mrelation,
                     res_temp.set_external(data_dtype, (void*)res_data.element_ptr(curr_index));
                     o2m_temp.to_data_type(data_dtype.id(), res_temp);
                 }
+
+                // every data array has one entry per item
+                curr_index++;
             }
 
             curr_offset += o2miter.elements(conduit::blueprint::o2mrelation::MANY);
-- 
2.43.0


From e63d120a11fc5b0b8eb48870364845b50951c265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:42:45 +0000
Subject: [PATCH 068/140] fix: o2mrelation compact_to does not write to the
 data it reads

---
 src/libs/blueprint/conduit_blueprint_o2mrelation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
index 54ed95a..20a541a 100644
--- a/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
+++ b/src/libs/blueprint/conduit_blueprint_o2mrelation.cpp
@@ -217,6 +217,8 @@ void compact_to(const conduit::Node &o2mrelation,
             o2miter.to(one_index, conduit::blueprint::o2mrelation::ONE);
 
             res_temp.set_external(offsets_dtype, res_offsets.element_ptr(one_index));
+            // o2m_temp may still point to the source data
+            o2m_temp.reset();
             o2m_temp.set(curr_offset);
             o2m_temp.to_data_type(offsets_dtype.id(), res_temp);
 
-- 
2.43.0


From e73db2c4954956a4682c198ae74bf382b710a3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:43:51 +0000
Subject: [PATCH 069/140] fix: mcarray verify compares the lengths of all
 components, empty ones too

---
 src/libs/blueprint/conduit_blueprint_mcarray.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mcarray.cpp b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
index 402a448..432d636 100644
--- a/src/libs/blueprint/conduit_blueprint_mcarray.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mcarray.cpp
@@ -76,7 +76,7 @@ bool verify(const conduit::Node &n,
     }
 
     NodeConstIterator itr = n.children();
-    index_t num_elems = 0;
+    index_t num_elems = -1;
 
     while(itr.has_next())
     {
@@ -86,7 +86,7 @@ bool verify(const conduit::Node &n,
         // make sure we have a number
         if(chld.dtype().is_number())
         {
-            if(num_elems == 0)
+            if(num_elems < 0)
             {
                 num_elems = chld.dtype().number_of_elements();
             }
-- 
2.43.0


From edf09ac52199099fa89a3ea15a02a964d9b20843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:04:19 +0000
Subject: [PATCH 070/140] fix: partition adds the mapping fields to parts of
 meshes without fields

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2ea3ddf..1d9c1cf 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2688,9 +2688,12 @@ Partitioner::copy_fields(index_t domain, const std::string &topology,
     const conduit::Node &n_mesh,
     conduit::Node &n_output) const
 {
-    if(n_mesh.has_child("fields"))
+    if(n_mesh.has_child("fields") || mapping)
     {
-        const conduit::Node &n_fields = n_mesh["fields"];
+        // NOTE: The mapping fields are added even if there are no other fields.
+        const conduit::Node n_no_fields;
+        const conduit::Node &n_fields = n_mesh.has_child("fields") ?
+                                            n_mesh["fields"] : n_no_fields;
         if(!vertex_ids.empty())
         {
             conduit::Node &n_output_fields = n_output["fields"];
-- 
2.43.0


From 41e10a2e95df104d94f7356cd16f8a157d697a29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:09:49 +0000
Subject: [PATCH 071/140] fix: partition with a target larger than the number
 of elements ends, and a target of 0 is ignored

---
 .../conduit_blueprint_mesh_partition.cpp      | 34 ++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 1d9c1cf..52c660a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -870,6 +870,10 @@ SelectionExplicit::partition(const conduit::Node &n_mesh) const
         }
     }
 
+    // A single element cannot be divided.
+    if(ids0.empty() || ids1.empty())
+        return std::vector<std::shared_ptr<Selection> >();
+
     // Make partitioned selections.
     auto p0 = std::make_shared<SelectionExplicit>();
     auto p1 = std::make_shared<SelectionExplicit>();
@@ -1145,8 +1149,10 @@ SelectionRanges::partition(const conduit::Node &n_mesh) const
             auto rc = (ranges[2*i+1] - ranges[2*i]) + 1;
             if(rc == 1)
             {
-                r0.push_back(ranges[2*i+0]);
-                r0.push_back(ranges[2*i+0]);
+                // Keep both parts non-empty.
+                auto &r = r0.empty() ? r0 : r1;
+                r.push_back(ranges[2*i+0]);
+                r.push_back(ranges[2*i+0]);
             }
             else if(rc == 2)
             {
@@ -1173,6 +1179,10 @@ SelectionRanges::partition(const conduit::Node &n_mesh) const
         }
     }
 
+    // A single element cannot be divided.
+    if(r0.empty() || r1.empty())
+        return std::vector<std::shared_ptr<Selection> >();
+
     auto p0 = std::make_shared<SelectionRanges>();
     auto p1 = std::make_shared<SelectionRanges>();
     p0->ranges_storage.set(r0);
@@ -1554,6 +1564,10 @@ SelectionField::partition(const conduit::Node &n_mesh) const
                     ids1.push_back(eids[i]);
             }
 
+            // A single element cannot be divided.
+            if(ids0.empty() || ids1.empty())
+                return parts;
+
             // Make partitioned selections.
             auto p0 = std::make_shared<SelectionExplicit>();
             auto p1 = std::make_shared<SelectionExplicit>();
@@ -1838,7 +1852,8 @@ Partitioner::options_get_target(const conduit::Node &options,
             {
                 value = n_target.to_unsigned_int();
             }
-            retval = true;
+            // A target must be greater than 0, other values are ignored.
+            retval = value > 0;
         }
         else
         {
@@ -2097,6 +2112,7 @@ Partitioner::split_selections()
     int iteration = 1;
 #endif
     bool splitting = true;
+    unsigned int prev_nt = 0;
     while(splitting)
     {
         // Get the total number of targets produced by the current selections.
@@ -2106,6 +2122,16 @@ Partitioner::split_selections()
         else
             splitting = target > nt;
 
+        // If the last split made no more targets then even the largest
+        // selection could not be split: there are not enough elements for
+        // the target so use what we could make.
+        if(splitting && nt == prev_nt)
+        {
+            target = nt;
+            splitting = false;
+        }
+        prev_nt = nt;
+
         if(splitting)
         {
             // Get the rank with the largest selection and get that local
@@ -2113,7 +2139,7 @@ Partitioner::split_selections()
             int sel_rank = -1, sel_index = -1;
             get_largest_selection(sel_rank, sel_index);
 
-            if(rank == sel_rank)
+            if(rank == sel_rank && sel_index >= 0)
             {
                 auto ps = selections[sel_index]->partition(*meshes[sel_index]);
 
-- 
2.43.0


From e31ca3cbaa599c7905abb7c5c70dbe5003c67b70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:15:25 +0000
Subject: [PATCH 072/140] fix: partition of 1D logical meshes, and of uniform
 coordsets without origin or spacing

---
 .../conduit_blueprint_mesh_partition.cpp      | 58 ++++++++++++++-----
 1 file changed, 43 insertions(+), 15 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 52c660a..2feafb3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -610,7 +610,8 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         conduit::blueprint::mesh::utils::topology::logical_dims(n_topo, dims, 3);
         index_t ndims = conduit::blueprint::mesh::utils::topology::dims(n_topo);
         dims[0]++;
-        dims[1]++;
+        if(ndims > 1)
+            dims[1]++;
         if(ndims > 2)
             dims[2]++;
 
@@ -620,7 +621,7 @@ SelectionLogical::get_vertex_ids(const conduit::Node &n_mesh,
         auto mesh_NX   = dims[0];
         index_t n_end[3];
         n_end[0] = end[0] + 1;
-        n_end[1] = end[1] + 1;
+        n_end[1] = (ndims > 1) ? (end[1] + 1) : start[1];
         n_end[2] = (ndims > 2) ? (end[2] + 1) : start[2];
 
         for(index_t k = start[2]; k <= n_end[2]; k++)
@@ -1993,7 +1994,14 @@ Partitioner::initialize(const conduit::Node &n_mesh,
         selected_fields.clear();
         const conduit::Node &n_fields = options["fields"];
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
-            selected_fields.push_back(n_fields[i].name());
+        {
+            // The fields are a list of names. An object whose children have
+            // the names of the fields is also accepted.
+            if(n_fields[i].dtype().is_string())
+                selected_fields.push_back(n_fields[i].as_string());
+            else
+                selected_fields.push_back(n_fields[i].name());
+        }
     }
 
     // Get whether we want to preserve old numbering of vertices, elements.
@@ -2855,7 +2863,7 @@ Partitioner::get_vertex_ids_for_element_ids(const conduit::Node &n_topo,
             {0,1,1},
             {1,1,1}
         };
-        int np = (ndims == 2) ? 4 : 8;
+        int np = (ndims == 1) ? 2 : ((ndims == 2) ? 4 : 8);
         auto n = element_ids.size();
         for(size_t j = 0; j < n; j++)
         {
@@ -3138,23 +3146,36 @@ Partitioner::create_new_uniform_coordset(const conduit::Node &n_coordset,
     index_t ndims = conduit::blueprint::mesh::utils::coordset::dims(n_coordset);
     n_new_coordset["type"] = "uniform";
     n_new_coordset["dims/i"] = end[0] - start[0] + 2;
-    n_new_coordset["dims/j"] = end[1] - start[1] + 2;
+    if(ndims > 1)
+        n_new_coordset["dims/j"] = end[1] - start[1] + 2;
     if(ndims > 2)
         n_new_coordset["dims/k"] = end[2] - start[2] + 2;
 
     // Adjust the origins to the right start values.
     auto axes(conduit::blueprint::mesh::utils::coordset::axes(n_coordset));
-    const conduit::Node &n_origin = n_coordset["origin"];
-    const conduit::Node &n_spacing = n_coordset["spacing"];
+    // NOTE: The origin and the spacing are optional.
     conduit::Node &n_new_origin = n_new_coordset["origin"];
     for(index_t i = 0; i < ndims; i++)
     {
-        conduit::Node &origin_i = n_new_origin[n_origin[i].name()];
-        double org = n_origin[i].to_double() + n_spacing[i].to_double() * start[i];
-        origin_i.set(org);
+        // Logical axis names are not allowed for origins.
+        static const char *cartesian_axes[] = {"x", "y", "z"};
+        std::string axis(axes[i].size() == 1 &&
+                         axes[i][0] == static_cast<char>('i' + i) ?
+                             cartesian_axes[i] : axes[i]);
+        double org = 0., spc = 1.;
+        if(n_coordset.has_child("origin"))
+        {
+            const conduit::Node &n_origin = n_coordset["origin"][i];
+            axis = n_origin.name();
+            org = n_origin.to_double();
+        }
+        if(n_coordset.has_child("spacing"))
+            spc = n_coordset["spacing"][i].to_double();
+        n_new_origin[axis].set(org + spc * start[i]);
     }
     // Copy all the spacings
-    n_new_coordset["spacing"].set(n_coordset["spacing"]);
+    if(n_coordset.has_child("spacing"))
+        n_new_coordset["spacing"].set(n_coordset["spacing"]);
 }
 
 //---------------------------------------------------------------------------
@@ -3280,7 +3301,8 @@ Partitioner::create_new_structured_topo(const conduit::Node &n_topo,
     n_new_topo["coordset"] = csname;
     conduit::Node &n_dims = n_new_topo["elements/dims"];
     n_dims["i"].set(static_cast<conduit::int64>(end[0] - start[0] + 1));
-    n_dims["j"].set(static_cast<conduit::int64>(end[1] - start[1] + 1));
+    if(n_topo.has_path("elements/dims/j"))
+        n_dims["j"].set(static_cast<conduit::int64>(end[1] - start[1] + 1));
     if(n_topo.has_path("elements/dims/k"))
         n_dims["k"].set(static_cast<conduit::int64>(end[2] - start[2] + 1));
     const char *keys[] = {"elements/origin/i0",
@@ -3696,7 +3718,13 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
         for(index_t i = 0; i < n_fields.number_of_children(); i++)
         {
             const conduit::Node &f = n_fields[i];
-            n_new_fields[f.name()].set_external_node(f);
+            if(selected_fields.empty() ||
+               std::find(selected_fields.begin(),
+                         selected_fields.end(),
+                         f.name()) != selected_fields.end())
+            {
+                n_new_fields[f.name()].set_external_node(f);
+            }
         }
     }
 
@@ -8624,8 +8652,8 @@ private:
                     {
                         const index_t id  = ioff + i;
                         const index_t idx = id * 2;
-                        emap_da[idx] = dom_idx;
-                        emap_da[idx] = i;
+                        emap_da[idx]   = dom_idx;
+                        emap_da[idx+1] = i;
                     }
                 }
             }
-- 
2.43.0


From 3f8fa8971874647a870f5824cbed1c8ff7f30643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:16:40 +0000
Subject: [PATCH 073/140] fix: partition converts the fields it combines when
 their data types differ

---
 .../conduit_blueprint_mesh_partition.cpp      | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 2feafb3..9d41cae 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -8806,6 +8806,34 @@ total_storage_size(const Node &in)
     return size;
 }
 
+//-------------------------------------------------------------------------
+/**
+ @brief Copy a field value, converting it if the data types differ.
+ */
+static void
+copy_field_value(const Node &in, index_t in_idx, Node &out, index_t out_idx)
+{
+    const DataType &in_dt = in.dtype();
+    const DataType &out_dt = out.dtype();
+    void *out_data = out.element_ptr(out_idx);
+    const void *in_data = in.element_ptr(in_idx);
+    if(in_dt.id() == out_dt.id() && in_dt.endianness() == out_dt.endianness())
+    {
+        memcpy(out_data, in_data, out_dt.element_bytes());
+    }
+    else
+    {
+        Node n_in, n_value;
+        n_in.set(DataType(in_dt.id(), 1, 0, in_dt.element_bytes(),
+                          in_dt.element_bytes(), in_dt.endianness()));
+        memcpy(n_in.data_ptr(), in_data, in_dt.element_bytes());
+        n_in.endian_swap_to_machine_default();
+        n_in.to_data_type(out_dt.id(), n_value);
+        n_value.endian_swap(out_dt.endianness());
+        memcpy(out_data, n_value.data_ptr(), out_dt.element_bytes());
+    }
+}
+
 //-------------------------------------------------------------------------
 static void
 map_vertex_field(const std::vector<const Node*> &in_nodes,
@@ -8878,17 +8906,13 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
                 const index_t out_idx = pmap[idx];
                 for(index_t ci = 0; ci < ncomps; ci++)
                 {
-                    const auto bytes = out_node[ci].dtype().element_bytes();
-                    void *out_data = out_node[ci].element_ptr(out_idx);
-                    const void *in_data = in_values[ci].element_ptr(idx);
-                    memcpy(out_data, in_data, bytes);
+                    copy_field_value(in_values[ci], idx, out_node[ci], out_idx);
                 }
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t fi = 0; fi < npmaps; fi++)
         {
             const auto &pmap = pointmaps[fi];
@@ -8896,9 +8920,7 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
             for(index_t idx = 0; idx < pmap.number_of_elements(); idx++)
             {
                 const index_t out_idx = pmap[idx];
-                void *out_data = out_node.element_ptr(out_idx);
-                const void *in_data = in_values.element_ptr(idx);
-                memcpy(out_data, in_data, bytes);
+                copy_field_value(in_values, idx, out_node, out_idx);
             }
         }
     }
@@ -8972,23 +8994,17 @@ map_vertex_field(const std::vector<const Node*> &in_nodes,
             const Node &in_values  = in_nodes[orig_dom]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
-                const auto bytes = out_node[ci].dtype().element_bytes();
-                void *out_data = out_node[ci].element_ptr(i);
-                const void *in_data = in_values[ci].element_ptr(orig_id);
-                memcpy(out_data, in_data, bytes);
+                copy_field_value(in_values[ci], orig_id, out_node[ci], i);
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t i = 0; i < num_vertices; i++)
         {
             const index_t orig_dom = orig_domains[i];
             const index_t orig_id  = orig_ids[i];
-            void *out_data = out_node.element_ptr(i);
-            const void *in_data = in_nodes[orig_dom]->child("values").element_ptr(orig_id);
-            memcpy(out_data, in_data, bytes);
+            copy_field_value(in_nodes[orig_dom]->child("values"), orig_id, out_node, i);
         }
     }
 }
@@ -9067,25 +9083,19 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
-                const auto bytes = out_node[ci].dtype().element_bytes();
-                void *out_data = out_node[ci].element_ptr(out_idx);
-                const void *in_data = data[ci].element_ptr(elem_idx);
-                memcpy(out_data, in_data, bytes);
+                copy_field_value(data[ci], elem_idx, out_node[ci], out_idx);
             }
         }
     }
     else
     {
-        const auto bytes = out_node.dtype().element_bytes();
         for(index_t out_idx = 0; out_idx < nelements; out_idx++)
         {
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
             const Node &data = in_nodes[dom_idx]->child("values");
-            void *out_data = out_node.element_ptr(out_idx);
-            const void *in_data = data.element_ptr(elem_idx);
-            memcpy(out_data, in_data, bytes);
+            copy_field_value(data, elem_idx, out_node, out_idx);
         }
     }
 }
-- 
2.43.0


From 0da1d6668be5b8dd65890f98b21a5c8a3eda5708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:20:43 +0000
Subject: [PATCH 074/140] fix: partition honours the fields option and mapping
 0

---
 .../conduit_blueprint_mesh_partition.cpp       | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 9d41cae..b0f3a34 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -3741,7 +3741,7 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
     }
 
     // Save the vertex_ids as a new MC field.
-    if(nvertices > 0)
+    if(mapping && nvertices > 0)
     {
         conduit::Node &n_field = n_new_fields[original_vertex_ids_name()];
         n_field["association"] = "vertex";
@@ -3756,7 +3756,7 @@ Partitioner::wrap(size_t idx, const conduit::Node &n_mesh) const
     }
 
     // Save the element_ids as a new MC field.
-    if(nelements > 0)
+    if(mapping && nelements > 0)
     {
         conduit::Node &n_field = n_new_fields[original_element_ids_name()];
         n_field["association"] = "element";
@@ -4354,7 +4354,8 @@ Partitioner::execute(conduit::Node &output)
             // maps to it without changing the input mesh.
             const conduit::Node* assoc_aset = nullptr;
             conduit::Node* wrapped_adjset = nullptr;
-            if(mapping || meshes[i]->has_child("adjsets"))
+            if(mapping || !selected_fields.empty() ||
+               meshes[i]->has_child("adjsets"))
             {
                 conduit::Node *c = wrap(i, *meshes[i]);
                 chunks.push_back(Chunk(c, true, dr, dd));
@@ -4475,6 +4476,13 @@ Partitioner::execute(conduit::Node &output)
                 combine(*dom, this_dom_chunks, this_dom_cnkid, *new_dom);
             }
 
+            // There may be no fields at all if there is no mapping.
+            if(new_dom->has_child("fields") &&
+               (*new_dom)["fields"].number_of_children() == 0)
+            {
+                new_dom->remove("fields");
+            }
+
             if (new_dom->has_child("adjsets"))
             {
                 merge_chunked_adjsets((*new_dom)["adjsets"], dest_domain);
@@ -9999,7 +10007,7 @@ Partitioner::combine(int domain,
     }
 
     // Cleanup the output node, add original cells/verticies in needed
-    if(!output_fields.has_child(original_element_ids_name()))
+    if(mapping && !output_fields.has_child(original_element_ids_name()))
     {
         // Q: What happens in the case of multiple topologies?
         const Node &n_elem_map = output_topologies[0]["element_map"];
@@ -10054,7 +10062,7 @@ Partitioner::combine(int domain,
         output_topologies[i].remove("element_map");
     }
 
-    if(!output_fields.has_child(original_vertex_ids_name()))
+    if(mapping && !output_fields.has_child(original_vertex_ids_name()))
     {
         // Get the pointmaps
         const std::string &coordset_name = output_topologies[0]["coordset"].as_string();
-- 
2.43.0


From f249e33bc07124a09cd1744717763f6bcd83c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:22:26 +0000
Subject: [PATCH 075/140] fix: partition combines uniform domains whose origins
 are not integers

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 2 +-
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp     | 6 +++---
 src/libs/blueprint/conduit_blueprint_mesh_utils.hpp     | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index b0f3a34..d3dfa1e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -6923,7 +6923,7 @@ private:
             for(size_t i = 0; i < worigin.size(); i++)
             {
                 const auto difference = sorigin[i] - worigin[i];
-                offsets.push_back(difference / spacing[i]);
+                offsets.push_back(static_cast<index_t>(std::lround(difference / spacing[i])));
             }
         }
         else if(mode == CombineImplicitMode::Rectilinear)
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 651ac4a..479cb1b 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -1566,12 +1566,12 @@ coordset::uniform::spacing(const Node &n)
 }
 
 //-----------------------------------------------------------------------------
-std::vector<index_t>
+std::vector<double>
 coordset::uniform::origin(const Node &n)
 {
     auto info = get_coordset_info(n);
     const auto &cset_axes = info.second;
-    std::vector<index_t> retval(cset_axes.size(), 0);
+    std::vector<double> retval(cset_axes.size(), 0.);
     if(n.has_child("origin"))
     {
         const Node &n_spacing = n["origin"];
@@ -1580,7 +1580,7 @@ coordset::uniform::origin(const Node &n)
             const std::string child_name = cset_axes[i];
             if(n_spacing.has_child(child_name))
             {
-                retval[i] = n_spacing[child_name].to_index_t();
+                retval[i] = n_spacing[child_name].to_double();
             }
         }
     }
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
index df5ad0c..16ae023 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.hpp
@@ -411,7 +411,7 @@ namespace coordset
         */
         std::vector<double> CONDUIT_BLUEPRINT_API spacing(const Node &n);
 
-        std::vector<index_t> CONDUIT_BLUEPRINT_API origin(const Node &n);
+        std::vector<double> CONDUIT_BLUEPRINT_API origin(const Node &n);
     }
 
     std::string CONDUIT_BLUEPRINT_API coordsys(const Node &coordset);
-- 
2.43.0


From c815375e67e714dc698db305b6201c0a4ef4c572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:54 +0000
Subject: [PATCH 076/140] fix: partition_map_back of a partition that has only
 some of the elements

---
 .../conduit_blueprint_mesh_partition.cpp      | 26 ++++++++++++++++---
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index d3dfa1e..7c02212 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9088,6 +9088,9 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            // There may be no value for an element.
+            if(dom_idx < 0)
+                continue;
             const Node &data = in_nodes[dom_idx]->child("values");
             for(index_t ci = 0; ci < ncomps; ci++)
             {
@@ -9102,6 +9105,9 @@ map_element_field(const std::vector<const Node*> &in_nodes,
             const index_t idx      = out_idx * 2;
             const index_t dom_idx  = elemmap[idx];
             const index_t elem_idx = elemmap[idx+1];
+            // There may be no value for an element.
+            if(dom_idx < 0)
+                continue;
             const Node &data = in_nodes[dom_idx]->child("values");
             copy_field_value(data, elem_idx, out_node, out_idx);
         }
@@ -10355,16 +10361,29 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
     communicate_mapback(packed_fields);
     for (const auto& orig_dom : packed_fields)
     {
-        // Precompute final element count
+        // Precompute final element count. The parts may cover only some of the
+        // elements of the original topology. The map for the others is -1.
+        Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
         index_t nelems = 0;
         for (const Node& src_chunk : orig_dom.second.children())
         {
             DataArray<index_t> cnk_map = src_chunk["elem_map"].value();
-            nelems += cnk_map.number_of_elements();
+            for (index_t i = 0; i < cnk_map.number_of_elements(); i++)
+            {
+                nelems = std::max(nelems, cnk_map[i] + 1);
+            }
+            for (const Node& field : src_chunk["fields"].children())
+            {
+                const string& topo_name = field["topology"].as_string();
+                if (tgt_dom["topologies"].has_child(topo_name))
+                {
+                    nelems = std::max(nelems, mesh::topology::length(tgt_dom["topologies"][topo_name]));
+                }
+            }
         }
 
         int cnk_id = 0;
-        vector<index_t> tgt_elem_map(nelems * 2);
+        vector<index_t> tgt_elem_map(nelems * 2, -1);
         vector<DataArray<index_t>> tgt_vert_maps(orig_dom.second.number_of_children());
         unordered_map<string, vector<const Node*>> field_groups;
         for (const Node& src_chunk : orig_dom.second.children())
@@ -10394,7 +10413,6 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
             tmp.set_external(tgt_elem_map);
             elem_map_arr = tmp.value();
         }
-        Node& tgt_dom = *gid_to_orig_dom[orig_dom.first];
         for (const auto& fg : field_groups)
         {
             const vector<const Node*>& src_fields = fg.second;
-- 
2.43.0


From 4b9b20c3ebc5dc712153073dd8bb97f04fb3753f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 077/140] fix: partition reads volume fractions that do not
 start at offset 0

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 7c02212..5e35358 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2190,7 +2190,7 @@ copy_volume_fractions(
 {
     out_data.set_dtype(conduit::DataType(in_data.dtype().id(), element_ids.size()));
 
-    const conduit::DataArray<FloatType> in_values(in_data.element_ptr(0), in_data.dtype());
+    const conduit::DataArray<FloatType> in_values = in_data.value();
     conduit::DataArray<FloatType> out_values(out_data.element_ptr(0), out_data.dtype());
 
     // Iterate over desired element ids
@@ -2214,7 +2214,7 @@ copy_volume_fractions_o2m(
     const conduit::Node &n_in_values = in_data["values"];
     out_data.set_dtype(conduit::DataType(in_data["values"].dtype().id(), element_ids.size()));
 
-    const conduit::DataArray<FloatType> in_values(n_in_values.element_ptr(0), n_in_values.dtype());
+    const conduit::DataArray<FloatType> in_values = n_in_values.value();
     conduit::DataArray<FloatType> out_values(out_data.element_ptr(0), out_data.dtype());
 
     // Iterate over desired element ids
-- 
2.43.0


From 0a41b94bae2241171263f8bee1cf784573404639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 078/140] fix: partition combines matsets with materials that
 no element has

---
 src/libs/blueprint/conduit_blueprint_mesh_partition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 5e35358..3698d85 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -9504,6 +9504,12 @@ combine(const std::vector<Node> &inputs,
         }
     }
 
+    // Every material in the material map needs (possibly empty) volume fractions.
+    for(const auto &mat : material_map)
+    {
+        out_vfracts_eids[mat.second];
+    }
+
     out_matset["topology"].set(out_topo.name());
     for(const auto &pair : out_vfracts_eids)
     {
-- 
2.43.0


From 9ff0576f52ed91200f61820748e609a54386ac95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:09:22 +0000
Subject: [PATCH 079/140] fix: partition keeps all materials of the elements of
 uni-buffer material-dominant matsets

---
 .../conduit_blueprint_mesh_partition.cpp      | 44 ++++++++++++-------
 1 file changed, 27 insertions(+), 17 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 3698d85..9a39984 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -2498,7 +2498,7 @@ template<typename FloatType>
 static void
 copy_material_based_uni_buffer(const std::vector<index_t> &element_ids,
                                const conduit::Node &n_matset,
-                               const std::unordered_map<index_t, index_t> &elem_map,
+                               const std::unordered_map<index_t, std::vector<index_t>> &elem_map,
                                conduit::Node &out_matset)
 {
     const conduit::DataAccessor<index_t> in_material_ids     = n_matset["material_ids"].value();
@@ -2529,17 +2529,19 @@ copy_material_based_uni_buffer(const std::vector<index_t> &element_ids,
             const auto itr   = elem_map.find(id);
             if(itr != elem_map.end())
             {
-                const index_t idx = itr->second;
-                one_idxs.push_back(idx);
-                out_elem_ids.push_back(i);
-                const index_t s  = size_access[idx];
-                if(s != 1)
+                for(const index_t idx : itr->second)
                 {
-                    need_offsets_sizes = true;
+                    one_idxs.push_back(idx);
+                    out_elem_ids.push_back(i);
+                    const index_t s  = size_access[idx];
+                    if(s != 1)
+                    {
+                        need_offsets_sizes = true;
+                    }
+                    out_offsets.push_back(out_size);
+                    out_sizes.push_back(s);
+                    out_size += s;
                 }
-                out_offsets.push_back(out_size);
-                out_sizes.push_back(s);
-                out_size += s;
             }
         }
 
@@ -2561,8 +2563,12 @@ copy_material_based_uni_buffer(const std::vector<index_t> &element_ids,
             const auto itr   = elem_map.find(id);
             if(itr != elem_map.end())
             {
-                one_idxs.push_back(itr->second);
-                out_elem_ids.push_back(i);
+                // An element has one entry for each of its materials.
+                for(const index_t idx : itr->second)
+                {
+                    one_idxs.push_back(idx);
+                    out_elem_ids.push_back(i);
+                }
             }
         }
         out_size = (index_t)out_elem_ids.size();
@@ -2641,24 +2647,28 @@ copy_material_based_matset(const std::vector<index_t> &element_ids,
     else
     {
         const conduit::DataAccessor<index_t> mat_elems = n_elem_ids.value();
-        create_element_to_material_map(mat_elems, elem_map);
+        std::unordered_map<index_t, std::vector<index_t>> elem_entries;
+        for(index_t i = 0; i < mat_elems.number_of_elements(); i++)
+        {
+            elem_entries[mat_elems[i]].push_back(i);
+        }
 
         const auto &dtype = n_volume_fractions.dtype();
         if(dtype.is_float())
         {
             copy_material_based_uni_buffer<float>(element_ids, n_matset,
-                elem_map, out_matset);
+                elem_entries, out_matset);
         }
         else if(dtype.is_double())
         {
             copy_material_based_uni_buffer<double>(element_ids, n_matset,
-                elem_map, out_matset);
+                elem_entries, out_matset);
         }
 #if CONDUIT_USE_LONG_DOUBLE
         else if(dtype.is_long_double())
         {
-            copy_material_based_volume_fractions<long double>(element_ids, n_mat_vfract,
-                elem_map, out_matset);
+            copy_material_based_uni_buffer<long double>(element_ids, n_matset,
+                elem_entries, out_matset);
         }
 #endif
     }
-- 
2.43.0


From cd6b02f49cd378a67b6c656690c3b22255b96c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:27 +0000
Subject: [PATCH 080/140] fix: mpi send_using_schema and
 communicate_using_schema of nodes whose data starts at an offset

---
 src/libs/relay/conduit_relay_mpi.cpp | 24 ++++++------------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 330381a..b04ad0e 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -531,15 +531,9 @@ send_using_schema(const Node &node, int dest, int tag, MPI_Comm comm)
 {     
     Schema s_data_compact;
     
-    // schema will only be valid if compact and contig
-    if( node.is_compact() && node.is_contiguous())
-    {
-        s_data_compact = node.schema();
-    }
-    else
-    {
-        node.schema().compact_to(s_data_compact);
-    }
+    // the schema needs to describe the compact data in the message, even if
+    // node is compact, its schema can have offsets
+    node.schema().compact_to(s_data_compact);
     
     std::string snd_schema_json = s_data_compact.to_json();
         
@@ -2093,15 +2087,9 @@ communicate_using_schema::execute_internal()
         {
             Schema s_data_compact;
             const Node &node = *operations[i].node[0];
-            // schema will only be valid if compact and contig
-            if( node.is_compact() && node.is_contiguous())
-            {
-                s_data_compact = node.schema();
-            }
-            else
-            {
-                node.schema().compact_to(s_data_compact);
-            }
+            // the schema needs to describe the compact data in the message,
+            // even if node is compact, its schema can have offsets
+            node.schema().compact_to(s_data_compact);
     
             std::string snd_schema_json = s_data_compact.to_json();
         
-- 
2.43.0


From c12e9a2468b9d3ad875f643d805b8c3175482634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:27 +0000
Subject: [PATCH 081/140] fix: mpi reduce and all_reduce of nodes whose data
 starts at an offset

---
 src/libs/relay/conduit_relay_mpi.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index b04ad0e..539ec3a 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -838,7 +838,7 @@ reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.contiguous_data_ptr());
     }
     else
     {
@@ -917,7 +917,7 @@ all_reduce(const Node &snd_node,
     // we can only reduce leaf types 
     if(snd_node.is_compact())
     {
-        snd_ptr = const_cast<void*>(snd_node.data_ptr());
+        snd_ptr = const_cast<void*>(snd_node.contiguous_data_ptr());
     }
     else
     {
-- 
2.43.0


From 4dda39ad165f351ed912ecd3513a0c3ac08a3cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:27 +0000
Subject: [PATCH 082/140] fix: mpi gather of contiguous trees that do not own
 one block

---
 src/libs/relay/conduit_relay_mpi.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 539ec3a..6830352 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1356,7 +1356,6 @@ gather(Node &send_node,
     if(snd_ptr != NULL && 
        send_node.is_compact() )
     {
-        snd_ptr  = send_node.data_ptr();
         snd_size = send_node.total_bytes_compact();
     }
     else
-- 
2.43.0


From 072fe1fa1a5346cddc421c691ed39283bbdd0dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:27 +0000
Subject: [PATCH 083/140] fix: mpi broadcast_using_schema of nodes at an offset
 and into larger leaves

---
 src/libs/relay/conduit_relay_mpi.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_mpi.cpp b/src/libs/relay/conduit_relay_mpi.cpp
index 6830352..7e1fd48 100644
--- a/src/libs/relay/conduit_relay_mpi.cpp
+++ b/src/libs/relay/conduit_relay_mpi.cpp
@@ -1827,7 +1827,10 @@ broadcast_using_schema(Node &node,
            node.is_compact() && 
            node.is_contiguous())
         {
-            bcast_buffers["schema"] = node.schema().to_json();
+            // even if node is compact, its schema can have offsets
+            Schema s_compact;
+            node.schema().compact_to(s_compact);
+            bcast_buffers["schema"] = s_compact.to_json();
         }
         else
         {
@@ -1890,7 +1893,9 @@ broadcast_using_schema(Node &node,
               bcast_schema.dtype().is_object() ||
               bcast_schema.dtype().is_list() )
             // make sure `node` can hold data described by `bcast_schema`
-            && node.schema().compatible(bcast_schema))
+            // (and holds nothing else, all ranks have to agree on the size)
+            && node.schema().compatible(bcast_schema)
+            && node.total_bytes_compact() == bcast_schema.total_bytes_compact())
         {
             
             bcast_data_ptr  = node.contiguous_data_ptr();
-- 
2.43.0


From de829794c931325e8269f97b2a921a3996eb4a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 084/140] fix: yaml root files with braces in their first bytes
 are identified as yaml

---
 .../conduit_relay_io_identify_protocol.cpp    | 22 ++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_identify_protocol.cpp b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
index 7b50ef6..7220484 100644
--- a/src/libs/relay/conduit_relay_io_identify_protocol.cpp
+++ b/src/libs/relay/conduit_relay_io_identify_protocol.cpp
@@ -151,14 +151,30 @@ identify_file_type(const std::string &path,
             if(test_str.find("\n") != std::string::npos)
             {
                 // for yaml look for ":" 
-                // for json, look for "{"
+                // for json, look for a line that starts with "{" or "["
+                // (braces may also occur inside of yaml values)
                 if(test_str.find(":") != std::string::npos)
                 {
                    file_type = "yaml";
                 }
-                if(test_str.find("{") != std::string::npos)
+
+                bool line_start = true;
+                for(size_t i=0; i < test_str.size(); i++)
                 {
-                   file_type = "json";
+                    const char c = test_str[i];
+                    if(line_start && (c == '{' || c == '['))
+                    {
+                        file_type = "json";
+                    }
+
+                    if(c == '\n')
+                    {
+                        line_start = true;
+                    }
+                    else if(c != ' ' && c != '\t' && c != '\r')
+                    {
+                        line_start = false;
+                    }
                 }
             }
         }
-- 
2.43.0


From 959b188a4b3aec757bf4912b870d9d7270ee835c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 085/140] fix: multi-domain root_only meshes load from any
 directory

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 2fb3f9c..4dce1b0 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -1662,7 +1662,7 @@ void write_mesh(const Node &mesh,
             else
             {
                 output_tree_pattern = "/domain_%06d/";
-                output_partition_pattern = root_filename + ":/domain_{domain:06d}";
+                output_partition_pattern = output_file_pattern + ":/domain_{domain:06d}";
 
                 //generate part map (we only need domain for this case)
                 output_partition_map["domain"].set(DataType::index_t(global_num_domains));
-- 
2.43.0


From 7080f2c69a8feb79e98c9080d3d8d0f602cbb3ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 086/140] fix: mpi save_mesh without any domains

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index 4dce1b0..a530c6e 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -979,7 +979,7 @@ void write_mesh(const Node &mesh,
 
     // reduce to check to see if any valid data exists
 
-    n_local = (int)cycle;
+    n_local = local_boolean;
     relay::mpi::sum_all_reduce(n_local,
                                n_reduced,
                                mpi_comm);
-- 
2.43.0


From 865e7863af59240c6a54db1fd15a616b122d97e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 087/140] fix: save_mesh of a single domain does not change its
 domain id

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index a530c6e..ca536d4 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -700,6 +700,14 @@ bool clean_mesh(const conduit::Node &data,
     {
       conduit::Node &dest_dom = output.append();
       dest_dom.set_external(data);
+      // note: this algo may re-write domain ids
+      // so make sure this isn't set as external
+      if(dest_dom.has_path("state/domain_id"))
+      {
+          index_t dom_id = dest_dom["state/domain_id"].to_index_t();
+          dest_dom["state/domain_id"].reset();
+          dest_dom["state/domain_id"] = dom_id;
+      }
     }
   }
 
-- 
2.43.0


From 894f5c3ac68c6f86b2467b1685f74c600661a03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:40 +0000
Subject: [PATCH 088/140] fix: %d in mesh file and tree patterns

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index ca536d4..e1e6684 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -194,7 +194,7 @@ public:
         {
             std::string res = pattern;
             res.replace(pattern_idx,
-                        4,
+                        2,
                         conduit_fmt::format("{:d}",idx));
             return res;
         }
-- 
2.43.0


From dce380ebc3ad9b334e129073c1285c7e13b911e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:22 +0000
Subject: [PATCH 089/140] fix: mpi flatten of logical axes and with ranks
 without data

---
 .../blueprint/conduit_blueprint_mpi_mesh_flatten.cpp     | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
index 1b84ef8..ca53036 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_flatten.cpp
@@ -13,6 +13,7 @@
 // std lib includes
 //-----------------------------------------------------------------------------
 #include <array>
+#include <limits>
 #include <cmath>
 #include <iostream>
 #include <unordered_set>
@@ -437,13 +438,15 @@ ParallelMeshFlattener::gather_global_mesh_metadata(const MeshInfo &my_info,
         my_counts.size(), mtype, root, comm);
 
     // Lastly root needs an educated guess at dimension names.
-    index_t my_axes = 0;
-    if(my_info.axes.size() > 1)
+    // (ranks without data have no say)
+    index_t my_axes = my_info.axes.empty() ?
+        std::numeric_limits<index_t>::max() : 0;
+    if(my_info.axes.size() > 0)
     {
         if(my_info.axes[0] == blueprint::mesh::utils::CYLINDRICAL_AXES[0])
         {
             my_axes = 1;
-            if(my_info.axes[1] == blueprint::mesh::utils::SPHERICAL_AXES[1])
+            if(my_info.axes.size() > 1 && my_info.axes[1] == blueprint::mesh::utils::SPHERICAL_AXES[1])
             {
                 my_axes = 2;
             }
-- 
2.43.0


From 19274d2b95dc8fa654c1cf0d71a41952f7613e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:22 +0000
Subject: [PATCH 090/140] fix: flatten skips fields that live on another
 topology in a domain

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index e5ec91c..2340e0a 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -1163,7 +1163,8 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     for(const std::string &field_name : fields_to_flatten)
     {
         const Node *field = fields.fetch_ptr(field_name);
-        if(field)
+        // the field may live on another topology in this domain
+        if(field && check_field_supported(*field, topo.name(), false))
         {
             const std::string association = field->child("association").as_string();
             const Node &field_values = field->child("values");
-- 
2.43.0


From b1f41f28eb8a66d4efb208c1c1df98b3ee189951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:22 +0000
Subject: [PATCH 091/140] fix: flatten of domains without fields

---
 .../blueprint/conduit_blueprint_mesh_flatten.cpp     | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 2340e0a..9b8ec9e 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -724,6 +724,10 @@ MeshFlattener::get_fields_to_flatten(const Node &mesh,
         for(index_t i = 0; i < ndomains; i++)
         {
             const Node &domain = mesh[i];
+            if(!domain.has_child("fields"))
+            {
+                continue;
+            }
             const Node &fields = domain["fields"];
             auto itr = fields.children();
             while(itr.has_next())
@@ -753,6 +757,10 @@ MeshFlattener::get_reference_field(const Node &mesh,
     const index_t ndomains = mesh.number_of_children();
     for(index_t i = 0; i < ndomains; i++)
     {
+        if(!mesh[i].has_child("fields"))
+        {
+            continue;
+        }
         const Node &fields = mesh[i]["fields"];
         if(fields.has_child(field_name))
         {
@@ -1149,6 +1157,10 @@ MeshFlattener::flatten_single_domain(const Node &mesh, Node &output,
     }
 
     // Add fields to their respective tables
+    if(!mesh.has_child("fields"))
+    {
+        return;
+    }
     const Node &fields = mesh["fields"];
 #ifdef DEBUG_MESH_FLATTEN
     std::cout << "Domain[" << domain_id << "] fields to flatten:\n";
-- 
2.43.0


From a450de4aade8ecd7f01158b8d656c951770bbd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:22 +0000
Subject: [PATCH 092/140] fix: flatten element centers of coordinates of
 different types

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index 9b8ec9e..be46c30 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -937,7 +937,7 @@ MeshFlattener::generate_element_centers(const Node &topo,
             // Only convert what we need to convert
             if(n_comp.dtype().id() != cset_type)
             {
-                n_cset_values.to_data_type(cset_type, temp[n_comp.name()]);
+                n_comp.to_data_type(cset_type, temp[n_comp.name()]);
             }
             else
             {
@@ -949,9 +949,9 @@ MeshFlattener::generate_element_centers(const Node &topo,
 #define GENERATE_ELEMENT_CENTERS_CSET_TYPE(CsetType, OutputType)\
 {\
     const std::array<const DataArray<CsetType>, 3> cset_values{\
-        (dimension > 0) ? n_cset_values[0].value() : DataArray<CsetType>(),\
-        (dimension > 1) ? n_cset_values[1].value() : DataArray<CsetType>(),\
-        (dimension > 2) ? n_cset_values[2].value() : DataArray<CsetType>(),\
+        (dimension > 0) ? temp[0].value() : DataArray<CsetType>(),\
+        (dimension > 1) ? temp[1].value() : DataArray<CsetType>(),\
+        (dimension > 2) ? temp[2].value() : DataArray<CsetType>(),\
     };\
     utils::generate_element_centers_impl<CsetType, OutputType>(topo, dimension,\
         cset_values.data(), output_values.data(), offset);\
-- 
2.43.0


From a85590404f15f07ab8aa9722aeed06c6516baa8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:22 +0000
Subject: [PATCH 093/140] fix: flatten does not truncate coordinates of uniform
 and rectilinear meshes to integers

---
 src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
index be46c30..dedd0d3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_flatten.cpp
@@ -570,7 +570,10 @@ MeshFlattener::collect_mesh_info(const Node &mesh, MeshInfo &out) const
             const std::string cset_type_name = dom_cset["type"].as_string();
             if(cset_type_name == "uniform" || cset_type_name == "rectilinear")
             {
-                out.coord_type = determine_element_dtype(dom_cset);
+                // the type of the coordinates made by coordset_to_explicit
+                // (logical dims must not turn them into integers)
+                out.coord_type = blueprint::mesh::utils::find_widest_dtype(
+                    dom_cset, blueprint::mesh::utils::DEFAULT_FLOAT_DTYPE).id();
             }
             else if(cset_type_name == "explicit")
             {
-- 
2.43.0


From ea149ba376da752abc18b4f50f10161edbca001e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:46:57 +0000
Subject: [PATCH 094/140] fix: mesh distribute with domains that go to no rank

---
 .../conduit_blueprint_mpi_mesh_distribute.cpp    | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
index 8dc9582..7b800cb 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_distribute.cpp
@@ -124,9 +124,7 @@ distribute(const conduit::Node &mesh,
 
     // domain map is an o2m
     // full walk the map to queue sends and recvs
-    blueprint::o2mrelation::O2MIterator o2m_iter(domain_map);
-    // future o2m interface?
-    // O2MMap o2m_rel(domain_map);
+    blueprint::o2mrelation::O2MIndex o2m_rel(domain_map);
     index_t_accessor dmap_values = domain_map["values"].value();
 
     conduit::relay::mpi::communicate_using_schema comm_using_schema(comm);
@@ -134,22 +132,16 @@ distribute(const conduit::Node &mesh,
     int tag = 422000; // unique tag start for distribute
 
     // full walk
-    while(o2m_iter.has_next(conduit::blueprint::o2mrelation::DATA))
-    // for( int i = 0; i < o2m_rel.size(); i++)
+    for(index_t i = 0; i < o2m_rel.size(); i++)
     {
-        int i = o2m_iter.next(conduit::blueprint::o2mrelation::ONE);
         // i is domain id
         // check if we have domain w/ domain id == i
         // if so we will send
         bool have_domain = local_domain_ids.find(i) != local_domain_ids.end();
         // loop over all dests for domain i
-        o2m_iter.to_front(conduit::blueprint::o2mrelation::MANY);
-        while(o2m_iter.has_next(conduit::blueprint::o2mrelation::MANY))
-        // for (int j = 0; j < o2m_rel.size(i); j++)
+        for(index_t j = 0; j < o2m_rel.size(i); j++)
         {
-            o2m_iter.next(conduit::blueprint::o2mrelation::MANY);
-            // index_t o2m_idx = o2m_rel.map(i,j);
-            index_t o2m_idx  = o2m_iter.index(conduit::blueprint::o2mrelation::DATA);
+            index_t o2m_idx  = o2m_rel.index(i,j);
             index_t des_rank = dmap_values[o2m_idx];
 
             if(have_domain)
-- 
2.43.0


From 98dafdbfc702e34ac50f371ea0d004d2b63b8664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:07 +0000
Subject: [PATCH 095/140] fix: tags of the exchange of vertex ids stay within
 the MPI limit

---
 src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index f911b27..54a4d33 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -1026,7 +1026,7 @@ ParallelPartitioner::synchronize_gvids(
                   orig_dom_gvids[domid].size(),
                   index_mpi_dtype,
                   src_rnk,
-                  GVID_TAG + domid,
+                  relay::mpi::safe_tag(GVID_TAG + domid, comm),
                   comm,
                   &pending_reqs[req_id]);
         req_id++;
@@ -1042,7 +1042,7 @@ ParallelPartitioner::synchronize_gvids(
                   orig_dom_gvids[domid].size(),
                   index_mpi_dtype,
                   dst_rank,
-                  GVID_TAG + domid,
+                  relay::mpi::safe_tag(GVID_TAG + domid, comm),
                   comm,
                   &pending_reqs[req_id]);
         req_id++;
-- 
2.43.0


From 5fbd3e068fb848dff79ebadd3e537aed4110b68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:07 +0000
Subject: [PATCH 096/140] fix: parallel partition without domain ids when some
 ranks have no domains

---
 src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 54a4d33..827d20d 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -99,6 +99,12 @@ ParallelPartitioner::get_global_domids(const conduit::Node& n_mesh)
         }
     }
 
+    // All ranks must agree on whether ids are generated, also those that have
+    // no domains.
+    int local_domids = have_domids ? 1 : 0, all_domids = 1;
+    MPI_Allreduce(&local_domids, &all_domids, 1, MPI_INT, MPI_MIN, comm);
+    have_domids = all_domids != 0;
+
     int64 prob_ndoms = 0;
     if (!have_domids)
     {
-- 
2.43.0


From 61b2f7866ce984e60108f6f97b0b4b228492f5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:07 +0000
Subject: [PATCH 097/140] fix: parallel map back of vertex fields when some
 ranks have no parts

---
 .../blueprint/conduit_blueprint_mesh_partition.cpp     | 10 ++++++++++
 .../blueprint/conduit_blueprint_mesh_partition.hpp     |  6 ++++++
 .../blueprint/conduit_blueprint_mpi_mesh_partition.cpp | 10 ++++++++++
 .../blueprint/conduit_blueprint_mpi_mesh_partition.hpp |  2 ++
 4 files changed, 28 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
index 9a39984..e0c4245 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.cpp
@@ -4735,6 +4735,12 @@ void Partitioner::synchronize_gvids(const std::vector<std::vector<index_t>>& /*r
     // implemented only in parallel case
 }
 
+//-------------------------------------------------------------------------
+bool Partitioner::any_rank(bool value) const
+{
+    return value;
+}
+
 
 //-----------------------------------------------------------------------------
 // -- begin conduit::blueprint::mesh::coordset --
@@ -10204,6 +10210,10 @@ Partitioner::map_back_fields(const conduit::Node& repart_mesh,
         }
     }
 
+    // Ranks without domains of the repartitioned mesh take part in the exchange
+    // of vertex ids too.
+    has_vert_fields = any_rank(has_vert_fields);
+
     // Get a field prefix. Some of the mapping fields used here may have
     // used a field_prefix when they were generated.
     std::string field_prefix;
diff --git a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
index 97aceb3..010636d 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_partition.hpp
@@ -734,6 +734,12 @@ protected:
         const std::vector<std::vector<index_t>>& remap_to_local_doms,
         std::map<index_t, std::vector<index_t>>& orig_dom_gvids);
 
+    /**
+     @brief Tells whether the value is true on any rank.
+     @note Reimplemented in parallel
+     */
+    virtual bool any_rank(bool value) const;
+
     /**
      @brief Return the name of the field that contains original vertex ids.
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
index 827d20d..2ee6f9b 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.cpp
@@ -944,6 +944,16 @@ ParallelPartitioner::communicate_mapback(std::unordered_map<index_t, Node>& pack
     }
 }
 
+//-----------------------------------------------------------------------------
+bool
+ParallelPartitioner::any_rank(bool value) const
+{
+    int local_value = value ? 1 : 0, global_value = 0;
+    MPI_Allreduce(&local_value, &global_value, 1, MPI_INT, MPI_MAX, comm);
+    return global_value != 0;
+}
+
+//-----------------------------------------------------------------------------
 void
 ParallelPartitioner::synchronize_gvids(
     const std::vector<std::vector<index_t>>& remap_to_local_doms,
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
index 791c7b4..78bbd12 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_partition.hpp
@@ -122,6 +122,8 @@ protected:
     virtual void synchronize_gvids(const std::vector<std::vector<index_t>>& remap_to_local_doms,
                                    std::map<index_t, std::vector<index_t>>& orig_dom_gvids) override;
 
+    virtual bool any_rank(bool value) const override;
+
 private:
     /**
      @brief Creates an MPI structure datatype so we can Allgatherv 3 things
-- 
2.43.0


From 0267161c5e166bf722e57d83c699809100e2fb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 098/140] fix: parallel compare_pointwise compares a domain
 with its neighbor, not itself, and takes domain ids with gaps

---
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 87 +++++++++++--------
 1 file changed, 53 insertions(+), 34 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 1f9f7c6..d31c66a 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -644,27 +644,27 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
     namespace bputils = conduit::blueprint::mesh::utils;
     std::vector<Node *> domains = conduit::blueprint::mesh::domains(mesh);
 
-    // Determine total number of domains.
-    conduit::Node nd_local, nd_total;
-    nd_local = static_cast<int>(domains.size());
-    relay::mpi::sum_all_reduce(nd_local, nd_total, comm);
-    int maxDomains = nd_total.to_int();
+    // Determine the largest domain id (the ids may have gaps).
+    conduit::Node maxid_local, maxid_total;
+    int maxid = -1;
+    std::map<int, Node *> idToDomain;
+    for(auto dom_ptr : domains)
+    {
+        int domainId = static_cast<int>(bputils::find_domain_id(*dom_ptr));
+        idToDomain[domainId] = dom_ptr;
+        maxid = std::max(maxid, domainId);
+    }
+    maxid_local = maxid;
+    relay::mpi::max_all_reduce(maxid_local, maxid_total, comm);
+    int maxDomains = maxid_total.to_int() + 1;
     const int par_rank = relay::mpi::rank(comm);
 
     // Figure out which MPI ranks own each domain.
-    conduit::Node n_domain2rank;
-    {
-        conduit::Node n_local(DataType::int32(maxDomains));
-        int *iptr = n_local.as_int_ptr();
-        memset(iptr, 0, sizeof(int) * maxDomains);
-        for(size_t i = 0; i < domains.size(); i++)
-        {
-            auto domainId = bputils::find_domain_id(*domains[i]);
-            iptr[domainId] = par_rank;
-        }
-        relay::mpi::sum_all_reduce(n_local, n_domain2rank, comm);
-    }
-    const int *domain2rank = n_domain2rank.as_int_ptr();
+    std::vector<int> local_domain2rank(maxDomains, -1), domain2rank(maxDomains, -1);
+    for(auto it = idToDomain.begin(); it != idToDomain.end(); it++)
+        local_domain2rank[it->first] = par_rank;
+    MPI_Allreduce(local_domain2rank.data(), domain2rank.data(), maxDomains,
+                  MPI_INT, MPI_MAX, comm);
 
     // Iterate over each of the possible adjset relationships. Not all of these
     // will have adjset groups.
@@ -673,24 +673,46 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
     {
         for(int d1 = d0 + 1; d1 < maxDomains; d1++)
         {
+            if(domain2rank[d0] < 0 || domain2rank[d1] < 0)
+                continue;
+
             // make the adjset group name.
             std::stringstream ss;
             ss << conduit::blueprint::mesh::adjset::group_prefix() << "_" << d0 << "_" << d1;
             std::string groupName(ss.str());
 
+            // See how many of the 2 domains have the group.
+            const std::string key("adjsets/" + adjsetName + "/groups/" + groupName + "/values");
+            const int pair[2] = {d0, d1};
+            bool has_group[2] = {false, false};
+            for(int mi = 0; mi < 2; mi++)
+            {
+                auto it = idToDomain.find(pair[mi]);
+                has_group[mi] = it != idToDomain.end() && it->second->has_path(key);
+            }
+            int nlocal = (has_group[0] ? 1 : 0) + (has_group[1] ? 1 : 0), ntotal = 0;
+            MPI_Allreduce(&nlocal, &ntotal, 1, MPI_INT, MPI_SUM, comm);
+            if(ntotal == 0)
+                continue;
+            if(ntotal == 1)
+            {
+                // Only one of the domains has the group.
+                info["adjset"] = adjsetName;
+                info["group"] = groupName;
+                return false;
+            }
+
             // There are up to 2 local meshes and their corresponding remote mesh.
             relay::mpi::communicate_using_schema C(comm);
             conduit::Node localMesh[2], remoteMesh[2];
-            int mi = 0;            
-            for(auto dom_ptr : domains)
+            for(int mi = 0; mi < 2; mi++)
             {
-                Node &domain = *dom_ptr;
-
                 // If the domain has the adjset, make a point mesh of its points
                 // that we can send to the neighbor.
-                std::string key("adjsets/" + adjsetName + "/groups/" + groupName + "/values");
-                if(domain.has_path(key))
+                if(has_group[mi])
                 {
+                    Node &domain = *idToDomain[pair[mi]];
+
                     // Get the topology that the adjset wants.
                     std::string tkey("adjsets/" + adjsetName + "/topology");
                     std::string topoName = domain.fetch_existing(tkey).as_string();
@@ -698,7 +720,6 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
 
                     // Get the group values and add them as points to the topo builder
                     // so we pull out a point mesh.
-                    std::string key("adjsets/" + adjsetName + "/groups/" + groupName + "/values");
                     const Node &n_values = domain.fetch_existing(key);
                     const auto values = n_values.as_index_t_accessor();
                     bputils::topology::TopologyBuilder B(topo);
@@ -711,16 +732,12 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
                     // Make the local point mesh.
                     B.execute(localMesh[mi], "point");
 
-                    // Get the neighbor for this group
-                    std::string nkey("adjsets/" + adjsetName + "/groups/" + groupName + "/neighbors");
-                    int neighbor = domain.fetch_existing(nkey).to_int();
-
-                    // Send this local mesh to the neighbor.
+                    // Send this local mesh to the neighbor. The tag tells which
+                    // domain of the pair the mesh comes from.
+                    const int neighbor = pair[1 - mi];
                     C.add_isend(localMesh[mi], domain2rank[neighbor], tag + mi);
                     // That neighbor will have to send us a mesh too.
-                    C.add_irecv(remoteMesh[mi], domain2rank[neighbor], tag + mi);
-
-                    mi++;
+                    C.add_irecv(remoteMesh[mi], domain2rank[neighbor], tag + (1 - mi));
                 }
             }
 
@@ -730,8 +747,10 @@ compare_pointwise_impl(conduit::Node &mesh, const std::string &adjsetName,
             // Make sure the nodes are not different.
             Node different, reducedDiff;
             different = 0;
-            for(int i = 0; i < mi; i++)
+            for(int i = 0; i < 2; i++)
             {
+                if(!has_group[i])
+                    continue;
                 bool d = localMesh[i].diff(remoteMesh[i], info, 1.e-8);
                 different = different.to_int() + (d ? 1 : 0);
 
-- 
2.43.0


From fe42f7f9d9647639a7c1e3350a87c3c818c777f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:40 +0000
Subject: [PATCH 099/140] fix: parallel adjset validate of sets between ranks

---
 .../conduit_blueprint_mesh_utils.cpp          |  6 +-
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 59 +++++++++++++++++++
 2 files changed, 64 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 479cb1b..38ce3a4 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3040,10 +3040,12 @@ adjset::validate(const conduit::Node &doms,
         // point query.
         std::vector<std::tuple<index_t, index_t, index_t, index_t, size_t, std::string, std::vector<double>>> query_guide;
         std::map<std::pair<index_t,index_t>, bool> bidirectional;
+        std::set<index_t> local_ids;
         for(size_t domIdx = 0; domIdx < domains.size(); domIdx++)
         {
             const auto dom = domains[domIdx];
             auto domainId = conduit::blueprint::mesh::utils::find_domain_id(*dom);
+            local_ids.insert(domainId);
 
             // Get the domain's coordset.
             const conduit::Node &coordset = dom->fetch_existing("coordsets/"+coordsetName);
@@ -3094,7 +3096,9 @@ adjset::validate(const conduit::Node &doms,
         retval = true;
         for(auto it = bidirectional.begin(); it != bidirectional.end(); it++)
         {
-            if(!it->second)
+            // A domain that is not in doms lives on another rank, which knows
+            // the neighbors of that domain.
+            if(!it->second && local_ids.find(it->first.first) != local_ids.end())
             {
                 retval = false;
 
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index d31c66a..3af07c8 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -23,7 +23,10 @@
 #include "conduit_relay_io.hpp"
 #endif
 
+#include <algorithm>
 #include <cstring>
+#include <map>
+#include <set>
 
 //-----------------------------------------------------------------------------
 // -- begin conduit --
@@ -631,6 +634,62 @@ adjset::validate(const Node &doms,
                  adjsetName, association, topologyName, coordsetName,
                  info, PQ, MQ, checkMultiDomain);
 
+    // The serial function sees the neighbors of the domains on this rank only.
+    // Look for domains on other ranks that name one of our domains as a neighbor
+    // while our domain does not name them.
+    if(association == "vertex")
+    {
+        std::set<std::pair<int,int>> local_pairs;
+        std::set<int> local_ids;
+        std::vector<int> pairs;
+        for(const auto dom : domains)
+        {
+            const int domainId = static_cast<int>(conduit::blueprint::mesh::utils::find_domain_id(*dom));
+            local_ids.insert(domainId);
+            const std::string groupsPath("adjsets/" + adjsetName + "/groups");
+            if(!dom->has_path(groupsPath))
+                continue;
+            for(const Node &group : dom->fetch_existing(groupsPath).children())
+            {
+                index_t_accessor neighbors = group["neighbors"].value();
+                for(index_t ni = 0; ni < neighbors.number_of_elements(); ni++)
+                {
+                    const int nbr = static_cast<int>(neighbors[ni]);
+                    if(local_pairs.insert(std::make_pair(domainId, nbr)).second)
+                    {
+                        pairs.push_back(domainId);
+                        pairs.push_back(nbr);
+                    }
+                }
+            }
+        }
+
+        conduit::Node n_pairs, n_all_pairs;
+        n_pairs.set(pairs);
+        relay::mpi::all_gather_using_schema(n_pairs, n_all_pairs, comm);
+        for(index_t r = 0; r < n_all_pairs.number_of_children(); r++)
+        {
+            if(n_all_pairs[r].dtype().number_of_elements() == 0)
+                continue;
+            int_accessor all_pairs = n_all_pairs[r].as_int_accessor();
+            for(index_t i = 0; i + 1 < all_pairs.number_of_elements(); i += 2)
+            {
+                const int domainId = all_pairs[i];
+                const int nbr = all_pairs[i + 1];
+                if(local_ids.find(domainId) == local_ids.end() &&
+                   local_ids.find(nbr) != local_ids.end() &&
+                   local_pairs.find(std::make_pair(nbr, domainId)) == local_pairs.end())
+                {
+                    retval = false;
+                    std::stringstream ss;
+                    ss << "Domain " << nbr << " adjset " << adjsetName
+                       << " does not contain a group that references domain " << domainId << ".";
+                    info[adjsetName].append().set(ss.str());
+                }
+            }
+        }
+    }
+
     // Make sure all ranks agree on the answer.
     retval = agree(retval, comm);
     return retval;
-- 
2.43.0


From b1f817e825ef6dd6ecdac6fdd423deb93c79cdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:57 +0000
Subject: [PATCH 100/140] fix: MatchQuery when a neighbor domain has no
 candidates

---
 .../conduit_blueprint_mesh_utils.cpp          |  6 +++--
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 23 +++++++++++++++++--
 2 files changed, 25 insertions(+), 4 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 38ce3a4..cfdf1e3 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -4057,8 +4057,10 @@ MatchQuery::execute()
         auto oppit = m_query.find(oppositeKey);
         if(oppit == m_query.end())
         {
-            CONDUIT_ERROR("MatchQuery is missing the topology for "
-                << dom << ":" << query_domain);
+            // The other domain has no candidates for this one so none of
+            // the entities in this query exist there.
+            it->second.results.clear();
+            continue;
         }
 
         // Get both of the topologies.
diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 3af07c8..880ad41 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -402,6 +402,17 @@ MatchQuery::execute()
         return -1;
     };
 
+    // See whether any rank asked for the entities of domain d in domain qd.
+    auto query_exists = [=](const std::vector<int> &allqueries, int d, int qd) -> bool
+    {
+        for(size_t i = 0; i < allqueries.size(); i += ntuple_values)
+        {
+            if(allqueries[i + 1] == d && allqueries[i + 2] == qd)
+                return true;
+        }
+        return false;
+    };
+
 #ifdef DEBUG_PRINT
     // Print out some debugging information to files.
     conduit::Node debug;
@@ -453,7 +464,8 @@ MatchQuery::execute()
             // The query was asked by this rank. We need to prepare to
             // receive the opposite query, which is the answer.
 
-            if(m_query.find(oppositeKey) == m_query.end())
+            if(m_query.find(oppositeKey) == m_query.end() &&
+               query_exists(allqueries, query_domain, domain))
             {
                 int remote = domain_to_rank(allqueries, query_domain);
 
@@ -502,11 +514,18 @@ MatchQuery::execute()
             // Try and get the geometries.
             auto it = m_query.find(key);
             auto oppit = m_query.find(oppositeKey);
-            if(it == m_query.end() || oppit == m_query.end())
+            if(it == m_query.end())
             {
                 CONDUIT_ERROR("MatchQuery is missing the topologies for "
                     << domain << ":" << query_domain);
             }
+            if(oppit == m_query.end())
+            {
+                // The other domain has no candidates for this one so none of
+                // the entities in this query exist there.
+                it->second.results.clear();
+                continue;
+            }
 
             // Get both of the topologies.
             conduit::Node &mesh1 = it->second.query_mesh;
-- 
2.43.0


From e529e57cee371419bd84646317492da9542dabed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:57 +0000
Subject: [PATCH 101/140] fix: parallel PointQuery with gaps in the domain ids

---
 .../conduit_blueprint_mpi_mesh_utils.cpp      | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
index 880ad41..bb0f097 100644
--- a/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mpi_mesh_utils.cpp
@@ -81,19 +81,21 @@ PointQuery::execute(const std::string &coordsetName)
     MPI_Comm_size(m_comm, &size);
 
     // Figure out which ranks own the domains. Get the domain ids on this rank
-    // and sum the number of domains on all ranks.
+    // and the largest domain id on all ranks (the ids may have gaps).
     std::vector<int> localDomains = domainIds();
-    int ndoms = static_cast<int>(localDomains.size());
-    int ntotal_doms = 0;
-    MPI_Allreduce(&ndoms, &ntotal_doms, 1, MPI_INT, MPI_SUM, m_comm);
+    int maxid = -1, ntotal_doms = 0;
+    for(auto dom : localDomains)
+        maxid = std::max(maxid, dom);
+    MPI_Allreduce(&maxid, &ntotal_doms, 1, MPI_INT, MPI_MAX, m_comm);
+    ntotal_doms++;
 
     // Make sure each rank knows who owns which domains. This assumes that
     // the domains were set properly and only occur on one rank.
-    std::vector<int> local_domain_to_rank(ntotal_doms, 0);
-    std::vector<int> domain_to_rank(ntotal_doms, 0);
+    std::vector<int> local_domain_to_rank(ntotal_doms, -1);
+    std::vector<int> domain_to_rank(ntotal_doms, -1);
     for(auto dom : localDomains)
         local_domain_to_rank[dom] = rank;
-    MPI_Allreduce(&local_domain_to_rank[0], &domain_to_rank[0], ntotal_doms, MPI_INT, MPI_SUM, m_comm);
+    MPI_Allreduce(local_domain_to_rank.data(), domain_to_rank.data(), ntotal_doms, MPI_INT, MPI_MAX, m_comm);
 
     // Put together the queries that we need to run.
     std::vector<int> queries;
@@ -164,7 +166,8 @@ PointQuery::execute(const std::string &coordsetName)
     for(size_t i = 0; i < allqueries.size(); i += 3)
     {
         int domain = allqueries[i+1];
-        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()))
+        if(domain < 0 || domain >= static_cast<int>(domain_to_rank.size()) ||
+           domain_to_rank[domain] < 0)
         {
             CONDUIT_ERROR("An adjacency set referenced domain " << domain
                 << ", which is not a valid domain in the input mesh.");
-- 
2.43.0


From 705e2f75a2e645cd803d21813188195c818f11ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:57 +0000
Subject: [PATCH 102/140] fix: adjset compare_pointwise and to_topo with gaps
 in the domain ids

---
 .../conduit_blueprint_mesh_utils.cpp          | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index cfdf1e3..0dbeeb2 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3319,16 +3319,21 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
 {
     namespace bputils = conduit::blueprint::mesh::utils;
 
-    // Determine total number of domains.
+    // Get the domain ids, sorted, since the group names contain sorted ids.
     std::vector<Node *> domains = conduit::blueprint::mesh::domains(mesh);
-    int maxDomains = domains.size();
+    std::map<int, const Node *> idToDomain;
+    for(const Node *dom : domains)
+        idToDomain[static_cast<int>(bputils::find_domain_id(*dom))] = dom;
 
     // Iterate over each of the possible adjset relationships. Not all of these
     // will have adjset groups.
-    for(int d0 = 0; d0 < maxDomains; d0++)
+    for(auto it0 = idToDomain.begin(); it0 != idToDomain.end(); it0++)
     {
-        for(int d1 = d0 + 1; d1 < maxDomains; d1++)
+        for(auto it1 = std::next(it0); it1 != idToDomain.end(); it1++)
         {
+            const int d0 = it0->first;
+            const int d1 = it1->first;
+
             // make the adjset group name.
             std::stringstream ss;
             ss << conduit::blueprint::mesh::adjset::group_prefix() << "_" << d0 << "_" << d1;
@@ -3336,10 +3341,10 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
 
             // There are up to 2 meshes for the shared boundary.
             conduit::Node mesh[2];
-            int mi = 0;
-            for(size_t dom = 0; dom < domains.size(); dom++)
+            const Node *pair[2] = {it0->second, it1->second};
+            for(int mi = 0; mi < 2; mi++)
             {
-                const Node &domain = *domains[dom];
+                const Node &domain = *pair[mi];
 
                 // If the domain has the adjset, make a point mesh of its points
                 // that we can send to the neighbor.
@@ -3400,8 +3405,6 @@ foreach_adjset_mesh_pair_impl(conduit::Node &mesh, const std::string &adjsetName
 
                     // Make the local point mesh.
                     B.execute(mesh[mi], shapeType);
-
-                    mi++;
                 }
             }
 
-- 
2.43.0


From 1ec31630aff7fcdecec69d3fbc6999282c042908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:57 +0000
Subject: [PATCH 103/140] fix: to_pairwise_canonical with several groups for
 one neighbor

---
 .../conduit_blueprint_mesh_utils.cpp          | 26 +++----------------
 1 file changed, 4 insertions(+), 22 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index 0dbeeb2..fbc274f 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3265,29 +3265,11 @@ void adjset::to_pairwise_canonical(conduit::Node &doms,
             const std::string dest_key("adjsets/" + newAdjsetName);              
             const conduit::Node &src_adj = domain[src_key];
             conduit::Node &dest_adj = domain[dest_key];
-            if(conduit::blueprint::mesh::adjset::is_pairwise(src_adj))
+            if(conduit::blueprint::mesh::adjset::is_pairwise(src_adj) &&
+               adjset::is_canonical(src_adj))
             {
-                if(adjset::is_canonical(src_adj))
-                {
-                    // Keep an external reference to adjset a since it is already pairwise.
-                    dest_adj.set_external(src_adj);
-                }
-                else
-                {
-                    dest_adj["topology"] = src_adj["topology"];
-                    dest_adj["association"] = src_adj["association"];
-                    // Shallow copy the group data into the new adjset.
-                    const conduit::Node &src_groups = src_adj["groups"];
-                    conduit::Node &dest_groups = dest_adj["groups"];
-                    for(conduit::index_t i = 0; i < src_groups.number_of_children(); i++)
-                    {
-                        const conduit::Node &src_group = src_groups[i];
-                        conduit::Node &dest_group = dest_groups[src_group.name()];
-                        dest_group["neighbors"].set_external(src_group["neighbors"]);
-                        dest_group["values"].set_external(src_group["values"]);
-                    }
-                    conduit::blueprint::mesh::utils::adjset::canonicalize(dest_adj);
-                }
+                // Keep an external reference to adjset a since it is already pairwise.
+                dest_adj.set_external(src_adj);
             }
             else
             {
-- 
2.43.0


From d423773a94637f7e72ab6dd93beeeec60a29d525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:57 +0000
Subject: [PATCH 104/140] fix: adjset validate reports on 2D domains in lists

---
 src/libs/blueprint/conduit_blueprint_mesh_utils.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
index fbc274f..98630cc 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh_utils.cpp
@@ -3132,14 +3132,19 @@ adjset::validate(const conduit::Node &doms,
             {
                 retval = false;
                 std::string domainName(domains[domIdx]->name());
+                // The domains of a list have no names.
+                if(domainName.empty())
+                    domainName = "domain_" + std::to_string(domain_id);
                 conduit::Node &vn = info[domainName][adjsetName][groupName].append();
 
                 std::stringstream ss;
                 ss << "Domain " << domain_id << " adjset " << adjsetName
                    << " group " << groupName
                    << ": vertex " << ptid
-                   << " (" << coord[0] << ", " << coord[1]
-                   << ", " << coord[2] << ") at index " << ptid
+                   << " (" << coord[0]
+                   << ", " << ((coord.size() > 1) ? coord[1] : 0.)
+                   << ", " << ((coord.size() > 2) ? coord[2] : 0.)
+                   << ") at index " << ptid
                    << " could not be located in neighbor domain "
                    << nbr << ".";
 
@@ -3227,6 +3232,9 @@ adjset::validate(const conduit::Node &doms,
             {
                 retval = false;
                 std::string domainName(domains[domIdx]->name());
+                // The domains of a list have no names.
+                if(domainName.empty())
+                    domainName = "domain_" + std::to_string(domain_id);
                 conduit::Node &vn = info[domainName][adjsetName][groupName].append();
 
                 std::stringstream ss;
-- 
2.43.0


From 32846cd0fe9082412ec5144600a95b68937dbff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:58 +0000
Subject: [PATCH 105/140] fix: painting an adjset again does not add to the old
 counts

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index d2859a6..b867281 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -7473,6 +7473,7 @@ mesh::paint_adjset(const std::string &adjset_name,
         res_cnt_field["topology"] = topo_name;
         res_cnt_field["values"].set(DataType::int64(num_entries));
         int64_array res_cnt_vals = res_cnt_field["values"].value();
+        res_cnt_vals.fill(0);
 
         // loop over groups
         for (const Node& group : adjset["groups"].children())
-- 
2.43.0


From e8265a3297a699c14408f002db21ad3107dd59e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:23:58 +0000
Subject: [PATCH 106/140] fix: to_pairwise lists each entity once per neighbor

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index b867281..90fa896 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6897,6 +6897,7 @@ mesh::adjset::to_pairwise(const Node &adjset,
     // Compile ordered lists for each neighbor containing their unique lists
     // of 'adjset' entity indices, as compiled from all groups in the source 'adjset'.
     std::map<index_t, std::vector<index_t>> pair_values_map;
+    std::map<index_t, std::set<index_t>> pair_valuesets_map;
     for(const std::string &group_name : adjset_group_names)
     {
         const Node &group_node = adjset["groups"][group_name];
@@ -6925,9 +6926,16 @@ mesh::adjset::to_pairwise(const Node &adjset,
 
         for(const index_t &neighbor_id : group_neighbors)
         {
+            // an entity can be in several groups with the same neighbor
             std::vector<index_t> &neighbor_values = pair_values_map[neighbor_id];
-            neighbor_values.insert(neighbor_values.end(),
-                group_values.begin(), group_values.end());
+            std::set<index_t> &neighbor_valueset = pair_valuesets_map[neighbor_id];
+            for(const index_t &group_value : group_values)
+            {
+                if(neighbor_valueset.insert(group_value).second)
+                {
+                    neighbor_values.push_back(group_value);
+                }
+            }
         }
     }
 
-- 
2.43.0


From 3a9994017b7f22d1330d85602378cb337306034a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:39:44 +0000
Subject: [PATCH 107/140] fix: table verify with a column without components

---
 src/libs/blueprint/conduit_blueprint_table.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_table.cpp b/src/libs/blueprint/conduit_blueprint_table.cpp
index 6acdd37..2f2358e 100644
--- a/src/libs/blueprint/conduit_blueprint_table.cpp
+++ b/src/libs/blueprint/conduit_blueprint_table.cpp
@@ -50,7 +50,8 @@ verify_table_values(const Node &n, Node &info)
         if(n_col.dtype().is_list() || n_col.dtype().is_object())
         {
             this_res = blueprint::mcarray::verify(n_col, i_col);
-            this_num_elems = (res) ? n_col[0].dtype().number_of_elements() : 0;
+            this_num_elems = (this_res && n_col.number_of_children() > 0)
+                ? n_col[0].dtype().number_of_elements() : 0;
         }
         else if(n_col.dtype().is_empty())
         {
-- 
2.43.0


From 5c6a0cbbccc2feb422cdfe2ff419f51b41b1fa79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 108/140] fix: csv header for columns with one component

---
 src/libs/relay/conduit_relay_io_csv.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index b00c22a..db6ca89 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -79,7 +79,7 @@ write_header(const Node &values, std::ofstream &fout)
         const Node &value = values[col];
         const std::string base_name = value.name();
         const index_t nc = value.number_of_children();
-        if(nc > 1)
+        if(nc > 0)
         {
             // Each column is "base_name/comp_name"
             for(index_t c = 0; c < nc; c++)
-- 
2.43.0


From d9b0c497b453e643b9be1fffb2e2fd60234d3bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:40:05 +0000
Subject: [PATCH 109/140] fix: csv files without header and rows of the wrong
 length

---
 src/libs/relay/conduit_relay_io_csv.cpp | 46 ++++++++++++-------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_csv.cpp b/src/libs/relay/conduit_relay_io_csv.cpp
index db6ca89..da3ac82 100644
--- a/src/libs/relay/conduit_relay_io_csv.cpp
+++ b/src/libs/relay/conduit_relay_io_csv.cpp
@@ -245,8 +245,8 @@ add_column(const std::string &name, Node &values)
 
 //-----------------------------------------------------------------------------
 static void
-add_columns(Node &values, std::vector<std::string> &col_names,
-    index_t ncols, const DataType &dtype)
+add_columns(Node &values, const std::vector<std::string> &col_names,
+    index_t ncols, const DataType &dtype, std::vector<Node*> &cols)
 {
     if(col_names.empty())
     {
@@ -254,7 +254,7 @@ add_columns(Node &values, std::vector<std::string> &col_names,
         {
             Node &col = add_column("", values);
             col.set_dtype(dtype);
-            col_names.push_back(col.name());
+            cols.push_back(&col);
         }
     }
     else
@@ -263,6 +263,7 @@ add_columns(Node &values, std::vector<std::string> &col_names,
         {
             Node &col = add_column(name, values);
             col.set_dtype(dtype);
+            cols.push_back(&col);
         }
     }
 }
@@ -315,19 +316,19 @@ read_column_names(const std::string &line, std::vector<std::string> &col_names,
     }
 
     // If all numbers then this row should not be treated as column names
+    const index_t ncols = static_cast<index_t>(col_names.size());
     if(all_numbers)
     {
         col_names.clear();
     }
-    return static_cast<index_t>(col_names.size());
+    return ncols;
 }
 
 //-----------------------------------------------------------------------------
 template<typename FloatType>
 void
 read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
-    const std::vector<std::string> &col_names, Node &values,
-    const char sep = ',')
+    const std::vector<Node*> &cols, const char sep = ',')
 {
     static_assert(std::is_floating_point<FloatType>().value,
         "Function can only read floating point types from CSV file.");
@@ -343,18 +344,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
         while(end != std::string::npos)
         {
             const auto len = end - start;
-            if(icol > col_names.size())
+            if(icol >= cols.size())
             {
                 CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
                 return;
             }
 
-            Node *n = values.fetch_ptr(col_names[icol]);
-            if(!n)
-            {
-                CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-                return;
-            }
+            Node *n = cols[icol];
 
             std::string data = line.substr(start, len);
             try
@@ -389,18 +385,13 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
             end = line.find(sep, start);
         }
         // Get the last name
-        if(icol > col_names.size())
+        if(icol >= cols.size())
         {
             CONDUIT_ERROR("Error while reading file, row " << row << " contains too many column entries!");
             return;
         }
 
-        Node *n = values.fetch_ptr(col_names[icol]);
-        if(!n)
-        {
-            CONDUIT_ERROR("The allocated output table does not contain the path " << quote(col_names[icol]) << ".");
-            return;
-        }
+        Node *n = cols[icol];
 
         std::string data = line.substr(start);
         try
@@ -428,6 +419,12 @@ read_csv_data(std::ifstream &fin, const std::ifstream::pos_type &offset,
             CONDUIT_ERROR("Unable to parse row " << row << " in column " << icol << "."
                 << " The string " << quote(data) << "is not a number.");
         }
+
+        if(icol + 1 < cols.size())
+        {
+            CONDUIT_ERROR("Error while reading file, row " << row << " contains too few column entries!");
+            return;
+        }
         row++;
     }
 }
@@ -476,20 +473,21 @@ read_single_table(const std::string &path, const bool use_float64, Node &table)
     const DataType dtype((use_float64) ? DataType::FLOAT64_ID : DataType::FLOAT32_ID,
         nrows);
     Node &values = table["values"];
-    add_columns(values, column_names, ncols, dtype);
+    std::vector<Node*> columns;
+    add_columns(values, column_names, ncols, dtype, columns);
 
     if(dtype.is_float())
     {
-        read_csv_data<float>(fin, data_start, column_names, values);
+        read_csv_data<float>(fin, data_start, columns);
     }
     else if(dtype.is_double())
     {
-        read_csv_data<double>(fin, data_start, column_names, values);
+        read_csv_data<double>(fin, data_start, columns);
     }
 #ifdef CONDUIT_HAS_LONG_DOUBLE
     else if(dtype.is_long_double())
     {
-        read_csv_data<long double>(fin, data_start, column_names, values);
+        read_csv_data<long double>(fin, data_start, columns);
     }
 #endif
     else
-- 
2.43.0


From 80da0dddf5f1510eae2ef42b4d1c34d7c2d00f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 110/140] fix: python: numpy arrays keep element order, byte
 order and string lengths

---
 src/libs/conduit/python/conduit_python.cpp | 35 ++++++++++++----------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index b9564ca..b838e65 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -5121,19 +5121,21 @@ PyConduit_Fill_DataArray_From_PyArray(DataArray<T> &conduit_array,
      *     - Inner loop is done outside the iterator for efficiency.
      *   flag NPY_ITER_NPY_ITER_REFS_OK
      *     - Reference types are acceptable.
-     *   order NPY_KEEPORDER
-     *     - Visit elements in memory order, regardless of strides.
-     *       This is good for performance when the specific order
-     *       elements are visited is unimportant.
-     *   casting NPY_NO_CASTING
-     *     - No casting is required for this operation.
+     *   flags NPY_ITER_BUFFERED, NPY_ITER_NBO
+     *     - Provide elements in native byte order.
+     *   order NPY_CORDER
+     *     - Visit elements in logical order, regardless of strides.
+     *   casting NPY_EQUIV_CASTING
+     *     - Only byte order changes are required for this operation.
      */
      NpyIter* iter = NpyIter_New(numpy_array,
                                  NPY_ITER_READONLY|
                                  NPY_ITER_EXTERNAL_LOOP|
-                                 NPY_ITER_REFS_OK,
-                                 NPY_KEEPORDER,
-                                 NPY_NO_CASTING,
+                                 NPY_ITER_REFS_OK|
+                                 NPY_ITER_BUFFERED|
+                                 NPY_ITER_NBO,
+                                 NPY_CORDER,
+                                 NPY_EQUIV_CASTING,
                                  NULL);
     if (iter == NULL)
     {
@@ -7710,16 +7712,20 @@ PyConduit_Node_Set_From_Numpy_String_Array(Node &node,
     node.reset();
     // get the number of strings, and create a conduit list of strings
     npy_intp num_strings = PyArray_SIZE(py_arr);
-    npy_intp *dims = PyArray_DIMS(py_arr);
-    npy_intp string_len = dims[1];
+    npy_intp string_len = PyArray_ITEMSIZE(py_arr);
     for(npy_intp i=0; i < num_strings; i++)
     {
         // read each string into a child
         Node &cld = node.append();
         // numpy strings are fixed len + may not include
         // NULL term.
-        cld.set(DataType::char8_str(string_len),
-                PyArray_GETPTR1(py_arr,i));
+        const char *str_ptr = (const char*)PyArray_GETPTR1(py_arr,i);
+        npy_intp len = 0;
+        while(len < string_len && str_ptr[len] != '\0')
+        {
+            len++;
+        }
+        cld.set_string(std::string(str_ptr,len));
     }
 
     return 0;
@@ -7733,8 +7739,7 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
     node.reset();
     // get the number of strings, and create a conduit list of strings
     npy_intp num_strings = PyArray_SIZE(py_arr);
-    npy_intp *dims = PyArray_DIMS(py_arr);
-    npy_intp buffer_len = dims[1];
+    npy_intp buffer_len = PyArray_ITEMSIZE(py_arr);
     for(npy_intp i=0; i < num_strings; i++)
     {
         // read each string into a child
-- 
2.43.0


From a44b233a013bf95fba0b70daaab6041a4e4577c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 111/140] fix: python: arguments of to_json and to_yaml of
 schemas and data types

---
 src/libs/conduit/python/conduit_python.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index b838e65..8133a2c 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -2443,7 +2443,7 @@ PyConduit_DataType_to_json(PyConduit_DataType* self,
 
     if (!PyArg_ParseTupleAndKeywords(args,
                                      kwargs,
-                                     "|snnss",
+                                     "|nnss",
                                      const_cast<char**>(kwlist),
                                      &indent,
                                      &depth,
@@ -2508,7 +2508,7 @@ PyConduit_DataType_to_yaml(PyConduit_DataType* self,
 
     if (!PyArg_ParseTupleAndKeywords(args,
                                      kwargs,
-                                     "|snnss",
+                                     "|nnss",
                                      const_cast<char**>(kwlist),
                                      &indent,
                                      &depth,
@@ -4336,7 +4336,7 @@ PyConduit_Schema_to_json(PyConduit_Schema* self,
 
     if (!PyArg_ParseTupleAndKeywords(args,
                                      kwargs,
-                                     "|snnss",
+                                     "|nnss",
                                      const_cast<char**>(kwlist),
                                      &indent,
                                      &depth,
@@ -4400,7 +4400,7 @@ PyConduit_Schema_to_yaml(PyConduit_Schema* self,
 
     if (!PyArg_ParseTupleAndKeywords(args,
                                      kwargs,
-                                     "|snnss",
+                                     "|nnss",
                                      const_cast<char**>(kwlist),
                                      &indent,
                                      &depth,
-- 
2.43.0


From cec3da2b8db14aae02a6554628300fc67433509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 112/140] fix: python: DataType constructor arguments

---
 src/libs/conduit/python/conduit_python.cpp | 46 +++++++++++-----------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 8133a2c..e5b056d 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -324,22 +324,10 @@ static PyObject* PyConduit_Convert_Node_To_Python(Node& node);
 //---------------------------------------------------------------------------//
 static PyObject * 
 PyConduit_DataType_new(PyTypeObject* type,
-                       PyObject* args,
-                       PyObject* kwds)
+                       PyObject*, // args -- unused
+                       PyObject*) // kwds -- unused
 {
-    /// TODO: args and kwargs
-    
-    static const char *kwlist[] = {"value", NULL};
-    PyObject* value = NULL;
-    if (!PyArg_ParseTupleAndKeywords(args,
-                                     kwds,
-                                     "|O",
-                                     const_cast<char**>(kwlist),
-                                     &value))
-    {
-        return (NULL);
-    }
-
+    // args are parsed in PyConduit_DataType_init
     PyConduit_DataType* self = (PyConduit_DataType*)PyType_GenericAlloc(type,0);
     return ((PyObject*)self);
 }
@@ -386,7 +374,7 @@ PyConduit_DataType_Set_Parse_Args(PyConduit_DataType* self,
     {
         if(PySequence_Size(args)>0)
         {
-            py_obj = PySequence_GetItem(args,0);
+            py_obj = PyTuple_GetItem(args,0); // borrowed
             if(py_obj)
             {
                 // check for object
@@ -436,9 +424,9 @@ PyConduit_DataType_Set_Parse_Args(PyConduit_DataType* self,
     char       *dtype_name = NULL;
     Py_ssize_t  num_elements = 0;
     Py_ssize_t  offset = 0;
-    Py_ssize_t  stride = 0;
-    Py_ssize_t  element_bytes = 0;
-    Py_ssize_t  endianness =0;
+    Py_ssize_t  stride = -1;
+    Py_ssize_t  element_bytes = -1;
+    Py_ssize_t  endianness = Endianness::DEFAULT_ID;
 
     if(parse_case == 0)
     {
@@ -446,7 +434,7 @@ PyConduit_DataType_Set_Parse_Args(PyConduit_DataType* self,
                                          kwargs,
                                          "O",
                                          const_cast<char**>(kwlist_obj),
-                                         py_obj))
+                                         &py_obj))
         {
             // TODO: Set Error?
             return false;
@@ -454,7 +442,8 @@ PyConduit_DataType_Set_Parse_Args(PyConduit_DataType* self,
         
         if(!PyConduit_DataType_Check(py_obj))
         {
-            // TODO: Set Error?
+            PyErr_SetString(PyExc_TypeError,
+                            "'dtype' argument must be a conduit DataType");
             return false;
         }
         
@@ -482,6 +471,12 @@ PyConduit_DataType_Set_Parse_Args(PyConduit_DataType* self,
 
         dtype_id = (Py_ssize_t) DataType::name_to_id(std::string(dtype_name));
 
+        // if not given, the element size is the default for the type
+        if(element_bytes < 0)
+            element_bytes = DataType::default_bytes(dtype_id);
+        if(stride < 0)
+            stride = element_bytes;
+
         self->dtype.set(dtype_id,
                         num_elements,
                         offset,
@@ -506,6 +501,12 @@ PyConduit_DataType_Set_Parse_Args(PyConduit_DataType* self,
             return false;
         }
 
+        // if not given, the element size is the default for the type
+        if(element_bytes < 0)
+            element_bytes = DataType::default_bytes(dtype_id);
+        if(stride < 0)
+            stride = element_bytes;
+
         self->dtype.set(dtype_id,
                         num_elements,
                         offset,
@@ -526,8 +527,7 @@ PyConduit_DataType_init(PyConduit_DataType* self,
 {
     if(!PyConduit_DataType_Set_Parse_Args(self,args,kwargs))
     {
-        // todo: error?
-        return 0;
+        return -1;
     }
     return 0;
 }
-- 
2.43.0


From 4882ed54e596b6a6a667b2472127ebe3b84b9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 113/140] fix: python: text that is not ASCII

---
 src/libs/conduit/python/conduit_python.cpp | 36 +++++++++++++++++++---
 1 file changed, 32 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index e5b056d..7295be7 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -97,7 +97,7 @@ PyString_AsString(PyObject *py_obj)
     if(PyUnicode_Check(py_obj))
     {
         PyObject * temp_bytes = PyUnicode_AsEncodedString(py_obj,
-                                                          "ASCII",
+                                                          "UTF-8",
                                                           "strict"); // Owned reference
         if(temp_bytes != NULL)
         {
@@ -3669,6 +3669,10 @@ PyConduit_Schema_init(PyConduit_Schema* self,
          else if (PyString_Check(value))
          {
              char *cstr = PyString_AsString(value);
+             if(cstr == NULL)
+             {
+                 return (-1);
+             }
              self->schema = new Schema(cstr);
              PyString_AsString_Cleanup(cstr);
          }
@@ -3839,6 +3843,10 @@ PyConduit_Schema_get_item(PyConduit_Schema* self,
 
     PyObject* retval = NULL;
     char* ckey = PyString_AsString(key);
+    if(ckey == NULL)
+    {
+        return (NULL);
+    }
 
     retval = PyConduit_Schema_Python_Wrap(self->schema->fetch_ptr(ckey),
                                           0); // schema owns
@@ -3862,6 +3870,10 @@ PyConduit_Schema_set_item(PyConduit_Schema *self,
     // value must be a data type or schema
 
     char* ckey = PyString_AsString(key);
+    if(ckey == NULL)
+    {
+        return (-1);
+    }
     
     if(PyConduit_Schema_Check(value))
     {
@@ -5292,6 +5304,10 @@ PyConduit_Node_GetItem(PyConduit_Node* self,
     if(PyString_Check(key))
     {
         char* ckey = PyString_AsString(key);
+        if(ckey == NULL)
+        {
+            return (NULL);
+        }
 
         if(self->node->has_path(ckey))
         {
@@ -6249,6 +6265,10 @@ static int PyConduit_Node_SetItem(PyConduit_Node *self,
     }
 
     char* ckey = PyString_AsString(key);
+    if(ckey == NULL)
+    {
+        return (-1);
+    }
     Node& node = (*self->node)[ckey];
     PyString_AsString_Cleanup(ckey);
     return (PyConduit_Node_Set_From_Python(node, value));
@@ -7757,9 +7777,9 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
             return -1;
         }
         
-        // convert our unicode string to ascii for conduit 
+        // convert our unicode string to utf-8 for conduit
         PyObject *py_temp_bytes = PyUnicode_AsEncodedString(py_temp_unicode,
-                                                          "ASCII",
+                                                          "UTF-8",
                                                           "strict"); // Owned reference
         // cleanup unicode obj
         Py_DECREF(py_temp_unicode);
@@ -7767,7 +7787,7 @@ PyConduit_Node_Set_From_Numpy_Unicode_Array(Node &node,
         {
             // error
             PyErr_SetString(PyExc_TypeError,
-                            "Failed to encode unicode string to ASCII for use in conduit");
+                            "Failed to encode unicode string to UTF-8 for use in conduit");
             return -1;
         }
 
@@ -7787,6 +7807,10 @@ PyConduit_Node_Set_From_Numpy_String(Node &node,
                                      PyObject *value)
 {
     char *cstr = PyString_AsString(value);
+    if(cstr == NULL)
+    {
+        return -1;
+    }
     node.set_char8_str(cstr);
     PyString_AsString_Cleanup(cstr);
     return 0;
@@ -7813,6 +7837,10 @@ PyConduit_Node_Set_From_Python(Node &node,
     else if (PyString_Check(value))
     {
         char *cstr = PyString_AsString(value);
+        if(cstr == NULL)
+        {
+            return (-1);
+        }
         node = cstr;
         PyString_AsString_Cleanup(cstr);
     }
-- 
2.43.0


From 12484279af106f4ecedc6b73c43821930ea54d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 114/140] fix: python: indices out of range and deletion of
 items

---
 src/libs/conduit/python/conduit_python.cpp | 27 ++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 7295be7..4957c2a 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -3868,6 +3868,12 @@ PyConduit_Schema_set_item(PyConduit_Schema *self,
         return (-1);
     }
     // value must be a data type or schema
+    if (value == NULL)
+    {
+        PyErr_SetString(PyExc_TypeError,
+                        "Schema does not support item deletion, use remove");
+        return (-1);
+    }
 
     char* ckey = PyString_AsString(key);
     if(ckey == NULL)
@@ -5321,9 +5327,19 @@ PyConduit_Node_GetItem(PyConduit_Node* self,
     
         PyString_AsString_Cleanup(ckey);
     }
-    else if(PyNumber_Check(key))
+    else if(PyIndex_Check(key))
     {
-        Py_ssize_t idx = PyNumber_AsSsize_t(key,NULL);
+        Py_ssize_t idx = PyNumber_AsSsize_t(key,PyExc_IndexError);
+        if(idx == -1 && PyErr_Occurred())
+        {
+            return NULL;
+        }
+        if(idx < 0 || idx >= (Py_ssize_t)self->node->number_of_children())
+        {
+            PyErr_SetString(PyExc_IndexError,
+                            "Child index is out of range");
+            return NULL;
+        }
         Node& node = (*self->node)[idx];
         retval = PyConduit_Convert_Node_To_Python(node);
     }
@@ -6264,6 +6280,13 @@ static int PyConduit_Node_SetItem(PyConduit_Node *self,
         return (-1);
     }
 
+    if (value == NULL)
+    {
+        PyErr_SetString(PyExc_TypeError,
+                        "Node does not support item deletion, use remove");
+        return (-1);
+    }
+
     char* ckey = PyString_AsString(key);
     if(ckey == NULL)
     {
-- 
2.43.0


From 68afeb6518450c6f4ba8e487874f2ab27ad33bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:45 +0000
Subject: [PATCH 115/140] fix: python: integers that do not fit are refused

---
 src/libs/conduit/python/conduit_python.cpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 4957c2a..3da9501 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -7634,7 +7634,7 @@ PyConduit_Node_Set_From_Python_List(Node &node,
     }
     
     // if not ok, we assume py error was already set
-    if(!ok)
+    if(!ok || PyErr_Occurred())
         return -1;
     else
         return 0;
@@ -7741,7 +7741,7 @@ PyConduit_Node_Set_From_Python_Tuple(Node &node,
     }
     
     // if not ok, we assume py error was already set
-    if(!ok)
+    if(!ok || PyErr_Occurred())
         return -1;
     else
         return 0;
@@ -7869,11 +7869,21 @@ PyConduit_Node_Set_From_Python(Node &node,
     }
     else if (PyInt_Check(value))
     {
-        node = PyInt_AsLong(value);
+        long val = PyInt_AsLong(value);
+        if(val == -1 && PyErr_Occurred())
+        {
+            return (-1);
+        }
+        node = val;
     }
     else if (PyLong_Check(value))
     {
-        node = PyLong_AsLong(value);
+        long val = PyLong_AsLong(value);
+        if(val == -1 && PyErr_Occurred())
+        {
+            return (-1);
+        }
+        node = val;
     }
     else if (PyFloat_Check(value))
     {
-- 
2.43.0


From 596545978fe260f0046899a5e4eed74d214f014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 116/140] fix: python: read-only buffers and buffer release

---
 src/libs/conduit/python/conduit_python.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 3da9501..f93e4d3 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -6413,10 +6413,14 @@ PyConduit_Node_set(PyConduit_Node* self,
         Schema &schema = *((PyConduit_Schema*)py_value)->schema;
 
         Py_buffer buff_view;
-        PyObject_GetBuffer(py_buff, &buff_view, PyBUF_WRITE);
+        if(PyObject_GetBuffer(py_buff, &buff_view, PyBUF_SIMPLE) != 0)
+        {
+            return NULL;
+        }
         unsigned char *ptr = reinterpret_cast<unsigned char*>(buff_view.buf);
 
         self->node->set(schema,ptr);
+        PyBuffer_Release(&buff_view);
         Py_RETURN_NONE;
     }
     
@@ -6462,7 +6466,10 @@ PyConduit_Node_set_external(PyConduit_Node* self,
         Schema &schema = *((PyConduit_Schema*)py_value)->schema;
 
         Py_buffer buff_view;
-        PyObject_GetBuffer(py_buff, &buff_view, PyBUF_WRITE);
+        if(PyObject_GetBuffer(py_buff, &buff_view, PyBUF_WRITABLE) != 0)
+        {
+            return NULL;
+        }
         unsigned char *ptr = reinterpret_cast<unsigned char*>(buff_view.buf);
 
         self->node->set_external(schema,ptr);
-- 
2.43.0


From 13e142526e34c37b75e0aeb7bb4024bb203fb833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 117/140] fix: python: set_external with arrays without
 dimensions

---
 src/libs/conduit/python/conduit_python.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index f93e4d3..dac5689 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -6491,8 +6491,10 @@ PyConduit_Node_set_external(PyConduit_Node* self,
     PyArrayObject *py_arr = (PyArrayObject*)py_value;
     npy_intp num_ele = PyArray_SIZE(py_arr);
     index_t offset = 0;
-    index_t stride = (index_t) PyArray_STRIDE(py_arr, 0);
     int nd = PyArray_NDIM(py_arr);
+    // 0-d arrays have no strides
+    index_t stride = (index_t) (nd > 0 ? PyArray_STRIDE(py_arr, 0)
+                                       : PyArray_ITEMSIZE(py_arr));
 
     if (nd > 1)
     {
-- 
2.43.0


From 61650f670e657d27f73a980bf448a2eac073ca7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 118/140] fix: python: Node.generate with a schema string

---
 src/libs/conduit/python/conduit_python.cpp | 33 +++++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index dac5689..6bb05dd 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -5412,30 +5412,35 @@ PyConduit_Node_generate(PyConduit_Node* self,
     PyObject   *py_gen      = NULL;
     const char *schema = NULL;
 
-    if(PyArg_ParseTuple(args, "O", &py_gen))
+    if(!PyArg_ParseTuple(args, "O", &py_gen))
     {
-        if(!PyConduit_Generator_Check(py_gen))
+        return NULL;
+    }
+
+    try
+    {
+        if(PyConduit_Generator_Check(py_gen))
+        {
+            Generator *gen_ptr = ((PyConduit_Generator*)py_gen)->generator;
+            self->node->generate(*gen_ptr);
+        }
+        else if(PyString_Check(py_gen) && PyArg_ParseTuple(args, "s", &schema))
+        {
+            self->node->generate(std::string(schema));
+        }
+        else
         {
             PyErr_SetString(PyExc_TypeError,
                             "Node::generate() argument must be a "
                             "Conduit::Generator or a JSON schema string.");
             return NULL;
         }
-        
-         Generator *gen_ptr = ((PyConduit_Generator*)py_gen)->generator;
-         self->node->generate(*gen_ptr);
-    }
-    else if(PyArg_ParseTuple(args, "s", &schema))
-    {
-        self->node->generate(std::string(schema));
     }
-    else
+    catch(conduit::Error &e)
     {
-        PyErr_SetString(PyExc_TypeError,
-                        "Node::generate() argument must be a "
-                        "Conduit::Generator or a JSON schema string.");
+        PyErr_SetString(PyExc_IOError,
+                        e.message().c_str());
         return NULL;
-
     }
 
     Py_RETURN_NONE;
-- 
2.43.0


From 3e6ca1ff2de13ebf8838e893428f5ba452ab3e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:53:46 +0000
Subject: [PATCH 119/140] fix: python: errors of mmap, Generator.walk and
 Schema raise exceptions

---
 src/libs/conduit/python/conduit_python.cpp | 57 ++++++++++++++++++----
 1 file changed, 47 insertions(+), 10 deletions(-)

diff --git a/src/libs/conduit/python/conduit_python.cpp b/src/libs/conduit/python/conduit_python.cpp
index 6bb05dd..ff6ea14 100644
--- a/src/libs/conduit/python/conduit_python.cpp
+++ b/src/libs/conduit/python/conduit_python.cpp
@@ -3454,16 +3454,25 @@ PyConduit_Generator_walk(PyConduit_Generator *self,
         }
     }
     
-    if(py_node != NULL)
+    try
     {
-        Node *node_ptr = ((PyConduit_Node*)py_node)->node;
-        self->generator->walk(*node_ptr);
+        if(py_node != NULL)
+        {
+            Node *node_ptr = ((PyConduit_Node*)py_node)->node;
+            self->generator->walk(*node_ptr);
+        }
+
+        if(py_schema != NULL)
+        {
+            Schema *schema_ptr = ((PyConduit_Schema*)py_schema)->schema;
+            self->generator->walk(*schema_ptr);
+        }
     }
-    
-    if(py_schema != NULL)
+    catch(conduit::Error &e)
     {
-        Schema *schema_ptr = ((PyConduit_Schema*)py_schema)->schema;
-        self->generator->walk(*schema_ptr);
+        PyErr_SetString(PyExc_IOError,
+                        e.message().c_str());
+        return NULL;
     }
 
     Py_RETURN_NONE; 
@@ -3500,7 +3509,16 @@ PyConduit_Generator_walk_external(PyConduit_Generator *self,
 
 
     Node *node_ptr = ((PyConduit_Node*)py_node)->node;
-    self->generator->walk_external(*node_ptr);
+    try
+    {
+        self->generator->walk_external(*node_ptr);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_IOError,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE; 
 }
@@ -3673,8 +3691,18 @@ PyConduit_Schema_init(PyConduit_Schema* self,
              {
                  return (-1);
              }
-             self->schema = new Schema(cstr);
+             std::string schema_str(cstr);
              PyString_AsString_Cleanup(cstr);
+             try
+             {
+                 self->schema = new Schema(schema_str);
+             }
+             catch(conduit::Error &e)
+             {
+                 PyErr_SetString(PyExc_IOError,
+                                 e.message().c_str());
+                 return (-1);
+             }
          }
          else
          {
@@ -5638,7 +5666,16 @@ PyConduit_Node_mmap(PyConduit_Node* self,
         return NULL;
     }
 
-    self->node->mmap(std::string(ibase));
+    try
+    {
+        self->node->mmap(std::string(ibase));
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_IOError,
+                        e.message().c_str());
+        return NULL;
+    }
     Py_RETURN_NONE;
 }
 
-- 
2.43.0


From 210049222290f5c5946c9299a5384438eb02928a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:00 +0000
Subject: [PATCH 120/140] fix: Node::remove with an index out of range

---
 src/libs/conduit/conduit_node.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 3ec4628..0c3146c 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -14890,6 +14890,13 @@ Node::remove(index_t idx)
     // schema. b/c the child pointer uses the schema
     // to cleanup
 
+    if( idx < 0 || (size_t)idx >= m_children.size())
+    {
+        CONDUIT_ERROR("<Node::remove> Invalid index: " << idx
+                      << " (number_of_children = "
+                      << m_children.size() << ")");
+    }
+
     // remove the proper list entry
     delete m_children[(size_t)idx];
     m_schema->remove(idx);
-- 
2.43.0


From a1c8fb069babc68a1fba9abcef4be46c30374907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:56:00 +0000
Subject: [PATCH 121/140] fix: python: errors of blueprint functions raise
 exceptions

---
 ...duit_blueprint_mcarray_examples_python.cpp |  15 +-
 .../conduit_blueprint_mcarray_python.cpp      |  28 ++-
 ...conduit_blueprint_mesh_examples_python.cpp | 235 ++++++++++++++----
 .../python/conduit_blueprint_mesh_python.cpp  |  43 +++-
 ...onduit_blueprint_table_examples_python.cpp |  17 +-
 5 files changed, 271 insertions(+), 67 deletions(-)

diff --git a/src/libs/blueprint/python/conduit_blueprint_mcarray_examples_python.cpp b/src/libs/blueprint/python/conduit_blueprint_mcarray_examples_python.cpp
index f684958..b5cf860 100644
--- a/src/libs/blueprint/python/conduit_blueprint_mcarray_examples_python.cpp
+++ b/src/libs/blueprint/python/conduit_blueprint_mcarray_examples_python.cpp
@@ -96,9 +96,18 @@ PyBlueprint_mcarray_examples_xyz(PyObject *, //self
     
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     
-    blueprint::mcarray::examples::xyz(std::string(mcarray_type),
-                                      npts,
-                                      node);
+    try
+    {
+        blueprint::mcarray::examples::xyz(std::string(mcarray_type),
+                                          npts,
+                                          node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
diff --git a/src/libs/blueprint/python/conduit_blueprint_mcarray_python.cpp b/src/libs/blueprint/python/conduit_blueprint_mcarray_python.cpp
index ac557be..09ea5fc 100644
--- a/src/libs/blueprint/python/conduit_blueprint_mcarray_python.cpp
+++ b/src/libs/blueprint/python/conduit_blueprint_mcarray_python.cpp
@@ -230,7 +230,19 @@ PyBlueprint_mcarray_to_contiguous(PyObject *, //self
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     Node &dest = *PyConduit_Node_Get_Node_Ptr(py_dest);
 
-    if(blueprint::mcarray::to_contiguous(node,dest))
+    bool res = false;
+    try
+    {
+        res = blueprint::mcarray::to_contiguous(node,dest);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
+
+    if(res)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
@@ -291,7 +303,19 @@ PyBlueprint_mcarray_to_interleaved(PyObject *, //self
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     Node &dest = *PyConduit_Node_Get_Node_Ptr(py_dest);
 
-    if(blueprint::mcarray::to_interleaved(node,dest))
+    bool res = false;
+    try
+    {
+        res = blueprint::mcarray::to_interleaved(node,dest);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
+
+    if(res)
         Py_RETURN_TRUE;
     else
         Py_RETURN_FALSE;
diff --git a/src/libs/blueprint/python/conduit_blueprint_mesh_examples_python.cpp b/src/libs/blueprint/python/conduit_blueprint_mesh_examples_python.cpp
index 37f9dcb..501a0e6 100644
--- a/src/libs/blueprint/python/conduit_blueprint_mesh_examples_python.cpp
+++ b/src/libs/blueprint/python/conduit_blueprint_mesh_examples_python.cpp
@@ -99,15 +99,33 @@ PyBlueprint_mesh_examples_generate(PyObject *, //self
     // w/o opts 
     if(py_node_opts == NULL)
     {
-        blueprint::mesh::examples::generate(std::string(example_name),
-                                            node_res);
+        try
+        {
+            blueprint::mesh::examples::generate(std::string(example_name),
+                                                node_res);
+        }
+        catch(conduit::Error &e)
+        {
+            PyErr_SetString(PyExc_Exception,
+                            e.message().c_str());
+            return NULL;
+        }
     }
     else // w/ opts
     {
         Node &node_opts = *PyConduit_Node_Get_Node_Ptr(py_node_opts);
-        blueprint::mesh::examples::generate(std::string(example_name),
-                                            node_opts,
-                                            node_res);
+        try
+        {
+            blueprint::mesh::examples::generate(std::string(example_name),
+                                                node_opts,
+                                                node_res);
+        }
+        catch(conduit::Error &e)
+        {
+            PyErr_SetString(PyExc_Exception,
+                            e.message().c_str());
+            return NULL;
+        }
     }
 
     Py_RETURN_NONE;
@@ -159,12 +177,30 @@ PyBlueprint_mesh_examples_generate_default_options(PyObject *, //self
 
     if(example_name != NULL)
     {
-        blueprint::mesh::examples::generate_default_options(std::string(example_name),
-                                                            node_res);
+        try
+        {
+            blueprint::mesh::examples::generate_default_options(std::string(example_name),
+                                                                node_res);
+        }
+        catch(conduit::Error &e)
+        {
+            PyErr_SetString(PyExc_Exception,
+                            e.message().c_str());
+            return NULL;
+        }
     }
     else
     {
-        blueprint::mesh::examples::generate_default_options(node_res);
+        try
+        {
+            blueprint::mesh::examples::generate_default_options(node_res);
+        }
+        catch(conduit::Error &e)
+        {
+            PyErr_SetString(PyExc_Exception,
+                            e.message().c_str());
+            return NULL;
+        }
     }
     Py_RETURN_NONE;
 }
@@ -242,11 +278,20 @@ PyBlueprint_mesh_examples_basic(PyObject *, //self
     
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     
-    blueprint::mesh::examples::basic(std::string(mesh_type),
-                                     nx,
-                                     ny,
-                                     nz,
-                                     node);
+    try
+    {
+        blueprint::mesh::examples::basic(std::string(mesh_type),
+                                         nx,
+                                         ny,
+                                         nz,
+                                         node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -323,11 +368,20 @@ PyBlueprint_mesh_examples_braid(PyObject *, //self
     
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     
-    blueprint::mesh::examples::braid(std::string(mesh_type),
-                                     nx,
-                                     ny,
-                                     nz,
-                                     node);
+    try
+    {
+        blueprint::mesh::examples::braid(std::string(mesh_type),
+                                         nx,
+                                         ny,
+                                         nz,
+                                         node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -409,11 +463,20 @@ PyBlueprint_mesh_examples_julia(PyObject *, //self
     
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     
-    blueprint::mesh::examples::julia(nx,ny,
-                                     x_min,x_max,
-                                     y_min,y_max,
-                                     c_re,c_im,
-                                     node);
+    try
+    {
+        blueprint::mesh::examples::julia(nx,ny,
+                                         x_min,x_max,
+                                         y_min,y_max,
+                                         c_re,c_im,
+                                         node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -467,8 +530,17 @@ PyBlueprint_mesh_examples_spiral(PyObject *, //self
     
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     
-    blueprint::mesh::examples::spiral(ndoms,
-                                     node);
+    try
+    {
+        blueprint::mesh::examples::spiral(ndoms,
+                                         node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -543,10 +615,19 @@ PyBlueprint_mesh_examples_julia_nestsets_simple(PyObject *, //self
     
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
     
-    blueprint::mesh::examples::julia_nestsets_simple(x_min,x_max,
-                                                     y_min,y_max,
-                                                     c_re,c_im,
-                                                     node);
+    try
+    {
+        blueprint::mesh::examples::julia_nestsets_simple(x_min,x_max,
+                                                         y_min,y_max,
+                                                         c_re,c_im,
+                                                         node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -630,12 +711,21 @@ PyBlueprint_mesh_examples_julia_nestsets_complex(PyObject *, //self
 
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
 
-    blueprint::mesh::examples::julia_nestsets_complex(nx,ny,
-                                                      x_min,x_max,
-                                                      y_min,y_max,
-                                                      c_re,c_im,
-                                                      levels,
-                                                      node);
+    try
+    {
+        blueprint::mesh::examples::julia_nestsets_complex(nx,ny,
+                                                          x_min,x_max,
+                                                          y_min,y_max,
+                                                          c_re,c_im,
+                                                          levels,
+                                                          node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -704,10 +794,19 @@ PyBlueprint_mesh_examples_venn(PyObject *, //self
 
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
 
-    blueprint::mesh::examples::venn(std::string(matset_type),
-                                    nx,ny,
-                                    radius,
-                                    node);
+    try
+    {
+        blueprint::mesh::examples::venn(std::string(matset_type),
+                                        nx,ny,
+                                        radius,
+                                        node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -766,9 +865,18 @@ PyBlueprint_mesh_examples_polytess(PyObject *, //self
 
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
 
-    blueprint::mesh::examples::polytess(nlevels,
-                                        nz,
-                                        node);
+    try
+    {
+        blueprint::mesh::examples::polytess(nlevels,
+                                            nz,
+                                            node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -821,8 +929,17 @@ PyBlueprint_mesh_examples_polychain(PyObject *, //self
 
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
 
-    blueprint::mesh::examples::polychain(length,
-                                         node);
+    try
+    {
+        blueprint::mesh::examples::polychain(length,
+                                             node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -870,7 +987,16 @@ PyBlueprint_mesh_examples_polystar(PyObject *, //self
 
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
 
-    blueprint::mesh::examples::polystar(node);
+    try
+    {
+        blueprint::mesh::examples::polystar(node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -957,11 +1083,20 @@ PyBlueprint_mesh_examples_strided_structured(PyObject *, //self
     Node &node_desc = *PyConduit_Node_Get_Node_Ptr(py_node_desc);
     Node &node_dest = *PyConduit_Node_Get_Node_Ptr(py_node_dest);
 
-    blueprint::mesh::examples::strided_structured(node_desc,
-                                                  npts_x,
-                                                  npts_y,
-                                                  npts_z,
-                                                  node_dest);
+    try
+    {
+        blueprint::mesh::examples::strided_structured(node_desc,
+                                                      npts_x,
+                                                      npts_y,
+                                                      npts_z,
+                                                      node_dest);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
diff --git a/src/libs/blueprint/python/conduit_blueprint_mesh_python.cpp b/src/libs/blueprint/python/conduit_blueprint_mesh_python.cpp
index dc024a7..c8f0301 100644
--- a/src/libs/blueprint/python/conduit_blueprint_mesh_python.cpp
+++ b/src/libs/blueprint/python/conduit_blueprint_mesh_python.cpp
@@ -188,10 +188,19 @@ PyBlueprint_mesh_generate_index(PyObject *, //self
     Node &dest = *PyConduit_Node_Get_Node_Ptr(py_dest);
     
 
-    blueprint::mesh::generate_index(mesh,
-                                    std::string(ref_path),
-                                    num_domains,
-                                    dest);
+    try
+    {
+        blueprint::mesh::generate_index(mesh,
+                                        std::string(ref_path),
+                                        num_domains,
+                                        dest);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -270,9 +279,18 @@ PyBlueprint_mesh_partition(PyObject *, //self
     Node &options = *PyConduit_Node_Get_Node_Ptr(py_options);
     Node &output = *PyConduit_Node_Get_Node_Ptr(py_output);
 
-    blueprint::mesh::partition(mesh,
-                               options,
-                               output);
+    try
+    {
+        blueprint::mesh::partition(mesh,
+                                   options,
+                                   output);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
@@ -345,7 +363,16 @@ PyBlueprint_mesh_flatten(PyObject *, //self
     const Node &options = *PyConduit_Node_Get_Node_Ptr(py_options);
     Node &output = *PyConduit_Node_Get_Node_Ptr(py_output);
 
-    blueprint::mesh::flatten(mesh, options, output);
+    try
+    {
+        blueprint::mesh::flatten(mesh, options, output);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
diff --git a/src/libs/blueprint/python/conduit_blueprint_table_examples_python.cpp b/src/libs/blueprint/python/conduit_blueprint_table_examples_python.cpp
index 5f85c64..6d5a17f 100644
--- a/src/libs/blueprint/python/conduit_blueprint_table_examples_python.cpp
+++ b/src/libs/blueprint/python/conduit_blueprint_table_examples_python.cpp
@@ -98,10 +98,19 @@ PyBlueprint_table_examples_basic(PyObject *, //self
 
     Node &node = *PyConduit_Node_Get_Node_Ptr(py_node);
 
-    blueprint::table::examples::basic(nx,
-                                      ny,
-                                      nz,
-                                      node);
+    try
+    {
+        blueprint::table::examples::basic(nx,
+                                          ny,
+                                          nz,
+                                          node);
+    }
+    catch(conduit::Error &e)
+    {
+        PyErr_SetString(PyExc_Exception,
+                        e.message().c_str());
+        return NULL;
+    }
 
     Py_RETURN_NONE;
 }
-- 
2.43.0


From 591b5a924c2ed62881de0f6b55162f63f2ea32fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:11 +0000
Subject: [PATCH 122/140] fix: overlink files with field names that silo
 changes

---
 src/libs/relay/conduit_relay_io_silo.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index c2232f4..4fb39b7 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -5651,7 +5651,7 @@ write_var_attributes(DBfile *dbfile,
                 // data type: ATTR_INTEGER, ATTR_FLOAT
                 // 
                 // we cached this info earlier, just need to retrieve it
-                var_attr_values.push_back(n_type_dom_info["ovl_var_datatypes"][safe_varname].to_index_t());
+                var_attr_values.push_back(n_type_dom_info["ovl_var_datatypes"][var_name].to_index_t());
             };
 
             if (n_var["number_of_components"].to_int64() != 1)
-- 
2.43.0


From 1dd84e62393f217d2c344eb9ee5defdcaa8e6a22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:17:11 +0000
Subject: [PATCH 123/140] fix: overlink files with fewer files than domains

---
 src/libs/relay/conduit_relay_io_silo.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index 4fb39b7..576b18d 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -6573,9 +6573,10 @@ void CONDUIT_RELAY_API write_mesh(const Node &mesh,
                             if (write_overlink)
                             {
                                 file_name = conduit_fmt::format("domfile{:d}.silo", f);
-                                curr_path = conduit_fmt::format("domain{:d}/{}",
-                                                                domain_id,
-                                                                opts_out_mesh_name);
+                                // as in the one file per domain case, overlink
+                                // objects are not in a directory for the mesh
+                                curr_path = conduit_fmt::format("domain{:d}",
+                                                                domain_id);
                             }
                             else
                             {
-- 
2.43.0


From 9c9bee2625c76abbdbc7e6b763a98190ebcec2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:36:31 +0000
Subject: [PATCH 124/140] fix: define the conversion of const values to char

---
 src/libs/conduit/conduit_node.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index 0c3146c..c996584 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -12355,6 +12355,15 @@ Node::ConstValue::~ConstValue()
 // c style signed ints
 //---------------------------------------------------------------------------//
 
+//---------------------------------------------------------------------------//
+Node::ConstValue::operator char() const
+{
+    if(m_coerse)
+        return m_node->to_char();
+    else
+        return m_node->as_char();
+}
+
 //---------------------------------------------------------------------------//
 Node::ConstValue::operator signed char() const
 {
-- 
2.43.0


From 30844f7e777d162349b7fc40130dace6e7a77da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:58 +0000
Subject: [PATCH 125/140] fix: compact_to gives the children the allocator of
 the destination

---
 src/libs/conduit/conduit_node.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_node.cpp b/src/libs/conduit/conduit_node.cpp
index c996584..7194ce0 100644
--- a/src/libs/conduit/conduit_node.cpp
+++ b/src/libs/conduit/conduit_node.cpp
@@ -8667,7 +8667,7 @@ Node::compact_to(Node &n_dest) const
     uint8 *n_dest_data = (uint8*)n_dest.m_data;
     compact_to(n_dest_data,0);
     // need node structure
-    walk_schema(&n_dest,n_dest.m_schema,n_dest_data,m_allocator_id);
+    walk_schema(&n_dest,n_dest.m_schema,n_dest_data,n_dest.m_allocator_id);
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From 4d032994dee5e237f73777e119b42908bdc3e704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:45 +0000
Subject: [PATCH 126/140] fix: split_string and rsplit_string skip the whole
 separator

---
 src/libs/conduit/conduit_utils.cpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 01afc7d..0cb2371 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -461,8 +461,7 @@ split_string(const std::string &str,
     if (found != std::string::npos)
     {
         curr = str.substr(0,found);
-        if(found != str.size()-1)
-            next = str.substr(found+1,str.size()-(found-1));
+        next = str.substr(found + sep.size());
     }
     else
     {
@@ -514,8 +513,7 @@ rsplit_string(const std::string &str,
     if (found != std::string::npos)
     {
         next = str.substr(0,found);
-        if(found != str.size()-1)
-             curr = str.substr(found+1,str.size()-(found-1));
+        curr = str.substr(found + sep.size());
     }
     else
     {
-- 
2.43.0


From dee8beb80692b2af0d0d304f3efc52502e3237a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:45 +0000
Subject: [PATCH 127/140] fix: utils::format reads strided maps

---
 src/libs/conduit/conduit_utils.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 0cb2371..fd4ef10 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -1705,7 +1705,7 @@ format(const std::string &pattern,
             /* ints */
             case conduit::DataType::INT8_ID:
             {
-                int8 val = curr.as_int8_ptr()[map_index];
+                int8 val = curr.as_int8_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1719,7 +1719,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT16_ID:
             {
-                int16 val = curr.as_int16_ptr()[map_index];
+                int16 val = curr.as_int16_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1733,7 +1733,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT32_ID:
             {
-                int32 val = curr.as_int32_ptr()[map_index];
+                int32 val = curr.as_int32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1747,7 +1747,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::INT64_ID:
             {
-                int64 val = curr.as_int64_ptr()[map_index];
+                int64 val = curr.as_int64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1762,7 +1762,7 @@ format(const std::string &pattern,
             /* uints */
             case conduit::DataType::UINT8_ID:
             {
-                uint8 val = curr.as_uint8_ptr()[map_index];
+                uint8 val = curr.as_uint8_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1776,7 +1776,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT16_ID:
             {
-                uint16 val = curr.as_uint16_ptr()[map_index];
+                uint16 val = curr.as_uint16_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1790,7 +1790,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT32_ID:
             {
-                uint32 val = curr.as_uint32_ptr()[map_index];
+                uint32 val = curr.as_uint32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1804,7 +1804,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::UINT64_ID:
             {
-                uint64 val = curr.as_uint64_ptr()[map_index];
+                uint64 val = curr.as_uint64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1819,7 +1819,7 @@ format(const std::string &pattern,
             /* floats */
             case conduit::DataType::FLOAT32_ID:
             {
-                float32 val = curr.as_float32_ptr()[map_index];
+                float32 val = curr.as_float32_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
@@ -1833,7 +1833,7 @@ format(const std::string &pattern,
             }
             case conduit::DataType::FLOAT64_ID:
             {
-                float64 val = curr.as_float64_ptr()[map_index];
+                float64 val = curr.as_float64_array()[map_index];
                 if(is_obj)
                 {
                     store.push_back(conduit_fmt::arg(itr.name().c_str(),
-- 
2.43.0


From 43459e442bb48d39ba061df3e76995b0414e73cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:45 +0000
Subject: [PATCH 128/140] fix: list_directory_contents returns true for an
 empty directory

---
 src/libs/conduit/conduit_utils.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index fd4ef10..38d903f 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -765,6 +765,7 @@ list_directory_contents(const std::string &path,
                         bool ignore_dot)
 {
     contents.clear();
+    bool res = false;
     if(path.empty())
     {
         return false;
@@ -780,6 +781,7 @@ list_directory_contents(const std::string &path,
     // NOTE: Adapted from VisIt
     if(path == "My Computer")
     {
+        res = true;
         // Add the drives to the list.
         char buf[200];
         // DWORD bufLen = 200; unused
@@ -803,6 +805,7 @@ list_directory_contents(const std::string &path,
         HANDLE dirHandle = FindFirstFile(search_path.c_str(), &fd);
         if(dirHandle != INVALID_HANDLE_VALUE)
         {
+            res = true;
             // Iterate the contents of the directory using FindNextFile
             do
             {
@@ -828,6 +831,7 @@ list_directory_contents(const std::string &path,
     dir = opendir(path.c_str());
     if(dir)
     {
+        res = true;
         // Iterate the contents of the directory using ent
         while((ent = readdir(dir)) != NULL)
         {
@@ -847,7 +851,7 @@ list_directory_contents(const std::string &path,
         closedir(dir);
     }
 #endif
-    return !contents.empty();
+    return res;
 }
 
 //-----------------------------------------------------------------------------
-- 
2.43.0


From b3e220edb1d2d1884ad3d18435361f7685b35cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:04:45 +0000
Subject: [PATCH 129/140] fix: is_file and is_directory are false for sockets

---
 src/libs/conduit/conduit_utils.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/libs/conduit/conduit_utils.cpp b/src/libs/conduit/conduit_utils.cpp
index 38d903f..8617a0e 100644
--- a/src/libs/conduit/conduit_utils.cpp
+++ b/src/libs/conduit/conduit_utils.cpp
@@ -730,7 +730,7 @@ is_file(const std::string &path)
     struct stat path_stat;
     if(stat(path.c_str(), &path_stat) == 0)
     {
-        if(path_stat.st_mode & S_IFREG)
+        if((path_stat.st_mode & S_IFMT) == S_IFREG)
             res = true;
     }
     return res;
@@ -752,7 +752,7 @@ is_directory(const std::string &path)
     struct stat path_stat;
     if (stat(path.c_str(), &path_stat) == 0)
     {
-        if (path_stat.st_mode & S_IFDIR)
+        if ((path_stat.st_mode & S_IFMT) == S_IFDIR)
             res = true;
     }
     return res;
-- 
2.43.0


From cf02198d82cd1f28c1d29c089ec6ca19ca95df29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:21 +0000
Subject: [PATCH 130/140] fix: a strip made from a uniform coordset has
 elements

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index 90fa896..c62bde0 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -3967,7 +3967,8 @@ mesh::coordset::generate_strip(const Node& coordset,
 
     if (coord_type == "uniform")
     {
-        coordset_dest["dims/i"] = 1;
+        // dims count points: one element across needs two
+        coordset_dest["dims/i"] = 2;
         coordset_dest["dims/j"] = coordset["dims/i"];
 
         if (coordset.has_child("origin"))
-- 
2.43.0


From 469f1c82409928d49fffa14d67df40de2cf0dfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:21 +0000
Subject: [PATCH 131/140] fix: strip fields refer to the matset of the strip

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index c62bde0..ae8f897 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -6553,6 +6553,7 @@ mesh::field::generate_strip(Node& fields,
                         const std::string matset_name = newfields[newfieldname]["matset"].as_string();
                         const std::string newmatsetname = dest_toponame + "_" + matset_name;
                         matset_names[matset_name] = newmatsetname;
+                        newfields[newfieldname]["matset"] = newmatsetname;
                     }
                 }
                 else
-- 
2.43.0


From 031f2d53c7b4f39f434c26e9f22f80f4ea3cfc10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:05 +0000
Subject: [PATCH 132/140] fix: strips of explicit coordsets have two points
 across and quads

---
 src/libs/blueprint/conduit_blueprint_mesh.cpp | 33 +++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/src/libs/blueprint/conduit_blueprint_mesh.cpp b/src/libs/blueprint/conduit_blueprint_mesh.cpp
index ae8f897..8a23ed8 100644
--- a/src/libs/blueprint/conduit_blueprint_mesh.cpp
+++ b/src/libs/blueprint/conduit_blueprint_mesh.cpp
@@ -3983,6 +3983,23 @@ mesh::coordset::generate_strip(const Node& coordset,
             coordset_dest["spacing/dy"] = coordset["spacing/dx"];
         }
     }
+    else if (coord_type == "explicit")
+    {
+        // Two points across the strip for each point along it.
+        const float64_accessor src_vals = coordset["values/x"].as_float64_accessor();
+        const index_t npts = src_vals.number_of_elements();
+        coordset_dest["values/x"].set(DataType::float64(2 * npts));
+        coordset_dest["values/y"].set(DataType::float64(2 * npts));
+        float64* x_vals = coordset_dest["values/x"].value();
+        float64* y_vals = coordset_dest["values/y"].value();
+        for (index_t i = 0; i < npts; i++)
+        {
+            x_vals[2 * i] = 0.;
+            x_vals[2 * i + 1] = 1.;
+            y_vals[2 * i] = src_vals[i];
+            y_vals[2 * i + 1] = src_vals[i];
+        }
+    }
     else
     {
         coordset_dest["values/x"].set(DataType::float64(2));
@@ -4245,6 +4262,22 @@ mesh::topology::generate_strip(const Node& topo,
             destelts["dims/i"] = 1;
             destelts["dims/j"] = topoelts["dims/i"];
         }
+
+        if (topoelts.has_child("connectivity"))
+        {
+            // A quad for each line; see coordset::generate_strip for the points.
+            const index_t_accessor lines = topoelts["connectivity"].as_index_t_accessor();
+            std::vector<index_t> quads;
+            for (index_t i = 0; i + 1 < lines.number_of_elements(); i += 2)
+            {
+                quads.push_back(2 * lines[i]);
+                quads.push_back(2 * lines[i] + 1);
+                quads.push_back(2 * lines[i + 1] + 1);
+                quads.push_back(2 * lines[i + 1]);
+            }
+            destelts["shape"] = "quad";
+            destelts["connectivity"].set(quads);
+        }
     }
 }
 
-- 
2.43.0


From 67ef1f4ac520ebe4ea4d95a080196322aad3b6f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:50:05 +0000
Subject: [PATCH 133/140] fix: Silo files keep the logical origin of quad
 meshes

---
 src/libs/relay/conduit_relay_io_silo.cpp | 25 +++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_silo.cpp b/src/libs/relay/conduit_relay_io_silo.cpp
index 576b18d..25f5070 100644
--- a/src/libs/relay/conduit_relay_io_silo.cpp
+++ b/src/libs/relay/conduit_relay_io_silo.cpp
@@ -1275,19 +1275,19 @@ read_quadmesh_domain(DBquadmesh *quadmesh_ptr,
     topo_out["coordset"] = multimesh_name;
 
     // If the origin is not the default value, then we need to specify it
-    if (quadmesh_ptr->base_index[0] != 0 && 
-        quadmesh_ptr->base_index[1] != 0 && 
-        quadmesh_ptr->base_index[2] != 0)
+    if (quadmesh_ptr->base_index[0] != 0 || 
+        (ndims > 1 && quadmesh_ptr->base_index[1] != 0) || 
+        (ndims > 2 && quadmesh_ptr->base_index[2] != 0))
     {
         Node &origin = topo_out["elements"]["origin"];
         origin["i"] = quadmesh_ptr->base_index[0];
         if (ndims > 1)
         {
-            origin["i"] = quadmesh_ptr->base_index[1];
+            origin["j"] = quadmesh_ptr->base_index[1];
         }
         if (ndims > 2)
         {
-            origin["i"] = quadmesh_ptr->base_index[2];
+            origin["k"] = quadmesh_ptr->base_index[2];
         }
     }
 
@@ -4356,9 +4356,12 @@ void silo_write_quad_rect_mesh(DBfile *dbfile,
     int base_index[] = {0,0,0};
     if (n_topo.has_path("elements/origin"))
     {
-        base_index[0] = n_topo["elements/origin/i"].as_int();
-        base_index[1] = n_topo["elements/origin/j"].as_int();
-        base_index[2] = n_topo["elements/origin/k"].as_int();
+        base_index[0] = n_topo["elements/origin/i"].to_int();
+        base_index[1] = n_topo["elements/origin/j"].to_int();
+        if (ndims == 3)
+        {
+            base_index[2] = n_topo["elements/origin/k"].to_int();
+        }
 
         CONDUIT_CHECK_SILO_ERROR( DBAddOption(state_optlist,
                                               DBOPT_BASEINDEX,
@@ -4469,11 +4472,11 @@ void silo_write_structured_mesh(DBfile *dbfile,
     int base_index[] = {0,0,0};
     if (n_topo.has_path("elements/origin"))
     {
-        base_index[0] = n_topo["elements/origin/i"].as_int();
-        base_index[1] = n_topo["elements/origin/j"].as_int();
+        base_index[0] = n_topo["elements/origin/i"].to_int();
+        base_index[1] = n_topo["elements/origin/j"].to_int();
         if (ndims == 3)
         {
-            base_index[2] = n_topo["elements/origin/k"].as_int();
+            base_index[2] = n_topo["elements/origin/k"].to_int();
         }
         
 
-- 
2.43.0


From e7a538341e04237dc4c5d74bd0f0115972f9b8a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 134/140] fix: has_path answers for Sidre files without an
 index

---
 src/libs/relay/conduit_relay_io_handle_sidre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle_sidre.cpp b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
index 11d73ff..a0f8f3b 100644
--- a/src/libs/relay/conduit_relay_io_handle_sidre.cpp
+++ b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
@@ -462,7 +462,7 @@ SidreIOHandle::has_path(const std::string &path)
     else
     {
         // we use tree id zero for non index case
-        sidre_meta_tree_has_path(0,path);
+        res = sidre_meta_tree_has_path(0,path);
     }
 
     return res;
-- 
2.43.0


From 5556e9ea1e9df8d810b4927fab83b6a392a11bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 135/140] fix: reject the Sidre tree id one past the last

---
 src/libs/relay/conduit_relay_io_handle_sidre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle_sidre.cpp b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
index a0f8f3b..80686aa 100644
--- a/src/libs/relay/conduit_relay_io_handle_sidre.cpp
+++ b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
@@ -249,7 +249,7 @@ SidreIOHandle::read(const std::string &path,
             int tree_id = utils::string_to_value<int>(p_first);
 
             // make sure we have a valid tree_id
-            if(tree_id < 0 || tree_id > m_num_trees)
+            if(tree_id < 0 || tree_id >= m_num_trees)
             {
                 CONDUIT_ERROR("Cannot read from invalid Sidre tree id: "
                               << tree_id
-- 
2.43.0


From c07d81d31d7923bc1fddfeebe2420de050fe3a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 136/140] fix: %d in a Sidre pattern does not eat the text
 after it

---
 src/libs/relay/conduit_relay_io_handle_sidre.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_handle_sidre.cpp b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
index 80686aa..6e2bb9a 100644
--- a/src/libs/relay/conduit_relay_io_handle_sidre.cpp
+++ b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
@@ -528,7 +528,7 @@ SidreIOHandle::expand_pattern(const std::string pattern,
     {
         std::string res = pattern;
         res.replace(pattern_idx,
-                    4,
+                    2,
                     conduit_fmt::format("{:d}",idx));
         return res;
     }
-- 
2.43.0


From 1e87c634dd81332c2eb5c798a8a34c8e453d6dc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 137/140] fix: read Sidre views at the root of a tree

---
 src/libs/relay/conduit_relay_io_handle_sidre.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/libs/relay/conduit_relay_io_handle_sidre.cpp b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
index 6e2bb9a..3a03102 100644
--- a/src/libs/relay/conduit_relay_io_handle_sidre.cpp
+++ b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
@@ -1135,8 +1135,16 @@ SidreIOHandle::prepare_sidre_meta_tree(IOHandle &hnd,
     {
         // only read the group + view structure, not buffers or external
         // since those aren't meta data (they are real data!)
-        hnd.read( tree_prefix + "/sidre/groups",sidre_meta["groups"]);
-        // TODO - are there ever views at the root, I don't recall?
+        // (groups or views may be absent at the root)
+        if( hnd.has_path(tree_prefix + "/sidre/groups") )
+        {
+            hnd.read( tree_prefix + "/sidre/groups",sidre_meta["groups"]);
+        }
+
+        if( hnd.has_path(tree_prefix + "/sidre/views") )
+        {
+            hnd.read( tree_prefix + "/sidre/views",sidre_meta["views"]);
+        }
     }
     else // subtree read
     {
-- 
2.43.0


From e72db8f164193da0b293f1e31d8540db70a0614b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:11:27 +0000
Subject: [PATCH 138/140] fix: keep all domains of a mesh read from Sidre files

---
 src/libs/relay/conduit_relay_io_blueprint.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/libs/relay/conduit_relay_io_blueprint.cpp b/src/libs/relay/conduit_relay_io_blueprint.cpp
index e1e6684..06a3d0b 100644
--- a/src/libs/relay/conduit_relay_io_blueprint.cpp
+++ b/src/libs/relay/conduit_relay_io_blueprint.cpp
@@ -2189,7 +2189,11 @@ void read_mesh(const std::string &root_file_path,
         {
             oss.str("");
             oss << i << "/" << mesh_name;
-            hnd.read(oss.str(),mesh);
+            // each domain needs a node of its own
+            Node &mesh_out = num_domains > 1 ?
+                             mesh[conduit_fmt::format("domain_{:06d}",i)] :
+                             mesh;
+            hnd.read(oss.str(),mesh_out);
         }
     }
     else
-- 
2.43.0


From b95f92b8b30ec7d4108ec2bce6e0bdc8381c24f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:14:13 +0000
Subject: [PATCH 139/140] fix: the order of Sidre children does not depend on
 earlier reads

---
 src/libs/relay/conduit_relay_io_handle_sidre.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_handle_sidre.cpp b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
index 3a03102..5edfbb3 100644
--- a/src/libs/relay/conduit_relay_io_handle_sidre.cpp
+++ b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
@@ -1138,11 +1138,13 @@ SidreIOHandle::prepare_sidre_meta_tree(IOHandle &hnd,
         // (groups or views may be absent at the root)
         if( hnd.has_path(tree_prefix + "/sidre/groups") )
         {
+            sidre_meta["groups"].reset();
             hnd.read( tree_prefix + "/sidre/groups",sidre_meta["groups"]);
         }
 
         if( hnd.has_path(tree_prefix + "/sidre/views") )
         {
+            sidre_meta["views"].reset();
             hnd.read( tree_prefix + "/sidre/views",sidre_meta["views"]);
         }
     }
@@ -1166,6 +1168,9 @@ SidreIOHandle::prepare_sidre_meta_tree(IOHandle &hnd,
             if( hnd.has_path(tree_prefix + "sidre/" + sidre_mtree_group) )
             {
                 // we have a group, read the meta data
+                // drop what earlier reads cached of this group, so the
+                // order of its children is always the order in the file
+                sidre_meta[sidre_mtree_group].reset();
                 hnd.read(tree_prefix + "sidre/" + sidre_mtree_group,
                          sidre_meta[sidre_mtree_group]);
 
-- 
2.43.0


From 799d4beaa83945b6647b5ba96410b0b2a204d68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:16:27 +0000
Subject: [PATCH 140/140] fix: Sidre views keep their type when it is not the
 type of the buffer

---
 src/libs/relay/conduit_relay_io_handle_sidre.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/libs/relay/conduit_relay_io_handle_sidre.cpp b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
index 5edfbb3..2739f71 100644
--- a/src/libs/relay/conduit_relay_io_handle_sidre.cpp
+++ b/src/libs/relay/conduit_relay_io_handle_sidre.cpp
@@ -1018,7 +1018,10 @@ SidreIOHandle::load_sidre_view(Node &sidre_meta_view,
         // less elements than the entire buffer,
         // we need to read a subset of the hdf5 dataset
 
+        // (this also provides views with a type that differs from the
+        // type of the buffer)
         if(   !view_schema.is_compact() ||
+            ( view_schema.dtype().id() != buffer_schema.dtype().id() ) ||
             ( view_schema.dtype().number_of_elements() <
               buffer_schema.dtype().number_of_elements() )
           )
-- 
2.43.0

