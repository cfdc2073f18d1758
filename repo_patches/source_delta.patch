From 91b1eccb57e68815980905532a8ec2fe179165c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:54 +0000
Subject: [PATCH 01/62] fix: do not drop unrelated operations when simplifying
 a layout that contains an empty array

A zero-sized array with nothing pending before it made simplify() and
simplifyInit() shrink the result by two operations too many.
---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index e8272f2..3468a7d 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -194,7 +194,7 @@ MemoryLayout::const_iterator MemoryLayout::simplifyInit(const_iterator it, const
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.init_ops.resize(content_i - 4);
+                simplified.init_ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
@@ -312,7 +312,7 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
             else if (added_ops == 0)
             {
                 // Void all the modifications we've made so far
-                simplified.ops.resize(content_i - 4);
+                simplified.ops.resize(content_i - (current_op_count ? 4 : 2));
             }
             else
             {
-- 
2.43.0


From 55f4a5898ef618a74a1e4efb67502acbe18a87d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 02/62] fix: handle trailing padding and empty arrays in
 CompileEndianSwapVisitor

Nested compounds with trailing padding (as field or as array element) were
swapped at the wrong offset, and applying a compiled empty array was using an
uninitialized iterator.
---
 typelib/endianness.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/typelib/endianness.cc b/typelib/endianness.cc
index 2f148f1..8a5a001 100644
--- a/typelib/endianness.cc
+++ b/typelib/endianness.cc
@@ -62,6 +62,10 @@ namespace Typelib {
     { throw UnsupportedEndianSwap("pointers"); }
     bool CompileEndianSwapVisitor::visit_ (Array const& type)
     {
+        // Nothing to swap in an empty array
+        if (type.getSize() == 0)
+            return true;
+
         if (type.getIndirection().getCategory() == Type::Array)
         {
             size_t current_size = m_compiled.size();
@@ -114,6 +118,12 @@ namespace Typelib {
             dispatch(it->getType());
             m_output_index = new_index + it->getType().getSize();
         }
+
+        // Account for the trailing padding: there might be something after this
+        // compound (other fields of the parent compound, next array element)
+        size_t end_index = base_index + type.getSize();
+        if (m_output_index < end_index)
+            skip(end_index - m_output_index);
         return true;
     }
 
-- 
2.43.0


From 17ea3d069e0c6c7bf7dd60cb084d270a937056a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:55 +0000
Subject: [PATCH 03/62] fix: output the column of opaque fields in CSV lines

LineVisitor's handler did not override ValueVisitor's, so that lines had fewer
columns than the header.
---
 typelib/csvoutput.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index d7b4f45..4929288 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -95,7 +95,7 @@ namespace
             return true;
         }
         using ValueVisitor::visit_;
-        bool visit_ (Value value, OpaqueType const& type)
+        bool visit_ (Value const& value, OpaqueType const& type)
         {
             display("<" + type.getName() + ">");
             return true;
-- 
2.43.0


From ee2298033bcbcb3a5d0e8cb972c1fb46d097f595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 04/62] fix: reject element counts that overflow the byte size
 in Vector::resize

A count read from a marshalled stream could wrap around once multiplied by the
element size, leading to out of bounds accesses in load().
---
 lang/csupport/containers.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index b537173..4efba02 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -99,6 +99,10 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     size_t old_size       = getElementCount(ptr);
     size_t new_raw_size   = new_size * element_size;
 
+    // new_size might come from a marshalled stream, do not let it overflow
+    if (element_size && new_size > ptr->max_size() / element_size)
+        throw std::length_error("requested size for " + getName() + " is too big");
+
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
 
-- 
2.43.0


From 23d170421824d24658d35e9afb45614560c979d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:34 +0000
Subject: [PATCH 05/62] fix: marshal vectors properly with layouts that do not
 merge padding and data

Vector::dump and load were assuming that the marshalling code of a 'memcpy'
element is a single operation, which is true only for merged layouts.
---
 lang/csupport/containers.cc | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 4efba02..dd63605 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -301,6 +301,21 @@ void Vector::delete_if_impl(void* ptr, DeleteIfPredicate& pred) const
     }
 }
 
+/** Tests if the given marshalling code copies whole elements in one block
+ *
+ * This depends on the layout that is used to dump/load: an element without any
+ * container might still be marshalled piece by piece if the layout does not
+ * merge padding bytes and data
+ */
+static bool isBlockMemcpy(size_t element_size,
+        Container::MarshalOps::const_iterator begin, Container::MarshalOps::const_iterator end)
+{
+    return (end - begin > 2
+        && *begin == MemLayout::FLAG_MEMCPY
+        && *(begin + 1) == element_size
+        && *(begin + 2) == MemLayout::FLAG_END);
+}
+
 Container::MarshalOps::const_iterator Vector::dump(
         void const* container_ptr, size_t element_count, OutputStream& stream,
         MarshalOps::const_iterator const begin, MarshalOps::const_iterator const end) const
@@ -309,7 +324,7 @@ Container::MarshalOps::const_iterator Vector::dump(
         reinterpret_cast< std::vector<uint8_t> const* >(container_ptr);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isBlockMemcpy(getIndirection().getSize(), begin, end))
     {
         // optimize a bit: do a huge memcpy if possible
         size_t size       = *(++it) * element_count;
@@ -343,7 +358,7 @@ Container::MarshalOps::const_iterator Vector::load(
     resize(vector_ptr, element_count);
 
     MarshalOps::const_iterator it = begin;
-    if (isElementMemcpy())
+    if (isBlockMemcpy(element_size, begin, end))
     {
         size_t size       = *(++it) * element_count;
         stream.read(&(*vector_ptr)[0], size);
-- 
2.43.0


From b71190e5eb544b2da4a144784c425bd060b8caf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:53 +0000
Subject: [PATCH 06/62] fix: clear the target container when loading an empty
 one

load() was keeping the elements of the target value when the marshalled
container is empty.
---
 typelib/value_ops.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 104f4cb..031486a 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -172,7 +172,10 @@ boost::tuple<size_t, MemoryLayout::const_iterator> ValueOps::load(
                 boost::uint64_t element_count;
                 stream.read(reinterpret_cast< boost::uint8_t* >(&element_count), sizeof( boost::uint64_t ));
                 if (element_count == 0)
+                {
+                    type->clear(container_ptr);
                     it = MemoryLayout::skipBlock(++it, end);
+                }
                 else
                 {
                     it = type->load(container_ptr, element_count, stream, ++it, end);
-- 
2.43.0


From 969c27f991263a6e92aec80f2a8b8dfbfbd69885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 07/62] fix: honor accept_pointers and accept_opaques inside
 arrays and containers

The flags were not forwarded to the element type, so that e.g. comparing
values that have an array of pointers was throwing NoLayout.
---
 typelib/memory_layout.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 3468a7d..7593d0f 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -571,7 +571,7 @@ bool MemLayout::Visitor::visit_ (Enum    const& type)
 bool MemLayout::Visitor::visit_ (Array   const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor array_visitor(subops);
+    MemLayout::Visitor array_visitor(subops, accept_pointers, accept_opaques);
     array_visitor.apply(type.getIndirection());
     ops.pushArray(type, subops);
     return true;
@@ -579,7 +579,7 @@ bool MemLayout::Visitor::visit_ (Array   const& type)
 bool MemLayout::Visitor::visit_ (Container const& type)
 {
     MemoryLayout subops;
-    MemLayout::Visitor container_visitor(subops);
+    MemLayout::Visitor container_visitor(subops, accept_pointers, accept_opaques);
     container_visitor.apply(type.getIndirection());
     ops.pushContainer(type, subops);
     return true;
-- 
2.43.0


From 988f69edbd7fe7c13ec89de0d469167ff14a509e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:54 +0000
Subject: [PATCH 08/62] fix: keep the trailing skips in layouts when asked to

simplify() was dropping the byte count of the trailing skips even with
remove_trailing_skips set to false.
---
 typelib/memory_layout.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 7593d0f..6324c5d 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -359,7 +359,9 @@ MemoryLayout::const_iterator MemoryLayout::simplify(bool merge_skip_copy, bool r
 
     if (current_op_count)
     {
-        if (!remove_trailing_skips || current_op != FLAG_SKIP || depth > 0)
+        if (!remove_trailing_skips)
+            simplified.pushGenericOp(current_op, current_op_count);
+        else if (current_op != FLAG_SKIP || depth > 0)
             simplified.pushGenericOp(current_op, current_op_count - current_skip_count);
     }
 
-- 
2.43.0


From 4cd1b471c11ae11c07363390e780abb6fa455bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:22 +0000
Subject: [PATCH 09/62] fix: handle empty arrays in init, zero, destroy, copy
 and compare

Arrays of zero elements whose element cannot be reduced to a single memcpy or
skip operation (containers, opaques mixed with data, enums for init) made these
operations throw, as they never stepped over the element block.
---
 typelib/memory_layout.cc | 4 ++++
 typelib/value_ops.cc     | 8 ++++++++
 2 files changed, 12 insertions(+)

diff --git a/typelib/memory_layout.cc b/typelib/memory_layout.cc
index 6324c5d..17e004c 100644
--- a/typelib/memory_layout.cc
+++ b/typelib/memory_layout.cc
@@ -98,6 +98,10 @@ void MemoryLayout::pushInitEnd()
 
 void MemoryLayout::pushInitRepeat(size_t dimension, MemoryLayout const& array_ops)
 {
+    // Nothing to initialize in an empty array
+    if (dimension == 0)
+        return;
+
     pushInitGenericOp(FLAG_INIT_REPEAT, dimension);
     init_ops.insert(init_ops.end(), array_ops.init_begin(), array_ops.init_end());
     pushInitEnd();
diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 031486a..787f9fe 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -315,6 +315,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = zero(buffer, element_it, end);
 
@@ -420,6 +422,8 @@ boost::tuple< boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(buffer, it) = destroy(buffer, element_it, end);
 
@@ -477,6 +481,8 @@ boost::tuple< boost::uint8_t*, boost::uint8_t*, MemoryLayout::const_iterator>
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                     boost::tie(out_buffer, in_buffer, it) =
                         copy(out_buffer, in_buffer, element_it, end);
@@ -537,6 +543,8 @@ boost::tuple<bool, boost::uint8_t*, boost::uint8_t*, MemoryLayout::const_iterato
             {
                 size_t element_count = *(++it);
                 MemoryLayout::const_iterator element_it = ++it;
+                if (element_count == 0)
+                    it = MemoryLayout::skipBlock(element_it, end);
                 for (size_t i = 0; i < element_count; ++i)
                 {
                     bool is_equal;
-- 
2.43.0


From 2820b21a936b15a2706e39ffd758797cc96dfadf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 10/62] fix: allow a type to match two different types with the
 same definition in isSame and canCastTo

---
 typelib/typemodel.cc | 24 +++++++++++++-----------
 typelib/typemodel.hh |  8 ++++----
 2 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index bfe0c67..a9db94c 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -78,18 +78,20 @@ namespace Typelib
         if (&left == &right)
             return true;
 
-        RecursionStack::const_iterator it = stack.find(&left);
-        if (it != stack.end())
+        /** If we are already comparing (or have already compared) left and
+         * right, there is nothing more to be checked. Note that left might well
+         * have been compared to another type than right, as two different types
+         * can have the same definition
+         */
+        std::pair<RecursionStack::const_iterator, RecursionStack::const_iterator>
+            range = stack.equal_range(&left);
+        for (; range.first != range.second; ++range.first)
         {
-            /** One type cannot be equal to two different types. So either we
-             * are already comparing left and right and it is fine (return
-             * true). Or we are comparing it with a different type and that
-             * means the two types are different (return false)
-             */
-            return (&right == it->second);
+            if (&right == range.first->second)
+                return true;
         }
 
-        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) ).first;
+        RecursionStack::iterator new_it = stack.insert( make_pair(&left, &right) );
         try {
             return left.do_compare(right, equality, stack);
         }
@@ -237,7 +239,7 @@ namespace Typelib
             m_values[it->first].insert(it->second.begin(), it->second.end());
     }
 
-    bool OpaqueType::do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+    bool OpaqueType::do_compare(Type const& other, bool equality, RecursionStack& stack) const
     { return Type::do_compare(other, equality, stack) && getName() == other.getName(); }
 
     Numeric::Numeric(std::string const& name, size_t size, NumericCategory category)
@@ -379,7 +381,7 @@ namespace Typelib
     Type* Compound::do_merge(Registry& registry, RecursionStack& stack) const
     {
         unique_ptr<Compound> result(new Compound(getName()));
-        RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get())).first;
+        RecursionStack::iterator onStackIter = stack.insert(make_pair(this, result.get()));
 
         try  {
             for (FieldList::const_iterator it = m_fields.begin(); it != m_fields.end(); ++it)
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 91d6e15..3b71bc5 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -165,7 +165,7 @@ namespace Typelib
         Type const& merge(Registry& registry) const;
 
         /** Foreign => local mapping for merge() and isSame() */
-        typedef std::map<Type const*, Type const*> RecursionStack;
+        typedef std::multimap<Type const*, Type const*> RecursionStack;
 
         /** Base merge method. The default implementation should be fine for
          * most types.
@@ -220,7 +220,7 @@ namespace Typelib
          * The base definition compares the name, size and category of the
          * types.
          */
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
 
         /** Called by do_compare to compare +left+ to +right+. This method takes
          * into account potential loops in the recursion
@@ -256,7 +256,7 @@ namespace Typelib
     public:
         NullType(std::string const& name) : Type(name, 0, Type::NullType ) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const
         { return other.getName() == getName(); }
 
     private:
@@ -272,7 +272,7 @@ namespace Typelib
     public:
         OpaqueType(std::string const& name, size_t size) : Type(name, size, Type::Opaque) {}
         virtual std::set<Type const*> dependsOn() const { return std::set<Type const*>(); }
-        virtual bool do_compare(Type const& other, bool equality, std::map<Type const*, Type const*>& stack) const;
+        virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
         virtual Type* do_merge(Registry& registry, RecursionStack& stack) const { return new OpaqueType(*this); }
     };
 
-- 
2.43.0


From 6080cec91c3ddedf25724a8712f1fd417d9e958b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 11/62] fix: always check for equality of array and container
 elements in canCastTo

---
 typelib/typemodel.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index a9db94c..434f4c4 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -541,7 +541,14 @@ namespace Typelib
             return false;
 
         Array const& array = static_cast<Array const&>(type);
-        return (m_dimension == array.m_dimension) && Indirect::do_compare(type, true, stack);
+        if (m_dimension != array.m_dimension)
+            return false;
+        if (equality)
+            return Indirect::do_compare(type, true, stack);
+
+        // The elements must be equal, what is on the stack might only be castable
+        RecursionStack element_stack;
+        return Indirect::do_compare(type, true, element_stack);
     }
     Type* Array::do_merge(Registry& registry, RecursionStack& stack) const
     {
@@ -612,7 +619,14 @@ namespace Typelib
             return false;
 
         Container const& container = static_cast<Container const&>(other);
-        return (getFactory() == container.getFactory()) && Indirect::do_compare(other, true, stack);
+        if (getFactory() != container.getFactory())
+            return false;
+        if (equality)
+            return Indirect::do_compare(other, true, stack);
+
+        // The elements must be equal, what is on the stack might only be castable
+        RecursionStack element_stack;
+        return Indirect::do_compare(other, true, element_stack);
     }
 
     Type* Container::do_merge(Registry& registry, RecursionStack& stack) const
-- 
2.43.0


From 2de3e7f4fa5d8d3944ac5ff977bb5b171129cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 12/62] fix: do not follow pointers and containers when
 resizing types

---
 typelib/typemodel.cc | 8 +-------
 typelib/typemodel.hh | 1 -
 2 files changed, 1 insertion(+), 8 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 434f4c4..98f7e8a 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -288,12 +288,6 @@ namespace Typelib
         }
     }
 
-    bool Indirect::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
-    {
-        bool result = Type::do_resize(registry, new_sizes);
-        return registry.get_(getIndirection()).resize(registry, new_sizes) || result;
-    }
-
     Compound::Compound(std::string const& name)
         : Type(name, 0, Type::Compound) {}
 
@@ -560,7 +554,7 @@ namespace Typelib
 
     bool Array::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
-        if (!Indirect::do_resize(registry, new_sizes))
+        if (!registry.get_(getIndirection()).resize(registry, new_sizes))
             return false;
 
         setSize(getDimension() * getIndirection().getSize());
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index 3b71bc5..bda1658 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -452,7 +452,6 @@ namespace Typelib
 
     protected:
         virtual bool do_compare(Type const& other, bool equality, RecursionStack& stack) const;
-        virtual bool do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes);
 
         /** Overloaded in subclasses to return the name of this type based on
          * the name of the indirection
-- 
2.43.0


From 798a6055ce8b98d31d43b85d7d8fb9db2e96e345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 13/62] fix: do not move fields twice when the size changes of
 fields compensate each other

---
 typelib/typemodel.cc | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index 98f7e8a..f6a5fd2 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -400,6 +400,7 @@ namespace Typelib
     bool Compound::do_resize(Registry& registry, std::map<std::string, std::pair<size_t, size_t> >& new_sizes)
     {
         size_t global_offset = 0;
+        bool modified = false;
         for (FieldList::iterator it = m_fields.begin(); it != m_fields.end(); ++it)
         {
             it->setOffset(it->getOffset() + global_offset);
@@ -409,14 +410,11 @@ namespace Typelib
             {
                 size_t old_size = new_sizes.find(field_type.getName())->second.first;
                 global_offset += field_type.getSize() - old_size;
+                modified = true;
             }
         }
-        if (global_offset != 0)
-        {
-            setSize(getSize() + global_offset);
-            return true;
-        }
-        return false;
+        setSize(getSize() + global_offset);
+        return modified;
     }
 
     void Compound::mergeMetaData(Type const& other) const
-- 
2.43.0


From a2d5580e187f5c8a667eb127925ea0a2a7ff440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 14/62] fix: throw on unknown type names in Registry::resize

---
 typelib/registry.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 3ed6c94..600fb14 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -578,7 +578,11 @@ namespace Typelib
         for (std::map<std::string, size_t>::const_iterator it = new_sizes.begin();
                 it != new_sizes.end(); ++it)
         {
-            Type& t = *get_(it->first);
+            Type* type = get_(it->first);
+            if (!type)
+                throw Undefined(it->first);
+
+            Type& t = *type;
             sizes.insert(make_pair(t.getName(),
                         make_pair(t.getSize(), it->second)
                         ));
-- 
2.43.0


From 1c0e378f47ee54565c6b8827c01e5718c03e5569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 15/62] fix: resolve relative names to the innermost namespace
 regardless of the order of definition

---
 typelib/registry.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 600fb14..71d13a7 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -352,9 +352,17 @@ namespace Typelib
 
             string cur_name  = getRelativeName(name, cur_space);
 
-            // Check if there is already a type with the same relative name
-            TypeMap::iterator it = m_current.find(cur_name);
-            if (it == m_current.end() || !nameSort(it->second.type->getName(), name))
+            // Types from the more nested namespaces have priority over this one
+            bool shadowed = false;
+            std::string inner_space = cur_space;
+            for (NameTokenizer::const_iterator inner_it = ns_it;
+                    inner_it != tokens.end() && !shadowed; ++inner_it)
+            {
+                inner_space += *inner_it + NamespaceMarkString;
+                shadowed = m_global.count(inner_space + cur_name);
+            }
+
+            if (!shadowed)
             {
                 m_current.erase(cur_name);
                 m_current.insert(make_pair(cur_name, regtype));
-- 
2.43.0


From 7bcd189dd46b54433f0d0dd25a345ed2b90ed38e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 16/62] fix: resolve the relative names that were shadowed by
 removed types

---
 typelib/registry.cc | 19 +++++++++++++++++++
 typelib/registry.hh |  5 +++++
 2 files changed, 24 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 71d13a7..69c71b5 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -59,6 +59,22 @@ namespace Typelib
     }
     Registry::~Registry() { clear(); }
 
+    void Registry::importMissingNames()
+    {
+        std::list<std::string> spaces;
+        std::string cur_space = NamespaceMarkString;
+        spaces.push_front(cur_space);
+        NameTokenizer tokens( m_namespace );
+        for (NameTokenizer::const_iterator ns_it = tokens.begin(); ns_it != tokens.end(); ++ns_it)
+        {
+            cur_space += *ns_it + NamespaceMarkString;
+            spaces.push_front(cur_space);
+        }
+
+        for (std::list<std::string>::const_iterator it = spaces.begin(); it != spaces.end(); ++it)
+            importNamespace(*it);
+    }
+
     void Registry::updateCurrentNameMap()
     {
         m_current.clear();
@@ -670,6 +686,9 @@ namespace Typelib
             else ++current_it;
         }
 
+        // Names that were shadowed by the removed types are now visible
+        importMissingNames();
+
         return types;
     }
 
diff --git a/typelib/registry.hh b/typelib/registry.hh
index 79411c8..2c8e456 100644
--- a/typelib/registry.hh
+++ b/typelib/registry.hh
@@ -121,6 +121,11 @@ namespace Typelib
          */
         void updateCurrentNameMap();
 
+        /** Makes the relative names that are not in +m_current+ resolve to the
+         * types of the current default namespace
+         */
+        void importMissingNames();
+
     public:
         typedef RegistryIterator Iterator;
 
-- 
2.43.0


From 4f5962950867c5dd7e7029fb1da3580f1358096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 17/62] fix: keep the attributes of aliases apart from the ones
 of the aliased type when copying registries

---
 typelib/registry.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 69c71b5..82d7aa6 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -202,7 +202,11 @@ namespace Typelib
                 continue;
 
             string source_id = other_it.getSource();
-            if (!source_id.empty() && it.getSource().empty())
+            if (source_id.empty() || !it.getSource().empty())
+                continue;
+            if (it.isAlias())
+                m_global.find(it.getName())->second.source_id = source_id;
+            else
                 setSourceID(*it, source_id);
         }
     }
@@ -223,7 +227,7 @@ namespace Typelib
             {
                 if (!it.isAlias()) continue;
                 if (result->has(it->getName(), false))
-                    result->alias(it->getName(), it.getName());
+                    result->alias(it->getName(), it.getName(), it.isPersistent(), it.getSource());
             }
         }
 
-- 
2.43.0


From a4ecfbf60b39f6b2c6c9c25dc541f125b4d4b047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 18/62] fix: compare all types and their names in
 Registry::isSame

---
 typelib/registry.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index 82d7aa6..b472f31 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -590,9 +590,11 @@ namespace Typelib
 
         while (left_it != left_end)
         {
+            if (left_it->first != right_it->first)
+                return false;
             if (!left_it->second.type->isSame(*right_it->second.type))
                 return false;
-            left_it++; left_end++;
+            left_it++; right_it++;
         }
         return true;
     }
-- 
2.43.0


From a15fbd2c71d3c9805ddaf3162b35b19b40b7195c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 19/62] fix: do not throw on malformed names in Registry::has
 and Registry::build

---
 typelib/typebuilder.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index bcec4a1..84285b3 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -167,6 +167,7 @@ namespace Typelib
         TypeSpec spec;
         try { spec = parse(registry, full_name); }
         catch(Undefined&) { return NULL; }
+        catch(InvalidIndirectName&) { return NULL; }
 
         return &build(registry, spec, size);
     }
@@ -176,6 +177,7 @@ namespace Typelib
         TypeSpec spec;
         try { spec = parse(registry, full_name); }
         catch(Undefined&) { return NULL; }
+        catch(InvalidIndirectName&) { return NULL; }
         return spec.first;
     }
 
-- 
2.43.0


From 95e579c966e70ea438de3f251044cda274af4a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 20/62] fix: reject invalid array dimensions in type names

---
 typelib/typebuilder.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/typelib/typebuilder.cc b/typelib/typebuilder.cc
index 84285b3..1e6c823 100644
--- a/typelib/typebuilder.cc
+++ b/typelib/typebuilder.cc
@@ -130,7 +130,12 @@ namespace Typelib
                 if (start == string::npos)
                     throw InvalidIndirectName(full_name + " is not a valid type name: array definition missing opening bracket at character " + boost::lexical_cast<std::string>(end));
                 new_mod.category = Type::Array;
-                new_mod.size = atoi(&full_name[start] + 1);
+                string dimension(full_name, start + 1, end - start - 1);
+                if (dimension.empty() || dimension.find_first_not_of("0123456789") != string::npos)
+                    throw InvalidIndirectName(full_name + " is not a valid type name: invalid array dimension '" + dimension + "'");
+                try { new_mod.size = boost::lexical_cast<int>(dimension); }
+                catch(boost::bad_lexical_cast&)
+                { throw InvalidIndirectName(full_name + " is not a valid type name: invalid array dimension '" + dimension + "'"); }
                 end = start - 1;
                 modlist.push_front(new_mod);
             }
-- 
2.43.0


From 2043ad03db9dc8486114f956fec40958277df9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 21/62] fix: reject type names with trailing characters after a
 stray template delimiter

---
 typelib/typename.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b4a8bc6..fdcee54 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -177,7 +177,9 @@ namespace Typelib
     {
         if (name.empty())
             return false;
-        return isValidTypename(name, 0, absolute, false).first;
+        pair<bool, int> result = isValidTypename(name, 0, absolute, false);
+        // the whole name has to be valid, not only the part up to a ',' or '>'
+        return result.first && result.second == static_cast<int>(name.length());
     }
 
     bool isValidNamespace(const string& name, bool absolute)
-- 
2.43.0


From ea56c97447a705c37c73fe8d233528c00d96df19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 22/62] fix: accept the names of pointers to arrays and to
 template types

---
 typelib/typename.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index fdcee54..3484797 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -124,10 +124,14 @@ namespace Typelib
                         return make_pair(false, i);
                 }
 
+                // skip pointer modifiers
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
-                    if (s[i + 1] == '/')
+                    if (s[i] != '*' && s[i + 1] == '/')
                         i++;
                     else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
                         return make_pair(false, i + 1);
@@ -151,12 +155,16 @@ namespace Typelib
                 if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
                     return make_pair(false, start_pos);
 
+                // skip pointer modifiers
+                while (i + 1 < s.length() && s[i + 1] == '*')
+                    i++;
+
                 start_pos = i + 1;
                 if (i + 1 < s.length())
                 {
-                    if (s[i + 1] == '/')
+                    if (s[i] != '*' && s[i + 1] == '/')
                         i++;
-                    else if (s[i + 1] != '>' && s[i + 1] != '[')
+                    else if (s[i + 1] != '>' && s[i + 1] != '[' && s[i + 1] != ',')
                         return make_pair(false, i + 1);
                 }
             }
-- 
2.43.0


From 68592f38d09e4f61363936c07eeda75af9d9f3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:42 +0000
Subject: [PATCH 23/62] fix: reject type names with other characters after
 pointer modifiers

---
 typelib/typename.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 3484797..89173ae 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -59,7 +59,12 @@ namespace Typelib
 
         size_t modifiers = s.find_first_of("*[");
         if (modifiers != string::npos)
+        {
+            // only modifiers can follow a modifier
+            if (s.find_first_not_of("* ", modifiers) != string::npos)
+                return false;
             return isValidIdentifier(string(s, pos, modifiers - pos));
+        }
         else
             return isValidIdentifier(string(s, pos));
 
-- 
2.43.0


From 604ab76d93540f6e6250c933c74c9db6e329b0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:51 +0000
Subject: [PATCH 24/62] fix: do not leave types that refer to a deleted one in
 the registry when a merge fails

---
 typelib/typemodel.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/typelib/typemodel.cc b/typelib/typemodel.cc
index f6a5fd2..0988642 100644
--- a/typelib/typemodel.cc
+++ b/typelib/typemodel.cc
@@ -383,6 +383,12 @@ namespace Typelib
         }
         catch(...) {
             stack.erase(onStackIter);
+            // If this type is recursive, some types that refer to the one we
+            // are about to delete might already be in the registry
+            std::set<Type*> dependents = registry.remove(*result);
+            dependents.erase(result.get());
+            for (std::set<Type*>::iterator it = dependents.begin(); it != dependents.end(); ++it)
+                delete *it;
             throw;
         }
 
-- 
2.43.0


From a8fbba7c24b6aef1177f389458d6687f2d733a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:36 +0000
Subject: [PATCH 25/62] fix: reject type names with malformed array modifiers

---
 typelib/typename.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index 89173ae..b1f2d75 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -101,6 +101,7 @@ namespace Typelib
 
     static pair<bool, int> isValidTypename(std::string const& s, int pos, bool absolute, bool accept_integers)
     {
+        int first_pos = pos;
         unsigned int start_pos = pos;
         if (s[pos] == '/')
             pos++;
@@ -144,21 +145,18 @@ namespace Typelib
             }
             else if (s[i] == '[')
             {
+                // there must be something this is an array of
+                if (i == static_cast<unsigned int>(first_pos))
+                    return make_pair(false, i);
                 // start_pos == i if we are parsing an array of templates
                 if (start_pos != i && !isValidTypeBasename(string(s, start_pos, i - start_pos), absolute, accept_integers))
                     return make_pair(false, i);
 
-                if (i + 1 == s.length())
+                // the whole modifier has to be '[', a dimension and ']'
+                size_t closing = s.find_first_not_of("0123456789", i + 1);
+                if (closing == string::npos || closing == i + 1 || s[closing] != ']')
                     return make_pair(false, i);
-
-                start_pos = i + 1;
-            }
-            else if (s[i] == ']')
-            {
-                if (start_pos == i)
-                    return make_pair(false, start_pos);
-                if (string(s, start_pos, i - start_pos).find_first_not_of("0123456789") != string::npos)
-                    return make_pair(false, start_pos);
+                i = closing;
 
                 // skip pointer modifiers
                 while (i + 1 < s.length() && s[i + 1] == '*')
@@ -173,6 +171,8 @@ namespace Typelib
                         return make_pair(false, i + 1);
                 }
             }
+            else if (s[i] == ']')
+                return make_pair(false, i);
             else if (s[i] == '>' || s[i] == ',')
             {
                 if (!isValidTypeBasename(string(s, start_pos, i - start_pos), true, true))
-- 
2.43.0


From 5d2e7774efe98049283b406e5b9857ef1530dc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:23 +0000
Subject: [PATCH 26/62] fix: escape all names when exporting tlb files

---
 lang/tlb/export.cc | 30 ++++++++++++++++--------------
 1 file changed, 16 insertions(+), 14 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index 19e6185..b94ee8f 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -50,15 +50,17 @@ namespace
 
     std::string xmlEscape(std::string const& source)
     {
-        string result = source;
-        size_t pos = result.find_first_of("<>");
-        while (pos != string::npos)
+        string result;
+        for (string::const_iterator it = source.begin(); it != source.end(); ++it)
         {
-            if (result[pos] == '<')
-                result.replace(pos, 1, "&lt;");
-            else if (result[pos] == '>')
-                result.replace(pos, 1, "&gt;");
-            pos = result.find_first_of("<>");
+            switch(*it)
+            {
+                case '<': result += "&lt;"; break;
+                case '>': result += "&gt;"; break;
+                case '&': result += "&amp;"; break;
+                case '"': result += "&quot;"; break;
+                default:  result += *it; break;
+            }
         }
 
         return result;
@@ -74,7 +76,7 @@ namespace
         MetaData::Map const& map = metadata.get();
         for (MetaData::Map::const_iterator it = map.begin(); it != map.end(); ++it)
         {
-            std::string key = it->first;
+            std::string key = xmlEscape(it->first);
             MetaData::Values values = it->second;
             if (values.empty())
             {
@@ -121,7 +123,7 @@ namespace
     {
         m_stream
             << m_indent
-            << "<field name=\"" << field.getName() << "\""
+            << "<field name=\"" << xmlEscape(field.getName()) << "\""
             << " type=\""   << xmlEscape(field.getType().getName())  << "\""
             << " offset=\"" << field.getOffset() << "\">\n";
         m_stream << m_indent << emitMetaData(field.getMetaData()) << "\n";
@@ -150,7 +152,7 @@ namespace
     bool TlbExportVisitor::visit_(Numeric const& type)
     {
         m_stream
-            << "<numeric name=\"" << type.getName() << "\" "
+            << "<numeric name=\"" << xmlEscape(type.getName()) << "\" "
             << "category=\"" << getStringCategory(type.getNumericCategory()) << "\" "
             << "size=\"" << type.getSize() << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
@@ -160,7 +162,7 @@ namespace
     }
     bool TlbExportVisitor::visit_ (NullType const& type)
     {
-        m_stream << "<null " << " name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<null " << " name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</null>";
         return true;
@@ -207,11 +209,11 @@ namespace
     bool TlbExportVisitor::visit_ (Enum const& type)
     {
         Enum::ValueMap const& values = type.values();
-        m_stream << "<enum name=\"" << type.getName() << "\" " << emitSourceID() << ">\n";
+        m_stream << "<enum name=\"" << xmlEscape(type.getName()) << "\" " << emitSourceID() << ">\n";
         { Indent indenter(m_indent);
             Enum::ValueMap::const_iterator it;
             for (it = values.begin(); it != values.end(); ++it)
-                m_stream << m_indent << "<value symbol=\"" << it->first << "\" value=\"" << it->second << "\"/>\n";
+                m_stream << m_indent << "<value symbol=\"" << xmlEscape(it->first) << "\" value=\"" << it->second << "\"/>\n";
         }
         m_stream << m_indent << emitMetaData(type) << "\n";
         m_stream << m_indent << "</enum>";
-- 
2.43.0


From 3088c8b1c7a91f88d44530b4a08a2398d9963f92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:54 +0000
Subject: [PATCH 27/62] fix: keep metadata values that contain the end marker
 of CDATA sections in tlb files

---
 lang/tlb/export.cc | 15 ++++++++++++++-
 lang/tlb/import.cc | 12 +++++++-----
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/lang/tlb/export.cc b/lang/tlb/export.cc
index b94ee8f..26a3cfb 100644
--- a/lang/tlb/export.cc
+++ b/lang/tlb/export.cc
@@ -66,6 +66,19 @@ namespace
         return result;
     }
 
+    // A CDATA section cannot contain its own end marker, split it if needed
+    std::string cdata(std::string const& source)
+    {
+        string result;
+        size_t start = 0, pos;
+        while ((pos = source.find("]]>", start)) != string::npos)
+        {
+            result += string(source, start, pos + 2 - start) + "]]><![CDATA[";
+            start = pos + 2;
+        }
+        return "<![CDATA[" + result + string(source, start) + "]]>";
+    }
+
     std::string TlbExportVisitor::emitMetaData(Type const& type) const
     {
         return emitMetaData(type.getMetaData());
@@ -85,7 +98,7 @@ namespace
             else
             {
                 for (MetaData::Values::const_iterator it_value = values.begin(); it_value != values.end(); ++it_value)
-                    stream << "<metadata key=\"" << key << "\"><![CDATA[" << *it_value << "]]></metadata>\n";
+                    stream << "<metadata key=\"" << key << "\">" << cdata(*it_value) << "</metadata>\n";
             }
         }
         return stream.str();
diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 9a6b46e..210af67 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -69,18 +69,20 @@ namespace
             string key = getAttribute<string>(xml, "key");
             metadata.add(key, MetaData::Values());
 
-            // Look at a child CDATA block
+            // Look at the child CDATA blocks
+            bool has_value = false;
+            std::string value;
             xmlNodePtr cdata = xml->children;
             for(; cdata; cdata=cdata->next)
             {
                 if (cdata->type == XML_CDATA_SECTION_NODE)
                 {
-                    std::string value = reinterpret_cast<char const*>(cdata->content);
-                    metadata.add(key, value);
-                    break;
+                    has_value = true;
+                    value += reinterpret_cast<char const*>(cdata->content);
                 }
             }
-
+            if (has_value)
+                metadata.add(key, value);
         }
     }
 
-- 
2.43.0


From 7be3700930ff2d425a0cc1a721ae3c7e48ad9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:32 +0000
Subject: [PATCH 28/62] fix: do not leak types when importing them from a tlb
 file fails

---
 lang/tlb/import.cc | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/lang/tlb/import.cc b/lang/tlb/import.cc
index 210af67..a14bdf9 100644
--- a/lang/tlb/import.cc
+++ b/lang/tlb/import.cc
@@ -8,6 +8,7 @@
 
 #include <iostream>
 #include <fstream>
+#include <memory>
 
 // Helpers
 namespace
@@ -102,10 +103,13 @@ namespace
 
         Registry& getRegistry() { return m_registry; }
 
+        // Takes ownership of object, even if it throws
         void insert(TypeNode const& type, Type* object)
         {
+            unique_ptr<Type> guard(object);
             loadMetaData(type, object->getMetaData());
             m_registry.add(object, type.file);
+            guard.release();
         }
 
         void alias (TypeNode const& type, string const& new_name)
@@ -228,7 +232,7 @@ namespace
     }
     Type const* load_enum(TypeNode const& node, Factory& factory)
     {
-        Enum* type = new Enum(node.name);
+        unique_ptr<Enum> type(new Enum(node.name));
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
         {
             if (xmlStrcmp(xml->name, reinterpret_cast<const xmlChar*>("value")))
@@ -239,8 +243,9 @@ namespace
             type->add(symbol, value);
         }
 
-        factory.insert(node, type);
-        return type;
+        Type* result = type.release();
+        factory.insert(node, result);
+        return result;
     }
     Type const* load_alias(TypeNode const& node, Factory& factory)
     {
@@ -253,7 +258,7 @@ namespace
 
     Type const* load_compound(TypeNode const& node, Factory& factory)
     {
-        Compound* compound = new Compound(node.name);
+        unique_ptr<Compound> compound(new Compound(node.name));
         size_t size = getAttribute<size_t>(node.xml, "size");
 
         for(xmlNodePtr xml = xmlFirstElementChild(node.xml); xml; xml=xmlNextElementSibling(xml))
@@ -273,8 +278,9 @@ namespace
 
         compound->normalizeFieldOrder();
         compound->setSize(size);
-        factory.insert(node, compound);
-        return compound;
+        Type* result = compound.release();
+        factory.insert(node, result);
+        return result;
     }
 }
 
-- 
2.43.0


From f99908502e3617e91dd59a04131401567294a052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:28 +0000
Subject: [PATCH 29/62] fix: do not output the typedefs of previous exports
 when an IDL exporter is reused

---
 lang/idl/export.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 859e4ba..452bc00 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -473,6 +473,12 @@ void IDLExport::save
     , utilmm::config_set const& config
     , Typelib::Registry const& type )
 {
+    // Do not mix up with what was left by a previous export
+    m_namespace = "/";
+    m_indent = "";
+    m_typedefs.clear();
+    m_exported_typedefs.clear();
+
     m_ns_prefix = config.get<std::string>("namespace_prefix", "");
     if (!m_ns_prefix.empty() && string(m_ns_prefix, 0, 1) != Typelib::NamespaceMarkString)
         m_ns_prefix = Typelib::NamespaceMarkString + m_ns_prefix;
-- 
2.43.0


From 96cc41b63f21634d477b7ff1adc046b39120fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 30/62] fix: replace only structures and enums by octet
 sequences in IDL exports

---
 lang/idl/export.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 452bc00..5b07a79 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -595,7 +595,10 @@ bool IDLExport::save
         // in a temporary ostringstream and change namespace only if some output
         // has actually been generated
 
-        if (m_blob_threshold && static_cast<int>(type->getSize()) > m_blob_threshold)
+        // Only structures and enums have a definition that can be replaced
+        bool can_be_blob =
+            (type->getCategory() == Type::Compound || type->getCategory() == Type::Enum);
+        if (m_blob_threshold && can_be_blob && static_cast<int>(type->getSize()) > m_blob_threshold)
         {
             string target_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
             size_t ns_size = namespaceIndentLevel(target_namespace);
-- 
2.43.0


From c7454b1a365f01bad3b16e387037219f90af0f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 31/62] fix: pushing an element of a vector into that same
 vector read freed memory

---
 lang/csupport/containers.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index dd63605..0746fbf 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -153,8 +153,17 @@ void Vector::push(void* ptr, Value v) const
     std::vector<uint8_t>* vector_ptr =
         reinterpret_cast< std::vector<uint8_t>* >(ptr);
 
+    // v might be an element of this very container, in which case resize() moves
+    // it along with the others
+    uint8_t const* base  = vector_ptr->empty() ? 0 : &(*vector_ptr)[0];
+    uint8_t const* value = reinterpret_cast< uint8_t const* >(v.getData());
+    bool is_own = base && value >= base && value < base + vector_ptr->size();
+    size_t own_offset = is_own ? value - base : 0;
+
     size_t size = getElementCount(ptr);
     resize(vector_ptr, size + 1);
+    if (is_own)
+        v = Value(&(*vector_ptr)[own_offset], v.getType());
     Typelib::copy(
             Value(&(*vector_ptr)[size * getIndirection().getSize()], getIndirection()),
             v);
-- 
2.43.0


From 2679fe2a6bcacd4fab9ae73dda7f60aa0aed2c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:08 +0000
Subject: [PATCH 32/62] fix: report failed writes when dumping to a FILE

---
 typelib/value_ops.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/typelib/value_ops.cc b/typelib/value_ops.cc
index 787f9fe..ebcfe30 100644
--- a/typelib/value_ops.cc
+++ b/typelib/value_ops.cc
@@ -701,7 +701,9 @@ struct FileOutputStream : public OutputStream
 
     void write(boost::uint8_t const* data, size_t size)
     {
-        ::fwrite(data, size, 1, fd);
+        if (size != 0 && ::fwrite(data, size, 1, fd) != 1) {
+            throw std::runtime_error("wrote fewer bytes than expected in ValueOps::dump");
+        }
     }
 };
 void Typelib::dump(Value v, FILE* fd)
-- 
2.43.0


From 8513a3bb8da940ccb5d3b61767df9a725c33cc54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 33/62] fix: getMinimalPathTo returned paths that resolve to a
 type of a nearer namespace

---
 typelib/typename.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/typelib/typename.cc b/typelib/typename.cc
index b1f2d75..80fa8d1 100644
--- a/typelib/typename.cc
+++ b/typelib/typename.cc
@@ -288,6 +288,19 @@ namespace Typelib
             result = common_tokens.back() + Typelib::NamespaceMarkString + result;
             common_tokens.pop_back();
         }
+        // The first component of the result is looked up from ns outwards. It
+        // must not be found before the namespace it is relative to
+        while (!common_tokens.empty())
+        {
+            string first(result, 0, result.find(Typelib::NamespaceMark));
+            list<string>::const_iterator inner_it = tok2.begin();
+            std::advance(inner_it, std::min(tok2.size(), common_tokens.size() + 1));
+            if (std::find(inner_it, list<string>::const_iterator(tok2.end()), first) == tok2.end())
+                break;
+
+            result = common_tokens.back() + Typelib::NamespaceMarkString + result;
+            common_tokens.pop_back();
+        }
         if (common_tokens.empty())
             return type_ns;
         else if (result.empty())
-- 
2.43.0


From 5b9ff944d9c8d5229394fd9ae9e40d00c9520c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:10 +0000
Subject: [PATCH 34/62] fix: refuse sequences of arrays in IDL exports, they
 have no valid IDL declaration

---
 lang/idl/export.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index 5b07a79..fdf1c7e 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -178,6 +178,9 @@ namespace
         }
         else
         {
+            if (type.getIndirection().getCategory() == Type::Array)
+                throw UnsupportedType(type, "sequences of arrays are not supported in IDL");
+
             // Get the basename for "kind"
             m_namespace = getIDLBase(type.getIndirection()).first;
             // We generate all containers in orogen::Corba, even if their
-- 
2.43.0


From af86123b43d9eb59e0b007d8aadebbaf9f9afd1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:16 +0000
Subject: [PATCH 35/62] fix: IDL aliases that carry the name generated for a
 container were duplicated or dropped

---
 lang/idl/export.cc | 41 ++++++++++++++++++++++++-----------------
 lang/idl/export.hh |  5 +++--
 2 files changed, 27 insertions(+), 19 deletions(-)

diff --git a/lang/idl/export.cc b/lang/idl/export.cc
index fdf1c7e..60aa8b1 100644
--- a/lang/idl/export.cc
+++ b/lang/idl/export.cc
@@ -384,7 +384,7 @@ namespace
         std::string typedef_name = getIDLBase(type).second;
         boost::replace_all(typedef_name, "::", "_");
         m_stream << m_indent << "typedef sequence<" << element_name << "> " << typedef_name << ";\n";
-        m_exported_typedefs.insert(make_pair(type.getIndirection().getNamespace() + typedef_name, &type));
+        m_exported_typedefs.insert(make_pair(target_namespace + typedef_name, &type));
 
         return true;
     }
@@ -500,11 +500,23 @@ void IDLExport::generateTypedefs(ostream& stream)
     for (TypedefMap::const_iterator it = m_typedefs.begin();
             it != m_typedefs.end(); ++it)
     {
-        adaptNamespace(stream, it->first);
+        list<TypedefSpec> const& specs = it->second;
+        for (list<TypedefSpec>::const_iterator spec_it = specs.begin(); spec_it != specs.end(); ++spec_it)
+        {
+            // Containers get a typedef as well, which might have been generated
+            // after the alias
+            map<string, Type const*>::const_iterator already_exported =
+                m_exported_typedefs.find(it->first + spec_it->name);
+            if (already_exported != m_exported_typedefs.end())
+            {
+                if (*already_exported->second != *spec_it->type)
+                    throw UnsupportedType(*spec_it->type, "the typedef name " + it->first + spec_it->name + " is reserved by the IDL exporter");
+                continue;
+            }
 
-        list<string> const& lines = it->second;
-        for (list<string>::const_iterator str_it = lines.begin(); str_it != lines.end(); ++str_it)
-            stream << m_indent << "typedef " << *str_it << std::endl;
+            adaptNamespace(stream, it->first);
+            stream << m_indent << "typedef " << spec_it->declaration << std::endl;
+        }
     }
 }
 
@@ -543,15 +555,7 @@ bool IDLExport::save
 
             std::string type_namespace = getIDLAbsoluteNamespace(type.getNamespace(), *this);
 
-            map<string, Type const*>::const_iterator already_exported =
-                m_exported_typedefs.find(type.getName());
-            if (already_exported != m_exported_typedefs.end())
-            {
-                if (*already_exported->second != *type)
-                    throw UnsupportedType(*type, "the typedef name " + type.getName() + " is reserved by the IDL exporter");
-                return false;
-            }
-            else if (type.getBasename().find_first_of("/<>") != std::string::npos)
+            if (type.getBasename().find_first_of("/<>") != std::string::npos)
             {
                 return false;
             }
@@ -581,9 +585,12 @@ bool IDLExport::save
             else if (type.getBasename().find_first_of(" ") == string::npos)
                 stream << getIDLAbsolute(*type) << " " << base_name << ";";
 
-            std::string def = stream.str();
-            if (!def.empty())
-                m_typedefs[type_namespace].push_back(def);
+            TypedefSpec spec;
+            spec.name = base_name;
+            spec.type = &(*type);
+            spec.declaration = stream.str();
+            if (!spec.declaration.empty())
+                m_typedefs[type_namespace].push_back(spec);
             return true;
         }
         else return false;
diff --git a/lang/idl/export.hh b/lang/idl/export.hh
index a641751..a2cab02 100644
--- a/lang/idl/export.hh
+++ b/lang/idl/export.hh
@@ -28,10 +28,11 @@ class IDLExport : public Typelib::Exporter
 
     struct TypedefSpec
     {
-        std::string name_space;
+        std::string name;
+        Typelib::Type const* type;
         std::string declaration;
     };
-    typedef std::map<std::string, std::list<std::string> > TypedefMap;
+    typedef std::map<std::string, std::list<TypedefSpec> > TypedefMap;
     TypedefMap m_typedefs;
 
     /** The set of typedefs that have been exported during the generation
-- 
2.43.0


From 258c487850efec5d68d37bce3eb88245bc904fd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 36/62] fix: Ruby read large 32-bit unsigned integers as
 negative numbers

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 44645de..8e31210 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -18,7 +18,7 @@ bool RubyGetter::visit_ (uint8_t & value) { m_value = INT2FIX(value); return fal
 bool RubyGetter::visit_ (int16_t & value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (uint16_t& value) { m_value = INT2FIX(value); return false; }
 bool RubyGetter::visit_ (int32_t & value) { m_value = INT2NUM(value); return false; }
-bool RubyGetter::visit_ (uint32_t& value) { m_value = INT2NUM(value); return false; }
+bool RubyGetter::visit_ (uint32_t& value) { m_value = UINT2NUM(value); return false; }
 bool RubyGetter::visit_ (int64_t & value) { m_value = LL2NUM(value);  return false; }
 bool RubyGetter::visit_ (uint64_t& value) { m_value = ULL2NUM(value); return false; }
 bool RubyGetter::visit_ (float   & value) { m_value = rb_float_new(value); return false; }
-- 
2.43.0


From c6a5c8924ce02e6807e7f90b9e8773600cbe804e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:29 +0000
Subject: [PATCH 37/62] fix: Ruby could not assign 64-bit unsigned integers
 above the signed range

---
 bindings/ruby/ext/convert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 8e31210..2386fa0 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -90,7 +90,7 @@ bool RubySetter::visit_ (uint16_t& value) { value = NUM2UINT(m_value); return fa
 bool RubySetter::visit_ (int32_t & value) { value = NUM2INT(m_value); return false; }
 bool RubySetter::visit_ (uint32_t& value) { value = NUM2UINT(m_value); return false; }
 bool RubySetter::visit_ (int64_t & value) { value = NUM2LL(m_value);  return false; }
-bool RubySetter::visit_ (uint64_t& value) { value = NUM2LL(m_value); return false; }
+bool RubySetter::visit_ (uint64_t& value) { value = NUM2ULL(m_value); return false; }
 bool RubySetter::visit_ (float   & value) { value = NUM2DBL(m_value); return false; }
 bool RubySetter::visit_ (double  & value) { value = NUM2DBL(m_value); return false; }
 
-- 
2.43.0


From ec635d095587885daa3edae36b4d2b9520c07a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 38/62] fix: C++ exceptions thrown by operations on Ruby values
 and registries aborted the process

---
 bindings/ruby/ext/convert.cc           | 17 ++++++++--
 bindings/ruby/ext/registry.cc          |  6 +++-
 bindings/ruby/ext/specialized_types.cc | 28 +++++++++++-----
 bindings/ruby/ext/value.cc             | 46 ++++++++++++++++++--------
 4 files changed, 71 insertions(+), 26 deletions(-)

diff --git a/bindings/ruby/ext/convert.cc b/bindings/ruby/ext/convert.cc
index 2386fa0..0a2a146 100644
--- a/bindings/ruby/ext/convert.cc
+++ b/bindings/ruby/ext/convert.cc
@@ -151,8 +151,15 @@ VALUE typelib_to_ruby(Value v, VALUE registry, VALUE parent)
     if (! v.getData())
         return Qnil;
 
-    RubyGetter getter;
-    return getter.apply(v, registry, parent);
+    std::string error;
+    try {
+        RubyGetter getter;
+        return getter.apply(v, registry, parent);
+    } catch(UnsupportedType const& e) {
+        // Avoid calling rb_raise in exception context
+        error = e.what();
+    }
+    rb_raise(rb_eTypeError, "%s", error.c_str());
 }
 
 /* Returns the Value object wrapped into +value+ */
@@ -173,7 +180,11 @@ VALUE typelib_from_ruby(Value dst, VALUE new_value)
         Type const& dst_t = dst.getType();
         Type const& src_t = src.getType();
         if (dst_t == src_t)
-            Typelib::copy(dst, src);
+        {
+            try { Typelib::copy(dst, src); }
+            catch(std::exception const& e)
+            { rb_raise(rb_eArgError, "%s", e.what()); }
+        }
         else
         {
             rb_raise(rb_eArgError, "wrong type in assignment: %s = %s", dst_t.getName().c_str(), src_t.getName().c_str());
diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 5c3b167..23005c0 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -191,6 +191,8 @@ VALUE registry_alias(VALUE self, VALUE name, VALUE aliased)
         return self;
     } catch(BadName const&) {
         rb_raise(rb_eArgError, "invalid type name %s", StringValuePtr(name));
+    } catch(AlreadyDefined const&) {
+        rb_raise(rb_eArgError, "there is already a type named %s", StringValuePtr(name));
     } catch(Undefined const&) {
         rb_raise(eNotFound, "there is no type in this registry with the name '%s'", StringValuePtr(aliased));
     }
@@ -635,7 +637,9 @@ static VALUE registry_create_enum(VALUE registry, VALUE name, VALUE symbol_defs,
         VALUE rb_name = rb_ary_entry(sym, 0);
         std::string sym_name(StringValuePtr(rb_name));
         int sym_value(NUM2INT(rb_ary_entry(sym, 1)));
-        new_t->add(sym_name, sym_value);
+        try { new_t->add(sym_name, sym_value); }
+        catch(std::exception const& e)
+        { rb_raise(rb_eArgError, "%s", e.what()); }
     }
 
     Typelib::Enum* type = new_t.release();
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index 0dec20d..a1f1961 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -458,7 +458,9 @@ static VALUE container_clear(VALUE self)
     Value value = rb2cxx::object<Value>(self);
     Container const& type(dynamic_cast<Container const&>(value.getType()));
 
-    type.clear(value.getData());
+    try { type.clear(value.getData()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return Qnil;
 }
 
@@ -488,7 +490,9 @@ static VALUE container_do_push(VALUE self, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.push(container_v.getData(), element_v);
+    try { container_t.push(container_v.getData(), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -499,7 +503,9 @@ static VALUE container_do_set(VALUE self, VALUE index, VALUE obj)
 
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
-    container_t.setElement(container_v.getData(), NUM2INT(index), element_v);
+    try { container_t.setElement(container_v.getData(), NUM2INT(index), element_v); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -566,10 +572,14 @@ static VALUE container_erase(VALUE self, VALUE obj)
     uint64_t buffer[10];
     Value element_v = container_element(buffer, container_t.getIndirection(), obj);
 
-    if (container_t.erase(container_v.getData(), element_v))
-        return Qtrue;
-    else
-        return Qfalse;
+    try {
+        if (container_t.erase(container_v.getData(), element_v))
+            return Qtrue;
+        else
+            return Qfalse;
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 bool container_delete_if_i(Value v, VALUE registry, VALUE container)
@@ -590,7 +600,9 @@ static VALUE container_delete_if(VALUE self)
     Container const& container_t(dynamic_cast<Container const&>(container_v.getType()));
 
     VALUE registry = value_get_registry(self);
-    container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self));
+    try { container_t.delete_if(container_v.getData(), boost::bind(container_delete_if_i, _1, registry, self)); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index ec6f331..538eef2 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -161,7 +161,9 @@ static VALUE type_to_csv(int argc, VALUE* argv, VALUE rbself)
 
     Type const& self(rb2cxx::object<Type>(rbself));
     std::ostringstream stream;
-    stream << csv_header(self, bname, sep);
+    try { stream << csv_header(self, bname, sep); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     std::string str = stream.str();
     return rb_str_new(str.c_str(), str.length());
 }
@@ -465,12 +467,13 @@ VALUE value_do_from_buffer(VALUE rbself, VALUE string, VALUE pointers, VALUE opa
 {
     Value value  = rb2cxx::object<Value>(rbself);
 
-    MemoryLayout layout = Typelib::layout_of(value.getType(),
-            RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
     char* ruby_buffer = StringValuePtr(string);
-    vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
-    try { Typelib::load(value, cxx_buffer, layout); }
+    try {
+        MemoryLayout layout = Typelib::layout_of(value.getType(),
+                RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        vector<uint8_t> cxx_buffer(ruby_buffer, ruby_buffer + RSTRING_LEN(string));
+        Typelib::load(value, cxx_buffer, layout);
+    }
     catch(std::exception const& e)
     { rb_raise(rb_eArgError, "%s", e.what()); }
     return rbself;
@@ -517,7 +520,9 @@ VALUE value_endian_swap(VALUE self)
 {
     Value& value = rb2cxx::object<Value>(self);
     CompileEndianSwapVisitor compiled;
-    compiled.apply(value.getType());
+    try { compiled.apply(value.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 
     VALUE registry = value_get_registry(self);
     VALUE result   = value_allocate(value.getType(), registry);
@@ -536,7 +541,9 @@ static
 VALUE value_endian_swap_b(VALUE self, VALUE rb_compile)
 {
     Value& value = rb2cxx::object<Value>(self);
-    endian_swap(value);
+    try { endian_swap(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -577,10 +584,13 @@ static
 VALUE value_do_byte_array(VALUE self, VALUE pointers, VALUE opaques, VALUE merge, VALUE remove_trailing_skips)
 {
     Value& value = rb2cxx::object<Value>(self);
-    MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
-
     vector<uint8_t> buffer;
-    Typelib::dump(value, buffer, layout);
+    try {
+        MemoryLayout layout = Typelib::layout_of(value.getType(), RTEST(pointers), RTEST(opaques), RTEST(merge), RTEST(remove_trailing_skips));
+        Typelib::dump(value, buffer, layout);
+    }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return rb_str_new(reinterpret_cast<char*>(&buffer[0]), buffer.size());
 }
 
@@ -597,6 +607,8 @@ VALUE value_marshalling_size(VALUE self)
     try { return INT2NUM(Typelib::getDumpSize(value)); }
     catch(Typelib::NoLayout const&)
     { return Qnil; }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
 }
 
 VALUE value_memory_eql_p(VALUE rbself, VALUE rbwith)
@@ -635,7 +647,9 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
     if (!NIL_P(separator)) sep = StringValuePtr(separator);
 
     std::ostringstream stream;
-    stream << csv(value.getType(), value.getData(), sep);
+    try { stream << csv(value.getType(), value.getData(), sep); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     std::string str = stream.str();
     return rb_str_new(str.c_str(), str.length());
 }
@@ -644,7 +658,9 @@ static VALUE value_to_csv(int argc, VALUE* argv, VALUE self)
 static VALUE value_zero(VALUE self)
 {
     Value const& value(rb2cxx::object<Value>(self));
-    Typelib::zero(value);
+    try { Typelib::zero(value); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return self;
 }
 
@@ -659,7 +675,9 @@ static VALUE typelib_do_copy(VALUE, VALUE to, VALUE from)
         if (!v_from.getType().canCastTo(v_to.getType()))
             rb_raise(rb_eArgError, "cannot copy: types are not compatible");
     }
-    Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType());
+    try { Typelib::copy(v_to.getData(), v_from.getData(), v_from.getType()); }
+    catch(std::exception const& e)
+    { rb_raise(rb_eArgError, "%s", e.what()); }
     return to;
 }
 
-- 
2.43.0


From 57925c31b5a414949c44ab1bb6549bc62b58fe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:36 +0000
Subject: [PATCH 39/62] fix: empty vectors of elements that have no memory
 layout could not be destroyed

---
 lang/csupport/containers.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lang/csupport/containers.cc b/lang/csupport/containers.cc
index 0746fbf..fd3878c 100644
--- a/lang/csupport/containers.cc
+++ b/lang/csupport/containers.cc
@@ -103,6 +103,11 @@ void Vector::resize(std::vector<uint8_t>* ptr, size_t new_size) const
     if (element_size && new_size > ptr->max_size() / element_size)
         throw std::length_error("requested size for " + getName() + " is too big");
 
+    // There is nothing to initialize, move or destroy. This matters for vectors
+    // of elements without layout: they must be destroyed as well
+    if (new_raw_size == old_raw_size)
+        return;
+
     if (!hasElementLayout())
         throw std::runtime_error("could not compute layout for element type " + element_t.getName() + ", cannot copy");
 
-- 
2.43.0


From 7bb70d1e128a9287217a562072b50de97de58077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 40/62] fix: assigning a string to an empty char array wrote
 before the array

---
 bindings/ruby/ext/strings.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index f9b2c79..a9c4f0a 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -66,7 +66,7 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     string_buffer_get(value, buffer, buffer_size);
 
     string::size_type from_length = RSTRING_LEN(StringValue(from));
-    if ((buffer_size - 1) < from_length)
+    if (buffer_size <= from_length)
         rb_raise(rb_eArgError, "array to small: %lu, while %lu was needed", buffer_size, from_length + 1);
 
     strncpy(buffer, StringValueCStr(from), buffer_size);
-- 
2.43.0


From d3409954015f43e8d3b623be2bba3739dfa2c33d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 41/62] fix: converting a NULL char pointer to a Ruby string
 crashed

---
 bindings/ruby/ext/strings.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index a9c4f0a..ea9f933 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -92,7 +92,11 @@ static VALUE value_to_string(VALUE mod, VALUE self, VALUE known_good_type)
     string_buffer_get(value, buffer, buffer_size);
 
     if (buffer_size == string::npos)
+    {
+        if (!buffer)
+            rb_raise(rb_eArgError, "cannot convert a NULL pointer to a string");
         return rb_str_new2(buffer);
+    }
     else
     {
         // Search the real end of the string inside the buffer
-- 
2.43.0


From 04b7f9272091efaed8eca545cacc04db728d6dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:25 +0000
Subject: [PATCH 42/62] fix: metadata objects did not keep the type they belong
 to alive

---
 bindings/ruby/ext/metadata.cc          | 7 +++++--
 bindings/ruby/ext/specialized_types.cc | 2 +-
 bindings/ruby/ext/typelib.hh           | 2 +-
 bindings/ruby/ext/value.cc             | 2 +-
 4 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/bindings/ruby/ext/metadata.cc b/bindings/ruby/ext/metadata.cc
index 1ed511b..442ae0d 100644
--- a/bindings/ruby/ext/metadata.cc
+++ b/bindings/ruby/ext/metadata.cc
@@ -10,9 +10,12 @@ using namespace typelib_ruby;
 VALUE typelib_ruby::cMetaData;
 rb_encoding* enc_utf8;
 
-VALUE cxx2rb::metadata_wrap(MetaData& metadata)
+VALUE cxx2rb::metadata_wrap(MetaData& metadata, VALUE type)
 {
-    return Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    VALUE result = Data_Wrap_Struct(cMetaData, 0, 0, &metadata);
+    // The metadata is owned by the type (or its fields), protect it against GC
+    rb_iv_set(result, "@__typelib_type", type);
+    return result;
 }
 
 static VALUE metadata_include_p(VALUE self, VALUE key)
diff --git a/bindings/ruby/ext/specialized_types.cc b/bindings/ruby/ext/specialized_types.cc
index a1f1961..359e574 100644
--- a/bindings/ruby/ext/specialized_types.cc
+++ b/bindings/ruby/ext/specialized_types.cc
@@ -33,7 +33,7 @@ static VALUE compound_get_fields(VALUE self)
         rb_ary_store(field_def, 0, field_name);
         rb_ary_store(field_def, 1, INT2FIX(it->getOffset()));
         rb_ary_store(field_def, 2, field_type);
-        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData()));
+        rb_ary_store(field_def, 3, cxx2rb::metadata_wrap(it->getMetaData(), self));
         rb_ary_push(fieldlist, field_def);
     }
 
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index c893879..63322e6 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -68,7 +68,7 @@ namespace typelib_ruby {
         template<> inline VALUE class_of<MetaData>() { return cMetaData; }
 
         VALUE type_wrap(Type const& type, VALUE registry);
-        VALUE metadata_wrap(MetaData& metadata);
+        VALUE metadata_wrap(MetaData& metadata, VALUE type);
 
         /* Get the Ruby symbol associated with a C enum, or nil
          * if the value is not valid for this enum
diff --git a/bindings/ruby/ext/value.cc b/bindings/ruby/ext/value.cc
index 538eef2..a76ebf0 100644
--- a/bindings/ruby/ext/value.cc
+++ b/bindings/ruby/ext/value.cc
@@ -122,7 +122,7 @@ VALUE cxx2rb::type_wrap(Type const& type, VALUE registry)
     rb_iv_set(klass, "@name", rb_str_new2(type.getName().c_str()));
     rb_iv_set(klass, "@null", (type.getCategory() == Type::NullType) ? Qtrue : Qfalse);
     rb_iv_set(klass, "@opaque", (type.getCategory() == Type::Opaque) ? Qtrue : Qfalse);
-    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData()));
+    rb_iv_set(klass, "@metadata", cxx2rb::metadata_wrap(type.getMetaData(), klass));
 
     if (rb_respond_to(klass, rb_intern("subclass_initialize")))
         rb_funcall(klass, rb_intern("subclass_initialize"), 0);
-- 
2.43.0


From 1495ef1ce41ad7220b2fc9e493b60d85c4f44996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 43/62] fix: types removed from a registry were deleted while
 values still used them

---
 bindings/ruby/ext/registry.cc | 12 ++----------
 bindings/ruby/ext/typelib.hh  | 26 +++++++++++++++++++++++---
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index 23005c0..da2a6a1 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -30,16 +30,7 @@ namespace typelib_ruby {
 static
 void registry_free(void* ptr)
 {
-    using cxx2rb::WrapperMap;
-    RbRegistry* rbregistry = reinterpret_cast<RbRegistry*>(ptr);
-    WrapperMap& wrappers = rbregistry->wrappers;
-    for (WrapperMap::iterator it = wrappers.begin(); it != wrappers.end(); ++it)
-    {
-        if (it->second.first)
-            delete it->first;
-    }
-
-    delete rbregistry;
+    delete reinterpret_cast<RbRegistry*>(ptr);
 }
 
 static
@@ -88,6 +79,7 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
     std::set<Type*> deleted = registry.remove(type);
+    rbregistry.removed_types->insert(deleted.begin(), deleted.end());
 
     VALUE result = rb_ary_new();
     std::set<Type*>::iterator it, end;
diff --git a/bindings/ruby/ext/typelib.hh b/bindings/ruby/ext/typelib.hh
index 63322e6..00fd9bc 100644
--- a/bindings/ruby/ext/typelib.hh
+++ b/bindings/ruby/ext/typelib.hh
@@ -39,6 +39,20 @@ namespace typelib_ruby {
 
         typedef std::map<Type const*, std::pair<bool, VALUE> > WrapperMap;
 
+        struct RegistryDeleter
+        {
+            boost::shared_ptr< std::set<Typelib::Type*> > removed_types;
+            RegistryDeleter(boost::shared_ptr< std::set<Typelib::Type*> > removed_types)
+                : removed_types(removed_types) {}
+            void operator()(Typelib::Registry* registry) const
+            {
+                typedef std::set<Typelib::Type*> TypeSet;
+                for (TypeSet::iterator it = removed_types->begin(); it != removed_types->end(); ++it)
+                    delete *it;
+                delete registry;
+            }
+        };
+
         struct RbRegistry
         {
             boost::shared_ptr<Typelib::Registry> registry;
@@ -49,13 +63,19 @@ namespace typelib_ruby {
              * and true otherwise. The registry loses ownership of a type
              * through the remove call
              *
-             * In both cases, they will be deleted only when the registry is
-             * garbage collected.
+             * In both cases, they will be deleted only when neither the Ruby
+             * registry nor any memory layout refers to the registry anymore.
              */
             cxx2rb::WrapperMap wrappers;
 
+            /** The types that have been removed from the registry, they are
+             * deleted along with it
+             */
+            boost::shared_ptr< std::set<Typelib::Type*> > removed_types;
+
             RbRegistry(Typelib::Registry* registry)
-                : registry(registry) {}
+                : removed_types(new std::set<Typelib::Type*>)
+            { this->registry.reset(registry, RegistryDeleter(removed_types)); }
             ~RbRegistry() {}
         };
 
-- 
2.43.0


From 158f34ced78a0874fa60acd0958ee428fed5d8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:42 +0000
Subject: [PATCH 44/62] fix: Ruby registries mixed up the ownership of types
 that belong to another registry

---
 bindings/ruby/ext/registry.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bindings/ruby/ext/registry.cc b/bindings/ruby/ext/registry.cc
index da2a6a1..e7e616a 100644
--- a/bindings/ruby/ext/registry.cc
+++ b/bindings/ruby/ext/registry.cc
@@ -78,6 +78,8 @@ VALUE registry_remove(VALUE self, VALUE rbtype)
     RbRegistry& rbregistry = rb2cxx::object<RbRegistry>(self);
     Registry&   registry = *(rbregistry.registry);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (type_get_registry(rbtype) != self)
+        rb_raise(rb_eArgError, "the given type object comes from a different type registry");
     std::set<Type*> deleted = registry.remove(type);
     rbregistry.removed_types->insert(deleted.begin(), deleted.end());
 
@@ -126,6 +128,8 @@ VALUE registry_reverse_depends(VALUE self, VALUE rbtype)
 {
     Registry const& registry = rb2cxx::object<Registry>(self);
     Type const& type(rb2cxx::object<Type>(rbtype));
+    if (type_get_registry(rbtype) != self)
+        rb_raise(rb_eArgError, "the given type object comes from a different type registry");
     std::set<Type const*> rdeps = registry.reverseDepends(type);
 
     VALUE result = rb_ary_new();
@@ -596,6 +600,8 @@ static VALUE registry_create_compound(VALUE registry, VALUE name, VALUE field_de
         VALUE rb_name = rb_ary_entry(field, 0);
         std::string field_name(StringValuePtr(rb_name));
         Typelib::Type& field_type(rb2cxx::object<Type>(rb_ary_entry(field, 1)));
+        if (!reg.isIncluded(field_type))
+            rb_raise(rb_eArgError, "the type of field %s comes from a different type registry", field_name.c_str());
         int offset(NUM2INT(rb_ary_entry(field, 2)));
         new_t->addField(field_name, field_type, offset);
     }
-- 
2.43.0


From 18e10ac442dc270fe8050684b651530900ee005a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:14 +0000
Subject: [PATCH 45/62] fix: converting a Ruby string to a char pointer wrote
 through an uninitialized pointer

---
 bindings/ruby/ext/strings.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/ruby/ext/strings.cc b/bindings/ruby/ext/strings.cc
index ea9f933..848c473 100644
--- a/bindings/ruby/ext/strings.cc
+++ b/bindings/ruby/ext/strings.cc
@@ -58,7 +58,8 @@ static VALUE value_from_string(VALUE mod, VALUE self, VALUE from, VALUE known_go
     Type  const& type(value.getType());
     Registry const& registry = rb2cxx::object<Registry>(value_get_registry(self));
 
-    if (!RTEST(known_good_type) && !is_string_handler(registry, type, true))
+    // The size of the buffer behind a pointer is never known
+    if (type.getCategory() == Type::Pointer || (!RTEST(known_good_type) && !is_string_handler(registry, type, true)))
         rb_raise(rb_eTypeError, "Ruby strings can only be converted to char arrays");
 
     char * buffer;
-- 
2.43.0


From 027b8068ff76618d58d364dcd57413f1485d4d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 46/62] fix: memory zones about to be garbage-collected were
 handed out again, and invalidating a value freed the buffer of its parent

---
 bindings/ruby/ext/memory.cc | 99 ++++++++++++++-----------------------
 1 file changed, 37 insertions(+), 62 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index 1bed435..c679235 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -45,15 +45,18 @@ static struct st_hash_type memory_table_type = {
 
 struct MemoryTableEntry
 {
+    /** Count of the MemoryZone objects and of the entries that use this memory
+     * as their root
+     *
+     * The MemoryZone objects themselves are not stored: an object found there
+     * might already be garbage, i.e. be only waiting to be swept by the Ruby GC
+     */
     int refcount;
-    VALUE object;
     bool owned;
     void* root_ptr;
-    MemoryTableEntry(VALUE object, bool owned, void* root_ptr = 0)
-        : refcount(1), object(object), owned(owned), root_ptr(root_ptr)
+    MemoryTableEntry(bool owned, void* root_ptr = 0)
+        : refcount(1), owned(owned), root_ptr(root_ptr)
     {
-        if (root_ptr && owned)
-            rb_raise(rb_eArgError, "given both a root pointer and owned=true for object %llu", NUM2ULL(rb_obj_id(object)));
     }
 };
 
@@ -181,41 +184,24 @@ typelib_ruby::memory_delete(void *ptr)
     ruby_xfree(ptr);
 }
 
-static VALUE
-memory_aref(void *ptr)
-{
-    MemoryTableEntry* entry;
-    if (!st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry)) {
-        return Qnil;
-    }
-    if ((VALUE)entry == Qundef)
-        rb_bug("found undef in memory table");
-
-    return entry->object;
-}
-
+/* Registers the memory at +ptr+, or takes a new reference on it if it is already
+ * registered
+ */
 static void
-memory_aset(void *ptr, VALUE obj, bool owned, void* root_ptr)
+memory_register(void *ptr, bool owned, void* root_ptr)
 {
-    if (! NIL_P(memory_aref(ptr)))
-        rb_raise(rb_eArgError, "there is already a wrapper for %p", ptr);
+    if (memory_ref(ptr))
+        return;
 
+    if (root_ptr && owned)
+        rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
     if (ptr == root_ptr)
         rb_raise(rb_eArgError, "pointer and root pointer are equal");
+    if (root_ptr && !memory_ref(root_ptr))
+        rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
 
-    if (!memory_ref(ptr))
-    {
-        MemoryTableEntry* entry = new MemoryTableEntry(obj, owned, root_ptr);
-        st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
-
-        if (root_ptr)
-        {
-            MemoryTableEntry* root_entry = 0;
-            if (!st_lookup(MemoryTable, (st_data_t)root_ptr, (st_data_t*)&root_entry))
-                rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
-            ++(root_entry->refcount);
-        }
-    }
+    MemoryTableEntry* entry = new MemoryTableEntry(owned, root_ptr);
+    st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
 }
 
 VALUE
@@ -264,46 +250,35 @@ typelib_ruby::memory_init(VALUE ptr, VALUE type)
     }
 }
 
+static MemoryZone*
+memory_zone(VALUE ptr)
+{
+    MemoryZone* cptr;
+    Data_Get_Struct(ptr, MemoryZone, cptr);
+    return cptr;
+}
+
 VALUE
 typelib_ruby::memory_wrap(void* ptr, bool take_ownership, void* root_ptr)
 {
-    VALUE zone = memory_aref(ptr);
-    if (NIL_P(zone))
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: wrapping new memory zone\n", ptr);
-#       endif
-
-        zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(ptr));
-        memory_aset(ptr, zone, take_ownership, root_ptr);
-    }
-    else
-    {
-#       ifdef VERBOSE
-        fprintf(stderr, "%p: already known memory zone\n", ptr);
-#       endif
-    }
+#   ifdef VERBOSE
+    fprintf(stderr, "%p: wrapping memory zone\n", ptr);
+#   endif
 
+    // The zone refers to the memory only once it has been registered
+    VALUE zone = Data_Wrap_Struct(cMemoryZone, 0, &memory_zone_unref, new MemoryZone(0));
+    if (ptr)
+        memory_register(ptr, take_ownership, root_ptr);
+    memory_zone(zone)->ptr = ptr;
     return zone;
 }
 
 void*
 typelib_ruby::memory_cptr(VALUE ptr)
 {
-    MemoryZone* cptr;
-    Data_Get_Struct(ptr, MemoryZone, cptr);
-    return cptr->ptr;
-}
-
-static MemoryZone*
-memory_zone(VALUE ptr)
-{
-    MemoryZone* cptr;
-    Data_Get_Struct(ptr, MemoryZone, cptr);
-    return cptr;
+    return memory_zone(ptr)->ptr;
 }
 
-
 static VALUE
 memory_zone_address(VALUE self)
 {
-- 
2.43.0


From b8822ca39356285d6dd17fe3ff253a87b71c171b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:11 +0000
Subject: [PATCH 47/62] fix: memory allocated by Ruby values leaked when a
 stale zone still referred to its address

---
 bindings/ruby/ext/memory.cc | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/bindings/ruby/ext/memory.cc b/bindings/ruby/ext/memory.cc
index c679235..614bc8f 100644
--- a/bindings/ruby/ext/memory.cc
+++ b/bindings/ruby/ext/memory.cc
@@ -190,8 +190,22 @@ typelib_ruby::memory_delete(void *ptr)
 static void
 memory_register(void *ptr, bool owned, void* root_ptr)
 {
-    if (memory_ref(ptr))
+    MemoryTableEntry* entry = 0;
+    if (st_lookup(MemoryTable, (st_data_t)ptr, (st_data_t*)&entry))
+    {
+        ++(entry->refcount);
+        if (owned && !entry->owned)
+        {
+            // Some zones still refer to an object that used to be there. The
+            // memory has been given back since, and now belongs to us
+            void* old_root = entry->root_ptr;
+            entry->owned = true;
+            entry->root_ptr = 0;
+            if (old_root)
+                memory_unref(old_root);
+        }
         return;
+    }
 
     if (root_ptr && owned)
         rb_raise(rb_eArgError, "given both a root pointer and owned=true for %p", ptr);
@@ -200,7 +214,7 @@ memory_register(void *ptr, bool owned, void* root_ptr)
     if (root_ptr && !memory_ref(root_ptr))
         rb_raise(rb_eArgError, "%p given as root pointer for %p but is not registered", root_ptr, ptr);
 
-    MemoryTableEntry* entry = new MemoryTableEntry(owned, root_ptr);
+    entry = new MemoryTableEntry(owned, root_ptr);
     st_insert(MemoryTable, (st_data_t)ptr, (st_data_t)entry);
 }
 
-- 
2.43.0


From 8b5a408d7e84da7e7b9e12cde171df1a04a3ec4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:40 +0000
Subject: [PATCH 48/62] fix: the CSV output of a NULL pointer crashed

---
 typelib/csvoutput.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/typelib/csvoutput.cc b/typelib/csvoutput.cc
index 4929288..44a5d6b 100644
--- a/typelib/csvoutput.cc
+++ b/typelib/csvoutput.cc
@@ -100,6 +100,16 @@ namespace
             display("<" + type.getName() + ">");
             return true;
         }
+        bool visit_ (Value const& value, Pointer const& type)
+        {
+            if (*reinterpret_cast<void**>(value.getData()))
+                return ValueVisitor::visit_(value, type);
+
+            // There is nothing to display, keep the columns of the header
+            HeaderVisitor header;
+            m_output.insert(m_output.end(), header.apply(type.getIndirection(), "").size(), "NULL");
+            return true;
+        }
         bool visit_ (int8_t  & value)
         {
             if (m_char_as_numeric)
-- 
2.43.0


From 7d2912447ac94e0f39bd923369be845b21b4f430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:28 +0000
Subject: [PATCH 49/62] fix: removing an alias left the names derived from it,
 which then named pointers, arrays and containers of the wrong type

---
 typelib/registry.cc  | 16 ++++++++++++++++
 typelib/typemodel.hh |  3 +++
 2 files changed, 19 insertions(+)

diff --git a/typelib/registry.cc b/typelib/registry.cc
index b472f31..c77c425 100644
--- a/typelib/registry.cc
+++ b/typelib/registry.cc
@@ -472,8 +472,24 @@ namespace Typelib
             );
         }
 
+        Type const* base_type = global_it->second.type;
         m_global.erase(global_it);
         updateCurrentNameMap();
+
+        // The aliases that modifiedDependencyAliases() derived from this one
+        // have no meaning anymore
+        std::list<std::string> derived;
+        for (global_it = m_global.begin(); global_it != m_global.end(); ++global_it)
+        {
+            Indirect const* indirect = dynamic_cast<Indirect const*>(global_it->second.type);
+            if (!indirect || indirect->getName() == global_it->first || &indirect->getIndirection() != base_type)
+                continue;
+            if (indirect->getIndirectTypeName(name) == global_it->first)
+                derived.push_back(global_it->first);
+        }
+        for (std::list<std::string>::const_iterator derived_it = derived.begin();
+                derived_it != derived.end(); ++derived_it)
+            removeAlias(*derived_it);
     }
 
     void Registry::clearAliases()
diff --git a/typelib/typemodel.hh b/typelib/typemodel.hh
index bda1658..d003cc8 100644
--- a/typelib/typemodel.hh
+++ b/typelib/typemodel.hh
@@ -439,6 +439,9 @@ namespace Typelib
     public:
         static const int ValidIDs = Type::Pointer | Type::Array;
 
+        // Needs getIndirectTypeName()
+        friend class Registry;
+
     public:
 
         Indirect(std::string const& name, size_t size, Category category, Type const& on);
-- 
2.43.0


From 392921ff85800548c09477215d971ae5e3eb06d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:51 +0000
Subject: [PATCH 50/62] fix: a missing or empty directory in
 TYPELIB_PLUGIN_PATH made the first use of the plugin manager throw

---
 typelib/pluginmanager.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/typelib/pluginmanager.cc b/typelib/pluginmanager.cc
index 2172e00..0af9363 100644
--- a/typelib/pluginmanager.cc
+++ b/typelib/pluginmanager.cc
@@ -93,8 +93,16 @@ bool PluginManager::loadPluginFromDirectory(std::string const& directory)
     path plugin_dir(directory);
     bool success = false;
 
-    directory_iterator end_it;
-    for (directory_iterator it(plugin_dir); it != end_it; ++it)
+    // One unusable directory must not prevent the others from being used
+    boost::system::error_code error;
+    directory_iterator it(plugin_dir, error), end_it;
+    if (error)
+    {
+        std::cerr << "typelib: can't read plugin directory '" << directory << "': " << error.message() << endl;
+        return false;
+    }
+
+    for (; it != end_it; ++it)
     {
         if (it->path().extension() == ".so" || it->path().extension() == ".dylib")
 #if BOOST_VERSION >= 104600
-- 
2.43.0


From 1cafed7879bd0c72820d8b70c078a499e1f27af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 51/62] fix: types whose name is a single letter ended the
 clang importer with an invalid name

---
 tools/typelib-clang-tlb-importer/NamingConversions.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/typelib-clang-tlb-importer/NamingConversions.cpp b/tools/typelib-clang-tlb-importer/NamingConversions.cpp
index a1c427e..22a7fcd 100644
--- a/tools/typelib-clang-tlb-importer/NamingConversions.cpp
+++ b/tools/typelib-clang-tlb-importer/NamingConversions.cpp
@@ -75,7 +75,7 @@ std::string cxxToTypelibName(const std::string &cxxName) {
     }
 
     // again: explicitly set the whole thing into the global namespace
-    if (typelibName.at(0) != '/' && typelibName.length() > 1)
+    if (typelibName.at(0) != '/')
         typelibName.insert(0, 1, '/');
 
     // woa, thats it, nearly.
-- 
2.43.0


From 8b4a3f4c8404639563d793ddbbe729ff4ac42d17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 52/62] fix: members of types in anonymous namespaces ended the
 clang importer with an invalid name

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index 4e4c186..ea08517 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -341,6 +341,14 @@ TypelibBuilder::registerType(const std::string &canonicalTypeName,
         return type;
     }
 
+    // for example types that refer to something in an anonymous namespace, or
+    // template arguments that are functions
+    if (!Typelib::isValidTypename(canonicalTypeName, true)) {
+        std::cout << "Ignoring '" << canonicalTypeName
+                  << "' as it is no valid Typelib name\n";
+        return NULL;
+    }
+
     if(type->isReferenceType())
     {
         std::cout << "Ignoring type with reference '" << canonicalTypeName << "'\n";
-- 
2.43.0


From cda78ec261068df3303b46c7b96cc2e1668b3dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 53/62] fix: typedefs in anonymous namespaces ended the clang
 importer

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index ea08517..2d2c80e 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -701,10 +701,10 @@ TypelibBuilder::registerTypedefNameDecl(const clang::TypedefNameDecl *decl) {
     std::string forCanonicalType = cxxToTypelibName(decl->getUnderlyingType().getCanonicalType());
 
     if (!Typelib::isValidTypename(typeDefName, true)) {
-        std::cerr << "Error: ignoring typedef '" << typeDefName << "' for '"
+        std::cerr << "Warning: ignoring typedef '" << typeDefName << "' for '"
                   << decl->getQualifiedNameAsString()
                   << "' as it seems to be no valid Typelib name\n";
-        exit(EXIT_FAILURE);
+        return NULL;
     }
 
     if (Typelib::Type const *type = registerType(
-- 
2.43.0


From 984bf4d154d66fe7ab334adca024b9ccbe811aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 54/62] fix: the clang importer made the local typedefs of
 functions global types

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index 2d2c80e..bb3357f 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -697,6 +697,12 @@ bool TypelibBuilder::addMembersOfClassToCompound(
 Typelib::Type const *
 TypelibBuilder::registerTypedefNameDecl(const clang::TypedefNameDecl *decl) {
 
+    if(decl->getParentFunctionOrMethod())
+    {
+        std::cout << "Ignoring typedef '" << decl->getQualifiedNameAsString() << "' as it is defined inside a function" << std::endl;
+        return NULL;
+    }
+
     std::string typeDefName = cxxToTypelibName(decl);
     std::string forCanonicalType = cxxToTypelibName(decl->getUnderlyingType().getCanonicalType());
 
-- 
2.43.0


From cc407bd58982487827b7a2d79e5e023303f1f9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:54 +0000
Subject: [PATCH 55/62] fix: arrays of types with more than one name ended the
 clang importer when they were used twice

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index bb3357f..6b0ccb5 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -443,6 +443,13 @@ TypelibBuilder::addArray(const std::string &canonicalTypeName,
     Typelib::Array *array = new Typelib::Array(
         *typelibArrayElementType, arrayType->getSize().getZExtValue());
 
+    // the element type may have other names under which the same array has
+    // been registered already
+    if (Typelib::Type const *existing = registry.get(array->getName())) {
+        delete array;
+        return existing;
+    }
+
     registry.add(array);
 
     return array;
-- 
2.43.0


From 911d0b5d00ad5134467c3308eef627fe4333c980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 56/62] fix: the clang importer gave enumerations of other
 sizes than int the wrong size and truncated values

---
 .../typelib-clang-tlb-importer/TypelibBuilder.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index 6b0ccb5..bf18fb7 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -472,6 +472,21 @@ TypelibBuilder::addEnum(const std::string &canonicalTypeName,
         return NULL;
     }
 
+    if (decl->isDependentType() || decl->isInvalidDecl()) {
+        std::cout << "Ignoring enum '" << canonicalTypeName
+                  << "' as it is dependent / invalid\n";
+        return NULL;
+    }
+
+    // typelib has only enums that are as big as an int
+    uint64_t enumSizeInBits =
+        decl->getASTContext().getTypeSize(decl->getTypeForDecl());
+    if (enumSizeInBits != 8 * sizeof(Typelib::Enum::integral_type)) {
+        std::cout << "Ignoring enum '" << canonicalTypeName
+                  << "' because of its size of " << enumSizeInBits << " bits\n";
+        return NULL;
+    }
+
     Typelib::Enum *enumVal = new Typelib::Enum(canonicalTypeName);
 
     for (clang::EnumDecl::enumerator_iterator it = decl->enumerator_begin();
-- 
2.43.0


From f01e104d1df304cf41bb4d456aa0a7008a30b983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 57/62] fix: the clang importer put the members of all base
 classes at the start of the compound, virtual ones included

---
 .../TypelibBuilder.cpp                        | 22 ++++++++++++++++---
 .../TypelibBuilder.hpp                        |  5 ++++-
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index bf18fb7..a4ced61 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -634,7 +634,7 @@ TypelibBuilder::addRecord(const std::string &canonicalTypeName,
 
 bool TypelibBuilder::addMembersOfClassToCompound(
     Typelib::Compound &compound, const std::string &canonicalTypeName,
-    const clang::CXXRecordDecl *decl) {
+    const clang::CXXRecordDecl *decl, size_t baseOffset) {
 
     // this will be used for later querying of the byte-offset
     const clang::ASTRecordLayout &typeLayout(
@@ -689,7 +689,7 @@ bool TypelibBuilder::addMembersOfClassToCompound(
             return false;
         }
 
-        fieldOffset /= 8;
+        fieldOffset = fieldOffset / 8 + baseOffset;
 
         // meta-data is not added here, but should be added in the
         // "registerType" for this thing
@@ -706,7 +706,23 @@ bool TypelibBuilder::addMembersOfClassToCompound(
         const clang::CXXRecordDecl *curDecl =
             it->getType()->getAsCXXRecordDecl();
 
-        if (!addMembersOfClassToCompound(compound, canonicalTypeName, curDecl)) {
+        // where a virtual base is depends on the class that is finally used
+        size_t curOffset = baseOffset;
+        if (!it->isVirtual()) {
+            curOffset += typeLayout.getBaseClassOffset(curDecl).getQuantity();
+        }
+        size_t fieldCount = compound.getFields().size();
+
+        if (!addMembersOfClassToCompound(compound, canonicalTypeName, curDecl,
+                                         curOffset)) {
+            return false;
+        }
+
+        if (it->isVirtual() && compound.getFields().size() != fieldCount) {
+            std::cout << "Warning, cannot add the members of base-class '"
+                      << cxxToTypelibName(curDecl) << "' to record '"
+                      << canonicalTypeName
+                      << "' because the inheritance is virtual\n";
             return false;
         }
     }
diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.hpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.hpp
index 82bacee..1ee1dfd 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.hpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.hpp
@@ -92,11 +92,14 @@ private:
      *
      * does not test for private-ness anywhere.
      *
+     * @param baseOffset where the given decl is within the compound
+     *
      * @return true if everything worked. false if some member-variable failed to be added
      */
     bool addMembersOfClassToCompound(Typelib::Compound &compound,
                                      const std::string &canonicalTypeName,
-                                     const clang::CXXRecordDecl *decl);
+                                     const clang::CXXRecordDecl *decl,
+                                     size_t baseOffset = 0);
 
     Typelib::Type const *addRecord(const std::string &canonicalTypeName,
                                    const clang::CXXRecordDecl *decl);
-- 
2.43.0


From ba9968c7aae169bf328c8990a4d346b23553f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 58/62] fix: the clang importer added inaccessible members of
 privately inherited classes to further derived classes

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index a4ced61..1d2bc17 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -725,6 +725,15 @@ bool TypelibBuilder::addMembersOfClassToCompound(
                       << "' because the inheritance is virtual\n";
             return false;
         }
+
+        if (it->getAccessSpecifier() == clang::AS_private &&
+            compound.getFields().size() != fieldCount) {
+            std::cout << "Warning, cannot add the members of base-class '"
+                      << cxxToTypelibName(curDecl) << "' to record '"
+                      << canonicalTypeName
+                      << "' because the inheritance is private\n";
+            return false;
+        }
     }
 
     // if we reach here everything worked fine and we got ourselfs a ready-made
-- 
2.43.0


From 39e2c45e59965c4b191d8a536ba5a6707c30c9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 59/62] fix: the clang importer made compounds with several
 fields of the same name

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index 1d2bc17..ac7d6bf 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -689,6 +689,15 @@ bool TypelibBuilder::addMembersOfClassToCompound(
             return false;
         }
 
+        // typelib accesses members by name only
+        if (compound.getField(fit->getNameAsString())) {
+            std::cout << "Warning, cannot add field '"
+                      << fit->getNameAsString() << "' to record '"
+                      << canonicalTypeName
+                      << "' because it is hidden by another one\n";
+            return false;
+        }
+
         fieldOffset = fieldOffset / 8 + baseOffset;
 
         // meta-data is not added here, but should be added in the
-- 
2.43.0


From cfb7e84685828aedeb4affef173ef13d0eab89cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:38 +0000
Subject: [PATCH 60/62] fix: the clang importer added private records and
 typedefs

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index ac7d6bf..8368dd5 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -532,6 +532,12 @@ TypelibBuilder::addRecord(const std::string &canonicalTypeName,
         return NULL;
     }
 
+    if (decl->getAccess() == clang::AS_private) {
+        std::cout << "Ignoring record '" << canonicalTypeName
+                  << "' because the access is private\n";
+        return NULL;
+    }
+
     if(decl->isDependentType() || decl->isInvalidDecl())
     {
         //ignore incomplete / forward declared types
@@ -759,6 +765,12 @@ TypelibBuilder::registerTypedefNameDecl(const clang::TypedefNameDecl *decl) {
         return NULL;
     }
 
+    if (decl->getAccess() == clang::AS_private) {
+        std::cout << "Ignoring typedef '" << decl->getQualifiedNameAsString()
+                  << "' because the access is private\n";
+        return NULL;
+    }
+
     std::string typeDefName = cxxToTypelibName(decl);
     std::string forCanonicalType = cxxToTypelibName(decl->getUnderlyingType().getCanonicalType());
 
-- 
2.43.0


From ac1cd52241d86aa4132094de60b003530840eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 61/62] fix: the clang importer dropped typedefs of ignored
 typedefs unless the type was known already

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index 8368dd5..84487e8 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -384,8 +384,15 @@ TypelibBuilder::registerType(const std::string &canonicalTypeName,
         }
         case clang::Type::Typedef:
         {
-            return registerTypedefNameDecl(
-                type->getAs<clang::TypedefType>()->getDecl());
+            if (Typelib::Type const *typedefType = registerTypedefNameDecl(
+                    type->getAs<clang::TypedefType>()->getDecl())) {
+                return typedefType;
+            }
+
+            // maybe only the typedef is ignored, and not what it names
+            return registerType(canonicalTypeName,
+                                type->getCanonicalTypeInternal().getTypePtr(),
+                                context);
         }
         case clang::Type::Elaborated:
         {
-- 
2.43.0


From 6baea7688177c630eb5c5dc70d4331c5e37e58dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:18 +0000
Subject: [PATCH 62/62] fix: typedefs of arrays of const records ended the
 clang importer

---
 tools/typelib-clang-tlb-importer/TypelibBuilder.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
index 84487e8..cfb56ea 100644
--- a/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
+++ b/tools/typelib-clang-tlb-importer/TypelibBuilder.cpp
@@ -792,7 +792,8 @@ TypelibBuilder::registerTypedefNameDecl(const clang::TypedefNameDecl *decl) {
             forCanonicalType, decl->getUnderlyingType().getTypePtr(),
             decl->getASTContext())) {
 
-            registry.alias(forCanonicalType, typeDefName);
+            // the type may have another name, as for arrays of const records
+            registry.alias(type->getName(), typeDefName);
 
             std::cout << "Found Typedef '" << typeDefName << "'"
                       << " of '"
-- 
2.43.0

