From 1e2030d6d85375db62f9b57cfb7e045736bace1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 01/68] fix: SerializeHelper::serializeSubstring() wrote the
 size but not the characters

---
 src/misc/serializeHelper.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/serializeHelper.cpp b/src/misc/serializeHelper.cpp
index 822ddec..06f471d 100644
--- a/src/misc/serializeHelper.cpp
+++ b/src/misc/serializeHelper.cpp
@@ -83,10 +83,10 @@ namespace epics {
                 offset = 0;
             else*/ if(offset>value.length()) offset = value.length();
 
-            if(offset+count>value.length()) count = value.length()-offset;
+            if(count>value.length()-offset) count = value.length()-offset;
 
             SerializeHelper::writeSize(count, buffer, flusher);
-            /*if (count<=0)*/ return;
+            if (count<=0) return;
             std::size_t i = 0;
             while(true) {
                 std::size_t maxToWrite = min(count-i, buffer->getRemaining());
-- 
2.43.0


From d2b1fec9a5d06cc1f962361419531d20e1263161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:03 +0000
Subject: [PATCH 02/68] fix: reject out of range type codes in
 Status::deserialize()

---
 src/misc/status.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/misc/status.cpp b/src/misc/status.cpp
index 0edd0f3..1800110 100644
--- a/src/misc/status.cpp
+++ b/src/misc/status.cpp
@@ -6,6 +6,8 @@
 /**
  *  @author mrk
  */
+#include <stdexcept>
+
 #define epicsExportSharedSymbols
 #include <pv/epicsException.h>
 #include <pv/serializeHelper.h>
@@ -74,6 +76,8 @@ void Status::deserialize(ByteBuffer *buffer, DeserializableControl *flusher)
     }
     else
     {
+        if (typeCode < STATUSTYPE_OK || typeCode > STATUSTYPE_FATAL)
+            throw std::runtime_error("Status::deserialize(), invalid status type");
         m_statusType = (StatusType)typeCode;
         m_message = SerializeHelper::deserializeString(buffer, flusher);
         m_stackDump = SerializeHelper::deserializeString(buffer, flusher);
-- 
2.43.0


From b3a6ab8ba60942b90830ae186025f30883cb382d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 03/68] fix: PVValueArray::deserialize() dropped data received
 by directDeserialize()

---
 src/factory/PVDataCreateFactory.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 6826e62..3ab7692 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -330,6 +330,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     if (!pbuffer->reverse<T>())
         if (pcontrol->directDeserialize(pbuffer, (char*)cur, size, sizeof(T)))
         {
+        value = freeze(nextvalue);
         // inform about the change?
         PVField::postPut();
         return;
-- 
2.43.0


From e8edebc60208781573b67d74547110ccd7343008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 04/68] fix: serializing part of a structure or union array
 read past its end

---
 src/factory/PVStructureArray.cpp | 3 ++-
 src/factory/PVUnionArray.cpp     | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 66577b5..ac03859 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -191,10 +191,11 @@ void PVStructureArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-        SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+        SerializeHelper::writeSize(count, pbuffer, pflusher);
     else if (count != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 151bc5b..b7845a1 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -190,10 +190,11 @@ void PVUnionArray::serialize(ByteBuffer *pbuffer,
 
     const_svector temp(view());
     temp.slice(offset, count);
+    count = temp.size();
 
     ArrayConstPtr array = this->getArray();
     if (array->getArraySizeType() != Array::fixed)
-        SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+        SerializeHelper::writeSize(count, pbuffer, pflusher);
     else if (count != array->getMaximumCapacity())
         throw std::length_error("fixed array cannot be partially serialized");
 
-- 
2.43.0


From 075954ac4f56a0f8d573acbf0e66a2957c496340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:03 +0000
Subject: [PATCH 05/68] fix: refuse to serialize part of a fixed size string
 array, as for other element types

---
 src/factory/PVDataCreateFactory.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 3ab7692..15cf71c 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -440,9 +440,11 @@ void PVValueArray<string>::serialize(ByteBuffer *pbuffer,
     const_svector temp(value);
     temp.slice(offset, count);
 
-    // TODO if fixed count == getArray()->getMaximumCapacity()
-    if (this->getArray()->getArraySizeType() != Array::fixed)
+    ArrayConstPtr array = this->getArray();
+    if (array->getArraySizeType() != Array::fixed)
         SerializeHelper::writeSize(temp.size(), pbuffer, pflusher);
+    else if (temp.size() != array->getMaximumCapacity())
+        throw std::length_error("fixed array cannot be partially serialized");
 
     const string * pvalue = temp.data();
     for(size_t i = 0; i<temp.size(); i++) {
-- 
2.43.0


From 704dc73a9caba4ae1fed7653fa63485a9bfc84ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:06 +0000
Subject: [PATCH 06/68] fix: a structure or union array without a matching
 element type is refused, also when received

---
 src/factory/FieldCreateFactory.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index 6c5f9b0..f518989 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -418,6 +418,8 @@ void FixedScalarArray::serialize(ByteBuffer *buffer, SerializableControl *contro
 StructureArray::StructureArray(StructureConstPtr const & structure)
 : Array(structureArray),pstructure(structure)
 {
+    if(structure.get()==NULL)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't construct StructureArray, NULL structure");
 }
 
 StructureArray::~StructureArray()
@@ -458,6 +460,8 @@ std::tr1::shared_ptr<PVValueArray<std::tr1::shared_ptr<PVStructure> > > Structur
 UnionArray::UnionArray(UnionConstPtr const & _punion)
 : Array(unionArray),punion(_punion)
 {
+    if(punion.get()==NULL)
+        THROW_EXCEPTION2(std::invalid_argument, "Can't construct UnionArray, NULL union");
 }
 
 UnionArray::~UnionArray()
@@ -1561,7 +1565,7 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.structureArray;
-            StructureConstPtr elementStructure = std::tr1::static_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
+            StructureConstPtr elementStructure = std::tr1::dynamic_pointer_cast<const Structure>(control->cachedDeserialize(buffer));
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new StructureArray(elementStructure));
             Helper::cache(this, sp);
@@ -1574,7 +1578,7 @@ FieldConstPtr FieldCreate::deserialize(ByteBuffer* buffer, DeserializableControl
                 throw std::invalid_argument("fixed and bounded structure array not supported");
 
             // Type type = Type.unionArray;
-            UnionConstPtr elementUnion = std::tr1::static_pointer_cast<const Union>(control->cachedDeserialize(buffer));
+            UnionConstPtr elementUnion = std::tr1::dynamic_pointer_cast<const Union>(control->cachedDeserialize(buffer));
             // TODO use std::make_shared
             std::tr1::shared_ptr<Field> sp(new UnionArray(elementUnion));
             Helper::cache(this, sp);
-- 
2.43.0


From 564696db8b28f66c45c003fb27c87425d2389185 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:42 +0000
Subject: [PATCH 07/68] fix: received values may not exceed the limit of a
 bounded string or bounded array

---
 src/factory/PVDataCreateFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 15cf71c..d0c7fed 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -128,8 +128,7 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
-    storage.value = SerializeHelper::deserializeString(pbuffer, pflusher);
-    // TODO: check for violations of maxLength?
+    storage.store(SerializeHelper::deserializeString(pbuffer, pflusher));
 }
 
 PVString::PVString(ScalarConstPtr const & scalar)
@@ -319,6 +318,7 @@ void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
     nextvalue.resize(size); // TODO: avoid copy of stuff we will then overwrite
@@ -413,6 +413,7 @@ void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
                 SerializeHelper::readSize(pbuffer, pcontrol);
+    this->checkLength(size);
 
     svector nextvalue(thaw(value));
 
-- 
2.43.0


From 8f2b157ce7373c951ef477b40adc1398ea996826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:32 +0000
Subject: [PATCH 08/68] fix: PVUnion::deserialize() accepted selectors which
 are out of bounds

---
 src/factory/PVUnion.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index a52687b..7a394bc 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -158,21 +158,26 @@ void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
     }
     else
     {
-        int32 previousSelector = selector;
-        selector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
-        if (selector != UNDEFINED_INDEX)
+        int32 nextSelector = static_cast<int32>(SerializeHelper::readSize(pbuffer, pcontrol));
+        if (nextSelector != UNDEFINED_INDEX)
         {
-            if (selector != previousSelector)
+            if (nextSelector < 0 || size_t(nextSelector) >= unionPtr->getNumberFields())
+                throw std::invalid_argument("union selector out of bounds");
+            if (nextSelector != selector)
             {
-                FieldConstPtr field = unionPtr->getField(selector);
+                FieldConstPtr field = unionPtr->getField(nextSelector);
                 // try to reuse existing field instance
                 if (!value.get() || *value->getField() != *field)
                     value = pvDataCreate->createPVField(field);
+                selector = nextSelector;
             }
             value->deserialize(pbuffer, pcontrol);
         }
         else
+        {
+            selector = UNDEFINED_INDEX;
             value.reset();
+        }
     }
 }
 
-- 
2.43.0


From 338671898a15e7a36bf4cd6f88a973a31f0ea45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 09/68] fix: compare() of types ignored the bounds of bounded
 strings and of bounded and fixed arrays

---
 src/factory/Compare.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index 1e53608..ff60b31 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -69,14 +69,22 @@ bool compare(const Scalar& a, const Scalar& b)
 {
     if(&a==&b)
         return true;
-    return a.getScalarType()==b.getScalarType();
+    if(a.getScalarType()!=b.getScalarType())
+        return false;
+    const BoundedString *A=dynamic_cast<const BoundedString*>(&a);
+    const BoundedString *B=dynamic_cast<const BoundedString*>(&b);
+    if(!A || !B)
+        return !A && !B;
+    return compare(*A, *B);
 }
 
 bool compare(const ScalarArray& a, const ScalarArray& b)
 {
     if(&a==&b)
         return true;
-    return a.getElementType()==b.getElementType();
+    return a.getElementType()==b.getElementType()
+        && a.getArraySizeType()==b.getArraySizeType()
+        && a.getMaximumCapacity()==b.getMaximumCapacity();
 }
 
 bool compare(const Structure& a, const Structure& b)
-- 
2.43.0


From 76c6dc00169a8fc99ec86262722c7b62a1048846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:55 +0000
Subject: [PATCH 10/68] fix: comparing a set with an unset variant union
 dereferenced NULL

---
 src/factory/Compare.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/factory/Compare.cpp b/src/factory/Compare.cpp
index ff60b31..c959413 100644
--- a/src/factory/Compare.cpp
+++ b/src/factory/Compare.cpp
@@ -280,10 +280,11 @@ bool compareField(const PVUnion* left, const PVUnion* right)
     if (ls->isVariant())
     {
         const PVField::const_shared_pointer& lval = left->get();
-        if (lval.get() == 0)
-            return right->get().get() == 0;
+        const PVField::const_shared_pointer& rval = right->get();
+        if (lval.get() == 0 || rval.get() == 0)
+            return lval.get() == rval.get();
         else
-            return *(lval.get()) == *(right->get().get());
+            return *(lval.get()) == *(rval.get());
     }
     else
     {
-- 
2.43.0


From 033320a036005a5527fa7b2dfd54618d934ba110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 11/68] fix: createPVField(value) of a structure took the
 fields away from the original instead of copying them

---
 src/factory/PVDataCreateFactory.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index d0c7fed..36fc205 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -520,9 +520,7 @@ PVFieldPtr PVDataCreate::createPVField(PVFieldPtr const & fieldToClone)
          {
              PVStructurePtr pvStructure
                    = static_pointer_cast<PVStructure>(fieldToClone);
-             StringArray const & fieldNames = pvStructure->getStructure()->getFieldNames();
-             PVFieldPtrArray const & pvFieldPtrArray = pvStructure->getPVFields();
-             return createPVStructure(fieldNames,pvFieldPtrArray);
+             return createPVStructure(pvStructure);
          }
      case structureArray:
          {
-- 
2.43.0


From 35ffc086535c42e9c4e67bbccba1c8549d9f8392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 12/68] fix: cloning a bounded string or a bounded or fixed
 array lost the bound

---
 src/factory/PVDataCreateFactory.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 36fc205..c6846bc 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -592,8 +592,7 @@ PVScalarPtr PVDataCreate::createPVScalar(ScalarType scalarType)
 
 PVScalarPtr PVDataCreate::createPVScalar(PVScalarPtr const & scalarToClone)
 {
-     ScalarType scalarType = scalarToClone->getScalar()->getScalarType();
-     PVScalarPtr pvScalar = createPVScalar(scalarType);
+     PVScalarPtr pvScalar = createPVScalar(scalarToClone->getScalar());
      pvScalar->copyUnchecked(*scalarToClone);
      return pvScalar;
 }
@@ -642,7 +641,7 @@ PVScalarArrayPtr PVDataCreate::createPVScalarArray(
         PVScalarArrayPtr const & arrayToClone)
 {
      PVScalarArrayPtr pvArray = createPVScalarArray(
-          arrayToClone->getScalarArray()->getElementType());
+          arrayToClone->getScalarArray());
      pvArray->assign(*arrayToClone.get());
     return pvArray;
 }
-- 
2.43.0


From 5a035707396dc03a084ca6ecb28ca2accd62ce30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:12 +0000
Subject: [PATCH 13/68] fix: cloning a union without a value dereferenced NULL

---
 src/factory/PVDataCreateFactory.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index c6846bc..673cd0a 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -710,8 +710,9 @@ PVStructurePtr PVDataCreate::createPVStructure(PVStructurePtr const & structToCl
 PVUnionPtr PVDataCreate::createPVUnion(PVUnionPtr const & unionToClone)
 {
     PVUnionPtr punion(new PVUnion(unionToClone->getUnion()));
-    // set cloned value
-    punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
+    // set cloned value, if there is one
+    if(unionToClone->get())
+        punion->set(unionToClone->getSelectedIndex(), createPVField(unionToClone->get()));
     return punion;
 }
 
-- 
2.43.0


From 978cdd210250aa25f0fc33a4ea72f92cb6af5fb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:56 +0000
Subject: [PATCH 14/68] fix: members given to createPVStructure(names,pvFields)
 kept offsets cached before

---
 src/factory/PVStructure.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/factory/PVStructure.cpp b/src/factory/PVStructure.cpp
index ff14b81..13ce15d 100644
--- a/src/factory/PVStructure.cpp
+++ b/src/factory/PVStructure.cpp
@@ -58,6 +58,8 @@ PVStructure::PVStructure(StructureConstPtr const & structurePtr,
     for(size_t i=0; i<numberFields; i++) {
         pvFields[i]->setParentAndName(this,fieldNames[i]);
     }
+    // the members may have cached the offsets they had on their own
+    getNextFieldOffset();
 }
 
 PVStructure::~PVStructure() {}
-- 
2.43.0


From 799c1a86c8b779d8522200b65fd780f9d50fd14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 15/68] fix: setLength() of a structure or union array to its
 present length emptied it

---
 src/factory/PVStructureArray.cpp | 8 ++++----
 src/factory/PVUnionArray.cpp     | 7 ++++---
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index ac03859..581bf88 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -123,14 +123,14 @@ void PVStructureArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index b7845a1..a85c9b3 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -123,13 +123,14 @@ void PVUnionArray::setLength(size_t length)
 {
     if(this->isImmutable())
         THROW_EXCEPTION2(std::logic_error, "immutable");
-    const_svector value;
-    swap(value);
-    if (length == value.size())
+    if (length == getLength())
         return;
 
     checkLength(length);
 
+    const_svector value;
+    swap(value);
+
     if (length < value.size()) {
         value.slice(0, length);
     } else {
-- 
2.43.0


From 1f69ebf082509e2db2a86e23cf28928475b0b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 16/68] fix: append() and remove() of structure and union
 arrays overflowed for huge arguments

---
 src/factory/PVStructureArray.cpp | 4 +++-
 src/factory/PVUnionArray.cpp     | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index 581bf88..f00dfb7 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -23,6 +23,8 @@ namespace epics { namespace pvData {
 
 size_t PVStructureArray::append(size_t number)
 {
+    if (number>value.max_size()-value.size())
+        throw std::length_error("too many elements to append");
     checkLength(value.size()+number);
 
     svector data(reuse());
@@ -46,7 +48,7 @@ bool PVStructureArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (offset>getLength() || number>getLength()-offset)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index a85c9b3..54705bd 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -23,6 +23,8 @@ namespace epics { namespace pvData {
 
 size_t PVUnionArray::append(size_t number)
 {
+    if (number>value.max_size()-value.size())
+        throw std::length_error("too many elements to append");
     checkLength(value.size()+number);
 
     svector data(reuse());
@@ -46,7 +48,7 @@ bool PVUnionArray::remove(size_t offset,size_t number)
 {
     if (number==0)
         return true;
-    else if (offset+number>getLength())
+    else if (offset>getLength() || number>getLength()-offset)
         return false;
     else if (getArray()->getArraySizeType() == Array::fixed)
         return false;
-- 
2.43.0


From d3410a8bc9b6d05edf9b644a7a057677a062019f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 17/68] fix: shared_vector::reserve() dropped elements of
 shared data when asked for less than size()

---
 src/misc/pv/sharedVector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 905ee5e..32a91af 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -429,8 +429,8 @@ public:
         if(this->unique() && i<=this->m_total)
             return;
         size_t new_count = this->m_count;
-        if(new_count > i)
-            new_count = i;
+        if(i < new_count)
+            i = new_count; // never drop elements
         _E_non_const* temp=new _E_non_const[i];
         try{
             std::copy(begin(), begin()+new_count, temp);
-- 
2.43.0


From 26f73638551cbd363eb8afa0c967681f0eca3ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 18/68] fix: shared_vector::at(size()) did not throw

---
 src/misc/pv/sharedVector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 32a91af..f3343e2 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -623,7 +623,7 @@ public:
     //! @throws std::out_of_range if i>=size().
     reference at(size_t i) const
     {
-        if(i>this->m_count)
+        if(i>=this->m_count)
             throw std::out_of_range("Index out of bounds");
         return (*this)[i];
     }
-- 
2.43.0


From 72187fc702fa93e62a81c2b62694dec6ef3f0566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:30 +0000
Subject: [PATCH 19/68] fix: replace() changed immutable arrays, although
 documented to fail

---
 src/factory/PVDataCreateFactory.cpp | 3 +++
 src/pv/pvData.h                     | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 673cd0a..2555ebd 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -287,6 +287,9 @@ void PVValueArray<T>::setLength(size_t length)
 template<typename T>
 void PVValueArray<T>::replace(const const_svector& next)
 {
+    if(this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
+
     this->checkLength(next.size());
 
     value = next;
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index a33fb0e..8bbcd0a 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -1297,6 +1297,8 @@ public:
     virtual const_svector view() const OVERRIDE FINAL { return value; }
     virtual void swap(const_svector &other) OVERRIDE FINAL;
     virtual void replace(const const_svector &other) OVERRIDE FINAL {
+        if(isImmutable())
+            throw std::logic_error("immutable");
         checkLength(other.size());
         value = other;
         PVField::postPut();
@@ -1396,6 +1398,8 @@ public:
     virtual const_svector view() const OVERRIDE { return value; }
     virtual void swap(const_svector &other) OVERRIDE;
     virtual void replace(const const_svector &other) OVERRIDE FINAL {
+        if(isImmutable())
+            throw std::logic_error("immutable");
         checkLength(other.size());
         value = other;
         PVField::postPut();
-- 
2.43.0


From 8f94c5e123f3fd987afd4ba3ec248e91a27ed4f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:31 +0000
Subject: [PATCH 20/68] fix: shared_vector push_back() and resize() with one of
 its own elements used freed memory

---
 src/misc/pv/sharedVector.h | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index f3343e2..5eecea6 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -497,9 +497,13 @@ public:
      */
     void resize(size_t i, param_type v) {
         size_t oldsize=this->size();
-        resize(i);
-        if(this->size()>oldsize) {
-            std::fill(begin()+oldsize, end(), v);
+        if(i>oldsize) {
+            // v may refer to one of our own elements
+            const _E_non_const temp(v);
+            resize(i);
+            std::fill(begin()+oldsize, end(), temp);
+        } else {
+            resize(i);
         }
     }
 
@@ -601,8 +605,10 @@ public:
 
     void push_back(param_type v)
     {
+        // v may refer to one of our own elements
+        const _E_non_const temp(v);
         _push_resize();
-        back() = v;
+        back() = temp;
     }
 
     void pop_back()
-- 
2.43.0


From c2effb5cccd6e3134080b083fa93aab59316cb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:06 +0000
Subject: [PATCH 21/68] fix: thaw() of a shared slice which does not begin with
 the first element read out of bounds

---
 src/misc/pv/sharedVector.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/sharedVector.h b/src/misc/pv/sharedVector.h
index 5eecea6..3e8610e 100644
--- a/src/misc/pv/sharedVector.h
+++ b/src/misc/pv/sharedVector.h
@@ -159,7 +159,8 @@ namespace detail {
             ,m_count(O.m_count)
             ,m_total(O.m_total)
         {
-            O.make_unique();
+            O.make_unique(); // may also change the offset
+            m_offset = O.m_offset;
 #if __cplusplus >= 201103L
             m_sdata = std::move(std::tr1::const_pointer_cast<E>(O.m_sdata));
 #else
-- 
2.43.0


From 3095fe0802b85e2f654e1b57914de273de050ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 22/68] fix: array conversion errors always named element 0 as
 the one which failed

---
 src/misc/typeCast.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/misc/typeCast.cpp b/src/misc/typeCast.cpp
index 8ae3688..7bb93d6 100644
--- a/src/misc/typeCast.cpp
+++ b/src/misc/typeCast.cpp
@@ -33,8 +33,9 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
 
     //std::transform(src, src+count, dest, castUnsafe<TO,FROM>);
 
+    size_t i=0;
     try {
-        for(size_t i=0; i<count; i++) {
+        for(; i<count; i++) {
             dest[i] = castUnsafe<TO,FROM>(src[i]);
         }
     } catch (std::exception& ex) {
@@ -42,7 +43,7 @@ static void castVTyped(size_t count, void *draw, const void *sraw)
         if (count > 1)
         {
             std::ostringstream os;
-            os << "failed to parse element at index " << (src - (FROM*)sraw);
+            os << "failed to parse element at index " << i;
             os << ": " << ex.what();
             throw std::runtime_error(os.str());
         }
-- 
2.43.0


From 8f2a0b5069c42892e208028c051331fb920fa324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:14 +0000
Subject: [PATCH 23/68] fix: Convert::toLong() truncated the value to 32 bits

---
 src/pv/convert.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pv/convert.h b/src/pv/convert.h
index 2a4395b..1967166 100644
--- a/src/pv/convert.h
+++ b/src/pv/convert.h
@@ -167,7 +167,7 @@ public:
      * @return converted value
      * @throws std::invalid_argument if the Type is not a numeric scalar
      */
-    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int32>();}
+    inline int64 toLong(PVScalarPtr const & pv) { return pv->getAs<int64>();}
     /**
      * Convert a PV to a ubyte.
      * @param pv a PV
-- 
2.43.0


From 150e94d12635adf34bd40ecd35f593b259ea339b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 24/68] fix: sub-array copy read out of bounds when the offset
 lies behind the end of the source

---
 src/factory/pvSubArrayCopy.cpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index 35b03ed..af63e8f 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -19,6 +19,17 @@ using std::string;
 
 namespace epics { namespace pvData {
 
+namespace {
+
+// throws unless count elements, stride apart, lie within the source
+void checkSource(size_t length, size_t offset, size_t stride, size_t count)
+{
+    size_t maxcount = offset<length ? (length-offset-1)/stride+1 : 0;
+    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+}
+
+}
+
 template<typename T>
 void copy(
     PVValueArray<T> & pvFrom,
@@ -32,8 +43,7 @@ void copy(
     if(pvTo.isImmutable()) throw std::invalid_argument("pvSubArrayCopy: pvTo is immutable");
     if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     size_t fromLength = pvFrom.getLength();
-    size_t maxcount = (fromLength -fromOffset + fromStride -1)/fromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    checkSource(fromLength, fromOffset, fromStride, count);
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
@@ -170,8 +180,7 @@ void copy(
             "pvSubArrayCopy structureArray pvTo and pvFrom have different structures");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    checkSource(pvFromLength, pvFromOffset, pvFromStride, count);
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
@@ -206,8 +215,7 @@ void copy(
             "pvSubArrayCopy unionArray pvTo and pvFrom have different unions");
     }
     size_t pvFromLength = pvFrom.getLength();
-    size_t maxcount = (pvFromLength -pvFromOffset + pvFromStride -1)/pvFromStride;
-    if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
+    checkSource(pvFromLength, pvFromOffset, pvFromStride, count);
     size_t newLength = toOffset + count*toStride;
     size_t capacity = pvTo.getCapacity();
     if(newLength>capacity) capacity = newLength;
-- 
2.43.0


From c43b634cce6e08b3ecad306b72c7afdfbd83a633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:44 +0000
Subject: [PATCH 25/68] fix: sub-array copy made the destination longer than
 the last element written

---
 src/factory/pvSubArrayCopy.cpp | 35 +++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/src/factory/pvSubArrayCopy.cpp b/src/factory/pvSubArrayCopy.cpp
index af63e8f..f501435 100644
--- a/src/factory/pvSubArrayCopy.cpp
+++ b/src/factory/pvSubArrayCopy.cpp
@@ -28,6 +28,17 @@ void checkSource(size_t length, size_t offset, size_t stride, size_t count)
     if(count>maxcount) throw std::invalid_argument("pvSubArrayCopy pvFrom length error");
 }
 
+// the length of the destination after copying count elements, stride apart
+size_t destinationLength(size_t length, size_t offset, size_t stride, size_t count)
+{
+    if(count==0) return length;
+    size_t limit = size_t(-1) - offset - 1;
+    if(offset==size_t(-1) || (count>1 && stride>limit/(count-1)))
+        throw std::invalid_argument("pvSubArrayCopy pvTo length error");
+    size_t newLength = offset + (count-1)*stride + 1;
+    return newLength>length ? newLength : length;
+}
+
 }
 
 template<typename T>
@@ -44,14 +55,12 @@ void copy(
     if(fromStride<1 || toStride<1) throw std::invalid_argument("stride must be >=1");
     size_t fromLength = pvFrom.getLength();
     checkSource(fromLength, fromOffset, fromStride, count);
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<T> temp(capacity);
+    size_t newLength = destinationLength(pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<T> temp(newLength);
     typename PVValueArray<T>::const_svector vecFrom = pvFrom.view();
     typename PVValueArray<T>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i) temp[i] = T();
+    for(size_t i=pvTo.getLength(); i< newLength; ++i) temp[i] = T();
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*fromStride+fromOffset];
     shared_vector<const T> temp2(freeze(temp));
     pvTo.replace(temp2);
@@ -181,14 +190,12 @@ void copy(
     }
     size_t pvFromLength = pvFrom.getLength();
     checkSource(pvFromLength, pvFromOffset, pvFromStride, count);
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVStructurePtr> temp(capacity);
+    size_t newLength = destinationLength(pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVStructurePtr> temp(newLength);
     PVValueArray<PVStructurePtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVStructurePtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVStructure(toStructure->getStructure());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVStructurePtr> temp2(freeze(temp));
@@ -216,14 +223,12 @@ void copy(
     }
     size_t pvFromLength = pvFrom.getLength();
     checkSource(pvFromLength, pvFromOffset, pvFromStride, count);
-    size_t newLength = toOffset + count*toStride;
-    size_t capacity = pvTo.getCapacity();
-    if(newLength>capacity) capacity = newLength;
-    shared_vector<PVUnionPtr> temp(capacity);
+    size_t newLength = destinationLength(pvTo.getLength(), toOffset, toStride, count);
+    shared_vector<PVUnionPtr> temp(newLength);
     PVValueArray<PVUnionPtr>::const_svector vecFrom = pvFrom.view();
     PVValueArray<PVUnionPtr>::const_svector vecTo = pvTo.view();
     for(size_t i=0; i<pvTo.getLength(); ++i) temp[i] = vecTo[i];
-    for(size_t i=pvTo.getLength(); i< capacity; ++i)
+    for(size_t i=pvTo.getLength(); i< newLength; ++i)
         temp[i] = getPVDataCreate()->createPVUnion(toUnion->getUnion());
     for(size_t i=0; i<count; ++i) temp[i*toStride + toOffset] = vecFrom[i*pvFromStride+pvFromOffset];
     shared_vector<const PVUnionPtr> temp2(freeze(temp));
-- 
2.43.0


From ce92d07f4a24dca719608ebe1bb24ada83651da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 26/68] fix: FieldBuilder add() and addArray() of a null field
 crashed

---
 src/factory/FieldCreateFactory.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index f518989..be62b4f 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1021,6 +1021,8 @@ FieldBuilderPtr FieldBuilder::addBoundedString(std::string const & name, std::si
 
 FieldBuilderPtr FieldBuilder::add(string const & name, FieldConstPtr const & field)
 {
+    if(!field)
+        THROW_EXCEPTION2(std::invalid_argument, "can't add NULL field : "+name);
     const Field* cur = findField(name, field->getType());
     if(!cur) {
         fields.push_back(field); fieldNames.push_back(name);
@@ -1047,6 +1049,9 @@ FieldBuilderPtr FieldBuilder::addBoundedArray(string const & name, ScalarType sc
 
 FieldBuilderPtr FieldBuilder::addArray(string const & name, FieldConstPtr const & element)
 {
+    if(!element)
+        THROW_EXCEPTION2(std::invalid_argument, "can't add array with NULL element type : "+name);
+
     FieldConstPtr fld;
     switch (element->getType())
     {
-- 
2.43.0


From 7f6580e0f78632f2bdd1a6da1904ee9e7a8ee2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 27/68] fix: appendFields() with more names than fields read
 out of bounds, with fewer dropped fields

---
 src/factory/FieldCreateFactory.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/factory/FieldCreateFactory.cpp b/src/factory/FieldCreateFactory.cpp
index be62b4f..856b7d6 100644
--- a/src/factory/FieldCreateFactory.cpp
+++ b/src/factory/FieldCreateFactory.cpp
@@ -1426,6 +1426,9 @@ StructureConstPtr FieldCreate::appendFields(
     FieldConstPtrArray const & fields) const
 {
     validateFieldNames(fieldNames);
+    if(fieldNames.size()!=fields.size()) {
+        THROW_EXCEPTION2(std::invalid_argument, "Can't append fields, fieldNames.size()!=fields.size()");
+    }
     StringArray const & oldNames = structure->getFieldNames();
     FieldConstPtrArray const & oldFields = structure->getFields();
     size_t oldLen = oldNames.size();
-- 
2.43.0


From c67d1d747d4705612cbbb0800d1f5e83ff1f98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 28/68] fix: ValueBuilder leaked a field which was replaced
 with an array

---
 src/pv/valueBuilder.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index a12ee88..72b7ccf 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -218,6 +218,10 @@ void ValueBuilder::_add(const std::string& name, const shared_vector<const void>
 
     epics::auto_ptr<child> store(new child_scalar_array(V));
 
+    if(it!=children.end()) {
+        delete it->second;
+        children.erase(it);
+    }
     children[name] = store.get();
     store.release();
 }
-- 
2.43.0


From d562a1e6ba8cb15492c3ccf5a04a0879d3776df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:12 +0000
Subject: [PATCH 29/68] fix: ValueBuilder leaked the fields already copied when
 cloning an unsupported structure was refused

---
 src/pv/valueBuilder.cpp | 12 +++++++++++-
 src/pv/valueBuilder.h   |  1 +
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pv/valueBuilder.cpp b/src/pv/valueBuilder.cpp
index 72b7ccf..3102565 100644
--- a/src/pv/valueBuilder.cpp
+++ b/src/pv/valueBuilder.cpp
@@ -148,7 +148,12 @@ ValueBuilder::ValueBuilder(const PVStructure& clone) :parent(0)
 {
     StructureConstPtr ctype(clone.getStructure());
     id = ctype->getID();
-    child_struct::fillStruct(*this, clone);
+    try {
+        child_struct::fillStruct(*this, clone);
+    } catch(...) {
+        clear();
+        throw;
+    }
 }
 
 
@@ -158,6 +163,11 @@ ValueBuilder::ValueBuilder(ValueBuilder* par, const std::string &id)
 {}
 
 ValueBuilder::~ValueBuilder()
+{
+    clear();
+}
+
+void ValueBuilder::clear()
 {
     for(children_t::const_iterator it=children.begin(), end=children.end(); it!=end; ++it)
         delete it->second;
diff --git a/src/pv/valueBuilder.h b/src/pv/valueBuilder.h
index 39ab572..185be1c 100644
--- a/src/pv/valueBuilder.h
+++ b/src/pv/valueBuilder.h
@@ -75,6 +75,7 @@ private:
     void _add(const std::string& name, const PVStructure& V);
 
     ValueBuilder(ValueBuilder*, const std::string &id = std::string());
+    void clear();
 
     ValueBuilder * const parent;
     struct child;
-- 
2.43.0


From 5a5305a598c62a10f058c81ef58c26e51f7050b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 30/68] fix: createRequest ignored record options of one or two
 characters instead of accepting an empty value or refusing them

---
 src/copy/createRequest.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index 2616550..f0ac073 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -369,7 +369,7 @@ struct CreateRequestImpl {
                         throw std::runtime_error(request.substr(offsetRecord) +
                             "record[ does not have matching ]");
                     }
-                    if(closeBracket-openBracket > 3) {
+                    if(closeBracket-openBracket > 1) {
                         Node node("record");
                         Node optNode = createRequestOptions(
                                 request.substr(openBracket+1,closeBracket-openBracket-1));
-- 
2.43.0


From 8c3d7b5ad33004d8fa70097eb8560206d9745810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:33 +0000
Subject: [PATCH 31/68] fix: createRequest took options of a field whose name
 ends with 'record' for record options

---
 src/copy/createRequest.cpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/src/copy/createRequest.cpp b/src/copy/createRequest.cpp
index f0ac073..4c04ba8 100644
--- a/src/copy/createRequest.cpp
+++ b/src/copy/createRequest.cpp
@@ -4,6 +4,7 @@
  */
 
 #include <string>
+#include <ctype.h>
 #include <sstream>
 
 #include <epicsMutex.h>
@@ -310,6 +311,23 @@ struct CreateRequestImpl {
     }
 
 
+    // find "record[", "field(", etc. at the top level of a request,
+    // but not inside of a field list or options, nor at the end of another name.
+    static size_t findSection(string const & request, string const & section)
+    {
+        size_t depth = 0;
+        for(size_t i=0; i<request.size(); ++i) {
+            char chr = request[i];
+            if(depth==0 && request.compare(i,section.size(),section)==0) {
+                char prev = i==0 ? ',' : request[i-1];
+                if(!isalnum((unsigned char)prev) && prev!='_' && prev!='.') return i;
+            }
+            if(chr=='(' || chr=='{' || chr=='[') depth++;
+            if((chr==')' || chr=='}' || chr==']') && depth>0) depth--;
+        }
+        return string::npos;
+    }
+
     PVStructurePtr createRequest(
         string const & crequest)
     {
@@ -320,10 +338,10 @@ struct CreateRequestImpl {
             {
                 return fieldCreate->createStructure()->build();
             }
-            size_t offsetRecord = request.find("record[");
-            size_t offsetField = request.find("field(");
-            size_t offsetPutField = request.find("putField(");
-            size_t offsetGetField = request.find("getField(");
+            size_t offsetRecord = findSection(request, "record[");
+            size_t offsetField = findSection(request, "field(");
+            size_t offsetPutField = findSection(request, "putField(");
+            size_t offsetGetField = findSection(request, "getField(");
             if(offsetRecord==string::npos
             && offsetField==string::npos
             && offsetPutField==string::npos
-- 
2.43.0


From 1d39bd9b8388fd637512275c6f564b680943513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 32/68] fix: PVRequestMapper in Mask mode aborted when the
 requested mask had bits of fields which are not selected

---
 src/copy/requestmapper.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index 6fd2fcd..e146cec 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -256,7 +256,8 @@ void PVRequestMapper::_map(const PVStructure& src, const BitSet& maskSrc,
         for(int32 i=scratch.nextSetBit(0), N=map.size(); i>=0 && i<N; i=scratch.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // base -> requested mapping can have holes.
+                // As can requested -> base in Mask mode.
 
             } else if(M.leaf) {
                 // just copy
@@ -289,7 +290,8 @@ void PVRequestMapper::_mapMask(const BitSet& maskSrc,
         for(int32 i=maskSrc.nextSetBit(0), N=map.size(); i>=0 && i<N; i=maskSrc.nextSetBit(i+1)) {
             const Mapping& M = map[i];
             if(!M.valid) {
-                assert(!dir_r2b); // only base -> requested mapping can have holes
+                // base -> requested mapping can have holes.
+                // As can requested -> base in Mask mode.
 
             } else {
                 maskDest.set(M.to);
-- 
2.43.0


From d8945f887007b129df3926443c310ce89b6a99ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 33/68] fix: PVRequestMapper accepted an invalid request when
 the invalid part was not at the top level

---
 src/copy/requestmapper.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index e146cec..affd2d6 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -211,9 +211,9 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
             if(keepids)
                 builder = builder->setId(substruct.getStructure()->getID());
 
-            _compute(substruct,
-                     static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
-                     builder, keepids, depth+1u);
+            ok &= _compute(substruct,
+                           static_cast<const PVStructure&>(*pvReq.getPVFields()[i]),
+                           builder, keepids, depth+1u);
 
             builder = builder->endNested();
         }
-- 
2.43.0


From fcd88922845bf5830390de453d4de29fe57a0dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 34/68] fix: PVRequestMapper took the options of a field for
 the name of a sub-field, and selected nothing below a structure with options

---
 src/copy/requestmapper.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/copy/requestmapper.cpp b/src/copy/requestmapper.cpp
index affd2d6..96d2b27 100644
--- a/src/copy/requestmapper.cpp
+++ b/src/copy/requestmapper.cpp
@@ -21,8 +21,18 @@
 // Our arbitrary limit on pvRequest structure depth to bound stack usage during recursion
 static const unsigned maxDepth = 5;
 
+// Options of a field, which createRequest() places beside the names of its sub-fields.
+static const char optionsName[] = "_options";
+
 namespace epics{namespace pvData {
 
+// Does this part of a pvRequest name no sub-fields?
+static bool selectsAll(const Structure& req)
+{
+    const StringArray& names = req.getFieldNames();
+    return names.empty() || (names.size()==1 && names[0]==optionsName);
+}
+
 PVRequestMapper::PVRequestMapper() {}
 
 PVRequestMapper::PVRequestMapper(const PVStructure &base,
@@ -70,7 +80,7 @@ void PVRequestMapper::compute(const PVStructure &base,
     }
 
     PVStructure::const_shared_pointer fields(pvRequest.getSubField<PVStructure>("field"));
-    if(!fields || fields->getPVFields().empty()) {
+    if(!fields || selectsAll(*fields->getStructure())) {
         // not selection, or empty selection, treated as select all
         temp.typeBase = temp.typeRequested = base.getStructure();
 
@@ -158,6 +168,8 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
 
     for(size_t i=0, N=reqNames.size(); i<N; i++) {
         // iterate through requested fields
+        if(reqNames[i]==optionsName)
+            continue;
 
         PVField::const_shared_pointer subtype(base.getSubField(reqNames[i]));
         const FieldConstPtr& subReq = pvReq.getStructure()->getFields()[i];
@@ -180,7 +192,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
 
         } else if(depth>=maxDepth // exceeds max recursion depth
                   || subtype->getField()->getType()!=structure // requested field is a leaf
-                  || static_cast<const Structure&>(*subReq).getFieldNames().empty() // requests all sub-fields
+                  || selectsAll(static_cast<const Structure&>(*subReq)) // requests all sub-fields
                   )
         {
             // just add the whole thing
@@ -189,7 +201,7 @@ bool PVRequestMapper::_compute(const PVStructure& base, const PVStructure& pvReq
                 maskRequested.set(j);
 
             if(subtype->getField()->getType()!=structure
-                    && !static_cast<const Structure&>(*subReq).getFieldNames().empty())
+                    && !selectsAll(static_cast<const Structure&>(*subReq)))
             {
                 // attempt to select below a leaf field
                 std::ostringstream msg;
-- 
2.43.0


From f5a500784e692287afe89ec791cff1a59279d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 35/68] fix: line breaks of JSON text were dropped, which
 joined tokens, hid what follows a line comment, and allowed them within
 strings

---
 src/json/parsehelper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/json/parsehelper.cpp b/src/json/parsehelper.cpp
index 9cc44c3..1573ec8 100644
--- a/src/json/parsehelper.cpp
+++ b/src/json/parsehelper.cpp
@@ -37,6 +37,9 @@ bool yajl_parse_helper(std::istream& src,
     std::string line;
     while(std::getline(src, line)) {
         linenum++;
+        // The end of a line separates tokens, and ends a comment
+        if(!src.eof())
+            line += '\n';
 
 #ifndef EPICS_YAJL_VERSION
         if(done) {
-- 
2.43.0


From a8a727e5081e0bc317ba0fefb3921296bcb68d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 36/68] fix: parseJSON() into a structure treated an array as a
 structure when given a bare value, an object or a nested array for an array
 field

---
 src/json/parseinto.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 601fa4c..5568399 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -25,8 +25,9 @@ struct context {
     struct frame {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
+        bool inArray; // between '[' and ']' of an array field
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
-            :fld(fld), assigned(assigned)
+            :fld(fld), assigned(assigned), inArray(false)
         {}
     };
 
@@ -67,6 +68,9 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
         // structure at the top of the stack
 
     } else if(type==pvd::scalarArray) {
+        if(!back.inArray)
+            throw std::runtime_error("Can't assign scalar value to array");
+
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
         pvd::shared_vector<const void> carr;
@@ -182,7 +186,7 @@ int jtree_start_map(void * ctx)
         pvd::Type type = back.fld->getField()->getType();
         if(type==pvd::structure) {
             // will fill in
-        } else if(type==pvd::structureArray) {
+        } else if(type==pvd::structureArray && back.inArray) {
             // starting new element in structure array
             pvd::PVStructureArray* sarr(static_cast<pvd::PVStructureArray*>(back.fld.get()));
 
@@ -255,6 +259,9 @@ int jtree_start_array(void * ctx)
         pvd::Type type = back->getField()->getType();
         if(type!=pvd::structureArray && type!=pvd::scalarArray)
             throw std::runtime_error("Can't assign array");
+        if(self->stack.back().inArray)
+            throw std::runtime_error("Nested array not supported");
+        self->stack.back().inArray = true;
 
         return 1;
     }CATCH()
-- 
2.43.0


From cba14a8143241f8a18ff674068cf37537d437a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:39 +0000
Subject: [PATCH 37/68] fix: parseJSON() into a structure added to the elements
 an array had before instead of assigning it

---
 src/json/parseinto.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 5568399..1cef7f3 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -26,6 +26,7 @@ struct context {
         pvd::PVFieldPtr fld;
         pvd::BitSet *assigned;
         bool inArray; // between '[' and ']' of an array field
+        pvd::shared_vector<void> arr; // elements of a scalar array so far
         frame(const pvd::PVFieldPtr& fld, pvd::BitSet *assigned)
             :fld(fld), assigned(assigned), inArray(false)
         {}
@@ -73,18 +74,15 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 
         pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.fld.get()));
 
-        pvd::shared_vector<const void> carr;
-        fld->getAs(carr);
-
-        switch(carr.original_type())
+        switch(fld->getScalarArray()->getElementType())
         {
 #define CASE_STRING
 #define CASE_REAL_INT64
 #define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: { \
-            pvd::shared_vector<const PVATYPE> arr(pvd::static_shared_vector_cast<const PVATYPE>(carr)); \
-            pvd::shared_vector<PVATYPE> tarr(pvd::thaw(arr)); \
+            pvd::shared_vector<PVATYPE> tarr(pvd::static_shared_vector_cast<PVATYPE>(back.arr)); \
+            back.arr.clear(); \
             tarr.push_back(pvd::castUnsafe<PVATYPE>(val)); \
-            carr = pvd::static_shared_vector_cast<const void>(pvd::freeze(tarr)); \
+            back.arr = pvd::static_shared_vector_cast<void>(tarr); \
             } break;
 #include <pv/typemap.h>
 #undef CASE
@@ -92,9 +90,7 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 #undef CASE_STRING
         }
 
-        fld->putFrom(carr);
-
-        // leave array field at top of stack
+        // leave array field at top of stack, to be assigned by jtree_end_array()
 
     } else if(type==pvd::union_) {
         pvd::PVUnion* fld(static_cast<pvd::PVUnion*>(back.fld.get()));
@@ -263,6 +259,12 @@ int jtree_start_array(void * ctx)
             throw std::runtime_error("Nested array not supported");
         self->stack.back().inArray = true;
 
+        if(type==pvd::structureArray) {
+            // start with no elements
+            pvd::PVStructureArray::const_svector empty;
+            static_cast<pvd::PVStructureArray*>(back.get())->swap(empty);
+        }
+
         return 1;
     }CATCH()
 }
@@ -271,6 +273,18 @@ int jtree_end_array(void * ctx)
     TRY {
         assert(!self->stack.empty());
 
+        pvd::PVFieldPtr& back(self->stack.back().fld);
+        if(back->getField()->getType()==pvd::scalarArray) {
+            pvd::shared_vector<void>& arr(self->stack.back().arr);
+            pvd::PVScalarArray *fld(static_cast<pvd::PVScalarArray*>(back.get()));
+
+            if(arr.empty()) {
+                fld->setLength(0);
+            } else {
+                fld->putFrom(pvd::freeze(arr));
+            }
+        }
+
         if(self->stack.back().assigned)
             self->stack.back().assigned->set(self->stack.back().fld->getFieldOffset());
         self->stack.pop_back();
-- 
2.43.0


From 9ee090f45658ac7ce9031ee350bbc54ed0fb8281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:48 +0000
Subject: [PATCH 38/68] fix: parseJSON() into an array of booleans took numbers
 of other values and refused the texts which a single boolean accepts

---
 src/json/parseinto.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/json/parseinto.cpp b/src/json/parseinto.cpp
index 1cef7f3..d363bfb 100644
--- a/src/json/parseinto.cpp
+++ b/src/json/parseinto.cpp
@@ -81,7 +81,9 @@ void valueAssign(context *self, typename PVScalarT::value_type val)
 #define CASE(BASETYPE, PVATYPE, DBFTYPE, PVACODE) case epics::pvData::pv##PVACODE: { \
             pvd::shared_vector<PVATYPE> tarr(pvd::static_shared_vector_cast<PVATYPE>(back.arr)); \
             back.arr.clear(); \
-            tarr.push_back(pvd::castUnsafe<PVATYPE>(val)); \
+            PVATYPE elem; \
+            pvd::castUnsafeV(1, pvd::pv##PVACODE, &elem, PVScalarT::typeCode, &val); \
+            tarr.push_back(elem); \
             back.arr = pvd::static_shared_vector_cast<void>(tarr); \
             } break;
 #include <pv/typemap.h>
-- 
2.43.0


From a76b73ee405a7a69f7497d5f60c5d8eb037f010f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:28 +0000
Subject: [PATCH 39/68] fix: escape() and maybeQuote() wrote the hexadecimal
 digit 9 as @

---
 src/factory/printer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index 846f2de..cdbe8af 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -466,7 +466,7 @@ std::ostream& operator<<(std::ostream& strm, const PVStructure::Formatter& forma
 
 static char hexdigit(char c) {
     c &= 0xf;
-    if(c<9)
+    if(c<10)
         return '0'+c;
     else
         return 'A'+c-10;
-- 
2.43.0


From a2611c96f8330a2170920ec7c560547ff96160e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:38 +0000
Subject: [PATCH 40/68] fix: PVStructure::stream() and printJSON() of a
 structure within another one left out members

---
 src/factory/printer.cpp | 16 +++++++++++-----
 src/json/jprint.cpp     | 14 ++++++++++----
 2 files changed, 21 insertions(+), 9 deletions(-)

diff --git a/src/factory/printer.cpp b/src/factory/printer.cpp
index cdbe8af..953d3d4 100644
--- a/src/factory/printer.cpp
+++ b/src/factory/printer.cpp
@@ -286,14 +286,20 @@ bool printTable(std::ostream& strm, const PVStructure& top)
 }
 
 void expandBS(const PVStructure& top, BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
+    // offsets count from the outermost structure, of which 'top' may be a part
+    const size_t first = top.getFieldOffset();
+    bool all = false;
+    for(const PVStructure *cur = &top; cur && !all; cur = cur->getParent())
+        all = mask.get(cur->getFieldOffset());
+
+    if(all) { // special handling because getSubField(0) not allowed
         // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+        for(size_t idx=first, N=top.getNextFieldOffset(); idx<N; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(int32 idx = mask.nextSetBit(first), N=top.getNextFieldOffset(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
             PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -326,7 +332,7 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
         if(format.xshow)
             show = *format.xshow;
         else
-            show.set(0);
+            show.set(format.xtop.getFieldOffset());
 
         if(format.xhighlight)
             highlight = *format.xhighlight;
@@ -336,7 +342,7 @@ void printRaw(std::ostream& strm, const PVStructure::Formatter& format, const PV
         highlight &= show; // can't highlight hidden fields (paranoia)
     }
 
-    if(!show.get(0)) return; // nothing to do here...
+    if(!show.get(format.xtop.getFieldOffset())) return; // nothing to do here...
 
     todo.push_front(std::make_pair(&format.xtop, orig_indent));
 
diff --git a/src/json/jprint.cpp b/src/json/jprint.cpp
index 61b402a..6dba456 100644
--- a/src/json/jprint.cpp
+++ b/src/json/jprint.cpp
@@ -246,14 +246,20 @@ void show_field(args& A, const pvd::PVField* fld, const pvd::BitSet *mask)
 }
 
 void expandBS(const pvd::PVStructure& top, pvd::BitSet& mask, bool parents) {
-    if(mask.get(0)) { // special handling because getSubField(0) not allowed
+    // offsets count from the outermost structure, of which 'top' may be a part
+    const size_t first = top.getFieldOffset();
+    bool all = false;
+    for(const pvd::PVStructure *cur = &top; cur && !all; cur = cur->getParent())
+        all = mask.get(cur->getFieldOffset());
+
+    if(all) { // special handling because getSubField(0) not allowed
         // wildcard
-        for(size_t idx=1, N=top.getNumberFields(); idx<N; idx++) {
+        for(size_t idx=first, N=top.getNextFieldOffset(); idx<N; idx++) {
             mask.set(idx);
         }
 
     } else {
-        for(pvd::int32 idx = mask.nextSetBit(0), N=top.getNumberFields(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
+        for(pvd::int32 idx = mask.nextSetBit(first), N=top.getNextFieldOffset(); idx>=0 && idx<N; idx=mask.nextSetBit(idx+1)) {
             pvd::PVField::const_shared_pointer fld = top.getSubFieldT(idx);
 
             // look forward and mark all children
@@ -290,7 +296,7 @@ void printJSON(std::ostream& strm,
     args A(strm, opts);
     pvd::BitSet emask(mask);
     expandBS(val, emask, true);
-    if(!emask.get(0)) return;
+    if(!emask.get(val.getFieldOffset())) return;
     show_struct(A, &val, &emask);
 }
 
-- 
2.43.0


From e35194ecd2bddc537718c4b811d50e6abbd3d2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 41/68] fix: TimeStamp::put(milliseconds) left negative
 nanoseconds for times before the epoch

---
 src/property/timeStamp.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 57e4c4c..55b87ad 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -65,6 +65,7 @@ void TimeStamp::put(int64 milliseconds)
 {
     secondsPastEpoch = milliseconds/1000;
     nanoseconds = (milliseconds%1000)*1000000;
+    normalize();
 }
 
 void TimeStamp::getCurrent()
-- 
2.43.0


From a99ac23474d1193f478784e8ba477d67207a8677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 42/68] fix: TimeStamp += and -= of fractions could leave
 nanoseconds negative or a full second

---
 src/property/timeStamp.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index 55b87ad..ba98318 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -164,14 +164,8 @@ TimeStamp & TimeStamp::operator+=(double seconds)
     int64 secs = static_cast<int64>(seconds);
     int64 nano = static_cast<int64>((seconds - secs)*1e9);
     nanoseconds += static_cast<int32>(nano);
-    if(nanoseconds>nanoSecPerSec) {
-        nanoseconds -= nanoSecPerSec;
-        secondsPastEpoch += 1;
-    } else if(nanoseconds<-nanoSecPerSec) {
-        nanoseconds += -nanoSecPerSec;
-        secondsPastEpoch -= 1;
-    }
     secondsPastEpoch += secs;
+    normalize();
     return *this;
 }
 
-- 
2.43.0


From 92f3b6a268b7131101897d301bd93252c76475fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:57 +0000
Subject: [PATCH 43/68] fix: TimeStamp comparisons overflowed for times more
 than 292 years apart

---
 src/property/timeStamp.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/property/timeStamp.cpp b/src/property/timeStamp.cpp
index ba98318..526eb7e 100644
--- a/src/property/timeStamp.cpp
+++ b/src/property/timeStamp.cpp
@@ -91,10 +91,9 @@ int64 TimeStamp::diffInt(TimeStamp const & left,TimeStamp  const&right )
     int32 nl = left.nanoseconds;
     int64 sr = right.secondsPastEpoch;
     int32 nr = right.nanoseconds;
-    int64 sdiff = sl - sr;
-    sdiff *= nanoSecPerSec;
-    sdiff += nl - nr;
-    return sdiff;
+    // only the sign is used, the difference in nanoseconds may be too large for 64 bits
+    if(sl!=sr) return sl<sr ? -1 : 1;
+    return nl - nr;
 }
 
 bool TimeStamp::operator==(TimeStamp const &right) const
-- 
2.43.0


From d3a8002c5971fd387c130307748691b29629cb39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 44/68] fix: PVDisplay::isAttached() gave the opposite

---
 src/property/pvDisplay.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvDisplay.cpp b/src/property/pvDisplay.cpp
index 0027cb7..df207c5 100644
--- a/src/property/pvDisplay.cpp
+++ b/src/property/pvDisplay.cpp
@@ -62,7 +62,7 @@ void PVDisplay::detach()
 }
 
 bool PVDisplay::isAttached() {
-    if(pvDescription.get()) return false;
+    if(pvDescription.get()==NULL) return false;
     return true;
 }
 
-- 
2.43.0


From d41d62e300a6ec71bb0d5989b269aac723871ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 45/68] fix: PVEnumerated::choicesMutable() gave the opposite

---
 src/property/pvEnumerated.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/property/pvEnumerated.cpp b/src/property/pvEnumerated.cpp
index 5aa61d0..45d2b9a 100644
--- a/src/property/pvEnumerated.cpp
+++ b/src/property/pvEnumerated.cpp
@@ -86,7 +86,7 @@ bool PVEnumerated::choicesMutable()
     if(pvIndex.get()==NULL ) {
          throw std::logic_error(notAttached);
     }
-    return pvChoices->isImmutable();
+    return !pvChoices->isImmutable();
 }
 
 int32 PVEnumerated::getNumberChoices()
-- 
2.43.0


From e639a0edc17302dbefc96077743b29621d76052a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 46/68] fix: PVAlarm::set() changed an immutable status and
 could not replace illegal codes

---
 src/property/pvAlarm.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/property/pvAlarm.cpp b/src/property/pvAlarm.cpp
index 213d4d0..97f1cee 100644
--- a/src/property/pvAlarm.cpp
+++ b/src/property/pvAlarm.cpp
@@ -71,21 +71,19 @@ bool PVAlarm::set(Alarm const & alarm)
     if(pvSeverity.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSeverity->isImmutable() || pvMessage->isImmutable()) return false;
-    Alarm current;
-    get(current);
+    if(pvSeverity->isImmutable() || pvStatus->isImmutable() || pvMessage->isImmutable()) return false;
     bool returnValue = false;
-    if(current.getSeverity()!=alarm.getSeverity())
+    if(pvSeverity->get()!=alarm.getSeverity())
     {
         pvSeverity->put(alarm.getSeverity());
         returnValue = true;
     }
-    if(current.getStatus()!=alarm.getStatus())
+    if(pvStatus->get()!=alarm.getStatus())
     {
         pvStatus->put(alarm.getStatus());
         returnValue = true;
     }
-    if(current.getMessage()!=alarm.getMessage())
+    if(pvMessage->get()!=alarm.getMessage())
     {
         pvMessage->put(alarm.getMessage());
         returnValue = true;
-- 
2.43.0


From 7244045e1bd6b390577b79dad18b5fa2cc22cfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:34:09 +0000
Subject: [PATCH 47/68] fix: PVTimeStamp kept its attachment on a failing
 attach(), changed an immutable userTag and mixed old and new time where
 nanoseconds were not normal

---
 src/property/pvTimeStamp.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/property/pvTimeStamp.cpp b/src/property/pvTimeStamp.cpp
index 07976bf..d0de11b 100644
--- a/src/property/pvTimeStamp.cpp
+++ b/src/property/pvTimeStamp.cpp
@@ -28,6 +28,7 @@ bool PVTimeStamp::attach(PVFieldPtr const & pvField)
     if(pvField->getField()->getType()!=structure) return false;
     PVStructurePtr xxx = static_pointer_cast<PVStructure>(pvField);
     PVStructure* pvStructure = xxx.get();
+    detach();
     while(true) {
         PVLongPtr pvLong = pvStructure->getSubField<PVLong>("secondsPastEpoch");
         if(pvLong) {
@@ -72,21 +73,19 @@ bool PVTimeStamp::set(TimeStamp const & timeStamp)
     if(pvSecs.get()==NULL) {
         throw std::logic_error(notAttached);
     }
-    if(pvSecs->isImmutable() || pvNano->isImmutable()) return false;
-    TimeStamp current;
-    get(current);
+    if(pvSecs->isImmutable() || pvNano->isImmutable() || pvUserTag->isImmutable()) return false;
     bool returnValue = false;
-    if(current.getSecondsPastEpoch()!=timeStamp.getSecondsPastEpoch())
+    if(pvSecs->get()!=timeStamp.getSecondsPastEpoch())
     {
         pvSecs->put(timeStamp.getSecondsPastEpoch());
         returnValue = true;
     }
-    if(current.getNanoseconds()!=timeStamp.getNanoseconds())
+    if(pvNano->get()!=timeStamp.getNanoseconds())
     {
         pvNano->put(timeStamp.getNanoseconds());
         returnValue = true;
     }
-    if(current.getUserTag()!=timeStamp.getUserTag())
+    if(pvUserTag->get()!=timeStamp.getUserTag())
     {
         pvUserTag->put(timeStamp.getUserTag());
         returnValue = true;
-- 
2.43.0


From 31bd1b52e88adc978a0afb42e8662a254afb399f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 48/68] fix: immutable scalars could be changed by put() and by
 decoding into them

---
 src/factory/PVDataCreateFactory.cpp | 4 ++++
 src/pv/pvData.h                     | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 2555ebd..97addd9 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -120,6 +120,8 @@ template<typename T>
 void PVScalarValue<T>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
+    if(isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
     pflusher->ensureData(sizeof(T));
     storage.value = pbuffer->GET(T);
 }
@@ -128,6 +130,8 @@ template<>
 void PVScalarValue<std::string>::deserialize(ByteBuffer *pbuffer,
     DeserializableControl *pflusher)
 {
+    if(isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
     storage.store(SerializeHelper::deserializeString(pbuffer, pflusher));
 }
 
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index 8bbcd0a..0a2a4f2 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -397,8 +397,11 @@ public:
     /**
      * Put a new value into the PVScalar.
      * @param value The value.
+     * @throws std::logic_error if the field is immutable.
      */
     inline void put(typename storage_t::arg_type v) {
+        if(isImmutable())
+            throw std::logic_error("immutable");
         storage.store(v);
         PVField::postPut();
     }
-- 
2.43.0


From a3147f2ab377fbe7e6a5df806120e11778a83220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 49/68] fix: decoding into an immutable scalar array changed it

---
 src/factory/PVDataCreateFactory.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/factory/PVDataCreateFactory.cpp b/src/factory/PVDataCreateFactory.cpp
index 97addd9..afec82b 100644
--- a/src/factory/PVDataCreateFactory.cpp
+++ b/src/factory/PVDataCreateFactory.cpp
@@ -321,6 +321,8 @@ void PVValueArray<T>::serialize(ByteBuffer *pbuffer,
 template<typename T>
 void PVValueArray<T>::deserialize(ByteBuffer *pbuffer,
         DeserializableControl *pcontrol) {
+    if(this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
 
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
@@ -416,6 +418,8 @@ void PVValueArray<T>::serialize(ByteBuffer *pbuffer,
 template<>
 void PVValueArray<string>::deserialize(ByteBuffer *pbuffer,
         DeserializableControl *pcontrol) {
+    if(this->isImmutable())
+        THROW_EXCEPTION2(std::logic_error, "immutable");
 
     size_t size = this->getArray()->getArraySizeType() == Array::fixed ?
                 this->getArray()->getMaximumCapacity() :
-- 
2.43.0


From aada64ad7ef7849ec23d175282fdb8b722c32046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:45:03 +0000
Subject: [PATCH 50/68] fix: immutable unions could be changed by select(),
 set(), copies and decoding into them

---
 src/factory/PVUnion.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/factory/PVUnion.cpp b/src/factory/PVUnion.cpp
index 7a394bc..6355fe4 100644
--- a/src/factory/PVUnion.cpp
+++ b/src/factory/PVUnion.cpp
@@ -60,6 +60,9 @@ PVFieldPtr PVUnion::select(int32 index)
     if (selector == index && !variant)
         return value;
 
+    if (isImmutable())
+        throw std::logic_error("immutable");
+
     if (index == UNDEFINED_INDEX)
     {
         selector = UNDEFINED_INDEX;
@@ -86,6 +89,9 @@ PVFieldPtr PVUnion::select(string const & fieldName)
 
 void PVUnion::set(int32 index, PVFieldPtr const & value)
 {
+    if (isImmutable())
+        throw std::logic_error("immutable");
+
     if (variant && index != UNDEFINED_INDEX)
         throw std::invalid_argument("index out of bounds");
     else if (!variant)
@@ -143,6 +149,9 @@ void PVUnion::serialize(ByteBuffer *pbuffer, SerializableControl *pflusher) cons
 
 void PVUnion::deserialize(ByteBuffer *pbuffer, DeserializableControl *pcontrol)
 {
+    if (isImmutable())
+        throw std::logic_error("immutable");
+
     if (variant)
     {
         FieldConstPtr field = pcontrol->cachedDeserialize(pbuffer);
@@ -214,6 +223,8 @@ void PVUnion::copy(const PVUnion& from)
 
 void PVUnion::copyUnchecked(const PVUnion& from)
 {
+    if (isImmutable())
+        throw std::logic_error("immutable");
 
     const PVField::const_shared_pointer& fromValue = from.get();
     if (from.getUnion()->isVariant())
-- 
2.43.0


From 0eb999bd2d25ee02466aff7709a97f875e95f081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 51/68] fix: Convert::fromString() of an array could not read
 more than one number, brackets or into a longer array

---
 src/factory/Convert.cpp | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index af39b21..b042c42 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -40,7 +40,7 @@ static std::vector<string> split(const string& commaSeparatedList) {
     index=0;
     for(size_t i=0; i<numValues; i++) {
         size_t pos = commaSeparatedList.find(',',index);
-        string value = commaSeparatedList.substr(index,pos);
+        string value = commaSeparatedList.substr(index,pos==string::npos ? pos : pos-index);
         valueList[i] = value;
         index = pos +1;
     }
@@ -99,16 +99,19 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
 
 size_t Convert::fromString(PVScalarArrayPtr const &pv, string from)
 {
-   if(from[0]=='[' && from[from.length()]==']') {
-        size_t offset = from.rfind(']');
-        from = from.substr(1, offset);
+    if(from.size()>=2 && from[0]=='[' && from[from.length()-1]==']') {
+        from = from.substr(1, from.length()-2);
     }
-    std::vector<string> valueList(split(from));
-    size_t length = valueList.size();
-    size_t num = fromStringArray(pv,0,length,valueList,0);
-    if(num<length) length = num;
-    pv->setLength(length);
-    return length;
+    // the array becomes what the string says, whatever its length was
+    PVStringArray::svector data;
+    if(!from.empty()) {
+        std::vector<string> valueList(split(from));
+        data.resize(valueList.size());
+        std::copy(valueList.begin(), valueList.end(), data.begin());
+    }
+    PVStringArray::const_svector temp(freeze(data));
+    pv->putFrom<string>(temp);
+    return temp.size();
 }
 
 size_t Convert::fromStringArray(PVScalarArrayPtr const &pv,
-- 
2.43.0


From f86180965a0da9c2c66c6785ac2f6637556b2f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 52/68] fix: Convert::toStringArray() applied toOffset to the
 source

---
 src/factory/Convert.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index b042c42..e314b4b 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -149,7 +149,7 @@ size_t Convert::toStringArray(PVScalarArrayPtr const & pv,
     data.slice(offset, length);
     if(toOffset+data.size() > to.size())
         to.resize(toOffset+data.size());
-    std::copy(data.begin()+toOffset, data.end(), to.begin());
+    std::copy(data.begin(), data.end(), to.begin()+toOffset);
     return data.size();
 }
 
-- 
2.43.0


From d8a1774d62439c86d03cf2e8a75e4bd1e394f00b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:46:47 +0000
Subject: [PATCH 53/68] fix: Convert::fromString() of a structure ran past its
 members and past the given strings

---
 src/factory/Convert.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/factory/Convert.cpp b/src/factory/Convert.cpp
index e314b4b..3dc81b4 100644
--- a/src/factory/Convert.cpp
+++ b/src/factory/Convert.cpp
@@ -63,7 +63,7 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
 
     PVFieldPtrArray const & fieldsData = pvStructure->getPVFields();
     if (fieldsData.size() != 0) {
-        size_t length = pvStructure->getStructure()->getNumberFields();
+        size_t length = fieldsData.size();
         for(size_t i=0; i<length; i++) {
             PVFieldPtr fieldField = fieldsData[i];
 
@@ -75,12 +75,15 @@ size_t Convert::fromString(PVStructurePtr const &pvStructure, StringArray const
                 fromStartIndex += count;
             }
             else if(type==scalarArray) {
+                if(fromStartIndex >= from.size())
+                    throw std::invalid_argument("Convert::fromString not enough strings");
                 PVScalarArrayPtr pv = static_pointer_cast<PVScalarArray>(fieldField);
-                size_t count = fromString(pv, from[fromStartIndex]);
-                processed += count;
-                fromStartIndex += count;
+                fromString(pv, from[fromStartIndex++]);
+                processed++;
             }
             else if(type==scalar) {
+                if(fromStartIndex >= from.size())
+                    throw std::invalid_argument("Convert::fromString not enough strings");
                 PVScalarPtr pv = static_pointer_cast<PVScalar>(fieldField);
                 fromString(pv, from[fromStartIndex++]);
                 processed++;
-- 
2.43.0


From 88e6e0b5ca12c2bf2b28c98f3a572f42ad26b21f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:32 +0000
Subject: [PATCH 54/68] fix: debug::shared_ptr::owner_before() did not compile

---
 src/misc/pv/debugPtr.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 3ce0771..61d49f8 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -203,9 +203,9 @@ public:
     bool operator<(const shared_ptr<T>& o) const { return real<o.real; }
 
     template<typename A>
-    bool owner_before(const shared_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const shared_ptr<A>& o) const { return real.owner_before(o.real); }
     template<typename A>
-    bool owner_before(const weak_ptr<A>& o) { return real.owner_before(o); }
+    bool owner_before(const weak_ptr<A>& o) const { return real.owner_before(o.real); }
 
     template<typename TO, typename FROM>
     friend
-- 
2.43.0


From f6ce712ce14641abae3a04107884b05c0623cb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 55/68] fix: a failed debug::dynamic_pointer_cast() or
 weak_ptr::lock() was listed as an owner

---
 src/misc/pv/debugPtr.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index 61d49f8..a2bf440 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -126,7 +126,7 @@ class shared_ptr : public shared_ptr_base {
 
     // ctor for casts
     shared_ptr(const real_type& r, const ptr_base::track_t& t)
-        :shared_ptr_base(t), real(r)
+        :shared_ptr_base(r ? t : ptr_base::track_t()), real(r)
     {track_new();}
 public:
     typedef typename real_type::element_type element_type;
-- 
2.43.0


From e00ae52d386664af1e686de1a43e0d5718493892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 56/68] fix: debug::shared_ptr of a null pointer threw where
 the type has enable_shared_from_this

---
 src/misc/pv/debugPtr.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index a2bf440..b2f287b 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -311,6 +311,8 @@ do_enable_shared_from_this(const shared_ptr<Store>& dest,
                             enable_shared_from_this<Actual>* self
                             )
 {
+    if(!self)
+        return;
     shared_ptr<Actual> actual(dynamic_pointer_cast<Actual>(dest));
     if(!actual)
         throw std::logic_error("epics::debug::enabled_shared_from_this fails");
-- 
2.43.0


From 6f3e22fd9fb1c1d18bbe8e8a966479eadd20b402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 57/68] fix: debug::shared_ptr made from unique_ptr was not
 tracked

---
 src/misc/pv/debugPtr.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index b2f287b..dcaa5ee 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -153,7 +153,12 @@ public:
 
     // takeover from unique_ptr
     template<typename A>
-    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real(a.release()) {track_new();}
+    shared_ptr(std::unique_ptr<A>&& a) : shared_ptr_base(), real() {
+        A* p = a.get();
+        real = std::move(a);
+        track_new(p);
+        do_enable_shared_from_this(*this, p);
+    }
 
     ~shared_ptr() {}
 
-- 
2.43.0


From dd6c05972021e17df4bd095db405ef5c1d71e606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 58/68] fix: debug::shared_ptr assignment kept the former owner
 where the pointers are equal

---
 src/misc/pv/debugPtr.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index dcaa5ee..c8e41f7 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -171,10 +171,9 @@ public:
     }
     template<typename A>
     shared_ptr& operator=(const shared_ptr<A>& o) {
-        if(get()!=o.get()) {
-            real = o.real;
-            track_assign(o);
-        }
+        // equal pointers can still have different owners
+        real = o.real;
+        track_assign(o);
         return *this;
     }
 
-- 
2.43.0


From 6b96e1fa1a2053f944c3c1c0a17bedc44473d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:59 +0000
Subject: [PATCH 59/68] fix: debug::shared_ptr::swap() of two owners of one
 object removed one of them from the list

---
 src/misc/debugPtr.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 3cd3210..5a6a4e0 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -73,6 +73,12 @@ void shared_ptr_base::track_clear()
 
 void shared_ptr_base::swap(shared_ptr_base &o)
 {
+    if(track==o.track) {
+        // both are listed, and remain so
+        snap_stack();
+        o.snap_stack();
+        return;
+    }
     // we cheat a bit here to avoid lock order, and to lock only twice
     if(track) {
         Guard G(track->mutex);
-- 
2.43.0


From e5f33c7fd13e74264b9659cbc30a1832bc3e5879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:49 +0000
Subject: [PATCH 60/68] fix: debug::enable_shared_from_this copied the owner of
 an object together with the object

---
 src/misc/pv/debugPtr.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/misc/pv/debugPtr.h b/src/misc/pv/debugPtr.h
index c8e41f7..1b63ab0 100644
--- a/src/misc/pv/debugPtr.h
+++ b/src/misc/pv/debugPtr.h
@@ -303,6 +303,12 @@ class enable_shared_from_this {
     do_enable_shared_from_this(const shared_ptr<Store>& dest,
                                 enable_shared_from_this<Actual>* self
                                 );
+protected:
+    enable_shared_from_this() {}
+    // who owns an object says nothing about who owns a copy of it
+    enable_shared_from_this(const enable_shared_from_this&) {}
+    enable_shared_from_this& operator=(const enable_shared_from_this&) { return *this; }
+    ~enable_shared_from_this() {}
 public:
     shared_ptr<Base> shared_from_this() const {
         return shared_ptr<Base>(xxInternalSelf);
-- 
2.43.0


From 2757dfe53092c4db0ccc56f8f9bc58320c702c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 61/68] fix: Timer waited too long for the next callback when
 one which ran before took its time

---
 src/misc/timer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 14a207b..88b005b 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -122,7 +122,7 @@ void Timer::run()
 
             // don't update 'now' until all expired jobs run
 
-        } else {
+        } else if((waitfor = queue.front()->timeToRun - (now = epicsTime::getCurrent())) > 0) {
             waiting = true;
             // wait for first un-expired
             epicsGuardRelease<epicsMutex> U(G);
-- 
2.43.0


From f1d28a4b6a517c68d854828351bc05bcf71f1d37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:57 +0000
Subject: [PATCH 62/68] fix: Timer lost or revived callbacks which were
 scheduled again while they run

---
 src/misc/timer.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 88b005b..16a784c 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -109,14 +109,19 @@ void Timer::run()
             work->onList = false;
             queue.pop_front();
 
+            // distinguishes this request from another one made during the callback
+            const double period = work->period;
+            work->period = -1.0;
+
             {
                 epicsGuardRelease<epicsMutex> U(G);
 
                 work->callback();
             }
 
-            if(work->period > 0.0 && alive) {
-                work->timeToRun += work->period;
+            if(period > 0.0 && alive && work->period < 0.0) {
+                work->period = period;
+                work->timeToRun += period;
                 addElement(work);
             }
 
-- 
2.43.0


From 26e34bb85cbd994ae01e3d4005dc608b4ae86904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:26 +0000
Subject: [PATCH 63/68] fix: Timer::close() raced with cancel() and
 isScheduled(), and told cancelled callbacks that the timer stopped

---
 src/misc/timer.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/misc/timer.cpp b/src/misc/timer.cpp
index 16a784c..87dc255 100644
--- a/src/misc/timer.cpp
+++ b/src/misc/timer.cpp
@@ -61,10 +61,6 @@ bool Timer::cancel(TimerCallbackPtr const &timerCallback)
 {
     Lock xx(mutex);
     if(!timerCallback->onList) return false;
-    if(!alive) {
-        timerCallback->onList = false;
-        return true;
-    }
     for(queue_t::iterator it(queue.begin()), end(queue.end()); it != end; ++it)
     {
         TimerCallbackPtr& cur = *it;
@@ -154,11 +150,15 @@ void Timer::close() {
     thread.exitWait();
 
     queue_t temp;
-    temp.swap(queue);
+    {
+        Lock xx(mutex);
+        temp.swap(queue);
+        for(queue_t::iterator it(temp.begin()), end(temp.end()); it != end; ++it)
+            (*it)->onList = false;
+    }
 
     for(;!temp.empty(); temp.pop_front()) {
         TimerCallbackPtr& head = temp.front();
-        head->onList = false;
         head->timerStopped();
     }
 }
-- 
2.43.0


From 1f6c2d3351b341707b0df11e04bb2a9a11862241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:38 +0000
Subject: [PATCH 64/68] fix: epicsRefSnapshotCurrent() never listed any counter

---
 src/misc/reftrack.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 7c1a88a..ef27be0 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -270,7 +270,8 @@ char* epicsRefSnapshotCurrent()
         epics::RefSnapshot snap;
         snap.update();
         std::ostringstream strm;
-        strm<<snap;
+        // relative to nothing, as only counters with a delta are printed
+        strm<<(snap - epics::RefSnapshot());
         std::string str = strm.str();
         char *ret = (char*)malloc(str.length()+1);
         if(ret)
-- 
2.43.0


From a5436710d09d3228e8943118d929c225dd72e4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:38 +0000
Subject: [PATCH 65/68] fix: RefSnapshot::update() read counters which had been
 unregistered meanwhile

---
 src/misc/reftrack.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index ef27be0..9c52565 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -93,17 +93,14 @@ RefSnapshot::operator[](const std::string& name) const
 
 void RefSnapshot::update()
 {
-    refgbl_t::counters_t counters;
-    {
-        refgbl_setup();
-        Guard G(refgbl->lock);
-        counters = refgbl->counters; // copy
-    }
-
     counts.clear();
 
-    for(refgbl_t::counters_t::const_iterator it=counters.begin(),
-                                            end=counters.end();
+    refgbl_setup();
+    // held while reading, as a counter may go away when it is unregistered
+    Guard G(refgbl->lock);
+
+    for(refgbl_t::counters_t::const_iterator it=refgbl->counters.begin(),
+                                            end=refgbl->counters.end();
         it!=end; ++it)
     {
         size_t cnt = atomic::get(*it->second);
-- 
2.43.0


From bbfdb78ca0a16d7c04b5881c8dc19fefbc56c81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:58:38 +0000
Subject: [PATCH 66/68] fix: RefMonitor::stop() waited for ever when start()
 was called meanwhile

---
 src/misc/reftrack.cpp | 103 ++++++++++++++++++++++++------------------
 1 file changed, 59 insertions(+), 44 deletions(-)

diff --git a/src/misc/reftrack.cpp b/src/misc/reftrack.cpp
index 9c52565..985ff85 100644
--- a/src/misc/reftrack.cpp
+++ b/src/misc/reftrack.cpp
@@ -149,40 +149,62 @@ std::ostream& operator<<(std::ostream& strm, const RefSnapshot& snap)
     return strm;
 }
 
-struct RefMonitor::Impl : public epicsThreadRunable
+struct RefMonitor::Impl
 {
-    RefMonitor& owner;
-    epics::auto_ptr<epicsThread> worker;
-    epicsMutex lock;
-    epicsEvent wakeup;
-    RefSnapshot prev;
-    bool done;
-    double period;
-    Impl(RefMonitor* owner) :owner(*owner), done(false), period(10.0) {}
-    virtual ~Impl() {}
-
-    virtual void run()
+    // One for each start(), so that one which is being stopped
+    // isn't affected by a start() meanwhile.
+    struct Worker : public epicsThreadRunable,
+                    public std::tr1::enable_shared_from_this<Worker>
     {
-        Guard G(lock);
-        while(!done) {
-            RefSnapshot current, P;
-            P = prev; // copy
-            {
-                UnGuard U(G);
-
-                current.update();
-
-                owner.show(current-P);
-            }
-
-            prev.swap(current);
-
-            {
-                UnGuard U(G);
-                wakeup.wait(period);
+        Impl& impl;
+        const double period;
+        bool done; // guarded by impl.lock
+        epicsEvent wakeup;
+        epicsThread thread;
+
+        Worker(Impl& impl, double period)
+            :impl(impl)
+            ,period(period)
+            ,done(false)
+            ,thread(*this,
+                    "RefMonitor",
+                    epicsThreadGetStackSize(epicsThreadStackBig),
+                    epicsThreadPriorityMin)
+        {}
+        virtual ~Worker() {}
+
+        virtual void run()
+        {
+            // stop() may be called by show()
+            std::tr1::shared_ptr<Worker> self(shared_from_this());
+
+            Guard G(impl.lock);
+            while(!done) {
+                RefSnapshot current, P;
+                P = impl.prev; // copy
+                {
+                    UnGuard U(G);
+
+                    current.update();
+
+                    impl.owner.show(current-P);
+                }
+
+                impl.prev.swap(current);
+
+                {
+                    UnGuard U(G);
+                    wakeup.wait(period);
+                }
             }
         }
-    }
+    };
+
+    RefMonitor& owner;
+    std::tr1::shared_ptr<Worker> worker;
+    epicsMutex lock;
+    RefSnapshot prev;
+    Impl(RefMonitor* owner) :owner(*owner) {}
 };
 
 RefMonitor::RefMonitor()
@@ -199,29 +221,22 @@ void RefMonitor::start(double period)
     Guard G(impl->lock);
     if(impl->worker.get()) return;
 
-    impl->done = false;
-    impl->period = period;
-    impl->worker.reset(new epicsThread(*impl,
-                                       "RefMonitor",
-                                       epicsThreadGetStackSize(epicsThreadStackBig),
-                                       epicsThreadPriorityMin));
-    impl->worker->start();
+    impl->worker.reset(new Impl::Worker(*impl, period));
+    impl->worker->thread.start();
 }
 
 void RefMonitor::stop()
 {
-    epics::auto_ptr<epicsThread> W;
+    std::tr1::shared_ptr<Impl::Worker> W;
     {
         Guard G(impl->lock);
         if(!impl->worker.get()) return;
-        epics::swap(W, impl->worker);
-        impl->done = true;
+        W.swap(impl->worker);
+        W->done = true;
     }
 
-    impl->wakeup.signal();
-    W->exitWait();
-
-    W.reset();
+    W->wakeup.signal();
+    W->thread.exitWait();
 }
 
 bool RefMonitor::running() const
-- 
2.43.0


From dae1664d79303a8764390550b052621ca7a9d675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:03 +0000
Subject: [PATCH 67/68] fix: show_refs() no longer races with a copy,
 assignment or swap in another thread

---
 src/misc/debugPtr.cpp | 38 ++++++++++++++++----------------------
 1 file changed, 16 insertions(+), 22 deletions(-)

diff --git a/src/misc/debugPtr.cpp b/src/misc/debugPtr.cpp
index 5a6a4e0..e3b670b 100644
--- a/src/misc/debugPtr.cpp
+++ b/src/misc/debugPtr.cpp
@@ -27,11 +27,12 @@ struct tracker {
 
 void shared_ptr_base::track_new()
 {
+    // before others can see us through the tracker
+    snap_stack();
     if(track) {
         Guard G(track->mutex);
         track->refs.insert(this);
     }
-    snap_stack();
 }
 
 // create new tracker if ptr!=nullptr, otherwise clear
@@ -51,11 +52,7 @@ void shared_ptr_base::track_assign(const shared_ptr_base &o)
     if(track!=o.track) {
         track_clear();
         track = o.track;
-        if(track) {
-            Guard G(track->mutex);
-            track->refs.insert(this);
-        }
-        snap_stack();
+        track_new();
     }
 }
 
@@ -75,25 +72,22 @@ void shared_ptr_base::swap(shared_ptr_base &o)
 {
     if(track==o.track) {
         // both are listed, and remain so
-        snap_stack();
-        o.snap_stack();
+        if(track) {
+            Guard G(track->mutex);
+            snap_stack();
+            o.snap_stack();
+        }
         return;
     }
-    // we cheat a bit here to avoid lock order, and to lock only twice
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(&o);
-        track->refs.erase(this);
-    }
-    track.swap(o.track);
-    if(track) {
-        Guard G(track->mutex);
-        track->refs.insert(this);
-        track->refs.erase(&o);
-    }
+    // never hold both locks, so that lock order doesn't matter
+    track_t mine(track), other(o.track);
+    track_clear();
+    o.track_clear();
+    track.swap(other);
+    o.track.swap(mine);
     //TODO: keep original somehow???
-    snap_stack();
-    o.snap_stack();
+    track_new();
+    o.track_new();
 }
 
 void shared_ptr_base::snap_stack()
-- 
2.43.0


From 0315ec064fa252e357ca88852cdfed865fe3ddd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:19 +0000
Subject: [PATCH 68/68] fix: a structure or union array keeps its contents when
 memory runs out during setLength, setCapacity, append or reuse

---
 src/factory/PVStructureArray.cpp | 39 ++++++++++++++------------------
 src/factory/PVUnionArray.cpp     | 39 ++++++++++++++------------------
 src/pv/pvData.h                  |  7 +++++-
 3 files changed, 40 insertions(+), 45 deletions(-)

diff --git a/src/factory/PVStructureArray.cpp b/src/factory/PVStructureArray.cpp
index f00dfb7..5ca6fd5 100644
--- a/src/factory/PVStructureArray.cpp
+++ b/src/factory/PVStructureArray.cpp
@@ -6,6 +6,7 @@
 /**
  *  @author mrk
  */
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <string>
@@ -27,16 +28,23 @@ size_t PVStructureArray::append(size_t number)
         throw std::length_error("too many elements to append");
     checkLength(value.size()+number);
 
-    svector data(reuse());
-    data.resize(data.size()+number);
+    const size_t newLength = value.size()+number;
+
+    // everything which may fail comes before the contents are taken
+    svector added;
+    added.resize(number);
 
     StructureConstPtr structure = structureArray->getStructure();
 
     PVDataCreatePtr pvDataCreate = getPVDataCreate();
-    for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
+    for(svector::iterator it = added.begin(); it != added.end(); ++it)
         *it = pvDataCreate->createPVStructure(structure);
 
-    size_t newLength = data.size();
+    value.reserve(newLength);
+
+    svector data(reuse());
+    data.resize(newLength);
+    std::copy(added.begin(), added.end(), data.end() - number);
 
     const_svector cdata(freeze(data));
     swap(cdata);
@@ -108,14 +116,8 @@ void PVStructureArray::setCapacity(size_t capacity)
 {
     if (this->isCapacityMutable()) {
         checkLength(capacity);
-        const_svector value;
-        swap(value);
-        if(value.capacity()<capacity) {
-            svector mvalue(thaw(value));
-            mvalue.reserve(capacity);
-            value = freeze(mvalue);
-        }
-        swap(value);
+        if(value.capacity()<capacity)
+            value.reserve(capacity);
     }
     else
         THROW_EXCEPTION2(std::logic_error, "capacity immutable");
@@ -130,17 +132,10 @@ void PVStructureArray::setLength(size_t length)
 
     checkLength(length);
 
-    const_svector value;
-    swap(value);
-
-    if (length < value.size()) {
+    if (length < value.size())
         value.slice(0, length);
-    } else {
-        svector mvalue(thaw(value));
-        mvalue.resize(length);
-        value = freeze(mvalue);
-    }
-    swap(value);
+    else
+        value.resize(length);
 }
 
 void PVStructureArray::swap(const_svector &other)
diff --git a/src/factory/PVUnionArray.cpp b/src/factory/PVUnionArray.cpp
index 54705bd..3fabe2a 100644
--- a/src/factory/PVUnionArray.cpp
+++ b/src/factory/PVUnionArray.cpp
@@ -6,6 +6,7 @@
 /**
  *  @author mrk
  */
+#include <algorithm>
 #include <cstddef>
 #include <cstdlib>
 #include <string>
@@ -27,16 +28,23 @@ size_t PVUnionArray::append(size_t number)
         throw std::length_error("too many elements to append");
     checkLength(value.size()+number);
 
-    svector data(reuse());
-    data.resize(data.size()+number);
+    const size_t newLength = value.size()+number;
+
+    // everything which may fail comes before the contents are taken
+    svector added;
+    added.resize(number);
 
     UnionConstPtr punion = unionArray->getUnion();
 
     PVDataCreatePtr pvDataCreate = getPVDataCreate();
-    for(svector::reverse_iterator it = data.rbegin(); number; ++it, --number)
+    for(svector::iterator it = added.begin(); it != added.end(); ++it)
         *it = pvDataCreate->createPVUnion(punion);
 
-    size_t newLength = data.size();
+    value.reserve(newLength);
+
+    svector data(reuse());
+    data.resize(newLength);
+    std::copy(added.begin(), added.end(), data.end() - number);
 
     const_svector cdata(freeze(data));
     swap(cdata);
@@ -108,14 +116,8 @@ void PVUnionArray::setCapacity(size_t capacity)
 {
     if(this->isCapacityMutable()) {
         checkLength(capacity);
-        const_svector value;
-        swap(value);
-        if(value.capacity()<capacity) {
-            svector mvalue(thaw(value));
-            mvalue.reserve(capacity);
-            value = freeze(mvalue);
-        }
-        swap(value);
+        if(value.capacity()<capacity)
+            value.reserve(capacity);
     }
     else
         THROW_EXCEPTION2(std::logic_error, "capacity immutable");
@@ -130,17 +132,10 @@ void PVUnionArray::setLength(size_t length)
 
     checkLength(length);
 
-    const_svector value;
-    swap(value);
-
-    if (length < value.size()) {
+    if (length < value.size())
         value.slice(0, length);
-    } else {
-        svector mvalue(thaw(value));
-        mvalue.resize(length);
-        value = freeze(mvalue);
-    }
-    swap(value);
+    else
+        value.resize(length);
 }
 
 void PVUnionArray::swap(const_svector &other)
diff --git a/src/pv/pvData.h b/src/pv/pvData.h
index 0a2a4f2..ed112f8 100644
--- a/src/pv/pvData.h
+++ b/src/pv/pvData.h
@@ -1159,7 +1159,12 @@ namespace detail {
         {
             const_svector result;
             this->swap(result);
-            return thaw(result);
+            try {
+                return thaw(result);
+            } catch(...) {
+                this->swap(result); // out of memory while copying
+                throw;
+            }
         }
 
         EPICS_NOT_COPYABLE(PVVectorStorage)
-- 
2.43.0

