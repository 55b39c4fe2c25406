From 03a0c5be4910950c15b88ac2c2b5d07177e4115a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 01/50] fix: align bit streams correctly when more than 64 bits
 have to be skipped

---
 runtime/src/zserio/BitStreamReader.cpp | 9 +++++++--
 runtime/src/zserio/BitStreamWriter.cpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index b80d608..9c0b231 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -865,8 +865,13 @@ void BitStreamReader::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        (void)readUnsignedBits64(skip);
+        size_t skip = alignment - offset;
+        while (skip > 64)
+        {
+            (void)readUnsignedBits64(64);
+            skip -= 64;
+        }
+        (void)readUnsignedBits64(static_cast<uint8_t>(skip));
     }
 }
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 78a8357..cc5da29 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -533,8 +533,13 @@ void BitStreamWriter::alignTo(size_t alignment)
     const BitPosType offset = getBitPosition() % alignment;
     if (offset != 0)
     {
-        const uint8_t skip = static_cast<uint8_t>(alignment - offset);
-        writeUnsignedBits64(0, skip);
+        size_t skip = alignment - offset;
+        while (skip > 64)
+        {
+            writeUnsignedBits64(0, 64);
+            skip -= 64;
+        }
+        writeUnsignedBits64(0, static_cast<uint8_t>(skip));
     }
 }
 
-- 
2.43.0


From c3798f2720f15345d3831e32a8205b1d21a1499c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:26 +0000
Subject: [PATCH 02/50] fix: reject varsize values above the maximum whose high
 bits were lost on reading

---
 runtime/src/zserio/BitStreamReader.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 9c0b231..9376f63 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -809,14 +809,16 @@ VarSize BitStreamReader::readVarSize()
         return result;
     }
 
-    result = result << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
-    if (result > VARSIZE_MAX_VALUE)
+    // the whole encoding holds 36 bits
+    const uint64_t fullResult =
+            static_cast<uint64_t>(result) << 8U | static_cast<uint8_t>(readUnsignedBitsImpl(m_context, 8)); // byte 5
+    if (fullResult > VARSIZE_MAX_VALUE)
     {
         throw CppRuntimeException("BitStreamReader: Read value '")
-                << result << "' is out of range for varsize type!";
+                << fullResult << "' is out of range for varsize type!";
     }
 
-    return result;
+    return static_cast<uint32_t>(fullResult);
 }
 
 Float16 BitStreamReader::readFloat16()
-- 
2.43.0


From ad283bee0534af6820e6dd14d8d56e7c73c79dbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 03/50] fix: allow offsets of arrays of dynamic bit fields to
 be initialized

---
 runtime/src/zserio/DeltaContext.h | 6 ++++++
 runtime/src/zserio/View.h         | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 130c222..479a5b2 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -441,6 +441,12 @@ BitSize bitSizeOf(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSi
     return deltaContext.bitSizeOf(view);
 }
 
+template <typename T>
+BitSize initializeOffsets(DeltaContext& deltaContext, View<DynIntWrapper<T>> view, BitSize bitPosition)
+{
+    return bitSizeOf(deltaContext, view, bitPosition);
+}
+
 template <typename T>
 void write(DeltaContext& deltaContext, BitStreamWriter& writer, View<DynIntWrapper<T>> view)
 {
diff --git a/runtime/src/zserio/View.h b/runtime/src/zserio/View.h
index 45a5103..488b73b 100644
--- a/runtime/src/zserio/View.h
+++ b/runtime/src/zserio/View.h
@@ -240,6 +240,12 @@ BitSize bitSizeOf(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize =
     return view.numBits();
 }
 
+template <typename VALUE_TYPE>
+BitSize initializeOffsets(const View<detail::DynIntWrapper<VALUE_TYPE>>& view, BitSize bitPosition)
+{
+    return bitSizeOf(view, bitPosition);
+}
+
 template <typename VALUE_TYPE>
 void write(BitStreamWriter& writer, const View<detail::DynIntWrapper<VALUE_TYPE>>& view)
 {
-- 
2.43.0


From 0a290dbb1eaa9f2866125f7c806fa935389dd487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 04/50] fix: take the bit stream writer when writing a float
 with a delta context

---
 runtime/src/zserio/DeltaContext.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DeltaContext.h b/runtime/src/zserio/DeltaContext.h
index 479a5b2..913bbc3 100644
--- a/runtime/src/zserio/DeltaContext.h
+++ b/runtime/src/zserio/DeltaContext.h
@@ -496,7 +496,7 @@ BitSize bitSizeOf(DeltaContext&, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value, Bit
 }
 
 template <typename VALUE_TYPE, FloatType FLOAT_TYPE>
-void write(DeltaContext&, BitStreamReader& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
+void write(DeltaContext&, BitStreamWriter& writer, FloatWrapper<VALUE_TYPE, FLOAT_TYPE> value)
 {
     write(writer, value);
 }
-- 
2.43.0


From 5aad685213b3fcc24e1e1c59ddc4255a7f18a587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:28 +0000
Subject: [PATCH 05/50] fix: call bitSizeOf when initializing offsets of a bit
 buffer view

---
 runtime/src/zserio/BitBuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 10c2ae2..d72cc22 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -591,7 +591,7 @@ BitSize bitSizeOf(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize = 0)
 template <typename ALLOC>
 BitSize initializeOffsets(const BasicBitBufferView<ALLOC>& bitBufferView, BitSize bitPosition)
 {
-    return bitSizeof(bitBufferView, bitPosition);
+    return bitSizeOf(bitBufferView, bitPosition);
 }
 
 } // namespace detail
-- 
2.43.0


From 0ec871039dc0e94c78f2f6b14b5100a1ec985037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 06/50] fix: compute bit sizes and positions of data of 512 MiB
 and more without overflow

---
 runtime/src/zserio/BitSize.h           | 4 +++-
 runtime/src/zserio/BitStreamWriter.cpp | 4 ++--
 runtime/src/zserio/Bytes.cpp           | 2 +-
 runtime/src/zserio/String.cpp          | 2 +-
 4 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/runtime/src/zserio/BitSize.h b/runtime/src/zserio/BitSize.h
index 7e7d90c..1c4da84 100644
--- a/runtime/src/zserio/BitSize.h
+++ b/runtime/src/zserio/BitSize.h
@@ -1,11 +1,13 @@
 #ifndef ZSERIO_BIT_SIZE_H_INC
 #define ZSERIO_BIT_SIZE_H_INC
 
+#include <cstddef>
+
 namespace zserio
 {
 
 /** Typedef for bit size type used in Zserio. */
-using BitSize = unsigned int;
+using BitSize = size_t;
 
 } // namespace zserio
 
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index cc5da29..36451ee 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -484,7 +484,7 @@ void BitStreamWriter::writeBytes(BytesView data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.end(), m_buffer.begin() + beginBitPosition / 8);
@@ -510,7 +510,7 @@ void BitStreamWriter::writeString(std::string_view data)
     else
     {
         // we are aligned to bytes
-        setBitPosition(beginBitPosition + len * 8);
+        setBitPosition(beginBitPosition + static_cast<BitPosType>(len) * 8);
         if (hasWriteBuffer())
         {
             (void)std::copy(data.begin(), data.begin() + len, m_buffer.data() + beginBitPosition / 8);
diff --git a/runtime/src/zserio/Bytes.cpp b/runtime/src/zserio/Bytes.cpp
index e603a94..efdd0ef 100644
--- a/runtime/src/zserio/Bytes.cpp
+++ b/runtime/src/zserio/Bytes.cpp
@@ -18,7 +18,7 @@ BitSize bitSizeOf(BytesView bytesValue, BitSize)
     const VarSize bytesSize = fromCheckedValue<VarSize>(convertSizeToUInt32(bytesValue.size()));
 
     // the bytes consists of varsize for size followed by the bytes
-    return bitSizeOf(bytesSize) + bytesSize * 8;
+    return bitSizeOf(bytesSize) + static_cast<BitSize>(bytesSize) * 8;
 }
 
 BitSize initializeOffsets(BytesView bytesValue, BitSize bitPosition)
diff --git a/runtime/src/zserio/String.cpp b/runtime/src/zserio/String.cpp
index a2d887a..6084d44 100644
--- a/runtime/src/zserio/String.cpp
+++ b/runtime/src/zserio/String.cpp
@@ -18,7 +18,7 @@ BitSize bitSizeOf(std::string_view stringValue, BitSize)
     const VarSize stringSize = fromCheckedValue<VarSize>(convertSizeToUInt32(stringValue.size()));
 
     // the string consists of varsize for size followed by the UTF-8 encoded string
-    return bitSizeOf(stringSize) + stringSize * 8;
+    return bitSizeOf(stringSize) + static_cast<BitSize>(stringSize) * 8;
 }
 
 BitSize initializeOffsets(std::string_view stringValue, BitSize bitPosition)
-- 
2.43.0


From a212483bf5fe1e1db6b0e277e75b97fd29c7b0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 07/50] fix: keep the reader consistent when a read reaches the
 end of the stream

---
 runtime/src/zserio/BitStreamReader.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index 9376f63..ce7f13e 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -229,11 +229,11 @@ inline void throwEof()
 }
 
 /** Loads next 32/64 bits to 32/64 bit-cache. */
-inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
+inline void loadCacheNext(ReaderContext& ctx)
 {
     static const uint8_t cacheBitSize = sizeof(BaseType) * 8;
 
-    // ctx.bitIndex is always byte aligned and ctx.cacheNumBits is always zero in this call
+    // ctx.bitIndex is always byte aligned, all bits of the cache are used and the caller has checked the buffer size
     const size_t byteIndex = ctx.bitIndex >> 3U;
     if (ctx.bufferBitSize >= ctx.bitIndex + cacheBitSize)
     {
@@ -247,11 +247,6 @@ inline void loadCacheNext(ReaderContext& ctx, uint8_t numBits)
     }
     else
     {
-        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
-        {
-            throwEof();
-        }
-
         ctx.cacheNumBits = static_cast<uint8_t>(ctx.bufferBitSize - ctx.bitIndex);
 
         // buffer must be always available in full bytes, even if some last bits are not used
@@ -297,13 +292,19 @@ inline BaseType readUnsignedBitsImpl(ReaderContext& ctx, uint8_t numBits)
     BaseType value = 0;
     if (ctx.cacheNumBits < numBits)
     {
+        // nothing has been consumed yet, so that the position and the cache stay consistent
+        if (ctx.bitIndex + numBits > ctx.bufferBitSize)
+        {
+            throwEof();
+        }
+
         // read all remaining cache bits
         value = ctx.cache & MASK_TABLE[ctx.cacheNumBits];
         ctx.bitIndex += ctx.cacheNumBits;
         numBits = static_cast<uint8_t>(numBits - ctx.cacheNumBits);
 
         // load next piece of buffer into cache
-        loadCacheNext(ctx, numBits);
+        loadCacheNext(ctx);
 
         // add the remaining bits to the result
         // if numBits is sizeof(BaseType) * 8 here, value is already 0 (see MASK_TABLE[0])
-- 
2.43.0


From 91420556e2447e4a1ab0900a62407cc47208621b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:40 +0000
Subject: [PATCH 08/50] fix: reject a bit size near the maximum of size_t that
 is larger than the buffer

---
 runtime/src/zserio/BitBuffer.h         | 6 ++----
 runtime/src/zserio/BitStreamReader.cpp | 2 +-
 runtime/src/zserio/BitStreamWriter.cpp | 2 +-
 3 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index d72cc22..06565d9 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -293,8 +293,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(Span<const uint8_t> buffer, size_t bitSize
         m_buffer(buffer.begin(), buffer.end(), allocator),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
-    if (buffer.size() < byteSize)
+    if (bitSize > buffer.size() * 8)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
                 << bitSize << " out of range for given span byte size " << buffer.size() << "!";
@@ -312,8 +311,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(std::vector<uint8_t, ALLOC>&& buffer, size
         m_buffer(std::move(buffer)),
         m_bitSize(bitSize)
 {
-    const size_t byteSize = (bitSize + 7) / 8;
-    if (m_buffer.size() < byteSize)
+    if (bitSize > m_buffer.size() * 8)
     {
         throw CppRuntimeException("BitBuffer: Bit size ")
                 << bitSize << " out of range for given vector byte size " << m_buffer.size() << "!";
diff --git a/runtime/src/zserio/BitStreamReader.cpp b/runtime/src/zserio/BitStreamReader.cpp
index ce7f13e..f430318 100644
--- a/runtime/src/zserio/BitStreamReader.cpp
+++ b/runtime/src/zserio/BitStreamReader.cpp
@@ -385,7 +385,7 @@ BitStreamReader::BitStreamReader(
         Span<const uint8_t> buffer, size_t bufferBitSize, ArrayPreallocation maxArrayPrealloc) :
         m_context(buffer, bufferBitSize, maxArrayPrealloc)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    if (bufferBitSize > buffer.size() * 8)
     {
         throw CppRuntimeException("BitStreamReader: Wrong buffer bit size ('")
                 << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
diff --git a/runtime/src/zserio/BitStreamWriter.cpp b/runtime/src/zserio/BitStreamWriter.cpp
index 36451ee..b0f5259 100644
--- a/runtime/src/zserio/BitStreamWriter.cpp
+++ b/runtime/src/zserio/BitStreamWriter.cpp
@@ -339,7 +339,7 @@ BitStreamWriter::BitStreamWriter(Span<uint8_t> buffer, size_t bufferBitSize) :
         m_bitIndex(0),
         m_bufferBitSize(bufferBitSize)
 {
-    if (buffer.size() < (bufferBitSize + 7) / 8)
+    if (bufferBitSize > buffer.size() * 8)
     {
         throw CppRuntimeException("BitStreamWriter: Wrong buffer bit size ('")
                 << buffer.size() << "' < '" << (bufferBitSize + 7) / 8 << "')!";
-- 
2.43.0


From dbb2a69ebb6b3e4f125f3fd08d539221f78835c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:58 +0000
Subject: [PATCH 09/50] fix: compute the magnitude of the minimum of a signed
 variable-length integer without overflow

---
 runtime/src/zserio/Types.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Types.cpp b/runtime/src/zserio/Types.cpp
index 573783d..d0c9fc9 100644
--- a/runtime/src/zserio/Types.cpp
+++ b/runtime/src/zserio/Types.cpp
@@ -112,7 +112,8 @@ static BitSize bitSizeOfVarIntImpl(
 template <typename T>
 static uint64_t convertToAbsValue(typename T::ValueType value)
 {
-    return static_cast<uint64_t>((value < 0) ? -value : value);
+    const uint64_t unsignedValue = static_cast<uint64_t>(value);
+    return (value < 0) ? 0U - unsignedValue : unsignedValue; // negation of the minimum would overflow
 }
 
 BitSize bitSizeOf(VarInt16 value, BitSize)
-- 
2.43.0


From ede0b3c4b2c4825221a0ab62842adb83baeb138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:49 +0000
Subject: [PATCH 10/50] fix: keep the value alive when an optional is assigned
 a reference to its own value

---
 runtime/src/zserio/Optional.h | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index fca44f8..ee0c23e 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -350,7 +350,21 @@ public:
                     !(std::is_same_v<T, std::decay_t<U>> && std::is_scalar_v<U>)>* = nullptr>
     BasicOptional& operator=(U&& value)
     {
-        emplace(std::forward<U>(value));
+        // the value might refer to the held one (or to its part), so the held one must not be destroyed first
+        if constexpr (detail::is_optional_heap_allocated_v<T>)
+        {
+            T* ptr = allocateValue(std::forward<U>(value));
+            clear();
+            m_data.emplace(ptr);
+        }
+        else if constexpr (std::is_assignable_v<T&, U>)
+        {
+            m_data = std::forward<U>(value);
+        }
+        else
+        {
+            emplace(std::forward<U>(value));
+        }
         return *this;
     }
 
-- 
2.43.0


From 6dd8f4e538750fc862921ab21a9d20d95b9feb3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:41 +0000
Subject: [PATCH 11/50] fix: optional assignment from a part of its own
 recursive value used freed memory

---
 runtime/src/zserio/Optional.h | 50 +++++++++++++++++++++++++++++------
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/Optional.h b/runtime/src/zserio/Optional.h
index ee0c23e..50c5abb 100644
--- a/runtime/src/zserio/Optional.h
+++ b/runtime/src/zserio/Optional.h
@@ -294,12 +294,23 @@ public:
     {
         if (this != &other)
         {
-            clear();
-            if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+            if constexpr (detail::is_optional_heap_allocated_v<T>)
             {
-                set_allocator(other.get_allocator_ref());
+                // other might be a part of the held (recursive) value, so it has to be copied first
+                assign(BasicOptional(other,
+                        AllocTraits::propagate_on_container_copy_assignment::value
+                                ? other.get_allocator_ref()
+                                : get_allocator_ref()));
+            }
+            else
+            {
+                clear();
+                if constexpr (AllocTraits::propagate_on_container_copy_assignment::value)
+                {
+                    set_allocator(other.get_allocator_ref());
+                }
+                copy(other);
             }
-            copy(other);
         }
 
         return *this;
@@ -406,12 +417,23 @@ public:
     {
         if (this != &other)
         {
-            clear();
-            if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
+            if constexpr (detail::is_optional_heap_allocated_v<T>)
+            {
+                // other might be a part of the held (recursive) value, so it has to be moved out first
+                assign(BasicOptional(std::move(other),
+                        AllocTraits::propagate_on_container_move_assignment::value
+                                ? other.get_allocator_ref()
+                                : get_allocator_ref()));
+            }
+            else
             {
-                set_allocator(std::move(other.get_allocator_ref()));
+                clear();
+                if constexpr (AllocTraits::propagate_on_container_move_assignment::value)
+                {
+                    set_allocator(std::move(other.get_allocator_ref()));
+                }
+                move(std::move(other));
             }
-            move(std::move(other));
         }
 
         return *this;
@@ -804,6 +826,18 @@ private:
         }
     }
 
+    // takes over the value of other together with its allocator, which is the one this optional shall have
+    void assign(BasicOptional&& other)
+    {
+        clear();
+        if constexpr (AllocTraits::propagate_on_container_copy_assignment::value ||
+                AllocTraits::propagate_on_container_move_assignment::value)
+        {
+            set_allocator(other.get_allocator_ref());
+        }
+        move(std::move(other));
+    }
+
     template <typename U>
     void move(BasicOptional<ALLOC, U>&& other)
     {
-- 
2.43.0


From e73372bacd8f91475e2c6e64083e51ea94f4a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:59 +0000
Subject: [PATCH 12/50] fix: type-erased holder claimed a value, leaked or
 crashed after constructing or copying the value had thrown

---
 runtime/src/zserio/Any.h | 69 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 63 insertions(+), 6 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 4dbafd6..825379d 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -127,6 +127,11 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    bool hasValue() const noexcept
+    {
+        return m_typedHolder.has_value();
+    }
+
     T& get()
     {
         return m_typedHolder.value();
@@ -186,7 +191,15 @@ public:
     IHolder<ALLOC>* clone(const ALLOC& allocator) const override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(this->getHolder());
+        try
+        {
+            holder->setHolder(this->getHolder());
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -198,7 +211,15 @@ public:
     IHolder<ALLOC>* move(const ALLOC& allocator) override
     {
         this_type* holder = create(allocator);
-        holder->setHolder(std::move(this->getHolder()));
+        try
+        {
+            holder->setHolder(std::move(this->getHolder()));
+        }
+        catch (...)
+        {
+            holder->destroy(allocator);
+            throw;
+        }
         return holder;
     }
 
@@ -486,7 +507,16 @@ public:
     template <typename T>
     void set(T&& value)
     {
-        createHolder<typename std::decay<T>::type>()->set(std::forward<T>(value));
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            holder->set(std::forward<T>(value));
+        }
+        catch (...)
+        {
+            clearHolderIfEmpty(*holder);
+            throw;
+        }
     }
 
     /**
@@ -497,8 +527,16 @@ public:
     template <typename T, typename... ARGS>
     T& emplace(ARGS&&... args)
     {
-        return createHolder<typename std::decay<T>::type>()->construct(
-                get_allocator_ref(), std::forward<ARGS>(args)...);
+        auto* holder = createHolder<typename std::decay<T>::type>();
+        try
+        {
+            return holder->construct(get_allocator_ref(), std::forward<ARGS>(args)...);
+        }
+        catch (...)
+        {
+            clearHolderIfEmpty(*holder);
+            throw;
+        }
     }
 
     /**
@@ -601,7 +639,16 @@ private:
     {
         if (other.m_isInPlace)
         {
-            other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            try
+            {
+                other.getUntypedHolder()->clone(&m_untypedHolder.inPlace);
+            }
+            catch (...)
+            {
+                // the storage might have been overwritten
+                m_untypedHolder.heap = nullptr;
+                throw;
+            }
             m_isInPlace = true;
         }
         else if (other.m_untypedHolder.heap != nullptr)
@@ -653,6 +700,16 @@ private:
         }
     }
 
+    // when setting of the value has failed, there must not be any holder which does not hold a value
+    template <typename T>
+    void clearHolderIfEmpty(const detail::HolderBase<T, ALLOC>& holder)
+    {
+        if (!holder.hasValue())
+        {
+            clearHolder();
+        }
+    }
+
     bool hasHolder() const noexcept
     {
         return (m_isInPlace || m_untypedHolder.heap != nullptr);
-- 
2.43.0


From c4d636094e0c81e5707e190684008734fd6d6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:29 +0000
Subject: [PATCH 13/50] fix: swapping type-erased holders with different
 allocators returned memory to the wrong one

---
 runtime/src/zserio/Any.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index 825379d..f4653ec 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -477,17 +477,22 @@ public:
         {
             std::swap(m_untypedHolder.heap, other.m_untypedHolder.heap);
         }
-        else
+        else if constexpr (AllocTraits::propagate_on_container_swap::value)
         {
+            // each value stays with the allocator it was created by
             BasicAny tmp(std::move(*this), get_allocator_ref());
+            set_allocator(other.get_allocator_ref());
             move(std::move(other));
+            other.set_allocator(tmp.get_allocator_ref());
+            other.move(std::move(tmp));
+        }
+        else
+        {
+            // both values are moved to the other allocator before any of them is placed, because it can throw
+            BasicAny tmp(std::move(*this), other.get_allocator_ref());
+            BasicAny otherTmp(std::move(other), get_allocator_ref());
+            move(std::move(otherTmp));
             other.move(std::move(tmp));
-
-            if constexpr (AllocTraits::propagate_on_container_swap::value)
-            {
-                using std::swap;
-                swap(get_allocator_ref(), other.get_allocator_ref());
-            }
         }
     }
 
-- 
2.43.0


From e814a659218b9029cf5a8965a09ecf19d2cc3ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:19 +0000
Subject: [PATCH 14/50] fix: copying a type-erased holder with an allocator did
 not pass the allocator to the value

---
 runtime/src/zserio/Any.h | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/Any.h b/runtime/src/zserio/Any.h
index f4653ec..360b0df 100644
--- a/runtime/src/zserio/Any.h
+++ b/runtime/src/zserio/Any.h
@@ -127,6 +127,24 @@ public:
         m_typedHolder = std::move(value);
     }
 
+    // the copied or moved value has to use the allocator of its new owner (when it uses any)
+    template <typename OPT>
+    void setHolder(const ALLOC& allocator, OPT&& value)
+    {
+        using U = decltype(*std::forward<OPT>(value));
+
+        if constexpr (std::uses_allocator_v<T, ALLOC> &&
+                (std::is_constructible_v<T, std::allocator_arg_t, const ALLOC&, U> ||
+                        std::is_constructible_v<T, U, const ALLOC&>))
+        {
+            construct(allocator, *std::forward<OPT>(value));
+        }
+        else
+        {
+            setHolder(std::forward<OPT>(value));
+        }
+    }
+
     bool hasValue() const noexcept
     {
         return m_typedHolder.has_value();
@@ -193,7 +211,7 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(this->getHolder());
+            holder->setHolder(allocator, this->getHolder());
         }
         catch (...)
         {
@@ -213,7 +231,7 @@ public:
         this_type* holder = create(allocator);
         try
         {
-            holder->setHolder(std::move(this->getHolder()));
+            holder->setHolder(allocator, std::move(this->getHolder()));
         }
         catch (...)
         {
-- 
2.43.0


From 9b33ff92c43e5086632fccfc2970e06f40a8800d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:54 +0000
Subject: [PATCH 15/50] fix: valueless variants were not equal and could not be
 hashed

---
 runtime/src/zserio/Variant.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/Variant.h b/runtime/src/zserio/Variant.h
index cca5caf..0d04740 100644
--- a/runtime/src/zserio/Variant.h
+++ b/runtime/src/zserio/Variant.h
@@ -424,7 +424,7 @@ public:
             return false;
         }
 
-        bool ret = false;
+        bool ret = true; // two valueless variants are equal
         detail::for_active_item_2<sizeof...(T)>(*this, other, [&ret](auto& elem1, auto& elem2) {
             ret = elem1 == elem2;
         });
@@ -591,9 +591,12 @@ uint32_t calcHashCode(uint32_t seed, const BasicVariant<ALLOC, INDEX, T...>& var
 {
     uint32_t result = seed;
     result = calcHashCode(result, static_cast<size_t>(var.index()));
-    var.visit([&result](const auto& value) {
-        result = calcHashCode(result, value);
-    });
+    if (!var.valueless_by_exception())
+    {
+        var.visit([&result](const auto& value) {
+            result = calcHashCode(result, value);
+        });
+    }
     return result;
 }
 
-- 
2.43.0


From fd2c14ac1f678085e9606fe28f2cb584e563fb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:58 +0000
Subject: [PATCH 16/50] fix: conversion to 16-bit float turned large numbers
 and NaNs into wrong ones and lost values below the least subnormal

---
 runtime/src/zserio/FloatUtil.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/FloatUtil.cpp b/runtime/src/zserio/FloatUtil.cpp
index 116cbed..f6cac70 100644
--- a/runtime/src/zserio/FloatUtil.cpp
+++ b/runtime/src/zserio/FloatUtil.cpp
@@ -108,21 +108,29 @@ uint16_t convertFloatToUInt16(float float32)
     {
         // infinity or NaN
         exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+        if (significand32 != 0 && significand16 == 0)
+        {
+            // NaN must not become infinity when its payload is in the lost bits only
+            significand16 = static_cast<uint16_t>(UINT32_C(1) << (FLOAT16_SIGNIFICAND_NUM_BITS - 1));
+        }
     }
     else
     {
         // normal number
         const int16_t signedExponent16 = static_cast<int16_t>(static_cast<int32_t>(exponent32) -
                 static_cast<int32_t>(FLOAT32_EXPONENT_BIAS) + static_cast<int32_t>(FLOAT16_EXPONENT_BIAS));
-        if (signedExponent16 > FLOAT16_EXPONENT_INFINITY_NAN)
+        if (signedExponent16 >= static_cast<int16_t>(FLOAT16_EXPONENT_INFINITY_NAN))
         {
-            // exponent overflow, set infinity or NaN
+            // exponent overflow, set infinity
             exponent16 = FLOAT16_EXPONENT_INFINITY_NAN;
+            significand16 = 0;
         }
         else if (signedExponent16 <= 0)
         {
             // exponent underflow
-            if (signedExponent16 <= static_cast<int16_t>(-FLOAT16_SIGNIFICAND_NUM_BITS))
+            const int16_t halfOfMinExponent16 = static_cast<int16_t>(-FLOAT16_SIGNIFICAND_NUM_BITS);
+            if (signedExponent16 < halfOfMinExponent16 ||
+                    (signedExponent16 == halfOfMinExponent16 && significand32 == 0))
             {
                 // too big underflow, set to zero
                 significand16 = 0;
-- 
2.43.0


From a3d2fe983b739266a177d537893679befb5616b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:12 +0000
Subject: [PATCH 17/50] fix: numbers in messages lost leading zeros of the
 fraction, the sign of values above minus one and NaN

---
 runtime/src/zserio/StringConvertUtil.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/StringConvertUtil.h b/runtime/src/zserio/StringConvertUtil.h
index 221b0ef..f4a9a47 100644
--- a/runtime/src/zserio/StringConvertUtil.h
+++ b/runtime/src/zserio/StringConvertUtil.h
@@ -2,6 +2,7 @@
 #define ZSERIO_STRING_CONVERT_UTIL_H_INC
 
 #include <array>
+#include <cmath>
 #include <limits>
 #include <sstream>
 #include <string_view>
@@ -108,7 +109,7 @@ const char* convertIntToString(std::array<char, 24>& buffer, T value)
 /**
  * Converts float to string and writes the result to the given buffer.
  *
- * Note that only five three digits after point are used and that the buffers are filled from behind.
+ * Note that only three digits after point are used and that the buffers are filled from behind.
  *
  * \param integerPartBuffer Buffer to fill with the string representation of the integer part.
  * \param floatingPartBuffer Buffer to fill with the string representation of the floating part.
@@ -120,7 +121,12 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         std::array<char, 24>& floatingPartBuffer, float value, const char*& integerPartString,
         const char*& floatingPartString)
 {
-    if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
+    if (std::isnan(value))
+    {
+        integerPartString = "NaN";
+        floatingPartString = nullptr;
+    }
+    else if (value >= static_cast<float>(std::numeric_limits<int64_t>::max()))
     {
         integerPartString = "+Inf";
         floatingPartString = nullptr;
@@ -136,8 +142,19 @@ inline void convertFloatToString(std::array<char, 24>& integerPartBuffer,
         const int64_t floatingPart =
                 static_cast<int64_t>((value - static_cast<float>(integerPart)) * 1e3F); // 3 digits
         const int64_t floatingPartAbs = (floatingPart < 0) ? 0 - floatingPart : floatingPart;
-        integerPartString = convertIntToString(integerPartBuffer, integerPart);
-        floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs);
+        const bool isNegative = integerPart < 0 || floatingPart < 0; // integer part is zero for e.g. -0.5
+        const uint64_t integerPartAbs =
+                (integerPart < 0) ? 0 - static_cast<uint64_t>(integerPart) : static_cast<uint64_t>(integerPart);
+        integerPartString = detail::convertIntToString(integerPartBuffer, integerPartAbs, isNegative);
+        if (floatingPart == 0)
+        {
+            floatingPartString = "0";
+        }
+        else
+        {
+            // adds 1000 to keep the leading zeros and skips the leading one
+            floatingPartString = convertIntToString(floatingPartBuffer, floatingPartAbs + 1000) + 1;
+        }
     }
 }
 
-- 
2.43.0


From 673e720438ff4b8c4dd318ba83ffbb8eadd59f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 18/50] fix: JSON value at the end of input was lost when the
 previous chunk ended with white space

---
 runtime/src/zserio/JsonTokenizer.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 7152934..1cb7860 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -234,7 +234,9 @@ bool BasicJsonTokenizer<ALLOC>::decodeNext()
         m_decoderResult = m_decoder.decodeValue(std::string_view(m_content.data()).substr(m_pos));
         if (m_pos + m_decoderResult.numReadChars >= m_content.size())
         {
-            return false; // we are at the end of chunk => read more
+            // we are at the end of chunk => read more, but do not keep END_OF_FILE set at the end of previous chunk
+            m_token = JsonToken::UNKNOWN;
+            return false;
         }
 
         setTokenValue();
-- 
2.43.0


From 7285493b6e13690c6c4416f936f638afea16866c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:12 +0000
Subject: [PATCH 19/50] fix: unicode escapes of U+0080 to U+00FF in JSON
 strings were decoded to bytes which are not valid UTF-8

---
 runtime/src/zserio/JsonDecoder.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index 9b543a1..ad55a1a 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -295,9 +295,16 @@ bool BasicJsonDecoder<ALLOC>::decodeUnicodeEscape(std::string_view input,
     }
 
     const uint32_t characterInt = (static_cast<uint32_t>(hex1) << 4U) | static_cast<uint32_t>(hex2);
-    using char_traits = std::char_traits<char>;
-    const char character = char_traits::to_char_type(static_cast<char_traits::int_type>(characterInt));
-    value.push_back(character);
+    if (characterInt < 0x80)
+    {
+        value.push_back(static_cast<char>(characterInt));
+    }
+    else
+    {
+        // two bytes in UTF-8
+        value.push_back(static_cast<char>(0xC0U | (characterInt >> 6U)));
+        value.push_back(static_cast<char>(0x80U | (characterInt & 0x3FU)));
+    }
 
     return true;
 }
-- 
2.43.0


From 19a4230d5bcb2c18d70410b700c55d9d6497b1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:23 +0000
Subject: [PATCH 20/50] fix: JSON decoder read numbers behind the end of the
 given text

---
 runtime/src/zserio/JsonDecoder.h | 30 ++++++++++++++++++------------
 1 file changed, 18 insertions(+), 12 deletions(-)

diff --git a/runtime/src/zserio/JsonDecoder.h b/runtime/src/zserio/JsonDecoder.h
index ad55a1a..19d221b 100644
--- a/runtime/src/zserio/JsonDecoder.h
+++ b/runtime/src/zserio/JsonDecoder.h
@@ -149,9 +149,9 @@ private:
     static int32_t decodeHex(char character);
     size_t checkNumber(std::string_view input, bool& isDouble, bool& isSigned);
     DecoderResult decodeNumber(std::string_view input);
-    DecoderResult decodeSigned(std::string_view input);
-    DecoderResult decodeUnsigned(std::string_view input);
-    DecoderResult decodeDouble(std::string_view input, size_t numChars);
+    DecoderResult decodeSigned(const BasicString<RebindAlloc<ALLOC, char>>& number);
+    DecoderResult decodeUnsigned(const BasicString<RebindAlloc<ALLOC, char>>& number);
+    DecoderResult decodeDouble(const BasicString<RebindAlloc<ALLOC, char>>& number);
 };
 
 template <typename ALLOC>
@@ -403,26 +403,30 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeN
         return DecoderResult(1, get_allocator());
     }
 
+    // the input does not have to be terminated by zero but the conversion functions need it
+    const BasicString<RebindAlloc<ALLOC, char>> number(input.data(), numChars, get_allocator());
+
     // for decodeSigned and decodeUnsigned, we know that all numChars will be processed because checkNumber
     // already checked this
     if (isDouble)
     {
-        return decodeDouble(input, numChars);
+        return decodeDouble(number);
     }
     else if (isSigned)
     {
-        return decodeSigned(input);
+        return decodeSigned(number);
     }
     else
     {
-        return decodeUnsigned(input);
+        return decodeUnsigned(number);
     }
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeSigned(
+        const BasicString<RebindAlloc<ALLOC, char>>& number)
 {
-    const char* pBegin = &input.front();
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     errno = 0; // no library function sets its value back to zero once changed
     const int64_t value = std::strtoll(pBegin, &pEnd, 10);
@@ -434,9 +438,10 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeS
 }
 
 template <typename ALLOC>
-typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(std::string_view input)
+typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeUnsigned(
+        const BasicString<RebindAlloc<ALLOC, char>>& number)
 {
-    const char* pBegin = &input.front();
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     errno = 0; // no library function sets its value back to zero once changed
     const uint64_t value = std::strtoull(pBegin, &pEnd, 10);
@@ -449,9 +454,10 @@ typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeU
 
 template <typename ALLOC>
 typename BasicJsonDecoder<ALLOC>::DecoderResult BasicJsonDecoder<ALLOC>::decodeDouble(
-        std::string_view input, size_t numChars)
+        const BasicString<RebindAlloc<ALLOC, char>>& number)
 {
-    const char* pBegin = &input.front();
+    const size_t numChars = number.size();
+    const char* pBegin = number.c_str();
     char* pEnd = nullptr;
     const double value = std::strtod(pBegin, &pEnd);
     if (static_cast<size_t>(pEnd - pBegin) != numChars)
-- 
2.43.0


From 43fbe5ecd756d19a718c2ccffdad5a0485cd8856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:45 +0000
Subject: [PATCH 21/50] fix: floating point numbers in JSON lost digits and
 some became integers

---
 runtime/src/zserio/JsonEncoder.cpp | 35 +++++++++++++++++++++++++++++-
 1 file changed, 34 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonEncoder.cpp b/runtime/src/zserio/JsonEncoder.cpp
index 033230d..1b43d21 100644
--- a/runtime/src/zserio/JsonEncoder.cpp
+++ b/runtime/src/zserio/JsonEncoder.cpp
@@ -1,12 +1,36 @@
 #include <array>
 #include <cmath>
+#include <cstdio>
+#include <cstdlib>
 #include <iomanip>
+#include <limits>
 
 #include "zserio/JsonEncoder.h"
 
 namespace zserio
 {
 
+namespace
+{
+
+// gets the least number of digits (15 at least) from which the same value is read back
+int getPrecision(double value)
+{
+    for (int precision = 15; precision < std::numeric_limits<double>::max_digits10; ++precision)
+    {
+        std::array<char, 32> buffer = {};
+        (void)std::snprintf(buffer.data(), buffer.size(), "%.*g", precision, value);
+        if (std::strtod(buffer.data(), nullptr) == value)
+        {
+            return precision;
+        }
+    }
+
+    return std::numeric_limits<double>::max_digits10;
+}
+
+} // namespace
+
 void JsonEncoder::encodeNull(std::ostream& stream)
 {
     stream << "null";
@@ -42,7 +66,16 @@ void JsonEncoder::encodeFloatingPoint(std::ostream& stream, double value)
         }
         else
         {
-            stream << std::setprecision(15) << value << std::defaultfloat;
+            const int precision = getPrecision(value);
+            if (fractPart == 0.0 && precision == std::numeric_limits<double>::max_digits10)
+            {
+                // exponent is needed, otherwise all digits could be written as an integer
+                stream << std::scientific << std::setprecision(precision - 1) << value << std::defaultfloat;
+            }
+            else
+            {
+                stream << std::setprecision(precision) << value << std::defaultfloat;
+            }
         }
     }
 }
-- 
2.43.0


From f8874ae15bafe8472ea45d8df54b11b28ffb7a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:54 +0000
Subject: [PATCH 22/50] fix: bit buffers which differ in trailing zero bits
 only were not ordered

---
 runtime/src/zserio/BitBuffer.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 06565d9..8538192 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -405,7 +405,8 @@ bool BasicBitBuffer<ALLOC>::operator<(const BasicBitBuffer& other) const
         return false;
     }
 
-    return (first1 == last1) && (first2 != last2);
+    // one is the beginning of the other, masked bits of the last byte can hide it
+    return m_bitSize < other.m_bitSize;
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 575ebaa36312ba661f167cb3edee0a0ccb2feb8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:16 +0000
Subject: [PATCH 23/50] fix: bit buffer of a size near the maximum of size_t
 was created without bytes

---
 runtime/src/zserio/BitBuffer.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 8538192..862a581 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -278,7 +278,7 @@ BasicBitBuffer<ALLOC>::BasicBitBuffer(const ALLOC& allocator) :
 
 template <typename ALLOC>
 BasicBitBuffer<ALLOC>::BasicBitBuffer(size_t bitSize, const ALLOC& allocator) :
-        m_buffer((bitSize + 7) / 8, 0, allocator),
+        m_buffer(bitSize / 8 + ((bitSize % 8 != 0) ? 1 : 0), 0, allocator),
         m_bitSize(bitSize)
 {}
 
@@ -451,7 +451,7 @@ size_t BasicBitBuffer<ALLOC>::getBitSize() const
 template <typename ALLOC>
 size_t BasicBitBuffer<ALLOC>::getByteSize() const
 {
-    return (m_bitSize + 7) / 8;
+    return m_bitSize / 8 + ((m_bitSize % 8 != 0) ? 1 : 0);
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 58977ffd3bf11f8ddbd46efc79862bedae76a5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:19 +0000
Subject: [PATCH 24/50] fix: moved-from bit buffer kept its bit size without
 having the bytes

---
 runtime/src/zserio/BitBuffer.h | 48 +++++++++++++++++++++++++++++++---
 1 file changed, 45 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/BitBuffer.h b/runtime/src/zserio/BitBuffer.h
index 862a581..966b3d1 100644
--- a/runtime/src/zserio/BitBuffer.h
+++ b/runtime/src/zserio/BitBuffer.h
@@ -127,12 +127,27 @@ public:
     BasicBitBuffer(const BasicBitBuffer&) = default;
     BasicBitBuffer& operator=(const BasicBitBuffer&) = default;
 
-    BasicBitBuffer(BasicBitBuffer&&) = default;
-    BasicBitBuffer& operator=(BasicBitBuffer&&) = default;
     /**
      * \}
      */
 
+    /**
+     * Move constructor.
+     *
+     * \param other Bit buffer to move from, it is empty afterwards.
+     */
+    BasicBitBuffer(BasicBitBuffer&& other) noexcept;
+
+    /**
+     * Move assignment operator.
+     *
+     * \param other Bit buffer to move from, it is empty afterwards.
+     *
+     * \return Reference to this bit buffer.
+     */
+    BasicBitBuffer& operator=(BasicBitBuffer&& other) noexcept(
+            std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>);
+
     /**
      * Equal operator.
      *
@@ -328,7 +343,34 @@ template <typename ALLOC>
 inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other, const ALLOC& allocator) :
         m_buffer(std::move(other.m_buffer), allocator),
         m_bitSize(other.m_bitSize)
-{}
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0;
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>::BasicBitBuffer(BasicBitBuffer&& other) noexcept :
+        m_buffer(std::move(other.m_buffer)),
+        m_bitSize(other.m_bitSize)
+{
+    other.m_buffer.clear();
+    other.m_bitSize = 0;
+}
+
+template <typename ALLOC>
+inline BasicBitBuffer<ALLOC>& BasicBitBuffer<ALLOC>::operator=(BasicBitBuffer&& other) noexcept(
+        std::is_nothrow_move_assignable_v<std::vector<uint8_t, ALLOC>>)
+{
+    if (this != &other)
+    {
+        m_buffer = std::move(other.m_buffer);
+        m_bitSize = other.m_bitSize;
+        other.m_buffer.clear();
+        other.m_bitSize = 0;
+    }
+
+    return *this;
+}
 
 template <typename ALLOC>
 bool BasicBitBuffer<ALLOC>::operator==(const BasicBitBuffer& other) const
-- 
2.43.0


From f7157a9c85b0686fe21abe8ace49ed4b62817238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:33 +0000
Subject: [PATCH 25/50] fix: make operator-> of ArrayView iterators usable for
 elements returned by reference

---
 runtime/src/zserio/ArrayView.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index a0b0405..40ba06e 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -358,7 +358,7 @@ public:
         /** Helper needed to implement operator-> on the ConstIterator. */
         struct ArrowHelper
         {
-            value_type* operator->()
+            std::remove_reference_t<value_type>* operator->()
             {
                 return std::addressof(value);
             }
-- 
2.43.0


From 1bba19a11c9315b8a94eea67eb4af0d752e87cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:32 +0000
Subject: [PATCH 26/50] fix: hash negative zero like positive zero, they
 compare equal

---
 runtime/src/zserio/HashCodeUtil.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/HashCodeUtil.h b/runtime/src/zserio/HashCodeUtil.h
index 54726af..443b151 100644
--- a/runtime/src/zserio/HashCodeUtil.h
+++ b/runtime/src/zserio/HashCodeUtil.h
@@ -75,7 +75,8 @@ inline typename std::enable_if<std::is_integral<T>::value && (sizeof(T) > 4), ui
  */
 inline uint32_t calcHashCode(uint32_t seedValue, float value)
 {
-    return calcHashCode(seedValue, convertFloatToUInt32(value));
+    // negative zero is equal to positive zero and so it must have the same hash code
+    return calcHashCode(seedValue, convertFloatToUInt32(value == 0.0F ? 0.0F : value));
 }
 
 /**
@@ -88,7 +89,8 @@ inline uint32_t calcHashCode(uint32_t seedValue, float value)
  */
 inline uint32_t calcHashCode(uint32_t seedValue, double value)
 {
-    return calcHashCode(seedValue, convertDoubleToUInt64(value));
+    // negative zero is equal to positive zero and so it must have the same hash code
+    return calcHashCode(seedValue, convertDoubleToUInt64(value == 0.0 ? 0.0 : value));
 }
 
 /**
-- 
2.43.0


From 7a4cdc3928d57f6be88a6cff1c35d9eef8a98c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:53 +0000
Subject: [PATCH 27/50] fix: file names given as views were read behind their
 end

---
 runtime/src/zserio/DebugStringUtil.h | 4 ++--
 runtime/src/zserio/FileUtil.cpp      | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 72b6c1e..03bd46b 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -58,7 +58,7 @@ template <typename T, typename WALK_FILTER, typename ALLOC>
 void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK_FILTER&& walkFilter,
         const ALLOC& allocator)
 {
-    std::ofstream stream = std::ofstream(fileName.data(), std::ios::out | std::ios::trunc);
+    std::ofstream stream = std::ofstream(std::string(fileName), std::ios::out | std::ios::trunc);
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to open '") << fileName << "'!";
@@ -582,7 +582,7 @@ template <typename ALLOC = std::allocator<uint8_t>>
 typename detail::DebugStringTraits<ALLOC>::ReflectableDataPtr fromJsonFile(
         const IBasicTypeInfo<ALLOC>& typeInfo, std::string_view fileName, const ALLOC& allocator = ALLOC())
 {
-    std::ifstream is = std::ifstream(fileName.data());
+    std::ifstream is = std::ifstream(std::string(fileName));
     if (!is)
     {
         throw CppRuntimeException("DebugStringUtil.fromJsonFile: Failed to open '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 9bbc5f6..040f6a6 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -1,4 +1,5 @@
 #include <fstream>
+#include <string>
 #include <string_view>
 
 #include "zserio/CppRuntimeException.h"
@@ -9,7 +10,7 @@ namespace zserio
 
 void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::string_view fileName)
 {
-    std::ofstream stream(fileName.data(), std::ofstream::binary | std::ofstream::trunc);
+    std::ofstream stream(std::string(fileName), std::ofstream::binary | std::ofstream::trunc);
     if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to open '") << fileName << "' for writing!";
@@ -24,7 +25,7 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
 
 BitBuffer readBufferFromFile(std::string_view fileName)
 {
-    std::ifstream stream(fileName.data(), std::ifstream::binary);
+    std::ifstream stream(std::string(fileName), std::ifstream::binary);
     if (!stream)
     {
         throw CppRuntimeException("readBufferFromFile: Cannot open '") << fileName << "' for reading!";
-- 
2.43.0


From 4c9988f49cb9b00ca795ed021d43ded1d72f0d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 28/50] fix: write errors reported when a file was flushed or
 closed were lost

---
 runtime/src/zserio/DebugStringUtil.h | 1 +
 runtime/src/zserio/FileUtil.cpp      | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 03bd46b..30abebe 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -66,6 +66,7 @@ void toJsonFile(const T& object, std::string_view fileName, uint8_t indent, WALK
 
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
 
+    stream.close(); // write errors may be reported as late as here
     if (!stream)
     {
         throw CppRuntimeException("DebugStringUtil.toJsonFile: Failed to write '") << fileName << "'!";
diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 040f6a6..2168164 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -17,7 +17,9 @@ void writeBufferToFile(const uint8_t* buffer, size_t bitSize, BitsTag, std::stri
     }
 
     const size_t byteSize = (bitSize + 7) / 8;
-    if (!stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize)))
+    stream.write(reinterpret_cast<const char*>(buffer), static_cast<std::streamsize>(byteSize));
+    stream.close(); // write errors may be reported as late as here
+    if (!stream)
     {
         throw CppRuntimeException("writeBufferToFile: Failed to write '") << fileName << "'!";
     }
-- 
2.43.0


From 9776e85f052dfed51e7b7035e7eaf69d7f311a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:01 +0000
Subject: [PATCH 29/50] fix: files whose size ends in 32 one bits could not be
 read

---
 runtime/src/zserio/FileUtil.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/FileUtil.cpp b/runtime/src/zserio/FileUtil.cpp
index 2168164..6bc5490 100644
--- a/runtime/src/zserio/FileUtil.cpp
+++ b/runtime/src/zserio/FileUtil.cpp
@@ -37,7 +37,7 @@ BitBuffer readBufferFromFile(std::string_view fileName)
     const std::streampos fileSize = stream.tellg();
     (void)stream.seekg(0);
 
-    if (static_cast<int>(fileSize) == -1)
+    if (fileSize == std::streampos(-1))
     {
         throw CppRuntimeException("readBufferFromFile: Failed to get file size of '") << fileName << "'!";
     }
-- 
2.43.0


From 866cf22e48356531935482cfb767d4e3598faf48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:50 +0000
Subject: [PATCH 30/50] fix: read errors of JSON files escaped as exceptions of
 the standard library

---
 runtime/src/zserio/JsonTokenizer.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/JsonTokenizer.h b/runtime/src/zserio/JsonTokenizer.h
index 1cb7860..66fe84e 100644
--- a/runtime/src/zserio/JsonTokenizer.h
+++ b/runtime/src/zserio/JsonTokenizer.h
@@ -188,7 +188,15 @@ JsonToken BasicJsonTokenizer<ALLOC>::next()
 template <typename ALLOC>
 BasicString<RebindAlloc<ALLOC, char>> BasicJsonTokenizer<ALLOC>::readContent(const ALLOC& allocator)
 {
-    const size_t count = static_cast<size_t>(m_in.rdbuf()->sgetn(m_buffer.data(), BUFFER_SIZE));
+    size_t count = 0;
+    try
+    {
+        count = static_cast<size_t>(m_in.rdbuf()->sgetn(m_buffer.data(), BUFFER_SIZE));
+    }
+    catch (const std::ios_base::failure& e)
+    {
+        throw JsonParserException("JsonTokenizer: Failed to read input: ") << e.what() << "!";
+    }
 
     return BasicString<RebindAlloc<ALLOC, char>>(m_buffer.data(), count, allocator);
 }
-- 
2.43.0


From eac96c09e846e13b01bd1cf113d208b6dec1af6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:26 +0000
Subject: [PATCH 31/50] fix: big double values are not almost equal to each
 other

---
 runtime/src/zserio/ReflectableUtil.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/ReflectableUtil.h b/runtime/src/zserio/ReflectableUtil.h
index eeecce0..bdef174 100644
--- a/runtime/src/zserio/ReflectableUtil.h
+++ b/runtime/src/zserio/ReflectableUtil.h
@@ -306,7 +306,9 @@ inline bool ReflectableUtil::doubleValuesAlmostEqual(double lhs, double rhs)
     }
 
     // see: https://en.cppreference.com/w/cpp/types/numeric_limits/epsilon
-    return std::fabs(lhs - rhs) <= std::numeric_limits<double>::epsilon() * std::fabs(lhs + rhs) ||
+    // (the values are scaled before they are added, the sum of two big values would overflow to infinity)
+    const double epsilon = std::numeric_limits<double>::epsilon();
+    return std::fabs(lhs - rhs) <= std::fabs(epsilon * lhs + epsilon * rhs) ||
             std::fabs(lhs - rhs) < std::numeric_limits<double>::min();
 }
 
-- 
2.43.0


From cec00493b3066fc0cfe06164ed9b2cf8af51fd50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:34 +0000
Subject: [PATCH 32/50] fix: regex walk filter matches an array element that is
 a compound

---
 runtime/src/zserio/Walker.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/src/zserio/Walker.h b/runtime/src/zserio/Walker.h
index 073baac..d1d628a 100644
--- a/runtime/src/zserio/Walker.h
+++ b/runtime/src/zserio/Walker.h
@@ -786,7 +786,7 @@ bool BasicRegexWalkFilter<ALLOC>::beforeArray(
         m_currentPath.back() =
                 toString(fieldInfo.schemaName, m_allocator) + "[" + toString(i, m_allocator) + "]";
 
-        if (matchSubtree(array->at(i), fieldInfo))
+        if (std::regex_match(getCurrentPath(), m_pathRegex) || matchSubtree(array->at(i), fieldInfo))
         {
             return true;
         }
-- 
2.43.0


From 9e1bf2d02f4709bed39167000057b307cb9f38a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:24 +0000
Subject: [PATCH 33/50] fix: tree creator treats the Bool wrapper as the native
 bool

---
 runtime/src/zserio/ZserioTreeCreator.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9384d00..c96ad4d 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -390,6 +390,13 @@ BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, T&& value, c
     }
 }
 
+// overload for zserio bool wrapper which has the same conversions as the native bool
+template <typename ALLOC>
+BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, BoolWrapper value, const ALLOC& allocator)
+{
+    return makeAnyValue(typeInfo, static_cast<bool>(value), allocator);
+}
+
 // overload for values which are already in BasicAny
 template <typename ALLOC>
 BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>&, BasicAny<ALLOC>&& anyValue, const ALLOC&)
-- 
2.43.0


From 8eb267790c895a14efb5bd51c0a7cf48cdb0fc5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:13 +0000
Subject: [PATCH 34/50] fix: tree creator requires a separator between
 identifiers of a bitmask

---
 runtime/src/zserio/ZserioTreeCreator.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index c96ad4d..9108165 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -263,10 +263,11 @@ BasicAny<ALLOC> parseBitmaskStringValue(
             ++pos;
         }
 
-        if (pos < stringValue.size() && stringValue[pos] == '|')
+        if (pos == stringValue.size() || stringValue[pos] != '|')
         {
-            ++pos;
+            break; // identifiers must be separated
         }
+        ++pos;
 
         while (pos < stringValue.size() && stringValue[pos] == ' ')
         {
-- 
2.43.0


From ba26f41952571bc675e6bd848dda2508530e5a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:14 +0000
Subject: [PATCH 35/50] fix: tree creator rejects text after the number of a
 bitmask value

---
 runtime/src/zserio/ZserioTreeCreator.h | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index 9108165..d3e5a3f 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -280,16 +280,23 @@ BasicAny<ALLOC> parseBitmaskStringValue(
 }
 
 template <typename ALLOC>
-BasicAny<ALLOC> parseBitmaskNumericStringValue(
-        const char* stringValue, const IBasicTypeInfo<ALLOC>& typeInfo, const ALLOC& allocator)
+BasicAny<ALLOC> parseBitmaskNumericStringValue(const BasicString<RebindAlloc<ALLOC, char>>& stringValue,
+        const IBasicTypeInfo<ALLOC>& typeInfo, const ALLOC& allocator)
 {
     char* pEnd = nullptr;
     errno = 0;
-    uint64_t value = std::strtoull(stringValue, &pEnd, 10);
+    uint64_t value = std::strtoull(stringValue.c_str(), &pEnd, 10);
     if (errno == ERANGE)
     {
         return BasicAny<ALLOC>(allocator);
     }
+    // the number can be followed only by a comment (e.g. "7 /* partial match: READ */")
+    const std::string_view comment = std::string_view(stringValue).substr(
+            static_cast<size_t>(pEnd - stringValue.c_str()));
+    if (!comment.empty() && comment.substr(0, 3) != " /*")
+    {
+        return BasicAny<ALLOC>(allocator);
+    }
     return makeAnyValue(typeInfo.getUnderlyingType(), value, allocator);
 }
 
@@ -314,7 +321,7 @@ BasicAny<ALLOC> makeAnyBitmaskValue(
             // ensure zero-terminated string
             const BasicString<RebindAlloc<ALLOC, char>> numericStringValue = toString(stringValue, allocator);
             BasicAny<ALLOC> anyValue =
-                    parseBitmaskNumericStringValue(numericStringValue.c_str(), typeInfo, allocator);
+                    parseBitmaskNumericStringValue(numericStringValue, typeInfo, allocator);
             if (anyValue.hasValue())
             {
                 return anyValue;
-- 
2.43.0


From b2ab3b1ad3bc304b8a4d2b4cce938818b58cde02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:10 +0000
Subject: [PATCH 36/50] fix: tree creator rejects a null array element instead
 of crashing

---
 runtime/src/zserio/ZserioTreeCreator.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index d3e5a3f..b8c2f46 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -2,6 +2,7 @@
 #define ZSERIO_ZSERIO_TREE_CREATOR_H_INC
 
 #include <cerrno>
+#include <cstddef>
 #include <cstdlib>
 #include <limits>
 #include <string_view>
@@ -405,6 +406,14 @@ BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, BoolWrapper
     return makeAnyValue(typeInfo, static_cast<bool>(value), allocator);
 }
 
+// overload for null value which cannot be converted to any value
+template <typename ALLOC>
+BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>& typeInfo, std::nullptr_t, const ALLOC&)
+{
+    throw CppRuntimeException("ZserioTreeCreator: Null value cannot be converted to '")
+            << typeInfo.getSchemaName() << "'!";
+}
+
 // overload for values which are already in BasicAny
 template <typename ALLOC>
 BasicAny<ALLOC> makeAnyValue(const IBasicTypeInfo<ALLOC>&, BasicAny<ALLOC>&& anyValue, const ALLOC&)
-- 
2.43.0


From 2853526aadd87bda6319455c410bcbc4c9141d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:27 +0000
Subject: [PATCH 37/50] fix: copied or moved introspectable service data
 referred to the object of its source

---
 runtime/src/zserio/IService.h | 39 +++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/runtime/src/zserio/IService.h b/runtime/src/zserio/IService.h
index ca7130a..c8edaba 100644
--- a/runtime/src/zserio/IService.h
+++ b/runtime/src/zserio/IService.h
@@ -78,6 +78,45 @@ public:
             m_data(allocator)
     {}
 
+    /**
+     * Copying and moving, the introspectable view must always refer to the object in the same instance.
+     * \{
+     */
+    BasicIntrospectableServiceData(const BasicIntrospectableServiceData& other) :
+            BasicIntrospectableServiceData(other.m_object, other.m_data.get_allocator())
+    {}
+
+    BasicIntrospectableServiceData(BasicIntrospectableServiceData&& other) :
+            BasicIntrospectableServiceData(std::move(other.m_object), other.m_data.get_allocator())
+    {}
+
+    BasicIntrospectableServiceData& operator=(const BasicIntrospectableServiceData& other)
+    {
+        if (this != &other)
+        {
+            m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator());
+            m_object = other.m_object;
+            m_introspectable = introspectable(View(m_object), m_data.get_allocator());
+        }
+        return *this;
+    }
+
+    BasicIntrospectableServiceData& operator=(BasicIntrospectableServiceData&& other)
+    {
+        if (this != &other)
+        {
+            m_data = BasicBitBuffer<ALLOC>(m_data.get_allocator());
+            m_object = std::move(other.m_object);
+            m_introspectable = introspectable(View(m_object), m_data.get_allocator());
+        }
+        return *this;
+    }
+    /**
+     * \}
+     */
+
+    ~BasicIntrospectableServiceData() override = default;
+
     IBasicIntrospectableViewConstPtr<ALLOC> getIntrospectable() const override
     {
         return m_introspectable;
-- 
2.43.0


From de01639186764cac6d6653d2c89e1ff2b7a2f4eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:57 +0000
Subject: [PATCH 38/50] fix: columns of dynamic bit fields are integer columns

A column of a dynamic bit field could not be bound because of the order of
the arguments, its view was bound as a blob, and its column traits were
ambiguous.
---
 runtime/src/zserio/SqliteUtil.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index 542f94f..cabfd6f 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -25,7 +25,7 @@ template <typename T, typename = void>
 struct ColumnTraits;
 
 template <typename T>
-struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>>>>
+struct ColumnTraits<T, std::enable_if_t<is_complete_v<View<T>> && !is_numeric_wrapper_v<T>>>
 {
     static constexpr std::string_view TYPE_NAME = "BLOB";
     static constexpr int TYPE = SQLITE_BLOB;
@@ -135,7 +135,7 @@ void readColumn(
 template <typename T>
 BitSize prepareColumn(const View<T>& view)
 {
-    validate(view);
+    validate(view, "");
     return initializeOffsets(view, 0);
 }
 
@@ -181,11 +181,18 @@ int bindColumn(sqlite3_stmt& stmt, int index, FixedIntWrapper<BIT_SIZE, IS_SIGNE
 }
 
 template <typename ALLOC, typename T>
-int bindColumn(sqlite3_stmt& stmt, DynIntWrapper<T> value, BitSize, int index, const ALLOC&)
+int bindColumn(sqlite3_stmt& stmt, int index, DynIntWrapper<T> value, BitSize, const ALLOC&)
 {
     return sqlite3_bind_int64(&stmt, index, static_cast<int64_t>(value));
 }
 
+template <typename ALLOC, typename T>
+int bindColumn(
+        sqlite3_stmt& stmt, int index, const View<DynIntWrapper<T>>& view, BitSize bitSize, const ALLOC& allocator)
+{
+    return bindColumn(stmt, index, view.value(), bitSize, allocator);
+}
+
 template <typename ALLOC, typename VALUE_TYPE, VarIntType VAR_TYPE>
 int bindColumn(sqlite3_stmt& stmt, int index, VarIntWrapper<VALUE_TYPE, VAR_TYPE> value, BitSize, const ALLOC&)
 {
-- 
2.43.0


From a7cf35114c89c8346b169238d3f3ba5aac09bbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:53 +0000
Subject: [PATCH 39/50] fix: text columns are read up to their length

A text with an embedded zero was cut at it.
---
 runtime/src/zserio/SqliteUtil.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index cabfd6f..f38ec8e 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -129,7 +129,8 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
-    column.emplace(reinterpret_cast<const char*>(textValue));
+    const int textLength = sqlite3_column_bytes(&stmt, index);
+    column.emplace(reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength));
 }
 
 template <typename T>
-- 
2.43.0


From 560bb67adce66abf6b262d3389f0e379f07f8a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:56:37 +0000
Subject: [PATCH 40/50] fix: an empty value of a column is not bound as NULL

A compound without any bits and a default string view have no data pointer.
---
 runtime/src/zserio/SqliteUtil.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index f38ec8e..c45e01b 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -152,6 +152,10 @@ int bindColumn(sqlite3_stmt& stmt, int index, const View<T>& view, BitSize bitSi
     BasicBitBuffer<ALLOC> bitBuffer(bitSize, allocator);
     BitStreamWriter writer(bitBuffer);
     write(writer, view);
+    if (bitSize == 0)
+    {
+        return sqlite3_bind_zeroblob(&stmt, index, 0); // no data pointer would be bound as NULL
+    }
     return sqlite3_bind_blob(
             &stmt, index, bitBuffer.getBuffer(), static_cast<int>(bitBuffer.getByteSize()), SQLITE_TRANSIENT);
 }
@@ -209,7 +213,8 @@ int bindColumn(sqlite3_stmt& stmt, int index, FloatWrapper<VALUE_TYPE, FLOAT_TYP
 template <typename ALLOC>
 int bindColumn(sqlite3_stmt& stmt, int index, std::string_view value, BitSize, const ALLOC&)
 {
-    return sqlite3_bind_text(&stmt, index, value.data(), static_cast<int>(value.size()), SQLITE_TRANSIENT);
+    const char* text = value.data() != nullptr ? value.data() : ""; // no data pointer would be bound as NULL
+    return sqlite3_bind_text(&stmt, index, text, static_cast<int>(value.size()), SQLITE_TRANSIENT);
 }
 
 } // namespace detail
-- 
2.43.0


From d41a62d2d5a451a86f397e56ff9cb49d4b2a6512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:13 +0000
Subject: [PATCH 41/50] fix: report when SQLite has no memory for a column's
 name or type

It is null then, and a string made from it throws std::logic_error.
---
 runtime/src/zserio/ValidationSqliteUtil.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/zserio/ValidationSqliteUtil.h b/runtime/src/zserio/ValidationSqliteUtil.h
index 510e195..448b181 100644
--- a/runtime/src/zserio/ValidationSqliteUtil.h
+++ b/runtime/src/zserio/ValidationSqliteUtil.h
@@ -98,6 +98,11 @@ struct ValidationSqliteUtil
         {
             const char* columnName = reinterpret_cast<const char*>(sqlite3_column_text(statement.get(), 1));
             const char* columnType = reinterpret_cast<const char*>(sqlite3_column_text(statement.get(), 2));
+            if (columnName == nullptr || columnType == nullptr)
+            {
+                throw SqliteException("ValidationSqliteUtils.getTableSchema: sqlite3_column_text() failed: ")
+                        << SqliteErrorCode(SQLITE_NOMEM);
+            }
             tableSchema.emplace(StringType(columnName, allocator),
                     ColumnDescription{
                             StringType(columnName, allocator), StringType(columnType, allocator),
-- 
2.43.0


From 59b0f4b512ee962d37a642b23ec7b6e017e04588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:44 +0000
Subject: [PATCH 42/50] fix: report when SQLite has no memory for a text column

The text is null then, and a string made from it throws std::logic_error.
---
 runtime/src/zserio/SqliteUtil.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/runtime/src/zserio/SqliteUtil.h b/runtime/src/zserio/SqliteUtil.h
index c45e01b..9b49c02 100644
--- a/runtime/src/zserio/SqliteUtil.h
+++ b/runtime/src/zserio/SqliteUtil.h
@@ -6,6 +6,7 @@
 #include "zserio/Optional.h"
 #include "zserio/SerializeUtil.h"
 #include "zserio/Span.h"
+#include "zserio/SqliteException.h"
 #include "zserio/Traits.h"
 
 #include "sqlite3.h"
@@ -129,6 +130,10 @@ void readColumn(
         BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>& column, sqlite3_stmt& stmt, int index)
 {
     const unsigned char* textValue = sqlite3_column_text(&stmt, index);
+    if (textValue == nullptr)
+    {
+        throw SqliteException("readColumn: sqlite3_column_text() failed: ") << SqliteErrorCode(SQLITE_NOMEM);
+    }
     const int textLength = sqlite3_column_bytes(&stmt, index);
     column.emplace(reinterpret_cast<const char*>(textValue), static_cast<size_t>(textLength));
 }
-- 
2.43.0


From 979ebd36c0f40a90095219bd381aa9cf8d341597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 43/50] fix: take memory of the JSON writer from the supplied
 allocator

---
 runtime/src/zserio/DebugStringUtil.h |  2 +-
 runtime/src/zserio/JsonWriter.h      | 15 ++++++++-------
 2 files changed, 9 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 30abebe..746f92c 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -39,7 +39,7 @@ void toJsonStream(
     //         "DebugStringUtil.toJsonStream: "
     //         "Zserio object must have reflections enabled (see zserio option -withReflectionCode)!");
 
-    BasicJsonWriter<ALLOC> jsonWriter(stream, indent);
+    BasicJsonWriter<ALLOC> jsonWriter(stream, indent, allocator);
     BasicWalker<ALLOC> walker(jsonWriter, walkFilter);
     walker.walk(reflectable(object, allocator));
 }
diff --git a/runtime/src/zserio/JsonWriter.h b/runtime/src/zserio/JsonWriter.h
index b32d488..3385cd3 100644
--- a/runtime/src/zserio/JsonWriter.h
+++ b/runtime/src/zserio/JsonWriter.h
@@ -156,8 +156,8 @@ public:
             size_t elementIndex) override;
 
 private:
-    BasicJsonWriter(std::ostream& out, Optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent,
-            const ALLOC& allocator = ALLOC());
+    BasicJsonWriter(std::ostream& out,
+            BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent, const ALLOC& allocator = ALLOC());
 
     void beginItem();
     void endItem();
@@ -175,7 +175,7 @@ private:
     void writeStringifiedBitmask(const IBasicReflectableDataConstPtr<ALLOC>& reflectable);
 
     std::ostream& m_out;
-    Optional<BasicString<RebindAlloc<ALLOC, char>>> m_indent;
+    BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>> m_indent;
     BasicString<RebindAlloc<ALLOC, char>> m_itemSeparator;
     BasicString<RebindAlloc<ALLOC, char>> m_keySeparator;
     EnumerableFormat m_enumerableFormat = DEFAULT_ENUMERABLE_FORMAT;
@@ -191,7 +191,7 @@ using JsonWriter = BasicJsonWriter<>;
 
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, const ALLOC& allocator) :
-        BasicJsonWriter(out, std::nullopt, allocator)
+        BasicJsonWriter(out, BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>(allocator), allocator)
 {}
 
 template <typename ALLOC>
@@ -202,15 +202,16 @@ BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out, uint8_t indent, const
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(
         std::ostream& out, const BasicString<RebindAlloc<ALLOC, char>>& indent, const ALLOC& allocator) :
-        BasicJsonWriter(out, Optional<BasicString<RebindAlloc<ALLOC, char>>>(indent), allocator)
+        BasicJsonWriter(
+                out, BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>(indent, allocator), allocator)
 {}
 
 template <typename ALLOC>
 BasicJsonWriter<ALLOC>::BasicJsonWriter(std::ostream& out,
-        Optional<BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent, const ALLOC& allocator) :
+        BasicOptional<ALLOC, BasicString<RebindAlloc<ALLOC, char>>>&& optionalIndent, const ALLOC& allocator) :
         AllocatorHolder<ALLOC>(allocator),
         m_out(out),
-        m_indent(optionalIndent),
+        m_indent(std::move(optionalIndent)),
         m_itemSeparator(
                 m_indent.has_value() ? DEFAULT_ITEM_SEPARATOR_WITH_INDENT : DEFAULT_ITEM_SEPARATOR, allocator),
         m_keySeparator(DEFAULT_KEY_SEPARATOR, allocator)
-- 
2.43.0


From c4a9f24c564ef02ebd7aacd45b17ba9a86e2db16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:35 +0000
Subject: [PATCH 44/50] fix: report when a JSON string could not be written for
 lack of memory

---
 runtime/src/zserio/DebugStringUtil.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/runtime/src/zserio/DebugStringUtil.h b/runtime/src/zserio/DebugStringUtil.h
index 746f92c..5615a14 100644
--- a/runtime/src/zserio/DebugStringUtil.h
+++ b/runtime/src/zserio/DebugStringUtil.h
@@ -51,6 +51,10 @@ BasicString<RebindAlloc<ALLOC, char>> toJsonString(
     auto stream = std::basic_ostringstream<char, std::char_traits<char>, RebindAlloc<ALLOC, char>>(
             BasicString<RebindAlloc<ALLOC, char>>(allocator));
     detail::toJsonStream(object, stream, indent, walkFilter, allocator);
+    if (!stream) // streams do not let the exceptions of allocators out
+    {
+        throw CppRuntimeException("DebugStringUtil.toJsonString: Failed to write JSON string!");
+    }
     return stream.str();
 }
 
-- 
2.43.0


From c34a74ba1ca1d32dbe7b1240767b388a116b57f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 45/50] fix: take memory of the JSON reader from the supplied
 allocator

---
 runtime/src/zserio/JsonReader.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index b5114d8..0a9ca5c 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -4,6 +4,7 @@
 #include <istream>
 #include <limits>
 #include <memory>
+#include <optional>
 #include <string_view>
 
 #include "zserio/AllocatorHolder.h"
@@ -38,7 +39,8 @@ public:
     {}
     explicit BitBufferAdapter(const ALLOC& allocator) :
             AllocatorHolder<ALLOC>(allocator),
-            m_state(VISIT_KEY)
+            m_state(VISIT_KEY),
+            m_buffer(allocator)
     {}
     ~BitBufferAdapter() override = default;
 
@@ -84,7 +86,7 @@ private:
     };
 
     State m_state;
-    Optional<Vector<uint8_t, ALLOC>> m_buffer;
+    BasicOptional<ALLOC, Vector<uint8_t, ALLOC>> m_buffer;
     Optional<size_t> m_bitSize;
 };
 
@@ -99,7 +101,8 @@ public:
     {}
     explicit BytesAdapter(const ALLOC& allocator) :
             AllocatorHolder<ALLOC>(allocator),
-            m_state(VISIT_KEY)
+            m_state(VISIT_KEY),
+            m_buffer(allocator)
     {}
     ~BytesAdapter() override = default;
 
@@ -142,7 +145,7 @@ private:
     };
 
     State m_state;
-    Optional<Vector<uint8_t, ALLOC>> m_buffer;
+    BasicOptional<ALLOC, Vector<uint8_t, ALLOC>> m_buffer;
 };
 
 template <typename ALLOC>
@@ -152,7 +155,8 @@ public:
     using AllocatorHolder<ALLOC>::get_allocator;
 
     explicit CreatorAdapter(const ALLOC& allocator) :
-            AllocatorHolder<ALLOC>(allocator)
+            AllocatorHolder<ALLOC>(allocator),
+            m_keyStack(allocator)
     {}
 
     void setType(const IBasicTypeInfo<ALLOC>& typeInfo);
@@ -177,7 +181,7 @@ private:
     template <typename T>
     void convertValue(T&& value) const;
 
-    Optional<BasicZserioTreeCreator<ALLOC>> m_creator;
+    std::optional<BasicZserioTreeCreator<ALLOC>> m_creator;
     using StringType = BasicString<RebindAlloc<ALLOC, char>>;
     Vector<StringType, RebindAlloc<ALLOC, StringType>> m_keyStack;
     IBasicReflectableDataPtr<ALLOC> m_object;
@@ -254,7 +258,8 @@ BasicAny<ALLOC> BitBufferAdapter<ALLOC>::get() const
         throw CppRuntimeException("JsonReader: Unexpected end in BitBuffer!");
     }
 
-    return BasicAny<ALLOC>(BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value()), get_allocator());
+    return BasicAny<ALLOC>(
+            BasicBitBuffer<ALLOC>(m_buffer.value(), m_bitSize.value(), get_allocator()), get_allocator());
 }
 
 template <typename ALLOC>
@@ -496,7 +501,7 @@ void BytesAdapter<ALLOC>::visitValue(std::string_view)
 template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
-    m_creator = BasicZserioTreeCreator<ALLOC>(typeInfo, get_allocator());
+    m_creator.emplace(typeInfo, get_allocator());
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 501b5b15c49b799b8e62282e99403a29d9960292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 46/50] fix: create instances by type information with the
 supplied allocator

---
 runtime/src/zserio/ReflectableData.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/runtime/src/zserio/ReflectableData.h b/runtime/src/zserio/ReflectableData.h
index 9d915cc..e2a9058 100644
--- a/runtime/src/zserio/ReflectableData.h
+++ b/runtime/src/zserio/ReflectableData.h
@@ -965,6 +965,9 @@ template <typename T, typename ALLOC = typename T::allocator_type>
 class ReflectableDataOwner : public IBasicReflectableData<ALLOC>
 {
 public:
+    // allows allocators which construct with themselves (e.g. polymorphic ones) to be passed to the held object
+    using allocator_type = ALLOC;
+
     ReflectableDataOwner() :
             ReflectableDataOwner(ALLOC())
     {}
-- 
2.43.0


From 76a0f018e5f5c61ca5ec99bdb261bd5e4d841c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:36 +0000
Subject: [PATCH 47/50] fix: keep the tree creator usable when an allocation
 fails

---
 runtime/src/zserio/ZserioTreeCreator.h | 39 ++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index b8c2f46..d8eb61e 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -573,6 +573,7 @@ private:
     using BasicFieldInfoRef = std::reference_wrapper<const BasicFieldInfo<ALLOC>>;
 
     const IBasicTypeInfo<ALLOC>& getTypeInfo() const;
+    void push(const BasicFieldInfo<ALLOC>& fieldInfo, IBasicReflectableDataPtr<ALLOC> value);
     const BasicFieldInfo<ALLOC>& findFieldInfo(
             const IBasicTypeInfo<ALLOC>& typeInfo, std::string_view name) const;
 
@@ -639,15 +640,13 @@ void BasicZserioTreeCreator<ALLOC>::beginArray(const BasicString<RebindAlloc<ALL
                 << fieldInfo.schemaName << "' is not an array!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
-
     // note that we cannot just call getField() in case that the array is not optional like we do it in
     // setValue() and beginCompound() methods because in case of arrays we would join multiple arrays together
     // when this method is called multiple times with the same name - thus we will just create a new array
     //
     // moreover we need to properly initialize arrays of dynamic bit fields
     // see https://github.com/ndsev/zserio/issues/414
-    m_valueStack.push_back(m_valueStack.back()->createField(name));
+    push(fieldInfo, m_valueStack.back()->createField(name));
 
     m_state = detail::CreatorState::IN_ARRAY;
 }
@@ -686,15 +685,14 @@ void BasicZserioTreeCreator<ALLOC>::beginCompound(const BasicString<RebindAlloc<
                 << fieldInfo.schemaName << "' is not a compound!";
     }
 
-    m_fieldInfoStack.push_back(fieldInfo);
     if (TypeInfoUtil::hasChoice(parentTypeInfo.getCppType()) || fieldInfo.isOptional)
     {
         // optional field, or field within choice or union -> create the new compound
-        m_valueStack.push_back(m_valueStack.back()->createField(name));
+        push(fieldInfo, m_valueStack.back()->createField(name));
     }
     else
     {
-        m_valueStack.push_back(m_valueStack.back()->getField(name));
+        push(fieldInfo, m_valueStack.back()->getField(name));
     }
 
     m_state = detail::CreatorState::IN_COMPOUND;
@@ -791,8 +789,17 @@ void BasicZserioTreeCreator<ALLOC>::beginCompoundElement()
     }
 
     auto compoundArray = m_valueStack.back();
-    compoundArray->resize(compoundArray->size() + 1);
-    m_valueStack.push_back(compoundArray->at(compoundArray->size() - 1));
+    const size_t index = compoundArray->size();
+    compoundArray->resize(index + 1);
+    try
+    {
+        m_valueStack.push_back(compoundArray->at(index));
+    }
+    catch (...)
+    {
+        compoundArray->resize(index); // keep the array consistent with the state
+        throw;
+    }
     m_state = detail::CreatorState::IN_COMPOUND;
 }
 
@@ -845,6 +852,22 @@ const IBasicTypeInfo<ALLOC>& BasicZserioTreeCreator<ALLOC>::getTypeInfo() const
     return m_fieldInfoStack.empty() ? m_typeInfo : m_fieldInfoStack.back().get().typeInfo;
 }
 
+template <typename ALLOC>
+void BasicZserioTreeCreator<ALLOC>::push(
+        const BasicFieldInfo<ALLOC>& fieldInfo, IBasicReflectableDataPtr<ALLOC> value)
+{
+    m_valueStack.push_back(std::move(value));
+    try
+    {
+        m_fieldInfoStack.push_back(fieldInfo);
+    }
+    catch (...)
+    {
+        m_valueStack.pop_back(); // keep the stacks consistent
+        throw;
+    }
+}
+
 template <typename ALLOC>
 const BasicFieldInfo<ALLOC>& BasicZserioTreeCreator<ALLOC>::findFieldInfo(
         const IBasicTypeInfo<ALLOC>& typeInfo, std::string_view name) const
-- 
2.43.0


From 9782fd520a783b7f0f4b7ad782f28a7a2ecba37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:17 +0000
Subject: [PATCH 48/50] fix: JsonReader returned the previous object again when
 the input contained no other one

---
 runtime/src/zserio/JsonReader.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/runtime/src/zserio/JsonReader.h b/runtime/src/zserio/JsonReader.h
index 0a9ca5c..7650c08 100644
--- a/runtime/src/zserio/JsonReader.h
+++ b/runtime/src/zserio/JsonReader.h
@@ -502,6 +502,7 @@ template <typename ALLOC>
 void CreatorAdapter<ALLOC>::setType(const IBasicTypeInfo<ALLOC>& typeInfo)
 {
     m_creator.emplace(typeInfo, get_allocator());
+    m_object.reset(); // the previously read object must not be returned when there is no other in the input
 }
 
 template <typename ALLOC>
-- 
2.43.0


From 1bb30aacd9602844ffdaaf1c0de335e7a9ecbfcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:19:48 +0000
Subject: [PATCH 49/50] fix: an array of a huge given length was reserved
 because its size in bytes overflowed

---
 runtime/src/zserio/ArrayView.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/ArrayView.h b/runtime/src/zserio/ArrayView.h
index 40ba06e..4f3f792 100644
--- a/runtime/src/zserio/ArrayView.h
+++ b/runtime/src/zserio/ArrayView.h
@@ -611,7 +611,7 @@ void read(BitStreamReader& reader, Vector<T, ALLOC>& rawArray, detail::array_own
     }
 
     size_t reserve = readLength;
-    if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+    if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
     {
         reserve = reader.getMaxArrayPreallocation() / sizeof(T);
     }
@@ -824,7 +824,7 @@ void readPacked(BitStreamReader& reader, Vector<T, ALLOC>& rawArray,
         rawArray.clear();
 
         size_t reserve = readLength;
-        if (reserve * static_cast<uint64_t>(sizeof(T)) > reader.getMaxArrayPreallocation())
+        if (reserve > reader.getMaxArrayPreallocation() / sizeof(T))
         {
             reserve = reader.getMaxArrayPreallocation() / sizeof(T);
         }
-- 
2.43.0


From cd7ed4767c0271dfd8298a496f0be191b8a1952e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:04 +0000
Subject: [PATCH 50/50] fix: a floating point wrapper could not be set by
 ZserioTreeCreator

The value was checked against the ranges of integral types regardless of the
type it wraps, so that setValue() and addValueElement() with a Float16,
Float32 or Float64 did not compile.
---
 runtime/src/zserio/ZserioTreeCreator.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/runtime/src/zserio/ZserioTreeCreator.h b/runtime/src/zserio/ZserioTreeCreator.h
index d8eb61e..3d15853 100644
--- a/runtime/src/zserio/ZserioTreeCreator.h
+++ b/runtime/src/zserio/ZserioTreeCreator.h
@@ -56,6 +56,17 @@ bool checkArithmeticValueRanges(U value)
     return checkArithmeticValueRanges<T>(static_cast<typename U::ValueType>(value));
 }
 
+template <typename T, bool = is_numeric_wrapper_v<T>>
+struct is_integral_value : std::is_integral<T>
+{};
+
+template <typename T>
+struct is_integral_value<T, true> : std::is_integral<typename T::ValueType>
+{};
+
+template <typename T>
+inline constexpr bool is_integral_value_v = is_integral_value<T>::value;
+
 template <typename T, typename ALLOC>
 BasicAny<ALLOC> makeAnyBoolValue(bool value, const ALLOC& allocator)
 {
@@ -78,8 +89,7 @@ BasicAny<ALLOC> makeAnyIntegralValue(bool value, const ALLOC&)
 template <typename T, typename U, typename ALLOC>
 BasicAny<ALLOC> makeAnyIntegralValue(U value, const ALLOC& allocator)
 {
-    using Type = std::decay_t<U>;
-    if constexpr (std::is_integral_v<Type> || is_numeric_wrapper_v<Type>)
+    if constexpr (is_integral_value_v<std::decay_t<U>>)
     {
         // check ranges of integers
         if (!checkArithmeticValueRanges<T>(value))
-- 
2.43.0

