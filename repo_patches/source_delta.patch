From 73e569cfa5df54a12e86b111abf54de10d70123a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Thu, 19 Nov 2026 22:03:14 +0000
Subject: [PATCH 01/43] fix: little-endian bit fields that do not fill an
 integer type read back what was stored

A 24, 40, 48 or 56 bit little-endian Set kept the swapped value in the wrong end of the
integer and stored the wrong bytes; a little-endian Get of less than 8 bits shifted the value left.
---
 stingraykit/BitsGetter.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/BitsGetter.h b/stingraykit/BitsGetter.h
index 4912240..27d3bb8 100644
--- a/stingraykit/BitsGetter.h
+++ b/stingraykit/BitsGetter.h
@@ -168,7 +168,7 @@ namespace stingray
 					}
 				}
 				if (!BigEndian)
-					result = SwappableType<MinimalT>::Swap(result << (sizeof(MinimalT) * 8 - SizeBits)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
+					result = SwappableType<MinimalT>::Swap(result << (SizeBits % 8? 0: sizeof(MinimalT) * 8 - SizeBits)); //24 bit values are shifted left, so 11 22 33 becomes 00 33 22 11, not 33 22 11 00
 				return static_cast<typename BitsGetterResultType<T>::ValueT>(result);
 			}
 		};
@@ -281,7 +281,7 @@ namespace stingray
 
 				ShiftableT shiftable_val = static_cast<ShiftableT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val);
+					shiftable_val = SwappableType<MinimalT>::Swap(shiftable_val) >> (SizeBits % 8? 0: sizeof(MinimalT) * 8 - SizeBits); //24 bit values are stored as 33 22 11, not 22 11 00
 
 				size_t cur_byte = OffsetBits / 8;
 				int msb = 8 - (OffsetBits % 8);
@@ -338,7 +338,7 @@ namespace stingray
 
 				ShiftableT shiftable = static_cast<ShiftableT>(static_cast<ResType>(val));
 				if (!BigEndian)
-					shiftable = SwappableType<MinimalT>::Swap(shiftable);
+					shiftable = SwappableType<MinimalT>::Swap(shiftable) >> (sizeof(MinimalT) * 8 - SizeBits); //24 bit values are stored as 33 22 11, not 22 11 00
 
 				const size_t offset = OffsetBits / 8;
 				const size_t count = SizeBits / 8;
-- 
2.43.0


From 15cda709179040d69fdfd7f43aeae2b70f6937d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:58 +0000
Subject: [PATCH 02/43] fix: BitStream::CanRead refuses counts whose sum with
 the position wraps

---
 stingraykit/io/BitStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/BitStream.h b/stingraykit/io/BitStream.h
index 9994705..56250f5 100644
--- a/stingraykit/io/BitStream.h
+++ b/stingraykit/io/BitStream.h
@@ -144,7 +144,7 @@ namespace stingray
 		BasicBitStream(const BasicBitStream &bitStream, size_t bytesOffset, size_t size) : _buf(bitStream._buf, bytesOffset, size), _offset(0) { }
 
 		inline bool AtEnd() const						{ return (_offset >> 3) >= _buf.size(); }
-		inline bool CanRead(size_t more_bits)			{ return (_offset + more_bits) <= (_buf.size() << 3); }
+		inline bool CanRead(size_t more_bits)			{ return _offset <= (_buf.size() << 3) && more_bits <= GetRemainingBitsCount(); }
 		inline size_t GetRemainingBitsCount() const		{ return (_buf.size() << 3) - _offset; }
 
 		template<int Size>
-- 
2.43.0


From 695490536a21229ae9fbad3f81fe63237745b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:03 +0000
Subject: [PATCH 03/43] fix: byte views refuse offset and size combinations
 that reach outside their source

offset + size wrapped around for sizes near SIZE_MAX; limited arrays accepted offsets beyond
their limit and compared limits without the offset of the source.
---
 stingraykit/collection/ByteData.h | 33 +++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/stingraykit/collection/ByteData.h b/stingraykit/collection/ByteData.h
index d9e9dce..a7e49cc 100644
--- a/stingraykit/collection/ByteData.h
+++ b/stingraykit/collection/ByteData.h
@@ -183,29 +183,29 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{ CheckView(other._offset, other._sizeLimit, offset); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(other._sizeLimit == NoSizeLimit ? NoSizeLimit : other._sizeLimit - offset)
-		{ STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size())); }
+		{ CheckView(other._offset, other._sizeLimit, offset); }
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(const BasicByteArray<U>& other, size_t offset, size_t sizeLimit)
 			: _data(other._data), _offset(other._offset + offset), _sizeLimit(sizeLimit)
 		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			CheckView(other._offset, other._sizeLimit, offset);
+			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit <= _data->size() - _offset, IndexOutOfRangeException(_sizeLimit, _offset, _data->size()));
+			STINGRAYKIT_CHECK(other._sizeLimit == NoSizeLimit || _sizeLimit <= other._sizeLimit - offset, IndexOutOfRangeException(_sizeLimit, offset, other._sizeLimit));
 		}
 
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteArray(BasicByteArray<U>&& other, size_t offset, size_t sizeLimit)
 			: _data(std::move(other._data)), _offset(other._offset + offset), _sizeLimit(sizeLimit)
 		{
-			STINGRAYKIT_CHECK(_data->size() >= _offset, IndexOutOfRangeException(_offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit + offset <= _data->size(), IndexOutOfRangeException(_sizeLimit + offset, offset, _data->size()));
-			STINGRAYKIT_CHECK(_sizeLimit + offset <= other._sizeLimit, IndexOutOfRangeException(_sizeLimit + offset, offset, other._sizeLimit));
+			CheckView(other._offset, other._sizeLimit, offset);
+			STINGRAYKIT_CHECK(_sizeLimit == NoSizeLimit || _sizeLimit <= _data->size() - _offset, IndexOutOfRangeException(_sizeLimit, _offset, _data->size()));
+			STINGRAYKIT_CHECK(other._sizeLimit == NoSizeLimit || _sizeLimit <= other._sizeLimit - offset, IndexOutOfRangeException(_sizeLimit, offset, other._sizeLimit));
 		}
 
 		void RequireSize(size_t size)
@@ -327,6 +327,13 @@ namespace stingray
 		{ return std::lexicographical_compare(data(), data() + size(), other.data(), other.data() + other.size()); }
 
 		STINGRAYKIT_GENERATE_RELATIONAL_OPERATORS_FROM_LESS(BasicByteArray);
+
+	private:
+		void CheckView(size_t otherOffset, size_t otherSizeLimit, size_t offset) const
+		{
+			STINGRAYKIT_CHECK(_data->size() >= otherOffset && offset <= _data->size() - otherOffset, IndexOutOfRangeException(offset, otherOffset, _data->size()));
+			STINGRAYKIT_CHECK(offset <= otherSizeLimit, IndexOutOfRangeException(offset, otherSizeLimit));
+		}
 	};
 
 
@@ -392,7 +399,10 @@ namespace stingray
 		template < typename U, typename EnableIf<IsConvertible<U*, T*>::Value, int>::ValueT = 0 >
 		BasicByteData(const BasicByteArray<U>& array, size_t offset, size_t size)
 			: _data(array.data() + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + _size, array.size()); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, array.size());
+			DETAIL_BYTEDATA_INDEX_CHECK(size, array.size() - offset);
+		}
 
 		template < typename U, size_t N >
 		BasicByteData(U(&arr)[N])
@@ -409,7 +419,10 @@ namespace stingray
 
 		BasicByteData(BasicByteData data, size_t offset, size_t size)
 			: _data(data._data + offset), _size(size)
-		{ DETAIL_BYTEDATA_INDEX_CHECK(offset + size, data._size); }
+		{
+			DETAIL_BYTEDATA_INDEX_CHECK(offset, data._size);
+			DETAIL_BYTEDATA_INDEX_CHECK(size, data._size - offset);
+		}
 
 		T& operator [] (size_t index) const
 		{
-- 
2.43.0


From 3c20f1aebdcda7e30d312271ce76aedffe0f47bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:01 +0000
Subject: [PATCH 04/43] fix: ring buffer refuses moving past the span it
 offered

---
 stingraykit/io/BithreadCircularBuffer.cpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/stingraykit/io/BithreadCircularBuffer.cpp b/stingraykit/io/BithreadCircularBuffer.cpp
index 337953c..3cc4b36 100644
--- a/stingraykit/io/BithreadCircularBuffer.cpp
+++ b/stingraykit/io/BithreadCircularBuffer.cpp
@@ -45,15 +45,12 @@ namespace stingray
 
 
 		ByteData Write()
-		{
-			size_t size = _dataIsContiguous ? (GetStorageSize() - _writeOffset) : (_readOffset - _writeOffset);
-			return ByteData(_storage, _writeOffset, size);
-		}
+		{ return ByteData(_storage, _writeOffset, GetWriteSize()); }
 
 
 		void Push(size_t pushSize)
 		{
-			STINGRAYKIT_CHECK(_writeOffset + pushSize <= GetStorageSize(), IndexOutOfRangeException(pushSize, _writeOffset, GetStorageSize()));
+			STINGRAYKIT_CHECK(pushSize <= GetWriteSize(), IndexOutOfRangeException(pushSize, GetWriteSize(), GetStorageSize()));
 			_writeOffset += pushSize;
 
 			if (_writeOffset == GetStorageSize())
@@ -65,15 +62,12 @@ namespace stingray
 
 
 		ConstByteData Read()
-		{
-			size_t size = (_dataIsContiguous) ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset);
-			return ByteData(_storage, _readOffset, size);
-		}
+		{ return ByteData(_storage, _readOffset, GetReadSize()); }
 
 
 		void Pop(size_t popSize)
 		{
-			STINGRAYKIT_CHECK(_readOffset + popSize <= GetStorageSize(), IndexOutOfRangeException(popSize, _readOffset, GetStorageSize()));
+			STINGRAYKIT_CHECK(popSize <= GetReadSize(), IndexOutOfRangeException(popSize, GetReadSize(), GetStorageSize()));
 			_readOffset += popSize;
 
 			if (_readOffset == GetStorageSize())
@@ -90,6 +84,14 @@ namespace stingray
 			_readOffset = 0;
 			_dataIsContiguous = true;
 		}
+
+	private:
+		size_t GetWriteSize() const
+		{ return _dataIsContiguous ? (GetStorageSize() - _writeOffset) : (_readOffset - _writeOffset); }
+
+
+		size_t GetReadSize() const
+		{ return _dataIsContiguous ? (_writeOffset - _readOffset) : (GetStorageSize() - _readOffset); }
 	};
 
 
-- 
2.43.0


From 067114a649a22f7c651c43e83dad019b8b8b494e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:49 +0000
Subject: [PATCH 05/43] fix: clearing a wrapped ring buffer leaves it empty

---
 stingraykit/io/CircularBufferBase.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/io/CircularBufferBase.h b/stingraykit/io/CircularBufferBase.h
index edb2264..685c49c 100644
--- a/stingraykit/io/CircularBufferBase.h
+++ b/stingraykit/io/CircularBufferBase.h
@@ -214,6 +214,7 @@ namespace stingray
 				_writeOffset = _readOffset + _lockedDataSize;
 			else
 				_writeOffset = _readOffset + _lockedDataSize - GetStorageSize();
+			_dataIsContiguous = _readOffset + _lockedDataSize < GetStorageSize();
 
 			if (_loggingEnabled)
 			{
-- 
2.43.0


From 47f7579cd927b967b5c657fd5bcaea84776547d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:07 +0000
Subject: [PATCH 06/43] fix: AlignUp does not wrap around when the sum of value
 and boundary does

---
 stingraykit/math.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/math.h b/stingraykit/math.h
index cc270ce..cbf1172 100644
--- a/stingraykit/math.h
+++ b/stingraykit/math.h
@@ -22,7 +22,7 @@ namespace stingray
 	template < typename T > constexpr T AlignUp(T value, T boundary)
 	{
 		STINGRAYKIT_CHECK(boundary != 0, ArgumentException("boundary"));
-		return boundary * ((value + boundary - 1) / boundary);
+		return boundary * (value / boundary + (value % boundary > 0 ? 1 : 0));
 	}
 
 
-- 
2.43.0


From 10912b06af275a3073a8df680d2fc6d6955277fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 07/43] fix: BigUnsignedInteger made from zero has no blocks,
 like every other zero

---
 stingraykit/BigNum.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index bba2b60..ee09cce 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -57,7 +57,8 @@ namespace stingray
 		BigUnsignedInteger(T source, typename EnableIf<sizeof(BlockType) >= sizeof(T), Dummy*>::ValueT dummy = 0)
 		{
 			STINGRAYKIT_CHECK(source >= 0, ArgumentException("source", source));
-			_units.push_back(source);
+			if (source > 0)
+				_units.push_back(source);
 		}
 
 		template <typename T>
-- 
2.43.0


From 5e159a049902774fc140e257d053a72094f8c4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 08/43] fix: BigUnsignedInteger::ToPrimitive refuses values
 above the maximum of a signed type

---
 stingraykit/BigNum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/BigNum.h b/stingraykit/BigNum.h
index ee09cce..655db0a 100644
--- a/stingraykit/BigNum.h
+++ b/stingraykit/BigNum.h
@@ -70,7 +70,7 @@ namespace stingray
 			if (_units.size() == 1)
 			{
 				T result(_units.at(0));
-				if ((BlockType)result == _units.at(0))
+				if (result >= 0 && (BlockType)result == _units.at(0))
 					return result;
 			}
 			STINGRAYKIT_THROW(NotImplementedException());
-- 
2.43.0


From 71d06cbc5f9c117f35c430a33b865b54eae98df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:00 +0000
Subject: [PATCH 09/43] fix: BigUnsignedInteger compares from the most
 significant block down

---
 stingraykit/BigNum.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/stingraykit/BigNum.cpp b/stingraykit/BigNum.cpp
index 239689f..acfac91 100644
--- a/stingraykit/BigNum.cpp
+++ b/stingraykit/BigNum.cpp
@@ -589,9 +589,9 @@ namespace stingray
 		if (_units.size() > other._units.size())
 			return false;
 
-		for (size_t i = 0; i < _units.size(); ++i)
-			if (_units[i] < other._units[i])
-				return true;
+		for (size_t i = _units.size(); i > 0; --i)
+			if (_units[i - 1] != other._units[i - 1])
+				return _units[i - 1] < other._units[i - 1];
 
 		return false;
 	}
-- 
2.43.0


From cc561310713007b1d0da6bfdfbdc0186e5e19276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 10/43] fix: Modified Julian Date of an instant before 1970 is
 the day that contains it

---
 stingraykit/time/Time.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/stingraykit/time/Time.cpp b/stingraykit/time/Time.cpp
index 39eb941..5a77df8 100644
--- a/stingraykit/time/Time.cpp
+++ b/stingraykit/time/Time.cpp
@@ -461,7 +461,10 @@ namespace stingray
 
 
 	int Time::GetMjd() const
-	{ return DaysSinceMjd + _milliseconds / (1000 * SecondsPerDay); }
+	{
+		const s64 millisecondsPerDay = 1000 * SecondsPerDay;
+		return DaysSinceMjd + _milliseconds / millisecondsPerDay - (_milliseconds % millisecondsPerDay < 0 ? 1 : 0);
+	}
 
 
 	u32 Time::GetBcdTime(TimeKind kind) const
-- 
2.43.0


From 6c9817265e0b5f82733b3b8e70fe9abf7cfd2adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 11/43] fix: the last second before 1970 converts from
 broken-down time

---
 stingraykit/time/posix/TimeEngine.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/stingraykit/time/posix/TimeEngine.cpp b/stingraykit/time/posix/TimeEngine.cpp
index 940e8a5..e584da6 100644
--- a/stingraykit/time/posix/TimeEngine.cpp
+++ b/stingraykit/time/posix/TimeEngine.cpp
@@ -11,6 +11,7 @@
 #include <stingraykit/thread/atomic/AtomicInt.h>
 #include <stingraykit/SystemException.h>
 
+#include <errno.h>
 #include <time.h>
 #include <sys/time.h>
 
@@ -245,10 +246,10 @@ namespace posix
 		bdt.tm_year = bdTime.Year - 1900;
 #ifdef STINGRAYKIT_32_BIT_TIME_T
 		const s64 result = timegm64(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm64(" % bdTime % ")"));
 #else
+		errno = 0;
 		const time_t result = timegm(&bdt);
-		STINGRAYKIT_CHECK(result != -1, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
+		STINGRAYKIT_CHECK(result != -1 || errno == 0, SystemException(StringBuilder() % "timegm(" % bdTime % ")"));
 #endif
 		return (s64)result * 1000 + bdTime.Milliseconds;
 	}
-- 
2.43.0


From 5c9df7571bac832f0ae253d39749e54140292681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:31 +0000
Subject: [PATCH 12/43] fix: NtpTimestamp keeps the fraction of a second

---
 stingraykit/time/NtpTimestamp.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/stingraykit/time/NtpTimestamp.cpp b/stingraykit/time/NtpTimestamp.cpp
index 62bbff4..0739daa 100644
--- a/stingraykit/time/NtpTimestamp.cpp
+++ b/stingraykit/time/NtpTimestamp.cpp
@@ -15,8 +15,8 @@ namespace stingray
 		u32 integerPart = _timestamp >> 32;
 		u64 seconds = integerPart - DifferenceBetweenUnixNtpTime;
 
-		u32 fractionPart = _timestamp - integerPart;
-		u64 milliSeconds = fractionPart / ((u64)1 << 32);
+		u32 fractionPart = _timestamp;
+		u64 milliSeconds = ((u64)fractionPart * 1000) >> 32;
 
 		return Time(seconds * 1000 + milliSeconds);
 	};
@@ -24,8 +24,10 @@ namespace stingray
 
 	NtpTimestamp NtpTimestamp::FromTime(Time time)
 	{
-		u32 integerPart = time.GetSeconds() +  DifferenceBetweenUnixNtpTime;
-		u32 fractionPart = time.GetSeconds() * ((u64)1 << 32);
+		const s64 milliSecondsSinceNtpEpoch = time.GetMilliseconds() + DifferenceBetweenUnixNtpTime * 1000;
+
+		u32 integerPart = milliSecondsSinceNtpEpoch / 1000;
+		u32 fractionPart = (((u64)(milliSecondsSinceNtpEpoch % 1000) << 32) + 999) / 1000; // rounded up, so that ToTime gives the same millisecond
 
 		u64 timestamp = ((u64)integerPart << 32) | fractionPart;
 
-- 
2.43.0


From 79dc5f8db68c3703abb861332a80f9b807f4e32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:08 +0000
Subject: [PATCH 13/43] fix: flat containers copied with an allocator keep the
 order relation of the original

---
 stingraykit/collection/flat_map.h | 4 ++--
 stingraykit/collection/flat_set.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/flat_map.h b/stingraykit/collection/flat_map.h
index c6d44b6..1748db1 100644
--- a/stingraykit/collection/flat_map.h
+++ b/stingraykit/collection/flat_map.h
@@ -99,11 +99,11 @@ namespace stingray
 		{ }
 
 		flat_map(const flat_map& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(flat_map&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_map(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
diff --git a/stingraykit/collection/flat_set.h b/stingraykit/collection/flat_set.h
index fdd596d..b5f11f1 100644
--- a/stingraykit/collection/flat_set.h
+++ b/stingraykit/collection/flat_set.h
@@ -70,11 +70,11 @@ namespace stingray
 		{ }
 
 		flat_set(const flat_set& other, const Allocator& alloc)
-			: _container(other._container, alloc), _cmp(Compare())
+			: _container(other._container, alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(flat_set&& other, const Allocator& alloc)
-			: _container(std::move(other._container), alloc), _cmp(Compare())
+			: _container(std::move(other._container), alloc), _cmp(other._cmp)
 		{ }
 
 		flat_set(std::initializer_list<value_type> list, const Compare& comp = Compare(), const Allocator& alloc = Allocator())
-- 
2.43.0


From e1f5c38c7cc943426735fa5db037cb68ddb8b2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:10 +0000
Subject: [PATCH 14/43] fix: copies of insertion-ordered containers keep the
 comparer; assigning one to itself keeps its content

---
 stingraykit/collection/ordered_map.h | 7 +++++--
 stingraykit/collection/ordered_set.h | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/stingraykit/collection/ordered_map.h b/stingraykit/collection/ordered_map.h
index 6ef90f1..db28112 100644
--- a/stingraykit/collection/ordered_map.h
+++ b/stingraykit/collection/ordered_map.h
@@ -180,11 +180,11 @@ namespace stingray
 		{ }
 
 		ordered_map(const ordered_map& other)
-			: ordered_map(other.begin(), other.end(), other._alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_map(const ordered_map& other, const Allocator& alloc)
-			: ordered_map(other.begin(), other.end(), alloc)
+			: ordered_map(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_map(ordered_map&& other, const Allocator& alloc)
@@ -201,6 +201,9 @@ namespace stingray
 
 		ordered_map& operator = (const ordered_map& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			insert(other.begin(), other.end());
 			return *this;
diff --git a/stingraykit/collection/ordered_set.h b/stingraykit/collection/ordered_set.h
index 3b21970..cf614e2 100644
--- a/stingraykit/collection/ordered_set.h
+++ b/stingraykit/collection/ordered_set.h
@@ -156,11 +156,11 @@ namespace stingray
 		{ }
 
 		ordered_set(const ordered_set& other)
-			: ordered_set(other.begin(), other.end(), other._alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), other._alloc)
 		{ }
 
 		ordered_set(const ordered_set& other, const Allocator& alloc)
-			: ordered_set(other.begin(), other.end(), alloc)
+			: ordered_set(other.begin(), other.end(), other.key_comp(), alloc)
 		{ }
 
 		ordered_set(ordered_set&& other, const Allocator& alloc)
@@ -177,6 +177,9 @@ namespace stingray
 
 		ordered_set& operator = (const ordered_set& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			insert(other.begin(), other.end());
 			return *this;
-- 
2.43.0


From 973c5906e20530cf9a9a619be6e0606483e2fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:01 +0000
Subject: [PATCH 15/43] fix: bimap ignores a pair of which one side is already
 present, instead of storing it in one direction only

---
 stingraykit/collection/bimap.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/collection/bimap.h b/stingraykit/collection/bimap.h
index 3c90550..34392d6 100644
--- a/stingraykit/collection/bimap.h
+++ b/stingraykit/collection/bimap.h
@@ -45,6 +45,8 @@ public: \
 \
 	void T##_insert(const T##_key_type &key, const T##_mapped_type &value) \
 	{ \
+		if (_##T.find(key) != _##T.end() || _##O.find(value) != _##O.end()) \
+			return; \
 		_##T.insert(T##_value_type(key, value)); \
 		_##O.insert(O##_value_type(value, key)); \
 	} \
-- 
2.43.0


From 32e6eb3c19e01257ad113b6df26a977b18b8fb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:54 +0000
Subject: [PATCH 16/43] fix: inplace_vector assigned to itself keeps its
 elements

---
 stingraykit/collection/inplace_vector.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/stingraykit/collection/inplace_vector.h b/stingraykit/collection/inplace_vector.h
index 34d68f2..6906b42 100644
--- a/stingraykit/collection/inplace_vector.h
+++ b/stingraykit/collection/inplace_vector.h
@@ -111,6 +111,9 @@ namespace stingray
 
 		inplace_vector& operator = (const inplace_vector& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Copy(other);
 			return *this;
@@ -118,6 +121,9 @@ namespace stingray
 
 		inplace_vector& operator = (inplace_vector&& other)
 		{
+			if (this == &other)
+				return *this;
+
 			clear();
 			Move(std::move(other));
 			return *this;
-- 
2.43.0


From 3401104e845270c55f5ea642211d13f484e075e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:08 +0000
Subject: [PATCH 17/43] fix: string_view::compare does not truncate the
 difference of sizes

---
 stingraykit/string/string_view.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 3f1d2e1..975a159 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -102,7 +102,7 @@ namespace stingray
 		int compare(basic_string_view v) const
 		{
 			const int result = Traits::compare(data(), v.data(), std::min(size(), v.size()));
-			return result == 0 ? size() - v.size() : result;
+			return result == 0 ? (size() < v.size() ? -1 : size() > v.size()) : result;
 		}
 
 		int compare(size_type pos1, size_type count1, basic_string_view v) const									{ return substr(pos1, count1).compare(v); }
-- 
2.43.0


From 1c9ac35e5414f6b38bfda7dd67b2b63b8dfd2ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:19 +0000
Subject: [PATCH 18/43] fix: the UTF-8 range refuses overlong sequences,
 surrogates and values above 0x10ffff

---
 stingraykit/string/Utf8IteratorRange.h | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/stingraykit/string/Utf8IteratorRange.h b/stingraykit/string/Utf8IteratorRange.h
index 5076645..0284057 100644
--- a/stingraykit/string/Utf8IteratorRange.h
+++ b/stingraykit/string/Utf8IteratorRange.h
@@ -52,6 +52,7 @@ namespace stingray
 
 			const u8 c1 = (u8)*it++;
 			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			STINGRAYKIT_CHECK(IsScalarValuePrefix(c0, c1), MalformedUtf8Exception());
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return ((u32)(c0 & 0x1f) << 6) | (c1 & 0x3f);
@@ -111,6 +112,7 @@ namespace stingray
 
 			const u8 c1 = (u8)*_it++;
 			STINGRAYKIT_CHECK((c1 & 0xc0) == 0x80, MalformedUtf8Exception());
+			STINGRAYKIT_CHECK(IsScalarValuePrefix(c0, c1), MalformedUtf8Exception());
 
 			if (c0 >= 0xc2 && c0 <= 0xdf)
 				return *this;
@@ -158,6 +160,9 @@ namespace stingray
 					default:		STINGRAYKIT_THROW(MalformedUtf8Exception());
 					}
 
+					if (count > 1)
+						STINGRAYKIT_CHECK(IsScalarValuePrefix(c0, (u8)*std::next(_it)), MalformedUtf8Exception());
+
 					return *this;
 				}
 
@@ -167,6 +172,20 @@ namespace stingray
 
 			STINGRAYKIT_THROW(MalformedUtf8Exception());
 		}
+
+	private:
+		// refuses overlong sequences, surrogates and values above 0x10ffff
+		static bool IsScalarValuePrefix(u8 c0, u8 c1)
+		{
+			switch (c0)
+			{
+			case 0xe0:		return c1 >= 0xa0;
+			case 0xed:		return c1 <= 0x9f;
+			case 0xf0:		return c1 >= 0x90;
+			case 0xf4:		return c1 <= 0x8f;
+			default:		return true;
+			}
+		}
 	};
 
 }
-- 
2.43.0


From 4b52d067b7bc5cc219fdfa3e802a15cf31262577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:27:39 +0000
Subject: [PATCH 19/43] fix: a lone sign is not the text of an integer

---
 stingraykit/string/ToString.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/stingraykit/string/ToString.h b/stingraykit/string/ToString.h
index 9f63300..55e125a 100644
--- a/stingraykit/string/ToString.h
+++ b/stingraykit/string/ToString.h
@@ -98,6 +98,8 @@ namespace stingray
 				if (negative || str[0] == '+')
 					++index;
 
+				STINGRAYKIT_CHECK(index < str.size(), FormatException(ToString(str)));
+
 				for (size_t index2 = index; index2 < str.size(); ++index2)
 				{
 					const char ch = str[index2];
-- 
2.43.0


From fcad4e5edee98eaf90e8e60e98dda654481d42bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 20/43] fix: string_view searches from the end stay inside the
 text, searches for other characters accept an empty set

---
 stingraykit/string/string_view.h | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/stingraykit/string/string_view.h b/stingraykit/string/string_view.h
index 975a159..0caa030 100644
--- a/stingraykit/string/string_view.h
+++ b/stingraykit/string/string_view.h
@@ -181,11 +181,10 @@ namespace stingray
 
 		size_type find_last_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (v.empty() || empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 				for (const_iterator it = v.begin(); it != v.end(); ++it)
@@ -201,9 +200,6 @@ namespace stingray
 
 		size_type find_first_not_of(basic_string_view v, size_type pos = 0) const
 		{
-			if (v.empty())
-				return 0;
-
 			for (; pos < size(); ++pos)
 			{
 				bool contains = false;
@@ -228,11 +224,10 @@ namespace stingray
 
 		size_type find_last_not_of(basic_string_view v, size_type pos = npos) const
 		{
-			if (v.empty())
+			if (empty())
 				return npos;
 
-			if (pos == npos)
-				pos = size() - 1;
+			pos = std::min(pos, size() - 1);
 
 			for (size_type i = 0; i <= pos; ++i)
 			{
-- 
2.43.0


From ab45902fd5820f006b116c364bb35e8635453479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 21/43] fix: StringRef searches and cuts inside the referenced
 part only

---
 stingraykit/string/StringUtils.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 99236fe..6f48497 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -139,11 +139,14 @@ namespace stingray
 		size_type find(const std::string& str, size_type pos = 0) const
 		{
 			const size_type p = _owner->find(str, pos + _begin);
-			return p >= _end ? npos : p - _begin;
+			return p >= _end || str.size() > _end - p ? npos : p - _begin;
 		}
 
 		StringRef substr(size_type pos = 0, size_type n = npos) const
-		{ return StringRef(*_owner, _begin + pos, n == npos ? _end : _begin + pos + n ); }
+		{
+			const size_type begin = _begin + pos;
+			return StringRef(*_owner, begin, begin >= _end || n >= _end - begin ? _end : begin + n);
+		}
 
 		char operator [] (size_type index) const
 		{ return (*_owner)[_begin + index]; }
-- 
2.43.0


From 3ecb82a467e9b73f3f0ed31c9a6eba8a33144ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:51:43 +0000
Subject: [PATCH 22/43] fix: a split range restarted by First() finds its first
 delimiter again

---
 stingraykit/string/StringUtils.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/string/StringUtils.h b/stingraykit/string/StringUtils.h
index 6f48497..6b632d0 100644
--- a/stingraykit/string/StringUtils.h
+++ b/stingraykit/string/StringUtils.h
@@ -253,6 +253,7 @@ namespace stingray
 			{
 				_startPos = 0;
 				_results = 0;
+				_next = _search(_string, _startPos);
 				return *this;
 			}
 
-- 
2.43.0


From 03df8066b444ad38bce0a65e2301205fa4f39c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:08:02 +0000
Subject: [PATCH 23/43] fix: unique_ptr::reset forgets the old object before it
 destroys it

---
 stingraykit/unique_ptr.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/stingraykit/unique_ptr.h b/stingraykit/unique_ptr.h
index 5aa4aa4..a9de19b 100644
--- a/stingraykit/unique_ptr.h
+++ b/stingraykit/unique_ptr.h
@@ -92,8 +92,9 @@ namespace stingray
 
 		void reset(T* ptr = 0)
 		{
-			CheckedDelete(_rawPtr);
+			T* old = _rawPtr;
 			_rawPtr = ptr;
+			CheckedDelete(old);
 		}
 
 	private:
@@ -166,8 +167,9 @@ namespace stingray
 
 		void reset(T* ptr = 0)
 		{
-			CheckedArrayDelete(_rawPtr);
+			T* old = _rawPtr;
 			_rawPtr = ptr;
+			CheckedArrayDelete(old);
 		}
 
 	private:
-- 
2.43.0


From 34a2f49f3eacc203d01874d03c7f1a7f3774da85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 24/43] fix: variant assignment builds the new value before it
 destroys the old one

---
 stingraykit/variant.h | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index 581a6b3..e3300ea 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -309,21 +309,24 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			MyType copy(other);
 			base::Destruct();
-			Assign(other);
+			Assign(std::move(copy));
 		}
 
 		void assign(variant&& other)
 		{
+			MyType moved(std::move(other));
 			base::Destruct();
-			Assign(std::move(other));
+			Assign(std::move(moved));
 		}
 
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			MyType created(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			Assign(std::move(created));
 		}
 
 		variant& operator = (const variant& other)
@@ -445,21 +448,24 @@ namespace stingray
 
 		void assign(const variant& other)
 		{
+			MyType copy(other);
 			base::Destruct();
-			Assign(other);
+			Assign(std::move(copy));
 		}
 
 		void assign(variant&& other)
 		{
+			MyType moved(std::move(other));
 			base::Destruct();
-			Assign(std::move(other));
+			Assign(std::move(moved));
 		}
 
 		template < typename T >
 		void assign(T&& val, typename EnableIf<TypeListContains<TypeList, typename Decay<T>::ValueT>::Value, Dummy>::ValueT* = 0)
 		{
+			MyType created(std::forward<T>(val));
 			base::Destruct();
-			AssignVal(std::forward<T>(val));
+			Assign(std::move(created));
 		}
 
 		variant& operator = (const variant& other)
-- 
2.43.0


From ed83331f9acd02aa4382d5bab883fbd10e26825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 25/43] fix: a variant that can be empty becomes empty whatever
 the constructor of a new value throws

---
 stingraykit/variant.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index e3300ea..bd0aa22 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -518,7 +518,7 @@ namespace stingray
 				this->_storage.template Ctor<T>(std::forward<Us>(args)...);
 				this->_type = IndexOfTypeListItem<TypeList, T>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
@@ -531,7 +531,7 @@ namespace stingray
 				this->_storage.template Ctor<typename Decay<T>::ValueT>(std::forward<T>(val));
 				this->_type = IndexOfTypeListItem<TypeList, typename Decay<T>::ValueT>::Value;
 			}
-			catch (const std::exception& ex)
+			catch (...)
 			{ AssignDefault(); throw; }
 		}
 
-- 
2.43.0


From 1791c2ed95a365212d48540fc90f85ea568c937a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:46 +0000
Subject: [PATCH 26/43] fix: any assignment builds the new value before it
 destroys the old one

---
 stingraykit/any.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/stingraykit/any.h b/stingraykit/any.h
index 331d40d..9994b3d 100644
--- a/stingraykit/any.h
+++ b/stingraykit/any.h
@@ -287,23 +287,26 @@ namespace stingray
 
 		any& operator = (const any& other)
 		{
+			any copy(other);
 			Destroy();
-			Copy(other);
+			Move(std::move(copy));
 			return *this;
 		}
 
 		any& operator = (any&& other)
 		{
+			any moved(std::move(other));
 			Destroy();
-			Move(std::move(other));
+			Move(std::move(moved));
 			return *this;
 		}
 
 		template < typename T >
 		typename EnableIf<!IsSame<any, typename Decay<T>::ValueT>::Value, any>::ValueT& operator = (T&& val)
 		{
+			any created(std::forward<T>(val));
 			Destroy();
-			Init<T>(std::forward<T>(val));
+			Move(std::move(created));
 			return *this;
 		}
 
-- 
2.43.0


From c652c2f520d6da1cf9f38926ea4c23e1093b445f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:28 +0000
Subject: [PATCH 27/43] fix: never-empty variant treats every exception of an
 item as fatal

---
 stingraykit/variant.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/stingraykit/variant.h b/stingraykit/variant.h
index bd0aa22..e1d4b5c 100644
--- a/stingraykit/variant.h
+++ b/stingraykit/variant.h
@@ -17,6 +17,7 @@
 		do { \
 			try { __VA_ARGS__; } \
 			catch (const std::exception& ex) { STINGRAYKIT_FATAL(StringBuilder() % ErrorMessage_ % ":\n" % ex); } \
+			catch (...) { STINGRAYKIT_FATAL(StringBuilder() % ErrorMessage_ % ": unknown exception"); } \
 		} while (0)
 
 
-- 
2.43.0


From 3c0b16908111f0abcc14d9a3328ab5d46a495d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:31 +0000
Subject: [PATCH 28/43] fix: promise::swap also swaps whether the future was
 retrieved

---
 stingraykit/future.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/stingraykit/future.h b/stingraykit/future.h
index 608fc6d..4495e74 100644
--- a/stingraykit/future.h
+++ b/stingraykit/future.h
@@ -297,7 +297,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
@@ -329,7 +332,10 @@ namespace stingray
 		{ _futureImpl->set_exception(MakeExceptionPtr(BrokenPromise())); }
 
 		void swap(promise& other)
-		{ _futureImpl.swap(other._futureImpl); }
+		{
+			_futureImpl.swap(other._futureImpl);
+			std::swap(_futureRetrieved, other._futureRetrieved);
+		}
 
 		future<ResultType> get_future()
 		{ STINGRAYKIT_CHECK(!_futureRetrieved, FutureAlreadyRetrieved()); _futureRetrieved = true; return future<ResultType>(_futureImpl); }
-- 
2.43.0


From 8b0e0c6e05675572c97572f0cbff98262cd5912c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 29/43] fix: MemoryByteStream: allow seeking within streams of
 2 GiB and more

---
 stingraykit/io/MemoryByteStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/MemoryByteStream.h b/stingraykit/io/MemoryByteStream.h
index 905d625..4a7045e 100644
--- a/stingraykit/io/MemoryByteStream.h
+++ b/stingraykit/io/MemoryByteStream.h
@@ -92,7 +92,7 @@ namespace stingray
 			}
 			if (new_ofs < 0)
 				STINGRAYKIT_THROW(IndexOutOfRangeException());
-			if (new_ofs > (int)_data.size())
+			if (new_ofs > (s64)_data.size())
 				STINGRAYKIT_THROW(NotImplementedException());
 			_offset = new_ofs;
 		}
-- 
2.43.0


From 64b934925ee9c1ced41831b229af486abb262223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 30/43] fix: ChunkedMemoryByteStream: continue a write in the
 next chunk

---
 stingraykit/io/ChunkedMemoryByteStream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/io/ChunkedMemoryByteStream.h b/stingraykit/io/ChunkedMemoryByteStream.h
index 5956060..442bf97 100644
--- a/stingraykit/io/ChunkedMemoryByteStream.h
+++ b/stingraykit/io/ChunkedMemoryByteStream.h
@@ -58,11 +58,11 @@ namespace stingray
 		virtual u64 Write(ConstByteData data, const ICancellationToken& token = DummyCancellationToken())
 		{
 			STINGRAYKIT_CHECK(data.size() > 0, LogicException("writing empty data"));
-			NormalizePosition();
 
 			size_t passed = 0;
 			for (size_t curcount = 0; passed < data.size(); passed += curcount)
 			{
+				NormalizePosition();
 				if (_chunk == _container->end())
 				{
 					STINGRAYKIT_CHECK(_chunkOffset == 0, LogicException("_chunkOffset must be 0"));
-- 
2.43.0


From 604adfd89d559f924177b9dc53a555ffcdd5a8c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 31/43] fix: BufferedStream: do not copy from beyond the buffer
 when the read of an aligned block is short

---
 stingraykit/io/BufferedStream.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/stingraykit/io/BufferedStream.h b/stingraykit/io/BufferedStream.h
index 9c12500..3ccc970 100644
--- a/stingraykit/io/BufferedStream.h
+++ b/stingraykit/io/BufferedStream.h
@@ -44,12 +44,12 @@ namespace stingray
 			u8* dst = data.data();
 			for (size_t toCopy = 0; total < dstSize && token; _inBufferOffset += toCopy, dst += toCopy, total += toCopy)
 			{
-				if (!_bufferSize || _inBufferOffset == _bufferSize)
+				if (_inBufferOffset >= _bufferSize)
 				{
 					if (_bufferSize)
 						SeekStream(Tell());
-					_bufferSize = _stream->Read(_buffer, token);
-					if (!_bufferSize || _inBufferOffset == _bufferSize)
+					FillBuffer(token);
+					if (_inBufferOffset >= _bufferSize)
 						break;
 				}
 				toCopy = std::min(dstSize - total, _bufferSize - _inBufferOffset);
@@ -92,6 +92,17 @@ namespace stingray
 		{ return _bufferOffset + _inBufferOffset; }
 
 	private:
+		void FillBuffer(const ICancellationToken& token)
+		{
+			while (_bufferSize <= _inBufferOffset && _bufferSize < _buffer.size())
+			{
+				const size_t read = static_cast<size_t>(_stream->Read(ByteData(_buffer, _bufferSize), token));
+				if (!read)
+					break;
+				_bufferSize += read;
+			}
+		}
+
 		bool SeekInBuffer(u64 offset)
 		{
 			if (_bufferOffset <= offset && offset - _bufferOffset < static_cast<u64>(_bufferSize))
-- 
2.43.0


From 0a33aeca2f5e50576f736786a6afc6b778122b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 32/43] fix: DataAligner: keep the buffered bytes a cancelled
 consumer has not taken

---
 stingraykit/io/DataAligner.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/DataAligner.h b/stingraykit/io/DataAligner.h
index 14d21dd..02a931f 100644
--- a/stingraykit/io/DataAligner.h
+++ b/stingraykit/io/DataAligner.h
@@ -58,8 +58,8 @@ namespace stingray
 
 			if (_buffer.size() == _alignment)
 			{
-				ConsumeAll(consumer, _buffer, token);
-				_buffer.clear();
+				const size_t processed = ConsumeAll(consumer, _buffer, token);
+				_buffer = ByteArray(ConstByteData(_buffer, processed));
 			}
 
 			return offset;
-- 
2.43.0


From 19fb75fc31b980c164960d76ef50059d622f9fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 33/43] fix: BufferedDataMediator: keep the buffered bytes a
 cancelled consumer has not taken

---
 stingraykit/io/BufferedDataMediator.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/BufferedDataMediator.h b/stingraykit/io/BufferedDataMediator.h
index 9e76361..1410c5e 100644
--- a/stingraykit/io/BufferedDataMediator.h
+++ b/stingraykit/io/BufferedDataMediator.h
@@ -35,7 +35,13 @@ namespace stingray
 
 		void Read(IDataConsumer& consumer, const ICancellationToken& token) override
 		{
-			ConsumeAll(consumer, _buffer, token);
+			const size_t processed = ConsumeAll(consumer, _buffer, token);
+			if (processed != _buffer.size())
+			{
+				_buffer = ByteArray(ConstByteData(_buffer, processed));
+				return;
+			}
+
 			if (_eod)
 				consumer.EndOfData(token);
 
-- 
2.43.0


From 7f727a7cc4f47fb1336de4a211cd95dd61020771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:01 +0000
Subject: [PATCH 34/43] fix: SkippingConsumer: report only the bytes a
 cancelled consumer has taken

---
 stingraykit/io/DataUtils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/DataUtils.h b/stingraykit/io/DataUtils.h
index 2441ea7..b6bd651 100644
--- a/stingraykit/io/DataUtils.h
+++ b/stingraykit/io/DataUtils.h
@@ -96,9 +96,9 @@ namespace stingray
 			_leftToSkip -= skipped;
 
 			if (data.size() > skipped && _processRest)
-				ConsumeAll(_consumer, ConstByteData(data, skipped), token);
+				return skipped + ConsumeAll(_consumer, ConstByteData(data, skipped), token);
 
-			return _processRest ? data.size() : skipped;
+			return skipped;
 		}
 
 		void EndOfData(const ICancellationToken& token) override
-- 
2.43.0


From d4c7ae7b4b4020bfce4a0b767b03bf0ea6501f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 35/43] fix: PipeDataSource: keep the bytes the consumer has
 not taken

---
 stingraykit/io/PipeDataSource.cpp | 18 ++++++++++--------
 stingraykit/io/PipeDataSource.h   |  2 ++
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/stingraykit/io/PipeDataSource.cpp b/stingraykit/io/PipeDataSource.cpp
index e2a5f00..afc3eb4 100644
--- a/stingraykit/io/PipeDataSource.cpp
+++ b/stingraykit/io/PipeDataSource.cpp
@@ -11,7 +11,7 @@ namespace stingray
 {
 
 	PipeDataSource::PipeDataSource(const IPipePtr& pipe, size_t bufferSize)
-		: _pipe(pipe), _buffer(bufferSize)
+		: _pipe(pipe), _buffer(bufferSize), _bufferOffset(0), _bufferSize(0)
 	{ }
 
 
@@ -19,15 +19,17 @@ namespace stingray
 	{
 		try
 		{
-			const size_t read = _pipe->Read(_buffer, token);
-			if (read == 0)
-				return;
+			if (_bufferOffset == _bufferSize)
+			{
+				const size_t read = _pipe->Read(_buffer, token);
+				if (read == 0)
+					return;
 
-			const size_t processed = consumer.Process(ConstByteData(_buffer, 0, read), token);
-			if (processed == 0)
-				return;
+				_bufferOffset = 0;
+				_bufferSize = read;
+			}
 
-			STINGRAYKIT_CHECK(processed == read, NotImplementedException());
+			_bufferOffset += consumer.Process(ConstByteData(_buffer, _bufferOffset, _bufferSize - _bufferOffset), token);
 		}
 		catch (const PipeClosedException&)
 		{
diff --git a/stingraykit/io/PipeDataSource.h b/stingraykit/io/PipeDataSource.h
index cd9295a..f806f44 100644
--- a/stingraykit/io/PipeDataSource.h
+++ b/stingraykit/io/PipeDataSource.h
@@ -22,6 +22,8 @@ namespace stingray
 		IPipePtr	_pipe;
 
 		ByteArray	_buffer;
+		size_t		_bufferOffset;
+		size_t		_bufferSize;
 
 	public:
 		explicit PipeDataSource(const IPipePtr& pipe, size_t bufferSize = DefaultBufferSize);
-- 
2.43.0


From b060f7dcebdc4c1cc6527b5b0b1e0aca60469ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 36/43] fix: ByteStreamDataSource: return to the bytes a
 cancelled consumer has not taken

---
 stingraykit/io/ByteStreamDataSource.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/stingraykit/io/ByteStreamDataSource.h b/stingraykit/io/ByteStreamDataSource.h
index 2881342..d1c90cb 100644
--- a/stingraykit/io/ByteStreamDataSource.h
+++ b/stingraykit/io/ByteStreamDataSource.h
@@ -33,7 +33,11 @@ namespace stingray
 			const size_t read = _stream->Read(_buffer, token);
 
 			if (read != 0)
-				ConsumeAll(consumer, ConstByteData(_buffer, 0, read), token);
+			{
+				const size_t processed = ConsumeAll(consumer, ConstByteData(_buffer, 0, read), token);
+				if (processed != read)
+					_stream->Seek(-(s64)(read - processed), SeekMode::Current);
+			}
 			else if (token)
 				consumer.EndOfData(token);
 		}
-- 
2.43.0


From b055e4f01595eee62963ad46c8b123091908e6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:19 +0000
Subject: [PATCH 37/43] fix: PagedBuffer: count what was read while whole pages
 were popped

---
 stingraykit/io/PagedBuffer.cpp | 6 ++++--
 stingraykit/io/PagedBuffer.h   | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/stingraykit/io/PagedBuffer.cpp b/stingraykit/io/PagedBuffer.cpp
index 7fb1a68..d0fded3 100644
--- a/stingraykit/io/PagedBuffer.cpp
+++ b/stingraykit/io/PagedBuffer.cpp
@@ -90,7 +90,7 @@ namespace stingray
 
 		Log(LogLevel::Trace) << "Read: current offset: " << _currentOffset << " --> page: " << pageIndex << "/" << _pages.size() << ", offset: " << offset;
 
-		const u64 currentOffset = _currentOffset;
+		const u64 currentOffset = _droppedSize + _currentOffset;
 		size_t processed = 0;
 
 		{
@@ -109,7 +109,7 @@ namespace stingray
 			processed -= remainder;
 		}
 
-		if (_currentOffset == currentOffset)
+		if (_droppedSize + _currentOffset == currentOffset)
 			_currentOffset += processed;
 	}
 
@@ -220,6 +220,7 @@ namespace stingray
 				logStream << ", drop " << toDrop << " of " << _pages.size() << " page(s)";
 		}
 
+		_droppedSize += _startOffset + size - newStartOffset;
 		_pages.erase(_pages.begin(), newBeginIt);
 		_startOffset = newStartOffset;
 		_currentOffset = newCurrentOffset;
@@ -249,6 +250,7 @@ namespace stingray
 			_startOffset(0),
 			_currentOffset(0),
 			_tailSize(0),
+			_droppedSize(0),
 			_activeRead(false),
 			_activeWrite(false)
 	{
diff --git a/stingraykit/io/PagedBuffer.h b/stingraykit/io/PagedBuffer.h
index 9731e56..b142525 100644
--- a/stingraykit/io/PagedBuffer.h
+++ b/stingraykit/io/PagedBuffer.h
@@ -46,6 +46,7 @@ namespace stingray
 		u64							_startOffset;
 		u64							_currentOffset;
 		u64							_tailSize;
+		u64							_droppedSize;
 
 		Mutex						_mutex;
 		bool						_activeRead;
-- 
2.43.0


From 6260a03c106d24945a75da1c6af0963c9a708251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:18:02 +0000
Subject: [PATCH 38/43] fix: ArithmeticCoder: send the pending bits and the
 whole low bound at the end of data

---
 stingraykit/compression/ArithmeticCoder.h | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/stingraykit/compression/ArithmeticCoder.h b/stingraykit/compression/ArithmeticCoder.h
index fa192f0..4df3b31 100644
--- a/stingraykit/compression/ArithmeticCoder.h
+++ b/stingraykit/compression/ArithmeticCoder.h
@@ -57,12 +57,13 @@ namespace stingray
 		template <typename BitsConsumer_>
 		void EndOfData(const BitsConsumer_& consumer)
 		{
-			while (_low != _high)
-			{
-				consumer(FirstBit(_low));
-				_low = (_low << 1) & 0x7FFFFFFF;
-				_high = (_high << 1) & 0x7FFFFFFF;
-			}
+			consumer(FirstBit(_low));
+			for (u32 i = 0; i < _underflowBits; ++i)
+				consumer(!FirstBit(_low));
+			_underflowBits = 0;
+
+			for (u32 mask = 0x20000000; mask != 0; mask >>= 1)
+				consumer((_low & mask) != 0);
 		}
 
 	private:
-- 
2.43.0


From cb4a3b8ec4b8f6f297b2e14fb8e0dbdb9fd0cf00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 39/43] fix: RangeSplitter: the last fragment of a whole number
 of fragments

---
 stingraykit/collection/Range.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index f4d4edc..5e848a6 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -721,7 +721,8 @@ namespace stingray
 
 			Self& Last()
 			{
-				_it = std::next(_begin, AlignDown(std::distance(_begin, _end), _maxFragmentSize));
+				const DiffType size = std::distance(_begin, _end);
+				_it = std::next(_begin, size == 0 ? 0 : AlignDown(size - 1, _maxFragmentSize));
 				_value.reset();
 				return *this;
 			}
-- 
2.43.0


From 3ab82eaa193adc89eb3354ffcfea246fccdee35c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:39:54 +0000
Subject: [PATCH 40/43] fix: RangeReverser: moving to and from the end

---
 stingraykit/collection/Range.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/stingraykit/collection/Range.h b/stingraykit/collection/Range.h
index 5e848a6..4cdf908 100644
--- a/stingraykit/collection/Range.h
+++ b/stingraykit/collection/Range.h
@@ -377,13 +377,28 @@ namespace stingray
 			}
 
 			size_t GetPosition() const
-			{ return static_cast<int>(_impl.GetSize()) - static_cast<int>(_impl.GetPosition()) - (_implBeforeBegin ? 0 : 1); }
+			{ return Valid() ? _impl.GetSize() - _impl.GetPosition() - 1 : _impl.GetSize(); }
 
 			size_t GetSize() const
 			{ return _impl.GetSize(); }
 
 			Self& Move(int distance)
-			{ _impl.Move(-distance); return *this; }
+			{
+				const size_t position = GetPosition() + distance;
+				STINGRAYKIT_CHECK(position <= GetSize(), IndexOutOfRangeException(position, GetSize()));
+
+				if (position == GetSize())
+				{
+					_impl.First();
+					_implBeforeBegin = _impl.Valid();
+				}
+				else
+				{
+					_impl.Move(static_cast<int>(GetSize() - position - 1) - static_cast<int>(_impl.GetPosition()));
+					_implBeforeBegin = false;
+				}
+				return *this;
+			}
 		};
 
 
-- 
2.43.0


From 057d1d82fe0a1b28282543409e1890c87c3c57b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:54:29 +0000
Subject: [PATCH 41/43] fix: applying an added entry to a list transaction
 inserts it instead of overwriting the element at its index

---
 stingraykit/collection/TransactionalList.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/stingraykit/collection/TransactionalList.h b/stingraykit/collection/TransactionalList.h
index 3347cd6..8921da5 100644
--- a/stingraykit/collection/TransactionalList.h
+++ b/stingraykit/collection/TransactionalList.h
@@ -325,7 +325,7 @@ namespace stingray
 				switch (entry.Op)
 				{
 				case CollectionOp::Added:
-					Set(entry.Item.Key, entry.Item.Value);
+					Insert(entry.Item.Key, entry.Item.Value);
 					break;
 				case CollectionOp::Updated:
 					Set(entry.Item.Key, entry.Item.Value);
-- 
2.43.0


From bee29d7a7056e498a93d28d08282968bafe210fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:33 +0000
Subject: [PATCH 42/43] fix: a joining cancellation token refuses handlers when
 either token is cancelled

---
 stingraykit/thread/JoiningCancellationToken.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/stingraykit/thread/JoiningCancellationToken.cpp b/stingraykit/thread/JoiningCancellationToken.cpp
index 3d8e3fa..dd0694e 100644
--- a/stingraykit/thread/JoiningCancellationToken.cpp
+++ b/stingraykit/thread/JoiningCancellationToken.cpp
@@ -48,9 +48,14 @@ namespace stingray
 	bool JoiningCancellationToken::TryRegisterCancellationHandler(ICancellationHandler& handler) const
 	{
 		_firstRegistered = _firstRegistrator.TryRegisterCancellationHandler(handler);
+		if (!_firstRegistered)
+			return false;
+
 		_secondRegistered = _secondRegistrator.TryRegisterCancellationHandler(handler);
+		if (!_secondRegistered)
+			_firstRegistered = !_firstRegistrator.TryUnregisterCancellationHandler(); // fails if the first token is being cancelled: then the handler is called
 
-		return _firstRegistered || _secondRegistered;
+		return _firstRegistered;
 	}
 
 
-- 
2.43.0


From 191081b45724613f8c15ecd71efa00ff6bfbbd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:17 +0000
Subject: [PATCH 43/43] fix: a timer task that cancels its own timer is kept
 until it has returned

---
 stingraykit/timer/Timer.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/stingraykit/timer/Timer.cpp b/stingraykit/timer/Timer.cpp
index 84b2e3f..d17420e 100644
--- a/stingraykit/timer/Timer.cpp
+++ b/stingraykit/timer/Timer.cpp
@@ -293,13 +293,15 @@ namespace stingray
 			if (!guard)
 				return;
 
+			const TaskType task = ci->GetTask(); // the task may cancel its own timer
+
 			if (_profileTimeout)
 			{
-				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(ci->GetTask())), *_profileTimeout, AsyncProfiler::NameGetterTag());
-				ci->GetTask()();
+				AsyncProfiler::Session profiler_session(ExecutorsProfiler::Instance().GetProfiler(), Bind(&Timer::GetProfilerMessage, this, wrap_const_ref(task)), *_profileTimeout, AsyncProfiler::NameGetterTag());
+				task();
 			}
 			else
-				ci->GetTask()();
+				task();
 		}
 		catch (const std::exception& ex)
 		{ _exceptionHandler(ex); }
-- 
2.43.0

