From 3df904be1c554357bc0e8db0fb682aa989880c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 01/90] fix: FixedVector copy assignment of a vector to itself
 emptied it

---
 include/NazaraUtils/FixedVector.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 16f10ca..cddda64 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -691,6 +691,9 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::operator=(const FixedVector& vec) -> FixedVector&
 	{
+		if (this == &vec)
+			return *this;
+
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (vec.IsUsingFallback())
-- 
2.43.0


From 5a71a8c315c79330c1fdda9c5ac387750e786a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 02/90] fix: HybridVector assignment from a vector using its
 fallback leaked the elements stored inline

---
 include/NazaraUtils/FixedVector.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index cddda64..f2d0dc8 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -698,6 +698,9 @@ namespace Nz
 		{
 			if (vec.IsUsingFallback())
 			{
+				if (!IsUsingFallback())
+					clear(); // Destroy elements stored inline
+
 				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
@@ -717,6 +720,9 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
+			if (!IsUsingFallback() && vec.IsUsingFallback())
+				clear(); // Destroy elements stored inline
+
 			// Always move fallback container to steal capacity
 			Base::operator=(std::move(vec));
 			if (vec.IsUsingFallback())
-- 
2.43.0


From 4822edf10ef9009fc676015c6f76e1d7341244ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 03/90] fix: HybridVector::push_back(T&&) copied its argument
 when using the fallback

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index f2d0dc8..39b5170 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -526,7 +526,7 @@ namespace Nz
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
 			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+				return *Base::EmplaceBackInFallback(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
-- 
2.43.0


From 07b8a160778abfb97073c0178082e3b661b98e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 04/90] fix: FixedVector const rbegin/rend did not compile

---
 include/NazaraUtils/FixedVector.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 39b5170..2e8aea5 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -647,7 +647,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rbegin() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data(size())));
+		return const_reverse_iterator(const_iterator(data(size())));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -659,7 +659,7 @@ namespace Nz
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr auto FixedVector<T, Capacity, Fallback>::rend() const noexcept -> const_reverse_iterator
 	{
-		return reverse_iterator(iterator(data()));
+		return const_reverse_iterator(const_iterator(data()));
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From b73b3e413dcd2e1d3b125a98ac462cbbe6273d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 05/90] fix: FixedVector of integers could not be built from a
 count and a value

---
 include/NazaraUtils/FixedVector.hpp | 2 +-
 include/NazaraUtils/FixedVector.inl | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 3d7489f..13ea1f7 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -46,7 +46,7 @@ namespace Nz
 
 			constexpr FixedVector();
 			constexpr explicit FixedVector(size_type size, const T& value = T{});
-			template<typename InputIt> constexpr FixedVector(InputIt first, InputIt last);
+			template<typename InputIt, typename = std::enable_if_t<!std::is_integral_v<InputIt>>> constexpr FixedVector(InputIt first, InputIt last);
 			constexpr FixedVector(std::initializer_list<T> init);
 			constexpr FixedVector(const FixedVector& vec);
 			constexpr FixedVector(FixedVector&& vec) noexcept;
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 2e8aea5..93efb52 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -193,7 +193,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	template<typename InputIt>
+	template<typename InputIt, typename>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(InputIt first, InputIt last) :
 	FixedVector()
 	{
-- 
2.43.0


From bc2f8e4456a4763d546f891fcbb6a7de50895b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 06/90] fix: FixedVector range erase required a default
 constructor

---
 include/NazaraUtils/FixedVector.inl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 93efb52..15e2cf1 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -467,7 +467,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back();
 
 		return iterator(data(index));
 	}
-- 
2.43.0


From dd2254755e7800a4777fe5f7ce8c9d0e519b2e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 07/90] fix: FixedVector size was wrong after an element
 constructor threw

---
 include/NazaraUtils/FixedVector.inl | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 15e2cf1..4399a37 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -398,7 +398,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::forward<Args>(args)...);
+		T* element = PlacementNew(data(m_size), std::forward<Args>(args)...);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -518,7 +521,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), value);
+		T* element = PlacementNew(data(m_size), value);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -531,7 +537,10 @@ namespace Nz
 		}
 
 		NazaraAssert(m_size < Capacity);
-		return *PlacementNew(data(m_size++), std::move(value));
+		T* element = PlacementNew(data(m_size), std::move(value));
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
@@ -572,9 +581,10 @@ namespace Nz
 		if (count > m_size)
 		{
 			for (std::size_t i = m_size; i < count; ++i)
+			{
 				PlacementNew(data(i));
-
-			m_size = count;
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
@@ -607,9 +617,10 @@ namespace Nz
 		if (count > m_size)
 		{
 			for (std::size_t i = m_size; i < count; ++i)
+			{
 				PlacementNew(data(i), value);
-
-			m_size = count;
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From 7f64a31e3afb58f99c15251ab602776009a7050d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 08/90] fix: FixedVector copy constructor leaked elements when
 one of the copies threw

---
 include/NazaraUtils/FixedVector.inl | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 4399a37..97452ba 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -209,16 +209,9 @@ namespace Nz
 
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr FixedVector<T, Capacity, Fallback>::FixedVector(const FixedVector& vec) :
-	Base(vec)
+	FixedVector()
 	{
-		if (!vec.IsUsingFallback())
-		{
-			m_size = 0;
-			for (size_type i = 0; i < vec.size(); ++i)
-				push_back(vec[i]);
-		}
-		else
-			m_size = FallbackInUse;
+		operator=(vec);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From 068f650f7a9b17c20de4f9e3658b96dacc2e0efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 09/90] fix: FixedVector emplace/insert broke when given one of
 its elements or when the constructor threw

---
 include/NazaraUtils/FixedVector.inl | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 97452ba..926ae73 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -367,17 +367,25 @@ namespace Nz
 		NazaraAssert(m_size < Capacity);
 		if (pos < end())
 		{
+			// The arguments may refer to an element of this vector, use them before moving anything
+			T value(std::forward<Args>(args)...);
+
 			iterator lastElement = end() - 1;
 			PlacementNew(data(m_size), std::move(*lastElement));
+			m_size++;
 
 			if (data(index) < lastElement)
-				std::move_backward(data(index), data(m_size - 1), data(m_size));
+				std::move_backward(data(index), lastElement, lastElement + 1);
 
-			PlacementDestroy(data(index));
+			*data(index) = std::move(value);
+		}
+		else
+		{
+			PlacementNew(data(m_size), std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(data(index), std::forward<Args>(args)...);
+		return data(index);
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-- 
2.43.0


From d0ea8ea6f9e8e4231dc29c75bd3cf9a95f7d23de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 10/90] fix: HybridVector used a dangling reference when given
 one of its elements while switching to its fallback

---
 include/NazaraUtils/FixedVector.hpp |  1 -
 include/NazaraUtils/FixedVector.inl | 51 ++++++++++++++---------------
 2 files changed, 24 insertions(+), 28 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index 13ea1f7..b142074 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -119,7 +119,6 @@ namespace Nz
 			constexpr FixedVector& operator=(FixedVector&& vec) noexcept;
 
 		private:
-			constexpr bool CheckFallbackOnGrow();
 			constexpr bool IsUsingFallback() const;
 			constexpr void MoveStorageToFallback(std::size_t capacity);
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 926ae73..9c634d0 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -360,8 +360,16 @@ namespace Nz
 
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return Base::EmplaceInFallback(index, std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// The arguments may refer to an element of this vector, use them before moving anything
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return Base::EmplaceInFallback(index, std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -394,8 +402,16 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
+			if (IsUsingFallback())
 				return *Base::EmplaceBackInFallback(std::forward<Args>(args)...);
+
+			if (m_size >= Capacity)
+			{
+				// The arguments may refer to an element of this vector, use them before moving anything
+				T value(std::forward<Args>(args)...);
+				MoveStorageToFallback(m_size + 1);
+				return *Base::EmplaceBackInFallback(std::move(value));
+			}
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -517,8 +533,8 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(value);
+			if (IsUsingFallback() || m_size >= Capacity)
+				return emplace_back(value);
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -533,8 +549,8 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (CheckFallbackOnGrow())
-				return *Base::EmplaceBackInFallback(std::move(value));
+			if (IsUsingFallback() || m_size >= Capacity)
+				return emplace_back(std::move(value));
 		}
 
 		NazaraAssert(m_size < Capacity);
@@ -608,8 +624,9 @@ namespace Nz
 			}
 			else if (count > Capacity)
 			{
+				T copy(value); // value may be an element of this vector
 				MoveStorageToFallback(count);
-				Base::ResizeFallback(count, value);
+				Base::ResizeFallback(count, copy);
 				return;
 			}
 		}
@@ -753,26 +770,6 @@ namespace Nz
 		return *this;
 	}
 
-	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr bool FixedVector<T, Capacity, Fallback>::CheckFallbackOnGrow()
-	{
-		if constexpr (!std::is_same_v<Fallback, void>)
-		{
-			if (IsUsingFallback())
-				return true;
-
-			if (m_size >= Capacity)
-			{
-				MoveStorageToFallback(m_size + 1);
-				return true;
-			}
-			else
-				return false;
-		}
-		else
-			return false;
-	}
-
 	template<typename T, std::size_t Capacity, typename Fallback>
 	constexpr bool FixedVector<T, Capacity, Fallback>::IsUsingFallback() const
 	{
-- 
2.43.0


From c305400a32bde03c11f91925dea8d62b879bef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:07 +0000
Subject: [PATCH 11/90] fix: HybridVector destroyed elements twice when moving
 them to its fallback threw

---
 include/NazaraUtils/FixedVector.inl | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 9c634d0..8c233b7 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -784,13 +784,14 @@ namespace Nz
 	{
 		NazaraAssert(!IsUsingFallback());
 
-		Base::ReserveFallback(capacity);
+		// If moving an element throws, this vector must keep owning its elements
+		Fallback newFallback;
+		newFallback.reserve(capacity);
 		for (std::size_t i = 0; i < m_size; ++i)
-		{
-			T* ptr = data(i);
-			Base::EmplaceBackInFallback(std::move(*ptr));
-			PlacementDestroy(ptr);
-		}
+			newFallback.emplace_back(std::move(*data(i)));
+
+		clear();
+		Base::fallback = std::move(newFallback);
 		m_size = FallbackInUse;
 	}
 }
-- 
2.43.0


From f71d387cbcc1095e62f947b9e5ad0d16d6ca8310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 12/90] fix: Bitset ordering read blocks out of bounds when
 comparing bitsets with different block counts

---
 include/NazaraUtils/Bitset.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 66a8c7a..3c46de0 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1536,9 +1536,9 @@ namespace Nz
 		std::size_t minBlockCount = lesser.GetBlockCount();
 
 		// If the greatest bitset has a single bit active in a block outside the lesser bitset range, then it is greater
-		for (std::size_t i = maxBlockCount; i > minBlockCount; ++i)
+		for (std::size_t i = maxBlockCount; i > minBlockCount; --i)
 		{
-			if (greater.GetBlock(i))
+			if (greater.GetBlock(i - 1))
 				return lhs.GetBlockCount() < rhs.GetBlockCount();
 		}
 
-- 
2.43.0


From 7d18d7ca4601898e0927167fade67f25a628da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:36 +0000
Subject: [PATCH 13/90] fix: Bitset ordering kept comparing less significant
 blocks after a greater one

---
 include/NazaraUtils/Bitset.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 3c46de0..25ba235 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1546,8 +1546,8 @@ namespace Nz
 		for (std::size_t i = 0; i < minBlockCount; ++i)
 		{
 			std::size_t index = (minBlockCount - i - 1); // Compare from the most significant block to the less significant block
-			if (lhs.GetBlock(index) < rhs.GetBlock(index))
-				return true;
+			if (lhs.GetBlock(index) != rhs.GetBlock(index))
+				return lhs.GetBlock(index) < rhs.GetBlock(index);
 		}
 
 		return false; // They are equal
-- 
2.43.0


From 425455cebe582d942965fa9cf9111fad4de5a460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 14/90] fix: Bitset::AppendBits wrote bits it was not asked
 for, and lost full 32 and 64 bits blocks

---
 include/NazaraUtils/Bitset.inl | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 25ba235..afffe9b 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -161,7 +161,11 @@ namespace Nz
 		if (bitShift != 0)
 		{
 			std::size_t remainingBits = bitsPerBlock - bitShift;
-			m_blocks.back() |= Block(bits) << bitShift;
+			Block block = static_cast<Block>(bits);
+			if (bitCount < remainingBits)
+				block &= (Block(1U) << bitCount) - 1U; // mask out the bits we don't want
+
+			m_blocks.back() |= block << bitShift;
 			bits = (remainingBits < BitCount<T>) ? bits >> remainingBits : T(0);
 
 			bitCount -= std::min(remainingBits, bitCount);
@@ -185,7 +189,9 @@ namespace Nz
 			// For the last iteration, mask out the bits we don't want
 			std::size_t remainingBits = bitCount;
 
-			bits &= ((Block(1U) << remainingBits) - 1U);
+			if (remainingBits < bitsPerBlock)
+				bits &= ((Block(1U) << remainingBits) - 1U);
+
 			m_blocks.push_back(static_cast<Block>(bits));
 		}
 	}
-- 
2.43.0


From 4e6512b470497a27c805365b870593237829ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 15/90] fix: Bitset::Write of no bits read a byte and skipped
 it

---
 include/NazaraUtils/Bitset.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index afffe9b..0276851 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -374,6 +374,9 @@ namespace Nz
 		NazaraAssertMsg(sequence.first, "invalid pointer sequence");
 		NazaraAssertMsg(sequence.second < 8, "invalid next bit index (must be < 8)");
 
+		if (bitCount == 0)
+			return sequence;
+
 		std::size_t totalBitCount = sequence.second + bitCount;
 
 		const UInt8* u8Ptr = static_cast<const UInt8*>(sequence.first);
-- 
2.43.0


From 3f2172fed7830a6bc375d5f0530d77071e4591b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:01 +0000
Subject: [PATCH 16/90] fix: Bitset iterator post-increment did not advance the
 iterator

---
 include/NazaraUtils/Bitset.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 0276851..626c2b2 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -1443,7 +1443,7 @@ namespace Nz
 	constexpr auto Bitset<Block, Container>::BitIterator::operator++(int) -> BitIterator
 	{
 		BitIterator copy(*this);
-		++copy;
+		++*this;
 		return copy;
 	}
 
-- 
2.43.0


From 750fffcca24501cc8d64add7ea5824e1654b53c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:42 +0000
Subject: [PATCH 17/90] fix: HybridVector::reserve ignored small counts when
 using a fallback with less capacity

---
 include/NazaraUtils/FixedVector.inl | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 8c233b7..9d0f3de 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -654,13 +654,10 @@ namespace Nz
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-			if (count <= Capacity)
-				return;
-
-			if (!IsUsingFallback())
-				MoveStorageToFallback(count);
-			else
+			if (IsUsingFallback())
 				Base::ReserveFallback(count);
+			else if (count > Capacity)
+				MoveStorageToFallback(count);
 		}
 		else
 		{
-- 
2.43.0


From 4ae1d8a476735ca2d24b2805fc986b0f9f02110d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 18/90] fix: moving a StackVector left a source destroying
 elements it no longer had

---
 include/NazaraUtils/StackVector.hpp |  4 ++--
 include/NazaraUtils/StackVector.inl | 24 ++++++++++++++++++++++++
 2 files changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 2bf14a7..02c3b40 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -41,7 +41,7 @@ namespace Nz
 			StackVector();
 			StackVector(T* stackMemory, std::size_t capacity);
 			StackVector(const StackVector&) = delete;
-			StackVector(StackVector&&) noexcept = default;
+			StackVector(StackVector&& vec) noexcept;
 			~StackVector();
 
 			reference back();
@@ -104,7 +104,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackVector& operator=(const StackVector&) = delete;
-			StackVector& operator=(StackVector&&) noexcept = default;
+			StackVector& operator=(StackVector&& vec) noexcept;
 
 		private:
 			std::size_t m_capacity;
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 48b3502..58f911d 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -31,6 +31,16 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackVector<T>::StackVector(StackVector&& vec) noexcept :
+	m_capacity(vec.m_capacity),
+	m_size(vec.m_size),
+	m_ptr(std::move(vec.m_ptr))
+	{
+		vec.m_capacity = 0;
+		vec.m_size = 0;
+	}
+
 	template<typename T>
 	StackVector<T>::~StackVector()
 	{
@@ -330,4 +340,18 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackVector<T>& StackVector<T>::operator=(StackVector&& vec) noexcept
+	{
+		if (this == &vec)
+			return *this;
+
+		clear();
+		std::swap(m_capacity, vec.m_capacity);
+		std::swap(m_size, vec.m_size);
+		m_ptr = std::move(vec.m_ptr); // swaps pointers
+
+		return *this;
+	}
 }
-- 
2.43.0


From ae17a4735ac4f1dc0d42c43f5df768cbb9727772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 19/90] fix: moving a StackArray left a source destroying
 elements it no longer had

---
 include/NazaraUtils/StackArray.hpp |  4 ++--
 include/NazaraUtils/StackArray.inl | 17 +++++++++++++++++
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index 3654a89..d7add20 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -45,7 +45,7 @@ namespace Nz
 			StackArray(T* stackMemory, std::size_t size);
 			StackArray(T* stackMemory, std::size_t size, NoInitTag);
 			StackArray(const StackArray&) = delete;
-			StackArray(StackArray&&) = default;
+			StackArray(StackArray&& array) noexcept;
 			~StackArray();
 
 			reference back();
@@ -86,7 +86,7 @@ namespace Nz
 			const_reference operator[](size_type pos) const;
 
 			StackArray& operator=(const StackArray&) = delete;
-			StackArray& operator=(StackArray&&) = default;
+			StackArray& operator=(StackArray&& array) noexcept;
 
 		private:
 			std::size_t m_size;
diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index d3bd353..8b8a922 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -38,6 +38,14 @@ namespace Nz
 	{
 	}
 
+	template<typename T>
+	StackArray<T>::StackArray(StackArray&& array) noexcept :
+	m_size(array.m_size),
+	m_ptr(std::move(array.m_ptr))
+	{
+		array.m_size = 0;
+	}
+
 	template<typename T>
 	StackArray<T>::~StackArray()
 	{
@@ -196,4 +204,13 @@ namespace Nz
 		assert(pos < m_size);
 		return m_ptr[pos];
 	}
+
+	template<typename T>
+	StackArray<T>& StackArray<T>::operator=(StackArray&& array) noexcept
+	{
+		std::swap(m_size, array.m_size);
+		m_ptr = std::move(array.m_ptr); // swaps pointers
+
+		return *this;
+	}
 }
-- 
2.43.0


From cae577bc369ed8890d4f05d9f1c7f4f52c8e5836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 20/90] fix: StackVector and StackArray const rbegin/rend did
 not compile

---
 include/NazaraUtils/StackArray.inl  | 4 ++--
 include/NazaraUtils/StackVector.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 8b8a922..863b72d 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -170,7 +170,7 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::rbegin() const noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return const_reverse_iterator(&m_ptr[m_size]);
 	}
 
 	template<typename T>
@@ -182,7 +182,7 @@ namespace Nz
 	template<typename T>
 	typename StackArray<T>::const_reverse_iterator StackArray<T>::rend() const noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return const_reverse_iterator(&m_ptr[0]);
 	}
 
 	template<typename T>
diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 58f911d..7620f53 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -306,7 +306,7 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::const_reverse_iterator StackVector<T>::rbegin() const noexcept
 	{
-		return reverse_iterator(&m_ptr[m_size]);
+		return const_reverse_iterator(&m_ptr[m_size]);
 	}
 
 	template<typename T>
@@ -318,7 +318,7 @@ namespace Nz
 	template<typename T>
 	typename StackVector<T>::const_reverse_iterator StackVector<T>::rend() const noexcept
 	{
-		return reverse_iterator(&m_ptr[0]);
+		return const_reverse_iterator(&m_ptr[0]);
 	}
 
 	template<typename T>
-- 
2.43.0


From 3fc577f9827b353e498fdcfa6b29cdd772726705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 21/90] fix: StackVector required a default constructor to be
 destroyed or to erase a range

---
 include/NazaraUtils/StackVector.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 7620f53..c0563da 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -86,7 +86,11 @@ namespace Nz
 	template<typename T>
 	void StackVector<T>::clear() noexcept
 	{
-		resize(0);
+		// can't use resize(0); since it will try to instantiate the default-construction part (which won't compile for classes having no default constructor)
+		for (std::size_t i = 0; i < m_size; ++i)
+			PlacementDestroy(&m_ptr[i]);
+
+		m_size = 0;
 	}
 
 	template<typename T>
@@ -199,7 +203,8 @@ namespace Nz
 		std::size_t count = std::distance(first, last);
 
 		std::move(begin() + index + count, end(), begin() + index);
-		resize(size() - count);
+		for (std::size_t i = 0; i < count; ++i)
+			pop_back();
 
 		return iterator(&m_ptr[index]);
 	}
-- 
2.43.0


From 9ff620a8f1ae21b4375040053a75480b4fab36f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 22/90] fix: StackVector size was wrong after an element
 constructor threw

---
 include/NazaraUtils/StackVector.inl | 25 ++++++++++++++++++-------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index c0563da..9663986 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -157,7 +157,10 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::emplace_back(Args&&... args)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::forward<Args>(args)...);
+		T* element = PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T>
@@ -245,14 +248,20 @@ namespace Nz
 	typename StackVector<T>::reference StackVector<T>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], value);
+		T* element = PlacementNew(&m_ptr[m_size], value);
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T>
 	typename StackVector<T>::reference StackVector<T>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value)
 	{
 		assert(m_size < m_capacity);
-		return *PlacementNew(&m_ptr[m_size++], std::move(value));
+		T* element = PlacementNew(&m_ptr[m_size], std::move(value));
+		m_size++;
+
+		return *element;
 	}
 
 	template<typename T>
@@ -269,9 +278,10 @@ namespace Nz
 		if (count > m_size)
 		{
 			for (std::size_t i = m_size; i < count; ++i)
+			{
 				PlacementNew(&m_ptr[i]);
-
-			m_size = count;
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
@@ -289,9 +299,10 @@ namespace Nz
 		if (count > m_size)
 		{
 			for (std::size_t i = m_size; i < count; ++i)
+			{
 				PlacementNew(&m_ptr[i], value);
-
-			m_size = count;
+				m_size++;
+			}
 		}
 		else if (count < m_size)
 		{
-- 
2.43.0


From 155feafe14e77adccb581c45ada7f8bf0f680ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 23/90] fix: StackVector emplace/insert broke when given one of
 its elements or when the constructor threw

---
 include/NazaraUtils/StackVector.inl | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/StackVector.inl b/include/NazaraUtils/StackVector.inl
index 9663986..a508466 100644
--- a/include/NazaraUtils/StackVector.inl
+++ b/include/NazaraUtils/StackVector.inl
@@ -139,17 +139,25 @@ namespace Nz
 		std::size_t index = std::distance(cbegin(), pos);
 		if (pos < end())
 		{
+			// The arguments may refer to an element of this vector, use them before moving anything
+			T value(std::forward<Args>(args)...);
+
 			iterator lastElement = end() - 1;
 			PlacementNew(&m_ptr[m_size], std::move(*lastElement));
+			m_size++;
 
 			if (&m_ptr[index] < lastElement)
-				std::move_backward(&m_ptr[index], &m_ptr[m_size - 1], &m_ptr[m_size]);
+				std::move_backward(&m_ptr[index], lastElement, lastElement + 1);
 
-			PlacementDestroy(&m_ptr[index]);
+			m_ptr[index] = std::move(value);
+		}
+		else
+		{
+			PlacementNew(&m_ptr[m_size], std::forward<Args>(args)...);
+			m_size++;
 		}
-		m_size++;
 
-		return PlacementNew(&m_ptr[index], std::forward<Args>(args)...);
+		return iterator(&m_ptr[index]);
 	}
 
 	template<typename T>
-- 
2.43.0


From 322af5b9e44beeff3f6d79be1dc0f8ab71ac03ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:37 +0000
Subject: [PATCH 24/90] fix: StackArray leaked its first elements when a
 constructor threw

---
 include/NazaraUtils/StackArray.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/StackArray.inl b/include/NazaraUtils/StackArray.inl
index 863b72d..d6c77bd 100644
--- a/include/NazaraUtils/StackArray.inl
+++ b/include/NazaraUtils/StackArray.inl
@@ -24,11 +24,14 @@ namespace Nz
 
 	template<typename T>
 	StackArray<T>::StackArray(T* stackMemory, std::size_t size) :
-	m_size(size),
-	m_ptr(stackMemory)
+	StackArray(stackMemory, 0, NoInitTag{})
 	{
-		for (std::size_t i = 0; i < m_size; ++i)
+		// The destructor is called if a constructor throws, it has to destroy the elements which were constructed
+		for (std::size_t i = 0; i < size; ++i)
+		{
 			PlacementNew(&m_ptr[i]);
+			m_size++;
+		}
 	}
 
 	template<typename T>
-- 
2.43.0


From 98290ad8c24b0f36a95837acd98e4780c8c63a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 25/90] fix: MemoryPool::Reset did not return every entry to
 the pool

---
 include/NazaraUtils/MemoryPool.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 2503503..0e2a303 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -230,8 +230,8 @@ namespace Nz
 				PlacementDestroy(entry);
 			}
 
-			block.freeEntries.Reset(true);
-			block.occupiedEntries.Reset(false);
+			block.freeEntries.Set();
+			block.occupiedEntries.Reset();
 			block.occupiedEntryCount = 0;
 		}
 	}
-- 
2.43.0


From 3c1bf186b3ddac2b753b1cc54b58417e025e4163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 26/90] fix: MemoryPool move assignment did not destroy the
 entries it held

---
 include/NazaraUtils/MemoryPool.hpp |  2 +-
 include/NazaraUtils/MemoryPool.inl | 14 ++++++++++++++
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.hpp b/include/NazaraUtils/MemoryPool.hpp
index 79a8f2a..4c9bbc7 100644
--- a/include/NazaraUtils/MemoryPool.hpp
+++ b/include/NazaraUtils/MemoryPool.hpp
@@ -63,7 +63,7 @@ namespace Nz
 			std::size_t size();
 
 			MemoryPool& operator=(const MemoryPool&) = delete;
-			MemoryPool& operator=(MemoryPool&& pool) noexcept = default;
+			MemoryPool& operator=(MemoryPool&& pool) noexcept;
 
 			static constexpr DeferConstruct_t DeferConstruct = {};
 			static constexpr std::size_t InvalidIndex = std::numeric_limits<std::size_t>::max();
diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 0e2a303..06564f1 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -350,6 +350,20 @@ namespace Nz
 		return GetAllocatedEntryCount();
 	}
 
+	template<typename T, std::size_t Alignment>
+	MemoryPool<T, Alignment>& MemoryPool<T, Alignment>::operator=(MemoryPool&& pool) noexcept
+	{
+		if (this == &pool)
+			return *this;
+
+		Reset(); // Destroy our entries before releasing their memory
+
+		m_blockSize = pool.m_blockSize;
+		m_blocks = std::move(pool.m_blocks);
+
+		return *this;
+	}
+
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-- 
2.43.0


From 760e8a77c19cfcfb79f91790811b819502884a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 27/90] fix: MemoryPool::RetrieveEntryIndex returned wrong
 indices when the alignment pads entries

---
 include/NazaraUtils/MemoryPool.inl | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 06564f1..e5924d9 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -287,11 +287,12 @@ namespace Nz
 		for (; blockIndex < m_blocks.size(); ++blockIndex)
 		{
 			auto& block = m_blocks[blockIndex];
-			const T* startPtr = reinterpret_cast<const T*>(&block.memory[0]);
-			if (data >= startPtr && data < startPtr + m_blockSize)
+			const AlignedStorage* startPtr = &block.memory[0];
+			const AlignedStorage* dataPtr = reinterpret_cast<const AlignedStorage*>(data);
+			if (dataPtr >= startPtr && dataPtr < startPtr + m_blockSize)
 			{
-				// Part of block
-				localIndex = SafeCast<std::size_t>(data - startPtr);
+				// Part of block (entries may be further apart than sizeof(T), depending on the alignment)
+				localIndex = SafeCast<std::size_t>(dataPtr - startPtr);
 				assert(data == reinterpret_cast<const T*>(&block.memory[localIndex]));
 
 				break;
-- 
2.43.0


From a11825c5ee0e5c739062505d299a4d7c3f4d6835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:03 +0000
Subject: [PATCH 28/90] fix: MemoryPool kept (and destroyed) an entry whose
 constructor threw

---
 include/NazaraUtils/MemoryPool.inl | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index e5924d9..684b908 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -93,7 +93,16 @@ namespace Nz
 	T* MemoryPool<T, Alignment>::Allocate(std::size_t& index, Args&&... args)
 	{
 		T* entry = Allocate(DeferConstruct, index);
-		PlacementNew(entry, std::forward<Args>(args)...);
+		try
+		{
+			PlacementNew(entry, std::forward<Args>(args)...);
+		}
+		catch (...)
+		{
+			// There is no object to destroy, give the memory back
+			Free(index, NoDestruction);
+			throw;
+		}
 
 		return entry;
 	}
-- 
2.43.0


From 1ba08e1219d8385a1b13b6743851598330eeacad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 29/90] fix: moving a Connection in a ConnectionGuard did not
 compile

---
 include/NazaraUtils/Signal.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f5803ee..0d6a161 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -451,7 +451,7 @@ namespace Nz
 	template<typename... Args>
 	typename Signal<Args...>::ConnectionGuard& Signal<Args...>::ConnectionGuard::operator=(Connection&& connection)
 	{
-		if (&connection != this)
+		if (&connection != &m_connection)
 		{
 			m_connection.Disconnect();
 			m_connection = std::move(connection);
-- 
2.43.0


From f66b176eed639c33f2a816acb98e05127ef5d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 30/90] fix: emitting or connecting to a moved Signal crashed

---
 include/NazaraUtils/Signal.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index 0d6a161..b7fb667 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -40,7 +40,8 @@ namespace Nz
 	*/
 
 	template<typename... Args>
-	Signal<Args...>::Signal(Signal&& signal) noexcept
+	Signal<Args...>::Signal(Signal&& signal) noexcept :
+	Signal()
 	{
 		operator=(std::move(signal));
 	}
@@ -203,9 +204,15 @@ namespace Nz
 	template<typename... Args>
 	Signal<Args...>& Signal<Args...>::operator=(Signal&& signal) noexcept
 	{
+		if (this == &signal)
+			return *this;
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
 
+		// Slots stored inline are moved one by one, make sure the moved signal doesn't keep null slots
+		signal.Clear();
+
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
 			slot->signal = this;
-- 
2.43.0


From 56049bca99456eba3111829f6b5ee33681800f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 31/90] fix: a Signal callback disconnecting itself was
 destroyed while being executed

---
 include/NazaraUtils/Signal.hpp | 2 +-
 include/NazaraUtils/Signal.inl | 8 ++++++--
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 139dde5..161b213 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -65,7 +65,7 @@ namespace Nz
 				{
 				}
 
-				Callback callback;
+				std::shared_ptr<Callback> callback; //< Shared with the emission, as a callback may disconnect itself
 				Signal* signal;
 				SlotListIndex index;
 			};
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index b7fb667..d433f6f 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -87,7 +87,7 @@ namespace Nz
 		bool resetIt = (m_slotIterator >= m_slots.size());
 
 		auto tempPtr = std::make_shared<Slot>(this);
-		tempPtr->callback = std::move(func);
+		tempPtr->callback = std::make_shared<Callback>(std::move(func));
 		tempPtr->index = m_slots.size();
 
 		m_slots.emplace_back(std::move(tempPtr));
@@ -180,7 +180,11 @@ namespace Nz
 	void Signal<Args...>::operator()(Args... args) const
 	{
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
-			m_slots[m_slotIterator]->callback(args...);
+		{
+			// Keep the callback alive until it returns, even if it disconnects itself or clears the signal
+			std::shared_ptr<Callback> callback = m_slots[m_slotIterator]->callback;
+			(*callback)(args...);
+		}
 	}
 
 	/*!
-- 
2.43.0


From 117d5d86511997ee30aae110e59d9e91e7c6566e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 32/90] fix: Signal emission stopped when the first slot
 disconnected itself before connecting another one

---
 include/NazaraUtils/Signal.inl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index d433f6f..bbe05c4 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -2,6 +2,7 @@
 // This file is part of the "Nazara Utility Library"
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
+#include <NazaraUtils/MathUtils.hpp>
 #include <cassert>
 #include <utility>
 
@@ -83,8 +84,8 @@ namespace Nz
 		assert((func) &&  "Invalid function");
 
 		// Since we're incrementing the slot vector size, we need to replace our iterator at the end
-		// (Except when we are iterating on the signal)
-		bool resetIt = (m_slotIterator >= m_slots.size());
+		// (Except when we are iterating on the signal, including when its first slot was just disconnected by itself)
+		bool resetIt = (m_slotIterator >= m_slots.size() && m_slotIterator != MaxValue<SlotListIndex>());
 
 		auto tempPtr = std::make_shared<Slot>(this);
 		tempPtr->callback = std::make_shared<Callback>(std::move(func));
-- 
2.43.0


From 60682b925f1ce5962127fec07b0565905dbfc943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:06 +0000
Subject: [PATCH 33/90] fix: emitting a Signal from one of its slots
 interrupted the first emission

---
 include/NazaraUtils/Signal.inl | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index bbe05c4..f0d1a08 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -180,6 +180,23 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::operator()(Args... args) const
 	{
+		// If this signal is being emitted by one of its slots, the iterator belongs to the outer emission
+		if (m_slotIterator < m_slots.size() || m_slotIterator == MaxValue<SlotListIndex>())
+		{
+			std::vector<std::weak_ptr<Slot>> slots(m_slots.begin(), m_slots.end());
+			for (const std::weak_ptr<Slot>& weakSlot : slots)
+			{
+				std::shared_ptr<Callback> callback;
+				if (SlotPtr slot = weakSlot.lock())
+					callback = slot->callback;
+
+				if (callback)
+					(*callback)(args...);
+			}
+
+			return;
+		}
+
 		for (m_slotIterator = 0; m_slotIterator < m_slots.size(); ++m_slotIterator)
 		{
 			// Keep the callback alive until it returns, even if it disconnects itself or clears the signal
-- 
2.43.0


From f00d461c7e86bf03ea2744e43de971f1fa53a45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 34/90] fix: building a Result<void, E> from an lvalue error
 moved it

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 92dae39..3ba89bb 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -278,7 +278,7 @@ namespace Nz
 	template<typename E>
 	template<typename T>
 	constexpr Result<void, E>::Result(ResultError<T> error) :
-	m_error(std::move(error.value))
+	m_error(std::in_place, std::forward<T>(error.value))
 	{
 	}
 
-- 
2.43.0


From 5df7fbe1b9c50f0009572a589e387810393d7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 35/90] fix: building a Result<void, E> error in place without
 argument made a success

---
 include/NazaraUtils/Result.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 3ba89bb..085b290 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -290,7 +290,7 @@ namespace Nz
 	template<typename E>
 	template<typename... Args>
 	constexpr Result<void, E>::Result(ErrorTag, Args&&... args) :
-	m_error(std::forward<Args>(args)...)
+	m_error(std::in_place, std::forward<Args>(args)...)
 	{
 	}
 
-- 
2.43.0


From 83a1f3e2ea7371e63dda160e03b5794c6227ae14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:56 +0000
Subject: [PATCH 36/90] fix: converting a Result required its value type to be
 default constructible

---
 include/NazaraUtils/Result.inl | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index 085b290..a7fd050 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -69,22 +69,20 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename V2, typename E2, typename>
-	constexpr Result<V, E>::Result(const Result<V2, E2>& result)
+	constexpr Result<V, E>::Result(const Result<V2, E2>& result) :
+	m_value(result.IsOk() ?
+		std::variant<V, E>(std::in_place_index_t<ValueIndex>{}, result.GetValue()) :
+		std::variant<V, E>(std::in_place_index_t<ErrorIndex>{}, result.GetError()))
 	{
-		if (result.IsOk())
-			m_value.template emplace<ValueIndex>(result.GetValue());
-		else
-			m_value.template emplace<ErrorIndex>(result.GetError());
 	}
 
 	template<typename V, typename E>
 	template<typename V2, typename E2, typename>
-	constexpr Result<V, E>::Result(Result<V2, E2>&& result)
+	constexpr Result<V, E>::Result(Result<V2, E2>&& result) :
+	m_value(result.IsOk() ?
+		std::variant<V, E>(std::in_place_index_t<ValueIndex>{}, std::move(result).GetValue()) :
+		std::variant<V, E>(std::in_place_index_t<ErrorIndex>{}, std::move(result).GetError()))
 	{
-		if (result.IsOk())
-			m_value.template emplace<ValueIndex>(std::move(result).GetValue());
-		else
-			m_value.template emplace<ErrorIndex>(std::move(result).GetError());
 	}
 
 	template<typename V, typename E>
-- 
2.43.0


From 3a48767885ee6d5e03ae9646b3abf39c1c928dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 37/90] fix: assigning an in-place PrivateImpl to itself used a
 destroyed object

---
 include/NazaraUtils/PrivateImpl.inl | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 849645c..21254f7 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -91,6 +91,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(const PrivateImpl& pimpl) -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), *pimpl.Get());
 
@@ -100,6 +103,9 @@ namespace Nz
 	template<typename T, std::size_t BufferSize, std::size_t Alignment>
 	auto PrivateImpl<T, BufferSize, Alignment>::operator=(PrivateImpl&& pimpl) noexcept -> PrivateImpl&
 	{
+		if (this == &pimpl)
+			return *this;
+
 		PlacementDestroy(Get());
 		PlacementNew(Get(), std::move(*pimpl.Get()));
 
-- 
2.43.0


From 434ac712c0b1250f29089a89f1637fc670cfc107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 38/90] fix: in-place PrivateImpl destroyed its object twice
 when copying another one threw

---
 include/NazaraUtils/PrivateImpl.inl | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 21254f7..c4f6889 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -94,8 +94,13 @@ namespace Nz
 		if (this == &pimpl)
 			return *this;
 
-		PlacementDestroy(Get());
-		PlacementNew(Get(), *pimpl.Get());
+		if constexpr (std::is_copy_assignable_v<T>)
+			*Get() = *pimpl.Get();
+		else
+		{
+			PlacementDestroy(Get());
+			PlacementNew(Get(), *pimpl.Get());
+		}
 
 		return *this;
 	}
-- 
2.43.0


From fb7223f0b209d722df420c7608097c33c969acde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 39/90] fix: copying an empty PrivateImpl dereferenced a null
 pointer

---
 include/NazaraUtils/PrivateImpl.inl | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index c4f6889..9ba01cf 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -142,7 +142,8 @@ namespace Nz
 	PrivateImpl<T, 0, Alignment>::PrivateImpl(const PrivateImpl& pimpl)
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy constructor has to be called in the source file");
-		m_ptr = new T(*pimpl);
+		if (pimpl.HasValue())
+			m_ptr = new T(*pimpl);
 	}
 
 	template<typename T, std::size_t Alignment>
@@ -236,6 +237,12 @@ namespace Nz
 	{
 		static_assert(IsComplete_v<T>, "PrivateImpl copy assignation operator has to be called in the source file");
 
+		if (!pimpl.HasValue())
+		{
+			Reset();
+			return *this;
+		}
+
 		if constexpr (std::is_copy_assignable_v<T>)
 		{
 			if (m_ptr)
-- 
2.43.0


From bb2f3e89d09abf365020b56fae03a69e388c2619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 40/90] fix: PrivateImpl copy assignment used a deleted object
 when assigned to itself or when the copy threw

---
 include/NazaraUtils/PrivateImpl.inl | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index 9ba01cf..e962792 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -252,8 +252,10 @@ namespace Nz
 		}
 		else
 		{
+			// Copy before deleting, in case of self-assignment or if the copy throws
+			T* newPtr = new T(*pimpl);
 			delete m_ptr;
-			m_ptr = new T(*pimpl);
+			m_ptr = newPtr;
 		}
 
 		return *this;
-- 
2.43.0


From ea0c245000b37f297cfa465186cf9d6596dac835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 41/90] fix: assigning an lvalue to a MovableValue moved it

---
 include/NazaraUtils/MovableValue.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/MovableValue.inl b/include/NazaraUtils/MovableValue.inl
index 1093929..c84ec2f 100644
--- a/include/NazaraUtils/MovableValue.inl
+++ b/include/NazaraUtils/MovableValue.inl
@@ -66,7 +66,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableLiteral<T, DefaultValue>& MovableLiteral<T, DefaultValue>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
@@ -132,7 +132,7 @@ namespace Nz
 	template<typename U, typename>
 	constexpr MovableValue<T>& MovableValue<T>::operator=(U&& value)
 	{
-		m_value = std::move(value);
+		m_value = std::forward<U>(value);
 		return *this;
 	}
 
-- 
2.43.0


From 8dc94f6c62b2fac4e3a8c8de2d1cdaf07345c6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 42/90] fix: a moved CallOnExit still called its function

---
 include/NazaraUtils/CallOnExit.hpp |  2 +-
 include/NazaraUtils/CallOnExit.inl | 22 ++++++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/CallOnExit.hpp b/include/NazaraUtils/CallOnExit.hpp
index d35a314..aed3e51 100644
--- a/include/NazaraUtils/CallOnExit.hpp
+++ b/include/NazaraUtils/CallOnExit.hpp
@@ -28,7 +28,7 @@ namespace Nz
 			void Reset();
 
 			CallOnExit& operator=(const CallOnExit&) = delete;
-			CallOnExit& operator=(CallOnExit&&) = default;
+			CallOnExit& operator=(CallOnExit&& callOnExit);
 
 		private:
 			std::optional<F> m_functor;
diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index f8f60a3..9c9ea36 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -55,5 +55,27 @@ namespace Nz
 	{
 		m_functor.reset();
 	}
+
+	/*!
+	* \brief Replaces the function by the one of another CallOnExit, which won't call it anymore
+	* \return A reference to this
+	*
+	* \param callOnExit CallOnExit to move in this
+	*/
+	template<typename F>
+	CallOnExit<F>& CallOnExit<F>::operator=(CallOnExit&& callOnExit)
+	{
+		if (this == &callOnExit)
+			return *this;
+
+		m_functor.reset();
+		if (callOnExit.m_functor)
+		{
+			m_functor.emplace(std::move(*callOnExit.m_functor));
+			callOnExit.m_functor.reset();
+		}
+
+		return *this;
+	}
 }
 
-- 
2.43.0


From 5ffc3994c0a6233abe48452d9494f9fb7820ec63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 43/90] fix: CallOnExit::CallAndReset called its function again
 if it threw

---
 include/NazaraUtils/CallOnExit.inl | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/CallOnExit.inl b/include/NazaraUtils/CallOnExit.inl
index 9c9ea36..7ecff6a 100644
--- a/include/NazaraUtils/CallOnExit.inl
+++ b/include/NazaraUtils/CallOnExit.inl
@@ -39,10 +39,14 @@ namespace Nz
 	template<typename F>
 	void CallOnExit<F>::CallAndReset()
 	{
-		if (m_functor)
-			(*m_functor)();
+		if (!m_functor)
+			return;
 
+		// Reset before calling the function, so that it won't be called again if it throws
+		F functor(std::move(*m_functor));
 		m_functor.reset();
+
+		functor();
 	}
 
 	/*!
-- 
2.43.0


From 846e0a24448a58702265954f145db065cfd865ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 44/90] fix: FunctionRef of a function returning void could not
 reference a functor returning a value

---
 include/NazaraUtils/FunctionRef.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index 13bdb6f..be3de81 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -21,7 +21,10 @@ namespace Nz
 		m_functor = reinterpret_cast<void*>(std::addressof(f));
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
-			return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			if constexpr (std::is_void_v<Ret>)
+				std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
+			else
+				return std::invoke(*reinterpret_cast<decltype(std::addressof(f))>(functor), std::forward<Args>(args)...);
 		};
 	}
 	
-- 
2.43.0


From eced9aa1e20e7edf40fa9c5729f0ab9c9825183d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:21 +0000
Subject: [PATCH 45/90] fix: FunctionRef could not reference a const functor

---
 include/NazaraUtils/FunctionRef.inl | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FunctionRef.inl b/include/NazaraUtils/FunctionRef.inl
index be3de81..afce210 100644
--- a/include/NazaraUtils/FunctionRef.inl
+++ b/include/NazaraUtils/FunctionRef.inl
@@ -18,7 +18,11 @@ namespace Nz
 	template<typename F, typename>
 	FunctionRef<Ret(Args...)>::FunctionRef(F&& f) noexcept
 	{
-		m_functor = reinterpret_cast<void*>(std::addressof(f));
+		if constexpr (std::is_function_v<std::remove_reference_t<F>>)
+			m_functor = reinterpret_cast<void*>(std::addressof(f));
+		else
+			m_functor = const_cast<void*>(static_cast<const volatile void*>(std::addressof(f)));
+
 		m_callback = [](void* functor, Args... args) -> Ret
 		{
 			if constexpr (std::is_void_v<Ret>)
-- 
2.43.0


From a5e944e58e4a3b2f4635eb63496865fbf13565bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 46/90] fix: Flags of enumerations with more than 32 flags
 shifted a 32-bit integer out of its range

---
 include/NazaraUtils/Flags.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index 33632b0..d71139d 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -283,7 +283,7 @@ namespace Nz
 	constexpr auto Flags<E>::GetFlagValue(E enumValue) -> BitField
 	{
 		if constexpr (AutoFlag)
-			return 1U << static_cast<BitField>(enumValue);
+			return static_cast<BitField>(BitField(1) << static_cast<BitField>(enumValue));
 		else
 			return static_cast<BitField>(enumValue);
 	}
@@ -332,7 +332,7 @@ namespace Nz
 		if constexpr (AutoFlag)
 			return static_cast<T>(bitIndex - 1);
 		else
-			return static_cast<T>(1U << ((bitIndex) - 1));
+			return static_cast<T>(BitField(1) << (bitIndex - 1));
 	}
 
 	/*!
-- 
2.43.0


From ed79115f2f24ceeb6191e1e7957224fb868b7eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 47/90] fix: Flags mask was wrong for enumerations whose values
 are bits, and for 64 flags

---
 include/NazaraUtils/Flags.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index a7b773a..760845c 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -97,7 +97,16 @@ namespace Nz
 
 			static constexpr BitField GetFlagValue(E enumValue);
 
-			static constexpr BitField ValueMask = BitField((UInt64(1) << (MaxValue + 1)) - 1);
+			static constexpr BitField ValueMask = []
+			{
+				// The last flag is the bit MaxValue, or the highest bit of MaxValue if enumeration values are bits themselves
+				UInt64 lastFlag = (AutoFlag) ? UInt64(1) << MaxValue : UInt64(MaxValue);
+				UInt64 mask = lastFlag;
+				for (unsigned int shift = 1; shift < 64; shift *= 2)
+					mask |= mask >> shift;
+
+				return static_cast<BitField>(mask);
+			}();
 
 		private:
 			BitField m_value;
-- 
2.43.0


From 5644145d5600cdc45004b9f9919d31245d503723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 48/90] fix: the std::hash of Flags could not be used by
 standard containers

---
 include/NazaraUtils/Flags.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Flags.inl b/include/NazaraUtils/Flags.inl
index d71139d..663c6fb 100644
--- a/include/NazaraUtils/Flags.inl
+++ b/include/NazaraUtils/Flags.inl
@@ -451,7 +451,7 @@ namespace std
 	template<typename E>
 	struct hash<Nz::Flags<E>>
 	{
-		std::size_t operator()(const Nz::Flags<E>& flags)
+		std::size_t operator()(const Nz::Flags<E>& flags) const
 		{
 			using UnderlyingType = typename Nz::Flags<E>::BitField;
 			using Hasher = hash<UnderlyingType>;
-- 
2.43.0


From 5fa902dc2656fd6d3bebad19ee3ad5c99b9bab04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:21 +0000
Subject: [PATCH 49/90] fix: EnumArray key-value iterators could not be moved
 by an offset

---
 include/NazaraUtils/EnumArray.hpp | 11 +++++++----
 include/NazaraUtils/EnumArray.inl | 19 +++++++++++++------
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index 387959c..de336dd 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -62,6 +62,8 @@ namespace Nz
 			using iterator_category = std::random_access_iterator_tag;
 			using value_type = std::pair<E, std::conditional_t<Const, const V&, V&>>;
 			using difference_type = typename Array::difference_type;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr EnumArrayKvIterator(kv_tag arrayTag, difference_type index);
 			EnumArrayKvIterator(const EnumArrayKvIterator&) = default;
@@ -76,11 +78,12 @@ namespace Nz
 			constexpr EnumArrayKvIterator operator--(int) noexcept;
 			constexpr EnumArrayKvIterator& operator--() noexcept;
 
-			constexpr EnumArrayKvIterator operator+(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator operator+(difference_type n) const noexcept;
+			constexpr EnumArrayKvIterator operator-(difference_type n) const noexcept;
+			constexpr difference_type operator-(const EnumArrayKvIterator& rhs) const noexcept;
 
-			constexpr EnumArrayKvIterator operator+=(difference_type n) noexcept;
-			constexpr EnumArrayKvIterator operator-=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator+=(difference_type n) noexcept;
+			constexpr EnumArrayKvIterator& operator-=(difference_type n) noexcept;
 
 			constexpr value_type operator*() const noexcept;
 			constexpr value_type operator[](difference_type n) const noexcept;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index d7bad3e..bcaf2f0 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -96,26 +96,33 @@ namespace Nz
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index + n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index + n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(difference_type n) const noexcept -> EnumArrayKvIterator
 	{
-		return EnumArrayKvIterator(m_array, m_index - n);
+		return EnumArrayKvIterator(kv_tag{ m_array }, m_index - n);
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-(const EnumArrayKvIterator& rhs) const noexcept -> difference_type
+	{
+		assert(m_array == rhs.m_array);
+		return m_index - rhs.m_index;
+	}
+
+	template<typename E, typename V, bool Const>
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator+=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index += n;
 		return *this;
 	}
 
 	template<typename E, typename V, bool Const>
-	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator
+	constexpr auto EnumArrayKvIterator<E, V, Const>::operator-=(difference_type n) noexcept -> EnumArrayKvIterator&
 	{
 		m_index -= n;
 		return *this;
-- 
2.43.0


From 2fb36b2ae9469ff4de19f4d85bfc43b913652191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 50/90] fix: IntegralLog2 ignored the 33th bit of 64 bits
 numbers

---
 include/NazaraUtils/MathUtils.inl | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 87ec435..2ea950b 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -67,12 +67,11 @@ namespace Nz
 			{
 				// The 32 bits mask on the part we are treating
 				T mask = T(std::numeric_limits<UInt32>::max()) << i * 8;
-				T val = (number & mask) >> i * 8; // Masking and shifting bits to the right (to bring it back to 32 bits)
+				UInt32 val = static_cast<UInt32>((number & mask) >> i * 8); // Masking and shifting bits to the right (to bring it back to 32 bits)
 
-				// Call of the function with 32 bits number, if the result is non-null we have our answer
-				unsigned int log2 = IntegralLog2<UInt32>(static_cast<UInt32>(val));
-				if (log2)
-					return log2 + i * 8;
+				// If this part is non-null it gives us our answer (its log can be zero)
+				if (val != 0)
+					return IntegralLog2<UInt32>(val) + i * 8;
 			}
 
 			return 0;
-- 
2.43.0


From 7c8d8b5191d037fc6fa823ff198acdbe8993a3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 51/90] fix: CountBits counted sign extension bits of negative
 values, and overflowed on the minimum value

---
 include/NazaraUtils/MathUtils.inl | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 2ea950b..0e66873 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -318,43 +318,46 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<T>);
 
+		// Work on the unsigned value, as sign extension would add bits
+		auto unsignedVal = static_cast<std::make_unsigned_t<T>>(value);
+
 		if NAZARA_IS_RUNTIME_EVAL()
 		{
 #if defined(NAZARA_COMPILER_MSVC) && (defined(NAZARA_ARCH_x86) || defined(NAZARA_ARCH_x86_64))
 			if constexpr (std::is_same_v<std::make_unsigned_t<T>, unsigned __int64>)
 			{
 #ifdef NAZARA_ARCH_x86_64
-				return __popcnt64(static_cast<unsigned __int64>(value));
+				return __popcnt64(static_cast<unsigned __int64>(unsignedVal));
 #else
-				return __popcnt(static_cast<unsigned int>(value >> 32)) +
-				       __popcnt(static_cast<unsigned int>(value));
+				return __popcnt(static_cast<unsigned int>(unsignedVal >> 32)) +
+				       __popcnt(static_cast<unsigned int>(unsignedVal));
 #endif
 			}
 			else if constexpr (std::is_same_v<std::make_unsigned_t<T>, unsigned int>)
-				return __popcnt(static_cast<unsigned int>(value));
+				return __popcnt(static_cast<unsigned int>(unsignedVal));
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned short));
-				return __popcnt16(static_cast<unsigned short>(value));
+				return __popcnt16(static_cast<unsigned short>(unsignedVal));
 			}
 #elif defined(NAZARA_COMPILER_CLANG) || defined(NAZARA_COMPILER_GCC)
 			if constexpr (sizeof(T) == sizeof(unsigned long long))
-				return __builtin_popcountll(static_cast<unsigned long long>(value));
+				return __builtin_popcountll(static_cast<unsigned long long>(unsignedVal));
 			else if constexpr (sizeof(T) == sizeof(unsigned long))
-				return __builtin_popcountl(static_cast<unsigned long>(value));
+				return __builtin_popcountl(static_cast<unsigned long>(unsignedVal));
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(unsigned int));
-				return __builtin_popcount(static_cast<unsigned int>(value));
+				return __builtin_popcount(static_cast<unsigned int>(unsignedVal));
 			}
 #endif
 		}
 
 		// https://graphics.stanford.edu/~seander/bithacks.html#CountBitsSetKernighan
 		std::size_t count = 0;
-		while (value)
+		while (unsignedVal)
 		{
-			value &= value - 1;
+			unsignedVal &= unsignedVal - 1;
 			count++;
 		}
 
-- 
2.43.0


From 61167e8fe18904eb08603c99e02ac0c8aa7a1526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 52/90] fix: FindLastBit found sign extension bits of negative
 values

---
 include/NazaraUtils/MathUtils.inl | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 0e66873..a12a928 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -427,13 +427,16 @@ NAZARA_WARNING_POP()
 	{
 		static_assert(std::is_integral_v<T>);
 
+		// Work on the unsigned value, as sign extension would add bits
+		auto unsignedVal = static_cast<std::make_unsigned_t<T>>(number);
+
 		if NAZARA_IS_RUNTIME_EVAL()
 		{
 #if defined(NAZARA_COMPILER_MSVC)
 			if constexpr (sizeof(T) <= sizeof(unsigned long))
 			{
 				unsigned long index = 0;
-				if (_BitScanReverse(&index, number) != 0)
+				if (_BitScanReverse(&index, unsignedVal) != 0)
 					return index + 1;
 				else
 					return 0;
@@ -442,39 +445,37 @@ NAZARA_WARNING_POP()
 			{
 #if defined(NAZARA_ARCH_aarch64) || defined(NAZARA_ARCH_x86_64)
 				unsigned long index = 0;
-				if (_BitScanReverse64(&index, number) != 0)
+				if (_BitScanReverse64(&index, unsignedVal) != 0)
 					return index + 1;
 				else
 					return 0;
 #else
 				unsigned long index = 0;
-				if (_BitScanReverse(&index, SafeCast<unsigned long>(number >> 32)) != 0)
+				if (_BitScanReverse(&index, SafeCast<unsigned long>(unsignedVal >> 32)) != 0)
 					return index + 33;
 
-				if (_BitScanReverse(&index, SafeCast<unsigned long>(number & 0xFFFFFFFF)) != 0)
+				if (_BitScanReverse(&index, SafeCast<unsigned long>(unsignedVal & 0xFFFFFFFF)) != 0)
 					return index + 1;
 				else
 					return 0;
 #endif
 			}
 #elif defined(NAZARA_COMPILER_CLANG) || defined(NAZARA_COMPILER_GCC)
-			if (number == 0)
+			if (unsignedVal == 0)
 				return 0;
 
 			if constexpr (sizeof(T) == sizeof(long long))
-				return BitCount<T> - __builtin_clzll(static_cast<unsigned long long>(number));
+				return BitCount<T> - __builtin_clzll(static_cast<unsigned long long>(unsignedVal));
 			else if constexpr (sizeof(T) == sizeof(long))
-				return BitCount<T> - __builtin_clzl(static_cast<unsigned long>(number));
+				return BitCount<T> - __builtin_clzl(static_cast<unsigned long>(unsignedVal));
 			else
 			{
 				static_assert(sizeof(T) <= sizeof(int));
-				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(number));
+				return BitCount<unsigned int> - __builtin_clz(static_cast<unsigned int>(unsignedVal));
 			}
 #endif
 		}
 
-		auto unsignedVal = static_cast<std::make_unsigned_t<T>>(number);
-
 		unsigned int pos = 0;
 		if constexpr (BitCount<T> > 32)
 		{
-- 
2.43.0


From 6c5ddd6852564688986d9bdf07a03d7417d2032a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 53/90] fix: ReverseBits of signed types shifted negative
 values

---
 include/NazaraUtils/MathUtils.inl | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index a12a928..1f60ebf 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -502,11 +502,13 @@ NAZARA_WARNING_POP()
 	template<NAZARA_STD_CONCEPT_T(std::integral) T>
 	[[nodiscard]] constexpr T ReverseBits(T integer) noexcept
 	{
-		T reversed = 0;
+		using UnsignedT = std::make_unsigned_t<T>; //< shifting negative values is only allowed since C++20
+
+		UnsignedT reversed = 0;
 		for (std::size_t i = 0; i < sizeof(T); ++i)
-			reversed |= T(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
+			reversed |= UnsignedT(Detail::s_BitReverseTable256[(integer >> i * 8) & 0xFF]) << (sizeof(T) * 8 - (i + 1) * 8);
 
-		return reversed;
+		return static_cast<T>(reversed);
 	}
 
 	/*!
-- 
2.43.0


From 7d3808f1f09d870713e2bac450273ea34b9db243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 54/90] fix: SwapBytes of an empty buffer swapped bytes out of
 it

---
 include/NazaraUtils/MathUtils.inl | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 1f60ebf..ec1ba5d 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -540,6 +540,9 @@ NAZARA_WARNING_POP()
 	inline void SwapBytes(void* buffer, std::size_t size) noexcept
 	{
 		UInt8* bytes = static_cast<UInt8*>(buffer);
+		if (size == 0)
+			return;
+
 		std::size_t i = 0;
 		std::size_t j = size - 1;
 
-- 
2.43.0


From 444f455e5876da054c5262db50adec2b3819ee8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 55/90] fix: NumberEquals was wrong for distant small signed
 integers, and not usable in C++17 constant expressions

---
 include/NazaraUtils/MathUtils.inl | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index ec1ba5d..0651b94 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -114,30 +114,25 @@ namespace Nz
 			}
 			else
 			{
-				if (b > a)
-					std::swap(a, b);
-
-				T diff = a - b;
+				T diff = (b > a) ? b - a : a - b;
 				return diff <= maxDifference;
 			}
 		}
 
 		template<typename T> constexpr std::enable_if_t<!std::is_signed<T>::value || (!std::is_integral<T>::value && !std::is_floating_point<T>::value), bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
-			T diff = a - b;
+			T diff = (b > a) ? b - a : a - b;
 			return diff <= maxDifference;
 		}
 
 		template<typename T> constexpr std::enable_if_t<std::is_signed<T>::value&& std::is_integral<T>::value, bool> NumberEquals(T a, T b, T maxDifference)
 		{
-			if (b > a)
-				std::swap(a, b);
-
+			// The difference may only be representable as an unsigned value (of the same size, because of the integer promotion)
 			using UnsignedT = std::make_unsigned_t<T>;
-			return static_cast<UnsignedT>(a) - static_cast<UnsignedT>(b) <= static_cast<UnsignedT>(maxDifference);
+			UnsignedT unsignedA = static_cast<UnsignedT>(a);
+			UnsignedT unsignedB = static_cast<UnsignedT>(b);
+			UnsignedT diff = static_cast<UnsignedT>((b > a) ? unsignedB - unsignedA : unsignedA - unsignedB);
+			return diff <= static_cast<UnsignedT>(maxDifference);
 		}
 	}
 
-- 
2.43.0


From f42269c1d69b1f50a959792a15c85dc5b960eafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 56/90] fix: Align overflowed for offsets near the maximum
 value, and skipped multiples for negative offsets

---
 include/NazaraUtils/MathUtils.inl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 0651b94..97a853c 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -594,7 +594,12 @@ NAZARA_WARNING_POP()
 	[[nodiscard]] constexpr T Align(T offset, T alignment) noexcept
 	{
 		NazaraAssert(alignment > 0);
-		return ((offset + alignment - 1) / alignment) * alignment;
+
+		T remainder = offset % alignment;
+		if (remainder > 0)
+			return static_cast<T>(offset + (alignment - remainder));
+		else
+			return static_cast<T>(offset - remainder);
 	}
 
 	/*!
-- 
2.43.0


From 592f5c390f8177c80b5620fd22c29f94c4ddf675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 57/90] fix: Approach overflowed past the objective, and did
 not compile for small integers

---
 include/NazaraUtils/MathUtils.inl | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 97a853c..965de6c 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -633,12 +633,32 @@ NAZARA_WARNING_POP()
 	template<typename T>
 	[[nodiscard]] constexpr T Approach(T value, T objective, T increment) noexcept
 	{
-		if (value < objective)
-			return std::min(value + increment, objective);
-		else if (value > objective)
-			return std::max(value - increment, objective);
+		if constexpr (std::is_integral_v<T>)
+		{
+			// Compare the increment to the remaining distance, as stepping over the objective could overflow
+			using UnsignedT = std::make_unsigned_t<T>;
+			if (value < objective)
+			{
+				UnsignedT distance = static_cast<UnsignedT>(static_cast<UnsignedT>(objective) - static_cast<UnsignedT>(value));
+				return (increment > 0 && static_cast<UnsignedT>(increment) >= distance) ? objective : static_cast<T>(value + increment);
+			}
+			else if (value > objective)
+			{
+				UnsignedT distance = static_cast<UnsignedT>(static_cast<UnsignedT>(value) - static_cast<UnsignedT>(objective));
+				return (increment > 0 && static_cast<UnsignedT>(increment) >= distance) ? objective : static_cast<T>(value - increment);
+			}
+			else
+				return value;
+		}
 		else
-			return value;
+		{
+			if (value < objective)
+				return std::min(value + increment, objective);
+			else if (value > objective)
+				return std::max(value - increment, objective);
+			else
+				return value;
+		}
 	}
 
 	/*!
-- 
2.43.0


From 88fdcb9e92b5d71f49ea5213f5e08cd0be0e7885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:36 +0000
Subject: [PATCH 58/90] fix: Lerp wrapped around when going down between
 unsigned values

---
 include/NazaraUtils/MathUtils.inl | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 965de6c..2d7b762 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -844,6 +844,13 @@ NAZARA_WARNING_POP()
 	template<typename T, typename T2>
 	[[nodiscard]] constexpr T Lerp(const T& from, const T& to, const T2& interpolation) noexcept
 	{
+		if constexpr (std::is_unsigned_v<T>)
+		{
+			// The difference must not wrap around
+			if (to < from)
+				return static_cast<T>(from - interpolation * (from - to));
+		}
+
 		return static_cast<T>(from + interpolation * (to - from));
 	}
 
-- 
2.43.0


From 1a8b1e69ac70cc3e7d7e9003abe773d85c5db7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:15 +0000
Subject: [PATCH 59/90] fix: AlignPow2 overflowed for offsets near the maximum
 value

---
 include/NazaraUtils/MathUtils.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index 2d7b762..a638b2f 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -618,7 +618,7 @@ NAZARA_WARNING_POP()
 	{
 		NazaraAssert(alignment > 0);
 		NazaraAssert(IsPow2(alignment));
-		return (offset + alignment - 1) & ~(alignment - 1);
+		return static_cast<T>((offset + (alignment - 1)) & ~(alignment - 1));
 	}
 
 	/*!
-- 
2.43.0


From 6be411468612add34191d1697cb13d81baddf71a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:49 +0000
Subject: [PATCH 60/90] fix: long double constants had the precision of double

---
 include/NazaraUtils/Constants.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index 51f71b3..d29d969 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -47,37 +47,37 @@ namespace Nz
 		static constexpr T HalfPi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.5707963267948966192313216916398);
+			return T(1.5707963267948966192313216916398L);
 		}
 
 		static constexpr T Pi()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(3.1415926535897932384626433832795);
+			return T(3.1415926535897932384626433832795L);
 		}
 
 		static constexpr T Sqrt2()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.4142135623730950488016887242097);
+			return T(1.4142135623730950488016887242097L);
 		}
 
 		static constexpr T Sqrt3()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(1.7320508075688772935274463415059);
+			return T(1.7320508075688772935274463415059L);
 		}
 
 		static constexpr T Sqrt5()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(2.2360679774997896964091736687313);
+			return T(2.2360679774997896964091736687313L);
 		}
 
 		static constexpr T Tau()
 		{
 			static_assert(std::is_floating_point_v<T>);
-			return T(6.2831853071795864769252867665590);
+			return T(6.2831853071795864769252867665590L);
 		}
 	};
 
-- 
2.43.0


From 6124473f1b0ceec1324fa8a02dcbcb9cc026f924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 61/90] fix: FNV1a of strings sign-extended bytes above 127 and
 differed from the FNV1a of the same bytes

---
 include/NazaraUtils/Hash.inl | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 5414680..8f6104e 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -147,7 +147,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -160,7 +160,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt32(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_32;
 		}
 
@@ -199,7 +199,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; str[i]; ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
@@ -212,7 +212,7 @@ NAZARA_WARNING_POP()
 
 		for (std::size_t i = 0u; i < str.size(); ++i)
 		{
-			hash ^= UInt64(str[i]);
+			hash ^= static_cast<UInt8>(str[i]);
 			hash *= Detail::FNV1Prime_64;
 		}
 
-- 
2.43.0


From c6d3a3b7b2da349ac9cad044b1b12d8e5c5e72d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 62/90] fix: SparsePtr offsets wrapped around with unsigned
 indices and negative strides, or offsets of 2GB and more

---
 include/NazaraUtils/SparsePtr.inl | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index e8d3d01..0111ea6 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -250,7 +250,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "index must be an integral type");
 
-		return *reinterpret_cast<T*>(m_ptr + index * m_stride);
+		return *reinterpret_cast<T*>(m_ptr + static_cast<std::ptrdiff_t>(index) * m_stride);
 	}
 
 	/*!
@@ -266,7 +266,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr + count * m_stride, m_stride);
+		return SparsePtr(m_ptr + static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -282,7 +282,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		return SparsePtr(m_ptr - count * m_stride, m_stride);
+		return SparsePtr(m_ptr - static_cast<std::ptrdiff_t>(count) * m_stride, m_stride);
 	}
 
 	/*!
@@ -311,7 +311,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr += count * m_stride;
+		m_ptr += static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
@@ -321,7 +321,7 @@ namespace Nz
 	{
 		static_assert(std::is_integral_v<U>, "count must be an integral type");
 
-		m_ptr -= count * m_stride;
+		m_ptr -= static_cast<std::ptrdiff_t>(count) * m_stride;
 		return *this;
 	}
 
-- 
2.43.0


From 4e8a47da499b058e6c1052af56c976e8cbe57ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 63/90] fix: converting a SparsePtr to a base class type did
 not adjust the pointer

---
 include/NazaraUtils/SparsePtr.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 0111ea6..5845f43 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -165,7 +165,7 @@ namespace Nz
 	{
 		static_assert(std::is_convertible<U*, T*>::value, "Source type pointer cannot be implicitly converted to target type pointer");
 
-		SetPtr(static_cast<T*>(ptr.GetPtr()));
+		SetPtr(static_cast<T*>(static_cast<U*>(ptr))); //< may adjust the pointer
 		SetStride(ptr.GetStride());
 	}
 
-- 
2.43.0


From 021f1cb558d5bc8aacd35441e567cab2d7f00a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:36 +0000
Subject: [PATCH 64/90] fix: std::iterator_traits of SparsePtr gave types which
 are not those of its elements

---
 include/NazaraUtils/SparsePtr.inl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/SparsePtr.inl b/include/NazaraUtils/SparsePtr.inl
index 5845f43..b837c70 100644
--- a/include/NazaraUtils/SparsePtr.inl
+++ b/include/NazaraUtils/SparsePtr.inl
@@ -472,9 +472,9 @@ namespace std
 	{
 		using difference_type = ptrdiff_t;
 		using iterator_category = random_access_iterator_tag;
-		using reference = const T&;
-		using pointer = const T*;
-		using value_type = T;
+		using reference = T&;
+		using pointer = T*;
+		using value_type = remove_cv_t<T>;
 	};
 }
 
-- 
2.43.0


From deb2b337a9ab4493fb27174a1772b207601045e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 65/90] fix: SafeCast did not check lvalues

---
 include/NazaraUtils/Algorithm.inl | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7430b47..fe0d0cf 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -198,25 +198,27 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 	[[nodiscard]] NAZARA_CONSTEXPR20 To SafeCast(From&& value) noexcept
 	{
 #if defined(NAZARA_DEBUG) && !defined(NDEBUG)
+		// From is a reference type when value is a lvalue
+		using FromType = std::remove_cv_t<std::remove_reference_t<From>>;
 
 		if constexpr (std::is_integral_v<To>)
 		{
-			if constexpr (std::is_enum_v<From>)
+			if constexpr (std::is_enum_v<FromType>)
 			{
-				return SafeCast<To>(static_cast<std::underlying_type_t<From>>(value));
+				return SafeCast<To>(static_cast<std::underlying_type_t<FromType>>(value));
 			}
-			else if constexpr (std::is_floating_point_v<From>)
+			else if constexpr (std::is_floating_point_v<FromType>)
 			{
 				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<From>(std::numeric_limits<To>::max()));
-				NazaraAssert(value >= static_cast<From>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(value <= static_cast<FromType>(std::numeric_limits<To>::max()));
+				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
 			}
-			else if constexpr (std::is_integral_v<From>)
+			else if constexpr (std::is_integral_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<From> && std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<((std::is_signed_v<From> && !std::is_signed_v<To>) || (std::is_signed_v<From> == std::is_signed_v<To> && sizeof(From) > sizeof(To))), From, To>;
+				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
 				if constexpr (!std::is_signed_v<To>)
 					NazaraAssert(value >= 0);
@@ -231,12 +233,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_floating_point_v<To>)
 		{
-			if constexpr (std::is_floating_point_v<From>)
+			if constexpr (std::is_floating_point_v<FromType>)
 			{
 				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MaxValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 				// Type capable of storing the smallest value between the two types
-				using MinValueType = std::conditional_t<(sizeof(From) > sizeof(To)), From, To>;
+				using MinValueType = std::conditional_t<(sizeof(FromType) > sizeof(To)), FromType, To>;
 
 				NazaraAssert(static_cast<MaxValueType>(value) <= static_cast<MaxValueType>(std::numeric_limits<To>::max()));
 				NazaraAssert(static_cast<MinValueType>(value) >= static_cast<MinValueType>(std::numeric_limits<To>::lowest()));
-- 
2.43.0


From a3b4e393a1be00565be0806abed0b83865c4eaa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 66/90] fix: SafeCast accepted signed values too big for a
 smaller unsigned type, and values other than 0 and 1 for booleans

---
 include/NazaraUtils/Algorithm.inl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index fe0d0cf..7790c18 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -215,8 +215,8 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_integral_v<FromType>)
 			{
-				// Type capable of storing the biggest value between the two types
-				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
+				// Type capable of storing the biggest value between the two types (negative values have been excluded when To is unsigned)
+				using MaxValueType = std::conditional_t<((!std::is_signed_v<FromType> && std::is_signed_v<To>) || sizeof(FromType) > sizeof(To) || std::is_same_v<std::remove_cv_t<To>, bool>), FromType, To>;
 				// Type capable of storing the smallest value between the two types
 				using MinValueType = std::conditional_t<((std::is_signed_v<FromType> && !std::is_signed_v<To>) || (std::is_signed_v<FromType> == std::is_signed_v<To> && sizeof(FromType) > sizeof(To))), FromType, To>;
 
-- 
2.43.0


From 2a38f6b6cf096722c929c2481e4307848330ec15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 67/90] fix: SafeCast from floating point accepted the power of
 two following the maximum value, and refused integers between 2^63 and 2^64

---
 include/NazaraUtils/Algorithm.inl | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 7790c18..1f6578a 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -209,9 +209,12 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 			}
 			else if constexpr (std::is_floating_point_v<FromType>)
 			{
-				NazaraAssert(static_cast<long long>(value) == value);
-				NazaraAssert(value <= static_cast<FromType>(std::numeric_limits<To>::max()));
+				// The maximum value may not be representable by a floating point type, but the power of two following it is
+				[[maybe_unused]] constexpr FromType upperLimit = static_cast<FromType>(std::numeric_limits<To>::max() / 2 + 1) * 2;
+
+				NazaraAssert(value < upperLimit);
 				NazaraAssert(value >= static_cast<FromType>(std::numeric_limits<To>::lowest()));
+				NazaraAssert(static_cast<FromType>(static_cast<To>(value)) == value);
 			}
 			else if constexpr (std::is_integral_v<FromType>)
 			{
-- 
2.43.0


From f530921a99ae2adf3d400b6fadfb92b855f378ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 68/90] fix: SafeCast never checked the dynamic type of the
 objects

---
 include/NazaraUtils/Algorithm.inl | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 1f6578a..5bbfa5f 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -249,28 +249,28 @@ NAZARA_WARNING_MSVC_DISABLE(4702)
 		}
 		else if constexpr (std::is_reference_v<To>)
 		{
-			if constexpr (std::is_reference_v<From>)
-			{
-				using BaseFromType = std::remove_reference_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_reference_t<std::remove_cv_t<To>>;
+			using BaseToType = std::remove_cv_t<std::remove_reference_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+			if constexpr (!std::is_same_v<FromType, BaseToType> && std::is_base_of_v<FromType, BaseToType>)
+			{
+				if constexpr (std::is_polymorphic_v<FromType>)
 				{
 					using ToPtr = std::add_pointer_t<std::remove_reference_t<To>>;
-					NazaraAssert(dynamic_cast<ToPtr>(&value) != nullptr);
+					NazaraAssert(dynamic_cast<ToPtr>(std::addressof(value)) != nullptr);
 				}
 			}
 		}
 		else if constexpr (std::is_pointer_v<To>)
 		{
-			if constexpr (std::is_pointer_v<From>)
+			if constexpr (std::is_pointer_v<FromType>)
 			{
-				using BaseFromType = std::remove_pointer_t<std::remove_cv_t<From>>;
-				using BaseToType = std::remove_pointer_t<std::remove_cv_t<To>>;
+				using BaseFromType = std::remove_cv_t<std::remove_pointer_t<FromType>>;
+				using BaseToType = std::remove_cv_t<std::remove_pointer_t<To>>;
 
-				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<From, To> && std::is_polymorphic_v<From>)
+				if constexpr (!std::is_same_v<BaseFromType, BaseToType> && std::is_base_of_v<BaseFromType, BaseToType>)
 				{
-					NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
+					if constexpr (std::is_polymorphic_v<BaseFromType>)
+						NazaraAssert(!value || dynamic_cast<To>(value) != nullptr);
 				}
 			}
 		}
-- 
2.43.0


From 26d4227ba689d7df16f37f2a718690a43eebfea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:20 +0000
Subject: [PATCH 69/90] fix: NazaraAssert took the else branch of the
 surrounding if

---
 include/NazaraUtils/Assert.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/NazaraUtils/Assert.hpp b/include/NazaraUtils/Assert.hpp
index 23c3a10..f788308 100644
--- a/include/NazaraUtils/Assert.hpp
+++ b/include/NazaraUtils/Assert.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/ConstantEvaluated.hpp>
 
 #if !defined(NAZARA_NO_ASSERT) && (defined(NAZARA_ENABLE_ASSERTS) || !defined(NDEBUG))
-	#define NazaraAssert(cond) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond)
-	#define NazaraAssertMsg(cond, ...) if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__)
+	#define NazaraAssert(cond) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, #cond); } while (false)
+	#define NazaraAssertMsg(cond, ...) do { if NAZARA_UNLIKELY(!(cond)) Nz::AssertFailureWithSource(__FILE__, __LINE__, __VA_ARGS__); } while (false)
 #else
 	#define NazaraAssert(...) do {} while (false)
 	#define NazaraAssertMsg(...) do {} while (false)
-- 
2.43.0


From 64bdae7a014877b69fcab90975fb3d872ead5da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:25 +0000
Subject: [PATCH 70/90] fix: hash functors could not be used by standard
 containers

---
 include/NazaraUtils/Hash.hpp | 8 ++++----
 include/NazaraUtils/Hash.inl | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Hash.hpp b/include/NazaraUtils/Hash.hpp
index 20290e9..a9d01a2 100644
--- a/include/NazaraUtils/Hash.hpp
+++ b/include/NazaraUtils/Hash.hpp
@@ -18,7 +18,7 @@ namespace Nz
 	template<typename T>
 	struct HashFunctor
 	{
-		template<typename... Args> std::size_t operator()(Args&&... args);
+		template<typename... Args> std::size_t operator()(Args&&... args) const;
 	};
 
 	// Cyclic Redundancy Check (CRC) - 32bits
@@ -29,7 +29,7 @@ namespace Nz
 
 	struct CRC32Hash
 	{
-		template<typename... Args> UInt32 operator()(Args&&... args);
+		template<typename... Args> UInt32 operator()(Args&&... args) const;
 	};
 
 	// Fowler–Noll–Vo (FNV) 1a - 32bits
@@ -40,7 +40,7 @@ namespace Nz
 
 	struct FNV1a32Hash
 	{
-		template<typename... Args> UInt32 operator()(Args&&... args);
+		template<typename... Args> UInt32 operator()(Args&&... args) const;
 	};
 
 	// Fowler–Noll–Vo (FNV) 1a - 64bits
@@ -51,7 +51,7 @@ namespace Nz
 
 	struct FNV1a64Hash
 	{
-		template<typename... Args> UInt64 operator()(Args&&... args);
+		template<typename... Args> UInt64 operator()(Args&&... args) const;
 	};
 }
 
diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 8f6104e..62b5c64 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -91,7 +91,7 @@ NAZARA_WARNING_POP()
 
 	template<typename T>
 	template<typename... Args>
-	std::size_t HashFunctor<T>::operator()(Args&&... args)
+	std::size_t HashFunctor<T>::operator()(Args&&... args) const
 	{
 		return static_cast<std::size_t>(T{}(std::forward<Args>(args)...));
 	}
@@ -135,7 +135,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt32 CRC32Hash::operator()(Args&&... args)
+	UInt32 CRC32Hash::operator()(Args&&... args) const
 	{
 		return CRC32(std::forward<Args>(args)...);
 	}
@@ -187,7 +187,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt32 FNV1a32Hash::operator()(Args&&... args)
+	UInt32 FNV1a32Hash::operator()(Args&&... args) const
 	{
 		return FNV1a32(std::forward<Args>(args)...);
 	}
@@ -239,7 +239,7 @@ NAZARA_WARNING_POP()
 	}
 
 	template<typename... Args>
-	UInt64 FNV1a64Hash::operator()(Args&&... args)
+	UInt64 FNV1a64Hash::operator()(Args&&... args) const
 	{
 		return FNV1a64(std::forward<Args>(args)...);
 	}
-- 
2.43.0


From 231e4b24ddc689eef702efeef0529d6a58b25d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:35 +0000
Subject: [PATCH 71/90] fix: hashes of non-const char arrays included the
 null-terminator and what follows

---
 include/NazaraUtils/Hash.inl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Hash.inl b/include/NazaraUtils/Hash.inl
index 62b5c64..ca39ceb 100644
--- a/include/NazaraUtils/Hash.inl
+++ b/include/NazaraUtils/Hash.inl
@@ -131,7 +131,9 @@ NAZARA_WARNING_POP()
 	template<std::size_t N>
 	constexpr UInt32 CRC32(const char(&str)[N]) noexcept
 	{
-		return CRC32(std::string_view(str, N));
+		// Same as a literal: stops at the null-terminator
+		std::string_view view(str, N);
+		return CRC32(view.substr(0, view.find('\0')));
 	}
 
 	template<typename... Args>
@@ -183,7 +185,9 @@ NAZARA_WARNING_POP()
 	template<std::size_t N>
 	constexpr UInt32 FNV1a32(const char(&str)[N]) noexcept
 	{
-		return FNV1a32(std::string_view(str, N));
+		// Same as a literal: stops at the null-terminator
+		std::string_view view(str, N);
+		return FNV1a32(view.substr(0, view.find('\0')));
 	}
 
 	template<typename... Args>
@@ -235,7 +239,9 @@ NAZARA_WARNING_POP()
 	template<std::size_t N>
 	constexpr UInt64 FNV1a64(const char(&str)[N]) noexcept
 	{
-		return FNV1a64(std::string_view(str, N));
+		// Same as a literal: stops at the null-terminator
+		std::string_view view(str, N);
+		return FNV1a64(view.substr(0, view.find('\0')));
 	}
 
 	template<typename... Args>
-- 
2.43.0


From cf5187de0d94179e174a4ef973e01b491c6a5257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 72/90] fix: NazaraOffsetOf of an inherited member gave its
 offset in the base class

---
 include/NazaraUtils/OffsetOf.hpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/NazaraUtils/OffsetOf.hpp b/include/NazaraUtils/OffsetOf.hpp
index a65aa4c..7e2dbe0 100644
--- a/include/NazaraUtils/OffsetOf.hpp
+++ b/include/NazaraUtils/OffsetOf.hpp
@@ -7,6 +7,8 @@
 #ifndef NAZARAUTILS_OFFSETOF_HPP
 #define NAZARAUTILS_OFFSETOF_HPP
 
+#include <cstddef>
+
 // By "Jesse Good" from SO:
 // http://stackoverflow.com/questions/12811330/c-compile-time-offsetof-inside-a-template?answertab=votes#tab-top
 
@@ -14,17 +16,16 @@ namespace Nz
 {
 	namespace Detail
 	{
-		template <typename T, typename M> T GetClassType(M T::*);
-		template <typename T, typename M> M GetMemberType(M T::*);
-
-		template <typename T, typename R, R T::*M>
-		constexpr std::size_t OffsetOf()
+		template <typename T, typename C, typename R>
+		constexpr std::size_t OffsetOf(R C::* classMember)
 		{
-			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*M));
+			// The member may be inherited from a base class, but its offset is the one it has in T
+			R T::* member = classMember;
+			return reinterpret_cast<std::size_t>(&((static_cast<T*>(0))->*member));
 		}
 	}
 }
 
-#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<decltype(Nz::Detail::GetClassType(&type::member)), decltype(Nz::Detail::GetMemberType(&type::member)), &type::member>()
+#define NazaraOffsetOf(type, member) Nz::Detail::OffsetOf<type>(&type::member)
 
 #endif // NAZARAUTILS_OFFSETOF_HPP
-- 
2.43.0


From 11ee75cdc9c653b748edcb15bcf0b2175bbc71dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:40 +0000
Subject: [PATCH 73/90] fix: CountOf of a string literal was declared but not
 defined

---
 include/NazaraUtils/Algorithm.inl | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/include/NazaraUtils/Algorithm.inl b/include/NazaraUtils/Algorithm.inl
index 5bbfa5f..935f48a 100644
--- a/include/NazaraUtils/Algorithm.inl
+++ b/include/NazaraUtils/Algorithm.inl
@@ -145,6 +145,19 @@ namespace Nz
 		return c.size();
 	}
 
+	/*!
+	* \ingroup utils
+	* \brief Returns the number of characters in a string literal
+	* \return The number of characters, null-terminator excluded
+	*
+	* \see CountOf
+	*/
+	template<std::size_t N>
+	[[nodiscard]] constexpr std::size_t CountOf(const char(&)[N]) noexcept
+	{
+		return N - 1;
+	}
+
 	template<typename P, typename T>
 	[[nodiscard]] NAZARA_CONSTEXPR_BITCAST P IntegerToPointer(T ptrAsInt) noexcept
 	{
-- 
2.43.0


From e1441cb7e90b5d42939fd7b58b51614e035b4276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:50 +0000
Subject: [PATCH 74/90] fix: TypeName of long types gave what follows the name
 too

---
 include/NazaraUtils/TypeName.inl | 31 +++++++++++++++----------------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/include/NazaraUtils/TypeName.inl b/include/NazaraUtils/TypeName.inl
index 5081c25..e85c0c5 100644
--- a/include/NazaraUtils/TypeName.inl
+++ b/include/NazaraUtils/TypeName.inl
@@ -3,30 +3,29 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 // Put the implementation in the global scope to avoid compilers (like GCC) stripping the namespace (Nz::TypeName<Nz::Type>() returning "Type" instead of "Nz::Type")
+template<typename T>
+constexpr std::string_view NzDetailFunctionSignature()
+{
+	return NAZARA_PRETTY_FUNCTION;
+}
+
 template<typename T>
 constexpr std::string_view NzDetailTypeName()
 {
 	using namespace std::string_view_literals;
 
-	constexpr std::string_view prettyFuncName = NAZARA_PRETTY_FUNCTION;
-
-#ifdef NAZARA_COMPILER_MSVC
-	constexpr std::string_view prefix = "NzDetailTypeName<"sv;
-	constexpr std::string_view suffixes = ">"sv;
-#else
-	constexpr std::string_view prefix = "T = "sv;
-	constexpr std::string_view suffixes = ";]"sv;
-#endif
-
-	constexpr std::size_t b = prettyFuncName.find(prefix);
-	static_assert(b != prettyFuncName.npos);
+	// What surrounds the type name depends on the compiler but not on the type (which may be of any length and contain any symbol), find it using a known type
+	constexpr std::string_view refName = "double"sv;
+	constexpr std::string_view refSignature = NzDetailFunctionSignature<double>();
+	constexpr std::size_t prefixSize = refSignature.find(refName);
+	static_assert(prefixSize != refSignature.npos);
 
-	constexpr std::size_t e = prettyFuncName.substr(b).find_last_of(suffixes, b) + b;
-	static_assert(e != prettyFuncName.npos);
+	constexpr std::size_t suffixSize = refSignature.size() - prefixSize - refName.size();
 
-	std::size_t p = b + prefix.size();
+	constexpr std::string_view signature = NzDetailFunctionSignature<T>();
+	static_assert(signature.size() > prefixSize + suffixSize);
 
-	std::string_view typeName = prettyFuncName.substr(p, e - p);
+	std::string_view typeName = signature.substr(prefixSize, signature.size() - prefixSize - suffixSize);
 
 #ifdef NAZARA_COMPILER_MSVC
 	// strip first-level class/struct in front of the type
-- 
2.43.0


From b34face1595cdc0942c20af869350e195f71f301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:11 +0000
Subject: [PATCH 75/90] fix: FunctionTraits of a noexcept function did not
 compile

---
 include/NazaraUtils/FunctionTraits.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/NazaraUtils/FunctionTraits.hpp b/include/NazaraUtils/FunctionTraits.hpp
index e5402ec..367c39f 100644
--- a/include/NazaraUtils/FunctionTraits.hpp
+++ b/include/NazaraUtils/FunctionTraits.hpp
@@ -39,6 +39,9 @@ namespace Nz
 		using ArgType = typename Arg<I>::type;
 	};
 
+	template<typename Ret, typename... Args>
+	struct FunctionTraits<Ret(Args...) noexcept> : FunctionTraits<Ret(Args...)> {};
+
 	template<typename Ret, typename... Args>
 	struct FunctionTraits<Ret(*)(Args...)> : FunctionTraits<Ret(Args...)> {};
 
-- 
2.43.0


From 76d362b68df50358022292dbbb93572546a95f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:57 +0000
Subject: [PATCH 76/90] fix: bits of a bitset could not be used in constant
 expressions

---
 include/NazaraUtils/Bitset.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index d547ffd..943fe20 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -175,7 +175,7 @@ namespace Nz
 			constexpr Bit& operator-=(bool val);
 
 		private:
-			Bit(Block& block, Block mask) :
+			constexpr Bit(Block& block, Block mask) :
 			m_block(block),
 			m_mask(mask)
 			{
-- 
2.43.0


From 35cb7f25ec71bca1e7848435e22986776415e6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:19 +0000
Subject: [PATCH 77/90] fix: Mod of floating-point numbers was inexact or
 undefined in constant expressions

---
 include/NazaraUtils/MathUtils.inl | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MathUtils.inl b/include/NazaraUtils/MathUtils.inl
index a638b2f..eb97913 100644
--- a/include/NazaraUtils/MathUtils.inl
+++ b/include/NazaraUtils/MathUtils.inl
@@ -865,7 +865,26 @@ NAZARA_WARNING_POP()
 			}
 			else
 			{
-				return x - static_cast<long long>(x / y) * y;
+				// Long division in base 2, which is exact (dividing x by y may round to the next integer, or not fit in any integer)
+				T remainder = (x < 0) ? -x : x;
+				T divisor = (y < 0) ? -y : y;
+				if (!(divisor > 0) || !IsFinite(x))
+					return NaN<T>();
+
+				if (remainder < divisor)
+					return x;
+
+				T multiple = divisor;
+				while (remainder - multiple >= multiple)
+					multiple += multiple;
+
+				for (; multiple >= divisor; multiple /= 2)
+				{
+					if (remainder >= multiple)
+						remainder -= multiple;
+				}
+
+				return (x < 0) ? -remainder : remainder;
 			}
 		}
 		else
-- 
2.43.0


From 7521d6f1dfdb5926773db8f56a616aa246576fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:14 +0000
Subject: [PATCH 78/90] fix: Constants.hpp did not include the headers it uses

---
 include/NazaraUtils/Constants.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/NazaraUtils/Constants.hpp b/include/NazaraUtils/Constants.hpp
index d29d969..24c0551 100644
--- a/include/NazaraUtils/Constants.hpp
+++ b/include/NazaraUtils/Constants.hpp
@@ -10,7 +10,9 @@
 #include <NazaraUtils/Prerequisites.hpp>
 #include <NazaraUtils/Concepts.hpp>
 #include <climits>
+#include <cstddef>
 #include <limits>
+#include <type_traits>
 
 namespace Nz
 {
-- 
2.43.0


From 34f54cf3ff04e276733cd58786cd0a0284dc04c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:10 +0000
Subject: [PATCH 79/90] fix: in-place PrivateImpl of a non-assignable type
 destroyed its object twice when copying another one threw

---
 include/NazaraUtils/PrivateImpl.inl | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/NazaraUtils/PrivateImpl.inl b/include/NazaraUtils/PrivateImpl.inl
index e962792..66dc5a1 100644
--- a/include/NazaraUtils/PrivateImpl.inl
+++ b/include/NazaraUtils/PrivateImpl.inl
@@ -96,6 +96,14 @@ namespace Nz
 
 		if constexpr (std::is_copy_assignable_v<T>)
 			*Get() = *pimpl.Get();
+		else if constexpr (std::is_nothrow_move_constructible_v<T>)
+		{
+			// The copy may throw, our object must not be destroyed before it succeeded
+			T copy(*pimpl.Get());
+
+			PlacementDestroy(Get());
+			PlacementNew(Get(), std::move(copy));
+		}
 		else
 		{
 			PlacementDestroy(Get());
-- 
2.43.0


From bd0e831d166d0fdfe81cf135c01227ac84a64538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 80/90] fix: Result::Map with a noexcept function terminated
 the program when copying the error or constructing the mapped value threw

---
 include/NazaraUtils/Result.hpp | 16 ++++++++++++----
 include/NazaraUtils/Result.inl |  8 ++++----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/include/NazaraUtils/Result.hpp b/include/NazaraUtils/Result.hpp
index 44b14f8..e7706d2 100644
--- a/include/NazaraUtils/Result.hpp
+++ b/include/NazaraUtils/Result.hpp
@@ -31,6 +31,14 @@
 
 namespace Nz
 {
+	namespace Detail
+	{
+		// Mapping a result also copies (or moves) its error, and constructs the mapped value
+		template<typename E, typename F, typename... Args>
+		inline constexpr bool IsNothrowMap = std::is_nothrow_invocable_v<F, Args...> && std::is_nothrow_constructible_v<std::decay_t<E>, E> &&
+		                                     (std::is_void_v<std::invoke_result_t<F, Args...>> || std::is_nothrow_move_constructible_v<std::invoke_result_t<F, Args...>>);
+	}
+
 	template<typename V>
 	struct ResultValue
 	{
@@ -92,8 +100,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>);
-			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>);
+			template<typename F> Result<std::invoke_result_t<F, const V&>, E> constexpr Map(F&& functor) const& noexcept(Detail::IsNothrowMap<const E&, F, const V&>);
+			template<typename F> Result<std::invoke_result_t<F, V&&>, E> constexpr Map(F&& functor) && noexcept(Detail::IsNothrowMap<E&&, F, V&&>);
 
 			constexpr explicit operator bool() const noexcept;
 
@@ -146,8 +154,8 @@ namespace Nz
 			constexpr bool IsErr() const noexcept;
 			constexpr bool IsOk() const noexcept;
 
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>);
-			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) const& noexcept(Detail::IsNothrowMap<const E&, F>);
+			template<typename F> Result<std::invoke_result_t<F>, E> constexpr Map(F&& functor) && noexcept(Detail::IsNothrowMap<E&&, F>);
 
 			constexpr explicit operator bool() const noexcept;
 
diff --git a/include/NazaraUtils/Result.inl b/include/NazaraUtils/Result.inl
index a7fd050..897e7ee 100644
--- a/include/NazaraUtils/Result.inl
+++ b/include/NazaraUtils/Result.inl
@@ -177,7 +177,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F, const V&>)
+	constexpr Result<std::invoke_result_t<F, const V&>, E> Result<V, E>::Map(F&& functor) const& noexcept(Detail::IsNothrowMap<const E&, F, const V&>)
 	{
 		using MappedVal = std::invoke_result_t<F, const V&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -198,7 +198,7 @@ namespace Nz
 
 	template<typename V, typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F, V&&>)
+	constexpr Result<std::invoke_result_t<F, V&&>, E> Result<V, E>::Map(F&& functor) && noexcept(Detail::IsNothrowMap<E&&, F, V&&>)
 	{
 		using MappedVal = std::invoke_result_t<F, V&&>;
 		using MappedResult = Result<MappedVal, E>;
@@ -357,7 +357,7 @@ namespace Nz
 	
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) const& noexcept(Detail::IsNothrowMap<const E&, F>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
@@ -378,7 +378,7 @@ namespace Nz
 
 	template<typename E>
 	template<typename F>
-	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(std::is_nothrow_invocable_v<F>)
+	constexpr Result<std::invoke_result_t<F>, E> Result<void, E>::Map(F&& functor) && noexcept(Detail::IsNothrowMap<E&&, F>)
 	{
 		using MappedVal = std::invoke_result_t<F>;
 		using MappedResult = Result<MappedVal, E>;
-- 
2.43.0


From 1ba49f62a0fea7187a29b1068570aa6c4cc3f224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:41 +0000
Subject: [PATCH 81/90] fix: HybridVector::push_back terminated the program
 when switching to its fallback threw

---
 include/NazaraUtils/FixedVector.hpp | 4 ++--
 include/NazaraUtils/FixedVector.inl | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.hpp b/include/NazaraUtils/FixedVector.hpp
index b142074..0eb00f7 100644
--- a/include/NazaraUtils/FixedVector.hpp
+++ b/include/NazaraUtils/FixedVector.hpp
@@ -94,8 +94,8 @@ namespace Nz
 
 			constexpr size_type max_size() const noexcept;
 
-			constexpr reference push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value);
-			constexpr reference push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value);
+			constexpr reference push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value && std::is_void<Fallback>::value);
+			constexpr reference push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value && std::is_void<Fallback>::value);
 
 			constexpr void pop_back();
 
diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 9d0f3de..3e87d03 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -529,7 +529,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(const T& value) noexcept(std::is_nothrow_copy_constructible<T>::value && std::is_void<Fallback>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
@@ -545,7 +545,7 @@ namespace Nz
 	}
 
 	template<typename T, std::size_t Capacity, typename Fallback>
-	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value) -> reference
+	constexpr auto FixedVector<T, Capacity, Fallback>::push_back(T&& value) noexcept(std::is_nothrow_move_constructible<T>::value && std::is_void<Fallback>::value) -> reference
 	{
 		if constexpr (!std::is_same_v<Fallback, void>)
 		{
-- 
2.43.0


From 39b56164af3b87a2044ccab2e33daf7f11ea860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:26 +0000
Subject: [PATCH 82/90] fix: move assignment of a HybridVector stored inline to
 one using its fallback could allocate memory, terminating the program on
 failure

---
 include/NazaraUtils/FixedVector.inl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index 3e87d03..ebc47ea 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -760,7 +760,7 @@ namespace Nz
 		}
 
 		clear();
-		reserve(vec.size());
+		m_size = 0; // elements of vec are stored inline and fit here as well, no allocation (which could throw) is required
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(std::move(vec[i]));
 
-- 
2.43.0


From c7cd72060f273f94d3f4a16b78d64604518d2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:16 +0000
Subject: [PATCH 83/90] fix: MemoryPool kept a half-built block when allocating
 it threw

---
 include/NazaraUtils/MemoryPool.inl | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/NazaraUtils/MemoryPool.inl b/include/NazaraUtils/MemoryPool.inl
index 684b908..c57e375 100644
--- a/include/NazaraUtils/MemoryPool.inl
+++ b/include/NazaraUtils/MemoryPool.inl
@@ -377,10 +377,13 @@ namespace Nz
 	template<typename T, std::size_t Alignment>
 	void MemoryPool<T, Alignment>::AllocateBlock()
 	{
-		auto& block = m_blocks.emplace_back();
+		// Only add the block once it is complete, as any of these may throw
+		Block block;
 		block.freeEntries.Resize(m_blockSize, true);
 		block.occupiedEntries.Resize(m_blockSize, false);
 		block.memory = std::make_unique<AlignedStorage[]>(m_blockSize);
+
+		m_blocks.push_back(std::move(block));
 	}
 
 	template<typename T, std::size_t Alignment>
-- 
2.43.0


From aab9280cf2dd28615b5642fefc2ad218469d9f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:01 +0000
Subject: [PATCH 84/90] fix: Bitset::AppendBits left a bitset with more bits
 than blocks when allocating them threw

---
 include/NazaraUtils/Bitset.inl | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/Bitset.inl b/include/NazaraUtils/Bitset.inl
index 626c2b2..8e6c48b 100644
--- a/include/NazaraUtils/Bitset.inl
+++ b/include/NazaraUtils/Bitset.inl
@@ -156,6 +156,9 @@ namespace Nz
 	constexpr void Bitset<Block, Container>::AppendBits(T bits, std::size_t bitCount)
 	{
 		std::size_t bitShift = m_bitCount % bitsPerBlock;
+		std::size_t nextBlock = m_blocks.size();
+
+		m_blocks.resize(ComputeBlockCount(m_bitCount + bitCount), 0U); //< may throw, don't change anything before
 		m_bitCount += bitCount;
 
 		if (bitShift != 0)
@@ -165,7 +168,7 @@ namespace Nz
 			if (bitCount < remainingBits)
 				block &= (Block(1U) << bitCount) - 1U; // mask out the bits we don't want
 
-			m_blocks.back() |= block << bitShift;
+			m_blocks[nextBlock - 1] |= block << bitShift;
 			bits = (remainingBits < BitCount<T>) ? bits >> remainingBits : T(0);
 
 			bitCount -= std::min(remainingBits, bitCount);
@@ -176,7 +179,7 @@ namespace Nz
 			std::size_t blockCount = ComputeBlockCount(bitCount);
 			for (std::size_t block = 0; block < blockCount - 1; ++block)
 			{
-				m_blocks.push_back(static_cast<Block>(bits));
+				m_blocks[nextBlock++] = static_cast<Block>(bits);
 
 				if constexpr (bitsPerBlock < BitCount<T>)
 					bits >>= bitsPerBlock;
@@ -192,7 +195,7 @@ namespace Nz
 			if (remainingBits < bitsPerBlock)
 				bits &= ((Block(1U) << remainingBits) - 1U);
 
-			m_blocks.push_back(static_cast<Block>(bits));
+			m_blocks[nextBlock] = static_cast<Block>(bits);
 		}
 	}
 
-- 
2.43.0


From d00325200a7ba6f687b6644f771d8d9bc835a020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:56 +0000
Subject: [PATCH 85/90] fix: HybridBitset was left with bits but no blocks when
 copying another one to it threw

---
 include/NazaraUtils/FixedVector.inl | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/FixedVector.inl b/include/NazaraUtils/FixedVector.inl
index ebc47ea..cf3df05 100644
--- a/include/NazaraUtils/FixedVector.inl
+++ b/include/NazaraUtils/FixedVector.inl
@@ -726,16 +726,22 @@ namespace Nz
 			if (vec.IsUsingFallback())
 			{
 				if (!IsUsingFallback())
-					clear(); // Destroy elements stored inline
+				{
+					// Copy before destroying elements stored inline, as it may throw
+					Fallback newFallback(vec.fallback);
+					clear();
+					Base::fallback = std::move(newFallback);
+				}
+				else
+					Base::operator=(vec);
 
-				Base::operator=(vec);
 				m_size = vec.m_size;
 				return *this;
 			}
 		}
 
+		reserve(vec.size()); // may throw, do it before destroying elements
 		clear();
-		reserve(vec.size());
 		for (size_type i = 0; i < vec.size(); ++i)
 			push_back(vec[i]);
 
-- 
2.43.0


From e6e4996062a539e37b449dd1d46b846258b3ff13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:54 +0000
Subject: [PATCH 86/90] fix: NazaraStackArray and NazaraStackVector align the
 memory of over-aligned types

---
 include/NazaraUtils/MemoryHelper.hpp | 11 +++++++++
 include/NazaraUtils/MemoryHelper.inl | 35 ++++++++++++++++++++++++++++
 include/NazaraUtils/StackArray.hpp   |  4 ++--
 include/NazaraUtils/StackVector.hpp  |  2 +-
 4 files changed, 49 insertions(+), 3 deletions(-)

diff --git a/include/NazaraUtils/MemoryHelper.hpp b/include/NazaraUtils/MemoryHelper.hpp
index 9752fca..facebe9 100644
--- a/include/NazaraUtils/MemoryHelper.hpp
+++ b/include/NazaraUtils/MemoryHelper.hpp
@@ -31,10 +31,21 @@
 
 #endif
 
+// alloca memory may not be aligned enough for over-aligned types
+#ifdef NAZARA_ALLOCA_SUPPORT
+#define NAZARA_ALLOCA_ARRAY(T, count) Nz::AlignStackMemory<T>(NAZARA_ALLOCA((count) * sizeof(T) + Nz::StackMemoryPadding<T>()))
+#endif
+
 #include <cstddef>
 
 namespace Nz
 {
+	template<typename T>
+	T* AlignStackMemory(void* stackMemory);
+
+	template<typename T>
+	constexpr std::size_t StackMemoryPadding();
+
 	template<typename T, typename... Args>
 	constexpr T* PlacementNew(T* ptr, Args&&... args);
 
diff --git a/include/NazaraUtils/MemoryHelper.inl b/include/NazaraUtils/MemoryHelper.inl
index d0d1c40..72b549c 100644
--- a/include/NazaraUtils/MemoryHelper.inl
+++ b/include/NazaraUtils/MemoryHelper.inl
@@ -3,6 +3,7 @@
 // For conditions of distribution and use, see copyright notice in Config.hpp
 
 #include <cassert>
+#include <cstdint>
 #include <new>
 #include <utility>
 
@@ -14,6 +15,40 @@ namespace Nz
 	* \brief Core functions that helps the handle of memory in the engine
 	*/
 
+	/*!
+	* \brief Aligns a pointer to stack memory so that objects of type T can be constructed there
+	* \return Aligned pointer
+	*
+	* \param stackMemory Pointer to stack memory, with StackMemoryPadding<T>() more bytes than required by the objects
+	*/
+	template<typename T>
+	T* AlignStackMemory(void* stackMemory)
+	{
+		if constexpr (alignof(T) > alignof(std::max_align_t))
+		{
+			std::uintptr_t address = reinterpret_cast<std::uintptr_t>(stackMemory);
+			std::size_t misalignment = static_cast<std::size_t>(address & (alignof(T) - 1));
+			if (misalignment != 0)
+				stackMemory = static_cast<char*>(stackMemory) + (alignof(T) - misalignment);
+		}
+
+		return static_cast<T*>(stackMemory);
+	}
+
+	/*!
+	* \brief Returns how many more bytes have to be allocated on the stack to be able to align them for type T
+	* \return Additional byte count
+	*/
+	template<typename T>
+	constexpr std::size_t StackMemoryPadding()
+	{
+		// alloca memory has the alignment of std::max_align_t
+		if constexpr (alignof(T) > alignof(std::max_align_t))
+			return alignof(T) - 1;
+		else
+			return 0;
+	}
+
 	/*!
 	* \brief Constructs the object inplace
 	* \return Pointer to the constructed object
diff --git a/include/NazaraUtils/StackArray.hpp b/include/NazaraUtils/StackArray.hpp
index d7add20..f0df87a 100644
--- a/include/NazaraUtils/StackArray.hpp
+++ b/include/NazaraUtils/StackArray.hpp
@@ -11,8 +11,8 @@
 #include <NazaraUtils/MovablePtr.hpp>
 
 #ifdef NAZARA_ALLOCA_SUPPORT
-	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size)
-	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(NAZARA_ALLOCA((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
+	#define NazaraStackArray(T, size) Nz::StackArray<T>(NAZARA_ALLOCA_ARRAY(T, size), size)
+	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(NAZARA_ALLOCA_ARRAY(T, size), size, typename Nz::StackArray<T>::NoInitTag())
 #else
 	#define NazaraStackArray(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size)
 	#define NazaraStackArrayNoInit(T, size) Nz::StackArray<T>(static_cast<T*>(Nz::OperatorNew((size) * sizeof(T))), size, typename Nz::StackArray<T>::NoInitTag())
diff --git a/include/NazaraUtils/StackVector.hpp b/include/NazaraUtils/StackVector.hpp
index 02c3b40..57f127a 100644
--- a/include/NazaraUtils/StackVector.hpp
+++ b/include/NazaraUtils/StackVector.hpp
@@ -11,7 +11,7 @@
 #include <NazaraUtils/MovablePtr.hpp>
 
 #ifdef NAZARA_ALLOCA_SUPPORT
-	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(static_cast<T*>(NAZARA_ALLOCA((capacity) * sizeof(T))), capacity)
+	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(NAZARA_ALLOCA_ARRAY(T, capacity), capacity)
 #else
 	#define NazaraStackVector(T, capacity) Nz::StackVector<T>(static_cast<T*>(operator new((capacity) * sizeof(T))), capacity)
 #endif
-- 
2.43.0


From 522cf591ca70d91567813c722b33968e8829e712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:19 +0000
Subject: [PATCH 87/90] fix: the fallback of NAZARA_UNREACHABLE is an
 expression, without a semicolon of its own

---
 include/NazaraUtils/Prerequisites.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/NazaraUtils/Prerequisites.hpp b/include/NazaraUtils/Prerequisites.hpp
index 45df10b..cbed337 100644
--- a/include/NazaraUtils/Prerequisites.hpp
+++ b/include/NazaraUtils/Prerequisites.hpp
@@ -393,7 +393,7 @@
 #endif
 
 #ifndef NAZARA_UNREACHABLE
-	#define NAZARA_UNREACHABLE() throw Nz::UnreachableError{};
+	#define NAZARA_UNREACHABLE() throw Nz::UnreachableError{}
 #endif
 
 // Detect arch
-- 
2.43.0


From 228be89307b0a02d1a566c86c78a50df2a6014d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:12 +0000
Subject: [PATCH 88/90] fix: key-value iterators of EnumArray have no default
 constructor, standard algorithms such as std::minmax_element don't compile
 with them

---
 include/NazaraUtils/EnumArray.hpp | 1 +
 include/NazaraUtils/EnumArray.inl | 7 +++++++
 2 files changed, 8 insertions(+)

diff --git a/include/NazaraUtils/EnumArray.hpp b/include/NazaraUtils/EnumArray.hpp
index de336dd..c1a2e91 100644
--- a/include/NazaraUtils/EnumArray.hpp
+++ b/include/NazaraUtils/EnumArray.hpp
@@ -65,6 +65,7 @@ namespace Nz
 			using pointer = void;
 			using reference = value_type;
 
+			constexpr EnumArrayKvIterator() noexcept;
 			constexpr EnumArrayKvIterator(kv_tag arrayTag, difference_type index);
 			EnumArrayKvIterator(const EnumArrayKvIterator&) = default;
 			EnumArrayKvIterator(EnumArrayKvIterator&&) noexcept = default;
diff --git a/include/NazaraUtils/EnumArray.inl b/include/NazaraUtils/EnumArray.inl
index bcaf2f0..01fee96 100644
--- a/include/NazaraUtils/EnumArray.inl
+++ b/include/NazaraUtils/EnumArray.inl
@@ -56,6 +56,13 @@ namespace Nz
 	}
 
 
+	template<typename E, typename V, bool Const>
+	constexpr EnumArrayKvIterator<E, V, Const>::EnumArrayKvIterator() noexcept :
+	m_array(nullptr),
+	m_index(0)
+	{
+	}
+
 	template<typename E, typename V, bool Const>
 	constexpr EnumArrayKvIterator<E, V, Const>::EnumArrayKvIterator(kv_tag arrayTag, difference_type index) :
 	m_array(arrayTag.arrayRef),
-- 
2.43.0


From 52c5fb3de6501510a97f0c8625070372eefd9040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:12 +0000
Subject: [PATCH 89/90] fix: iterators over bits and flags lack types required
 by std::iterator_traits, standard algorithms don't compile with them

---
 include/NazaraUtils/Bitset.hpp | 3 +++
 include/NazaraUtils/Flags.hpp  | 2 ++
 2 files changed, 5 insertions(+)

diff --git a/include/NazaraUtils/Bitset.hpp b/include/NazaraUtils/Bitset.hpp
index 943fe20..a67513f 100644
--- a/include/NazaraUtils/Bitset.hpp
+++ b/include/NazaraUtils/Bitset.hpp
@@ -193,6 +193,9 @@ namespace Nz
 		public:
 			using iterator_category = std::input_iterator_tag;
 			using value_type = std::size_t;
+			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			constexpr BitIterator(const BitIterator&) = default;
 			constexpr BitIterator(BitIterator&&) noexcept = default;
diff --git a/include/NazaraUtils/Flags.hpp b/include/NazaraUtils/Flags.hpp
index 760845c..1aa62bc 100644
--- a/include/NazaraUtils/Flags.hpp
+++ b/include/NazaraUtils/Flags.hpp
@@ -121,6 +121,8 @@ namespace Nz
 			using iterator_category = std::input_iterator_tag;
 			using value_type = T;
 			using difference_type = std::ptrdiff_t;
+			using pointer = void;
+			using reference = value_type;
 
 			iterator(const iterator&) = default;
 			iterator(iterator&&) = default;
-- 
2.43.0


From 310f447495a3eaa8acb16f1d8f22ffe44718fb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:12 +0000
Subject: [PATCH 90/90] fix: clearing, destroying or move-assigning a signal
 disconnects the connections owned by its callbacks while its slots are being
 destroyed (use after free)

---
 include/NazaraUtils/Signal.hpp |  4 ++--
 include/NazaraUtils/Signal.inl | 25 ++++++++++++++++++++++---
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/include/NazaraUtils/Signal.hpp b/include/NazaraUtils/Signal.hpp
index 161b213..7765ea8 100644
--- a/include/NazaraUtils/Signal.hpp
+++ b/include/NazaraUtils/Signal.hpp
@@ -35,7 +35,7 @@ namespace Nz
 			Signal();
 			Signal(const Signal&);
 			Signal(Signal&& signal) noexcept;
-			~Signal() = default;
+			~Signal();
 
 			void Clear();
 
@@ -66,7 +66,7 @@ namespace Nz
 				}
 
 				std::shared_ptr<Callback> callback; //< Shared with the emission, as a callback may disconnect itself
-				Signal* signal;
+				Signal* signal; //< Null once the slot is no longer part of a signal
 				SlotListIndex index;
 			};
 
diff --git a/include/NazaraUtils/Signal.inl b/include/NazaraUtils/Signal.inl
index f0d1a08..f257085 100644
--- a/include/NazaraUtils/Signal.inl
+++ b/include/NazaraUtils/Signal.inl
@@ -47,6 +47,16 @@ namespace Nz
 		operator=(std::move(signal));
 	}
 
+	/*!
+	* \brief Destructs the signal and disconnects all of its slots
+	*/
+
+	template<typename... Args>
+	Signal<Args...>::~Signal()
+	{
+		Clear();
+	}
+
 	/*!
 	* \brief Clears the list of actions attached to the signal
 	*/
@@ -54,8 +64,13 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Clear()
 	{
+		// A callback may own connections to other slots of this signal, which its destruction disconnects: detach every slot first
+		SlotList slots = std::move(m_slots);
 		m_slots.clear();
 		m_slotIterator = 0;
+
+		for (SlotPtr& slot : slots)
+			slot->signal = nullptr;
 	}
 
 	/*!
@@ -229,11 +244,14 @@ namespace Nz
 		if (this == &signal)
 			return *this;
 
+		Clear();
+
 		m_slots = std::move(signal.m_slots);
 		m_slotIterator = signal.m_slotIterator;
 
 		// Slots stored inline are moved one by one, make sure the moved signal doesn't keep null slots
-		signal.Clear();
+		signal.m_slots.clear();
+		signal.m_slotIterator = 0;
 
 		// We need to update the signal pointer inside of each slot
 		for (SlotPtr& slot : m_slots)
@@ -339,7 +357,7 @@ namespace Nz
 	template<typename... Args>
 	void Signal<Args...>::Connection::Disconnect() noexcept
 	{
-		if (SlotPtr ptr = m_ptr.lock())
+		if (SlotPtr ptr = m_ptr.lock(); ptr && ptr->signal)
 			ptr->signal->Disconnect(ptr);
 	}
 
@@ -351,7 +369,8 @@ namespace Nz
 	template<typename... Args>
 	bool Signal<Args...>::Connection::IsConnected() const
 	{
-		return !m_ptr.expired();
+		SlotPtr ptr = m_ptr.lock();
+		return ptr && ptr->signal;
 	}
 
 	/*!
-- 
2.43.0

