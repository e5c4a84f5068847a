From 6cb282dffebd7e0ab979ec3dd6feb4fd8c068433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 001/128] fix: cyclic group with large modulus or built from a
 negative multiple of the modulus

---
 include/Conserved/quantity.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Conserved/quantity.h b/include/Conserved/quantity.h
index 76ed977..3a2f130 100644
--- a/include/Conserved/quantity.h
+++ b/include/Conserved/quantity.h
@@ -93,7 +93,7 @@ class C
 	 *
 	 *
 	 */
-	constexpr C(int16_t _val) noexcept : val(  (_val != -N)*(_val < 0) * N + (_val % N) )
+	constexpr C(int16_t _val) noexcept : val((_val % N < 0) * N + (_val % N))
 	{
 		/*
 		 * A quick explanation of the init line for val:
@@ -119,8 +119,9 @@ class C
 
 	constexpr C &op(C other, bool cond) noexcept
 	{
-		val += cond * other.val;
-		val -= (val >= N) * N;
+		// the sum can exceed the range of the storage type when N > 2^15.
+		uint32_t sum = val + cond * uint32_t(other.val);
+		val = sum - (sum >= N) * N;
 		return *this;
 	}
 
-- 
2.43.0


From 9940ffacd1b7b666b471b26c9631fd9338f4b9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:03 +0000
Subject: [PATCH 002/128] fix: copy assignment of any_quantity can change the
 underlying type, as documented

---
 include/Conserved/Composite/cquantity.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Conserved/Composite/cquantity.h b/include/Conserved/Composite/cquantity.h
index 47cb85e..c3dcb0a 100644
--- a/include/Conserved/Composite/cquantity.h
+++ b/include/Conserved/Composite/cquantity.h
@@ -239,7 +239,8 @@ inline any_quantity any_quantity::inverse() &&
 }
 inline any_quantity_ref any_quantity::operator=(const any_quantity &other)
 {
-	*impl = *other.impl;
+	any_quantity copy(other); // the underlying type can change.
+	swap(copy);
 	return *this;
 }
 inline void any_quantity::swap(any_quantity_ref other) { impl->swap(other); }
-- 
2.43.0


From ce86c3e0e30c066130e1856fa3efdf08dfa48b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 003/128] fix: flat_map::erase(key) of an absent key removed
 another entry or went past the end

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 9f1e87e..8f49dc1 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -585,7 +585,7 @@ class flat_map
 	size_type erase(const key_type &k)
 	{
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
+		if (it == end() or comp(k, *it))
 		{
 			return 0;
 		}
-- 
2.43.0


From 4d16a4410edb3bb4a289ba7e4f6c2368911a52e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 004/128] fix: flat_map::lower_bound and upper_bound
 dereferenced the end iterator

---
 include/blockTensor/flat_map.h | 20 ++++----------------
 1 file changed, 4 insertions(+), 16 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 8f49dc1..4c77b11 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -692,31 +692,19 @@ class flat_map
 	}
 	iterator lower_bound(const key_type &k)
 	{
-		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(begin(), end(), k, comp);
 	}
 	const_iterator lower_bound(const key_type &k) const
 	{
-		auto it = std::lower_bound(cbegin(), cend(), k, comp);
-		if (comp(k, *it))
-			it = end();
-		return it;
+		return std::lower_bound(cbegin(), cend(), k, comp);
 	}
 	iterator upper_bound(const key_type &k)
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 	const_iterator upper_bound(const key_type &k) const
 	{
-		auto it = std::upper_bound(begin(), end(), k, comp);
-		if (comp(*it, k))
-			it = end();
-		return it;
+		return std::upper_bound(begin(), end(), k, comp);
 	}
 
 	key_compare key_comp() const { return comp.comp; }
-- 
2.43.0


From bc605adbd5543de977fcdf88777ad6d2f48ad7f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 005/128] fix: flat_map built from or extended by an empty
 range dereferenced the end iterator

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 4c77b11..57d04b2 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -766,6 +766,8 @@ class flat_map
 	                                           Collision &&collision)
 	{ // no collision get applied to all elements, instead of just the new element inserted.
 		using std::swap;
+		if (first == last)
+			return last;
 		auto l = first;
 		auto second = std::upper_bound(first, last, *l, comp);
 		while (first != last)
-- 
2.43.0


From 64220ce76b69893f764b9bc7bea7200253912a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 006/128] fix: flat_map built from a content array kept
 duplicate keys

---
 include/blockTensor/flat_map.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 57d04b2..0362dc1 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -148,8 +148,13 @@ class flat_map
 	{
 	}
 	flat_map(const allocator_type &_alloc = allocator_type()) : comp(), content(_alloc) {}
-	flat_map(content_t &&in) : comp(), content(std::move(in)) { sort(content.begin(), content.end()); }
-	flat_map(const content_t &in) : comp(), content((in)) { sort(content.begin(), content.end()); }
+	flat_map(content_t &&in) : comp(), content(std::move(in))
+	{
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
+	}
+	flat_map(const content_t &in) : flat_map(content_t(in)) {}
 	template <class InputIt>
 	flat_map(InputIt first, InputIt last, const key_compare &_comp = key_compare(),
 	         const allocator_type &_alloc = allocator_type())
-- 
2.43.0


From b15908a8a9adbc653079c2a840c7b18a9317a209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 007/128] fix: flat_map::emplace with a hint returned a
 singular iterator for a key already present

---
 include/blockTensor/flat_map.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 0362dc1..0110f06 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -525,6 +525,8 @@ class flat_map
 			it.it = content.emplace(hint.it, std::move(val));
 			success = true;
 		}
+		else
+			it = begin() + (hint - cbegin());
 		return std::make_pair(it, success);
 	}
 	template <class... Args>
-- 
2.43.0


From 8f294b8f6912100fd04a125508e9e2f8f1ddd2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 008/128] fix: flat_map hinted insertion misplaced the entry
 when the hint is not its neighbour

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 0110f06..fb5fd96 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -752,7 +752,7 @@ class flat_map
 		bool is_end = hint == cend();
 		hint = hint - 1*is_end;// avoid dereferencing the end iterator, which isn't a valid value. It an acceptable hint.
 		const_iterator first = comp(*hint, key) ? hint : cbegin();
-		const_iterator last = comp(key, *hint) ? cend() : hint + 1;
+		const_iterator last = comp(key, *hint) ? hint + 1 : cend();
 		return std::make_pair(first, last);
 	}
 	std::pair<iterator, iterator> use_hint(iterator hint,const key_type &key)
-- 
2.43.0


From 919b975c2dd3dd110a9d86047b80ea1a04443f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:57 +0000
Subject: [PATCH 009/128] fix: flat_map kept an arbitrary one of several
 entries with the same key when given more than a few

---
 include/blockTensor/flat_map.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index fb5fd96..38ca2c3 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -730,15 +730,15 @@ class flat_map
 	 * @param last iterator to the element after the range to sort
 	 *
 	 */
-	void sort(iterator first, iterator last) { std::sort(first, last, comp); }
-	void sort() { std::sort(begin(), end(), comp); }
+	void sort(iterator first, iterator last) { std::stable_sort(first, last, comp); }
+	void sort() { std::stable_sort(begin(), end(), comp); }
 
   protected:
 	value_compare comp;
 
   private:
 	content_t content;
-	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::sort(first, last, comp); }
+	void sort(typename content_t::iterator first, typename content_t::iterator last) { std::stable_sort(first, last, comp); }
 	// void remove_collisions(iterator first = begin(), iterator last = end())
 	// { //assume a sorted array
 	// 	auto beg = first while (first != last)
-- 
2.43.0


From f7160b919083a920582252de2557c520ffb7d455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 010/128] fix: flat_map::merge of a temporary with spare room
 applied nocollision to the wrong entries

---
 include/blockTensor/flat_map.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 38ca2c3..548309a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -629,6 +629,11 @@ class flat_map
 	{
 		if (source.capacity() >= source.size() + size()) // reuse source's resources if it avoid doing an allocation.
 		{
+			for (auto &x : source.content) // must be done before the swap: only the elements of source get modified
+			{
+				if (!contains(x.first))
+					nocollision(x.second);
+			}
 			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
 			insert(
 			    source.begin(), source.end(),
@@ -639,8 +644,7 @@ class flat_map
 				    auto &c = const_cast<std::remove_const_t<std::remove_reference_t<decltype(b)>> &>(b);
 				    std::swap(a, c);
 				    collision(a, c);
-			    },
-			    std::forward<NoCollision>(nocollision));
+			    });
 		}
 		else
 		{
-- 
2.43.0


From 287c83edaa5db4fc6171fc30dde8baba95a23221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:35 +0000
Subject: [PATCH 011/128] fix: flat_map range insertion applied nocollision to
 entries that were already present

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 548309a..5a04180 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -426,7 +426,7 @@ class flat_map
 		    lastmfirst == 0 or
 		    movembegin == lastmfirst); // we've copied everything, or we still have some stuff to copy and the room necessary
 		std::copy_backward(first, last, move_to_end);
-		std::for_each(begin(), move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
+		std::for_each(move_to_end - lastmfirst, move_to_end, [nocollision](auto &&x) { nocollision(std::get<1>(x)); });
 	}
 
 	template <class M>
-- 
2.43.0


From 553504b461578f9aed25a6e8c361863e9d802195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:26 +0000
Subject: [PATCH 012/128] fix: default constructed any_quantity_vector crashed
 when copied, measured or iterated

---
 include/Conserved/Composite/quantity_vector.h      | 6 +++---
 include/Conserved/Composite/quantity_vector_impl.h | 8 +++++++-
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index 9fa4640..ced9979 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -42,7 +42,7 @@ public:
 
 	any_quantity_vector(std::unique_ptr<vquantity_vector>&& _ptr) : ptr(std::move(_ptr)) {}
 	any_quantity_vector() = default;
-	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr->clone()) {}
+	any_quantity_vector(const any_quantity_vector& other) : ptr(other.ptr ? other.ptr->clone() : nullptr) {}
 	any_quantity_vector(any_quantity_vector&& other) : ptr(std::move(other.ptr)) {}
 	any_quantity_vector(size_t cnt, any_quantity_cref val) : ptr(val.make_vector(cnt)) {}
 	/**
@@ -137,11 +137,11 @@ public:
 	// capacity
 	[[nodiscard]] bool empty() const
 	{
-		return ptr->empty();
+		return not ptr or ptr->empty();
 	}
 	[[nodiscard]] size_t size() const
 	{
-		return ptr->size();
+		return ptr ? ptr->size() : 0;
 	}
 	[[nodiscard]] size_t max_size() const
 	{
diff --git a/include/Conserved/Composite/quantity_vector_impl.h b/include/Conserved/Composite/quantity_vector_impl.h
index 35dda66..694037d 100644
--- a/include/Conserved/Composite/quantity_vector_impl.h
+++ b/include/Conserved/Composite/quantity_vector_impl.h
@@ -130,7 +130,13 @@ struct cgroup_iterator
 	                                                       any_quantity, any_quantity_ref, vquantity *, std::ptrdiff_t>;
 	any_quantity_ref operator*() const { return *it; }
 	vquantity *operator->() const { return it; }
-	base_type::difference_type operator-(cgroup_iterator rhs) { return ar->ptr_diff(it, rhs.it); }
+	base_type::difference_type operator-(cgroup_iterator rhs)
+	{
+		if (ar)
+			return ar->ptr_diff(it, rhs.it);
+		else
+			return 0;
+	}
 	cgroup_iterator &operator+=(base_type::difference_type n)
 	{
 		it = ar->ptr_add(it, n);
-- 
2.43.0


From b94d2cce89470a0cdf695d3b25b7991275918de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 013/128] fix: any_quantity_vector built from a temporary
 quantity_vector was empty

---
 include/Conserved/Composite/quantity_vector.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index ced9979..d41d6d7 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -63,9 +63,8 @@ public:
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
 	any_quantity_vector(const quantity_vector<Conc_cgroup, Allocator>& other) : ptr(other.clone()) {}
 	template <class Conc_cgroup, class Allocator, class = std::enable_if_t<is_conc_cgroup_impl<Conc_cgroup>::value>>
-	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>())
+	any_quantity_vector(quantity_vector<Conc_cgroup, Allocator>&& other) : ptr(std::make_unique<quantity_vector<Conc_cgroup, Allocator>>(std::move(other)))
 	{
-		*ptr = std::move(other);
 	}
 
 	any_quantity_vector& operator=(any_quantity_vector other)
-- 
2.43.0


From 82bf968b3c85c6c0b8fd69ffb6177d9f5a7fbc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:56 +0000
Subject: [PATCH 014/128] fix: comparison and reservation of a default
 constructed any_quantity_vector dereferenced a null pointer

---
 include/Conserved/Composite/quantity_vector.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/Conserved/Composite/quantity_vector.h b/include/Conserved/Composite/quantity_vector.h
index d41d6d7..c70f394 100644
--- a/include/Conserved/Composite/quantity_vector.h
+++ b/include/Conserved/Composite/quantity_vector.h
@@ -75,7 +75,7 @@ public:
 
 	bool operator==(const any_quantity_vector& other) const
 	{
-		return ptr and *ptr == *(other.ptr);
+		return ptr and other.ptr and *ptr == *(other.ptr);
 	}
 	bool operator!=(const any_quantity_vector& other) const
 	{
@@ -144,15 +144,16 @@ public:
 	}
 	[[nodiscard]] size_t max_size() const
 	{
-		return ptr->max_size();
+		return ptr ? ptr->max_size() : 0;
 	}
 	void reserve(size_t n)
 	{
-		ptr->reserve(n);
+		if (ptr)
+			ptr->reserve(n);
 	}
 	[[nodiscard]] size_t capacity() const
 	{
-		return ptr->capacity();
+		return ptr ? ptr->capacity() : 0;
 	}
 	void shrink_to_fit()
 	{
-- 
2.43.0


From 23be96cdf905f627fad84f2a3e6832f4fa00ef9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 015/128] fix: broadcasting confused a single section with a
 dimension of size one and ignored mismatched section sizes

---
 sources/btensor.cpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 186e177..dacf8ed 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1001,7 +1001,13 @@ struct mul_helpers
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
-				if (not(*it) and *smaller_sec != *larger_sec)
+				auto same_sizes = [&smaller_tensor, &larger_tensor, n, smaller_rank, larger_rank]()
+				{
+					auto [s_begin, s_end] = smaller_tensor.section_sizes(smaller_rank - n);
+					auto [l_begin, l_end] = larger_tensor.section_sizes(larger_rank - n);
+					return std::equal(s_begin, s_end, l_begin, l_end);
+				};
+				if (not(*it) and not same_sizes())
 				{
 					if (this_is_large)
 					{
@@ -1037,14 +1043,15 @@ struct mul_helpers
 				--it;
 				--larger_sec;
 				--smaller_sec;
-				if (*larger_sec > *smaller_sec) // one of them is one
+				// comp_mask is odd when the smaller tensor is the one that is broadcast along this dimension.
+				if (*it & 1)
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    larger_tensor.section_sizes_cqtts(larger_rank - n);
 					std::tie(short_cval_start, short_cval_end) =
 					    smaller_tensor.section_conserved_qtt_range(smaller_rank - n);
 				}
-				else // or they are equal
+				else // either the larger tensor is broadcast, or the sections are the same for both.
 				{
 					std::tie(section_start, section_end, cval_start, cval_end) =
 					    smaller_tensor.section_sizes_cqtts(smaller_rank - n);
-- 
2.43.0


From d9a9f4171297b64e1c6c094341b22a3991e311e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:21 +0000
Subject: [PATCH 016/128] fix: in-place power with a broadcast base raised the
 base several times

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dacf8ed..eb59fbd 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1751,8 +1751,8 @@ btensor btensor::pow(const btensor &exponent) const
 btensor &btensor::pow_(const btensor &exponent)
 {
 	return broadcast_operation_(
-	    exponent, [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); },
-	    [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); });
+	    exponent, [](const torch::Tensor &A, const torch::Tensor &B) { return A.pow(B); },
+	    [](torch::Tensor &A, const torch::Tensor &B) { return A.pow_(B); });
 }
 btensor btensor::mul(const btensor &other) const
 {
-- 
2.43.0


From 32f135000744d001a5fa1e6853857a590f0c7489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:05 +0000
Subject: [PATCH 017/128] fix: conversion between rank 0 block tensors and
 dense tensors threw an exception

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eb59fbd..c67e5b3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2503,6 +2503,11 @@ torch::Tensor btensor::to_dense() const
 	{
 		auto &index = std::get<0>(index_block);
 		auto &tens = std::get<1>(index_block);
+		if (index.empty()) // a rank 0 tensor cannot be indexed
+		{
+			out.copy_(tens);
+			continue;
+		}
 		auto Slices = full_slice(*this, index);
 		out.index_put_(Slices, tens);
 	}
@@ -2522,7 +2527,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		{
 			auto shape_view = out.block_sizes(index);
 			auto S = btensor::full_slice(out, index);
-			auto block = values.index(torch::ArrayRef(S));
+			auto block = S.empty() ? values : values.index(torch::ArrayRef(S)); // a rank 0 tensor cannot be indexed
 			if ((torch::linalg::vector_norm(block.flatten().to(torch::promote_types(
 			                                    torch::kFloat, torch::typeMetaToScalarType(block.options().dtype()))),
 			                                2, {}, false, {}) > cutoff)
-- 
2.43.0


From 9f9e2369bbab4d3ded20214d461d615603ffe585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:41 +0000
Subject: [PATCH 018/128] fix: sum of a block tensor with a non-neutral
 selection rule was an invalid tensor

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index c67e5b3..19b5bc4 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1505,7 +1505,7 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule.value, this->options());
+	auto out = btensor({}, selection_rule->neutral(), this->options()); // the only element of a scalar has the neutral charge
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
 	torch::Tensor out_val = torch::zeros({}, options());
 	for (auto &a : list)
-- 
2.43.0


From af07721fcb5e330816bd0bf6bb25229b7bbedbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:38 +0000
Subject: [PATCH 019/128] fix: division of a scalar by a block tensor wrote its
 blocks past the end of an empty list

---
 sources/btensor.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 19b5bc4..b0b4dd8 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3170,10 +3170,13 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
 }
 btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
-	auto out = quantit::sparse_zeros_like(B);
+	auto out_type = torch::result_type(torch::empty({}, B.options()), A);
+	auto out = quantit::sparse_zeros_like(B, B.options().dtype(out_type));
 	out.reserve_space_(std::distance(B.begin(), B.end()));
-	std::transform(B.begin(), B.end(), out.begin(),
-	               [&A](const auto &in) { return std::make_pair(in.first, A / in.second); });
+	for (const auto &in : B)
+	{
+		out.block(in.first) = A / in.second;
+	}
 	return out;
 }
 /**
-- 
2.43.0


From 66800e23bfe7491cf148e19e5a465f558398d533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 020/128] fix: btensor::any ignored every block but the first,
 and returned an undefined tensor when there are no blocks

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index b0b4dd8..0582eb9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3115,12 +3115,12 @@ torch::Tensor btensor::any() const
 {
 	auto it = this->begin();
 	if (it == this->end())
-		return torch::Tensor();
+		return torch::zeros({}, torch::kBool); // every element is an implicit zero.
 	auto out = std::get<1>(*it).any();
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out &= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any();
 		++it;
 	}
 	return out;
-- 
2.43.0


From 1de31984b511a9568eb5ba2eb805812e53f06e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 021/128] fix: tensors whose sections are split differently
 among the dimensions were considered to have the same shape

---
 sources/btensor.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0582eb9..58717f9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2229,7 +2229,8 @@ void btensor::shift_impl(any_quantity_cref shift, int64_t dim)
 
 bool btensor::test_same_shape(const btensor &a, const btensor &b)
 {
-	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or !(a.sections_sizes == b.sections_sizes))
+	if (!(a.c_vals == b.c_vals) or !(a.selection_rule == b.selection_rule) or
+	    !(a.sections_sizes == b.sections_sizes) or !(a.sections_by_dim == b.sections_by_dim))
 		return false;
 	return true;
 }
@@ -2240,6 +2241,8 @@ void btensor::add_tensor_check(const btensor &a, const btensor &b)
 		throw non_matching_cvals("The conserved quantities of the tensors must be a perfect match");
 	if (!(a.selection_rule == b.selection_rule))
 		throw bad_selection_rule("The selection rules of the tensors must be the same");
+	if (!(a.sections_by_dim == b.sections_by_dim))
+		throw non_matching_sizes("The tensors must have the same number of sections in each dimension");
 	if (!(a.sections_sizes == b.sections_sizes))
 		throw non_matching_sizes("The blocks of the tensors must have the same dimensions");
 }
-- 
2.43.0


From 0050079ef57922c81a99eb350284047f90e9a913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 022/128] fix: addition of a temporary block tensor modified
 the left operand, and dereferenced the first block of an empty result

---
 sources/btensor.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 58717f9..d700463 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2704,6 +2704,10 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
 	auto out = *this;
+	for (auto &a : out) // the copy is shallow, and the collisions are resolved in place.
+	{
+		std::get<1>(a) = std::get<1>(a).clone();
+	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
 	                       // with that variant. torch::tensor do shallow copy by default anyway, so it doesn't
@@ -2721,7 +2725,8 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	out._options = std::get<1>(*out.begin()).options();
+	if (out.begin() != out.end())
+		out._options = std::get<1>(*out.begin()).options();
 	return out;
 }
 /*!
-- 
2.43.0


From c759a1a347417def496d10eb560d193c1b3f9a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 023/128] fix: addition of a temporary view of a block tensor
 scaled the tensor it is a view of

---
 sources/btensor.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d700463..a592a16 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2716,7 +2716,9 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	    // no collision
 	    [&alpha](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
+		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
+		    // view or the base of one, permute and transpose make views.
+		    if (get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
 			    x = x.mul(alpha);
 		    }
@@ -2759,7 +2761,9 @@ btensor &btensor::add_(btensor &&other, Scalar alpha)
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    [&alpha](torch::Tensor &x)
 	    {
-		    if (get_refcount(x) > 2) // greater than 2 because we've just made a temp copy for this algorithm
+		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
+		    // view or the base of one, permute and transpose make views.
+		    if (get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
 			    x = x.mul(alpha);
 		    }
-- 
2.43.0


From 2fd0f8cd435d49a3016cceca477416fabfa8bc76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 024/128] fix: allclose applied the relative tolerance to the
 implicit zeros instead of the second operand

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a592a16..ed91d1f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2576,7 +2576,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 		}
 		else if (a_index > b_index)
 		{
-			is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+			is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 			++b_it;
 		}
 		else // equal index
@@ -2598,7 +2598,7 @@ bool allclose(const btensor &a, const btensor &b, double rtol, double atol, bool
 	{
 		const auto &b_index = std::get<0>(*b_it);
 		const auto &b_tens = std::get<1>(*b_it);
-		is_allclose &= torch::allclose(b_tens, torch::zeros_like(b_tens), rtol, atol, equal_nan);
+		is_allclose &= torch::allclose(torch::zeros_like(b_tens), b_tens, rtol, atol, equal_nan);
 		++b_it;
 	}
 	return is_allclose;
-- 
2.43.0


From 25855de481825baa53e4bddd7d6e00a797ed58a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:07 +0000
Subject: [PATCH 025/128] fix: element type of the product of a single
 precision block tensor and a scalar

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ed91d1f..4eacbdc 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -902,7 +902,7 @@ btensor btensor::mul(Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	auto out_dtype = torch::result_type(torch::empty({}, _options), other);
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.mul(other_val); }, other),
@@ -968,7 +968,7 @@ btensor btensor::div(btensor::Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = promote_types(_options.dtype(), other.type());
+	auto out_dtype = torch::result_type(torch::empty({}, _options), other);
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
-- 
2.43.0


From 2392aa77995cb7923fac5a4ee7e19fbf8a9683cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:45 +0000
Subject: [PATCH 026/128] fix: element type of the product of block tensors
 when one of them has rank 0

---
 sources/btensor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 4eacbdc..3ed4b57 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1689,7 +1689,9 @@ btensor btensor::broadcast_operation(const btensor &other, F &&f) const
 	auto dtype = torch::typeMetaToScalarType(options().dtype());
 	if constexpr (promote)
 	{
-		dtype = promote_types(options().dtype(), other.options().dtype());
+		// rank 0 tensors don't participate in the promotion on the same footing as the others.
+		dtype = torch::result_type(torch::empty(std::vector<int64_t>(rank, 1), options()),
+		                           torch::empty(std::vector<int64_t>(other.rank, 1), other.options()));
 	}
 	// fmt::print("new_sections_by_dim {}\n", new_sections_by_dim);
 	// fmt::print("new_cvals {}\n", new_cvals);
-- 
2.43.0


From 249bffe1bff60d5211dac177eb351179d51e191f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 027/128] fix: tensorgdot_ and tensorgdot_out discarded the
 result when the output is not contiguous

---
 sources/tensorgdot.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/sources/tensorgdot.cpp b/sources/tensorgdot.cpp
index e17b31f..be86404 100644
--- a/sources/tensorgdot.cpp
+++ b/sources/tensorgdot.cpp
@@ -99,6 +99,16 @@ compute_shape(const torch::Tensor& add, torch::Tensor& t1, torch::Tensor& t2, co
 	return make_tuple(p1, p2, rsizes, size1, csize, size2);
 }
 
+namespace
+{
+// the matrix form of the output is a copy when the memory layout of the output doesn't allow a view.
+void write_back(torch::Tensor& output, const torch::Tensor& matrix_output)
+{
+	if (!matrix_output.is_alias_of(output))
+		output.copy_(matrix_output.reshape(output.sizes()));
+}
+} // namespace
+
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_tens, const torch::Tensor& input1, const torch::Tensor& input2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta, torch::Scalar alpha)
@@ -113,6 +123,7 @@ torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add_te
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	at::addmm_out(rout, add_tens.reshape({size1, size2}), t1, t2, beta, alpha);
+	write_back(output, rout);
 	return output;
 }
 
@@ -147,6 +158,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	write_back(output, rout);
 	return output;
 }
 
@@ -189,6 +201,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, c
 	// multiply and reshape to target size
 	auto rout = output.reshape({size1, size2});
 	rout.addmm_(t1, t2, beta, alpha);
+	write_back(output, rout);
 	return output;
 }
 
-- 
2.43.0


From 2abe9b233e8548064531707d350963974377327f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 028/128] fix: the documentation of tensorgdot exchanged the
 roles of its coefficients, which are those of torch::addmm

---
 include/tensorgdot.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/include/tensorgdot.h b/include/tensorgdot.h
index 929139d..f0cf7bc 100644
--- a/include/tensorgdot.h
+++ b/include/tensorgdot.h
@@ -19,7 +19,7 @@
 namespace quantit
 {
 /**
- * @brief generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param add The input tensor C
@@ -27,15 +27,15 @@ namespace quantit
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor The output tensor D
  */
 torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                          torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                          torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} ­\f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * 
@@ -44,8 +44,8 @@ torch::Tensor tensorgdot(const torch::Tensor& add, const torch::Tensor& mul1, co
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& refrence to the output tensor
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, const torch::Tensor& mul2,
@@ -53,7 +53,7 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
                            torch::Scalar beta = 1, torch::Scalar alpha = 1);
 
 /**
- * generalized tensordot, performs \f$ D_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * generalized tensordot, performs \f$ D_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output the output tensor D
@@ -62,23 +62,23 @@ torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& mul1, con
  * @param mul2 input tensor B
  * @param dims1 list of dimensions of input1 to be summed
  * @param dims2 list of dimension of input2 to be summed
- * @param beta scalar coefficient to mulitply the result of the dot product with.
- * @param alpha scalar coefficient to scale the input tensor
+ * @param beta scalar coefficient to scale the input tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& Reference to the output tensor D
  */
 torch::Tensor& tensorgdot_out(torch::Tensor& output, const torch::Tensor& add, const torch::Tensor& mul1, const torch::Tensor& mul2,
                               torch::IntArrayRef dims1, torch::IntArrayRef dims2,
                               torch::Scalar beta = 1, torch::Scalar alpha = 1);
 /**
- * @brief generalized tensordot, performs \f$ C_{ij...klm} = alpha*C_{ij...klm} + beta*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
+ * @brief generalized tensordot, performs \f$ C_{ij...klm} = beta*C_{ij...klm} + alpha*\sum_{...klm} A_{ij...klm}*B_{ij...klm} \f$
  *        Like tensordot is the equivalent of the matrix mutiplcation for tensors, this routine is the equivalent of 
  *        the generalized matrix multiplication for tensor (torch::addmm).
  * @param output output tensor C, result of the contraction is added to it.
  * @param input1 tensor A
  * @param input2 tensor B
  * @param dims the number of dimensions to contract
- * @param beta scalar coefficient for the addition
- * @param alpha scalar coefficient for the addition
+ * @param beta scalar coefficient to scale the output tensor
+ * @param alpha scalar coefficient to mulitply the result of the dot product with.
  * @return torch::Tensor& reference to the output tensor.
  */
 torch::Tensor& tensorgdot_(torch::Tensor& output, const torch::Tensor& input1, const torch::Tensor& input2,
-- 
2.43.0


From 85592e0618cd1377b9b6b1cf697d30353b4bc2ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:14 +0000
Subject: [PATCH 029/128] fix: contraction with a rank 0 block tensor never
 terminated

---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 3ed4b57..e21c599 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2009,6 +2009,9 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 		// compute the smallest possible block index that correspond to a different output index than the input
 		// The last dim_l dimension do not contribute to the output block index.
 		auto next = std::get<0>(*iterator);
+		if (next.empty()) // rank 0 tensors have a single block, anything that compares larger is past it.
+			next.push_back(0);
+		else
 		if (next.begin() != next.end())
 		{
 			bool null_dim_l = dim_l == 0;
-- 
2.43.0


From 04c6f8fb16455a87ff15e072461739d26ae5202a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 030/128] fix: squeeze threw an exception when a dimension of
 size one has a non-neutral conserved quantity

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e21c599..7337eb0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2151,7 +2151,7 @@ btensor &btensor::squeeze_()
 	{
 		res[dim] *= !(section_number(dim) == 1 and section_size(dim, 0) == 1);
 	}
-	*this = reshape_as(shape_from(res));
+	*this = basic_create_view(res);
 	return *this;
 }
 btensor btensor::squeeze() const
-- 
2.43.0


From e7b34200760fbeaab820b0b02c1efae503ff869e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:46 +0000
Subject: [PATCH 031/128] fix: reshape of a rank 0 tensor wrote out of bounds,
 and empty index groups gave a tensor with blocks of the wrong shape

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7337eb0..9c24afe 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2894,7 +2894,7 @@ btensor::index_list new_block_shape(torch::IntArrayRef index_groups, btensor::co
 	auto index_it = index_groups.begin() + 1;
 	for (auto i = index_groups.front(); i < old_rank; ++i)
 	{
-		if (i >= (*index_it))
+		while (i >= (*index_it)) // more than one step when a group contains no index.
 		{
 			++out_it;
 			++index_it;
@@ -3027,7 +3027,8 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
 	// them from bidirectionnal to random access.
 	auto addresses = btensor::index_list(sections_by_dim.size(), 0);
-	std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
+	if (rank > 0)
+		std::partial_sum(sections_by_dim.begin(), sections_by_dim.end() - 1, addresses.begin() + 1);
 
 	auto out_sections_by_dim = reshape_sections_by_dim(m_index_group, out_rank, sections_by_dim);
 	auto out_size = std::reduce(out_sections_by_dim.begin(), out_sections_by_dim.end());
-- 
2.43.0


From feda43a8a590bc334867b0ec2b43aa99505b250d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:26 +0000
Subject: [PATCH 032/128] fix: views of rank 0 block tensors and assignment to
 them threw an exception

---
 sources/btensor.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 9c24afe..117a6cc 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -692,7 +692,8 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		if (keep)
 		{
 			out_tensor.blocks_list.insert(out_tensor.blocks_list.end(),
-			                              {out_index, std::get<1>(index_block).index(element)});
+			                              {out_index, element.empty() ? std::get<1>(index_block) // rank 0
+			                                                          : std::get<1>(index_block).index(element)});
 		}
 	}
 	if (preserve_rank)
@@ -736,7 +737,11 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 			                          size_view.end()); // because torch factories don't accept iterator pairs.
 			this->blocks_list.insert({out_ind, torch::zeros(size, options())});
 		}
-		this->blocks_list.at(out_ind).index_put_(element, block);
+		auto &out_block = this->blocks_list.at(out_ind);
+		if (element.empty()) // rank 0
+			out_block.copy_(block);
+		else
+			out_block.index_put_(element, block);
 	}
 	return *this;
 }
-- 
2.43.0


From ac009edca62175afa815ad97e477f9fc87a37bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 033/128] fix: views of block tensors ignored the selected
 elements of the dimensions that follow the last one kept

---
 sources/btensor.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 117a6cc..86c4835 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -675,13 +675,12 @@ btensor btensor::basic_create_view(const std::vector<int64_t> &dims, bool preser
 		bool keep = true;
 		auto out_it = out_index.begin();
 		auto filter_it = filter.begin();
-		for (auto index_it = index_in.begin(); index_it != index_in.end() and out_it != out_index.end() and keep;
-		     ++index_it, ++filter_it)
+		for (auto index_it = index_in.begin(); index_it != index_in.end() and keep; ++index_it, ++filter_it)
 		{
-			*out_it = *index_it;
-			auto sliced = *filter_it == -1;
-			keep &= sliced or *index_it == *filter_it;
-			out_it += sliced;
+			if (*filter_it == -1)
+				*(out_it++) = *index_it;
+			else
+				keep = *index_it == *filter_it;
 		}
 		return std::make_tuple(keep, out_index);
 	};
-- 
2.43.0


From bf667d99d7477043bd803acaa9289f416de46669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 034/128] fix: shape_from and views accepted negative element
 indices other than -1 and gave a corrupted shape

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 86c4835..09bbd4d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -507,7 +507,7 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 		auto it_size = sizes.begin();
 		while (it_dims != dims.end())
 		{
-			size_compat &= *it_dims < *it_size or *it_dims == -1;
+			size_compat &= *it_dims < *it_size and *it_dims >= -1;
 			++it_dims;
 			++it_size;
 		}
-- 
2.43.0


From a735b4b0680466f54cfd26970bc0f55f1eda1880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 035/128] fix: basic_index_put_ left the previous content where
 the assigned tensor is zero

---
 sources/btensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 09bbd4d..94ba457 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -724,6 +724,12 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		}
 		return out;
 	};
+	// blocks that aren't stored in the value are zeros
+	for (auto &index_block : basic_create_view(dims))
+	{
+		if (!value.blocks_list.contains(std::get<0>(index_block)))
+			std::get<1>(index_block).zero_();
+	}
 	for (const auto &index_block : value)
 	{
 		const auto &index = std::get<0>(index_block);
-- 
2.43.0


From d04bd1dad01930bb89d4a3e1145c37d6bc7db104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:24 +0000
Subject: [PATCH 036/128] fix: btensor::block accepted block indices of the
 wrong length or outside of the tensor

---
 sources/btensor.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 94ba457..ba79123 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -386,7 +386,14 @@ torch::Tensor &btensor::block(const index_list &block_index) // create the block
                                                              // freestanding sparrse tensor of zeros.
 {
 	if (block_index.size() != rank)
-		std::invalid_argument(fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+		throw std::invalid_argument(
+		    fmt::format("block index is size {}, but size {} expected", block_index.size(), rank));
+	for (size_t i = 0; i < rank; ++i)
+	{
+		if (block_index[i] < 0 or block_index[i] >= sections_by_dim[i])
+			throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+			                                        sections_by_dim[i], i, block_index[i]));
+	}
 	if (!block_conservation_rule_test(block_index))
 	{
 		auto message = fmt::format("block index {} not allowed by selection rule. {} != {}", block_index,
-- 
2.43.0


From 5cae74e2a0eb2820468ebebbf9dbb031fdbeabdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 037/128] fix: basic_index_put_ read past the end of the block
 indices of the assigned tensor

---
 sources/btensor.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index ba79123..f5e29a7 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -725,9 +725,8 @@ btensor &btensor::impl_basic_index_put_(const std::vector<int64_t> &dims, const
 		auto itv = value_index.begin();
 		for (auto ito = out.begin(); ito != out.end(); ++ito)
 		{
-			bool isNegative1 = (*ito) == -1;
-			*ito = (*itv) * isNegative1 + (!isNegative1) * (*ito);
-			itv += isNegative1;
+			if (*ito == -1)
+				*ito = *(itv++);
 		}
 		return out;
 	};
-- 
2.43.0


From 3f1a6fad8e9ca80e2694a4835c0667e86011cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 038/128] fix: conversion of a dense tensor of the wrong size
 to a block tensor kept part of it or made an invalid tensor

---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f5e29a7..68d58d5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2542,6 +2542,9 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 {
 	if (out.dim() != values.dim())
 		throw std::invalid_argument("input arguments have incompatible rank!");
+	if (out.sizes() != values.sizes())
+		throw std::invalid_argument(
+		    fmt::format("input arguments have incompatible sizes! {} and {}", out.sizes(), values.sizes()));
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
-- 
2.43.0


From 52134ecdc4af5ec1a25823bad183d9592d2a7427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 039/128] fix: shape_from of a dense shape wrote past the end
 of its result

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 68d58d5..cbce560 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2328,8 +2328,8 @@ torch_shape shape_from(const torch_shape &shape, const std::vector<int64_t> inds
 	{
 		for (auto &ind : inds)
 		{
-			*it = *shape_it;
-			it += ind == -1;
+			if (ind == -1)
+				*(it++) = *shape_it;
 			++shape_it;
 		}
 	}
-- 
2.43.0


From 2e87fdfb57244db3327d8f4165d4f363c295421e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 040/128] fix: conversion of a dense tensor to a block tensor
 ignored the requested element type and recorded another one than that of its
 blocks

---
 sources/btensor.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index cbce560..e3b3462 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2560,7 +2560,7 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 			                                2, {}, false, {}) > cutoff)
 			        .item()
 			        .toBool()) // only insert the block if it's a significative quantity.
-				out.block(index) = block;
+				out.block(index) = block.to(out.options());
 			// fmt::print("\tindex {}\n\tSlice {}\n\t block {}\n================\n",index,S,out.block(index));
 		}
 		out.block_increment(index);
@@ -2569,14 +2569,14 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 btensor from_basic_tensor(const btensor::vec_list_t &shape_spec, any_quantity selection_rul,
                           const torch::Tensor &values, const torch::Scalar cutoff, c10::TensorOptions opt)
 {
-	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, opt);
+	auto shape = quantit::sparse_zeros(shape_spec, selection_rul, values.options().merge_in(opt));
 	from_basic_impl(shape, values, cutoff);
 	return shape;
 }
 btensor from_basic_tensor_like(const btensor &shape, const torch::Tensor &values, const torch::Scalar cutoff,
                                c10::TensorOptions opt)
 {
-	auto out = quantit::sparse_zeros_like(shape, opt);
+	auto out = quantit::sparse_zeros_like(shape, values.options().merge_in(opt));
 	from_basic_impl(out, values, cutoff);
 	return out;
 }
-- 
2.43.0


From eeb300f69d385febe2ce764683ff11a2a10d9e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:10 +0000
Subject: [PATCH 041/128] fix: find_selection_rule read past the end of the
 conserved quantities when the sizes of its arguments differ

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index e3b3462..5da335c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2634,6 +2634,8 @@ any_quantity find_selection_rule(const torch::Tensor &tens, const btensor &shape
 		throw std::invalid_argument("the input tensor must be rank 2");
 	if (shape.dim() != 2)
 		throw std::invalid_argument("the shape specifying btensor must be rank 2");
+	if (shape.sizes() != tens.sizes())
+		throw std::invalid_argument("the input tensor and the shape specifying btensor must have the same sizes");
 	auto state = torch::zeros(tens.sizes()[tens.dim() - 1], tens.options());
 	auto quantitiesi = [&shape](size_t element_pos, size_t dim) -> const vquantity &
 	{ // return type must be specified, because return by value isn't an option here.
-- 
2.43.0


From d84b0dc48d15da9a604a50c17d4714c5c03bb6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:54 +0000
Subject: [PATCH 042/128] fix: cval_shift gave a tensor whose blocks violate
 its selection rule

---
 include/blockTensor/btensor.h | 12 ++++++------
 sources/btensor.cpp           |  2 +-
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index 6686698..b83baeb 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -676,16 +676,16 @@ class btensor
 	 */
 	btensor &inverse_cvals_();
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
-	 * conservation rule.
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+	 * conservation rule, such that the same blocks are allowed.
 	 *
 	 * @param shift shift to apply
 	 * @param dim dimension to which the shift is applied
 	 */
 	btensor cval_shift(any_quantity_cref shift, int64_t dim) const;
 	/**
-	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
-	 * conservation rule.
+	 * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+	 * conservation rule, such that the same blocks are allowed.
 	 *
 	 * @param shift shift to apply
 	 * @param dim dimension to which the shift is applied
@@ -1465,8 +1465,8 @@ inline torch::Tensor inverse_cvals(torch::Tensor &&tens) { return std::move(tens
 inline btensor &inverse_cvals_(btensor &tens) { return tens.inverse_cvals_(); }
 inline torch::Tensor &inverse_cvals_(torch::Tensor &tens) { return tens; }
 /**
- * @brief Shifts the conserved quantities of one dimension of the tensor, applies the opposite shift to the
- * conservation rule.
+ * @brief Shifts the conserved quantities of one dimension of the tensor, applies the same shift to the
+ * conservation rule, such that the same blocks are allowed.
  *
  * @param shift shift to apply
  * @param dim dimension to which the shift is applied
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 5da335c..f53e0f5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2208,7 +2208,7 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
 {
 	shift_impl(shift, dim);
-	selection_rule.value *= shift.inverse();
+	selection_rule.value *= shift;
 	return *this;
 }
 
-- 
2.43.0


From 11e8536ac51375ee6be3d18765c390840f2f7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:16 +0000
Subject: [PATCH 043/128] fix: cval_shift_ of a tensor by one of its own
 charges gave an invalid tensor

---
 sources/btensor.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f53e0f5..df93d6d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2205,8 +2205,9 @@ btensor btensor::cval_shift(any_quantity_cref shift, int64_t dim) const
 	return out.cval_shift_(shift, dim);
 }
 
-btensor &btensor::cval_shift_(any_quantity_cref shift, int64_t dim)
+btensor &btensor::cval_shift_(any_quantity_cref in_shift, int64_t dim)
 {
+	const any_quantity shift(in_shift); // the input can be one of the quantities modified here
 	shift_impl(shift, dim);
 	selection_rule.value *= shift;
 	return *this;
@@ -2216,7 +2217,7 @@ btensor &btensor::non_conserving_cval_shift_(any_quantity_cref shift, int64_t di
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
-	shift_impl(shift, dim);
+	shift_impl(any_quantity(shift), dim); // the input can be one of the quantities modified here
 	return *this;
 }
 
-- 
2.43.0


From a135bb7115a3152dca6035391bf12585d2067ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 044/128] fix: tensordot of block tensors used the contracted
 dimensions as indices before verifying them

---
 sources/btensor.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index df93d6d..a0bca83 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -855,15 +855,27 @@ template bool btensor::check_product_compat<true>(const btensor &in1, const bten
  * @return std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>>
  */
 std::tuple<std::vector<int64_t>, std::vector<int64_t>, std::vector<int64_t>> compute_tdot_shape(
-    const btensor &input1, const btensor &input2, torch::IntArrayRef dims1, torch::IntArrayRef dims2)
+    const btensor &input1, const btensor &input2, torch::IntArrayRef in_dims1, torch::IntArrayRef in_dims2)
 {
-	TORCH_CHECK(dims1.size() == dims2.size(), "both dimension lists should have the same length.")
+	TORCH_CHECK(in_dims1.size() == in_dims2.size(), "both dimension lists should have the same length.")
 	TORCH_CHECK(input1.selection_rule->get().same_type(input2.selection_rule->get()),
 	            "the two tensors have different type of conserved quantities");
-
-	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
+	auto positive_dims = [](torch::IntArrayRef dims, int64_t rank)
+	{
+		std::vector<int64_t> out(dims.begin(), dims.end());
+		for (auto &dim : out)
+		{
+			TORCH_CHECK(dim < rank and dim >= -rank, "contracted dimension ", dim, " of a tensor of rank ", rank);
+			dim += rank * (dim < 0);
+		}
+		return out;
+	};
+	const auto dims1 = positive_dims(in_dims1, input1.dim());
+	const auto dims2 = positive_dims(in_dims2, input2.dim());
 	auto cdims1 = at::dim_list_to_bitset(dims1, input1.dim());
 	auto cdims2 = at::dim_list_to_bitset(dims2, input2.dim());
+
+	btensor::check_product_compat<true>(input1, input2, dims1, dims2);
 	std::vector<int64_t> p1, p2,
 	    out_section_by_dim; // p1, p2: input permutations, out_section_by_dim: sizes of the result
 	p1.reserve(input1.dim());
-- 
2.43.0


From 7349d3e026ab9a38643d76d596d4adf61f91a4ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 045/128] fix: contraction of dimensions whose section sizes
 differ was accepted when no pair of blocks meets

---
 sources/btensor.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a0bca83..de51545 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -834,6 +834,18 @@ bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch
 			const auto dims2i = dims2[i];
 			TORCH_CHECK(ok_CR, fmt::format(mismatch_cons_rule, dims1i, dims2i));
 		}
+		if (ok_CR)
+		{
+			auto [size1_begin, size1_end] = in1.section_sizes(dims1[i]);
+			auto [size2_begin, size2_end] = in2.section_sizes(dims2[i]);
+			ok_CR = std::equal(size1_begin, size1_end, size2_begin, size2_end);
+		}
+		if constexpr (Throws)
+		{
+			TORCH_CHECK(ok_CR, "the sections of contracted dimensions need to have the same sizes, but the sizes differ "
+			                   "when contracting dim ",
+			            dims1[i], " of the left tensor with dim ", dims2[i], " of the right tensor");
+		}
 		// no broadcast dimension like torch::tensordot. i can't think of a way for it to make sense
 		// with the quantum number.
 	}
-- 
2.43.0


From 3620b6d4d689b5b7cc4605ff95cd0f88cc4c7099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 046/128] fix: permute and transpose accessed memory out of
 bounds with repeated or nonexistent dimensions

---
 sources/btensor.cpp | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index de51545..7595e08 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1806,11 +1806,23 @@ btensor btensor::permute(torch::IntArrayRef in_permutation) const
 	block_list_t::content_t out_block_list; // unordered.
 	out_block_list.reserve(blocks_list.size());
 	index_list out_section_by_dim(rank);
-	assert(in_permutation.size() == rank);
+	if (in_permutation.size() != rank)
+		throw std::invalid_argument(
+		    fmt::format("permutation of {} dimensions requested of a tensor of rank {}", in_permutation.size(), rank));
 	std::vector<int64_t> permutation(rank);
 	// turn it into a positive indexed permutation.
 	std::transform(in_permutation.begin(), in_permutation.end(), permutation.begin(),
 	               [rank = this->rank](auto &&x) { return rank * (x < 0) + x; });
+	{
+		std::vector<bool> present(rank, false);
+		for (auto &dim : permutation)
+		{
+			if (dim < 0 or dim >= rank or present[dim])
+				throw std::invalid_argument(fmt::format(
+				    "{} isn't a permutation of the dimensions of a tensor of rank {}", fmt::join(in_permutation, ","), rank));
+			present[dim] = true;
+		}
+	}
 	// permute the tensors and their position in the block matrix
 	for (size_t i = 0; i < rank; ++i)
 	{
@@ -1999,6 +2011,9 @@ btensor btensor::transpose(int64_t dim0, int64_t dim1) const
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim0 >= rank or dim1 < 0 or dim1 >= rank)
+		throw std::invalid_argument(
+		    fmt::format("can't transpose dimensions {} and {} of a tensor of rank {}", dim0, dim1, rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
@@ -2010,6 +2025,9 @@ btensor &btensor::transpose_(int64_t dim0, int64_t dim1)
 	// convert to a permutation? That's the simplest option for me.
 	dim0 = rank * (dim0 < 0) + dim0;
 	dim1 = rank * (dim1 < 0) + dim1;
+	if (dim0 < 0 or dim0 >= rank or dim1 < 0 or dim1 >= rank)
+		throw std::invalid_argument(
+		    fmt::format("can't transpose dimensions {} and {} of a tensor of rank {}", dim0, dim1, rank));
 	std::vector<int64_t> permutation(rank);
 	std::iota(permutation.begin(), permutation.end(), 0);
 	permutation[dim0] = dim1;
-- 
2.43.0


From b2d3a0dab9e09d10d20169ed8c08c2aee439796b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 047/128] fix: squeeze of a nonexistent dimension read out of
 bounds

---
 sources/btensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 7595e08..bc3e59d 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2189,6 +2189,9 @@ btensor btensor::tensordot(const btensor &other, torch::IntArrayRef dim_self, to
 }
 btensor &btensor::squeeze_(int64_t dim)
 {
+	dim = rank * (dim < 0) + dim;
+	if (dim < 0 or dim >= rank)
+		throw std::invalid_argument(fmt::format("can't squeeze dimension {} of a tensor of rank {}", dim, rank));
 	if (section_number(dim) == 1 and section_size(dim, 0) == 1)
 	{ // do the squeeze
 		std::vector<int64_t> res(this->dim(), -1);
-- 
2.43.0


From 652c306a4a55dc5aa06b791e60ae8acb908e1150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 048/128] fix: reshape with index groups out of order or beyond
 the rank accessed memory out of bounds

---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bc3e59d..490e38c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3089,6 +3089,10 @@ btensor btensor::reshape(torch::IntArrayRef index_groups) const
 	m_index_group[0] = 0;
 	m_index_group.back() = rank;
 	std::copy(index_groups.begin(), index_groups.end(), m_index_group.begin() + 1);
+	if (not std::is_sorted(m_index_group.begin(), m_index_group.end()))
+		throw std::invalid_argument(fmt::format(
+		    "the index groups [{}] must be in increasing order, between zero and the rank ({}) of the tensor",
+		    fmt::join(index_groups, ","), rank));
 	// adresses contains the offset for section quantities for each dimensions of the tensor. perhaps i should
 	// refactor such that this quantity is a class property. wouldn't be too hard. require modification to the
 	// constructor to initialize this, and modification to the view subclasses to make use of this. Would upgrade
-- 
2.43.0


From 7105a74689eca792baf1697afecf885d2ede714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 049/128] fix: set_selection_rule_ accepted a conserved
 quantity of another type than those of the tensor

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 490e38c..2433929 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2277,6 +2277,8 @@ btensor &btensor::set_selection_rule_(any_quantity_cref value)
 {
 	if (blocks_list.size() != 0)
 		throw std::logic_error("This transformation can only be applied to empty btensors");
+	if (rank > 0 and not selection_rule.value.get().same_type(value))
+		throw std::invalid_argument("the selection rule must be of the same type as the conserved quantities of the tensor");
 	selection_rule.value = value;
 	return *this;
 }
-- 
2.43.0


From ef06d7e58dfd5128572399c34e70aa601a316448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 050/128] fix: check_tensor read out of bounds for blocks
 outside of the tensor, and accepted a wrong number of conserved quantities

---
 sources/btensor.cpp | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 2433929..68e701c 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -426,20 +426,39 @@ std::string btensor::check_tensor(const btensor &T)
 		    "number of section accross all dimension ({}) incoherent with number of specified section sizes ({})\n",
 		    total_sections, T.sections_sizes.size());
 
+	if (total_sections != T.c_vals.size())
+		M += fmt::format(
+		    "number of section accross all dimension ({}) incoherent with number of specified conserved quantities ({})\n",
+		    total_sections, T.c_vals.size());
+	if (M != "")
+		return M; // the blocks can't be verified against an incoherent structure.
+
 	for (const auto &a : T.blocks_list)
 	{
 		auto &ind = std::get<0>(a);
 		if (ind.size() != T.rank)
-			M += fmt::format("block index {} invalid: number of index differ from rank", std::get<0>(a));
+		{
+			M += fmt::format("block index {} invalid: number of index differ from rank\n", std::get<0>(a));
+			continue;
+		}
+		bool in_range = true;
+		for (auto i = 0U; i < ind.size(); ++i)
+		{
+			if (ind[i] < 0 or !(ind[i] < T.sections_by_dim[i]))
+			{
+				M += fmt::format("block index {} {}th element is negative or not smaller than the number of section along that "
+				                 "dimension ({})\n",
+				                 ind, i, T.sections_by_dim[i]);
+				in_range = false;
+			}
+		}
+		if (not in_range)
+			continue;
 		any_quantity sel_test = T.selection_rule.value.neutral();
 		{
 			std::string cq = "";
 			for (auto i = 0U; i < ind.size(); ++i)
 			{
-				if (!(ind[i] < T.sections_by_dim[i]))
-					M += fmt::format(
-					    "block index {} {}th element is greater than the number of section along that dimension ({})\n",
-					    ind, i, T.sections_by_dim[i]);
 				const auto &qt = T.section_conserved_qtt(i, ind[i]);
 				sel_test += qt;
 				cq += fmt::format("index {}: ", i) + fmt::format("{}\n", qt);
-- 
2.43.0


From 0a185cf79b86786aa5fbf067441b4670e98ccb93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:31 +0000
Subject: [PATCH 051/128] fix: section accessors compared the requested section
 with its size rather than with the number of sections, and built an exception
 without throwing it

---
 sources/btensor.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 68e701c..dc56682 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -61,14 +61,14 @@ void throw_on_bad_arg_blocks(size_t index, size_t block, size_t rank, size_t sec
 	if (index >= rank)
 		throw std::invalid_argument(fmt::format("given index {} is too large for rank {}.", index, rank));
 	if (block >= section_size)
-		std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
+		throw std::invalid_argument(fmt::format("there are only {} blocks along the dimension {}. block requested {}",
 		                                  section_size, index, block));
 }
 
 size_t btensor::section_size(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, index < rank ? sections_by_dim[index] : 0);
 	assert(index < sections_by_dim.size());
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
@@ -78,13 +78,15 @@ size_t btensor::section_size(size_t index, size_t block) const
 any_quantity_cref btensor::section_conserved_qtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, index < rank ? sections_by_dim[index] : 0);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return c_vals[ori + block];
 }
 any_quantity_cref btensor::element_conserved_qtt(size_t dim, size_t element) const
 {
+	if (dim >= rank)
+		throw std::invalid_argument(fmt::format("given dimension {} is too large for rank {}.", dim, rank));
 	auto dim_size = sizes()[dim];
 	if (element >= dim_size)
 		throw std::invalid_argument(fmt::format(
@@ -125,7 +127,7 @@ std::tuple<any_quantity_vector::iterator, any_quantity_vector::iterator> btensor
 std::tuple<size_t, any_quantity_cref> btensor::section_size_cqtt(size_t index, size_t block) const
 {
 #ifndef NDEBUG
-	throw_on_bad_arg_blocks(index, block, rank, sections_sizes[index]);
+	throw_on_bad_arg_blocks(index, block, rank, index < rank ? sections_by_dim[index] : 0);
 #endif
 	auto ori = std::reduce(sections_by_dim.begin(), sections_by_dim.begin() + index, 0);
 	return std::tuple<size_t, any_quantity_cref>(sections_sizes[ori + block], any_quantity_cref(c_vals[ori + block]));
@@ -565,9 +567,8 @@ btensor btensor::shape_from(const std::vector<int64_t> &dims) const
 			// fail silently if the index is too large. require a check earlier on.
 		}
 		block_ind -= std::distance(sec_sizes_beg, sec_sizes_end);
-		out_sel_rule.op(
-		    section_conserved_qtt(i, block_ind).inverse(),
-		    not is_slice); // when el_index is negative, block_ind should be 0 and !is_slice false, which is always ok.
+		if (not is_slice) // the dimensions that are kept can have no section at all.
+			out_sel_rule *= section_conserved_qtt(i, block_ind).inverse();
 		++i;
 	}
 	out_sections_by_dim.resize(out_rank);
-- 
2.43.0


From 0f8f83403904891ea0b21029a53fbeeb6ef3c8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:07 +0000
Subject: [PATCH 052/128] fix: check_product_compat ended the process when the
 tensors have different types of conserved quantities

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dc56682..d9ee88a 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -819,7 +819,7 @@ template <bool Throws>
 bool btensor::check_product_compat(const btensor &in1, const btensor &in2, torch::IntArrayRef dims1,
                                    torch::IntArrayRef dims2) noexcept(!Throws)
 {
-	bool ok_CR = dims1.size() == dims2.size();
+	bool ok_CR = dims1.size() == dims2.size() and in1.selection_rule->get().same_type(in2.selection_rule->get());
 	// fmt::print("{}\n\n {}\n\n",in1,in2);
 	for (size_t i = 0; i < dims1.size() and ok_CR; ++i)
 	{
-- 
2.43.0


From dfbbae2438011d1307cf1cf446a71eddf4101e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:03 +0000
Subject: [PATCH 053/128] fix: addition of block tensors with different element
 types threw an exception, sometimes after a partial modification, or gave a
 tensor with blocks of different types

---
 sources/btensor.cpp | 51 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 14 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d9ee88a..eed6c3f 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2772,22 +2772,41 @@ size_t get_weakcount(const torch::Tensor &tens)
 
 // end of nasty shenanigans
 
+// Element type of the blocks.
+torch::ScalarType stored_type(const btensor &tens)
+{
+	return tens.begin() != tens.end() ? std::get<1>(*tens.begin()).scalar_type()
+	                                  : at::typeMetaToScalarType(tens.options().dtype());
+}
+// Element type of the sum, as determined by torch. Throws if torch can't do this addition.
+torch::ScalarType sum_type(const btensor &a, const btensor &b, btensor::Scalar alpha)
+{
+	return torch::zeros({1}, stored_type(a)).add(torch::zeros({1}, stored_type(b)), alpha).scalar_type();
+}
+// Element type of the inplace sum. Throws, before anything is modified, if torch can't do this addition in place.
+torch::ScalarType inplace_sum_type(const btensor &a, const btensor &b, btensor::Scalar alpha)
+{
+	if (a.begin() == a.end()) // there's no value with a type to preserve.
+		return sum_type(a, b, alpha);
+	return torch::zeros({1}, stored_type(a)).add_(torch::zeros({1}, stored_type(b)), alpha).scalar_type();
+}
+
 btensor btensor::add(const btensor &other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto out_type = sum_type(*this, other, alpha);
 	auto out = *this;
 	for (auto &a : out)
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(out_type, false, true);
 	}
 	out.blocks_list.merge(
 	    other.blocks_list,
 	    // collision : do an addition in place
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision, multiply with the constant and make an independent copy
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	    [&alpha, out_type](torch::Tensor &x) { x = x.mul(alpha).to(out_type); });
+	out._options = out._options.dtype(out_type);
 	return out;
 }
 /*!
@@ -2797,10 +2816,11 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto out_type = sum_type(*this, other, alpha);
 	auto out = *this;
 	for (auto &a : out) // the copy is shallow, and the collisions are resolved in place.
 	{
-		std::get<1>(a) = std::get<1>(a).clone();
+		std::get<1>(a) = std::get<1>(a).to(out_type, false, true);
 	}
 	out.blocks_list.merge(
 	    other.blocks_list, // must not use the move merge, no way to get the nocollision case to behave correctly
@@ -2808,21 +2828,20 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	                       // change the cost of the operations. collision
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision
-	    [&alpha](torch::Tensor &x)
+	    [&alpha, out_type](torch::Tensor &x)
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
 		    // view or the base of one, permute and transpose make views.
-		    if (get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
+		    if (x.scalar_type() != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
-			    x = x.mul(alpha);
+			    x = x.mul(alpha).to(out_type);
 		    }
 		    else
 		    {
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
-	if (out.begin() != out.end())
-		out._options = std::get<1>(*out.begin()).options();
+	out._options = out._options.dtype(out_type);
 	return out;
 }
 /*!
@@ -2837,10 +2856,12 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	// of is to implement the state sharing logic at the level of the btensor as well. That's quite a bit of work
 	// and won't be done right away.
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto out_type = inplace_sum_type(*this, other, alpha);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x) { x = x.mul(alpha); });
+	    [&alpha, out_type](torch::Tensor &x) { x = x.mul(alpha).to(out_type); });
+	_options = _options.dtype(out_type);
 	return *this;
 }
 /**
@@ -2849,23 +2870,25 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 btensor &btensor::add_(btensor &&other, Scalar alpha)
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto out_type = inplace_sum_type(*this, other, alpha);
 	auto b_blocks = std::move(other.blocks_list);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha](torch::Tensor &x)
+	    [&alpha, out_type](torch::Tensor &x)
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
 		    // view or the base of one, permute and transpose make views.
-		    if (get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
+		    if (x.scalar_type() != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
-			    x = x.mul(alpha);
+			    x = x.mul(alpha).to(out_type);
 		    }
 		    else
 		    {
 			    x.mul_(alpha); // we are the only one with a handle to this tensor now, so we do it in place.
 		    }
 	    });
+	_options = _options.dtype(out_type);
 	return *this;
 }
 /**
-- 
2.43.0


From cce76040ccde84ab34dbfc62557d8b0b163813da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 054/128] fix: decompositions of block tensors converted them
 to the default element type, and dropped the imaginary part of complex
 tensors

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1dd5886..27b0354 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,7 +131,7 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
-	auto out_tensor = torch::zeros(tensor_size);
+	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
 	{
-- 
2.43.0


From 78d91d43a4ea22b63c433a49b207c6b0682351c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 055/128] fix: reshape_as read out of bounds when a dimension
 has no section

---
 sources/btensor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index eed6c3f..34be8e0 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3084,6 +3084,8 @@ bool compatible_sections_by_dim(const btensor::index_list &lhs_sections_by_dim,
 // with the block)
 bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 {
+	if (std::find(lhs.section_numbers().begin(), lhs.section_numbers().end(), 0) != lhs.section_numbers().end())
+		return true; // there are no possible blocks.
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
@@ -3106,6 +3108,8 @@ bool compatible_c_vals(const btensor &lhs, const btensor &rhs)
 // each of the possible block have the same total number of elements.
 bool compatible_block_size(const btensor &lhs, const btensor &rhs)
 {
+	if (std::find(lhs.section_numbers().begin(), lhs.section_numbers().end(), 0) != lhs.section_numbers().end())
+		return true; // there are no possible blocks.
 	bool out = true;
 	auto lhs_index = btensor::index_list(lhs.dim(), 0);
 	auto rhs_index = btensor::index_list(rhs.dim(), 0);
-- 
2.43.0


From 1f1187b66b65d007919d1f9c4002897a5f5bb23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 056/128] fix: decompositions of a block tensor without blocks
 went past the end of the block list

---
 sources/btensor_linalg.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 27b0354..d974c8a 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -232,10 +232,8 @@ compact_dense(const btensor &tensor)
 	out_type out_tensors(compact_tensor_count(block_list, rank_greater_than_2, rank, equal_index, equal_c_vals));
 	// create the list of <tensorIndex, bloc_position> pairs for all the sections involved.
 	auto it1 = block_list.begin();
-	auto it2 = block_list.begin() + 1;
+	auto it2 = block_list.begin() + (it1 != block_list.end());
 	auto out_it = out_tensors.begin();
-	auto block_list_l = std::distance(it1, block_list.end());
-	auto out_l = std::distance(out_it, out_tensors.end());
 	// for (; it2 != block_list.end(); ++it2)//skips the last set of blocks.
 	while (it1 != block_list.end())
 	{
@@ -247,7 +245,8 @@ compact_dense(const btensor &tensor)
 			++out_it;
 			it1 = it2;
 		}
-		++it2;
+		if (it2 != block_list.end())
+			++it2;
 	}
 	// concatenate the blocs according to their bloc position.
 	// return the tensor and the list.
-- 
2.43.0


From 1acd0190c5f25ae0ee9994c5fb02bc913a25f023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:22 +0000
Subject: [PATCH 057/128] fix: eigh of a block tensor gave wrong results when
 the first block row does not contain all the columns in order

---
 sources/btensor_linalg.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index d974c8a..8fb2be3 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -131,6 +131,15 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	// The columns are encountered in an arbitrary order, but the list is sorted: give them contiguous slices in that order,
+	// as for the rows. The eigenvalue decomposition needs the rows and columns to be in the same order.
+	col_acc = 0;
+	for (auto &[col, slice] : encountered_block_col)
+	{
+		auto slice_end = col_acc + (slice.stop() - slice.start());
+		slice = torch::indexing::Slice(col_acc, slice_end);
+		col_acc = slice_end;
+	}
 	auto out_tensor = torch::zeros(tensor_size, start->second.options());
 	for (auto it = start; it != end;
 	     ++it) // stuff the blocks in the dense tensor. can be parallelized, but false sharing can occur.
-- 
2.43.0


From 770c5cc99137757ce4da986452597d3234887404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 058/128] fix: eigh gave eigenvectors whose blocks violate
 their selection rule when the first section has a non-neutral conserved
 quantity

---
 sources/btensor_linalg.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 8fb2be3..dfcda6f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -333,9 +333,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape)
-	                           .shift_selection_rule_(tensor.section_conserved_qtt(tensor.dim() - 1, 0).inverse()),
-	                       rightD_shape);
+	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
-- 
2.43.0


From 0730637a4feb1c6f5b542d5c1903422207b1f16a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 059/128] fix: truncation of a whole section went past the end
 of the block list or left some of its blocks in the unitary tensors

---
 sources/btensor_linalg.cpp | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index dfcda6f..a1b975f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -694,23 +694,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	to_remove.reserve(std::distance(d.begin(), d.end()));
 	auto remove_unit_blocks = [](btensor &unitary, const auto &d_ind)
 	{
-		auto U_src = unitary.begin();
-		auto U_dest = unitary.begin();
-		while (U_dest != unitary.end())
-		{
-			auto &src_ind = std::get<0>(*U_src);
-			auto &dest_ind = std::get<0>(*U_dest);
-			U_dest += (dest_ind.back() == d_ind.back());
-			if (U_dest != U_src and U_dest != unitary.end())
-			{
-				swap(*U_dest, *U_src);
-			}
-			U_dest += U_dest != unitary.end(); // stop incrementing if we reached the end
-			++U_src;
-		}
-		unitary.blocks_list.resize(
-		    unitary.blocks_list.size() -
-		    std::distance(U_src, U_dest)); // the unwanted blocks are pushed to the end, resizing down destroy them.
+		auto new_end = std::remove_if(unitary.begin(), unitary.end(), [&d_ind](const auto &block)
+		                              { return std::get<0>(block).back() == d_ind.back(); });
+		unitary.blocks_list.erase(new_end, unitary.end());
 	};
 	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
 	{
-- 
2.43.0


From eb291b2cf243544b2326073311c9210d2391c9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 060/128] fix: truncating decomposition of a block tensor
 without blocks threw an exception

---
 sources/btensor_linalg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index a1b975f..6b12e35 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -669,6 +669,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	assert(d.dim() == 1);
 	// prepare a list containing all the singular value
 	auto L = std::accumulate(d.begin(), d.end(), 0, [](auto &&a, auto &&b) { return a + std::get<1>(b).sizes()[0]; });
+	if (L == 0) // no weights: there is nothing to truncate.
+		return std::make_tuple(std::move(d), std::move(unitaries));
 	auto vd = torch::zeros(
 	    {L}, torch::device(torch::kCPU).dtype(torch::kDouble)); // always done on the CPU with double precicion
 	size_t n = 0;
-- 
2.43.0


From 614f65bb815ba4f188c796e0b05b8aafd471d287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:20 +0000
Subject: [PATCH 061/128] fix: truncating eigh of block tensors discarded the
 eigenvectors, and kept the wrong eigenvalues; truncation kept fewer zeros
 than the minimum size

---
 sources/btensor_linalg.cpp | 35 +++++++++++++++++------------------
 1 file changed, 17 insertions(+), 18 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 6b12e35..1409a0a 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -678,18 +678,19 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	{
 		auto &tens = std::get<1>(block);
 		auto l = tens.sizes()[0];
-		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens); // bug here.
+		vd.index_put_({torch::indexing::Slice(n, n + l)}, tens.abs()); // eigenvalues can be negative.
 		n += l;
 	}
 	// quantit::print(vd);
 	vd = std::get<0>(
 	    vd.sort(-1, true)); // sort the last (only) dimension in descending order //no inplace sort in torch...
 	// vd is now sorted in ascending order.
-	auto smallest_value = vd.index({torch::indexing::Ellipsis, compute_last_index(vd, tol, pow, min, max)});
-	smallest_value -=
-	    2 * smallest_value * epsilon(d.options().dtype()); // Better chance to preserve degenerate multiplets that way.
-	// fmt::print("epsilon {}\n",epsilon(smallest_value).toDouble());
-	// for each block trio, we can remove all the values smaller than the one in smallest_value
+	auto last_kept = compute_last_index(vd, tol, pow, min, max);
+	double smallest_value =
+	    last_kept < 0 ? std::numeric_limits<double>::infinity() : vd.index({last_kept}).item().toDouble();
+	smallest_value *=
+	    1 - 2 * epsilon(d.options().dtype()).toDouble(); // Better chance to preserve degenerate multiplets that way.
+	// for each block trio, we can remove all the values smaller than smallest_value
 	// without inducing an error larger than the tol.
 	auto d_it = d.end();
 	std::vector<btensor::index_list> to_remove;
@@ -700,9 +701,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		                              { return std::get<0>(block).back() == d_ind.back(); });
 		unitary.blocks_list.erase(new_end, unitary.end());
 	};
-	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const auto last_index)
+	auto trunc_unit_block = [&d](btensor &U, const auto &d_ind, const torch::Tensor &kept)
 	{
-		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = last_index;
+		U.sections_sizes[U.sections_sizes.size() - (d.sections_sizes.size() - d_ind.back())] = kept.size(0);
 		using namespace torch::indexing;
 		auto U_it = U.begin();
 		while (U_it != U.end())
@@ -710,7 +711,7 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 			auto &U_ind = std::get<0>(*U_it);
 			auto &Ub = std::get<1>(*U_it);
 			if (U_ind.back() == d_ind.back())
-				Ub = Ub.index({Ellipsis, Slice(0, last_index)});
+				Ub = Ub.index_select(-1, kept);
 			++U_it;
 		}
 	};
@@ -720,10 +721,8 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		auto &d_ind = std::get<0>(*d_it);
 		auto &db = std::get<1>(*d_it);
 		using namespace torch::indexing;
-		// fmt::print("last_index! {}\n\n", db > smallest_value);
-		// fmt::print("last_index other order because of implicit casts!! {}\n\n",  smallest_value < db);
-		auto last_index = lower_bound(db, smallest_value.item());
-		if (last_index == 0)
+		auto kept = torch::nonzero(db.abs() >= smallest_value).flatten(); // the eigenvalues aren't in decreasing order.
+		if (kept.size(0) == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
 			// changing the shape of the blocktensor. This mean the resulting tensor will have extra structure, with no
@@ -737,12 +736,12 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		}
 		else
 		{ // truncate d
-			db = db.index({Slice(0, last_index)});
+			db = db.index_select(0, kept);
 			// adjust the section sizes
-			d.sections_sizes[d_ind.back()] = last_index;
+			d.sections_sizes[d_ind.back()] = kept.size(0);
 			// truncate all the blocks in U on the section matching with the current d block.
-			for_each(unitaries, [&d_ind, &last_index, &trunc_unit_block](btensor &U)
-			         { return trunc_unit_block(U, d_ind, last_index); });
+			for_each(unitaries,
+			         [&d_ind, &kept, &trunc_unit_block](btensor &U) { return trunc_unit_block(U, d_ind, kept); });
 		}
 	}
 	return std::make_tuple(std::move(d), std::move(unitaries));
@@ -781,7 +780,7 @@ std::tuple<btensor, btensor> truncate(std::tuple<btensor, btensor> &&e_S, size_t
                                       btensor::Scalar pow)
 {
 	auto [d, unit] =
-	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<0>(e_S))), max, min, tol, pow);
+	    truncate_impl(std::move(std::get<0>(e_S)), std::make_tuple(std::move(std::get<1>(e_S))), max, min, tol, pow);
 	return std::make_tuple(std::move(d), std::move(std::get<0>(unit)));
 }
 std::tuple<btensor, btensor, btensor> truncate(btensor &&U, btensor &&e, btensor &&S, size_t max, size_t min,
-- 
2.43.0


From f52376f0db2eaf556bc6806d0d6fb549ab0f1abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:35 +0000
Subject: [PATCH 062/128] fix: the singular values and eigenvalues of complex
 block tensors were recorded as complex, which made the truncating
 decompositions throw an exception

---
 sources/btensor_linalg.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 1409a0a..f0861bb 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -329,7 +329,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	             .neutral_shape_()
+	             .to(tensor.options().dtype(
+	                 c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype())))); // real weights
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
@@ -441,7 +444,10 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape).neutral_shape_();
+	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	             .neutral_shape_()
+	             .to(tensor.options().dtype(
+	                 c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype())))); // real weights
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-- 
2.43.0


From 753417d56a7bfbb65769d576604206fd7fbeb163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:49 +0000
Subject: [PATCH 063/128] fix: compute_first_index_ascending read past the end
 of the values, and compared the error with the tolerance rather than its
 power

---
 sources/LinearAlgebra.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 6bafc72..b3fea4b 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -28,18 +28,18 @@ int64_t compute_first_index_ascending(torch::Tensor d, torch::Scalar tol, torch:
 	// not trying to optimize based on underlying type of the tensors. might be necessary, but will require significant
 	// efforts.
 	using namespace torch::indexing;
-	auto Last_dim_size = d.sizes()[d.sizes().size() - 1];
-	// auto last_index = Last_dim_size-1;
+	const size_t Last_dim_size = d.sizes()[d.sizes().size() - 1];
+	auto toln = torch::pow(torch::ones({}, torch::kDouble) * tol, pow);
 	int64_t first_index = 0;
-	auto trunc_val = d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
-	auto min_index = Last_dim_size - min_size;
-	auto max_index = Last_dim_size - max_size;
-	while (first_index <= min_index)
+	const int64_t min_index = Last_dim_size - std::min(min_size, Last_dim_size); // keep at least min_size values.
+	const int64_t max_index = Last_dim_size - std::min(max_size, Last_dim_size); // and at most max_size.
+	auto trunc_val = torch::zeros_like(d.index({Ellipsis, 0}).abs());
+	while (first_index < min_index)
 	{
-		if (  (trunc_val > tol).any().item().to<bool>() and first_index >= max_index)
+		trunc_val += d.index({Ellipsis, first_index}).abs().pow_(pow);
+		if ((trunc_val > toln).any().item().to<bool>() and first_index >= max_index)
 			break;
 		++first_index;
-		trunc_val += d.index({Ellipsis, static_cast<int64_t>(first_index)}).abs().pow_(pow);
 	}
 	return first_index;
 }
-- 
2.43.0


From 3497d8dce8462edfedc74bd3378b23a6de02aca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 064/128] fix: compute_last_index read out of bounds when no
 minimum size is asked, and rounded the tolerance to the default element type

---
 sources/LinearAlgebra.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index b3fea4b..3fa697d 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -61,15 +61,16 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
 	// not trying to optimize based on underlying type of the tensors. might be necessary, but will require significant efforts.
 	using namespace torch::indexing;
 	auto Last_dim_size = d.sizes()[d.sizes().size()-1];
-	auto toln = torch::pow(torch::ones({})*tol,pow);
+	auto toln = torch::pow(torch::ones({},torch::kDouble)*tol,pow);
 	int64_t last_index = Last_dim_size-1;
 	auto trunc_val = d.index({Ellipsis,last_index}).abs().pow(pow);// will have to test to make sure we're not doing the abs and pow in place in d
-	while (last_index >= min_size)
+	while (last_index >= 0 and static_cast<size_t>(last_index) >= min_size)
 	{
-		if (  (  trunc_val > toln).any().item().to<bool>() and last_index < max_size)
+		if (  (  trunc_val > toln).any().item().to<bool>() and static_cast<size_t>(last_index) < max_size)
 			break;
 		--last_index;
-		trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
+		if (last_index >= 0)
+			trunc_val += d.index({Ellipsis,last_index}).abs().pow(pow);//Again, abs and pow must not be in place...
 	}
 	return last_index;
 }
-- 
2.43.0


From 451ee90c1f84c3dfa23d6e9099f301e0e924c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:10 +0000
Subject: [PATCH 065/128] fix: truncating eigh of dense tensors and truncate of
 a pair measured the eigenvectors rather than the eigenvalues and exchanged
 their order; truncate of a tuple was declared but not defined

---
 include/LinearAlgebra.h   | 16 ++++++++--------
 sources/LinearAlgebra.cpp | 11 ++++++++---
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/LinearAlgebra.h b/include/LinearAlgebra.h
index 0cb4cee..0c05776 100644
--- a/include/LinearAlgebra.h
+++ b/include/LinearAlgebra.h
@@ -32,7 +32,7 @@ namespace quantit
 {
 
 /**
- * @brief compute the first kept index such that the sum of of the rejected value to the pow are smaller than tol in an ascending ordered list of values.
+ * @brief compute the first kept index such that the sum of of the rejected value to the pow are smaller than tol to the pow in an ascending ordered list of values.
  * 
  * 
  * 
@@ -46,7 +46,7 @@ namespace quantit
 int64_t compute_first_index_ascending(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,size_t min_size, size_t max_size);
 
 /**
- * @brief compute the last kept index such that the sum of of the rejected value to the pow are smaller than tol in a descending ordered list of values.
+ * @brief compute the last kept index such that the sum of of the rejected value to the pow are smaller than tol to the pow in a descending ordered list of values.
  * 
  * 
  * 
@@ -62,17 +62,17 @@ int64_t compute_last_index(torch::Tensor d,torch::Scalar tol,torch::Scalar pow,s
  
 /**
  * @brief truncate the input tensors according to the small values of \f$ d \f$.
- * truncate all the values of \f$ d, d_i \f$, such that \f$ \sum_i abs(d_i)^pow <= tol \f$.
+ * truncate all the values of \f$ d, d_i \f$, such that \f$ \sum_i abs(d_i)^pow <= tol^{pow} \f$.
  * Assumes the entry of d are ordered in decreasing order.
  * The last dimension of u and v are the one that are truncated along with d.
  * Output is in the same order as input
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor d, torch::Tensor v, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
-std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
+std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=2);
 
 /**
  * truncate the input tensors according to the small values of e.
- * truncate all the values of \f$ e, e_i \f$, such that \f$ \sum_i abs(e_i)^pow <= tol \f$.
+ * truncate all the values of \f$ e, e_i \f$, such that \f$ \sum_i abs(e_i)^pow <= tol^{pow} \f$.
  * Assumes the entry of e are ordered in decreasing order.
  * The last dimension of u is the one that is truncated along with e.
  * Output is in the same order as input
@@ -82,7 +82,7 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @brief truncate the tensors in the tuple according to the values in the second element.
  * 
  * Assume the seconds tensors value are ordered from maximum to minimum.
- * truncate all the values of \f$ e_i \f$, such that \f$ \sum_i abs(e_i)^pow <= tol \f$.
+ * truncate all the values of \f$ e_i \f$, such that \f$ \sum_i abs(e_i)^pow <= tol^{pow} \f$.
  * where the \f$ e_i \f$ are the values of the second tensor
  * 
  * @param tensors tuple of tensors, the second is a diagonnal matrix
@@ -92,14 +92,14 @@ std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e
  * @param pow power in the computation of the truncation error
  * @return std::tuple<torch::Tensor,torch::Tensor> 
  */
-std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor>& tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
+std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol=0,size_t min_size=1,size_t max_size=-1, torch::Scalar pow=1);
 
 /**
  * perform the singular value decomposition of the rank N tensor A. 
  * The tensor A is implicitly reshape as a matrix: all the index [0,split] become the left index and ]split,N] is the right index.
  * This behavior is different from the batching done by pytorch's functions.
  * can additionnaly truncate the output tensors, if tol != 0. Consult truncate for mor details.
- * output U,D,V such that A = U*diag(D)*V^T
+ * output U,D,V such that A = U*diag(D)*V^H, the last index of U and V is the one of D.
  */
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> svd(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow = 2);
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> svd(torch::Tensor A, size_t split,torch::Scalar tol, torch::Scalar pow = 2);
diff --git a/sources/LinearAlgebra.cpp b/sources/LinearAlgebra.cpp
index 3fa697d..3dd714b 100644
--- a/sources/LinearAlgebra.cpp
+++ b/sources/LinearAlgebra.cpp
@@ -87,7 +87,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(torch::Tensor u,t
 
 std::tuple<torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size, size_t max_size, torch::Scalar pow)
 {	
-	auto& [d,u] = tensors;
+	auto& [u,d] = tensors;
 	return truncate(u,d,tol,min_size,max_size,pow);
 }
 std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> tensors, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
@@ -96,7 +96,7 @@ std::tuple<torch::Tensor,torch::Tensor,torch::Tensor> truncate(std::tuple<torch:
 	return truncate(u,d,v,tol,min_size,max_size,pow);
 }
 
-std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor e,torch::Tensor u, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
+std::tuple<torch::Tensor,torch::Tensor> truncate(torch::Tensor u,torch::Tensor e, torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
 	using namespace torch::indexing;
 	auto last_index = compute_last_index(e,tol,pow,min_size,max_size);
@@ -157,7 +157,12 @@ std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch
 
 std::tuple<torch::Tensor,torch::Tensor> eigh(torch::Tensor A, size_t split,torch::Scalar tol,size_t min_size,size_t max_size, torch::Scalar pow)
 {
-	return truncate(quantit::eigh(A,split),tol,min_size,max_size,pow);
+	auto [d,u] = quantit::eigh(A,split);
+	// truncate expects the values in decreasing order of magnitude.
+	auto order = d.abs().argsort(-1,true);
+	auto kept = order.index({torch::indexing::Slice(0,compute_last_index(d.index_select(-1,order),tol,pow,min_size,max_size)+1)});
+	kept = std::get<0>(kept.sort());// same order as without truncation.
+	return std::make_tuple(d.index_select(-1,kept),u.index_select(-1,kept));
 }
 
 std::tuple<torch::Tensor,torch::Tensor> eig(torch::Tensor A, size_t split)
-- 
2.43.0


From 2f16051aee6f4724e8087dc647a7cbaf4b4ae95a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 066/128] fix: eigh of a block tensor ignored the sections that
 have a block only among the rows or only among the columns

---
 include/blockTensor/LinearAlgebra.h |  4 ++--
 sources/btensor_linalg.cpp          | 28 ++++++++++++++++++++++++----
 2 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/include/blockTensor/LinearAlgebra.h b/include/blockTensor/LinearAlgebra.h
index c3c42f1..40996ab 100644
--- a/include/blockTensor/LinearAlgebra.h
+++ b/include/blockTensor/LinearAlgebra.h
@@ -220,7 +220,7 @@ btensor::block_list_t::content_t reorder_by_cvals(const btensor &tensor);
 std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
            std::vector<std::tuple<int, torch::indexing::Slice>>>
 compact_dense_single(typename btensor::block_list_t::content_t::const_iterator start,
-                     typename btensor::block_list_t::content_t::const_iterator end);
+                     typename btensor::block_list_t::content_t::const_iterator end, bool square = false);
 
 using Slice = torch::indexing::Slice;
 using TensInd = torch::indexing::TensorIndex;
@@ -230,7 +230,7 @@ std::tuple<btensor::index_list, std::array<TensInd, 3>> build_index_slice(const
 
 std::vector<std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
                        std::vector<std::tuple<int, torch::indexing::Slice>>>>
-compact_dense(const btensor &tensor);
+compact_dense(const btensor &tensor, bool square = false);
 } // namespace LA_helpers
 
 inline std::ostream &operator<<(std::ostream &out, any_quantity_cref qt)
diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index f0861bb..3c30e8d 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -80,7 +80,7 @@ btensor::block_list_t::content_t reorder_by_cvals(const btensor &tensor)
 std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
            std::vector<std::tuple<int, torch::indexing::Slice>>>
 compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
-                     btensor::block_list_t::content_t::const_iterator end)
+                     btensor::block_list_t::content_t::const_iterator end, bool square)
 { // So here, we know for a fact that all the blocks in the span [start,end) belong to the same matrix for the purpose
   // of the linear algebra routine.
 	// One sort of optimisation that we might have missed is if something like [0 A;B 0] or [A 0; 0 B] happens. A priori
@@ -131,6 +131,26 @@ compact_dense_single(btensor::block_list_t::content_t::const_iterator start,
 			row_acc = slice_end;
 		}
 	}
+	if (square)
+	{ // a section of the rows is the same as the section of the columns at the same position. Even if it has no block in
+	  // one of them, it's part of the problem.
+		for (auto &col : encountered_block_col)
+		{
+			auto pos = std::lower_bound(encountered_block_row.begin(), encountered_block_row.end(), col,
+			                            [](const auto &a, const auto &b) { return std::get<0>(a) < std::get<0>(b); });
+			if (pos == encountered_block_row.end() or std::get<0>(*pos) != std::get<0>(col))
+				encountered_block_row.insert(pos, col);
+		}
+		row_size = 0;
+		for (auto &[row, slice] : encountered_block_row)
+		{
+			auto slice_end = row_size + (slice.stop() - slice.start());
+			slice = torch::indexing::Slice(row_size, slice_end);
+			row_size = slice_end;
+		}
+		encountered_block_col = encountered_block_row;
+		col_size = row_size;
+	}
 	// The columns are encountered in an arbitrary order, but the list is sorted: give them contiguous slices in that order,
 	// as for the rows. The eigenvalue decomposition needs the rows and columns to be in the same order.
 	col_acc = 0;
@@ -205,7 +225,7 @@ size_t compact_tensor_count(btensor::block_list_t::content_t &tensor, bool rank_
  */
 std::vector<std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
                        std::vector<std::tuple<int, torch::indexing::Slice>>>>
-compact_dense(const btensor &tensor)
+compact_dense(const btensor &tensor, bool square)
 {
 	using out_type =
 	    std::vector<std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
@@ -250,7 +270,7 @@ compact_dense(const btensor &tensor)
 		    not(equal_index(it1->first, it2->first) and equal_c_vals(it1->first, it2->first)))
 		{
 			bool out_at_end = out_it == out_tensors.end();
-			*out_it = compact_dense_single(it1, it2); // each call are independent, can be parallelized
+			*out_it = compact_dense_single(it1, it2, square); // each call are independent, can be parallelized
 			++out_it;
 			it1 = it2;
 		}
@@ -304,7 +324,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	// extract independant btensors
 	std::vector<std::tuple<torch::Tensor, btensor::index_list, std::vector<std::tuple<int, torch::indexing::Slice>>,
 	                       std::vector<std::tuple<int, torch::indexing::Slice>>>>
-	    tensors_n_indices = LA_helpers::compact_dense(tensor);
+	    tensors_n_indices = LA_helpers::compact_dense(tensor, true);
 	// compute the size and conserved values of the diagonnal matrix, most likely to be the same code for the eigenvalue
 	// problem.
 	auto d_blocks = tensors_n_indices.size();
-- 
2.43.0


From 170f9ed4d2fcf60d97ec9a4248319ef241b9dab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 067/128] fix: svd of a block tensor without the vectors gave
 invalid tensors in their place rather than empty ones

---
 sources/btensor_linalg.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 3c30e8d..829e09f 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -494,6 +494,11 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	{ // The two inner loops are independent from one another. Their respective steps are also independent if the
 	  // btensor's block_list already has a block there.
 		auto extra_block_slice = std::make_tuple(b_i, torch::indexing::Slice());
+		if (not compute_uv) // U and V stay empty.
+		{
+			rows.clear();
+			cols.clear();
+		}
 		for (auto &row : rows)
 		{
 			auto [block_ind, slice] = LA_helpers::build_index_slice(other_indices, row, extra_block_slice);
-- 
2.43.0


From 26f28270cca5df500f87bff4da236c25ff40ff60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:22 +0000
Subject: [PATCH 068/128] fix: eigh of a block tensor with a split called
 itself without end

---
 sources/btensor_linalg.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 829e09f..ecfeb5a 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -400,7 +400,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// reshape according to split
 	auto rtensor = tensor.reshape({static_cast<int64_t>(split)});
 	// call batched SVD
-	auto [d, rU] = eigh(rtensor, true); // we want the eigenvectors.
+	auto [d, rU] = eigh(rtensor, BOOL(true));
 	// undo reshape
 	std::vector<int64_t> U_shape(tensor.dim(), -1);
 	{
-- 
2.43.0


From 149afe40c807dd52330a84b91888a011071810c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:26 +0000
Subject: [PATCH 069/128] fix: batched product over a dimension without
 sections read out of bounds

---
 sources/btensor.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 34be8e0..1e989f3 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1208,10 +1208,9 @@ struct mul_helpers
 			}
 		}
 		{ // check for compatible section sizes in batch dimensions
-			auto [a_start, a_end] = a.section_sizes(a.rank - 3);
-			auto [b_start, b_end] = b.section_sizes(b.rank - 3);
-			a_start = a.sections_sizes.begin();
-			b_start = b.sections_sizes.begin();
+			auto a_start = a.sections_sizes.begin();
+			auto b_start = b.sections_sizes.begin();
+			auto a_end = std::get<0>(a.section_sizes(a.rank - 2)); // the batch dimensions' sizes end where the matrix starts
 			for (size_t i = 0; a_start != a_end; ++a_start, ++b_start, ++i)
 			{
 				if (*a_start != *b_start)
@@ -1248,7 +1247,7 @@ struct mul_helpers
 			auto [a_start, a_end] = a.section_conserved_qtt_range(a.rank - 1);
 			auto [b_start, b_end] = b.section_conserved_qtt_range(a.rank - 2);
 
-			auto neutral = a_start->neutral();
+			auto neutral = a.selection_rule->neutral();
 			for (size_t i = 0; a_start != a_end; ++a_start, ++b_start, ++i)
 			{
 				if ((*a_start) * (*b_start) != neutral)
-- 
2.43.0


From f33c1c30d19aeb94e110c8d7e5e94d578df3d512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:10 +0000
Subject: [PATCH 070/128] fix: batched product refused matrices contracted over
 a dimension without sections

---
 sources/btensor.cpp | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 1e989f3..71c42c5 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1379,19 +1379,25 @@ btensor btensor::bmm(const btensor &mat) const
 		return new_this.bmm(new_mat).squeeze_(0);
 	}
 	mul_helpers::check_bmm_compatibility(*this, mat);
-	auto batch_shape_inds = std::vector<int64_t>(dim(), -1);
-	batch_shape_inds.back() = 0;
-	*(batch_shape_inds.end() - 2) = 0;
-	auto this_inds = std::vector<int64_t>(mat.dim(), 0);
-	*(this_inds.end() - 2) = -1;
-	auto mat_inds = std::vector<int64_t>(mat.dim(), 0);
-	mat_inds.back() = -1;
+	// shape made of a range of a tensor's dimensions. Any of the dimensions can be without sections.
+	auto dims_shape = [](const btensor &tens, size_t first, size_t last)
+	{
+		vec_list_t shape;
+		for (size_t i = first; i < last; ++i)
+		{
+			std::vector<std::tuple<size_t, any_quantity>> sections;
+			auto [size, size_end, qtt, qtt_end] = tens.section_sizes_cqtts(i);
+			for (; size != size_end; ++size, ++qtt) sections.emplace_back(*size, any_quantity(*qtt));
+			shape.push_back(std::move(sections));
+		}
+		return btensor(shape, tens.selection_rule->neutral(), tens._options);
+	};
 	auto [comp_mask, new_sections_by_dim, new_sections_sizes, new_cvals, out_selr] = mul_helpers::shape_compute(
-	    false, rank - 2, rank - 2, this->shape_from(batch_shape_inds), mat.shape_from(batch_shape_inds));
+	    false, rank - 2, rank - 2, dims_shape(*this, 0, rank - 2), dims_shape(mat, 0, rank - 2));
 	btensor batch_shape(new_sections_by_dim, new_cvals, new_sections_sizes, selection_rule->neutral());
 	auto out = quantit::shape_from(
-	    batch_shape, this->shape_from(this_inds),
-	    mat.shape_from(mat_inds)); // ambiguity because of the in-class context lifted by the QuantiT namespace;
+	    batch_shape, dims_shape(*this, rank - 2, rank - 1),
+	    dims_shape(mat, rank - 1, rank)); // ambiguity because of the in-class context lifted by the QuantiT namespace;
 
 	block_list_t::content_t mat_blocks(mat.blocks_list.begin(), mat.blocks_list.end());
 	// sort mat in an order ideal for parallelism.
-- 
2.43.0


From b84b253ab84643c0e74cb3c9dacd97f414117fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:02 +0000
Subject: [PATCH 071/128] fix: reshaping a block tensor that has a dimension
 without sections read out of bounds

---
 sources/btensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 71c42c5..57a1e39 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2949,6 +2949,8 @@ T reshape_block_prop(torch::IntArrayRef index_groups, const T &block_values, con
 		// fmt::print("index bundle [{}, {}[\n", *index_start, *(index_start+1));
 		auto size_j = torch::ArrayRef(in_sections_by_dims.data() + *index_start, rank);
 		// fmt::print("sizes {}\n", size_j);
+		if (std::find(size_j.begin(), size_j.end(), 0) != size_j.end())
+			continue; // a dimension without sections leaves the group without sections
 		do
 		{
 			// fmt::print("	j {}\n",j);
-- 
2.43.0


From 40ba3aeecb6d1e5e4e51bc748e17da9c5085191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:07 +0000
Subject: [PATCH 072/128] fix: factorizing a block tensor that has a dimension
 without sections threw

---
 sources/btensor_linalg.cpp | 48 +++++++++++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 9 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index ecfeb5a..86e9fc7 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -66,6 +66,36 @@ btensor::block_list_t::content_t reorder_by_cvals(const btensor &tensor)
 	return out;
 }
 
+/**
+ * @brief The structure of the dimensions marked with -1, with a neutral selection rule. The other dimensions are left out,
+ * whether or not they have an element to select.
+ */
+btensor kept_dims(const btensor &tensor, const std::vector<int64_t> &dims)
+{
+	btensor::index_list sections_by_dim;
+	btensor::index_list sections_sizes;
+	for (size_t i = 0; i < dims.size(); ++i)
+	{
+		if (dims[i] != -1)
+			continue;
+		auto [size_it, size_end] = tensor.section_sizes(i);
+		sections_by_dim.push_back(tensor.section_number(i));
+		sections_sizes.insert(sections_sizes.end(), size_it, size_end);
+	}
+	any_quantity_vector c_vals(sections_sizes.size(), tensor.selection_rule->neutral());
+	auto c_val_it = c_vals.begin();
+	for (size_t i = 0; i < dims.size(); ++i)
+	{
+		if (dims[i] != -1)
+			continue;
+		auto [c_val_begin, c_val_end] = tensor.section_conserved_qtt_range(i);
+		for (auto it = c_val_begin; it != c_val_end; ++it, ++c_val_it)
+			*c_val_it = *it;
+	}
+	return btensor(std::move(sections_by_dim), std::move(c_vals), std::move(sections_sizes),
+	               tensor.selection_rule->neutral(), tensor.options());
+}
+
 /**
  * @brief compactify a range of blocks into a single dense torch::tensor
  *
@@ -349,14 +379,14 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
 	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
 	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	auto d = shape_from(LA_helpers::kept_dims(tensor, d_shape), rightD_shape)
 	             .neutral_shape_()
 	             .to(tensor.options().dtype(
 	                 c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype())))); // real weights
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U = shape_from(LA_helpers::kept_dims(tensor, to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	// fmt::print("V: \n {}\n",V);
 	int b_i = 0;
@@ -412,7 +442,7 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, size_t split)
 	// fmt::print("rV \n{}\n\n",rV);
 	// fmt::print("V shape \n{}\n\n",V_shape);
 	// fmt::print("tensor \n{}\n\n",tensor);
-	auto U = rU.reshape_as(shape_from(tensor.shape_from(U_shape), rU.shape_from({0, -1})));
+	auto U = rU.reshape_as(shape_from(LA_helpers::kept_dims(tensor, U_shape), LA_helpers::kept_dims(rU, {0, -1})));
 	// return tuple
 	return std::make_tuple(d, U);
 }
@@ -464,14 +494,14 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
 	//  where D always has the neutral selection rule therefor, all the conserved quantities of d must be the neutral
 	//  element.
-	auto d = shape_from(tensor.shape_from(d_shape), rightD_shape)
+	auto d = shape_from(LA_helpers::kept_dims(tensor, d_shape), rightD_shape)
 	             .neutral_shape_()
 	             .to(tensor.options().dtype(
 	                 c10::toValueType(torch::typeMetaToScalarType(tensor.options().dtype())))); // real weights
 	// fmt::print("d \n {}\n",d);
 	std::vector<int64_t> to_U_shape(tensor.dim(), -1);
 	to_U_shape.back() = 0;
-	btensor U = shape_from(tensor.shape_from(to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
+	btensor U = shape_from(LA_helpers::kept_dims(tensor, to_U_shape), rightD_shape).set_selection_rule_(tensor.selection_rule);
 	// fmt::print("right_D_shape: \n {}\nU: \n{}",rightD_shape,U);
 	std::vector<int64_t> to_V_others(tensor.dim(), -1);
 	*(to_V_others.end() - 2) = to_V_others.back() = 0;
@@ -481,7 +511,7 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	// as well in sucha a situation Any decomposition of the conserved quantities of the input tensor on those would do,
 	// we choose the simplest, the input on U
 	//  and all neutral element on d and V.
-	btensor V = shape_from(tensor.shape_from(to_V_others).neutral_shape_(), tensor.shape_from(to_V_left), leftD_shape);
+	btensor V = shape_from(LA_helpers::kept_dims(tensor, to_V_others).neutral_shape_(), LA_helpers::kept_dims(tensor, to_V_left), leftD_shape);
 	V.set_selection_rule_(V.selection_rule->neutral());
 	// fmt::print("V: \n {}\n",V);
 	// preallocate the blocks, with index, so that the SVD calls can be parallelized.
@@ -560,9 +590,9 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, size_t split)
 	// fmt::print("rV \n{}\n\n",rV);
 	// fmt::print("V shape \n{}\n\n",V_shape);
 	// fmt::print("tensor \n{}\n\n",tensor);
-	auto U = rU.reshape_as(shape_from(tensor.shape_from(U_shape), rU.shape_from({0, -1})));
-	auto V_left_part = tensor.shape_from(V_shape).inverse_cvals();
-	auto V_right_part = rV.shape_from({0, -1});
+	auto U = rU.reshape_as(shape_from(LA_helpers::kept_dims(tensor, U_shape), LA_helpers::kept_dims(rU, {0, -1})));
+	auto V_left_part = LA_helpers::kept_dims(tensor, V_shape).inverse_cvals();
+	auto V_right_part = LA_helpers::kept_dims(rV, {0, -1});
 	// fmt::print("V_left_part \n{}\n\n", V_left_part);
 	// fmt::print("V_right_part \n{}\n\n", V_right_part);
 	auto V = rV.reshape_as(shape_from(V_left_part, V_right_part));
-- 
2.43.0


From a3e25cbb5072f91ea8b58a5925937cd81b95ff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:11 +0000
Subject: [PATCH 073/128] fix: broadcasting a size one dimension against a
 dimension without sections gave an invalid tensor

---
 sources/btensor.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 57a1e39..6f06803 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1057,7 +1057,7 @@ struct mul_helpers
 				*it = (((*smaller_sec == 1) and (smaller_tensor.section_size(smaller_rank - n, 0) == 1)) +
 				       2 * ((*larger_sec == 1) and (larger_tensor.section_size(larger_rank - n, 0) == 1)));
 				if (*it)
-					new_sections_by_dim[larger_rank - n] = std::max(*smaller_sec, *larger_sec);
+					new_sections_by_dim[larger_rank - n] = *it & 1 ? *larger_sec : *smaller_sec;
 				constexpr auto message = "The section and tensor size of tensor a (section size {},tensor size {}) "
 				                         "must match the section size and tensor size"
 				                         "of tensor b (section size {}, tensor size {}) at non-singleton dimension {}";
@@ -1067,19 +1067,21 @@ struct mul_helpers
 					auto [l_begin, l_end] = larger_tensor.section_sizes(larger_rank - n);
 					return std::equal(s_begin, s_end, l_begin, l_end);
 				};
+				auto first_size = [](const btensor &tensor, size_t dim)
+				{ return tensor.section_number(dim) ? tensor.section_size(dim, 0) : 0; };
 				if (not(*it) and not same_sizes())
 				{
 					if (this_is_large)
 					{
 						throw std::invalid_argument(fmt::format(
-						    message, *larger_sec, larger_tensor.section_size(larger_rank - n, 0), *smaller_sec,
-						    smaller_tensor.section_size(smaller_rank - n, 0), larger_rank - n));
+						    message, *larger_sec, first_size(larger_tensor, larger_rank - n), *smaller_sec,
+						    first_size(smaller_tensor, smaller_rank - n), larger_rank - n));
 					}
 					else
 					{
 						throw std::invalid_argument(
-						    fmt::format(message, *smaller_sec, smaller_tensor.section_size(smaller_rank - n, 0),
-						                *larger_sec, larger_tensor.section_size(larger_rank - n, 0), smaller_rank - n));
+						    fmt::format(message, *smaller_sec, first_size(smaller_tensor, smaller_rank - n),
+						                *larger_sec, first_size(larger_tensor, larger_rank - n), smaller_rank - n));
 					}
 				}
 				++n;
-- 
2.43.0


From 2a282709230dba6a0d54031ad9d420346ee3af0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:47 +0000
Subject: [PATCH 074/128] fix: factories and conversion from a dense tensor
 read out of bounds when a dimension has no sections

---
 sources/btensor.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6f06803..bbff452 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2448,6 +2448,9 @@ void factory_wrap(btensor &out, Factory &&factory)
 {
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
+	auto sections = out.section_numbers();
+	if (std::find(sections.begin(), sections.end(), 0) != sections.end())
+		return; // there are no possible blocks.
 	do
 	{
 		if (out.block_conservation_rule_test(index))
@@ -2622,6 +2625,9 @@ void from_basic_impl(btensor &out, const torch::Tensor &values, const torch::Sca
 		    fmt::format("input arguments have incompatible sizes! {} and {}", out.sizes(), values.sizes()));
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
+	auto sections = out.section_numbers();
+	if (std::find(sections.begin(), sections.end(), 0) != sections.end())
+		return; // there are no possible blocks.
 	// fmt::print("construction of btensor from full basic tensor\n==============\n");
 	do
 	{
-- 
2.43.0


From 572201a35a796a443cf1ea5650b3c91d0e77ce12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 075/128] fix: checking the ranks of an empty network or of
 tensors of too small rank read out of bounds

---
 sources/MPT.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 138057d..e3d4a60 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -119,14 +119,18 @@ bool MPS::check_one(const Tens &tens)
 
 bool MPS::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
+	if (empty())
+		return true;
+	auto prev_bond = operator[](0).dim() == 3 ? operator[](0).sizes()[0] : 0;
 	bool all_rank_3 = std::all_of(begin(), end(),
 	                              [&prev_bond](const Tens &el)
 	                              {
 		                              using std::swap;
+		                              if (el.dim() != 3)
+			                              return false;
 		                              auto bond = el.sizes()[2];
 		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 3 and bond == el.sizes()[0];
+		                              return bond == el.sizes()[0];
 	                              });
 	return all_rank_3;
 }
@@ -169,20 +173,26 @@ bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 
 bool MPO::check_ranks() const
 {
-	auto prev_bond = operator[](0).sizes()[0];
+	if (empty())
+		return true;
+	auto prev_bond = operator[](0).dim() == 4 ? operator[](0).sizes()[0] : 0;
 	bool all_rank_4 = std::all_of(begin(), end(),
 	                              [&prev_bond](const Tens &el)
 	                              {
 		                              using std::swap;
+		                              if (el.dim() != 4)
+			                              return false;
 		                              auto bond = el.sizes()[2];
 		                              swap(bond, prev_bond);
-		                              return el.sizes().size() == 4 and bond == el.sizes()[0];
+		                              return bond == el.sizes()[0];
 	                              });
 	// assert(all_rank_4);// a MPS must have only rank 3 tensors
 	return all_rank_4;
 }
 bool bMPO::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto it = begin();
 	auto next = begin() + 1;
 	bool all_rank_4 = it->dim() == 4;
@@ -196,6 +206,8 @@ bool bMPO::check_ranks() const
 }
 bool bMPS::check_ranks() const
 {
+	if (empty())
+		return true;
 	auto next = begin() + 1;
 	auto it = begin();
 	bool all_rank_3 = it->dim() == 3;
-- 
2.43.0


From 49c3605f17ecc284bd6a0b772550aede20fcadb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:15 +0000
Subject: [PATCH 076/128] fix: the orthogonality center of a bMPS built from
 iterators was not initialized

---
 include/MPT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/MPT.h b/include/MPT.h
index aeb0016..aebd864 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -579,7 +579,7 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
 
 	virtual ~bMPS() = default;
 
-- 
2.43.0


From bac411823a3b1e050ef56c06b65da933ad885b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 077/128] fix: a MPS could be built with its orthogonality
 center outside of it

---
 include/MPT.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index aebd864..d90dfaf 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -315,7 +315,7 @@ class MPS final
 	static bool check_one(const Tens &tens);
 	MPS() : vector_lift<MPS>(), orthogonality_center(0) {}
 	MPS(size_type size) : vector_lift<MPS>(size), orthogonality_center(0) {}
-	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(oc) {}
+	MPS(size_type size, size_t oc) : vector_lift<MPS>(size), orthogonality_center(size ? std::min(oc, size - 1) : 0) {}
 	MPS(const MPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	MPS(MPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	MPS(std::vector<Tens> initl, size_t oc = 0) : vector_lift<MPS>(std::move(initl)), orthogonality_center(oc)
@@ -528,7 +528,10 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 	static bool check_one(const Tens &tens);
 	bMPS() : vector_lift<bMPS, btensor>(), orthogonality_center(0) {}
 	bMPS(size_type size) : vector_lift<bMPS, btensor>(size), orthogonality_center(0) {}
-	bMPS(size_type size, size_t oc) : vector_lift<bMPS, btensor>(size), orthogonality_center(std::min(oc, size - 1)) {}
+	bMPS(size_type size, size_t oc)
+	    : vector_lift<bMPS, btensor>(size), orthogonality_center(size ? std::min(oc, size - 1) : 0)
+	{
+	}
 	bMPS(const bMPS &other) : vector_lift(other), orthogonality_center(other.orthogonality_center) {}
 	bMPS(bMPS &&other) noexcept : vector_lift(std::move(other)), orthogonality_center(other.orthogonality_center) {}
 	bMPS(std::vector<Tens> initl, size_t oc = 0)
-- 
2.43.0


From 51164dfdc27468606197940b91d3894e0fc4dbaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:16 +0000
Subject: [PATCH 078/128] fix: networks built from a range of tensors were not
 validated

---
 include/MPT.h | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/MPT.h b/include/MPT.h
index d90dfaf..7527368 100644
--- a/include/MPT.h
+++ b/include/MPT.h
@@ -365,7 +365,13 @@ class MPS final
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
+	MPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPS() = default;
 
@@ -464,7 +470,13 @@ class MPO final : public vector_lift<MPO> // specialization for rank 4 tensors
 			throw std::invalid_argument("Input MPT is an invalid MPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end) {}
+	MPO(const_iterator begin, const_iterator end) : vector_lift<MPO>(begin, end)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~MPO() = default;
 
@@ -582,7 +594,13 @@ class bMPS final : public vector_lift<bMPS, btensor> // specialization for rank
 		if (oc >= size() and oc != 0)
 			throw std::invalid_argument("orthogonality center position greater than the number of defined tensors.");
 	}
-	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0) {}
+	bMPS(const_iterator begin, const_iterator end) : vector_lift(begin, end), orthogonality_center(0)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 3 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPS() = default;
 
@@ -681,7 +699,13 @@ class bMPO final : public vector_lift<bMPO, btensor> // specialization for rank
 			throw std::invalid_argument("Input bMPT is an invalid bMPO: one or more Tensors has rank differing from 4 "
 			                            "and/or a bond dimension mismatch with its neighbor (dims 0 and 2).");
 	}
-	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end) {}
+	bMPO(const_iterator begin, const_iterator end) : vector_lift(begin, end)
+	{
+		bool ok = check_ranks();
+		if (not ok)
+			throw std::invalid_argument("one or more input Tensors has rank differing from 4 and/or a bond dimension "
+			                            "mismatch with its neighbor (dims 0 and 2).");
+	}
 
 	virtual ~bMPO() = default;
 
-- 
2.43.0


From 54cca87c6e3a5a741f0a78f21b1b411f0a101912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 079/128] fix: the default edges of the contraction of
 symmetric states took the charge of the first elements of the edge tensors

---
 sources/MPT.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index e3d4a60..3f08062 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -236,9 +236,11 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
 	auto left_edge =
-	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
+	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0}))
+	                 .neutral_selection_rule_());
 	auto right_edge =
-	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1})));
+	    eye_like(shape_from(shape_from(a.back(), {0, 0, -1}).inverse_cvals_(), shape_from(b.back(), {0, 0, -1}))
+	                 .neutral_selection_rule_());
 	left_edge = tensordot(left_edge, ones_like(details::edge_shape_prep(obs.front(), 0)), {}, {}).permute({0, 2, 1});
 	right_edge = tensordot(right_edge, ones_like(details::edge_shape_prep(obs.back(), 2)), {}, {}).permute({0, 2, 1});
 	return contract(a, b, obs, std::move(left_edge), right_edge);
@@ -297,9 +299,11 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 btensor contract(const bMPS &a, const bMPS &b)
 {
 	auto left_edge =
-	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0})));
+	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0}))
+	                 .neutral_selection_rule_());
 	auto right_edge =
-	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1})));
+	    eye_like(shape_from(a.back().shape_from({0, 0, -1}).inverse_cvals_(), b.back().shape_from({0, 0, -1}))
+	                 .neutral_selection_rule_());
 	return contract(a, b, left_edge, right_edge);
 }
 
-- 
2.43.0


From ea5aac931d04ae2af895eb6eaa09ac14ddebe338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 080/128] fix: contracting networks of different lengths, or of
 no site, read past their ends

---
 sources/MPT.cpp | 35 +++++++++++++++++++++++++++++++----
 1 file changed, 31 insertions(+), 4 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 3f08062..465a06e 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -220,9 +220,25 @@ bool bMPS::check_ranks() const
 	return all_rank_3;
 }
 
+namespace
+{
+void check_same_length(size_t a, size_t b)
+{
+	if (a != b)
+		throw std::invalid_argument(
+		    fmt::format("the networks to contract must have the same length, got {} and {} sites", a, b));
+}
+void check_not_empty(size_t a)
+{
+	if (a == 0)
+		throw std::invalid_argument("the edges must be supplied to contract networks without any site");
+}
+} // namespace
+
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edge, const btensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_same_length(a.size(), b.size());
+	check_same_length(a.size(), obs.size());
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -233,6 +249,9 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs, btensor left_edg
 }
 btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 {
+	check_same_length(a.size(), b.size());
+	check_same_length(a.size(), obs.size());
+	check_not_empty(a.size());
 	// todo:: adapt to work with Btensors.
 	// need a btensor implementation of ones. must be a one_like thing.
 	auto left_edge =
@@ -248,7 +267,8 @@ btensor contract(const bMPS &a, const bMPS &b, const bMPO &obs)
 torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs, torch::Tensor left_edge,
                        const torch::Tensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_same_length(a.size(), b.size());
+	check_same_length(a.size(), obs.size());
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -260,6 +280,9 @@ torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs, torch::Tensor
 
 torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs)
 {
+	check_same_length(a.size(), b.size());
+	check_same_length(a.size(), obs.size());
+	check_not_empty(a.size());
 	auto left_edge =
 	    eye_like(shape_from(shape_from(a.front(), {-1, 0, 0}).inverse_cvals_(), shape_from(b.front(), {-1, 0, 0})));
 	auto right_edge =
@@ -271,7 +294,7 @@ torch::Tensor contract(const MPS &a, const MPS &b, const MPO &obs)
 
 torch::Tensor contract(const MPS &a, const MPS &b, torch::Tensor left_edge, const torch::Tensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_same_length(a.size(), b.size());
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = torch::tensordot(left_edge, a[i], {0}, {0});
@@ -281,6 +304,8 @@ torch::Tensor contract(const MPS &a, const MPS &b, torch::Tensor left_edge, cons
 }
 torch::Tensor contract(const MPS &a, const MPS &b)
 {
+	check_same_length(a.size(), b.size());
+	check_not_empty(a.size());
 	auto E = eye_like(shape_from(shape_from(a[0], {-1, 0, 0}), shape_from((b[0]), {-1, 0, 0})));
 	auto right_edge = eye_like(shape_from(shape_from(a.back(), {0, 0, -1}), shape_from((b.back()), {0, 0, -1})));
 	return contract(a, b, E, right_edge);
@@ -288,7 +313,7 @@ torch::Tensor contract(const MPS &a, const MPS &b)
 
 btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor &right_edge)
 {
-	assert(a.size() == b.size());
+	check_same_length(a.size(), b.size());
 	for (size_t i = 0; i < a.size(); ++i)
 	{
 		left_edge = tensordot(left_edge, a[i], {0}, {0});
@@ -298,6 +323,8 @@ btensor contract(const bMPS &a, const bMPS &b, btensor left_edge, const btensor
 }
 btensor contract(const bMPS &a, const bMPS &b)
 {
+	check_same_length(a.size(), b.size());
+	check_not_empty(a.size());
 	auto left_edge =
 	    eye_like(shape_from(a.front().shape_from({-1, 0, 0}).inverse_cvals_(), b.front().shape_from({-1, 0, 0}))
 	                 .neutral_selection_rule_());
-- 
2.43.0


From f2fed98153729721a913d5b96f5b45e255c62619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:08 +0000
Subject: [PATCH 081/128] fix: bMPO::coalesce read past the end of an empty
 operator

---
 sources/MPT.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 465a06e..a3ce2d0 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -157,6 +157,8 @@ bool bMPO::check_one(const Tens &tens)
 
 bMPO &bMPO::coalesce(btensor::Scalar cutoff)
 {
+	if (empty())
+		return *this;
 	auto it = begin();
 	auto next_it = it + 1;
 	for (; next_it != end(); ++it, ++next_it)
-- 
2.43.0


From a0b89e39e09d506638c9c6497f6985d12910c563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 082/128] fix: random_bMPS refused reachable charges on which
 its greedy search stalls

---
 sources/MPT.cpp | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index a3ce2d0..26cecba 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -343,8 +343,9 @@ btensor contract(const bMPS &a, const bMPS &b)
  * number of pass can be required when phys_dim doesn't return an identical result for every i. I *believe* 1 pass for
  * every unique physical dimension is enough.
  *
- * Throws if the constraint cannot be satisfied in the number of pass specified, or if the constraint cannot be
- * satisfied at all.
+ * When these passes stall, a string is drawn from the list of those that satisfy the constraint.
+ *
+ * Throws if the constraint cannot be satisfied at all.
  *
  * @param L length of the MPS
  * @param phys_dim function like object that return the list of conserved value for each of the free index of the random
@@ -410,9 +411,33 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 		if (curr_dist == 0)
 			return;
 	}
-	throw std::invalid_argument("The physical dimensions cannot satisfy the sum rule for the MPS with this number of "
-	                            "pass, verify that the constraint is possible or increase the number of pass");
-	// error we failed!
+	// The descent can stall on a constraint that is possible. List the sums that can be reached by the sites [i,L), and
+	// draw a string among those that satisfy the constraint.
+	std::vector<std::vector<any_quantity>> reachable(L + 1);
+	reachable[L].push_back(neutral);
+	for (size_t i = L; i-- > 0;)
+	{
+		const auto &cvals = phys_dim(i);
+		for (auto &rest : reachable[i + 1])
+			for (size_t j = 0; j < cvals.size(); ++j) reachable[i].push_back(rest * cvals[j]);
+		std::sort(reachable[i].begin(), reachable[i].end());
+		reachable[i].erase(std::unique(reachable[i].begin(), reachable[i].end()), reachable[i].end());
+	}
+	if (not std::binary_search(reachable[0].begin(), reachable[0].end(), any_quantity(constraint)))
+		throw std::invalid_argument(
+		    "The physical dimensions cannot satisfy the sum rule for the MPS, verify that the constraint is possible");
+	any_quantity rest(constraint);
+	for (size_t i = 0; i < L; ++i)
+	{
+		const auto &cvals = phys_dim(i);
+		std::vector<size_t> candidates;
+		for (size_t j = 0; j < cvals.size(); ++j)
+			if (std::binary_search(reachable[i + 1].begin(), reachable[i + 1].end(), rest * cvals[j].inverse()))
+				candidates.push_back(j);
+		distrib.param(param_type(0, candidates.size() - 1));
+		out[i] = candidates[distrib(random_gen)];
+		rest *= cvals[out[i]].inverse();
+	}
 }
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
-- 
2.43.0


From d085b641a86ebdf6d63fcdc22b124ae7ec17cbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:28 +0000
Subject: [PATCH 083/128] fix: random states without any site or with a bond
 dimension of zero were written out of bounds

---
 sources/MPT.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index 26cecba..a7dabb4 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -442,6 +442,8 @@ void generate_random_string(std::vector<size_t>::iterator out, size_t L, T &&phy
 template <class T>
 MPS random_MPS_impl(size_t length, size_t bond_dim, T phys_dim, torch::TensorOptions opt)
 {
+	if (length == 0 or bond_dim == 0)
+		throw std::invalid_argument("A random MPS must have at least one site and a bond dimension of one");
 	MPS out(length);
 	for (auto i = 0u; i < length; ++i)
 	{
@@ -494,6 +496,8 @@ template <class T>
 bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantity_cref constraint, size_t string_N_pass,
                       torch::TensorOptions opt, std::random_device::result_type seed)
 {
+	if (length == 0 or bond_dim < 1)
+		throw std::invalid_argument("A random MPS must have at least one site and a bond dimension of one");
 	std::mt19937 gen(seed); // Standard mersenne_twister_engine seeded with rd()
 	std::vector<size_t> phys_inds(bond_dim * length);
 	static_assert(std::is_same_v<decltype(phys_dim(0)), btensor>,
@@ -586,10 +590,10 @@ bMPS random_bMPS(size_t bond_dim, const std::vector<btensor> &phys_dim_spec, any
 		    X.begin(), X.end(),
 		    [](auto &X, auto &Y)
 		    { return std::lexicographical_compare(std::get<0>(X), std::get<1>(X), std::get<0>(Y), std::get<1>(Y)); });
-		auto last = X.cend() - 1;
-		size_t count = 1;
 		if (X.cbegin() == X.cend())
 			throw std::invalid_argument("The supplied MPO is empty!");
+		auto last = X.cend() - 1;
+		size_t count = 1;
 		for (auto it = X.cbegin(); it != last; ++it)
 		{
 			auto range_A = *it;
-- 
2.43.0


From 0b27c9237bd743671cc8bd79d19f4364261b2dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:23 +0000
Subject: [PATCH 084/128] fix: random_bMPS produced a state of the wrong charge
 when the specification of the physical space carried a selection rule

---
 sources/MPT.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/MPT.cpp b/sources/MPT.cpp
index a7dabb4..f32f2e9 100644
--- a/sources/MPT.cpp
+++ b/sources/MPT.cpp
@@ -520,7 +520,9 @@ bMPS random_bMPS_impl(size_t length, int64_t bond_dim, T &&phys_dim, any_quantit
 	{
 		any_quantity_cref local_sel_rule = i == 0 ? any_quantity_cref(constraint) : any_quantity_cref(sel_rule);
 		right_side = make_right_side(phys_inds, accumulate_in_out, local_sel_rule, phys_ind_cvals, i, bond_dim, length);
-		out[i] = rand_like(shape_from(left_side, phys_dim(i), right_side), opt);
+		// only the dimension of phys_dim matters, not its selection rule.
+		out[i] =
+		    rand_like(shape_from(left_side, phys_dim(i), right_side).set_selection_rule_(local_sel_rule), opt);
 		out[i] /= sqrt((out[i] * out[i].conj()).sum());
 		if (i == 0)
 			right_side.set_selection_rule_(sel_rule);
-- 
2.43.0


From 282ed953f3f774c762916cf175ce57102337324f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 085/128] fix: the lowering operator of pauli raised the spin

---
 sources/operators.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/operators.cpp b/sources/operators.cpp
index b4feaeb..26310d9 100644
--- a/sources/operators.cpp
+++ b/sources/operators.cpp
@@ -82,7 +82,7 @@ std::tuple<tens,tens,tens,tens,tens> pauli()
 	}
 	{
 		auto Acc = lo.accessor<int8_t,2>();
-		Acc[0][1] = 1;
+		Acc[1][0] = 1;
 	}
 	return std::make_tuple(Sx,iSy,Sz,lo,id);
 }
-- 
2.43.0


From fd0180d96e8d0446b2fa91e344883b8b267cee42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:26 +0000
Subject: [PATCH 086/128] fix: the documentation of the symmetric pauli
 operators gave them in another order than they are returned

---
 include/operators.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/operators.h b/include/operators.h
index 5119e9a..0cab732 100644
--- a/include/operators.h
+++ b/include/operators.h
@@ -57,7 +57,7 @@ std::tuple<tens, tens, tens, tens, tens> pauli();
  * Sx and Sy cannot be returned because they do not have a well defined quantum number. To make use of conservation rule
  * with Heisenberg, Ising and other spin models, it must be done in terms of the lower/raising operator and Sz.
  * @param shape A btensor specifying the conserved quantities of the bra an ket sides of the operators.
- * @return std::tuple<btensor,btensor,btensor> lowering operator, Sz, identity
+ * @return std::tuple<btensor,btensor,btensor> Sz, lowering operator, identity
  */
 std::tuple<btensor, btensor, btensor> pauli(const btensor &shape);
 
-- 
2.43.0


From bc8dc9a75eff6dd7f70a07f00f985a94ddf35d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 087/128] fix: the bonds of the symmetric Heisenberg model had
 charges incompatible with its operators

---
 sources/models.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 8221a0a..6ef5e86 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -91,9 +91,9 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 
 bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
 {
-	auto p = [&phys_shape](size_t i)-> any_quantity_cref{return phys_shape.element_conserved_qtt(0,i);};
+	auto p = [&phys_shape](size_t i)-> any_quantity{return phys_shape.element_conserved_qtt(0,i);};
 	auto neutral = p(0).neutral();
-	auto left_bond = btensor({{{1,neutral},{1,p(0)},{1,p(1)},{1,neutral},{1,neutral}}},p(0),phys_shape.options());
+	auto left_bond = btensor({{{1,neutral},{1,p(0)*p(1).inverse()},{1,p(1)*p(0).inverse()},{1,neutral},{1,neutral}}},neutral,phys_shape.options());
 	auto local_shape = shape_from(left_bond,phys_shape,left_bond.conj(),phys_shape.conj());
 	MPO tmp_hamil = Heisenberg(J,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 1e7c538797af92674d9276165b30b05d68c24f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 088/128] fix: the symmetric Hubbard model refused local spaces
 where the empty state carries a charge

---
 sources/models.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 6ef5e86..f165081 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -163,9 +163,10 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
  */
 bMPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght,const btensor& Phys_shape)
 {
-	// element: 0 empty, 1 single down electron, 2 single up electron,3 one up and one down
+	// element: 0 empty, 1 single up electron, 2 single down electron,3 one up and one down
 	auto p = [&Phys_shape](size_t i)->any_quantity{return Phys_shape.element_conserved_qtt(0,i);};
-	auto left_bond = btensor({{{1,p(0)},{1,p(1)},{1,p(2)},{1,p(1).inverse()},{1,p(2).inverse()},{1,p(0)}}},p(0),Phys_shape.options());
+	auto neutral = p(0).neutral();
+	auto left_bond = btensor({{{1,neutral},{1,p(1)*p(0).inverse()},{1,p(2)*p(0).inverse()},{1,p(0)*p(1).inverse()},{1,p(0)*p(2).inverse()},{1,neutral}}},neutral,Phys_shape.options());
 	auto local_shape = shape_from(left_bond,Phys_shape,left_bond.conj(),Phys_shape.conj());
 	MPO tmp_hamil = Hubbard(U,mu,lenght);
 	return to_bMPO(std::move(tmp_hamil),std::move(local_shape)).coalesce();
-- 
2.43.0


From 4a43871b2ba7373476789b96cb2530f4697706a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:38 +0000
Subject: [PATCH 089/128] fix: the symmetric models refused or dropped
 couplings below 1e-4

---
 sources/models.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index f165081..0e77eac 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,7 +71,7 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),1e-4);
+	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),0);
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
@@ -81,10 +81,10 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 	size_t i =1;
 	for(; i<length-1;++i)
 	{
-		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],1e-4);
+		out[i] = from_basic_tensor_like(local_shape,tmp_hamil[i],0);
 		if (!torch::allclose(out[i].to_dense(),tmp_hamil[i]))throw std::invalid_argument(fmt::format(message,i));
 	}
-	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),1e-4);
+	out.back() = from_basic_tensor_like(local_shape.basic_create_view({-1,-1,0,-1},true),tmp_hamil.back(),0);
 	if (!torch::allclose(out.back().to_dense(),tmp_hamil.back())) throw std::invalid_argument(fmt::format(message,i));
 	return out;
 }
-- 
2.43.0


From 3a55bf0522936ac5ddcdf098369505986210d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 090/128] fix: the symmetric models on a single site were built
 out of bounds

---
 sources/models.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 0e77eac..93cf99c 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -71,8 +71,14 @@ bMPO to_bMPO(MPO&& tmp_hamil, btensor&& local_shape)
 {
 	auto length = tmp_hamil.size();
 	bMPO out(length);
-	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),0);
 	constexpr auto message = "the local shape is incompatible with the MPO at site {}.";
+	if (length == 1)
+	{ // both ends are on the same tensor.
+		out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,0,-1},true),tmp_hamil.front(),0);
+		if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) throw std::invalid_argument(fmt::format(message,0));
+		return out;
+	}
+	out.front() = from_basic_tensor_like(local_shape.basic_create_view({local_shape.sizes()[0]-1,-1,-1,-1},true),tmp_hamil.front(),0);
 	if (!torch::allclose(out.front().to_dense(),tmp_hamil.front())) 
 	{
 		fmt::print("out: {}\n\n", out.front());
-- 
2.43.0


From ec58ebc14d686e0e091576409398b2a15643a647 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 091/128] fix: the models on a chain without sites were written
 out of bounds

---
 sources/models.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/models.cpp b/sources/models.cpp
index 93cf99c..026aa39 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -40,6 +40,8 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	constexpr char errorstr[] = "{0} must be a rank 0 tensor (a scalar), the supplied {0} is rank {1}";
 	if (J.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "J", J.sizes().size()));
+	if (lenght == 0)
+		throw std::invalid_argument("a chain must have at least one site");
 	auto type = torch::get_default_dtype();
 	if (!J.is_floating_point())
 		type = torch::scalarTypeToTypeMeta(torch::kInt8);
@@ -128,6 +130,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "U", U.dim()));
 	if (mu.sizes().size() > 0)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
+	if (lenght == 0)
+		throw std::invalid_argument("a chain must have at least one site");
 	auto local_tens = torch::zeros({6, 4, 6, 4});
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
-- 
2.43.0


From 58e94b3662cf7d7d812d1386ff83f9655e0fdf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 092/128] fix: integer couplings overflowed in the Hubbard
 model

---
 sources/models.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 026aa39..13ee4d0 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -136,7 +136,8 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
 	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn);
-	auto Local = U * torch::matmul(n_up, n_dn) - mu * (n_up + n_dn);
+	// the operators are small integers, which must not decide the precision of the couplings.
+	auto Local = U * torch::matmul(n_up, n_dn).to(local_tens.dtype()) - mu * (n_up + n_dn).to(local_tens.dtype());
 	using namespace torch::indexing;
 	local_tens.index_put_({0, Slice(), 0, Slice()}, id);
 	local_tens.index_put_({1, Slice(), 0, Slice()}, c_up);
-- 
2.43.0


From 7610024e25ef4191c9d89cd9680f5e3bf69e48e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:56 +0000
Subject: [PATCH 093/128] fix: the documentation of the Hubbard model had the
 hopping terms of the opposite sign

---
 sources/models.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index 13ee4d0..b6a0d1e 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -116,7 +116,7 @@ bMPO Heisenberg(torch::Tensor J, size_t lenght,const btensor& phys_shape)
  * c_dn                   0           0          0       0     0
  * c_up^dg                0           0          0       0     0
  * c_dn^dg                0           0          0       0     0
- * U n_up n_dn-mu*N  -c_up^dg*F  -c_dn^dg*F  -F*c_up  -F*c_dn  1
+ * U n_up n_dn-mu*N   c_up^dg*F   c_dn^dg*F   F*c_up   F*c_dn  1
  * 
  * @param U e-e interaction
  * @param mu chemical potential
-- 
2.43.0


From 88f975e39222c8f3f2cecc81d62adfcb43cda0b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:32 +0000
Subject: [PATCH 094/128] fix: dmrg destroyed local states that are
 eigenvectors, and eig2x2Mat lost the normalization when the off-diagonal
 element is small

---
 sources/dmrg.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index df7bbb3..0a0d8a2 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -540,6 +540,13 @@ btensor details::hamil2site_times_state(const btensor &state, const btensor &ham
 	return hamil2site_times_state_impl(state, hamil, Lenv, Renv);
 }
 
+template <class Tensor>
+double real_value(const Tensor &x)
+{
+	btensor::Scalar value = x.item();
+	return value.toComplexDouble().real();
+}
+
 template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor &a1, const Tensor &b)
 {
@@ -551,10 +558,12 @@ std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor
 	// fmt::print("E0 {}\n\n",E0);
 	// fmt::print("test!\n E0-a1 {}\n\n -crit {} \n\n(E0-a1)/crit {}",E0-a1, -crit, (E0-a1)/crit); //E0-a1 somehow has
 	// the wrong sign.
-	auto delt = (E0 - a1);
+	// delt = E0 - a1, written such that nearly equal numbers are not subtracted
+	auto diff = a0 - a1;
+	auto delt = real_value(diff) > 0 ? (-2 * (b.conj() * b)) / (diff + crit) : (diff - crit) / 2;
 	auto o_coeff = sqrt(delt / (-crit)); // from arxiv.org/pdf/1908.03795.pdf
 	// fmt::print("O {}\n\n",o_coeff);
-	bool zero_o = (((o_coeff + E0) == E0).item()).toBool() or std::isnan(o_coeff.item().toDouble());
+	bool zero_o = real_value(delt) == 0;
 	auto n_coeff = (b * o_coeff) / (delt); // can't use o^2+n^2 = 1: loose important phase information that way.
 	if (zero_o)
 	{
@@ -601,6 +610,8 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	}();
 	if (non_singular)
 		psi_ip /= b;
+	else
+		b = zeros_like(b); // the state is an eigenvector
 	// fmt::print("\t\tnon singular {}\n",non_singular);
 	auto a1 = (tensordot(psi_ip.conj(), quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
 	                     {0, 1, 2, 3}, {0, 1, 2, 3}));
@@ -625,6 +636,8 @@ std::tuple<Tensor, Tensor> two_sites_update_impl(const Tensor &state, const Tens
                                                  const Tensor &Renv)
 {
 	auto [psi_ip, a0, a1, b] = one_step_lanczos(state, hamil, Lenv, Renv);
+	if (real_value(b) == 0) // There is no second vector: psi_ip is zero and must not take the place of the state.
+		return std::make_tuple(a0, state);
 	// print("STATE UPDATE\nnorm psi_ip {}\n",
 	//    tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}).item().toDouble());
 	// fmt::print("Psi_ip {}\n\na0 {}\n\n a1 {}\n\nb
-- 
2.43.0


From c39c9750fc50b293d1acf5d5889daa06db2bc16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 095/128] fix: the residual of a Krylov step on a nearly
 converged state was not orthogonal to the state

---
 sources/dmrg.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 0a0d8a2..3cba85e 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -602,6 +602,8 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	auto a0 = (tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 	// fmt::print("a0 {}\n",a0);
 	psi_ip -= state * a0;
+	// Project a second time, rounding leaves a part of the state in a small residual.
+	psi_ip -= state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
 	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
 	const bool non_singular = [&]()
 	{
-- 
2.43.0


From 6314b96eb222fd16fccf72bd0e8d4632fa4fc942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 096/128] fix: dmrg failed on complex states

---
 sources/dmrg.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 3cba85e..d90416e 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -278,7 +278,7 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
                                  const dmrg_options &options, env_holder &Env, dmrg_logger &logger)
 {
 	// TODO check for non-zero input.
-	auto norm = contract(in_out_state, in_out_state).item().toDouble();
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
@@ -551,7 +551,8 @@ template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor &a1, const Tensor &b)
 {
 	// fmt::print("input: {}\n{}\n{}\n",a0,a1,b);
-	auto crit = sqrt(pow(a0 - a1, 2) + 4 * (b.conj() * b));
+	auto diff = a0 - a1;
+	auto crit = sqrt(diff * diff + 4 * (b.conj() * b));
 	// fmt::print("crit {}\n\n",crit);
 	auto E0 = (a0 + a1 - crit) / 2; // smallest eigenvalue. largest is (a0+a1 +crit)/2
 	// auto E1 = (a0 + a1 + crit) / 2; // smallest eigenvalue. largest is (a0+a1 +crit)/2
@@ -559,7 +560,6 @@ std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor
 	// fmt::print("test!\n E0-a1 {}\n\n -crit {} \n\n(E0-a1)/crit {}",E0-a1, -crit, (E0-a1)/crit); //E0-a1 somehow has
 	// the wrong sign.
 	// delt = E0 - a1, written such that nearly equal numbers are not subtracted
-	auto diff = a0 - a1;
 	auto delt = real_value(diff) > 0 ? (-2 * (b.conj() * b)) / (diff + crit) : (diff - crit) / 2;
 	auto o_coeff = sqrt(delt / (-crit)); // from arxiv.org/pdf/1908.03795.pdf
 	// fmt::print("O {}\n\n",o_coeff);
@@ -590,6 +590,13 @@ std::tuple<btensor, btensor, btensor> details::eig2x2Mat(const btensor &a0, cons
 	return eig2x2Mat_impl(a0, a1, b);
 }
 
+// remove the imaginary part left by rounding on numbers that are real by construction.
+template <class Tensor>
+Tensor without_imag(const Tensor &x)
+{
+	return (x + x.conj()) / 2;
+}
+
 template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &state, const Tensor &hamil,
                                                                  const Tensor &Lenv, const Tensor &Renv)
@@ -599,12 +606,12 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	// fmt::print("state {}\n",state);
 	// auto a0 = torch::real(torch::tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));//real doesn't work if
 	// the dtype isn't complex... hopefully will be solved on pytorch's end once the complex support is completed
-	auto a0 = (tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
+	auto a0 = without_imag(tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 	// fmt::print("a0 {}\n",a0);
 	psi_ip -= state * a0;
 	// Project a second time, rounding leaves a part of the state in a small residual.
 	psi_ip -= state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
-	auto b = sqrt((tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
+	auto b = sqrt(without_imag(tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
 	const bool non_singular = [&]()
 	{
 		btensor::Scalar X = ge(b.abs(), 1e-15).item();
@@ -615,8 +622,9 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	else
 		b = zeros_like(b); // the state is an eigenvector
 	// fmt::print("\t\tnon singular {}\n",non_singular);
-	auto a1 = (tensordot(psi_ip.conj(), quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
-	                     {0, 1, 2, 3}, {0, 1, 2, 3}));
+	auto a1 = without_imag(tensordot(psi_ip.conj(),
+	                                 quantit::details::hamil2site_times_state(psi_ip, hamil, Lenv, Renv),
+	                                 {0, 1, 2, 3}, {0, 1, 2, 3}));
 	return std::make_tuple(psi_ip, a0, a1, b);
 }
 std::tuple<torch::Tensor, torch::Tensor, torch::Tensor, torch::Tensor> details::one_step_lanczos(
-- 
2.43.0


From 72b2f120a130fc15459613c08de2bac854ffe378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 097/128] fix: dmrg could leave a state of higher energy than a
 starting state that is not normalized

---
 sources/dmrg.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index d90416e..308ed9e 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -124,6 +124,13 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 	return std::make_tuple(E0, out_mps);
 }
 
+// remove the imaginary part left by rounding on numbers that are real by construction.
+template <class Tensor>
+Tensor without_imag(const Tensor &x)
+{
+	return (x + x.conj()) / 2;
+}
+
 template <class T, class MPS_t>
 auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, size_t left_edge = 0)
 {
@@ -183,6 +190,7 @@ struct dmrg_2sites_update
 		// MPO_t tmpMPO(hamil.begin() + oc, hamil.begin() + oc + 2);
 		// MPS_t tmpstate(state.begin() + oc, state.begin() + oc + 2);
 		auto local_state = tensordot(state[oc], state[oc + 1], {2}, {0});
+		local_state /= sqrt(without_imag(tensordot(local_state, local_state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
 		std::tie(E0, local_state) = two_sites_update(local_state, twosite_hamil[oc], Env[oc - 1], Env[oc + 2]);
 		auto [u, d, v] = quantit::svd(local_state, 2, options.cutoff, options.minimum_bond, options.maximum_bond);
 		d /= sqrt(sum(d.pow(2)));
@@ -590,13 +598,6 @@ std::tuple<btensor, btensor, btensor> details::eig2x2Mat(const btensor &a0, cons
 	return eig2x2Mat_impl(a0, a1, b);
 }
 
-// remove the imaginary part left by rounding on numbers that are real by construction.
-template <class Tensor>
-Tensor without_imag(const Tensor &x)
-{
-	return (x + x.conj()) / 2;
-}
-
 template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &state, const Tensor &hamil,
                                                                  const Tensor &Lenv, const Tensor &Renv)
-- 
2.43.0


From 9711cecff467d289303bb513fed3f30a1836515a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 098/128] fix: dmrg ran out of bounds on a single site, on
 networks of different lengths and with a minimum bond of zero

---
 sources/dmrg.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 308ed9e..c1287d5 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -89,8 +89,19 @@ class dmrg_gradient_guard
 	}
 };
 
+template <class MPO_t, class MPS_t>
+void check_sizes(const MPO_t &hamiltonian, const MPS_t &state)
+{
+	if (hamiltonian.size() != state.size())
+		throw std::invalid_argument(fmt::format("the hamiltonian has {} sites and the state has {}", hamiltonian.size(),
+		                                        state.size()));
+	if (hamiltonian.size() < 2)
+		throw std::invalid_argument("dmrg updates pairs of sites, it requires at least two");
+}
+
 btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_sizes(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state,
 	                          options); // set the tracing of hamil and state to whatever is specified in the option,
 	                                    // then set it back to its original value at the end.
@@ -100,6 +111,7 @@ btensor dmrg(bMPO &hamiltonian, bMPS &in_out_state, const dmrg_options &options,
 }
 torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &options, dmrg_logger &logger)
 {
+	check_sizes(hamiltonian, in_out_state);
 	dmrg_gradient_guard guard(hamiltonian, in_out_state, options);
 	auto Env = generate_env(hamiltonian, in_out_state);
 	auto TwositesH = compute_2sitesHamil(hamiltonian);
@@ -110,7 +122,7 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
                                dmrg_logger &logger)
 {
 	auto length = hamiltonian.size();
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian, qnum);
+	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, qnum);
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -119,7 +131,7 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
 	auto length = hamiltonian.size();
-	auto out_mps = random_MPS(options.minimum_bond, hamiltonian);
+	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From 20e5d673a9163d28021caa6004784e8efcba42e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:18 +0000
Subject: [PATCH 099/128] fix: dmrg on a symmetric state of zero norm was not
 refused as it is on a dense state

---
 sources/dmrg.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index c1287d5..1b68d09 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -239,6 +239,9 @@ struct dmrg_2sites_update
 btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil, bMPS &in_out_state,
                            const dmrg_options &options, benv_holder &Env, dmrg_logger &logger)
 {
+	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
+	if (norm == 0 or norm < 1e-15)
+		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
-- 
2.43.0


From 60b04e315321a7fec9c9deefc0b0043ca74cc4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 100/128] fix: dmrg reported the orthogonality center one site
 left of where it is

---
 sources/dmrg.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 1b68d09..ccb831e 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -160,6 +160,15 @@ auto sweep(MPS_t &state, T update, int step, size_t Nstep, size_t right_edge, si
 	return std::make_tuple(E0, step);
 }
 
+/**
+ * The sweep leaves the orthogonality center on the site one past the reported position when its last update was a
+ * leftward one: the next update starts with that pair of sites.
+ */
+static bool ended_leftward(size_t oc, int step, size_t right_edge)
+{
+	return (step == -1 and oc != right_edge) or (step == 1 and oc == 0);
+}
+
 template <class MPO_t>
 struct dmrg_2sites_update
 {
@@ -285,7 +294,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	if (oc != init_pos)
+	oc += ended_leftward(oc, step, in_out_state.size() - 2);
+	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
 	logger.end_log_all(iteration, E0, in_out_state);
@@ -344,10 +354,10 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 			throw std::runtime_error(fmt::format(
 			    "the orthogonality center finished somewhere surprising! final oc: {}. original oc: {}", oc, init_pos));
 	}
-	oc += (oc == 0); // The oc never really finishes at 0 with the current algo.
 	// The leftward sweep finishes with the oc at 1, but set the oc at 0,
 	// such the site 0 and 1 are updated together once by the next rightward sweep.
 	// this trickery is necessary to get this optimization without writing special code in the sweeper.
+	oc += ended_leftward(oc, step, in_out_state.size() - 2);
 	if (oc != init_pos) // then we actually move it back to its origin location.
 		in_out_state.move_oc(init_pos);
 
-- 
2.43.0


From 217358a6180bc9358da49fe57c690bf81641a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:48 +0000
Subject: [PATCH 101/128] fix: dmrg without iterations returned a placeholder
 instead of the energy

---
 sources/dmrg.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index ccb831e..74ad021 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -234,6 +234,17 @@ struct dmrg_2sites_update
 		return E0;
 	}
 };
+// The energy of the state as it is, for when no iteration is requested.
+template <class MPO_t, class MPS_t>
+auto energy_without_update(const MPO_t &hamiltonian, const MPS_t &state, const dmrg_options &options,
+                           dmrg_logger &logger)
+{
+	logger.init(options);
+	auto E0 = without_imag(contract(state, state, hamiltonian)) / without_imag(contract(state, state));
+	logger.end_log_all(0, E0, state);
+	return E0;
+}
+
 /**
  * @brief Shared implementation of the differeent interface to dmrg with 2 sites update.
  *
@@ -251,6 +262,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
+	if (options.maximum_iterations == 0)
+		return energy_without_update(hamiltonian, in_out_state, options, logger);
 	btensor E0 = quantit::full({}, hamiltonian[0].selection_rule->neutral(), 100000.0,
 	                           hamiltonian[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
@@ -314,6 +327,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 	auto norm = contract(in_out_state, in_out_state).abs().item().toDouble();
 	if (norm == 0 or norm < 1e-15)
 		throw std::invalid_argument("initial state has zero norm!"); // this test is less than ideal.
+	if (options.maximum_iterations == 0)
+		return energy_without_update(hamiltonian, in_out_state, options, logger);
 	torch::Tensor E0 = torch::full({}, 100000.0, in_out_state[0].options().merge_in(torch::kDouble));
 	auto sweep_dir = 1;
 	size_t init_pos = in_out_state.orthogonality_center;
-- 
2.43.0


From d25c2843f8dfe340155f4c74f10ec1e5746620fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 102/128] fix: the Krylov step took rounding for a second
 vector in single precision

---
 sources/dmrg.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 74ad021..ad201b9 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -595,6 +595,13 @@ double real_value(const Tensor &x)
 	return value.toComplexDouble().real();
 }
 
+template <class Tensor>
+bool is_single_precision(const Tensor &x)
+{
+	const auto type = x.options().dtype();
+	return type == torch::kFloat or type == torch::kComplexFloat;
+}
+
 template <class Tensor>
 std::tuple<Tensor, Tensor, Tensor> eig2x2Mat_impl(const Tensor &a0, const Tensor &a1, const Tensor &b)
 {
@@ -649,13 +656,17 @@ std::tuple<Tensor, Tensor, Tensor, Tensor> one_step_lanczos_impl(const Tensor &s
 	// the dtype isn't complex... hopefully will be solved on pytorch's end once the complex support is completed
 	auto a0 = without_imag(tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}));
 	// fmt::print("a0 {}\n",a0);
+	const double rounding = is_single_precision(psi_ip) ? std::numeric_limits<float>::epsilon()
+	                                                     : std::numeric_limits<double>::epsilon();
+	const double threshold =
+	    std::max(1e-15, rounding * std::sqrt(real_value(tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3}))));
 	psi_ip -= state * a0;
 	// Project a second time, rounding leaves a part of the state in a small residual.
 	psi_ip -= state * tensordot(psi_ip, state.conj(), {0, 1, 2, 3}, {0, 1, 2, 3});
 	auto b = sqrt(without_imag(tensordot(psi_ip, psi_ip.conj(), {0, 1, 2, 3}, {0, 1, 2, 3})));
 	const bool non_singular = [&]()
 	{
-		btensor::Scalar X = ge(b.abs(), 1e-15).item();
+		btensor::Scalar X = ge(b.abs(), threshold).item();
 		return X.to<bool>();
 	}();
 	if (non_singular)
-- 
2.43.0


From 19a223a434793ce77b701bb8e641a5ce1671a20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 103/128] fix: dmrg from a random state failed on operators
 that are not of the default element type

---
 sources/dmrg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index ad201b9..11597c1 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -122,7 +122,8 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
                                dmrg_logger &logger)
 {
 	auto length = hamiltonian.size();
-	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, qnum);
+	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, qnum,
+	                          hamiltonian[0].options().requires_grad(false));
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -131,7 +132,8 @@ std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const
 std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &options, dmrg_logger &logger)
 {
 	auto length = hamiltonian.size();
-	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian);
+	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian,
+	                          hamiltonian[0].options().requires_grad(false));
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From 6341ee031ea0913e74071e17aa4bbd25aace65ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:23 +0000
Subject: [PATCH 104/128] fix: block svd and eigh declared single precision
 vectors as double precision

---
 sources/btensor_linalg.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 86e9fc7..5d1e4b0 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -377,8 +377,10 @@ std::tuple<btensor, btensor> eigh(const btensor &tensor, BOOL upper)
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
 	auto d = shape_from(LA_helpers::kept_dims(tensor, d_shape), rightD_shape)
 	             .neutral_shape_()
 	             .to(tensor.options().dtype(
@@ -487,8 +489,10 @@ std::tuple<btensor, btensor, btensor> svd(const btensor &tensor, const BOOL some
 	}
 	std::vector<int64_t> d_shape(tensor.dim(), -1);
 	*(d_shape.end() - 2) = *(d_shape.end() - 1) = 0;
-	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
-	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral());
+	btensor leftD_shape({static_cast<long>(d_blocks)}, left_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
+	btensor rightD_shape({static_cast<long>(d_blocks)}, right_D_cvals, D_block_sizes, tensor.selection_rule->neutral(),
+	                    tensor.options());
 	// small d is just the diagonnal of D, the diagonal matrix of singular values.
 	//  because it is a vector, the correct operation to multiply it with the other matrices is a broadcasting
 	//  elementwise multiplication. This operation must multiply together the conserved value. We adopt a convention
-- 
2.43.0


From 23bc56a60c5f8a165a69d0bee4d083cbe17cbf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:08 +0000
Subject: [PATCH 105/128] fix: block truncations kept every zero singular
 value, beyond the maximum, when the minimum reaches one of them

---
 sources/btensor_linalg.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/sources/btensor_linalg.cpp b/sources/btensor_linalg.cpp
index 5d1e4b0..dbde6f2 100644
--- a/sources/btensor_linalg.cpp
+++ b/sources/btensor_linalg.cpp
@@ -755,6 +755,9 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 	    last_kept < 0 ? std::numeric_limits<double>::infinity() : vd.index({last_kept}).item().toDouble();
 	smallest_value *=
 	    1 - 2 * epsilon(d.options().dtype()).toDouble(); // Better chance to preserve degenerate multiplets that way.
+	// values that are exactly zero aren't a multiplet worth preserving: only as many as necessary are kept.
+	int64_t n_zeros =
+	    smallest_value == 0 ? last_kept + 1 - vd.count_nonzero().item().toLong() : 0;
 	// for each block trio, we can remove all the values smaller than smallest_value
 	// without inducing an error larger than the tol.
 	auto d_it = d.end();
@@ -786,7 +789,15 @@ std::tuple<btensor, std::tuple<BTENS...>> truncate_impl(btensor &&d, std::tuple<
 		auto &d_ind = std::get<0>(*d_it);
 		auto &db = std::get<1>(*d_it);
 		using namespace torch::indexing;
-		auto kept = torch::nonzero(db.abs() >= smallest_value).flatten(); // the eigenvalues aren't in decreasing order.
+		auto to_keep = torch::logical_and(db.abs() >= smallest_value, db != 0);
+		if (n_zeros > 0)
+		{
+			auto zeros = torch::nonzero(db == 0).flatten();
+			zeros = zeros.slice(0, 0, std::min(n_zeros, zeros.size(0)));
+			to_keep.index_fill_(0, zeros, true);
+			n_zeros -= zeros.size(0);
+		}
+		auto kept = torch::nonzero(to_keep).flatten(); // the eigenvalues aren't in decreasing order.
 		if (kept.size(0) == 0)
 		{ // remove the whole block...
 			// i think, out of laziness and lack of advantages to the converse, i will only erase the blocks without
-- 
2.43.0


From b244aa12d7bf4e38e1c7ce22742020db4c42a097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:44 +0000
Subject: [PATCH 106/128] fix: btensor::to lost the options that it wasn't
 given on tensors without blocks

---
 include/blockTensor/btensor.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index b83baeb..aae2977 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -743,7 +743,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([&options, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(options, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},options).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},_options.merge_in(options)).options();
 		return out;
 	}
 	btensor to(const btensor &other, bool non_blocking = false, bool copy = false,
@@ -759,7 +759,7 @@ class btensor
 		    [device, dtype, non_blocking, copy, memory_format](const auto &atensor)
 		    { return atensor.to(device, dtype, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},torch::TensorOptions().device(device).dtype(dtype).memory_format(memory_format)).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},_options.device(device).dtype(dtype).memory_format(memory_format)).options();
 		return out;
 	}
 	btensor to(torch::ScalarType dtype, bool non_blocking = false, bool copy = false,
@@ -769,7 +769,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([dtype, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(dtype, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() :torch::empty({},torch::TensorOptions().dtype(dtype).memory_format(memory_format)).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() :torch::empty({},_options.dtype(dtype).memory_format(memory_format)).options();
 		return out;
 	}
 	btensor to(caffe2::TypeMeta type_meta, bool non_blocking = false, bool copy = false,
@@ -779,7 +779,7 @@ class btensor
 		    new_block_list_apply_to_all_blocks([type_meta, non_blocking, copy, memory_format](const auto &atensor)
 		                                       { return atensor.to(type_meta, non_blocking, copy, memory_format); });
 		auto out = btensor(*this, std::move(out_list));
-		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},torch::TensorOptions().dtype(torch::typeMetaToScalarType(type_meta)).memory_format(memory_format)).options();
+		out._options = out.begin()!= out.end() ? out.begin()->second.options() : torch::empty({},_options.dtype(torch::typeMetaToScalarType(type_meta)).memory_format(memory_format)).options();
 		return out;
 	}
 	btensor to(const torch::Tensor &other, bool non_blocking = false, bool copy = false,
-- 
2.43.0


From d4a36a2984ae55acb92e26c5f5255148b10d975e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:52 +0000
Subject: [PATCH 107/128] fix: dmrg from a random state started on a state that
 is not canonical, the first updates could destroy it

---
 sources/dmrg.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 11597c1..eb46c7e 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -118,12 +118,21 @@ torch::Tensor dmrg(MPO &hamiltonian, MPS &in_out_state, const dmrg_options &opti
 	return details::dmrg_impl(hamiltonian, TwositesH, in_out_state, options, Env, logger);
 }
 
+// Random states have no orthogonality center, the updates rely on the one they have.
+template <class MPS_t>
+void make_canonical(MPS_t &state)
+{
+	state.move_oc(static_cast<int>(state.size()) - 1);
+	state.move_oc(0);
+}
+
 std::tuple<btensor, bMPS> dmrg(bMPO &hamiltonian, any_quantity_cref qnum, const dmrg_options &options,
                                dmrg_logger &logger)
 {
 	auto length = hamiltonian.size();
 	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian, qnum,
 	                          hamiltonian[0].options().requires_grad(false));
+	make_canonical(out_mps);
 	// size_t counter=0;
 	// for(auto&a:out_mps){fmt::print("====== ===pos {}===========\n{}",counter++,a);}
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
@@ -134,6 +143,7 @@ std::tuple<torch::Tensor, MPS> dmrg(MPO &hamiltonian, const dmrg_options &option
 	auto length = hamiltonian.size();
 	auto out_mps = random_MPS(std::max<size_t>(options.minimum_bond, 1), hamiltonian,
 	                          hamiltonian[0].options().requires_grad(false));
+	make_canonical(out_mps);
 	auto E0 = dmrg(hamiltonian, out_mps, options, logger);
 	return std::make_tuple(E0, out_mps);
 }
-- 
2.43.0


From ae08799f67669853d0e0708559b8f8e045200952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:43 +0000
Subject: [PATCH 108/128] fix: the line length given to the tensor formatter
 lost its first and last digits, and could hang the formatter

---
 include/torch_formatter.h | 16 ++++------------
 1 file changed, 4 insertions(+), 12 deletions(-)

diff --git a/include/torch_formatter.h b/include/torch_formatter.h
index 0accb4d..340114c 100644
--- a/include/torch_formatter.h
+++ b/include/torch_formatter.h
@@ -36,24 +36,16 @@ struct fmt::formatter<torch::Tensor>
 		auto it = ctx.begin(), end = ctx.end();
 		if (it and *it != '}')
 		{
-			++it;
 			auto first_pos = it;
 			while (it != end && *it != '}')
 			{
 				++it;
 			}
-			auto last_pos = it - 1;
 			uint width = 80;
-			if (last_pos > first_pos)
-			{
-				auto code = std::from_chars(first_pos, last_pos, width);
-				if (code.ptr != last_pos || std::errc::invalid_argument == code.ec)
-					throw format_error("invalid format, only a single integer supported for torch::Tensor");
-				else
-				{
-					linelenght = width;
-				}
-			}
+			auto code = std::from_chars(first_pos, it, width);
+			if (code.ptr != it || code.ec != std::errc())
+				throw format_error("invalid format, only a single integer supported for torch::Tensor");
+			linelenght = std::max(width, 24u); // at::print never ends if a single column doesn't fit on the line.
 		}
 		if (it and *it != '}')
 			throw format_error("invalid format,closing brace missing");
-- 
2.43.0


From 2dc43e2cf2fb85f741ccd39fbfaedb4e8a5cc3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 109/128] fix: insert_or_assign, try_emplace and emplace
 without hint of flat_map did not compile, and read past the end of the map

---
 include/blockTensor/flat_map.h | 54 ++++++++++++++++++----------------
 1 file changed, 29 insertions(+), 25 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 5a04180..85c507e 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -434,14 +434,14 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<M>(obj));
+			it = iterator(content.emplace(it.it, k, std::forward<M>(obj)));
 			success = true;
 		}
 		else
 		{
-			*it = value_type(k, std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 		return std::make_pair(it, success);
 	}
@@ -450,14 +450,14 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), k, comp);
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<M>(obj));
+			it = iterator(content.emplace(it.it, std::move(k), std::forward<M>(obj)));
 			success = true;
 		}
 		else
 		{
-			*it = value_type(std::move(k), std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 		return std::make_pair(it, success);
 	}
@@ -465,17 +465,17 @@ class flat_map
 	iterator insert_or_assign(const_iterator hint, const key_type &k, M &&obj)
 	{
 
-		auto [first, last] = use_hint(hint, k);
+		auto [first, last] = use_hint(begin() + (hint - cbegin()), k);
 		iterator it = std::lower_bound(
 		    first, last, k,
 		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<M>(obj));
+			it = iterator(content.emplace(it.it, k, std::forward<M>(obj)));
 		}
 		else
 		{
-			*it = value_type(k, std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 
 		return it;
@@ -483,17 +483,17 @@ class flat_map
 	template <class M>
 	iterator insert_or_assign(const_iterator hint, key_type &&k, M &&obj)
 	{
-		auto [first, last] = use_hint(hint, k);
+		auto [first, last] = use_hint(begin() + (hint - cbegin()), k);
 		iterator it = std::lower_bound(
 		    first, last, k,
 		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<M>(obj));
+			it = iterator(content.emplace(it.it, std::move(k), std::forward<M>(obj)));
 		}
 		else
 		{
-			*it = value_type(std::move(k), std::forward<M>(obj));
+			it->second = std::forward<M>(obj);
 		}
 		return it;
 	}
@@ -505,7 +505,7 @@ class flat_map
 		auto it = std::lower_bound(begin(), end(), val, comp);
 		if (it  == end() or comp(val, *it))
 		{
-			it = content.emplace(it.it, std::move(val));
+			it = iterator(content.emplace(it.it, std::move(val)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -540,9 +540,10 @@ class flat_map
 	{
 		iterator it = std::lower_bound(begin(), end(), k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(k),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -552,9 +553,10 @@ class flat_map
 	{
 		iterator it = std::lower_bound(begin(), end(), k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(std::move(k)),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -562,12 +564,13 @@ class flat_map
 	template <class... Args>
 	std::pair<iterator, bool> try_emplace(const_iterator hint, const key_type &k, Args &&... args)
 	{
-		auto [first, last] = use_hint(hint, k);
+		auto [first, last] = use_hint(begin() + (hint - cbegin()), k);
 		iterator it = std::lower_bound(first, last, k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, k, std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(k),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
@@ -575,12 +578,13 @@ class flat_map
 	template <class... Args>
 	std::pair<iterator, bool> try_emplace(const_iterator hint, key_type &&k, Args &&... args)
 	{
-		auto [first, last] = use_hint(hint, k);
+		auto [first, last] = use_hint(begin() + (hint - cbegin()), k);
 		iterator it = std::lower_bound(first, last, k, comp);
 		bool success = false;
-		if (comp(k, *it))
+		if (it == end() or comp(k, *it))
 		{
-			it = content.emplace(it, std::move(k), std::forward<Args>(args)...);
+			it = iterator(content.emplace(it.it, std::piecewise_construct, std::forward_as_tuple(std::move(k)),
+			                              std::forward_as_tuple(std::forward<Args>(args)...)));
 			success = true;
 		}
 		return std::make_pair(it, success);
-- 
2.43.0


From ad0c3c0d568bcceff61a7c6b8a465a62972ea3b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 110/128] fix: flat_map::merge of a temporary without collision
 treatment did not compile

---
 include/blockTensor/flat_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 85c507e..00f707b 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -667,7 +667,7 @@ class flat_map
 	{
 		if (source.capacity() >= source.size() + size())
 		{
-			swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
+			std::swap(content, source.content); // if the source has enough capacity, we'll keep it instead.
 			insert(source.begin(), source.end(), [](auto &a, const auto &b) {
 				// b is const in the context that call this lambda function.
 				// But in this present context, we know it's actually a reference to a non-const value.
-- 
2.43.0


From a8af2753e12302abd4c84bc8de9793ff62004809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 111/128] fix: assignment of a list to a flat_map did not
 compile, and did not sort the list

---
 include/blockTensor/flat_map.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 00f707b..16e479a 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -213,17 +213,17 @@ class flat_map
 		return *this;
 	}
 	/**
-	 * @brief set the content of the flat_map to that of the arguement. Does not sort if input isn't already sorted.
-	 * 
-	 * TODO: add a call to sort?
+	 * @brief set the content of the flat_map to that of the arguement.
 	 * 
 	 * @param ilist 
 	 * @return flat_map& 
 	 */
 	flat_map &operator=(std::initializer_list<value_type> ilist)
 	{
-		content.resize(0);
-		content.insert(ilist.begin(), ilist.end());
+		content.assign(ilist.begin(), ilist.end());
+		sort(content.begin(), content.end());
+		auto l = filter_unique(content.begin(), content.end());
+		content.resize(std::distance(content.begin(), l));
 		return *this;
 	}
 
-- 
2.43.0


From 8b1f4b692778b6632ae6b582ad392f0ddef87b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 112/128] fix: insertion in a flat_map of a range that does not
 come from a flat_map did not compile

---
 include/blockTensor/flat_map.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 16e479a..2a4cb03 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -330,14 +330,17 @@ class flat_map
 	template <class InputIt>
 	void insert(InputIt first, InputIt last)
 	{
-		insert(
-		    first, last, [](auto &, const auto &) {}, [](auto &) {});
+		if constexpr (std::is_convertible_v<InputIt, const_iterator>)
+			insert(
+			    first, last, [](auto &, const auto &) {}, [](auto &) {});
+		else
+			insert(first, last, [](auto &, auto &) {});
 	}
 	template <class InputIt, class Collision, class = std::enable_if_t<!std::is_convertible_v<InputIt, const_iterator>>>
 	void insert(InputIt first, InputIt last, Collision &&collision)
 	{
 		static_assert(!std::is_convertible_v<InputIt, const_iterator>, "Don't try to bypass the enable if");
-		content.insert(content.end(), const_iterator(first).base_reference(),const_iterator(last).base_reference());
+		content.insert(content.end(), first, last);
 		sort();
 		auto l = filter_unique(
 		    content.begin(), content.end(),
-- 
2.43.0


From 67b6d683b3dbfab52497bf25c7e01860a11f3c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:55 +0000
Subject: [PATCH 113/128] fix: insertion in a flat_map compared the keys with
 != rather than with the order of the map, which could store equivalent keys

---
 include/blockTensor/flat_map.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/blockTensor/flat_map.h b/include/blockTensor/flat_map.h
index 2a4cb03..e885d49 100644
--- a/include/blockTensor/flat_map.h
+++ b/include/blockTensor/flat_map.h
@@ -273,7 +273,7 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), value.first, comp);
-		if (it ==end() or it->first != value.first)
+		if (it == end() or comp(value, *it))
 		{
 			it = iterator(content.insert(it.base_reference(), value));
 			success = true;
@@ -284,7 +284,7 @@ class flat_map
 	{
 		bool success = false; // true if the value was actually inserted.
 		auto it = std::lower_bound(begin(), end(), value.first, comp);
-		if ( it == end() or it->first != value.first)
+		if (it == end() or comp(value, *it))
 		{
 			it = iterator(content.insert(it.base_reference(), std::move(value)));
 			success = true;
@@ -303,7 +303,7 @@ class flat_map
 		auto it = std::lower_bound(
 		    first, last, value,
 		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (it == end() or it->first != value.first)
+		if (it == end() or comp(value, *it))
 		{
 			return iterator(content.insert(it.base_reference(), value ));
 		}
@@ -315,7 +315,7 @@ class flat_map
 		auto it = std::lower_bound(
 		    first, last, value,
 		    comp); // that's not a big saving if the hint is really good. except if the element is near the ends
-		if (it == end() or it->first != value.first)
+		if (it == end() or comp(value, *it))
 		{
 			return iterator(content.insert(it.base_reference(), std::move(value)));
 		}
-- 
2.43.0


From e210734c7990da3579c5c3ea755a280c86eb9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:18 +0000
Subject: [PATCH 114/128] fix: dmrg with the gradient of the state or of the
 hamiltonian requested always threw, and the gradient was traced when it is
 not requested

---
 sources/dmrg.cpp | 40 ++++++++++++++++++++++++++++++----------
 1 file changed, 30 insertions(+), 10 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index eb46c7e..829b6e1 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -17,6 +17,7 @@
 #include "blockTensor/btensor.h"
 #include "numeric.h"
 #include "torch_formatter.h"
+#include <algorithm>
 #include <fmt/core.h>
 #include <random>
 namespace quantit
@@ -64,28 +65,47 @@ std::tuple<torch::Tensor, torch::Tensor> two_sites_update(const torch::Tensor &s
                                                           const torch::Tensor &Left_environment,
                                                           const torch::Tensor &Right_environment);
 
+// shallow copy of the tensor on which the operations are recorded for the computation of gradients, or not.
+inline torch::Tensor with_tracing(const torch::Tensor &tens, bool trace)
+{
+	return tens.requires_grad() == trace ? tens : tens.detach().requires_grad_(trace);
+}
+inline btensor with_tracing(const btensor &tens, bool trace)
+{
+	btensor out = tens.to(torch::TensorOptions().requires_grad(false));
+	for (auto &block : out) std::get<1>(block) = with_tracing(std::get<1>(block), trace);
+	return out;
+}
+inline bool is_traced(const torch::Tensor &tens) { return tens.requires_grad(); }
+inline bool is_traced(const btensor &tens)
+{
+	return std::any_of(tens.begin(), tens.end(), [](const auto &block) { return std::get<1>(block).requires_grad(); });
+}
 template <class MPO_t, class MPS_t>
 class dmrg_gradient_guard
 {
 	MPO_t &hamil;
 	MPS_t &state;
-	bool guard_hamil;
-	bool guard_state;
-	torch::TensorOptions hamil_opt;
-	torch::TensorOptions state_opt;
+	MPO_t original_hamil;
+	bool state_was_traced;
+
+	template <class T>
+	static void set_tracing(T &network, bool trace)
+	{
+		for (auto &tens : network) tens = with_tracing(tens, trace);
+	}
 
   public:
 	dmrg_gradient_guard(MPO_t &_hamil, MPS_t &_state, const dmrg_options &options)
-	    : hamil(_hamil), state(_state), guard_hamil(options.hamil_gradient), guard_state(options.state_gradient),
-	      hamil_opt(hamil[0].options()), state_opt(state[0].options())
+	    : hamil(_hamil), state(_state), original_hamil(_hamil), state_was_traced(is_traced(state[0]))
 	{
-		hamil.to_(torch::TensorOptions().requires_grad(guard_hamil));
-		state.to_(torch::TensorOptions().requires_grad(guard_state));
+		set_tracing(hamil, options.hamil_gradient);
+		set_tracing(state, options.state_gradient);
 	}
 	~dmrg_gradient_guard()
 	{
-		hamil.to_(hamil_opt);
-		state.to_(state_opt);
+		hamil = original_hamil;
+		set_tracing(state, state_was_traced);
 	}
 };
 
-- 
2.43.0


From 5dbaa3f0e839ee4f5cc9947d9a91933992b1807c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:49 +0000
Subject: [PATCH 115/128] fix: contraction of block tensors threw when the
 gradient of one of them is recorded and it has a row or column for a matrix

---
 sources/btensor.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index bbff452..dc54eae 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1969,7 +1969,7 @@ btensor::block_list_t permute_bl(const btensor::block_list_t &block_list, torch:
 				// 	fmt::print("wtf?\n");
 				// }
 				// fmt::print("new_stride: {} ", new_stride);
-				tens.as_strided_(tens.sizes(), new_stride);
+				tens = tens.as_strided(tens.sizes(), new_stride);
 				// fmt::print("after: {} \n", tens.strides());
 			}
 
-- 
2.43.0


From c48ebe6cb1503f99b96b50f16b4d655c824fdf75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 116/128] fix: reverse of a list of dimensions appended as many
 zeros to it

---
 sources/dimension_manip.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index ff1e253..d93ff7b 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -49,9 +49,7 @@ int64_t prod(torch::IntArrayRef dims, size_t start, size_t n)
 
 std::vector<int64_t> reverse(torch::IntArrayRef dims)
 {
-	std::vector<int64_t> out(dims.size());
-	out.insert(out.begin(),dims.rbegin(),dims.rend());
-	return out;
+	return std::vector<int64_t>(dims.rbegin(),dims.rend());
 }
 
 
-- 
2.43.0


From ab08c7263f3c4426b0b07941146dac79475a9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:59 +0000
Subject: [PATCH 117/128] fix: slice of a reference to a list of dimensions was
 declared and not defined

---
 sources/dimension_manip.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/dimension_manip.cpp b/sources/dimension_manip.cpp
index d93ff7b..89cab98 100644
--- a/sources/dimension_manip.cpp
+++ b/sources/dimension_manip.cpp
@@ -57,5 +57,9 @@ torch::IntArrayRef slice(const std::vector<int64_t>& in, size_t start, size_t n)
 {
 	return torch::IntArrayRef(in).slice(start,n);
 }
+torch::IntArrayRef slice(torch::IntArrayRef in, size_t start, size_t n)
+{
+	return in.slice(start,n);
+}
 
 }//QuantiT
\ No newline at end of file
-- 
2.43.0


From d948ab492a1dbb25b9577feaec802007bd755be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:43 +0000
Subject: [PATCH 118/128] fix: block tensors created with requires_grad lost
 it, or could not be summed nor made dense

---
 include/blockTensor/btensor.h |  3 ++-
 sources/btensor.cpp           | 40 +++++++++++++++++++----------------
 2 files changed, 24 insertions(+), 19 deletions(-)

diff --git a/include/blockTensor/btensor.h b/include/blockTensor/btensor.h
index aae2977..d5edc5b 100644
--- a/include/blockTensor/btensor.h
+++ b/include/blockTensor/btensor.h
@@ -987,7 +987,8 @@ class btensor
 inline btensor sparse_zeros_like(const btensor &tens, c10::TensorOptions opt = {})
 {
 	auto out = btensor(tens,btensor::block_list_t());
-	out._options = out._options.merge_in(opt);
+	// like the constructors: the options describe the blocks, they don't make every tensor created from them a leaf.
+	out._options = torch::empty({}, out._options.merge_in(opt)).options();
 	return out;
 }
 /**
diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index dc54eae..f2f16e8 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2441,11 +2441,14 @@ size_t get_refcount(const torch::Tensor &tens)
  *
  * @tparam Factory
  * @param out
+ * @param opt options requested by the caller. Whether the blocks record their history is taken from there: the options
+ * of the btensor describe the blocks, they don't carry it.
  * @param factory
  */
 template <class Factory>
-void factory_wrap(btensor &out, Factory &&factory)
+void factory_wrap(btensor &out, const c10::TensorOptions &opt, Factory &&factory)
 {
+	const auto block_options = out.options().requires_grad(opt.requires_grad());
 	out.reserve_space_(btensor_size::max);
 	auto index = btensor::index_list(out.dim());
 	auto sections = out.section_numbers();
@@ -2456,7 +2459,7 @@ void factory_wrap(btensor &out, Factory &&factory)
 		if (out.block_conservation_rule_test(index))
 		{
 			auto shape_view = out.block_sizes(index);
-			out.block(index) = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), out.options());
+			out.block(index) = factory(std::vector<int64_t>(shape_view.begin(), shape_view.end()), block_options);
 		}
 		out.block_increment(index);
 	} while (any_truth(index));
@@ -2465,64 +2468,64 @@ void factory_wrap(btensor &out, Factory &&factory)
 btensor zeros(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, std::move(selection_rule), opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::zeros(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::zeros(size, options); });
 	return out;
 }
 btensor zeros_like(const btensor &tens, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::zeros(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::zeros(size, options); });
 	return out;
 }
 
 btensor ones(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, std::move(selection_rule), opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });
 	return out;
 }
 btensor ones_like(const btensor &tens, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::ones(size, options); });
 	return out;
 }
 btensor empty(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, selection_rule, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::empty(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::empty(size, options); });
 	return out;
 }
 btensor empty_like(const btensor &tens, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::empty(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::empty(size, options); });
 	return out;
 }
 btensor rand(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, selection_rule, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::rand(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::rand(size, options); });
 	return out;
 }
 btensor rand_like(const btensor &tens, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::rand(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::rand(size, options); });
 	return out;
 }
 btensor full(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, btensor::Scalar fill_value,
              c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, selection_rule, opt);
-	factory_wrap(out, [fill_value](torch::IntArrayRef size, c10::TensorOptions options)
+	factory_wrap(out, opt, [fill_value](torch::IntArrayRef size, c10::TensorOptions options)
 	             { return torch::full(size, fill_value, options); });
 	return out;
 }
 btensor full_like(const btensor &tens, btensor::Scalar fill_value, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [fill_value](torch::IntArrayRef size, c10::TensorOptions options)
+	factory_wrap(out, opt, [fill_value](torch::IntArrayRef size, c10::TensorOptions options)
 	             { return torch::full(size, fill_value, options); });
 	return out;
 }
@@ -2530,14 +2533,14 @@ btensor randint(int64_t low, int64_t high, const btensor::vec_list_t &shape_spec
                 c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, selection_rule, opt);
-	factory_wrap(out, [high, low](torch::IntArrayRef size, c10::TensorOptions options)
+	factory_wrap(out, opt, [high, low](torch::IntArrayRef size, c10::TensorOptions options)
 	             { return torch::randint(low, high, size, options); });
 	return out;
 }
 btensor randint_like(int64_t low, int64_t high, const btensor &tens, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [high, low](torch::IntArrayRef size, c10::TensorOptions options)
+	factory_wrap(out, opt, [high, low](torch::IntArrayRef size, c10::TensorOptions options)
 	             { return torch::randint(low, high, size, options); });
 	return out;
 }
@@ -2548,7 +2551,7 @@ btensor eye(const btensor::vec_list_t &shape_n, c10::TensorOptions opt)
 		throw std::invalid_argument("the input shape must be 1 or 2 dimensionnal");
 	if (shape.dim() == 1)
 		shape = shape_from(shape, shape.conj());
-	return eye_like(shape);
+	return eye_like(shape, opt);
 }
 btensor eye_like(const btensor &shape, c10::TensorOptions opt)
 {
@@ -2560,7 +2563,8 @@ btensor eye_like(const btensor &shape, c10::TensorOptions opt)
 		if (out.block_conservation_rule_test({i, i}))
 		{
 			auto blockshape = out.block_sizes({i, i});
-			out.blocks_list[{i, i}] = torch::eye(*blockshape.begin(), *(++blockshape.begin()), out.options());
+			out.blocks_list[{i, i}] = torch::eye(*blockshape.begin(), *(++blockshape.begin()),
+			                                     out.options().requires_grad(opt.requires_grad()));
 		}
 	}
 	return out;
@@ -2568,13 +2572,13 @@ btensor eye_like(const btensor &shape, c10::TensorOptions opt)
 btensor randn(const btensor::vec_list_t &shape_spec, any_quantity selection_rule, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros(shape_spec, selection_rule, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::randn(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::randn(size, options); });
 	return out;
 }
 btensor randn_like(const btensor &tens, c10::TensorOptions opt)
 {
 	auto out = quantit::sparse_zeros_like(tens, opt);
-	factory_wrap(out, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::randn(size, options); });
+	factory_wrap(out, opt, [](torch::IntArrayRef size, c10::TensorOptions options) { return torch::randn(size, options); });
 	return out;
 }
 
-- 
2.43.0


From df5760c144164552a01ba10fe56653f9d0cb3b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 119/128] fix: element type of quotients of block tensors, and
 of functions of tensors without blocks, was not the one torch gives to the
 blocks

---
 sources/btensor.cpp | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index f2f16e8..d3669b9 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -952,6 +952,17 @@ void btensor::swap(btensor &other)
 	swap(sections_sizes, other.sections_sizes);
 	swap(_options,other._options);
 }
+// Empty tensor with the rank and the element type of a btensor. torch's type promotion depends on both.
+torch::Tensor type_proxy(const btensor &tens)
+{
+	return torch::zeros(std::vector<int64_t>(tens.dim(), 0), at::typeMetaToScalarType(tens.options().dtype()));
+}
+// Element type of the result of a function of torch tensors. throws if torch can't apply it to those types.
+template <class F, class... Args>
+torch::ScalarType op_type(F &&f, const btensor &tens, const Args &...args)
+{
+	return std::invoke(f, type_proxy(tens), args...).scalar_type();
+}
 btensor &btensor::mul_(Scalar other)
 {
 	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.mul_(other_val); }, other);
@@ -1019,8 +1030,7 @@ btensor btensor::greater(btensor::Scalar other) const
 }
 btensor &btensor::div_(btensor::Scalar other)
 {
-	auto other_ = 1 / torch::full({}, other, options());
-	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.mul_(other_val); }, other_);
+	apply_to_all_blocks([](auto &&tensor, auto &&other_val) { tensor.div_(other_val); }, other);
 	return *this;
 }
 btensor btensor::div(btensor::Scalar other) const
@@ -1028,7 +1038,7 @@ btensor btensor::div(btensor::Scalar other) const
 	// auto out = btensor(*this);
 	// out.apply_to_all_blocks([](torch::Tensor &tensor, auto &&other_val) { tensor.mul(other_val); }, other);
 	// return out;
-	auto out_dtype = torch::result_type(torch::empty({}, _options), other);
+	auto out_dtype = op_type([&other](const torch::Tensor &tensor) { return tensor.div(other); }, *this);
 	return btensor(*this,
 	               new_block_list_apply_to_all_blocks(
 	                   [](const torch::Tensor &tensor, auto &&other_val) { return tensor.div(other_val); }, other),
@@ -1585,7 +1595,7 @@ btensor btensor::sum() const
 btensor btensor::sqrt() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::sqrt);
-	auto opt = options();
+	auto opt = options().dtype(op_type(torch::sqrt, *this));
 	if (out_list.size())
 	{
 		opt = out_list.begin()->second.options();
@@ -1615,7 +1625,7 @@ btensor &btensor::abs_()
 btensor btensor::abs() const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(torch::abs);
-	auto opt = options();
+	auto opt = options().dtype(op_type(torch::abs, *this));
 	if (out_list.size())
 	{
 		opt = out_list.begin()->second.options();
@@ -1627,7 +1637,7 @@ btensor btensor::pow(btensor::Scalar exponent) const
 {
 	auto out_list = new_block_list_apply_to_all_blocks(
 	    [](const torch::Tensor &x, btensor::Scalar exponent) { return x.pow(exponent); }, exponent);
-	auto opt = options();
+	auto opt = options().dtype(op_type([&exponent](const torch::Tensor &x) { return x.pow(exponent); }, *this));
 	if (out_list.size())
 	{
 		opt = out_list.begin()->second.options();
@@ -1757,8 +1767,7 @@ btensor btensor::broadcast_operation(const btensor &other, F &&f) const
 	if constexpr (promote)
 	{
 		// rank 0 tensors don't participate in the promotion on the same footing as the others.
-		dtype = torch::result_type(torch::empty(std::vector<int64_t>(rank, 1), options()),
-		                           torch::empty(std::vector<int64_t>(other.rank, 1), other.options()));
+		dtype = op_type(f, *this, type_proxy(other));
 	}
 	// fmt::print("new_sections_by_dim {}\n", new_sections_by_dim);
 	// fmt::print("new_cvals {}\n", new_cvals);
@@ -3327,12 +3336,13 @@ std::tuple<btensor::index_list, btensor::index_list> btensor::element_index_deco
 }
 btensor operator/(const btensor::Scalar &A, const btensor &B)
 {
-	auto out_type = torch::result_type(torch::empty({}, B.options()), A);
+	const auto out_type = op_type([&A](const torch::Tensor &tensor) { return tensor.div(A); }, B);
+	const auto numerator = torch::full({}, A, B.options().dtype(out_type).requires_grad(false));
 	auto out = quantit::sparse_zeros_like(B, B.options().dtype(out_type));
 	out.reserve_space_(std::distance(B.begin(), B.end()));
 	for (const auto &in : B)
 	{
-		out.block(in.first) = A / in.second;
+		out.block(in.first) = numerator.div(in.second);
 	}
 	return out;
 }
-- 
2.43.0


From 5bdb400d4c06893299388db5fbcc5cf88096d2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 120/128] fix: in place products, quotients and powers that
 broadcast this changed the type of the blocks and not of the tensor

---
 sources/btensor.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d3669b9..a13c092 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1328,6 +1328,12 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 		                        out; // exclusive or with the value in the other if it's currently true.
 		                 return out;
 	                 });
+	// the element type of this doesn't change
+	const auto this_type = at::typeMetaToScalarType(options().dtype());
+	const auto result_type = op_type(f, *this, type_proxy(other));
+	if (not torch::can_cast(result_type, this_type))
+		throw std::invalid_argument(fmt::format("result type {} can't be cast to the type {} of the output of the inplace operation",
+		                                        torch::toString(result_type), torch::toString(this_type)));
 
 	// when there are no broadcast, there's no need for nested loop, we can increment the two iterator in lockstep
 	// When there are broadcast, there's a more complicated, shorter loop. But it probably trigger many more rollback
@@ -1353,7 +1359,7 @@ btensor &btensor::broadcast_operation_(const btensor &other, F &&f, F_ &&f_)
 					                   f_(this_tensor, other_tensor));
 				else
 					out_blocks.emplace(out_blocks.end(), mul_helpers::out_index(smaller_rank, this_index, other_index),
-					                   f(this_tensor, other_tensor));
+					                   f(this_tensor, other_tensor).to(this_type));
 			}
 		}
 	}
-- 
2.43.0


From 0842c8fff7915d806028c664cf1c48fb4a469546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 121/128] fix: sum of a block tensor of booleans threw, and of
 32 bits integers kept its type

---
 sources/btensor.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a13c092..a963259 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1588,9 +1588,11 @@ btensor btensor::bmm(const btensor &mat) const
 
 btensor btensor::sum() const
 {
-	auto out = btensor({}, selection_rule->neutral(), this->options()); // the only element of a scalar has the neutral charge
+	// torch sums integers and booleans into 64 bits integers
+	const auto out_options = options().dtype(op_type([](const torch::Tensor &t) { return t.sum(); }, *this));
+	auto out = btensor({}, selection_rule->neutral(), out_options); // the only element of a scalar has the neutral charge
 	auto list = new_block_list_apply_to_all_blocks([](const torch::Tensor &t) { return t.sum(); });
-	torch::Tensor out_val = torch::zeros({}, options());
+	torch::Tensor out_val = torch::zeros({}, out_options);
 	for (auto &a : list)
 	{
 		out_val += std::get<1>(a);
-- 
2.43.0


From fc62a8a973db5f7babcf8033abc6254b1cecb327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 122/128] fix: sum of a block tensor and a scalar of a higher
 type truncated the scalar

---
 sources/btensor.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index a963259..0fad85e 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -1693,10 +1693,12 @@ btensor::Scalar Scalar_mul(btensor::Scalar a, btensor::Scalar b)
 }
 btensor btensor::add(btensor::Scalar other, btensor::Scalar alpha) const
 {
-	return full_like(*this, Scalar_mul(other, alpha)).add_(*this);
+	const auto out_type = op_type([&](const torch::Tensor &x) { return x.add(other, alpha); }, *this);
+	return full_like(*this, Scalar_mul(other, alpha), options().dtype(out_type)).add_(*this);
 }
 btensor &btensor::add_(btensor::Scalar other, btensor::Scalar alpha)
 {
+	op_type([&](torch::Tensor x) { return x.add_(other, alpha); }, *this); // throws if the type of this can't hold the sum.
 	return add_(full_like(*this, Scalar_mul(other, alpha)));
 }
 btensor &btensor::pow_(btensor::Scalar exponent)
-- 
2.43.0


From 86ad888ebb4912c70774a977c7f17ee4b64bb149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:26 +0000
Subject: [PATCH 123/128] fix: in place sum of temporary block tensors of
 booleans threw

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 0fad85e..3a6e270 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2868,7 +2868,7 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
 		    // view or the base of one, permute and transpose make views.
-		    if (x.scalar_type() != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
+		    if (x.scalar_type() != out_type or torch::result_type(x, alpha) != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
 			    x = x.mul(alpha).to(out_type);
 		    }
@@ -2915,7 +2915,7 @@ btensor &btensor::add_(btensor &&other, Scalar alpha)
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
 		    // view or the base of one, permute and transpose make views.
-		    if (x.scalar_type() != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
+		    if (x.scalar_type() != out_type or torch::result_type(x, alpha) != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
 			    x = x.mul(alpha).to(out_type);
 		    }
-- 
2.43.0


From b4731818bc09cd265ac62e21507c505c0904dd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:58 +0000
Subject: [PATCH 124/128] fix: models with complex couplings lost their
 imaginary part, or were null

---
 sources/models.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/sources/models.cpp b/sources/models.cpp
index b6a0d1e..925889c 100644
--- a/sources/models.cpp
+++ b/sources/models.cpp
@@ -43,7 +43,9 @@ MPO details::Heisenberg_impl(torch::Tensor J, size_t lenght)
 	if (lenght == 0)
 		throw std::invalid_argument("a chain must have at least one site");
 	auto type = torch::get_default_dtype();
-	if (!J.is_floating_point())
+	if (J.is_complex())
+		type = torch::scalarTypeToTypeMeta(torch::toComplexType(torch::typeMetaToScalarType(type)));
+	else if (!J.is_floating_point())
 		type = torch::scalarTypeToTypeMeta(torch::kInt8);
 	auto local_tens = torch::zeros({5, 2, 5, 2}, type);
 	auto [sx, isy, sz, lo, id] = pauli();
@@ -132,7 +134,10 @@ MPO Hubbard(torch::Tensor U, torch::Tensor mu, size_t lenght)
 		throw std::invalid_argument(fmt::format(errorstr, "mu", mu.dim()));
 	if (lenght == 0)
 		throw std::invalid_argument("a chain must have at least one site");
-	auto local_tens = torch::zeros({6, 4, 6, 4});
+	auto type = torch::get_default_dtype();
+	if (U.is_complex() or mu.is_complex())
+		type = torch::scalarTypeToTypeMeta(torch::toComplexType(torch::typeMetaToScalarType(type)));
+	auto local_tens = torch::zeros({6, 4, 6, 4}, type);
 	auto [c_up, c_dn, F, id] = fermions();
 	auto n_up = torch::matmul(c_up.conj().t(), c_up);
 	auto n_dn = torch::matmul(c_dn.conj().t(), c_dn);
-- 
2.43.0


From cd512c16e9f0726aa79231823d819b79d20e335a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:01 +0000
Subject: [PATCH 125/128] fix: block tensors of several elements converted to a
 number when they stored one block or none

---
 sources/btensor.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 3a6e270..6bde19b 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -323,13 +323,15 @@ std::vector<int64_t> btensor::sizes() const
 }
 btensor::Scalar btensor::item() const
 {
-	auto d = std::distance(begin(), end());
-	if (d == 0)
-		return torch::zeros({}, options()).item();
-	if (d == 1)
-		return begin()->second.item();
-	else
-		throw std::logic_error("Only simgle block and single element tensors can be converted to scalar");
+	const auto full_sizes = sizes();
+	if (std::any_of(full_sizes.begin(), full_sizes.end(), [](auto s) { return s != 1; }))
+		throw std::logic_error("Only single element tensors can be converted to scalar");
+	for (auto &[block_index, block] : *this)
+	{
+		if (block.numel())
+			return block.item();
+	}
+	return torch::zeros({}, options()).item();
 }
 btensor::btensor(const btensor::vec_list_t &dir_block_size_cqtt, any_quantity_cref selection_rule,
                  c10::TensorOptions opt)
-- 
2.43.0


From 5b92f28cd42dacb524b7f35ee484d28d1a49a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:15:43 +0000
Subject: [PATCH 126/128] fix: ground state search with an energy near 100000
 stopped after its first iteration

---
 sources/dmrg.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/dmrg.cpp b/sources/dmrg.cpp
index 829b6e1..88567d3 100644
--- a/sources/dmrg.cpp
+++ b/sources/dmrg.cpp
@@ -321,7 +321,8 @@ btensor details::dmrg_impl(const bMPO &hamiltonian, const bMPT &two_sites_hamil,
 		    sweep(in_out_state, update, step, 2 * N_step, in_out_state.size() - 2); // sweep from the oc and back to it.
 		logger.it_log_all(iteration, E0_tens, in_out_state);
 		swap(E0, E0_tens);
-		if (!((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))
+		if (iteration > 0 and // there's no previous energy to compare with.
+		    !((((E0 - E0_tens) / E0).abs() > options.convergence_criterion))
 		         .item()
 		         .toBool()) // looks weird? it's so it stop on nan (nan
 		                    // compare false with everything).
@@ -387,7 +388,8 @@ torch::Tensor details::dmrg_impl(const MPO &hamiltonian, const MPT &twosites_ham
 		logger.it_log_all(iteration, E0_update, in_out_state);
 		std::swap(E0, E0_update);
 		// print("{:-^40}\n", "");
-		if (!((abs(E0_update - E0) > options.convergence_criterion))
+		if (iteration > 0 and // there's no previous energy to compare with.
+		    !((abs(E0_update - E0) > options.convergence_criterion))
 		         .item()
 		         .to<bool>()) // looks weird? it's so it stop on nan (nan
 		                      // compare false with everything).
-- 
2.43.0


From 69fd32793e7d0c4ec9b2a7129c1aa7f829b69a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:58 +0000
Subject: [PATCH 127/128] fix: sum of block tensors of different types scaled
 the missing blocks in their own type

---
 sources/btensor.cpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index 6bde19b..d191a32 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -2829,9 +2829,17 @@ torch::ScalarType inplace_sum_type(const btensor &a, const btensor &b, btensor::
 	return torch::zeros({1}, stored_type(a)).add_(torch::zeros({1}, stored_type(b)), alpha).scalar_type();
 }
 
+// Multiple of a block in the type of the sum, with the arithmetic that torch uses to compute this sum.
+torch::Tensor sum_term(const torch::Tensor &x, btensor::Scalar alpha, torch::ScalarType other_type,
+                       torch::ScalarType out_type)
+{
+	return x.to(torch::promote_types(x.scalar_type(), other_type)).mul(alpha).to(out_type);
+}
+
 btensor btensor::add(const btensor &other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto this_type = stored_type(*this);
 	const auto out_type = sum_type(*this, other, alpha);
 	auto out = *this;
 	for (auto &a : out)
@@ -2843,7 +2851,7 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 	    // collision : do an addition in place
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision, multiply with the constant and make an independent copy
-	    [&alpha, out_type](torch::Tensor &x) { x = x.mul(alpha).to(out_type); });
+	    [&alpha, this_type, out_type](torch::Tensor &x) { x = sum_term(x, alpha, this_type, out_type); });
 	out._options = out._options.dtype(out_type);
 	return out;
 }
@@ -2854,6 +2862,7 @@ btensor btensor::add(const btensor &other, Scalar alpha) const
 btensor btensor::add(btensor &&other, Scalar alpha) const
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto this_type = stored_type(*this);
 	const auto out_type = sum_type(*this, other, alpha);
 	auto out = *this;
 	for (auto &a : out) // the copy is shallow, and the collisions are resolved in place.
@@ -2866,13 +2875,13 @@ btensor btensor::add(btensor &&other, Scalar alpha) const
 	                       // change the cost of the operations. collision
 	    [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
 	    // no collision
-	    [&alpha, out_type](torch::Tensor &x)
+	    [&alpha, this_type, out_type](torch::Tensor &x)
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
 		    // view or the base of one, permute and transpose make views.
 		    if (x.scalar_type() != out_type or torch::result_type(x, alpha) != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
-			    x = x.mul(alpha).to(out_type);
+			    x = sum_term(x, alpha, this_type, out_type);
 		    }
 		    else
 		    {
@@ -2894,11 +2903,12 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 	// of is to implement the state sharing logic at the level of the btensor as well. That's quite a bit of work
 	// and won't be done right away.
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto this_type = stored_type(*this);
 	const auto out_type = inplace_sum_type(*this, other, alpha);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    other.blocks_list, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha, out_type](torch::Tensor &x) { x = x.mul(alpha).to(out_type); });
+	    [&alpha, this_type, out_type](torch::Tensor &x) { x = sum_term(x, alpha, this_type, out_type); });
 	_options = _options.dtype(out_type);
 	return *this;
 }
@@ -2908,18 +2918,19 @@ btensor &btensor::add_(const btensor &other, Scalar alpha)
 btensor &btensor::add_(btensor &&other, Scalar alpha)
 {
 	add_tensor_check(*this, other); // perform compatibility check before the actual operations.
+	const auto this_type = stored_type(*this);
 	const auto out_type = inplace_sum_type(*this, other, alpha);
 	auto b_blocks = std::move(other.blocks_list);
 	// std::for_each(b_blocks.begin(), b_blocks.end(), [](auto &x) { std::get<1>(x) = std::get<1>(x).clone(); });
 	this->blocks_list.merge(
 	    b_blocks, [&alpha](torch::Tensor &a, const torch::Tensor &b) { a.add_(b, alpha); },
-	    [&alpha, out_type](torch::Tensor &x)
+	    [&alpha, this_type, out_type](torch::Tensor &x)
 	    {
 		    // greater than 2 because we've just made a temp copy for this algorithm. The storage can also belong to a
 		    // view or the base of one, permute and transpose make views.
 		    if (x.scalar_type() != out_type or torch::result_type(x, alpha) != out_type or get_refcount(x) > 2 or x.unsafeGetTensorImpl()->unsafe_storage().use_count() > 1)
 		    {
-			    x = x.mul(alpha).to(out_type);
+			    x = sum_term(x, alpha, this_type, out_type);
 		    }
 		    else
 		    {
-- 
2.43.0


From f22159b93b6cd02a0723f9999db34055e9fa0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:57 +0000
Subject: [PATCH 128/128] fix: any() of block tensors of bytes threw

---
 sources/btensor.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/btensor.cpp b/sources/btensor.cpp
index d191a32..60ea0ca 100644
--- a/sources/btensor.cpp
+++ b/sources/btensor.cpp
@@ -3305,11 +3305,11 @@ torch::Tensor btensor::any() const
 	auto it = this->begin();
 	if (it == this->end())
 		return torch::zeros({}, torch::kBool); // every element is an implicit zero.
-	auto out = std::get<1>(*it).any();
+	auto out = std::get<1>(*it).any().to(torch::kBool); // torch's any preserves the type of bytes.
 	auto &out_acc = *(out.data_ptr<bool>());
 	while (it != this->end() and !out_acc)
 	{
-		out |= std::get<1>(*it).any();
+		out |= std::get<1>(*it).any().to(torch::kBool);
 		++it;
 	}
 	return out;
-- 
2.43.0

