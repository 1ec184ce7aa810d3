From bf5a309431c7ce0ae500cad1400f769f7a150178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 01/36] fix: include <cstdint> and <algorithm> where they are
 used

---
 nytl/callback.hpp   | 1 +
 nytl/connection.hpp | 1 +
 nytl/utf.hpp        | 2 ++
 3 files changed, 4 insertions(+)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index c94847e..f431a7f 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -19,6 +19,7 @@
 #include <cstddef> // std::size_t
 #include <type_traits> // std::is_same
 #include <vector> // std::vector
+#include <algorithm> // std::equal_range
 #include <limits> // std::numeric_limits
 #include <iostream> // std::cerr
 #include <stdexcept> // std::logic_error
diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 3e29fdf..b3d59d6 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -12,6 +12,7 @@
 #include <iostream> // std::cerr
 #include <exception> // std::exception
 #include <memory> // std::shared_ptr
+#include <cstdint> // std::int64_t
 
 namespace nytl {
 
diff --git a/nytl/utf.hpp b/nytl/utf.hpp
index 6a2994f..4ea919d 100644
--- a/nytl/utf.hpp
+++ b/nytl/utf.hpp
@@ -15,6 +15,8 @@
 #include <locale> // std::wstring_convert
 #include <codecvt> // std::codecvt_utf8
 #include <stdexcept> // std::out_of_range
+#include <cstdint> // std::uint8_t
+#include <cstddef> // std::size_t
 
 // all operations assume correct utf8 string and don't perform any sanity checks.
 // for implementation details see https://en.wikipedia.org/wiki/UTF-8
-- 
2.43.0


From 6bb95178a6a43b528c8c12af11b49e1b7983ff46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 02/36] fix: UniqueConnectionT::release returns the non-owned
 connection

---
 nytl/connection.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index b3d59d6..5400095 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -148,7 +148,7 @@ public:
 	/// Releases ownership of the associated connection and returns a non-owned
 	/// connection object.
 	/// After the call this object will be empty.
-	ID release()
+	ConnectionT<C, ID> release()
 	{
 		ConnectionT<C, ID> ret{connectable_, id_};
 		id_ = {};
-- 
2.43.0


From 457e701ed70209ccaee123dbe37e994c0cb3f02a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 03/36] fix: RecursiveCallback::disconnect notifies the id of
 the removed subscription

---
 nytl/recursiveCallback.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 3bee463..736c810 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -354,7 +354,7 @@ bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 		if(next->id.get() == id.get()) {
 			if(remove) {
 				// set this before id.removed might change stuff
-				if(++next == subs_.end()) {
+				if(std::next(next) == subs_.end()) {
 					last_ = it;
 				}
 				next->id.removed();
-- 
2.43.0


From 74a6591e98820948b9b447e3030cb14d0b30fd69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 04/36] fix: RecursiveCallback::removeOld notifies ids of
 removed leading subscriptions

---
 nytl/recursiveCallback.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 736c810..0bb8208 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -165,6 +165,7 @@ protected:
 		// just remove subscriptions with id <= 0 and update last_
 		auto it = subs_.begin();
 		while(it != subs_.end() && it->id.get() <= 0) {
+			it->id.removed();
 			subs_.pop_front();
 			it = subs_.begin();
 		}
-- 
2.43.0


From c26ea083af0ed913736801390ae22dae2adf2524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 05/36] fix: RecursiveCallback::call stops at the last
 subscription even if it was removed

---
 nytl/recursiveCallback.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 0bb8208..c4f624a 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -273,11 +273,12 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				it->func(std::forward<Args>(a)...);
-				// we will not call functions that were registered after
-				// this call started (this is why we store last above)
-				if(it == last) {
-					break;
-				}
+			}
+
+			// we will not call functions that were registered after
+			// this call started (this is why we store last above)
+			if(it == last) {
+				break;
 			}
 		}
 
@@ -288,9 +289,10 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
 				ret.push_back(it->func(std::forward<Args>(a)...));
-				if(it == last) {
-					break;
-				}
+			}
+
+			if(it == last) {
+				break;
 			}
 		}
 
-- 
2.43.0


From b9713e47719943dae0ecd88ad9e348253fc47361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 06/36] fix: RecursiveCallback does not remove already removed
 subscriptions again

---
 nytl/recursiveCallback.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index c4f624a..bc0d355 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -309,7 +309,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 	for(auto& sub : subs_) {
 		if(remove) {
 			sub.id.removed();
-		} else {
+		} else if(sub.id.get() > 0) {
+			// don't touch already removed subscriptions
 			sub.id.set(-callID_);
 		}
 	}
@@ -326,7 +327,8 @@ void RecursiveCallback<Ret(Args...), ID>::clear() noexcept
 template<typename Ret, typename... Args, typename ID>
 bool RecursiveCallback<Ret(Args...), ID>::disconnect(const ID& id) noexcept
 {
-	if(subs_.empty())  {
+	// ids <= 0 were already (formally) removed
+	if(subs_.empty() || id.get() <= 0)  {
 		return false;
 	}
 
-- 
2.43.0


From 5854a5d17d8c1ba5d9a528e869c7a583b2f15ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:36 +0000
Subject: [PATCH 07/36] fix: callbacks pass unchanged by-value arguments to
 every function

---
 nytl/callback.hpp          | 13 +++++++++++--
 nytl/recursiveCallback.hpp | 13 +++++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/nytl/callback.hpp b/nytl/callback.hpp
index f431a7f..4b3c00f 100644
--- a/nytl/callback.hpp
+++ b/nytl/callback.hpp
@@ -130,6 +130,15 @@ public:
 	}
 
 protected:
+	// Every called function receives the arguments as they were passed
+	// to call. Therefore by-value arguments must be copied for each function
+	// (if possible), they must not be moved into the first one.
+	template<typename T>
+	static constexpr decltype(auto) passArg(std::remove_reference_t<T>& arg) noexcept {
+		using Value = std::conditional_t<std::is_copy_constructible_v<T>, T&, T&&>;
+		return static_cast<std::conditional_t<std::is_reference_v<T>, T&&, Value>>(arg);
+	}
+
 	std::vector<Subscription> subs_ {}; // all subscriptions, ordered by id
 	std::int64_t subID_ {}; // the highest subscription id given
 };
@@ -176,13 +185,13 @@ auto Callback<Ret(Args...), ID>::call(Args... a)
 	// only by some other callback function
 	if constexpr(std::is_same<Ret, void>::value) {
 		for(auto& func : subs_)
-			func.func(std::forward<Args>(a)...);
+			func.func(passArg<Args>(a)...);
 	} else {
 		std::vector<Ret> ret;
 		ret.reserve(subs_.size());
 
 		for(auto& func : subs_) {
-			ret.push_back(func.func(std::forward<Args>(a)...));
+			ret.push_back(func.func(passArg<Args>(a)...));
 		}
 
 		return ret;
diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index bc0d355..6f341ae 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -118,6 +118,15 @@ public:
 	}
 
 protected:
+	// Every called function receives the arguments as they were passed
+	// to call. Therefore by-value arguments must be copied for each function
+	// (if possible), they must not be moved into the first one.
+	template<typename T>
+	static constexpr decltype(auto) passArg(std::remove_reference_t<T>& arg) noexcept {
+		using Value = std::conditional_t<std::is_copy_constructible_v<T>, T&, T&&>;
+		return static_cast<std::conditional_t<std::is_reference_v<T>, T&&, Value>>(arg);
+	}
+
 	// Represents one callback subscription entry.
 	// Invalid (formally removed) when id is not valid.
 	// Note that these means that alternative ID classes can
@@ -272,7 +281,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 			// the stored callID, it was removed during or after this
 			// call and therefore we still call it
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				it->func(std::forward<Args>(a)...);
+				it->func(passArg<Args>(a)...);
 			}
 
 			// we will not call functions that were registered after
@@ -288,7 +297,7 @@ auto RecursiveCallback<Ret(Args...), ID>::call(Args... a)
 
 		for(auto it = subs_.begin(); it != subs_.end(); ++it) {
 			if(it->id.get() > 0 || -it->id.get() >= callid) {
-				ret.push_back(it->func(std::forward<Args>(a)...));
+				ret.push_back(it->func(passArg<Args>(a)...));
 			}
 
 			if(it == last) {
-- 
2.43.0


From 3c463e0fbcc4c78fbb65f4cd12618d7601ad2876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 08/36] fix: nytl::cloneMove works for Cloneable

---
 nytl/clone.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 8d635f1..38924ed 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -116,7 +116,7 @@ protected:
 	void* doCloneMove() override { return new T(std::move(static_cast<T&>(*this))); }
 	void* doClone() const override { return new T(static_cast<const T&>(*this)); }
 	template<typename O> friend std::unique_ptr<O> clone(const O&);
-	template<typename O> friend std::unique_ptr<O> cloneMove(const O&);
+	template<typename O> friend std::unique_ptr<O> cloneMove(O&);
 };
 
 // - derive class implementation -
-- 
2.43.0


From 3ac5dacfa966f9cb21f418dd0bf0d8d87f46a486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 09/36] fix: clone returns the right subobject for types with
 multiple bases

---
 nytl/clone.hpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/nytl/clone.hpp b/nytl/clone.hpp
index 38924ed..0f4f258 100644
--- a/nytl/clone.hpp
+++ b/nytl/clone.hpp
@@ -8,8 +8,23 @@
 #define NYTL_INCLUDE_CLONE
 
 #include <memory> // std::unique_ptr
+#include <utility> // std::move
 
 namespace nytl {
+namespace detail {
+
+// Casts the void pointer returned by doClone/doCloneMove (that points to an object
+// of the most derived type of 'obj') to the base subobject 'T'. That must not be
+// located at the beginning of the object when there are multiple base classes.
+template<typename T>
+T* clonedBase(const T& obj, void* cloned) {
+	// offset of 'obj' in its most derived object
+	auto derived = static_cast<const char*>(dynamic_cast<const void*>(std::addressof(obj)));
+	auto offset = reinterpret_cast<const char*>(std::addressof(obj)) - derived;
+	return reinterpret_cast<T*>(static_cast<char*>(cloned) + offset);
+}
+
+} // namespace detail
 
 /// \brief Can be used to clone a Cloneable object.
 /// Will perform a copy of the actual type the interface reference references.
@@ -18,7 +33,7 @@ namespace nytl {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> clone(const T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doClone()));
+	return std::unique_ptr<T>(detail::clonedBase<T>(obj, obj.doClone()));
 }
 
 /// \brief Can be used to cloneMove a CloneMovable object.
@@ -29,7 +44,7 @@ std::unique_ptr<T> clone(const T& obj) {
 /// \module utility
 template<typename T>
 std::unique_ptr<T> cloneMove(T& obj) {
-	return std::unique_ptr<T>(static_cast<T*>(obj.doCloneMove()));
+	return std::unique_ptr<T>(detail::clonedBase<T>(obj, obj.doCloneMove()));
 }
 
 /// \brief Can be derived from to implement the cloneMove member function for 'Derived'.
-- 
2.43.0


From c97b9ba79e2f57df9665d1123e949ad5ad764acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 10/36] fix: LUDecomposition::sign can be negative

---
 nytl/matOps.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 5a0b76c..90d0bde 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -30,7 +30,7 @@ struct LUDecomposition {
 	nytl::Mat<D, D, T> lower;
 	nytl::Mat<D, D, T> upper;
 	nytl::Mat<D, D, bool> perm; // permutation
-	unsigned int sign = 1;
+	int sign = 1; // 1 or -1
 };
 
 /// \brief Prints the given matrix with numerical values to the given ostream.
-- 
2.43.0


From c688d94852cea49d94209ee826244d9ab57e1254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 11/36] fix: luEvaluate applies the permutation instead of its
 inverse

---
 nytl/matOps.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 90d0bde..091b6a1 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -368,8 +368,8 @@ constexpr LUDecomposition<D, double> luDecomp(const nytl::Mat<D, D, T>& mat) {
 /// Gaussian elimination implementation.
 /// The given matrix must be a square matrix.
 /// \notes If the lu composition was done with a permutation matrix (PA = LU), the given
-/// vector must be premultiplied with the permutations inverse (tranpose sine symmetrical) to
-/// get the vector that solves Ax = b. If PA = LU and Ax = b, so LUx = P * b
+/// vector must be premultiplied with the permutation to get the vector that solves Ax = b.
+/// If PA = LU and Ax = b, so LUx = P * b
 /// \notes If the lower or upper matrix are singular, the equation does not have
 /// a unique solution and this function results in undefined behvaiour. So
 /// if the lower or upper matrix might be singular, check first manually.
@@ -410,7 +410,7 @@ constexpr auto luEvaluate(const Mat<D, D, T1>& l,
 /// The sign of the decomposition will not be used.
 template<size_t D, typename T1, typename T2>
 constexpr auto luEvaluate(const LUDecomposition<D, T1>& lu, const Vec<D, T2>& b) {
-	return luEvaluate(lu.lower, lu.upper, transpose(lu.perm) * b);
+	return luEvaluate(lu.lower, lu.upper, lu.perm * b);
 }
 
 /// \brief Returns the determinant of the given square matrix.
-- 
2.43.0


From cc1bf962946a397d64f520ba2d2118d0eb624772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 12/36] fix: reducedRowEcholon does not access zero rows out of
 bounds

---
 nytl/matOps.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 091b6a1..80c5a22 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -279,8 +279,8 @@ constexpr void reducedRowEcholon(nytl::Mat<R, C, T>& mat) {
 			++c;
 		}
 
-		// if the pivot is zero continue to the next (above) row
-		if(!mat[r][c]) {
+		// if the whole row is zero continue to the next (above) row
+		if(c == C) {
 			continue;
 		}
 
-- 
2.43.0


From baeea5481eea027f59a55b859586aff26c03f843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:19 +0000
Subject: [PATCH 13/36] fix: vec and mat assignment operators allow aliasing
 operands

---
 nytl/mat.hpp    | 9 +++++----
 nytl/matOps.hpp | 3 ++-
 nytl/vec.hpp    | 3 ++-
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 3b525b8..ff589b4 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -95,12 +95,12 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	auto tmp = a; // needed since we write to a
-	a = {};
+	Mat<D, D, T1> ret {}; // needed since a and b might be the same matrix
 	for(auto r = 0u; r < D; ++r) // ret: rows
 		for(auto c = 0u; c < D; ++c) // ret: cols
 			for(auto i = 0u; i < D; ++i) // row + col dot
-				a[r][c] += tmp[r][i] * b[i][c];
+				ret[r][c] += a[r][i] * b[i][c];
+	a = ret;
 	return a;
 }
 
@@ -116,7 +116,8 @@ constexpr auto operator*(const F& f, const Mat<R, C, T>& a) {
 
 // mat *= fac
 template<typename F, typename T, size_t R, size_t C>
-constexpr auto& operator*=(Mat<R, C, T>& a, const F& f) {
+constexpr auto& operator*=(Mat<R, C, T>& a, const F& fac) {
+	const F f = fac; // might reference a value in a
 	for(auto r = 0u; r < R; ++r)
 		for(auto c = 0u; c < C; ++c)
 			a[r][c] *= f;
diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index 80c5a22..fb8d3f1 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -99,8 +99,9 @@ constexpr auto col(const nytl::Mat<R, C, T>& mat, size_t n) {
 /// For example: `nytl::mat::col(mat44, 2, vec4);` sets the 3rd column of a matrix.
 template<size_t R, size_t C, typename T>
 constexpr void col(nytl::Mat<R, C, T>& mat, size_t n, const nytl::Vec<R, T>& col) {
+	const auto values = col; // might reference a row of mat
 	for(auto i = 0u; i < R; ++i) {
-		mat[i][n] = col[i];
+		mat[i][n] = values[i];
 	}
 }
 
diff --git a/nytl/vec.hpp b/nytl/vec.hpp
index 154b558..132c8e3 100644
--- a/nytl/vec.hpp
+++ b/nytl/vec.hpp
@@ -66,8 +66,9 @@ constexpr Vec<D, T1>& operator-=(Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T, typename F>
 constexpr Vec<D, T>& operator*=(Vec<D, T>& vec, const F& fac) {
+	const F f = fac; // might reference a value in vec
 	for(auto i = 0u; i < D; ++i)
-		vec[i] *= fac;
+		vec[i] *= f;
 	return vec;
 }
 
-- 
2.43.0


From 0d4af0f56a1594c269126bea1d7c902ddce867ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 14/36] fix: Mat::at works for const matrices and 2 or 3
 columns

---
 nytl/mat.hpp  | 5 ++++-
 nytl/vec2.hpp | 4 ++++
 nytl/vec3.hpp | 4 ++++
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index ff589b4..1763753 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -13,6 +13,9 @@
 #include <nytl/vec.hpp> // nytl::Vec
 #include <nytl/vecOps.hpp> // nytl::dot
 
+#include <array> // std::array
+#include <stdexcept> // std::out_of_range
+
 namespace nytl {
 
 /// A Matrix with 'R' rows and 'C' columns over type 'T' on the stack.
@@ -52,7 +55,7 @@ public:
 
 	/// Utility function that throws std::out_of_range if the matrix does not have
 	/// the given row.
-	constexpr void checkRow(size_t r) {
+	constexpr void checkRow(size_t r) const {
 		if(r >= rows())
 			throw std::out_of_range("nytl::Mat::at");
 	}
diff --git a/nytl/vec2.hpp b/nytl/vec2.hpp
index 8d978b7..3edc106 100644
--- a/nytl/vec2.hpp
+++ b/nytl/vec2.hpp
@@ -66,6 +66,10 @@ public:
 		}
 	}
 
+	// Same as operator[], which always checks bounds.
+	constexpr T& at(size_t i) { return (*this)[i]; }
+	constexpr const T& at(size_t i) const { return (*this)[i]; }
+
 	// implemented in vec.hpp for all specializations
 	template<size_t OD, typename OT>
 	constexpr explicit operator Vec<OD, OT>() const {
diff --git a/nytl/vec3.hpp b/nytl/vec3.hpp
index 0eee7ea..b69aa22 100644
--- a/nytl/vec3.hpp
+++ b/nytl/vec3.hpp
@@ -65,6 +65,10 @@ public:
 		}
 	}
 
+	// Same as operator[], which always checks bounds.
+	constexpr T& at(size_t i) { return (*this)[i]; }
+	constexpr const T& at(size_t i) const { return (*this)[i]; }
+
 	// implemented in vec.hpp for all specializations
 	template<size_t OD, typename OT>
 	constexpr explicit operator Vec<OD, OT>() const {
-- 
2.43.0


From 9a611bcd27258ea2c58757ba25792633455160e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 15/36] fix: Simplex conversion operator compiles

---
 nytl/simplex.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/simplex.hpp b/nytl/simplex.hpp
index 17a3016..aef7e44 100644
--- a/nytl/simplex.hpp
+++ b/nytl/simplex.hpp
@@ -76,7 +76,7 @@ public:
 	constexpr explicit operator Simplex<OD, OP, A>() const noexcept {
 		Simplex<OD, OP, A> ret {};
 		for(auto i = 0u; i < points_.size(); ++i) {
-			ret[i] = static_cast<Vec<OD, OP>>(points_[i]);
+			ret.points_[i] = static_cast<Vec<OD, OP>>(points_[i]);
 		}
 		return ret;
 	}
-- 
2.43.0


From 1f36e04bf5464cb404aa75ac49005d40efa38615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 16/36] fix: transforms use the requested precision instead of
 float

---
 nytl/transform.hpp | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/nytl/transform.hpp b/nytl/transform.hpp
index 30a6054..5ceaeaf 100644
--- a/nytl/transform.hpp
+++ b/nytl/transform.hpp
@@ -76,10 +76,10 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 		}};
 	}
 
-	const float a = P(1.0) / (P(1.0) + dir.z);
-	const float b = -dir.x * dir.y * a;
-	auto b1 = Vec3f{P(1.0) - dir.x * dir.x * a, b, -dir.x};
-	auto b2 = Vec3f{b, P(1.0) - dir.y * dir.y * a, -dir.y};
+	const P a = P(1.0) / (P(1.0) + dir.z);
+	const P b = -dir.x * dir.y * a;
+	auto b1 = Vec3<P>{P(1.0) - dir.x * dir.x * a, b, -dir.x};
+	auto b2 = Vec3<P>{b, P(1.0) - dir.y * dir.y * a, -dir.y};
 	return {b1, b2};
 }
 
@@ -87,7 +87,7 @@ std::array<Vec3<P>, 2> base(Vec3<P> dir) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][i] *= s[i];
 	}
@@ -99,7 +99,7 @@ SquareMat<D, P> scaleMat(const Vec<R, P>& s) {
 template<size_t D = 4, typename P = float, size_t R> [[nodiscard]]
 SquareMat<D, P> translateMat(const Vec<R, P>& t) {
 	static_assert(R <= D);
-	auto mat = identity<D, float>();
+	auto mat = identity<D, P>();
 	for(auto i = 0u; i < R; ++i) {
 		mat[i][D - 1] = t[i];
 	}
@@ -268,7 +268,7 @@ SquareMat<D, P> flippedZ(SquareMat<D, P> mat) {
 // (still mapping near to 0, far to 1).
 template<typename P> [[nodiscard]]
 SquareMat<4, P> ortho(P left, P right, P bot, P top, P near, P far) {
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 	ret[0][0] = P(2) / (right - left);
 	ret[1][1] = P(2) / (top - bot);
 	ret[2][2] = P(1) / (far - near);
@@ -314,7 +314,7 @@ Mat4<P> frustum(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -337,7 +337,7 @@ Mat4<P> frustumRev(P left, P right, P bot, P top, P near, P far) {
 	assert((near >= 0) == (far >= 0) && "near, far must have the same sign");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -362,7 +362,7 @@ Mat4<P> frustumRevInf(P left, P right, P bot, P top, P near) {
 	assert((near != 0) && "near must not be zero");
 	assert((left != right) && (bot != top));
 
-	auto ret = Mat4f {};
+	auto ret = Mat4<P> {};
 
 	ret[0][0] = P(2) * near / (right - left);
 	ret[1][1] = P(2) * near / (top - bot);
@@ -456,10 +456,10 @@ SquareMat<4, P> perspectiveRevInf(P fov, P aspect, P near) {
 template<size_t D = 4, typename P> [[nodiscard]]
 SquareMat<D, P> lookAt(const Quaternion& rot, Vec3<P> pos) {
 	// transpose is same as inverse for rotation matrices
-	auto ret = transpose(toMat<4, P>(rot));
-	ret[0][3] = -dot(pos, Vec3f(ret[0]));
-	ret[1][3] = -dot(pos, Vec3f(ret[1]));
-	ret[2][3] = -dot(pos, Vec3f(ret[2]));
+	auto ret = transpose(toMat<D, P>(rot));
+	ret[0][3] = -dot(pos, Vec3<P>(ret[0]));
+	ret[1][3] = -dot(pos, Vec3<P>(ret[1]));
+	ret[2][3] = -dot(pos, Vec3<P>(ret[2]));
 	return ret;
 
 	// reference implementation, same result but slower
-- 
2.43.0


From 6cb0d23a42bf949adfc56ea992a66f9ae10e37d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 17/36] fix: quaternion dot product

---
 nytl/quaternion.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index 721e25e..d0eef2e 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -271,7 +271,7 @@ template<typename T>
 }
 
 [[nodiscard]] inline double dot(const Quaternion& a, const Quaternion& b) {
-	return a.x * b.x + a.y * b.y + a.z * b.y * a.w * b.y;
+	return a.x * b.x + a.y * b.y + a.z * b.z + a.w * b.w;
 }
 
 // https://en.wikipedia.org/wiki/Slerp
-- 
2.43.0


From 2ca6969c569eb0405cc1c7f21253e6fd11405771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 18/36] fix: slerp takes the shorter path

---
 nytl/quaternion.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index d0eef2e..c939e2a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -285,10 +285,10 @@ template<typename T>
     // the negation is applied to all four components. Fix by
     // reversing one quaternion.
     if (d < 0.0f) {
-        v1.x = v1.x;
-        v1.y = v1.y;
-        v1.z = v1.z;
-        v1.w = v1.w;
+        v1.x = -v1.x;
+        v1.y = -v1.y;
+        v1.z = -v1.z;
+        v1.w = -v1.w;
         d = -d;
     }
 
-- 
2.43.0


From 52e4cd63835757534273e196dd88c764a1e2d123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 19/36] fix: classic euler angles are returned in sequence
 order

---
 nytl/quaternion.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index c939e2a..bab2f9a 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -345,9 +345,9 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 	auto classicEuler = [](double a, double b, double c, double d, double e,
 			double indet) {
 		auto res = std::array<double, 3> {
-			std::atan2(d, e),
-			std::acos(c),
 			std::atan2(a, b),
+			std::acos(c),
+			std::atan2(d, e),
 		};
 
 		if(std::abs(res[1]) < 0.001) {
-- 
2.43.0


From f066d56c94de9a22b54373c37bf6999666ffb57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 20/36] fix: intersects and intersectsReal detect all
 intersections

---
 nytl/rectOps.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 19c445f..84b8747 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -103,8 +103,12 @@ constexpr bool containsReal(const Rect<D, T1>& rect, const Vec<D, T2>& point) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return contains(a, b.position) || contains(a, b.position + b.size) ||
-		contains(b, a.position) || contains(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] > b.position[i] + b.size[i]) return false;
+		if(b.position[i] > a.position[i] + a.size[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns whether the the two given Rects intersect.
@@ -113,8 +117,12 @@ constexpr bool intersects(const Rect<D, T1>& a, const Rect<D, T2>& b) {
 /// \module rectOps
 template<std::size_t D, typename T1, typename T2>
 constexpr bool intersectsReal(const Rect<D, T1>& a, const Rect<D, T2>& b) {
-	return containsReal(a, b.position) || containsReal(a, b.position + b.size) ||
-		containsReal(b, a.position) || containsReal(b, a.position + a.size);
+	for(auto i = 0u; i < D; ++i) {
+		if(a.position[i] >= b.position[i] + b.size[i]) return false;
+		if(b.position[i] >= a.position[i] + a.size[i]) return false;
+	}
+
+	return true;
 }
 
 /// \brief Returns the intersection between the given Rects.
-- 
2.43.0


From d9a80260c2bef2b94e43786d9ef9e08772ef6c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:01 +0000
Subject: [PATCH 21/36] fix: rect difference returns exactly the parts outside
 of the second rect

---
 nytl/rectOps.hpp | 44 +++++++++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 23 deletions(-)

diff --git a/nytl/rectOps.hpp b/nytl/rectOps.hpp
index 84b8747..dcd1a3c 100644
--- a/nytl/rectOps.hpp
+++ b/nytl/rectOps.hpp
@@ -154,40 +154,38 @@ constexpr Rect<D, T> intersection(const Rect<D, T>& a, const Rect<D, T>& b) {
 /// \module rectOps
 template<std::size_t D, class T>
 std::vector<Rect<D, T>> difference(const Rect<D, T>& a, const Rect<D, T>& b) {
-	static constexpr auto inRange = [](T start, T size, T value) {
-		return (start < value && value < start + size);
-	};
+	if(!intersectsReal(a, b)) {
+		return {a};
+	}
 
 	std::vector<Rect<D, T>> ret;
 	ret.reserve(2 * D);
 
+	// The part of a that was not handled yet, always contains the intersection.
+	// For each dimension, cut off the areas before and after the intersection.
+	auto rest = a;
 	for(std::size_t i(0); i < D; ++i) {
+		auto end = rest.position[i] + rest.size[i];
+		auto bend = b.position[i] + b.size[i];
 
 		// rect before intersection
-		if(inRange(a.position[i], a.size[i], b.position[i])) {
-			auto pos = a.position;
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = b.position[o];
-
-			auto size = (a.position + a.size) - pos;
-			size[i] = b.position[i] - pos[i];
+		if(rest.position[i] < b.position[i]) {
+			auto before = rest;
+			before.size[i] = b.position[i] - rest.position[i];
+			ret.push_back(before);
 
-			ret.push_back({pos, size});
+			rest.position[i] = b.position[i];
+			rest.size[i] = end - b.position[i];
 		}
 
 		// rect after intersection
-		// if(inRange(b.position[i] + b.size[i], a.position[i], a.size[i])) {
-		if(inRange(a.position[i], a.size[i], b.position[i] + b.size[i])) {
-			auto pos = a.position;
-			pos[i] = b.position[i] + b.size[i];
-			for(std::size_t o(0); o < i; ++o)
-				pos[o] = std::max(b.position[o], a.position[o]);
-
-			auto size = (a.position + a.size) - pos;
-			for(std::size_t o(0); o < i; ++o)
-				size[o] = (b.position[o] + b.size[o]) - pos[o];
-
-			ret.push_back({pos, size});
+		if(bend < end) {
+			auto after = rest;
+			after.position[i] = bend;
+			after.size[i] = end - bend;
+			ret.push_back(after);
+
+			rest.size[i] = bend - rest.position[i];
 		}
 	}
 
-- 
2.43.0


From e330c4241b2929e57ac8e7353586bc87436cd7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 22/36] fix: default constructed StringParam is null-terminated

---
 nytl/stringParam.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nytl/stringParam.hpp b/nytl/stringParam.hpp
index 9622830..4a3c501 100644
--- a/nytl/stringParam.hpp
+++ b/nytl/stringParam.hpp
@@ -22,11 +22,14 @@ public:
 	using string = std::basic_string<Char>;
 
 public:
-	constexpr BasicStringParam() = default;
+	constexpr BasicStringParam() : string_view(&terminator_, 0) {}
 	constexpr BasicStringParam(const Char* cstr) : string_view(cstr) {}
 	BasicStringParam(const string& str) : string_view(str.c_str()) {}
 
 	const Char* c_str() const { return this->data(); }
+
+protected:
+	static constexpr Char terminator_ {}; // for empty params
 };
 
 using StringParam = BasicStringParam<char>;
-- 
2.43.0


From ab3474b090da4ac29fda1ef7f9f879d53a22eb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 23/36] fix: function traits support noexcept functions

---
 nytl/functionTraits.hpp | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/nytl/functionTraits.hpp b/nytl/functionTraits.hpp
index a2dc625..74ebf54 100644
--- a/nytl/functionTraits.hpp
+++ b/nytl/functionTraits.hpp
@@ -56,6 +56,23 @@ struct FunctionTraits<Ret(C::*)(Args...) const> : public FunctionTraits<Ret(Args
 	using Class = const C;
 };
 
+// noexcept variants
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(Args...) noexcept> : public FunctionTraits<Ret(Args...)> {};
+
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(Args...) const noexcept> : public FunctionTraits<Ret(Args...) const> {};
+
+template<typename Ret, typename... Args>
+struct FunctionTraits<Ret(*)(Args...) noexcept> : public FunctionTraits<Ret(*)(Args...)> {};
+
+template<typename C, typename Ret, typename... Args>
+struct FunctionTraits<Ret(C::*)(Args...) noexcept> : public FunctionTraits<Ret(C::*)(Args...)> {};
+
+template<typename C, typename Ret, typename... Args>
+struct FunctionTraits<Ret(C::*)(Args...) const noexcept>
+	: public FunctionTraits<Ret(C::*)(Args...) const> {};
+
 // functor, class
 template<typename F>
 struct FunctionTraits : public FunctionTraits<decltype(&F::operator())> {};
@@ -103,6 +120,22 @@ struct IsCallableImpl<R(&)(Args...)> : public std::true_type {};
 template<typename R, typename... Args>
 struct IsCallableImpl<R(Args...)> : public std::true_type {};
 
+// noexcept variants
+template<typename R, typename S, typename... Args>
+struct IsCallableImpl<R(S::*)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename S, typename... Args>
+struct IsCallableImpl<R(S::*)(Args...) const noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(*)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(&)(Args...) noexcept> : public std::true_type {};
+
+template<typename R, typename... Args>
+struct IsCallableImpl<R(Args...) noexcept> : public std::true_type {};
+
 // FunctionTraitsBase
 template<bool ConstSig, typename Ret, typename... Args>
 struct FunctionTraitsBase {
-- 
2.43.0


From 6d1721d71a38ae3aeb8b77e95b7d57503ecd845a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 24/36] fix: prohibit byte conversion of fixed-size spans

---
 nytl/bytes.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nytl/bytes.hpp b/nytl/bytes.hpp
index 6a0fc2a..d258af3 100644
--- a/nytl/bytes.hpp
+++ b/nytl/bytes.hpp
@@ -56,7 +56,7 @@ template<typename T> struct ProhibitByteConversion :
 	public std::false_type {};
 template<typename T> struct ProhibitByteConversion<std::initializer_list<T>> :
 	public std::true_type {};
-template<typename T> struct ProhibitByteConversion<span<T>> :
+template<typename T, std::size_t S> struct ProhibitByteConversion<span<T, S>> :
 	public std::true_type {};
 
 template<typename T> constexpr auto BytesConvertible =
-- 
2.43.0


From 5aa04c80af2b3e45a109f681979d4d75ed62702a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 25/36] fix: mapUnsigned and unmapUnsigned work for all numbers

---
 nytl/math.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nytl/math.hpp b/nytl/math.hpp
index 0ff46c2..5ae080f 100644
--- a/nytl/math.hpp
+++ b/nytl/math.hpp
@@ -57,15 +57,16 @@ constexpr unsigned long factorial(unsigned int n) {
 /// Maps the given signed number onto a unique unsigned one.
 /// Maps 0 to 0, 1 to 2, 2 to 4, -1 to 1, -2 to 3 and so on.
 constexpr unsigned int mapUnsigned(int x) {
-	return (x < 0) ? -x * 2 - 1 : x * 2;
+	auto ux = static_cast<unsigned int>(x);
+	return (x < 0) ? -ux * 2 - 1 : ux * 2;
 }
 
 /// Reverses the mapUnsigned function.
 /// Returns the signed number that would be mapped onto the given unique
 /// unsigned number.
 constexpr int unmapUnsigned(unsigned int x) {
-	auto ix = static_cast<int>(x);
-	return (ix % 2) ? -(ix + 1) / 2 : ix / 2;
+	auto half = static_cast<int>(x / 2);
+	return (x % 2) ? -half - 1 : half;
 }
 
 /// Combines the two given unsigned numbers into a single unique one
-- 
2.43.0


From 524a4ee082a0703b472323c8ca58f8cb62796251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 26/36] fix: span constructor from const containers only
 participates for const elements

---
 nytl/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 18b204a..95933a2 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -172,10 +172,10 @@ public:
 	  class = std::enable_if_t<
 			!details::is_span<Container>::value && !details::is_std_array<Container>::value &&
 			std::is_convertible_v<
-				std::remove_pointer_t<decltype(std::data(std::declval<Container&>()))>(*)[],
+				std::remove_pointer_t<decltype(std::data(std::declval<const Container&>()))>(*)[],
 	  			element_type(*)[]> &&
 		  	std::is_convertible_v<
-				decltype(std::size(std::declval<Container&>())),
+				decltype(std::size(std::declval<const Container&>())),
 				std::size_t>>>
 	constexpr span(const Container& cont) : span(std::data(cont), static_cast<index_type>(std::size(cont))) {}
     constexpr span(const span& other) noexcept = default;
-- 
2.43.0


From bab1d1caace9d17b03a1535b27366e67e034256f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 27/36] fix: span::last and span::subspan can be used in
 constant expressions

---
 nytl/span.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 95933a2..8c7be69 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -293,13 +293,13 @@ private:
     class subspan_selector { };
 
     template <std::size_t CallerExtent>
-    span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
+    constexpr span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
             subspan_selector<CallerExtent>) const {
         const span<element_type, dynamic_extent> tmp(*this);
         return tmp.subspan(offset, count);
     }
 
-    span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
+    constexpr span<element_type, dynamic_extent> make_subspan(index_type offset, index_type count,
             subspan_selector<dynamic_extent>) const {
         if (count == dynamic_extent) { return {KnownNotNull{data() + offset}, size() - offset}; }
         return {KnownNotNull{data() + offset}, count};
-- 
2.43.0


From bd406fa660e0143a240f9fc54bce77e3b8e9efac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:03 +0000
Subject: [PATCH 28/36] fix: span cannot view an std::array of derived objects
 as bases

---
 nytl/span.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/span.hpp b/nytl/span.hpp
index 8c7be69..c69afaa 100644
--- a/nytl/span.hpp
+++ b/nytl/span.hpp
@@ -141,7 +141,9 @@ public:
     constexpr span(element_type (&arr)[N]) noexcept
         : storage_(KnownNotNull{&arr[0]}, details::extent_type<N>()) {}
 
-    template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>>
+    template <std::size_t N, class ArrayElementType = std::remove_const_t<element_type>,
+        class = std::enable_if_t<
+            details::is_allowed_element_type_conversion<ArrayElementType, element_type>::value>>
     constexpr span(std::array<ArrayElementType, N>& arr) noexcept
         : storage_(&arr[0], details::extent_type<N>()) {}
 
-- 
2.43.0


From dcb6f66ecb1ed1edefd2dc6886359a34283dfd2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:10 +0000
Subject: [PATCH 29/36] fix: UniqueConnection::release could not be
 instantiated

---
 nytl/connection.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index 5400095..fad2862 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -150,7 +150,9 @@ public:
 	/// After the call this object will be empty.
 	ConnectionT<C, ID> release()
 	{
-		ConnectionT<C, ID> ret{connectable_, id_};
+		ConnectionT<C, ID> ret;
+		if(connectable_)
+			ret = {*connectable_, id_};
 		id_ = {};
 		connectable_ = {};
 		return ret;
-- 
2.43.0


From 90a6262479dd7a6fd7e8dd5198745ffe0419fcf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:22 +0000
Subject: [PATCH 30/36] fix: a failed RecursiveCallback::add does not leave an
 empty function behind

---
 nytl/recursiveCallback.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nytl/recursiveCallback.hpp b/nytl/recursiveCallback.hpp
index 6f341ae..fda33a4 100644
--- a/nytl/recursiveCallback.hpp
+++ b/nytl/recursiveCallback.hpp
@@ -247,9 +247,16 @@ add(std::function<Ret(Connection, Args...)> func)
 
 	auto& sub = emplace();
 	Connection conn {*this, sub.id};
-	sub.func = [conn, f = std::move(func)](Args... args) {
-		return f(conn, std::forward<Args>(args)...);
-	};
+
+	// allocating the function might throw, don't leave an empty one behind
+	try {
+		sub.func = [conn, f = std::move(func)](Args... args) {
+			return f(conn, std::forward<Args>(args)...);
+		};
+	} catch(...) {
+		conn.disconnect();
+		throw;
+	}
 
 	return conn;
 }
-- 
2.43.0


From a4e85337620440283ff583c529ec78085bb6506c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:40 +0000
Subject: [PATCH 31/36] fix: eulerAngles of a single-axis rotation for the
 classic sequences

When the middle angle vanishes only the sum of the other two angles is
determined. It was computed with asin from its sine alone, which is
wrong for angles above 90 degrees. And rounding could push the cosine
(or sine) of the middle angle out of [-1, 1], making the result NaN
instead of taking that branch.
---
 nytl/quaternion.hpp | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/nytl/quaternion.hpp b/nytl/quaternion.hpp
index bab2f9a..cfd6c04 100644
--- a/nytl/quaternion.hpp
+++ b/nytl/quaternion.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <cmath> // std::sin
+#include <algorithm> // std::clamp
 #include <cassert>
 
 #include <nytl/vec.hpp>
@@ -340,13 +341,13 @@ enum class RotationSequence {
 // the given quaternion.
 [[nodiscard]] inline std::array<double, 3>
 eulerAngles(const Quaternion& q, RotationSequence seq) {
-	// TODO: 'indet' handling somewhat hacky atm. We need that value
+	// TODO: 'indet' handling somewhat hacky atm. We need these values
 	// in case the middle rotation is zero (indeterminite case)
 	auto classicEuler = [](double a, double b, double c, double d, double e,
-			double indet) {
+			double indetSin, double indetCos) {
 		auto res = std::array<double, 3> {
 			std::atan2(a, b),
-			std::acos(c),
+			std::acos(std::clamp(c, -1.0, 1.0)),
 			std::atan2(d, e),
 		};
 
@@ -354,7 +355,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			// need different handling in this case.
 			// (basically middle angle is zero, getting undefined
 			// results atm).
-			return std::array<double, 3>{std::asin(indet), 0.0, 0.0};
+			return std::array<double, 3>{std::atan2(indetSin, indetCos), 0.0, 0.0};
 		}
 
 		return res;
@@ -363,7 +364,7 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 	auto taitBryan = [](double a, double b, double c, double d, double e) {
 		return std::array<double, 3> {
 			std::atan2(a, b),
-			std::asin(c),
+			std::asin(std::clamp(c, -1.0, 1.0)),
 			std::atan2(d, e),
 		};
 	};
@@ -376,7 +377,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y - q.w * q.z),
 			2 * (q.x * q.z + q.w * q.y),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::xzx:
 		return classicEuler(
 			2 * (q.x * q.z - q.w * q.y),
@@ -384,7 +386,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z,
 			2 * (q.x * q.z + q.w * q.y),
 			-2 * (q.x * q.y - q.w * q.z),
-			2 * (q.w * q.x + q.y * q.z));
+			2 * (q.w * q.x + q.y * q.z),
+			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z);
 	case RotationSequence::yxy:
 		return classicEuler(
 			2 * (q.x * q.y - q.w * q.z),
@@ -392,7 +395,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.x * q.y + q.w * q.z),
 			-2 * (q.y * q.z - q.w * q.x),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::yzy:
 		return classicEuler(
 			2 * (q.y * q.z + q.w * q.x),
@@ -400,7 +404,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x + q.y * q.y - q.z * q.z,
 			2 * (q.y * q.z - q.w * q.x),
 			2 * (q.x * q.y + q.w * q.z),
-			2 * (q.w * q.y + q.x * q.z));
+			2 * (q.w * q.y + q.x * q.z),
+			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z);
 	case RotationSequence::zxz:
 		return classicEuler(
 			2 * (q.x * q.z + q.w * q.y),
@@ -408,7 +413,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.x * q.z - q.w * q.y),
 			2 * (q.y * q.z + q.w * q.x),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.x * q.y + q.w * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 	case RotationSequence::zyz:
 		return classicEuler(
 			2 * (q.y * q.z - q.w * q.x),
@@ -416,7 +422,8 @@ eulerAngles(const Quaternion& q, RotationSequence seq) {
 			q.w * q.w - q.x * q.x - q.y * q.y + q.z * q.z,
 			2 * (q.y * q.z + q.w * q.x),
 			-2 * (q.x * q.z - q.w * q.y),
-			2 * (q.x * q.y + q.w * q.z));
+			2 * (q.x * q.y + q.w * q.z),
+			q.w * q.w + q.x * q.x - q.y * q.y - q.z * q.z);
 
 	case RotationSequence::xyz:
 		return taitBryan(
-- 
2.43.0


From 685d2eeb85210d902f284825108536e0905bbc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:04 +0000
Subject: [PATCH 32/36] fix: component-wise vector operators with scalars are
 usable in constant expressions

---
 nytl/vecOps.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/nytl/vecOps.hpp b/nytl/vecOps.hpp
index ca6a93f..0236748 100644
--- a/nytl/vecOps.hpp
+++ b/nytl/vecOps.hpp
@@ -305,7 +305,7 @@ constexpr auto operator/(const Vec<D, T1>& a, const Vec<D, T2>& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator+(const Vec<D, T1>& a, const T2& b) {
-	Vec<D, decltype(a[0] + b)> res;
+	Vec<D, decltype(a[0] + b)> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = a[i] + b;
 	}
@@ -314,7 +314,7 @@ constexpr auto operator+(const Vec<D, T1>& a, const T2& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator+(const T2& a, const Vec<D, T1>& b) {
-	Vec<D, decltype(a + b[0])> res;
+	Vec<D, decltype(a + b[0])> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = b[i] + a;
 	}
@@ -323,7 +323,7 @@ constexpr auto operator+(const T2& a, const Vec<D, T1>& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator-(const Vec<D, T1>& a, const T2& b) {
-	Vec<D, decltype(a[0] - b)> res;
+	Vec<D, decltype(a[0] - b)> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = a[i] - b;
 	}
@@ -332,7 +332,7 @@ constexpr auto operator-(const Vec<D, T1>& a, const T2& b) {
 
 template<size_t D, typename T1, typename T2>
 constexpr auto operator-(const T2& a, const Vec<D, T1>& b) {
-	Vec<D, decltype(a - b[0])> res;
+	Vec<D, decltype(a - b[0])> res {};
 	for(size_t i = 0u; i < D; ++i) {
 		res[i] = a - b[i];
 	}
-- 
2.43.0


From 9da4419ed9ba61e7fb5684e977e065f18f615ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:32 +0000
Subject: [PATCH 33/36] fix: determinant of an integer matrix was truncated
 instead of rounded

---
 nytl/matOps.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/nytl/matOps.hpp b/nytl/matOps.hpp
index fb8d3f1..7f7a638 100644
--- a/nytl/matOps.hpp
+++ b/nytl/matOps.hpp
@@ -17,7 +17,8 @@
 #include <stdexcept> // std::invalid_argument
 #include <tuple> // std::tuple
 #include <iosfwd> // std::ostream
-#include <cmath> // std::fma
+#include <cmath> // std::round
+#include <type_traits> // std::is_integral_v
 
 namespace nytl {
 
@@ -421,7 +422,11 @@ template<size_t D, typename T>
 constexpr auto determinant(const Mat<D, D, T>& mat) {
 	auto [l, u, p, s] = luDecomp(mat);
 	unused(l, p);
-	return s * static_cast<T>(multiplyDiagonal(u));
+	auto det = multiplyDiagonal(u);
+	if constexpr(std::is_integral_v<T>) {
+		det = std::round(det); // the decomposition is not exact
+	}
+	return s * static_cast<T>(det);
 }
 
 /// \brief Returns the determinant for the lu decomposition of a matrix.
-- 
2.43.0


From cca61c4853c6153acb0f271a2d2bd4f98c9b3940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 34/36] fix: a unique connection ended the program when
 disconnecting threw something else than a std::exception

---
 nytl/connection.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nytl/connection.hpp b/nytl/connection.hpp
index fad2862..4cd1ff0 100644
--- a/nytl/connection.hpp
+++ b/nytl/connection.hpp
@@ -99,6 +99,8 @@ public:
 			disconnect();
 		} catch(const std::exception& error) {
 			std::cerr << "nytl::~UniqueConnectionT: disconnect failed: " << error.what() << "\n";
+		} catch(...) {
+			std::cerr << "nytl::~UniqueConnectionT: disconnect failed\n";
 		}
 	}
 
@@ -115,6 +117,8 @@ public:
 			disconnect();
 		} catch(const std::exception& error) {
 			std::cerr << "nytl::UniqueConnectionT: disconnect failed: " << error.what() << "\n";
+		} catch(...) {
+			std::cerr << "nytl::UniqueConnectionT: disconnect failed\n";
 		}
 
 		connectable_ = lhs.connectable_;
-- 
2.43.0


From 829bfa7a2a4982e68194e8fce1840940337051e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:51 +0000
Subject: [PATCH 35/36] fix: values of higher precision were rounded before
 approximate comparison with a float

---
 nytl/approx.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/nytl/approx.hpp b/nytl/approx.hpp
index 7768ee0..b0a62ae 100644
--- a/nytl/approx.hpp
+++ b/nytl/approx.hpp
@@ -42,18 +42,21 @@ public:
 	static_assert(std::is_floating_point_v<T>,
 		"nytl::Approx only works for floating point types");
 
-	friend bool operator==(T lhs, const Approx& rhs) {
-		auto max = std::max(std::abs(lhs), std::abs(rhs.value));
+	// The compared values might have a higher precision than T.
+	using Compared = std::common_type_t<T, double>;
+
+	friend bool operator==(Compared lhs, const Approx& rhs) {
+		auto max = std::max<Compared>(std::abs(lhs), std::abs(rhs.value));
 		return std::abs(lhs - rhs.value) < rhs.epsilon * (1 + max);
 	}
 
-	friend bool operator==(const Approx& lhs, double rhs) {
+	friend bool operator==(const Approx& lhs, Compared rhs) {
 		return operator==(rhs, lhs);
 	}
-	friend bool operator!=(double lhs, const Approx& rhs) {
+	friend bool operator!=(Compared lhs, const Approx& rhs) {
 		return !operator==(lhs, rhs);
 	}
-	friend bool operator!=(const Approx& lhs, double rhs) {
+	friend bool operator!=(const Approx& lhs, Compared rhs) {
 		return !operator==(lhs, rhs);
 	}
 
-- 
2.43.0


From 7cd621079989a1935272f61f198acfb56a5b5706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:29 +0000
Subject: [PATCH 36/36] fix: an integer matrix multiplied in place with a real
 one truncated every partial sum

---
 nytl/mat.hpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/nytl/mat.hpp b/nytl/mat.hpp
index 1763753..bd2b116 100644
--- a/nytl/mat.hpp
+++ b/nytl/mat.hpp
@@ -98,12 +98,9 @@ constexpr auto operator*(const Mat<R, C, T1>& a, const Vec<C, T2>& b) {
 // mat *= mat (quadratic)
 template<typename T1, typename T2, size_t D>
 constexpr auto& operator*=(Mat<D, D, T1>& a, const Mat<D, D, T2>& b) {
-	Mat<D, D, T1> ret {}; // needed since a and b might be the same matrix
-	for(auto r = 0u; r < D; ++r) // ret: rows
-		for(auto c = 0u; c < D; ++c) // ret: cols
-			for(auto i = 0u; i < D; ++i) // row + col dot
-				ret[r][c] += a[r][i] * b[i][c];
-	a = ret;
+	// a and b might be the same matrix, and only the final values
+	// may be converted to T1
+	a = static_cast<Mat<D, D, T1>>(a * b);
 	return a;
 }
 
-- 
2.43.0

