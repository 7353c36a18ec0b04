From ae1ce3a7a26d6d7e7508a08dab55798c02cb0623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 01/52] fix: transpose along dimensions beyond the rank of its
 input

Swapping two such dimensions left the output uninitialized, and swapping one
with any but the last dimension copied elements to the wrong coordinates.
---
 .../src/graph/operations/transform.ipp        | 24 +++++--------------
 1 file changed, 6 insertions(+), 18 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 6e8095e..95cfccf 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -57,26 +57,14 @@ varptr<T> transpose (const varptr<T> a, std::pair<size_t,size_t> axis_swap)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t rank = shape.ins_[0].rank();
-		if (axis_swap.first >= rank)
-		{
-			return;
-		}
 		std::vector<size_t> coords;
-		if (axis_swap.second >= rank)
-		{
-			// we're transposing with a previously non-existent dimension,
-			// so there is a 1-1 correspondence between src and dest
-			std::memcpy(dest, src[0], n_elems * sizeof(T));
-		}
-		else
+		// dimensions beyond the rank of the input have extent 1, so their
+		// coordinates are 0 once swapped, and flat_idx ignores them
+		for (size_t i = 0; i < n_elems; i++)
 		{
-			for (size_t i = 0; i < n_elems; i++)
-			{
-				coords = shape.outs_.coordinate_from_idx(i);
-				std::swap(coords[axis_swap.first], coords[axis_swap.second]);
-				dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
-			}
+			coords = shape.outs_.coordinate_from_idx(i);
+			std::swap(coords[axis_swap.first], coords[axis_swap.second]);
+			dest[i] = src[0][shape.ins_[0].flat_idx(coords)];
 		}
 	}),
 	[axis_swap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From aecc7af474ada94779a69b8625678ce74b692615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 02/52] fix: extend along a dimension beyond the rank of its
 input

The extent of the missing dimension was read past the end of the shape.
---
 app/tenncor/src/graph/operations/transform.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 95cfccf..d5b43c1 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -160,8 +160,8 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier)
 	{
 		assert(1 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		size_t dim = shape.ins_[0].as_list()[index];
-		std::vector<size_t> coords;
+		// dimensions beyond the rank of the input have extent 1
+		size_t dim = index < shape.ins_[0].rank() ? shape.ins_[0].as_list()[index] : 1;
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			std::vector<size_t> coords = shape.outs_.coordinate_from_idx(i);
-- 
2.43.0


From 4bd029c3e2f5c14134e2b63e663cbb51d9afdb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 03/52] fix: arg_compress without a dimension yields one index

Its output had one element per input dimension, of which all but the first
were never written.
---
 app/tenncor/src/graph/operations/transform.ipp | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index d5b43c1..df317b2 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -411,10 +411,7 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	}
 	else
 	{
-		shaper = [](std::vector<tensorshape> inshapes) -> tensorshape
-		{
-			return std::vector<size_t>{inshapes[0].rank()};
-		};
+		shaper = [](std::vector<tensorshape>) -> tensorshape { return std::vector<size_t>{1}; };
 		// scalar shape
 		forward = new transfer_func<T>(
 		[search](T* dest, std::vector<const T*> src, shape_io shape)
-- 
2.43.0


From 1e5b670c43c852f2aa6b708efec3c914952eaee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:47 +0000
Subject: [PATCH 04/52] fix: a failed update does not block later updates of
 the same node

When an update threw, the node stayed registered as pending without being
queued, so later notifications of its arguments were ignored and evaluation
returned a stale (or no) value.
---
 app/tenncor/src/graph/connector/iconnector.ipp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index f8ef05f..ac1e6c6 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -419,6 +419,9 @@ struct iconnector<T>::graph_manager
 			iconnector<T>* iconn = updates_.top();
 			auto updater = update_map_[iconn];
 			updates_.pop();
+			// iconn is no longer queued: if updater throws, later notifications
+			// must be able to queue it again
+			update_map_.erase(iconn);
 			updater();
 			iconn->notify(UPDATE);
 		}
-- 
2.43.0


From 75d4ff3bdb6dfcfa0581983b7f152ef56573d80e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 05/52] fix: destroying a node cancels its pending update

The graph kept a node queued for an update after the node was deleted, and
the next evaluation in that graph used it.
---
 app/tenncor/src/graph/connector/iconnector.ipp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index ac1e6c6..c7d00e9 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -380,7 +380,20 @@ struct iconnector<T>::graph_manager
 	void suicide (iconnector<T>* user)
 	{
 		users_.erase(user);
-		if (users_.empty()) delete this;
+		if (users_.empty())
+		{
+			delete this;
+		}
+		else if (update_map_.erase(user))
+		{
+			// user is going away, so its pending update must not be executed
+			std::vector<iconnector<T>*> pending;
+			for (; false == updates_.empty(); updates_.pop())
+			{
+				if (user != updates_.top()) pending.push_back(updates_.top());
+			}
+			for (iconnector<T>* p : pending) updates_.push(p);
+		}
 	}
 
 	void consume (graph_manager* other)
-- 
2.43.0


From 75f735e28931944dc96fbae20735c069abbc4f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:36 +0000
Subject: [PATCH 06/52] fix: copies of an operation node are kept up to date

A copy did not inherit its depth, so it was updated before the nodes it
depends on, and it did not inherit a pending update, so it kept (or never
had) a value that was already outdated when it was copied.
---
 app/tenncor/src/graph/connector/iconnector.ipp           | 7 +++++++
 .../src/graph/connector/immutable/base_immutable.ipp     | 9 +++++++++
 2 files changed, 16 insertions(+)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index c7d00e9..80b3c03 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -298,6 +298,7 @@ varptr<T> iconnector<T>::jacobian_call (varptr<T> out, variable<T>* leaf) const
 template <typename T>
 void iconnector<T>::copy_helper (const iconnector<T>& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = other.jacobians_;
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
@@ -308,6 +309,7 @@ void iconnector<T>::copy_helper (const iconnector<T>& other)
 template <typename T>
 void iconnector<T>::move_helper (iconnector<T>&& other)
 {
+	depth_ = other.depth_;
 	jacobians_ = std::move(other.jacobians_);
 	jacobian_correction(&other);
 	// this copies other's dependencies so, this and other share a graph
@@ -424,6 +426,11 @@ struct iconnector<T>::graph_manager
 		}
 	}
 
+	bool is_pending (iconnector<T>* user) const
+	{
+		return update_map_.end() != update_map_.find(user);
+	}
+
 	void update (void)
 	{
 		// todo: add multithreading
diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index 1d10a3a..b103009 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -244,6 +244,15 @@ void base_immutable<T>::copy_helper (const base_immutable& other)
 		data_ = other.data_->clone();
 	}
 	gcache_ = other.gcache_;
+	// other's data is outdated, so is the copy
+	if (this->g_man_->is_pending(const_cast<base_immutable<T>*>(&other)))
+	{
+		this->g_man_->add_update(this,
+		[this]
+		{
+			forward_pass();
+		});
+	}
 }
 
 template <typename T>
-- 
2.43.0


From 02b2009a2d0ea66770f4c5535c9eb4554691799a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 07/52] fix: operations with different scalar operands are
 different nodes

Nodes are shared by label, and labels rounded scalars to 6 digits: x+1.0000001
was the node of x+1.0000002.
---
 app/tenncor/src/utils/utils.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/utils/utils.cpp b/app/tenncor/src/utils/utils.cpp
index 1b26582..10bfda6 100644
--- a/app/tenncor/src/utils/utils.cpp
+++ b/app/tenncor/src/utils/utils.cpp
@@ -1,4 +1,5 @@
 #include <iostream>
+#include <limits>
 
 #include "utils/utils.hpp"
 
@@ -7,7 +8,11 @@
 namespace nnutils
 {
 
-formatter::formatter (void) {}
+formatter::formatter (void)
+{
+	// distinct values must not be formatted the same
+	stream_.precision(std::numeric_limits<double>::max_digits10);
+}
 
 formatter::~formatter (void) {}
 
-- 
2.43.0


From ddfdbcd799b1d42fd60f6b12caeea2077eee14b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 08/52] fix: conditionals of a scalar and a node are not shared
 with their mirror image

conditional(s, x) and conditional(x, s) had the same label, so building one
returned an existing node of the other.
---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 17caa94..b702b93 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1101,7 +1101,7 @@ varptr<T> conditional (T a, const varptr<T> b, std::function<bool(T,T)> compare,
 		}
 		return constant<T>::get(bcvec, bconst->get_shape());
 	}
-	std::string opname = nnutils::formatter() << "conditional_" << name << "_" << a;
+	std::string opname = nnutils::formatter() << a << "_conditional_" << name;
 	if (inode<T>* parent = unary_parent_search(b.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From 5a233ae65dfe3e4162894a7802c55b49c05df203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 09/52] fix: dividing a constant by scalar zero throws like any
 other division by zero

---
 app/tenncor/src/graph/operations/elementary.ipp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index b702b93..8ce21b7 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1779,6 +1779,10 @@ template<typename T>
 varptr<T> operator / (const varptr<T> a, T b)
 {
 	if (nullptr == a.get()) return nullptr;
+	if (b == (T) 0)
+	{
+		throw std::logic_error("divide by zero");
+	}
 	constant<T>* aconst = dynamic_cast<constant<T>*>(a.get());
 	if (aconst)
 	{
@@ -1793,10 +1797,6 @@ varptr<T> operator / (const varptr<T> a, T b)
 		}
 		return constant<T>::get(acvec, aconst->get_shape());
 	}
-	if (b == (T) 0)
-	{
-		throw std::logic_error("divide by zero");
-	}
 	if (b == (T) 1) return a;
 	std::string opname = nnutils::formatter() << "div_" << b;
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
-- 
2.43.0


From efcffc39cbf46a9bb98b842738679ccb4afa5e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 10/52] fix: clip_norm bounds the l2 norm of its whole argument

The norm of a node was that of its first element, nodes were rescaled even
when below the cap, and the norm of a constant was not square rooted.
---
 app/tenncor/src/graph/operations/elementary.ipp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 8ce21b7..0795ed1 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1006,7 +1006,7 @@ varptr<T> l2norm (const varptr<T> a)
 		{
 			l2norm += acv * acv;
 		}
-		return constant<T>::get(l2norm);
+		return constant<T>::get(std::sqrt(l2norm));
 	}
 	std::string opname = "l2norm";
 	if (inode<T>* parent = unary_parent_search(a.get(), opname))
@@ -1019,7 +1019,7 @@ varptr<T> l2norm (const varptr<T> a)
 	[](T* dest, std::vector<const T*> src, shape_io shape)
 	{
 		assert(1 == src.size());
-		size_t n_elems = shape.outs_.n_elems();
+		size_t n_elems = shape.ins_[0].n_elems();
 		// l2norm = sqrt(sum_i=0:n(sqr(xi)))
 		dest[0] = std::sqrt(std::accumulate(src[0], src[0] + n_elems, (T) 0,
 		[](const T left, const T right)
@@ -1049,6 +1049,7 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		{
 			l2norm += acv * acv;
 		}
+		l2norm = std::sqrt(l2norm);
 		for (T& acv : acvec)
 		{
 			if (l2norm > cap)
@@ -1075,7 +1076,8 @@ varptr<T> clip_norm (const varptr<T> a, T cap)
 		std::transform(srcs[1], srcs[1] + n_out, dest,
 		[cap, l2norm](const T data)
 		{
-			return data * cap / l2norm;
+			// normalize only beyond the cap
+			return l2norm > cap ? data * cap / l2norm : data;
 		});
 	}),
 	[cap](std::vector<std::pair<inode<T>*,inode<T>*> > args)
-- 
2.43.0


From 702b6dae1a3430afca503fd2313e3c35c50b1b2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 11/52] fix: binomial_sample depends on the node that holds its
 trial count

Samples with a node as trial count were built without (or with something else
than) that node as argument and read past their arguments; samples of
constants wrote to an empty vector.
---
 app/tenncor/src/graph/operations/elementary.ipp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 0795ed1..bbd6c6b 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -1227,7 +1227,7 @@ varptr<T> binomial_sample (T n, const varptr<T> p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> pcvec = expose<T>(pconst);
-		std::vector<T> pvec((T) 0, pcvec.size());
+		std::vector<T> pvec(pcvec.size());
 		std::transform(pcvec.begin(), pcvec.end(), pvec.begin(),
 		[&gen, n](T pcv)
 		{
@@ -1265,7 +1265,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		std::default_random_engine& gen = nnutils::get_generator();
 		std::vector<T> ncvec = expose<T>(nconst);
-		std::vector<T> nvec((T) 0, ncvec.size());
+		std::vector<T> nvec(ncvec.size());
 		std::transform(ncvec.begin(), ncvec.end(), nvec.begin(),
 		[&gen, p](T ncv)
 		{
@@ -1279,7 +1279,7 @@ varptr<T> binomial_sample (const varptr<T> n, T p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n}, elementary_shaper,
 	new transfer_func<T>([p](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
@@ -1314,15 +1314,15 @@ varptr<T> binomial_sample (const varptr<T> n, const varptr<T> p)
 	{
 		return parent;
 	}
-	return immutable<T>::get(std::vector<inode<T>*>{p}, elementary_shaper,
+	return immutable<T>::get(std::vector<inode<T>*>{n, p}, elementary_shaper,
 	new transfer_func<T>([](T* dest, std::vector<const T*> srcs, shape_io shapes)
 	{
 		size_t n_out = shapes.outs_.n_elems();
 		std::default_random_engine& gen = nnutils::get_generator();
 		for (size_t i = 0; i < n_out; i++)
 		{
-			size_t n = srcs[0][i];
-			T p = srcs[1][i];
+			size_t n = srcs[0][shapes.ins_[0].n_elems() > 1 ? i : 0];
+			T p = srcs[1][shapes.ins_[1].n_elems() > 1 ? i : 0];
 			assert(p >= 0 && p <= 1);
 			std::binomial_distribution<int> dist(n, p);
 			dest[i] = dist(gen);
-- 
2.43.0


From 969af3339cafdf2a822ff5974c9948da847276d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 12/52] fix: cross_corr2d correlates its argument with its
 filter

It multiplied the argument with itself, walked out of the argument's bounds,
and computed the wrong output shape.
---
 .../src/graph/operations/transform.ipp        | 32 +++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index df317b2..dfb68b4 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -504,8 +504,15 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		std::vector<size_t> outshape = shapes[0].as_list();
 		std::vector<size_t> filtshape = shapes[1].as_list();
-		outshape[dims.first] -= filtshape[dims.first] + 1;
-		outshape[dims.second] -= filtshape[dims.second] + 1;
+		for (size_t d : {dims.first, dims.second})
+		{
+			if (d >= outshape.size() || d >= filtshape.size() || outshape[d] < filtshape[d])
+			{
+				throw std::logic_error(nnutils::formatter()
+				<< "filter does not fit its argument along dimension " << d);
+			}
+			outshape[d] -= filtshape[d] - 1;
+		}
 		return outshape;
 	},
 	new transfer_func<T>(
@@ -513,24 +520,23 @@ varptr<T> cross_corr2d (const varptr<T> a, const varptr<T> filter,
 	{
 		assert(2 == src.size());
 		size_t n_elems = shape.outs_.n_elems();
-		std::vector<size_t> outlist = shape.outs_.as_list();
-		std::vector<size_t> inlist = shape.ins_[0].as_list();
-		size_t firstn = inlist[dims.first] - outlist[dims.first];
-		size_t secondn = inlist[dims.second] - outlist[dims.second];
+		std::vector<size_t> filtlist = shape.ins_[1].as_list();
 		std::vector<size_t> coord;
 		for (size_t i = 0; i < n_elems; i++)
 		{
 			dest[i] = 0;
-			coord = shape.outs_.coordinate_from_idx(i);
-			for (size_t j = 0; j < firstn; j++)
+			for (size_t j = 0; j < filtlist[dims.first]; j++)
 			{
-				for (size_t k = 0; k < secondn; k++)
+				for (size_t k = 0; k < filtlist[dims.second]; k++)
 				{
-					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[0][k * firstn + j];
-
-					coord[dims.second]++;
+					coord = shape.outs_.coordinate_from_idx(i);
+					coord[dims.first] += j;
+					coord[dims.second] += k;
+					std::vector<size_t> fcoord(filtlist.size(), 0);
+					fcoord[dims.first] = j;
+					fcoord[dims.second] = k;
+					dest[i] += src[0][shape.ins_[0].flat_idx(coord)] * src[1][shape.ins_[1].flat_idx(fcoord)];
 				}
-				coord[dims.first]++;
 			}
 		}
 	}),
-- 
2.43.0


From e6bb2236107c7f073a3781cc3d3a4a1d30db74ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:24 +0000
Subject: [PATCH 13/52] fix: asking a frozen node for its shape does not update
 its graph

---
 app/tenncor/src/graph/connector/immutable/base_immutable.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
index b103009..b6c6c79 100644
--- a/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
+++ b/app/tenncor/src/graph/connector/immutable/base_immutable.ipp
@@ -97,7 +97,7 @@ void base_immutable<T>::temporary_eval (const iconnector<T>* target, inode<T>*&
 template <typename T>
 tensorshape base_immutable<T>::get_shape (void) const
 {
-	if (this->g_man_) this->g_man_->update();
+	if (this->g_man_ && false == this->g_man_->freeze_) this->g_man_->update();
 	if (nullptr == data_)
 	{
 		return tensorshape();
-- 
2.43.0


From e4dde0e507f4c344acb53be73c60f6aaedd8a0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 14/52] fix: axial operations map their operands on square and
 scalar arguments

Along axis 0 a full operand of equal first two extents was not recognised as
having one more dimension, and a one-element full operand was read past its end.
---
 app/tenncor/src/graph/operations/elementary.ipp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index bbd6c6b..11beb09 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -134,13 +134,14 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 		}
 		else
 		{
+			bool full_mul = shapes.ins_[(idx + 1) % 2].n_elems() > 1;
 			for (size_t i = 0; i < n_elems; i++)
 			{
 				size_t axis_idx = i;
-				if (axis == 0 && ilist[axis] != olist[axis])
+				if (axis == 0 && ilist.size() < olist.size())
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
-					if (ilist[axis] != olist[axis+1])
+					if (ilist[0] != olist[1])
 					{
 						std::stringstream ss;
 						ss << "failed to map ";
@@ -153,13 +154,14 @@ static TRANSFER_FUNC<T> binary_axial (AGGREGATE<T> aggregate, size_t axis, bool
 					coords = std::vector<size_t>(coords.begin()+1, coords.end());
 					axis_idx = shapes.ins_[idx].flat_idx(coords);
 				}
-				else if (axis >= ilist.size() || (ilist[axis] == 1 && olist[axis] > 1))
+				else if (ilist.size() < olist.size() ||
+					(axis < ilist.size() && ilist[axis] == 1 && olist[axis] > 1))
 				{
 					std::vector<size_t> coords = shapes.outs_.coordinate_from_idx(i);
 					coords[axis] = 0;
 					axis_idx = shapes.ins_[idx].flat_idx(coords);
 				}
-				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i]);
+				dest[i] = aggregate(srcs[idx][axis_idx], srcs[(idx + 1) % 2][i * full_mul]);
 			}
 		}
 	};
-- 
2.43.0


From 33b4a58d1069f67414110f035847361f363fb72e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:44 +0000
Subject: [PATCH 15/52] fix: reduce_mean along a dimension beyond the rank of
 its argument

The divisor was read past the end of the shape.
---
 app/tenncor/src/graph/operations/transform.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index dfb68b4..53242d0 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -324,7 +324,8 @@ varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension)
 		denom = shape_dep<T>::get({ a },
 		[dimension](tensorshape& s) -> std::vector<size_t>
 		{
-			return { s.as_list()[*dimension] };
+			// dimensions beyond the rank of the argument have extent 1
+			return { *dimension < s.rank() ? s.as_list()[*dimension] : 1 };
 		}, std::vector<size_t>{1},
 		nnutils::formatter() << "axis_" << *dimension << "_size");
 	}
-- 
2.43.0


From ded01b5e3fb455eaa3abefe44714ec73d5e5cf42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:07 +0000
Subject: [PATCH 16/52] fix: copying a differentiated node does not read an
 empty jacobian list

Taking a derivative leaves empty jacobian lists behind; the last element of
such a list was read when the node was cloned or moved.
---
 app/tenncor/src/graph/connector/iconnector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/connector/iconnector.ipp b/app/tenncor/src/graph/connector/iconnector.ipp
index 80b3c03..682ae8b 100644
--- a/app/tenncor/src/graph/connector/iconnector.ipp
+++ b/app/tenncor/src/graph/connector/iconnector.ipp
@@ -336,7 +336,7 @@ void iconnector<T>::jacobian_correction (const inode<T>* other)
 	for (auto& jpair : jacobians_)
 	{
 		std::list<std::pair<JTRANSFER<T>,inode<T>*> >& js = jpair.second.list_;
-		if (js.back().second == other)
+		if (false == js.empty() && js.back().second == other)
 		{
 			js.back().second = this;
 		}
-- 
2.43.0


From 28f47d365b1a5738ddca693c3fcfa1aac6e88ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 17/52] fix: gradients of matrix products are shaped like their
 transposed arguments

---
 app/tenncor/src/graph/operations/matmul.ipp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 158b380..3018076 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -375,7 +375,7 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 	}
 
 	mmul->set_jacobian_back(
-	[transposeA, transposeB](inode<T>* root, std::vector<inode<T>*> args, std::vector<inode<T>*> grads) -> inode<T>*
+	[](inode<T>* root, std::vector<inode<T>*> args, std::vector<inode<T>*> grads) -> inode<T>*
 	{
 		varptr<T> arga = args[0];
 		varptr<T> argb = args[1];
@@ -388,17 +388,19 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		{
 			return root;
 		}
-		varptr<T> mA = matmul<T>(root, argb, false, true);
-		varptr<T> mB = matmul<T>(arga, root, true);
-		if (transposeA)
+		varptr<T> mA = matmul<T>(root, argb, false, true) * grada;
+		varptr<T> mB = matmul<T>(arga, root, true) * gradb;
+		// gradients of a transposed argument are shaped like that argument,
+		// whether it was transposed here or before
+		if (0 == arga->get_label().compare("transpose_0_1"))
 		{
 			mA = transpose<T>(mA);
 		}
-		if (transposeB)
+		if (0 == argb->get_label().compare("transpose_0_1"))
 		{
 			mB = transpose<T>(mB);
 		}
-		return mA * grada + mB * gradb;
+		return mA + mB;
 	}, leef);
 	return mmul;
 }
-- 
2.43.0


From 21fb04004c997fbc472767b17a6a80160eabfd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:22 +0000
Subject: [PATCH 18/52] fix: gradients of axial operations cover every element
 and apply in order

---
 .../src/graph/operations/elementary.ipp       | 69 +++++++++++++------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 11beb09..3a568b1 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -203,11 +203,11 @@ static varptr<T> add_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, axis, true);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, axis, false);
 		}
 	}
 	return out;
@@ -253,11 +253,11 @@ static varptr<T> sub_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, axis, true);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, axis, false);
 		}
 	}
 	return out;
@@ -303,11 +303,11 @@ static varptr<T> mul_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, axis, true);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, axis, false);
 		}
 	}
 	return out;
@@ -354,18 +354,41 @@ static varptr<T> div_helper (const varptr<T>& a, const varptr<T>& b,
 		size_t axis = left_axis->second;
 		if (left_axis->first)
 		{
-			axial_set_jacobian(out, a, axis);
+			axial_set_jacobian(out, a, axis, true);
 		}
 		else
 		{
-			axial_set_jacobian(out, b, axis);
+			axial_set_jacobian(out, b, axis, false);
 		}
 	}
 	return out;
 }
 
+// gradients of axial operations are shaped like the whole (not the axial) operand,
+// unless they are scalar constants, which stand for the same gradient in every element
 template <typename T>
-static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t axis)
+static bool is_const_scalar (inode<T>* node)
+{
+	constant<T>* c = dynamic_cast<constant<T>*>(node);
+	return c && 1 == c->get_shape().n_elems();
+}
+
+template <typename T>
+static varptr<T> axial_expand (const varptr<T>& grad, const varptr<T>& whole, size_t axis)
+{
+	if (is_const_scalar<T>(grad.get())) return grad;
+	return mul_axial_a(grad, eq(whole, whole), axis);
+}
+
+template <typename T>
+static varptr<T> axial_whole (const varptr<T>& grad, const varptr<T>& whole)
+{
+	if (is_const_scalar<T>(grad.get())) return eq(whole, whole) * grad;
+	return grad;
+}
+
+template <typename T>
+static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t axis, bool left)
 {
 	if (iconnector<T>* iconn = dynamic_cast<iconnector<T>*>(root.get()))
 	{
@@ -378,10 +401,16 @@ static void axial_set_jacobian (varptr<T>& root, const varptr<T>& branch, size_t
 				leef.push_back(var);
 			}
 		}
-		iconn->set_jacobian_front(
-		[axis](inode<T>* root, std::vector<inode<T>*>, std::vector<inode<T>*>) -> inode<T>*
+		iconn->set_jacobian_back(
+		[axis, left](inode<T>* root, std::vector<inode<T>*> args, std::vector<inode<T>*>) -> inode<T>*
 		{
-			return reduce_sum(varptr<T>(root), axis);
+			varptr<T> full = root;
+			if (is_const_scalar<T>(root))
+			{
+				varptr<T> arg = args[left ? 1 : 0];
+				full = eq(arg, arg) * full;
+			}
+			return reduce_sum(full, axis);
 		}, leef);
 	}
 }
@@ -1877,7 +1906,7 @@ varptr<T> add_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return add_axial_a(ag, bg, axis_a);
+		return axial_expand(ag, varptr<T>(args.at(1).first), axis_a) + bg;
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1895,7 +1924,7 @@ varptr<T> add_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return add_axial_b(ag, bg, axis_b);
+		return ag + axial_expand(bg, varptr<T>(args.at(0).first), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -1913,7 +1942,7 @@ varptr<T> sub_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return sub_axial_a(ag, bg, axis_a);
+		return axial_expand(ag, varptr<T>(args.at(1).first), axis_a) - bg;
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1931,7 +1960,7 @@ varptr<T> sub_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 	{
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return sub_axial_b(ag, bg, axis_b);
+		return ag - axial_expand(bg, varptr<T>(args.at(0).first), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -1952,7 +1981,7 @@ varptr<T> mul_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return mul_axial_a(ag, b, axis_a) + mul_axial_a(a, bg, axis_a);
+		return mul_axial_a(ag, b, axis_a) + mul_axial_a(a, axial_whole(bg, b), axis_a);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -1973,7 +2002,7 @@ varptr<T> mul_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return mul_axial_b(ag, b, axis_b) + mul_axial_b(a, bg, axis_b);
+		return mul_axial_b(axial_whole(ag, a), b, axis_b) + mul_axial_b(a, bg, axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
@@ -1994,7 +2023,7 @@ varptr<T> div_axial_a (const varptr<T> a, const varptr<T> b, size_t axis_a)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_a(ag, b, axis_a) - mul_axial_b(bg, a, axis_a)) / pow(b, 2);
+		return (mul_axial_a(ag, b, axis_a) - mul_axial_b(axial_whole(bg, b), a, axis_a)) / pow(b, 2);
 	}, std::pair<bool, size_t>{ true, axis_a });
 }
 
@@ -2015,7 +2044,7 @@ varptr<T> div_axial_b (const varptr<T> a, const varptr<T> b, size_t axis_b)
 		varptr<T> b = args.at(1).first;
 		varptr<T> ag = args.at(0).second;
 		varptr<T> bg = args.at(1).second;
-		return (mul_axial_b(ag, b, axis_b) - mul_axial_a(bg, a, axis_b)) / pow(b, 2);
+		return div_axial_b(mul_axial_b(axial_whole(ag, a), b, axis_b) - mul_axial_a(bg, a, axis_b), pow(b, 2), axis_b);
 	}, std::pair<bool, size_t>{ false, axis_b });
 }
 
-- 
2.43.0


From bb75badaf57b19f0f99ddb58429319c9f5225f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 19/52] fix: flat index of an empty coordinate does not read
 out of bounds

---
 app/tenncor/src/tensor/tensorshape.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/src/tensor/tensorshape.cpp b/app/tenncor/src/tensor/tensorshape.cpp
index cd113cb..df29c1b 100644
--- a/app/tenncor/src/tensor/tensorshape.cpp
+++ b/app/tenncor/src/tensor/tensorshape.cpp
@@ -280,6 +280,7 @@ tensorshape tensorshape::with_rank_at_most (size_t rank) const
 
 size_t tensorshape::flat_idx (std::vector<size_t> coord) const
 {
+	if (coord.empty()) return 0; // missing coordinates are zero
 	size_t n = std::min(dimensions_.size(), coord.size());
 	size_t index = 0;
 	for (size_t i = 1; i < n; i++)
-- 
2.43.0


From a239a6f0e6fc33d55b8ea6aff411843d360be02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 20/52] fix: reshaping a tensor to a partial shape of higher
 rank keeps within that shape

---
 app/tenncor/src/tensor/tensor.ipp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 5cb649c..e445700 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -406,8 +406,7 @@ void tensor<T>::set_shape (tensorshape shape)
 		if (false == shape.is_fully_defined())
 		{
 			// make alloc_shape compatible with shape
-			shape = shape.with_rank(alloc_shape_.rank());
-			shape = shape.merge_with(alloc_shape_);
+			shape = shape.merge_with(alloc_shape_.with_rank(shape.rank()));
 			shape = shape.with_rank(allowed_shape_.rank());
 		}
 		// shape now represent the desired alloc_shape_
-- 
2.43.0


From 8a4edc4d06a57714381d764751d9866640209fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 21/52] fix: guessing a shape for a tensor without a shape does
 not write out of bounds

---
 app/tenncor/src/tensor/tensor.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index e445700..559d1f1 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -295,6 +295,11 @@ optional<tensorshape> tensor<T>::loosely_guess_shape(const std::vector<T>& data)
 		return bestshape;
 	}
 	std::vector<size_t> my_shape = allowed_shape_.as_list();
+	// if allowed is undefined
+	if (my_shape.empty())
+	{
+		return tensorshape(std::vector<size_t>{ndata});
+	}
 	size_t first_undef = my_shape.size();
 	size_t known = 1;
 	for (size_t i = 0; i < my_shape.size(); i++)
-- 
2.43.0


From 65a414a55adcc9605568614779dfd5b727c09113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:06 +0000
Subject: [PATCH 22/52] fix: a tensor message that does not describe a tensor
 is refused without changing the tensor

---
 app/tenncor/src/tensor/tensor.ipp | 23 +++++++++++------------
 1 file changed, 11 insertions(+), 12 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index 559d1f1..aab7e65 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -514,24 +514,23 @@ bool tensor<T>::copy_from (const tensor<T>& other, const tensorshape shape)
 template <typename T>
 bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 {
-	std::string protostr = other.data();
-	const char* protoraw = protostr.c_str();
-	// shapes must have same dimensionality... (otherwise, input data is definitely corrupt)
-	assert(other.alloc_shape_size() == other.allow_shape_size());
+	const std::string& protostr = other.data();
 	std::vector<size_t> allow(other.allow_shape().begin(), other.allow_shape().end());
 	std::vector<size_t> alloc(other.alloc_shape().begin(), other.alloc_shape().end());
-	allowed_shape_ = tensorshape(allow);
+	tensorshape temp_allowed_shape(allow);
 	tensorshape temp_alloc_shape(alloc);
-	// another sanity check, be less stringent, since this may represent some less evident issue
-	if (false == temp_alloc_shape.is_compatible_with(allowed_shape_) ||
-		false == temp_alloc_shape.is_fully_defined()) return false;
+	// sanity check everything before changing this tensor
+	if (false == temp_alloc_shape.is_compatible_with(temp_allowed_shape) ||
+		false == temp_alloc_shape.is_fully_defined() ||
+		protostr.size() != temp_alloc_shape.n_elems() * sizeof(T)) return false;
 
 	deallocate();
-	alloc_shape_ = temp_alloc_shape;
-	assert(allocate());
+	allowed_shape_ = temp_allowed_shape;
+	bool allocated = allocate(temp_alloc_shape);
+	assert(allocated);
 
-	// copy data over from protoraw
-	std::memcpy(raw_data_, protoraw, protostr.size());
+	// copy data over from proto
+	std::memcpy(raw_data_, protostr.data(), protostr.size());
 
 	return true;
 }
-- 
2.43.0


From ac8c753ff2ebaac79a48a35c80f898de87a5f599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 23/52] fix: a variable already allocated with a compatible
 shape can be initialized with it

---
 app/tenncor/src/graph/leaf/variable.ipp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/leaf/variable.ipp b/app/tenncor/src/graph/leaf/variable.ipp
index c28ddc5..2ca8134 100644
--- a/app/tenncor/src/graph/leaf/variable.ipp
+++ b/app/tenncor/src/graph/leaf/variable.ipp
@@ -71,7 +71,10 @@ template <typename T>
 tensor<T>& variable<T>::initialize (tensorshape shape)
 {
 	assert(this->init_ != nullptr);
-	if (false == this->data_->allocate(shape))
+	// data that already takes shape needs no allocation
+	bool fits = this->data_->is_alloc() && shape.is_fully_defined() &&
+		shape.is_compatible_with(this->data_->get_shape());
+	if (false == fits && false == this->data_->allocate(shape))
 	{
 		std::stringstream ss;
 		ss << "shape ";
-- 
2.43.0


From 82767ede26c2d6365e74b0582fac8ef39e6ac798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:17 +0000
Subject: [PATCH 24/52] fix: move assignment of a leaf takes over its
 dependents

---
 app/tenncor/src/graph/inode.ipp      | 2 +-
 app/tenncor/src/graph/leaf/ileaf.ipp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/inode.ipp b/app/tenncor/src/graph/inode.ipp
index 78e47fb..9721e3b 100644
--- a/app/tenncor/src/graph/inode.ipp
+++ b/app/tenncor/src/graph/inode.ipp
@@ -42,7 +42,7 @@ inode<T>& inode<T>::operator = (inode<T>&& other)
 {
 	if (this != &other)
 	{
-		subject::operator = (other);
+		subject::operator = (std::move(other));
 		label_ = std::move(other.label_);
 	}
 	return *this;
diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 9d6b49e..553f1cd 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -46,7 +46,7 @@ ileaf<T>& ileaf<T>::operator = (ileaf<T>&& other)
 {
 	if (this != &other)
 	{
-		inode<T>::operator = (other);
+		inode<T>::operator = (std::move(other));
 		move_helper(std::move(other));
 		this->notify(UPDATE); // content changed
 	}
-- 
2.43.0


From ff4d7710ba1c914fd75eecb1b37fc7fc2ce90c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 25/52] fix: random initializers do not repeat the same numbers

---
 app/tenncor/src/tensor/tensor_handler.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor_handler.ipp b/app/tenncor/src/tensor/tensor_handler.ipp
index 5c8e66a..99efe54 100644
--- a/app/tenncor/src/tensor/tensor_handler.ipp
+++ b/app/tenncor/src/tensor/tensor_handler.ipp
@@ -268,7 +268,7 @@ template <typename T>
 void rand_uniform<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(std::ref(distribution_), std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
@@ -304,7 +304,7 @@ template <typename T>
 void rand_normal<T>::calc_data (T* dest, tensorshape outshape)
 {
 	size_t len = outshape.n_elems();
-	auto gen = std::bind(distribution_, nnutils::get_generator());
+	auto gen = std::bind(std::ref(distribution_), std::ref(nnutils::get_generator()));
 	std::generate(dest, dest+len, gen);
 }
 
-- 
2.43.0


From 26f87ed4e48ed18215bee138e66ca4c2da65814a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:36 +0000
Subject: [PATCH 26/52] fix: consumers of the shareable cache neither crash,
 miss entries nor stay asleep

---
 app/tenncor/src/thread/shareable_cache.ipp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 78912d5..65dd0d2 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -72,11 +72,11 @@ public:
 	// return true if it was broken
 	bool grab_truth (std::shared_ptr<cache_node<T> >& it) const
 	{
-		if (head_ == it || nullptr == it) return false;
-		bool broken = nullptr == it->prev_;
-		while (nullptr == it->prev_)
+		bool broken = false;
+		while (nullptr != it && head_ != it && nullptr == it->prev_)
 		{
 			it = it->next_;
+			broken = true;
 		}
 		return broken;
 	}
@@ -132,19 +132,21 @@ void shareable_cache<K, T>::add_latest (T data)
 	std::unique_lock<std::mutex> locker(mutex_);
 
 	K key = hasher_(data);
+	// link the new node first: broken nodes then always lead to unread nodes
+	std::shared_ptr<cache_node<T> > latest = content_.push_back(data);
 	auto iter = umap_.find(key);
 	if (umap_.end() != iter)
 	{
 		content_.unlink(iter->second);
 	}
-	umap_[key] = content_.push_back(data);
-	cond_.notify_one();
+	umap_[key] = latest;
+	cond_.notify_all();
 }
 
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
-	cond_.notify_one();
+	cond_.notify_all();
 }
 
 }
-- 
2.43.0


From 381459955ace92943c07bb33ce5280f858bbb7b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:02 +0000
Subject: [PATCH 27/52] fix: formatting an empty vector (message of a rejected
 coordinate) does not read out of bounds

---
 app/tenncor/include/utils/utils.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/include/utils/utils.hpp b/app/tenncor/include/utils/utils.hpp
index 3d84dcd..6f08cb8 100644
--- a/app/tenncor/include/utils/utils.hpp
+++ b/app/tenncor/include/utils/utils.hpp
@@ -65,6 +65,7 @@ public:
 	template <typename T>
 	formatter& operator << (const std::vector<T>& values)
 	{
+		if (values.empty()) return *this;
 		auto it = values.begin();
 		stream_ << *it;
 		it++;
-- 
2.43.0


From 9516245806b8722573893f422aef296c01822c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 28/52] fix: assigning an rbm takes over the other's contents,
 and copies know their hidden size

---
 app/rocnnet/src/models/rbm.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index 10052e8..e542eb6 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -48,7 +48,7 @@ rbm* rbm::move (void)
 
 rbm& rbm::operator = (const rbm& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (other);
 		clean_up();
@@ -59,7 +59,7 @@ rbm& rbm::operator = (const rbm& other)
 
 rbm& rbm::operator = (rbm&& other)
 {
-	if (this == &other)
+	if (this != &other)
 	{
 		ilayer::operator = (std::move(other));
 		clean_up();
@@ -209,6 +209,7 @@ ilayer* rbm::move_impl (void)
 void rbm::copy_helper (const rbm& other)
 {
 	n_input_ = other.n_input_;
+	n_hidden_ = other.n_hidden_;
 	weight_ = other.weight_->clone();
 	hbias_ = other.hbias_->clone();
 	vbias_ = other.vbias_->clone();
@@ -217,6 +218,7 @@ void rbm::copy_helper (const rbm& other)
 void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
+	n_hidden_ = std::move(other.n_hidden_);
 	weight_ = other.weight_->move();
 	hbias_ = other.hbias_->move();
 	vbias_ = other.vbias_->move();
-- 
2.43.0


From 5602993ad2ea8d4e70c42d91dcb934bafb70cc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:10 +0000
Subject: [PATCH 29/52] fix: copies and moves of a db_net include its output
 layer

---
 app/rocnnet/src/models/db_net.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index c531ba3..392ad59 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -176,6 +176,7 @@ void db_net::copy_helper (const db_net& other)
 			nnutils::formatter() << scope_ << ":rbm_" << i);
 		layers_.push_back(rlayer);
 	}
+	log_layer_ = other.log_layer_->clone(scope_ + ":logres");
 }
 
 void db_net::move_helper (db_net&& other)
@@ -184,6 +185,8 @@ void db_net::move_helper (db_net&& other)
 	n_input_ = std::move(other.n_input_);
 	n_output_ = std::move(other.n_output_);
 	layers_ = std::move(other.layers_);
+	log_layer_ = std::move(other.log_layer_);
+	other.log_layer_ = nullptr;
 }
 
 void db_net::clean_up (void)
-- 
2.43.0


From 5217ed420f501ecf2f7c1bb2a0f7c02a2beaed0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:23 +0000
Subject: [PATCH 30/52] fix: rmsprop accumulates its momentum over updates

---
 app/tenncor/src/utils/gd_utils.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/utils/gd_utils.cpp b/app/tenncor/src/utils/gd_utils.cpp
index 2da02d5..dc8346d 100644
--- a/app/tenncor/src/utils/gd_utils.cpp
+++ b/app/tenncor/src/utils/gd_utils.cpp
@@ -226,10 +226,17 @@ variable_updater<double> rmspropupdater::process_update (varptr<double>& gres,
 	varptr<double> leaf_step = dres * learning_rate_ / (sqrt<double>(momentum_step) + epsilon_);
 	auto momentum_update = momentum->assign(momentum_step);
 	auto leaf_update = leaf->assign_sub(leaf_step);
-	return [momentum_update, leaf_update, momentum, dres, leaf_step](bool notify)
+	return [momentum_update, leaf_update, momentum, leaf, dres, leaf_step](bool notify)
 	{
+		// both steps are taken from the values before either of them
 		momentum_update(false);
-		leaf_update(notify);
+		leaf_update(false);
+		// the next step builds on this momentum
+		momentum->notify(UPDATE);
+		if (notify)
+		{
+			leaf->notify(UPDATE);
+		}
 	};
 }
 
-- 
2.43.0


From 28f4dd916d1244c53f95dfe0c99c0406fa0b2579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 31/52] fix: a moved gd_net takes over its graph instead of
 leaving parts of it behind

---
 app/rocnnet/src/models/gd_net.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/app/rocnnet/src/models/gd_net.cpp b/app/rocnnet/src/models/gd_net.cpp
index 8f9f786..758e1ef 100644
--- a/app/rocnnet/src/models/gd_net.cpp
+++ b/app/rocnnet/src/models/gd_net.cpp
@@ -123,14 +123,17 @@ void gd_net::copy_helper (const gd_net& other, std::string scope)
 
 void gd_net::move_helper (gd_net&& other)
 {
+	// take over the graph as it is, nodes refer to each other
 	scope_ = std::move(other.scope_);
-	updater_ = other.updater_->move();
-	test_in_ = other.test_in_->move();
-	test_out_ = other.test_out_->move();
-	train_in_ = other.train_in_->move();
-	expected_out_ = other.expected_out_->move();
-	brain_ = other.brain_->move();
-	setup();
+	updates_ = std::move(other.updates_);
+	other.updates_.clear();
+	std::swap(updater_, other.updater_);
+	std::swap(test_in_, other.test_in_);
+	std::swap(train_in_, other.train_in_);
+	std::swap(expected_out_, other.expected_out_);
+	std::swap(error_, other.error_);
+	std::swap(brain_, other.brain_);
+	test_out_ = std::move(other.test_out_);
 }
 
 void gd_net::clean_up (void)
@@ -144,6 +147,7 @@ void gd_net::clean_up (void)
 	test_out_ = nullptr;
 	train_in_ = nullptr;
 	expected_out_ = nullptr;
+	error_ = nullptr;
 	updater_ = nullptr;
 	brain_ = nullptr;
 	updates_.clear();
-- 
2.43.0


From 18fc86dbb56bc1688448de8e518a139adf0823d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 32/52] fix: a copied dq_net remembers the experiences its
 counters speak of

---
 app/rocnnet/src/models/dq_net.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 61d6a27..6b512c0 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -232,6 +232,7 @@ void dq_net::copy_helper (const dq_net& other, std::string scope)
 	n_train_called_ = other.n_train_called_;
 	explore_ = other.explore_;
 	generator_ = other.generator_;
+	experiences_ = other.experiences_;
 
 	// copy over actors
 	updater_ = other.updater_->clone();
-- 
2.43.0


From 289b8071a617b64f0f3e28321998405382407365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:56 +0000
Subject: [PATCH 33/52] fix: a moved dq_net takes over its graph and its
 experiences

---
 app/rocnnet/src/models/dq_net.cpp | 33 ++++++++++++++++++++++---------
 1 file changed, 24 insertions(+), 9 deletions(-)

diff --git a/app/rocnnet/src/models/dq_net.cpp b/app/rocnnet/src/models/dq_net.cpp
index 6b512c0..1378899 100644
--- a/app/rocnnet/src/models/dq_net.cpp
+++ b/app/rocnnet/src/models/dq_net.cpp
@@ -256,15 +256,30 @@ void dq_net::move_helper (dq_net&& other, std::string scope)
 	n_train_called_ = std::move(other.n_train_called_);
 	explore_ = std::move(other.explore_);
 	generator_ = std::move(other.generator_);
-
-	// move over actors
-	updater_ = other.updater_->move();
-	updater_->clear_ignore();
-	
-	source_qnet_ = other.source_qnet_->move();
-	target_qnet_ = other.target_qnet_->move();
-
-	variable_setup();
+	experiences_ = std::move(other.experiences_);
+	other.experiences_.clear();
+
+	// take over actors and the graph as it is, nodes refer to each other
+	std::swap(updater_, other.updater_);
+	std::swap(source_qnet_, other.source_qnet_);
+	std::swap(target_qnet_, other.target_qnet_);
+	std::swap(input_, other.input_);
+	std::swap(train_input_, other.train_input_);
+	std::swap(next_input_, other.next_input_);
+	std::swap(next_output_mask_, other.next_output_mask_);
+	std::swap(reward_, other.reward_);
+	std::swap(output_mask_, other.output_mask_);
+	std::swap(prediction_error_, other.prediction_error_);
+	output_ = std::move(other.output_);
+	best_output_ = std::move(other.best_output_);
+	train_output_ = std::move(other.train_output_);
+	next_output_ = std::move(other.next_output_);
+	future_reward_ = std::move(other.future_reward_);
+	score_ = std::move(other.score_);
+	source_updates_ = std::move(other.source_updates_);
+	target_updates_ = std::move(other.target_updates_);
+	other.source_updates_.clear();
+	other.target_updates_.clear();
 }
 
 void dq_net::variable_setup (void)
-- 
2.43.0


From e046935e82bd741625ce64631fc08a8994b8378f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:45 +0000
Subject: [PATCH 34/52] fix: moved rbm and conv_layer keep the variables their
 outputs are computed from

---
 app/rocnnet/src/layers/conv_layer.cpp |  7 +++++--
 app/rocnnet/src/models/rbm.cpp        | 10 +++++++---
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/app/rocnnet/src/layers/conv_layer.cpp b/app/rocnnet/src/layers/conv_layer.cpp
index 8812110..d2ab8b2 100644
--- a/app/rocnnet/src/layers/conv_layer.cpp
+++ b/app/rocnnet/src/layers/conv_layer.cpp
@@ -106,8 +106,11 @@ void conv_layer::copy_helper (const conv_layer& other)
 
 void conv_layer::move_helper (conv_layer&& other)
 {
-	weight_ = other.weight_->move();
-	bias_ = other.bias_->move();
+	// what was computed from the variables keeps referring to them
+	weight_ = other.weight_;
+	bias_ = other.bias_;
+	other.weight_ = nullptr;
+	other.bias_ = nullptr;
 }
 
 void conv_layer::clean_up (void)
diff --git a/app/rocnnet/src/models/rbm.cpp b/app/rocnnet/src/models/rbm.cpp
index e542eb6..6fb895c 100644
--- a/app/rocnnet/src/models/rbm.cpp
+++ b/app/rocnnet/src/models/rbm.cpp
@@ -219,9 +219,13 @@ void rbm::move_helper (rbm&& other)
 {
 	n_input_ = std::move(other.n_input_);
 	n_hidden_ = std::move(other.n_hidden_);
-	weight_ = other.weight_->move();
-	hbias_ = other.hbias_->move();
-	vbias_ = other.vbias_->move();
+	// what was computed from the variables keeps referring to them
+	weight_ = other.weight_;
+	hbias_ = other.hbias_;
+	vbias_ = other.vbias_;
+	other.weight_ = nullptr;
+	other.hbias_ = nullptr;
+	other.vbias_ = nullptr;
 }
 
 void rbm::clean_up (void)
-- 
2.43.0


From a83cab111719eccf890c8eb3865dc38a2db6644f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:59 +0000
Subject: [PATCH 35/52] fix: a node does not load contents of another shape

---
 app/tenncor/src/graph/leaf/ileaf.ipp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/leaf/ileaf.ipp b/app/tenncor/src/graph/leaf/ileaf.ipp
index 553f1cd..692d83d 100644
--- a/app/tenncor/src/graph/leaf/ileaf.ipp
+++ b/app/tenncor/src/graph/leaf/ileaf.ipp
@@ -102,7 +102,12 @@ bool ileaf<T>::good_status (void) const
 template <typename T>
 bool ileaf<T>::read_proto (const tenncor::tensor_proto& proto)
 {
-	bool success = data_->from_proto(proto);
+	// contents of another shape are not this node's
+	tensor<T> incoming;
+	bool success = incoming.from_proto(proto) &&
+		data_->rank() == incoming.rank() &&
+		data_->is_compatible_with(incoming) &&
+		data_->from_proto(proto);
 	if (success)
 	{
 		is_init_ = true;
-- 
2.43.0


From f9b3a5f0198773b037de2e5e8d443c5535c3da9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:17 +0000
Subject: [PATCH 36/52] fix: saturated sigmoid and tanh have finite values and
 gradients

---
 app/tenncor/include/utils/futils.hpp |  2 +-
 app/tenncor/src/utils/futils.ipp     | 74 ++++++++++++++++++++++++++--
 2 files changed, 72 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/include/utils/futils.hpp b/app/tenncor/include/utils/futils.hpp
index f5e44b8..863d15e 100644
--- a/app/tenncor/include/utils/futils.hpp
+++ b/app/tenncor/include/utils/futils.hpp
@@ -25,7 +25,7 @@ namespace nnet
 template <typename T>
 varptr<T> sigmoid (varptr<T> x);
 
-//! tanh function: f(x) = (e^(2*x)+1)/(e^(2*x)-1)
+//! tanh function: f(x) = (e^(2*x)-1)/(e^(2*x)+1)
 template <typename T>
 varptr<T> tanh (varptr<T> x);
 
diff --git a/app/tenncor/src/utils/futils.ipp b/app/tenncor/src/utils/futils.ipp
index d1440c3..2265f4c 100644
--- a/app/tenncor/src/utils/futils.ipp
+++ b/app/tenncor/src/utils/futils.ipp
@@ -7,17 +7,85 @@
 namespace nnet
 {
 
+// saturates instead of overflowing
+template <typename T>
+inline T sigmoid_value (T x)
+{
+	return (T)1 / ((T)1 + std::exp(-x));
+}
+
+template <typename T>
+inline T tanh_value (T x)
+{
+	T etx = std::exp((T) 2 * x);
+	if (std::isinf(etx)) return (T) 1;
+	return (etx - (T) 1) / (etx + (T) 1);
+}
+
 template <typename T>
 varptr<T> sigmoid (varptr<T> x)
 {
-	return (T)1 / ((T)1 + exp(-x));
+	if (nullptr == x.get()) return nullptr;
+	if (constant<T>* xconst = dynamic_cast<constant<T>*>(x.get()))
+	{
+		std::vector<T> xvec = expose<T>(xconst);
+		std::transform(xvec.begin(), xvec.end(), xvec.begin(), sigmoid_value<T>);
+		return constant<T>::get(xvec, xconst->get_shape());
+	}
+	std::string opname = "sigmoid";
+	if (inode<T>* parent = unary_parent_search(x.get(), opname))
+	{
+		return parent;
+	}
+	varptr<T> out = immutable<T>::get(std::vector<inode<T>*>{x}, elementary_shaper,
+	new transfer_func<T>(
+	[](T* dest, std::vector<const T*> src, shape_io shape)
+	{
+		size_t n_elems = shape.outs_.n_elems();
+		std::transform(src[0], src[0] + n_elems, dest, sigmoid_value<T>);
+	}),
+	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
+	{
+		// sigmoid'(f(x)) = f'(x)*sigmoid(f(x))*(1-sigmoid(f(x)))
+		varptr<T> grad = args.front().second;
+		varptr<T> out = sigmoid(varptr<T>(args.front().first));
+		return grad * (out * ((T) 1 - out));
+	}, opname);
+	out->extract_metadata(x.get());
+	return out;
 }
 
 template <typename T>
 varptr<T> tanh (varptr<T> x)
 {
-	varptr<T> etx = exp((T) 2 * x);
-	return (etx - (T) 1) / (etx + (T) 1);
+	if (nullptr == x.get()) return nullptr;
+	if (constant<T>* xconst = dynamic_cast<constant<T>*>(x.get()))
+	{
+		std::vector<T> xvec = expose<T>(xconst);
+		std::transform(xvec.begin(), xvec.end(), xvec.begin(), tanh_value<T>);
+		return constant<T>::get(xvec, xconst->get_shape());
+	}
+	std::string opname = "tanh";
+	if (inode<T>* parent = unary_parent_search(x.get(), opname))
+	{
+		return parent;
+	}
+	varptr<T> out = immutable<T>::get(std::vector<inode<T>*>{x}, elementary_shaper,
+	new transfer_func<T>(
+	[](T* dest, std::vector<const T*> src, shape_io shape)
+	{
+		size_t n_elems = shape.outs_.n_elems();
+		std::transform(src[0], src[0] + n_elems, dest, tanh_value<T>);
+	}),
+	[](std::vector<std::pair<inode<T>*,inode<T>*> > args)
+	{
+		// tanh'(f(x)) = f'(x)*(1-tanh(f(x)))*(1+tanh(f(x)))
+		varptr<T> grad = args.front().second;
+		varptr<T> out = tanh(varptr<T>(args.front().first));
+		return grad * (((T) 1 - out) * ((T) 1 + out));
+	}, opname);
+	out->extract_metadata(x.get());
+	return out;
 }
 
 template <typename T>
-- 
2.43.0


From a979cf0578571f54dceaed163dddf23230ea8fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:48 +0000
Subject: [PATCH 37/52] fix: the gradient of a matrix product whose factors do
 not vary is zero

---
 app/tenncor/src/graph/operations/matmul.ipp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 3018076..9843aad 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -386,7 +386,8 @@ varptr<T> matmul (const varptr<T> a, const varptr<T> b, bool transposeA, bool tr
 		constant<T>* bconst = dynamic_cast<constant<T>*>(gradb.get());
 		if (aconst && *aconst == (T)0 && bconst && *bconst == (T)0)
 		{
-			return root;
+			// neither argument varies with the leaf, so neither does their product
+			return grada;
 		}
 		varptr<T> mA = matmul<T>(root, argb, false, true) * grada;
 		varptr<T> mB = matmul<T>(arga, root, true) * gradb;
-- 
2.43.0


From 7077658898755a6c094e9c6fefb92657b5372b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:27 +0000
Subject: [PATCH 38/52] fix: a belief network normalises the outputs of each
 batch element on its own

---
 app/rocnnet/src/models/db_net.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/app/rocnnet/src/models/db_net.cpp b/app/rocnnet/src/models/db_net.cpp
index 392ad59..02711c8 100644
--- a/app/rocnnet/src/models/db_net.cpp
+++ b/app/rocnnet/src/models/db_net.cpp
@@ -78,7 +78,12 @@ nnet::varptr<double> db_net::prop_up (nnet::inode<double>* input)
 	{
 		output = h->prop_up(output);
 	}
-	return nnet::softmax((*log_layer_)({ output }));
+	nnet::varptr<double> likelihood = nnet::exp((*log_layer_)({ output }));
+	// multiplying by ones totals each element in the batch on its own
+	nnet::varptr<double> ones = nnet::constant<double>::get(
+		std::vector<double>(n_output_ * n_output_, 1),
+		std::vector<size_t>{n_output_, n_output_});
+	return likelihood / nnet::matmul<double>(likelihood, ones);
 }
 
 pretrain_t db_net::pretraining_functions (
-- 
2.43.0


From 6224ab9ad8a7b01e7b323f29c87b6a7847f68f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:07:07 +0000
Subject: [PATCH 39/52] fix: refuse to multiply a matrix with a batch of
 matrices

The extents beyond the second were only compared when both operands had
some, so a single matrix times several read or wrote beyond its operands.
---
 app/tenncor/src/graph/operations/matmul.ipp | 27 +++++++++++----------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/app/tenncor/src/graph/operations/matmul.ipp b/app/tenncor/src/graph/operations/matmul.ipp
index 9843aad..a16805f 100644
--- a/app/tenncor/src/graph/operations/matmul.ipp
+++ b/app/tenncor/src/graph/operations/matmul.ipp
@@ -205,19 +205,20 @@ static inline tensorshape matmul_shaper (std::vector<tensorshape> shapes)
 			print_shape(t2s, ss);
 			throw std::logic_error(ss.str());
 		}
-		// check that remaining shape values are ones,
-		// otherwise one shape is larger than the other
-		auto it = rank1 > rank2 ? al.begin() : bl.begin();
-		auto et = rank1 > rank2 ? al.end() : bl.end();
-		if (!std::all_of(it + minend, et, [](size_t e) { return e == 1; }))
-		{
-			std::stringstream ss;
-			ss << "attempting to matrix multiple different sized shapes ";
-			print_shape(t1s, ss);
-			ss << " and ";
-			print_shape(t2s, ss);
-			throw std::logic_error(ss.str());
-		}
+	}
+	// check that remaining shape values are ones,
+	// otherwise one shape is larger than the other
+	const std::vector<size_t>& larger = rank1 > rank2 ? al : bl;
+	size_t common = std::max(minend, (size_t) 2);
+	if (larger.size() > common &&
+		!std::all_of(larger.begin() + common, larger.end(), [](size_t e) { return e == 1; }))
+	{
+		std::stringstream ss;
+		ss << "attempting to matrix multiple different sized shapes ";
+		print_shape(t1s, ss);
+		ss << " and ";
+		print_shape(t2s, ss);
+		throw std::logic_error(ss.str());
 	}
 
 	// get resulting shape
-- 
2.43.0


From 8396bd3bd256669f47c2ca0496a0f3b920db8470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 40/52] fix: a stop requested while a thread is about to wait
 for it is not lost

---
 app/tenncor/include/thread/stop_flag.hpp | 5 +++++
 app/tenncor/src/thread/stop_flag.cpp     | 4 ++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 3708213..7ef96d9 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <mutex>
 
 #pragma once
 #ifndef STOP_FLAG_HPP
@@ -21,9 +22,13 @@ public:
 
 	std::condition_variable& get_condition (void) { return cond_; }
 
+	std::mutex& get_mutex (void) { return mutex_; }
+
 private:
 	std::atomic<bool> flag_;
 
+	std::mutex mutex_; // a waiting thread either has yet to look at flag_ or is notified
+
 	std::condition_variable cond_;
 };
 
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 9d52bb0..0d1a228 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -14,6 +14,7 @@ thread_local stop_flag thread_stop_flag;
 
 void stop_flag::set (void)
 {
+	std::lock_guard<std::mutex> lk(mutex_);
 	flag_.store(true, std::memory_order_relaxed); // no constraints
 	cond_.notify_one(); // should have only stopped once per thread
 }
@@ -33,8 +34,7 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::mutex mut;
-	std::unique_lock<std::mutex> lk(mut);
+	std::unique_lock<std::mutex> lk(thread_stop_flag.get_mutex());
 	thread_stop_flag.get_condition().wait(lk,
 	[]{ return thread_stop_flag.is_set(); });
 }
-- 
2.43.0


From 5eb1a2450887e5e37be2307cba1ab9f5c515b50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:26 +0000
Subject: [PATCH 41/52] fix: stopping a thread that ended or was moved away
 touches no other thread

---
 app/tenncor/include/thread/stop_flag.hpp        |  5 +++--
 app/tenncor/include/thread/stoppable_thread.hpp |  6 +++---
 app/tenncor/src/thread/stop_flag.cpp            | 10 +++++-----
 3 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/app/tenncor/include/thread/stop_flag.hpp b/app/tenncor/include/thread/stop_flag.hpp
index 7ef96d9..e6fe2d2 100755
--- a/app/tenncor/include/thread/stop_flag.hpp
+++ b/app/tenncor/include/thread/stop_flag.hpp
@@ -4,6 +4,7 @@
 
 #include <atomic>
 #include <condition_variable>
+#include <memory>
 #include <mutex>
 
 #pragma once
@@ -25,7 +26,7 @@ public:
 	std::mutex& get_mutex (void) { return mutex_; }
 
 private:
-	std::atomic<bool> flag_;
+	std::atomic<bool> flag_{false};
 
 	std::mutex mutex_; // a waiting thread either has yet to look at flag_ or is notified
 
@@ -34,7 +35,7 @@ private:
 
 struct thread_interrupted {};
 
-extern thread_local stop_flag thread_stop_flag;
+extern thread_local std::shared_ptr<stop_flag> thread_stop_flag; // shared with whoever may stop the thread
 
 void stop_throw (void); // exit thread by throwing
 
diff --git a/app/tenncor/include/thread/stoppable_thread.hpp b/app/tenncor/include/thread/stoppable_thread.hpp
index eacc01c..ed24016 100755
--- a/app/tenncor/include/thread/stoppable_thread.hpp
+++ b/app/tenncor/include/thread/stoppable_thread.hpp
@@ -23,13 +23,13 @@ public:
 	template <typename FUNC, typename... ARGS>
 	explicit stoppable_thread (FUNC&& f, ARGS&&... args)
 	{
-		std::promise<stop_flag*> promise_flag;
+		std::promise<std::shared_ptr<stop_flag> > promise_flag;
 
 		internal_op_ = std::thread([&promise_flag,
 			f = std::forward<FUNC>(f),
 			args = std::make_tuple(std::forward<ARGS>(args)...)]
 		{
-			promise_flag.set_value(&thread_stop_flag);
+			promise_flag.set_value(thread_stop_flag);
 
 			try
 			{
@@ -59,7 +59,7 @@ public:
 private:
 	std::thread internal_op_;
 	
-	stop_flag* flag_;
+	std::shared_ptr<stop_flag> flag_;
 };
 
 }
diff --git a/app/tenncor/src/thread/stop_flag.cpp b/app/tenncor/src/thread/stop_flag.cpp
index 0d1a228..71e119d 100755
--- a/app/tenncor/src/thread/stop_flag.cpp
+++ b/app/tenncor/src/thread/stop_flag.cpp
@@ -10,7 +10,7 @@
 namespace nnet
 {
 
-thread_local stop_flag thread_stop_flag;
+thread_local std::shared_ptr<stop_flag> thread_stop_flag = std::make_shared<stop_flag>();
 
 void stop_flag::set (void)
 {
@@ -26,7 +26,7 @@ bool stop_flag::is_set (void) const
 
 void stop_throw (void)
 {
-	if (thread_stop_flag.is_set())
+	if (thread_stop_flag->is_set())
 	{
 		throw thread_interrupted(); // force worker to stop operation
 	}
@@ -34,9 +34,9 @@ void stop_throw (void)
 
 void stop_wait (void)
 {
-	std::unique_lock<std::mutex> lk(thread_stop_flag.get_mutex());
-	thread_stop_flag.get_condition().wait(lk,
-	[]{ return thread_stop_flag.is_set(); });
+	std::unique_lock<std::mutex> lk(thread_stop_flag->get_mutex());
+	thread_stop_flag->get_condition().wait(lk,
+	[]{ return thread_stop_flag->is_set(); });
 }
 
 }
-- 
2.43.0


From a701830cfd11cde34cb6ca3df978eec4d281385b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:20:39 +0000
Subject: [PATCH 42/52] fix: assigning over a running thread waits for it

---
 app/tenncor/src/thread/stoppable_thread.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/tenncor/src/thread/stoppable_thread.cpp b/app/tenncor/src/thread/stoppable_thread.cpp
index 1cd23b3..c430a00 100755
--- a/app/tenncor/src/thread/stoppable_thread.cpp
+++ b/app/tenncor/src/thread/stoppable_thread.cpp
@@ -27,6 +27,10 @@ stoppable_thread& stoppable_thread::operator = (stoppable_thread&& other) noexce
 {
 	if (this != &other)
 	{
+		if (joinable())
+		{
+			join(); // wait on work as when destroyed
+		}
 		internal_op_ = std::move(other.internal_op_);
 		flag_ = std::move(other.flag_);
 	}
-- 
2.43.0


From 5b32c8a5975076069e8e9941766220289d325bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:34:57 +0000
Subject: [PATCH 43/52] fix: holding a node constant again gives the existing
 node

---
 app/tenncor/src/graph/operations/elementary.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/operations/elementary.ipp b/app/tenncor/src/graph/operations/elementary.ipp
index 3a568b1..6c61dbc 100644
--- a/app/tenncor/src/graph/operations/elementary.ipp
+++ b/app/tenncor/src/graph/operations/elementary.ipp
@@ -457,7 +457,7 @@ template <typename T>
 varptr<T> as_constant (varptr<T> x)
 {
 	if (nullptr == x.get()) return nullptr;
-	std::string opname = "constant_immutable";
+	std::string opname = "const_immutable";
 	if (inode<T>* parent = unary_parent_search(x.get(), opname))
 	{
 		return parent;
-- 
2.43.0


From c4a51f83f36d91126b12fb9f1949bbe7963f8d2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 44/52] fix: destroying an observer with a missing last
 dependency does not throw

---
 app/tenncor/src/graph/react/iobserver.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 5e9ca90..25dcb2f 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -15,8 +15,8 @@ namespace nnet
 
 iobserver::~iobserver (void)
 {
-	size_t ndeps = dependencies_.size();
-	for (size_t i = 0; i < ndeps; i++)
+	// removing a dependency can shrink dependencies_
+	for (size_t i = 0; i < dependencies_.size(); i++)
 	{
 		remove_dependency(i);
 	}
-- 
2.43.0


From ba2028ef9bcae1cbecc7bbf1480bb62c62ff8253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 45/52] fix: copied observers keep the indices of their
 dependencies

---
 app/tenncor/src/graph/react/iobserver.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 25dcb2f..7b213b6 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -178,7 +178,7 @@ void iobserver::copy_helper (const iobserver& other)
 	dependencies_.clear();
 	for (subject* dep : other.dependencies_)
 	{
-		if (dep) add_dependency(dep);
+		add_dependency(dep); // missing dependencies keep their index
 	}
 }
 
-- 
2.43.0


From 0d2ad63deb20fdab01c158dec402d78ba3cefcb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:20 +0000
Subject: [PATCH 46/52] fix: dependents that die with each other are deleted
 once

---
 app/tenncor/src/graph/react/iobserver.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/app/tenncor/src/graph/react/iobserver.cpp b/app/tenncor/src/graph/react/iobserver.cpp
index 7b213b6..5698fe7 100644
--- a/app/tenncor/src/graph/react/iobserver.cpp
+++ b/app/tenncor/src/graph/react/iobserver.cpp
@@ -22,10 +22,10 @@ iobserver::~iobserver (void)
 	}
 
 	// kill all descendent dependents
-	std::unordered_set<subject*> deps = ondeath_deps_;
-	for (subject* dep : deps)
+	// deleting one can delete others, each takes itself off the set
+	while (false == ondeath_deps_.empty())
 	{
-		delete dep;
+		delete *ondeath_deps_.begin();
 	}
 }
 
-- 
2.43.0


From abf4bd41957e2a7b1591d938c2857f2d19605ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:40 +0000
Subject: [PATCH 47/52] fix: a subject that dies without audience survives
 being moved from

---
 app/tenncor/include/graph/react/subject.hpp |  6 ++++++
 app/tenncor/src/graph/react/subject.cpp     | 23 ++++++++++-----------
 2 files changed, 17 insertions(+), 12 deletions(-)

diff --git a/app/tenncor/include/graph/react/subject.hpp b/app/tenncor/include/graph/react/subject.hpp
index bad72d9..38c651b 100644
--- a/app/tenncor/include/graph/react/subject.hpp
+++ b/app/tenncor/include/graph/react/subject.hpp
@@ -100,8 +100,14 @@ protected:
 	std::unordered_map<iobserver*, std::unordered_set<size_t> > audience_;
 
 private:
+	//! move other's audience to this
+	void take_audience (subject& other);
+
 	//! observers that kills this on death
 	std::unordered_set<iobserver*> killers_;
+
+	//! audience is being moved to another subject
+	bool moving_ = false;
 };
 
 }
diff --git a/app/tenncor/src/graph/react/subject.cpp b/app/tenncor/src/graph/react/subject.cpp
index fc298da..80adcef 100644
--- a/app/tenncor/src/graph/react/subject.cpp
+++ b/app/tenncor/src/graph/react/subject.cpp
@@ -46,16 +46,7 @@ subject& subject::operator = (subject&& other)
 {
 	if (this != &other)
 	{
-		std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
-		for (auto& audpair : temp)
-		{
-			iobserver* aud = audpair.first;
-			for (size_t idx : audpair.second)
-			{
-				aud->replace_dependency(this, idx);
-			}
-		}
-		other.audience_.clear();
+		take_audience(other);
 	}
 	return *this;
 }
@@ -135,6 +126,13 @@ subject::subject (const subject&) {}
 
 subject::subject (subject&& other)
 {
+	take_audience(other);
+}
+
+void subject::take_audience (subject& other)
+{
+	// other is being moved, so it survives losing its audience
+	other.moving_ = true;
 	std::unordered_map<iobserver*, std::unordered_set<size_t> > temp = other.audience_;
 	for (auto& audpair : temp)
 	{
@@ -145,6 +143,7 @@ subject::subject (subject&& other)
 		}
 	}
 	other.audience_.clear();
+	other.moving_ = false;
 }
 
 void subject::attach (iobserver* viewer, size_t idx)
@@ -178,7 +177,7 @@ if (rocnnet_record::record_status::rec_good)
 #endif /* EDGE_RCD */
 
 	audience_.erase(viewer);
-	if (audience_.empty())
+	if (audience_.empty() && false == moving_)
 	{
 		death_on_noparent();
 	}
@@ -205,7 +204,7 @@ if (rocnnet_record::record_status::rec_good)
 			audience_.erase(viewer);
 		}
 	}
-	if (audience_.empty())
+	if (audience_.empty() && false == moving_)
 	{
 		death_on_noparent();
 	}
-- 
2.43.0


From ab2fc5e6bafe8661ac38db8c6edf33d9d2eb2994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:15 +0000
Subject: [PATCH 48/52] fix: the shareable cache's header includes what it uses

With recording switched on the library did not compile.
---
 app/tenncor/include/thread/shareable_cache.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index e95a484..2de9b59 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -6,6 +6,7 @@
 //  Copyright © 2017 Mingkai Chen. All rights reserved.
 //
 
+#include <condition_variable>
 #include <mutex>
 #include <memory>
 #include <unordered_map>
-- 
2.43.0


From 39bbb76144a30190dc489905447b45d7c4c99715 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:56 +0000
Subject: [PATCH 49/52] fix: reading a tensor into another allocator returns
 its memory to the old one

The memory held was given back to the allocator being switched to, and a
message that is refused left the tensor with the wrong allocator.
---
 app/tenncor/src/tensor/tensor.ipp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/app/tenncor/src/tensor/tensor.ipp b/app/tenncor/src/tensor/tensor.ipp
index aab7e65..a35c799 100644
--- a/app/tenncor/src/tensor/tensor.ipp
+++ b/app/tenncor/src/tensor/tensor.ipp
@@ -538,8 +538,14 @@ bool tensor<T>::from_proto (const tenncor::tensor_proto& other)
 template <typename T>
 bool tensor<T>::from_proto (const tenncor::tensor_proto& other, size_t alloc_id)
 {
-	set_allocator(alloc_id);
-	return from_proto(other);
+	// memory held goes back to the allocator it is from
+	tensor<T> temp(tensorshape(), alloc_id);
+	bool success = temp.from_proto(other);
+	if (success)
+	{
+		*this = std::move(temp);
+	}
+	return success;
 }
 
 // slice along the first dimension
-- 
2.43.0


From 9811a401473981cd306c2cb8a014ed09e8bfa99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:58 +0000
Subject: [PATCH 50/52] fix: viewer subscriptions end when asked to and when
 the server stops

---
 .../edgeinfo/grpc_vis/gui_notifier.hpp        |  8 ++++
 .../include/thread/shareable_cache.hpp        |  5 ++-
 .../src/edgeinfo/grpc_vis/gui_notifier.cpp    | 44 ++++++++++++++-----
 app/tenncor/src/thread/shareable_cache.ipp    |  7 ++-
 4 files changed, 51 insertions(+), 13 deletions(-)

diff --git a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
index 6f27490..de8ae91 100644
--- a/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
+++ b/app/tenncor/include/edgeinfo/grpc_vis/gui_notifier.hpp
@@ -58,8 +58,16 @@ private:
 
 	edgecache_t* edge_src_;
 
+	void subscribe (std::string client);
+
+	bool is_subscribed (std::string client) const;
+
 	// own
 	std::unordered_set<std::string> subscriptions_;
+
+	bool closed_ = false; // no more subscriptions
+
+	mutable std::mutex mutex_; // service functions run concurrently
 };
 
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src);
diff --git a/app/tenncor/include/thread/shareable_cache.hpp b/app/tenncor/include/thread/shareable_cache.hpp
index 2de9b59..2520170 100644
--- a/app/tenncor/include/thread/shareable_cache.hpp
+++ b/app/tenncor/include/thread/shareable_cache.hpp
@@ -54,12 +54,15 @@ public:
 	// assert that iter's data has been read
 	// grab data from iter->next_ and increment iter if possible
 	// if value is unavailable wait until the next value is available and return unset optional
-	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter) const;
+	// if keep_waiting is given and false, return unset optional without waiting
+	optional<T> get_latest (std::shared_ptr<cache_node<T> >& iter,
+		std::function<bool(void)> keep_waiting = nullptr) const;
 
 	// add data mapped by key remove previous iterators mapped by it if necessary
 	void add_latest (T data);
 
 	// escape get_latest's wait by forceable notifying cond_
+	// consumers to escape must have their keep_waiting set to false beforehand
 	void escape_wait (void);
 
 private:
diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index 85c5068..f686bf8 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -20,13 +20,13 @@ grpc::Status gui_notifier::SubscribeNode (grpc::ServerContext*,
 	grpc::ServerWriter<visor::NodeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
+	auto subscribed = [this, &cli_id]() { return is_subscribed(cli_id); };
 	std::shared_ptr<nnet::cache_node<visor::NodeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter))
+		if (optional<visor::NodeMessage> msg = node_src_->get_latest(iter, subscribed))
 		{
 			writer->Write(*msg);
 		}
@@ -39,13 +39,13 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 	grpc::ServerWriter<visor::EdgeMessage>* writer)
 {
 	std::string cli_id = client->id();
-	subscriptions_.emplace(cli_id);
-	auto et = subscriptions_.end();
+	subscribe(cli_id);
+	auto subscribed = [this, &cli_id]() { return is_subscribed(cli_id); };
 	std::shared_ptr<nnet::cache_node<visor::EdgeMessage> > iter = nullptr;
 
-	while (et != subscriptions_.find(cli_id))
+	while (subscribed())
 	{
-		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter))
+		if (optional<visor::EdgeMessage> msg = edge_src_->get_latest(iter, subscribed))
 		{
 			writer->Write(*msg);
 		}
@@ -56,7 +56,12 @@ grpc::Status gui_notifier::SubscribeEdge (grpc::ServerContext*,
 grpc::Status gui_notifier::EndSubscription (grpc::ServerContext*,
 	const visor::StringId* client, visor::Empty*)
 {
-	subscriptions_.erase(client->id());
+	{
+		std::lock_guard<std::mutex> lk(mutex_);
+		subscriptions_.erase(client->id());
+	}
+	node_src_->escape_wait();
+	edge_src_->escape_wait();
 	return grpc::Status::OK;
 }
 
@@ -70,11 +75,30 @@ grpc::Status gui_notifier::GetNodeData (grpc::ServerContext* context,
 
 void gui_notifier::clear_subscriptions (void)
 {
-	subscriptions_.clear();
+	{
+		std::lock_guard<std::mutex> lk(mutex_);
+		closed_ = true;
+		subscriptions_.clear();
+	}
 	node_src_->escape_wait();
 	edge_src_->escape_wait();
 }
 
+void gui_notifier::subscribe (std::string client)
+{
+	std::lock_guard<std::mutex> lk(mutex_);
+	if (false == closed_)
+	{
+		subscriptions_.emplace(client);
+	}
+}
+
+bool gui_notifier::is_subscribed (std::string client) const
+{
+	std::lock_guard<std::mutex> lk(mutex_);
+	return subscriptions_.end() != subscriptions_.find(client);
+}
+
 void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_src)
 {
 	gui_notifier service(node_src, edge_src);
diff --git a/app/tenncor/src/thread/shareable_cache.ipp b/app/tenncor/src/thread/shareable_cache.ipp
index 65dd0d2..8a7a09b 100644
--- a/app/tenncor/src/thread/shareable_cache.ipp
+++ b/app/tenncor/src/thread/shareable_cache.ipp
@@ -92,7 +92,8 @@ shareable_cache<K, T>::shareable_cache (std::function<K(const T&)> hasher) :
 	hasher_(hasher) {}
 
 template <typename K, typename T>
-optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter) const
+optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >& iter,
+	std::function<bool(void)> keep_waiting) const
 {
 	std::unique_lock<std::mutex> locker(mutex_);
 
@@ -119,7 +120,7 @@ optional<T> shareable_cache<K, T>::get_latest (std::shared_ptr<cache_node<T> >&
 		value = iter->next_->data_;
 		iter = iter->next_;
 	}
-	if (!value)
+	if (!value && (!keep_waiting || keep_waiting()))
 	{
 		cond_.wait(locker); // no current wait to check for spurious wait
 	}
@@ -146,6 +147,8 @@ void shareable_cache<K, T>::add_latest (T data)
 template <typename K, typename T>
 void shareable_cache<K, T>::escape_wait (void)
 {
+	// consumers either have yet to look at keep_waiting or are notified
+	std::unique_lock<std::mutex> locker(mutex_);
 	cond_.notify_all();
 }
 
-- 
2.43.0


From 4752111657a96244bacbe899ed76bb05b04e9756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:59 +0000
Subject: [PATCH 51/52] fix: recorder whose address is taken does not crash

---
 app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
index f686bf8..d22f6c5 100644
--- a/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
+++ b/app/tenncor/src/edgeinfo/grpc_vis/gui_notifier.cpp
@@ -108,6 +108,11 @@ void spawn_server (std::string addr, nodecache_t& node_src, edgecache_t& edge_sr
 	builder.RegisterService(&service);
 
 	std::unique_ptr<grpc::Server> server(builder.BuildAndStart());
+	if (nullptr == server)
+	{
+		std::cerr << "server failed to listen on " << addr << std::endl;
+		return;
+	}
 	std::cout << "server listening on " << addr << std::endl;
 	std::thread server_wait([&server]
 	{
-- 
2.43.0


From e5b04bd0bdb6e4fae94d1de5edc4be5e0bd5158a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:08:39 +0000
Subject: [PATCH 52/52] fix: reductions by different unnamed functions are
 different nodes

---
 app/tenncor/include/graph/operations/operations.hpp | 8 ++++++--
 app/tenncor/src/graph/operations/transform.ipp      | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/app/tenncor/include/graph/operations/operations.hpp b/app/tenncor/include/graph/operations/operations.hpp
index e342c0b..c9d1d0d 100644
--- a/app/tenncor/include/graph/operations/operations.hpp
+++ b/app/tenncor/include/graph/operations/operations.hpp
@@ -227,9 +227,11 @@ varptr<T> extend (const varptr<T> a, size_t index, size_t multiplier);
 
 //! compresses data along dimensions specified by index
 //! unspecified index compresses all elements in the tensor (output is a scalar)
+//! nodes are shared between calls of the same name, so name must identify collector;
+//! unnamed calls are never shared
 template <typename T>
 varptr<T> compress (const varptr<T> a, AGGREGATE<T> collector,
-	optional<size_t> index, std::string name = "compress");
+	optional<size_t> index, std::string name = "");
 
 // Dimensionality Reduction Functions (Wrappers for compress)
 //! compress tensor by taking maximum value across specified dimension
@@ -251,9 +253,11 @@ varptr<T> reduce_mean (const varptr<T> a, optional<size_t> dimension = optional<
 //! by taking the index using the compare function
 //! unspecified dimension compresses all elements in the tensor (output is a scalar)
 //! takes left argument of compare if compare evaluates to true
+//! nodes are shared between calls of the same name, so name must identify search;
+//! unnamed calls are never shared
 template <typename T>
 varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
-	optional<size_t> dimension, std::string name = "argcompress");
+	optional<size_t> dimension, std::string name = "");
 
 //! obtains the indices of the maximum value across specified dimension
 //! -1 index looks returns a vector coordinate specifying max value in tensor a
diff --git a/app/tenncor/src/graph/operations/transform.ipp b/app/tenncor/src/graph/operations/transform.ipp
index 53242d0..dc4f384 100644
--- a/app/tenncor/src/graph/operations/transform.ipp
+++ b/app/tenncor/src/graph/operations/transform.ipp
@@ -182,8 +182,10 @@ varptr<T> compress (const varptr<T> a, AGGREGATE<T> collector,
 	optional<size_t> index, std::string name)
 {
 	if (nullptr == a.get()) return nullptr;
+	bool shared = !name.empty();
+	if (!shared) name = "compress";
 	std::string imm_name = (bool) index ? nnutils::formatter() << name << "_" << *index : name;
-	if (inode<T>* parent = unary_parent_search(a.get(), imm_name))
+	if (inode<T>* parent = shared ? unary_parent_search(a.get(), imm_name) : nullptr)
 	{
 		return parent;
 	}
@@ -345,8 +347,10 @@ varptr<T> arg_compress (const varptr<T> a, REDUCE<T> search,
 	optional<size_t> dimension, std::string name)
 {
 	if (nullptr == a.get()) return nullptr;
+	bool shared = !name.empty();
+	if (!shared) name = "argcompress";
 	std::string imm_name = (bool) dimension ? nnutils::formatter() << name << "_" << *dimension : name;
-	if (inode<T>* parent = unary_parent_search(a.get(), imm_name))
+	if (inode<T>* parent = shared ? unary_parent_search(a.get(), imm_name) : nullptr)
 	{
 		return parent;
 	}
-- 
2.43.0

