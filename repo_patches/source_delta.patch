From 222227a894502f37b885e2a0e101ec59a345c18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 01/38] fix: Interval::overlaps only compares bounds, touching
 intervals always overlap

---
 include/Simu/math/Interval.hpp | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/include/Simu/math/Interval.hpp b/include/Simu/math/Interval.hpp
index fdcb49d..aebfb8f 100644
--- a/include/Simu/math/Interval.hpp
+++ b/include/Simu/math/Interval.hpp
@@ -55,22 +55,9 @@ public:
 
     auto overlaps(const Interval& other) const
     {
-        // divisions by 2 can be factorised out and removed from both sides.
-        // Geometrical interpretation is easier with:
-        //
-        // span = (max - min)/2 + (other.max - other.min)/2
-        //      is the sum of half widths
-        //
-        // dist = std::abs((max_ + min_)/2 - (other.max_ + other.min_)/2)
-        //      is the absolute distance between midpoints.
-        //
-        // we have intersection if
-        // dist <= span, or equivalently if 2*dist <= 2*span to remove divisions
-
-        T span = (max_ - min_) + (other.max_ - other.min_);
-        T dist = std::abs((max_ + min_) - (other.max_ + other.min_));
-
-        return dist <= span;
+        // Only compare the bounds, any arithmetic on them could round or overflow:
+        // touching intervals must overlap.
+        return min_ <= other.max_ && other.min_ <= max_;
     }
 
 private:
-- 
2.43.0


From 8e68b1b90c4008573b8432432d3662f8313a8344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:45 +0000
Subject: [PATCH 02/38] fix: the bounding box of no vertices is invalid instead
 of uninitialised

---
 include/Simu/physics/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/BoundingBox.hpp b/include/Simu/physics/BoundingBox.hpp
index 391be1a..4ceb808 100644
--- a/include/Simu/physics/BoundingBox.hpp
+++ b/include/Simu/physics/BoundingBox.hpp
@@ -128,7 +128,7 @@ private:
 
 
 template <VertexIterator2D It>
-BoundingBox::BoundingBox(It begin, It end)
+BoundingBox::BoundingBox(It begin, It end) : BoundingBox{}
 {
     if (begin == end)
         return;
-- 
2.43.0


From 73c4b9815de9a19a3e9825f619f36955cd22e6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 03/38] fix: RTree::erase does not reorder the elements that
 are still to be iterated

---
 include/Simu/physics/RTree.hpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 5f70f3a..babb62b 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -340,7 +340,9 @@ private:
         }
     }
 
-    void refit(Node* node)
+    // Rotations change the iteration order, they are not allowed when erasing:
+    //  erase() must return an iterator to the next element not yet visited.
+    void refit(Node* node, bool allowRotations = true)
     {
         // TODO: Benchmark and profile, we may not need to check rotations
         //  for all nodes whose bounds have changed.
@@ -353,7 +355,8 @@ private:
                 return;
 
             node->bounds = newBounds;
-            checkRotations(node);
+            if (allowRotations)
+                checkRotations(node);
 
             node = node->parent;
         }
@@ -469,14 +472,14 @@ private:
             if (sibling == nullptr || sibling->isLeaf())
             {
                 node->handle() = nullptr;
-                refit(node->parent);
+                refit(node->parent, false);
             }
             else
             {
                 node->replaceBy(sibling->left);
                 sibling->replaceBy(sibling->right);
 
-                refit(node->parent);
+                refit(node->parent, false);
 
                 sibling->left  = nullptr;
                 sibling->right = nullptr;
@@ -487,7 +490,7 @@ private:
         {
             sibling->handle() = nullptr;
             node->parent->replaceBy(sibling);
-            refit(node->parent->parent);
+            refit(node->parent->parent, false);
 
             node->handle() = nullptr;
             deleteNode(node->parent);
-- 
2.43.0


From ff30d95680468a1a1896ede961a00cd8584f42e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:23 +0000
Subject: [PATCH 04/38] fix: RTree::insert dereferenced null when the area of a
 box overflows

---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index babb62b..354e7e2 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -433,7 +433,7 @@ private:
         std::priority_queue<NodeCost, std::vector<NodeCost>, NodeCostCmp> queue{};
         queue.emplace(root_, 0.f);
 
-        NodeCost best = {nullptr, INFINITY};
+        NodeCost best = {root_, INFINITY};
         while (!queue.empty())
         {
             NodeCost current = queue.top();
-- 
2.43.0


From 03f9694cbe1547b1758a1da0deffb7b5f0932574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:58 +0000
Subject: [PATCH 05/38] fix: RTree's move constructor left the moved-from tree
 with an uninitialised root

---
 include/Simu/physics/RTree.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/RTree.hpp b/include/Simu/physics/RTree.hpp
index 354e7e2..ea3f864 100644
--- a/include/Simu/physics/RTree.hpp
+++ b/include/Simu/physics/RTree.hpp
@@ -76,7 +76,7 @@ public:
     RTree(const RTree& other)            = delete;
     RTree& operator=(const RTree& other) = delete;
 
-    RTree(RTree&& other) noexcept { *this = std::move(other); }
+    RTree(RTree&& other) noexcept : RTree{} { *this = std::move(other); }
     RTree& operator=(RTree&& other) noexcept
     {
         std::swap(alloc_, other.alloc_);
-- 
2.43.0


From 12da6990ec39465c8127b6e35b23ad54dacf0008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:45 +0000
Subject: [PATCH 06/38] fix: LcpSolver returns the least wrong case instead of
 zero when rounding rejects them all

---
 include/Simu/math/Matrix.inl.hpp | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index b152174..af649a7 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -563,7 +563,24 @@ public:
         if (all(-b >= Vector<T, 2>::filled(0.f)))
             return x;
 
-        return x; // all null
+        // b is on the boundary between two cases and rounding rejected both,
+        //  the solution is the candidate that is rejected by the least.
+        T leastError = residual(x, b);
+        for (Vector<T, 2> candidate :
+             {solver.solve(b),
+              Vector<T, 2>{b[0] * invA11, 0.f},
+              Vector<T, 2>{0.f, b[1] * invA22}})
+        {
+            candidate     = std::max(candidate, Vector<T, 2>{});
+            const T error = residual(candidate, b);
+            if (error < leastError)
+            {
+                leastError = error;
+                x          = candidate;
+            }
+        }
+
+        return x;
     }
 
     Matrix<T, 2, 2> original() const { return solver.original(); }
@@ -571,6 +588,17 @@ public:
 
 private:
 
+    // How far x >= 0, w = Ax - b >= 0 and x*w = 0 are from holding
+    template <class U>
+    T residual(const Vector<T, 2>& x, const Vector<U, 2>& b) const
+    {
+        const Vector<T, 2> w = solver.A_ * x - b;
+        return std::max(
+            std::abs(std::min(x[0] * solver.A_(0, 0), w[0])),
+            std::abs(std::min(x[1] * solver.A_(1, 1), w[1]))
+        );
+    }
+
     Solver<T, 2> solver;
     float        invA11;
     float        invA22;
-- 
2.43.0


From 1d4bed5b8623cac1cf9abe014ae7812a9c6ff355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:00 +0000
Subject: [PATCH 07/38] fix: TriangleBarycentric does not throw when the point
 is almost on an edge

---
 src/Simu/math/BarycentricCoordinates.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/Simu/math/BarycentricCoordinates.cpp b/src/Simu/math/BarycentricCoordinates.cpp
index 3537c27..ac3d430 100644
--- a/src/Simu/math/BarycentricCoordinates.cpp
+++ b/src/Simu/math/BarycentricCoordinates.cpp
@@ -63,8 +63,14 @@ TriangleBarycentric::TriangleBarycentric(Vec2 A, Vec2 B, Vec2 C, Vec2 Q)
         {
             if ((u >= 0) && (v >= 0) && (w >= 0))
                 closestPoint = Q;
-            else
-                throw simu::Exception{"Could not determine the closest point"};
+            else // Q is almost on an edge, rounding rejected all the regions
+            {
+                closestPoint = AB.closestPoint;
+                for (const LineBarycentric& edge : {BC, CA})
+                    if (normSquared(edge.closestPoint - Q)
+                        < normSquared(closestPoint - Q))
+                        closestPoint = edge.closestPoint;
+            }
         }
     }
 }
-- 
2.43.0


From d1d34b9f657e4982645afc12f23c4da5ae27d02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 08/38] fix: Gjk missed collisions when the origin was almost
 on the last edge of the simplex

---
 include/Simu/math/Gjk.inl.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index 9d18d5a..aa8d2e1 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -83,7 +83,7 @@ Vec2 Simplex::nextDirection() const
         {
             Vec2  edge = pointStack[0] - pointStack[1];
             float k    = cross(pointStack[1], pointStack[0]);
-            if (k == 0.f)
+            if (all(edge == Vec2::filled(0.f)))
                 return perp(initialSearchDir_);
 
             return perp(edge, k < 0);
@@ -115,9 +115,10 @@ bool Simplex::hasPoint(Vertex v) const
 
 bool Simplex::containsOrigin() const
 {
+    // The origin is never past P1-P2, pointStack[0] was searched from that edge
+    //  towards the origin.
     return dot(pointStack[0], normals[0]) >= 0.f
-           && dot(pointStack[0], normals[1]) >= 0.f
-           && dot(pointStack[1], normals[2]) >= 0.f;
+           && dot(pointStack[0], normals[1]) >= 0.f;
 }
 
 
@@ -185,7 +186,7 @@ Gjk<T>::Gjk(const T& first, const T& second, Vec2 initialDir)
 
         if (simplex_.nIterations > 2)
         {
-            if (simplex_.containsOrigin())
+            if (!done_ && simplex_.containsOrigin())
             {
                 areColliding_ = true;
                 done_         = true;
-- 
2.43.0


From 604632eb8993052a10bff36306b150e24b3592f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:48 +0000
Subject: [PATCH 09/38] fix: Gjk::separation kept searching from the wrong
 edge, it was not the minimum translation

---
 include/Simu/math/Gjk.inl.hpp | 42 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 23 deletions(-)

diff --git a/include/Simu/math/Gjk.inl.hpp b/include/Simu/math/Gjk.inl.hpp
index aa8d2e1..6b509be 100644
--- a/include/Simu/math/Gjk.inl.hpp
+++ b/include/Simu/math/Gjk.inl.hpp
@@ -206,34 +206,30 @@ Vec2 Gjk<T>::separation()
     if (areColliding())
         return Vec2{};
 
-    while (true)
+    // closest is the point of from -> to that is the closest to the origin
+    Vertex from    = simplex_.pointStack[0];
+    Vertex to      = from;
+    Vec2   closest = from;
+
+    while (any(closest != Vec2::filled(0.f)))
     {
-        Vec2   dir = simplex_.nextDirection();
-        Vertex v   = furthestVertexInDirection(dir);
+        Vertex v = furthestVertexInDirection(-closest);
+
+        Vec2 closestFrom = LineBarycentric{from, v, Vec2{}}.closestPoint;
+        Vec2 closestTo   = LineBarycentric{to, v, Vec2{}}.closestPoint;
 
-        if (simplex_.hasPoint(v))
+        bool keepTo = normSquared(closestTo) < normSquared(closestFrom);
+        Vec2 next   = keepTo ? closestTo : closestFrom;
+
+        if (!(normSquared(next) < normSquared(closest)))
             break;
-        else
-            simplex_.pushPoint(v);
-    }
 
-    switch (simplex_.nIterations)
-    {
-        case 1: return -simplex_.pointStack[0];
-        case 2:
-            return -LineBarycentric{
-                simplex_.pointStack[0], simplex_.pointStack[1], Vec2{0, 0}
-            }
-                        .closestPoint;
-        default:
-            return -TriangleBarycentric{
-                simplex_.pointStack[0],
-                simplex_.pointStack[1],
-                simplex_.pointStack[2],
-                Vec2{0.f, 0.f}
-            }
-                        .closestPoint;
+        from    = keepTo ? to : from;
+        to      = v;
+        closest = next;
     }
+
+    return -closest;
 }
 
 template <Geometry T>
-- 
2.43.0


From 972af528069698f66ded57e2f38540a9edd4b98e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 10/38] fix: contacts of steep incident edges were clipped
 away, overlapping bodies had no contact

---
 include/Simu/physics/ContactManifold.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/ContactManifold.hpp b/include/Simu/physics/ContactManifold.hpp
index ef76c5a..c657556 100644
--- a/include/Simu/physics/ContactManifold.hpp
+++ b/include/Simu/physics/ContactManifold.hpp
@@ -224,11 +224,21 @@ private:
 
         Vec2 n = -contactNormal_;
 
-        Vertex contact1 = contactEdges[inc].clipInside(previousOfRef);
+        // the incident edge runs opposite to the reference edge, only its ends
+        // that are outside of the neighbors of the reference edge are clipped.
+        Edge incEdge = contactEdges[inc];
+
+        Vertex contact1 = incEdge.to();
+        if (previousOfRef.isOutside(contact1))
+            contact1 = incEdge.clipInside(previousOfRef);
+
         if (dot(contact1 - contactEdges[ref].from(), n) >= 0.f)
             contacts_[inc][nContacts_++] = contact1;
 
-        Vertex contact2 = contactEdges[inc].clipInside(nextOfRef);
+        Vertex contact2 = incEdge.from();
+        if (nextOfRef.isOutside(contact2))
+            contact2 = incEdge.clipInside(nextOfRef);
+
         if (dot(contact2 - contactEdges[ref].from(), n) >= 0.f)
         {
             contacts_[inc][nContacts_++] = contact2;
-- 
2.43.0


From 0e2e665d72227359708eac753af199f2f9c6b0d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:07 +0000
Subject: [PATCH 11/38] fix: makeUnique of arrays did not compile

---
 include/Simu/utility/Memory.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index d52c569..6d2abda 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -76,7 +76,7 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
     A                               a{alloc};
 
     Deleter d = [=](void* arr) mutable {
-        U* typed = static_cast<T*>(arr);
+        U* typed = static_cast<U*>(arr);
 
         for (std::size_t i = 0; i < size; ++i)
             std::allocator_traits<A>::destroy(a, typed + i);
@@ -84,12 +84,12 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
         std::allocator_traits<A>::deallocate(a, typed, size);
     };
 
-    T* arr = std::allocator_traits<A>::allocate(a, size);
+    U* arr = std::allocator_traits<A>::allocate(a, size);
 
     for (std::size_t i = 0; i < size; ++i)
         std::allocator_traits<A>::construct(a, arr + i);
 
-    return {arr, d};
+    return UniquePtr<T>{arr, d};
 }
 
 template <
-- 
2.43.0


From f829e9fd0d8b48ebfe404edf4f687cf723091741 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:08 +0000
Subject: [PATCH 12/38] fix: makeUnique leaked the storage of objects whose
 constructor throws

---
 include/Simu/utility/Memory.hpp | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 6d2abda..1e1510f 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -60,7 +60,15 @@ UniquePtr<T> makeUnique(const Alloc& alloc, Args&&... args)
     };
 
     T* obj = std::allocator_traits<A>::allocate(a, 1);
-    std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    try
+    {
+        std::allocator_traits<A>::construct(a, obj, std::forward<Args>(args)...);
+    }
+    catch (...)
+    {
+        std::allocator_traits<A>::deallocate(a, obj, 1);
+        throw;
+    }
     return {obj, d};
 }
 
@@ -86,8 +94,20 @@ UniquePtr<T> makeUnique(const Alloc& alloc, std::size_t size)
 
     U* arr = std::allocator_traits<A>::allocate(a, size);
 
-    for (std::size_t i = 0; i < size; ++i)
-        std::allocator_traits<A>::construct(a, arr + i);
+    std::size_t built = 0;
+    try
+    {
+        for (; built < size; ++built)
+            std::allocator_traits<A>::construct(a, arr + built);
+    }
+    catch (...)
+    {
+        while (built > 0)
+            std::allocator_traits<A>::destroy(a, arr + --built);
+
+        std::allocator_traits<A>::deallocate(a, arr, size);
+        throw;
+    }
 
     return UniquePtr<T>{arr, d};
 }
-- 
2.43.0


From 04b22e8a243ca3cd620bed4993e5d94a23f61bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:42 +0000
Subject: [PATCH 13/38] hook: SIMU_VERIF_SYSTEM_ALLOCATOR lets sanitizers track
 the objects of FreeListAllocator

---
 include/Simu/utility/Memory.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/Simu/utility/Memory.hpp b/include/Simu/utility/Memory.hpp
index 1e1510f..b31055f 100644
--- a/include/Simu/utility/Memory.hpp
+++ b/include/Simu/utility/Memory.hpp
@@ -343,6 +343,11 @@ FreeListAllocator<T, sz>::allocate(size_type n)
     if (n == 0)
         return nullptr;
 
+#ifdef SIMU_VERIF_SYSTEM_ALLOCATOR
+    // sanitizers see the lifetime of every object
+    return static_cast<pointer>(::operator new(n * sizeof(T), std::align_val_t{alignof(T)}));
+#endif
+
     for (auto& block : *blocks_)
     {
         pointer p = block.template allocate<T>(n);
@@ -359,6 +364,10 @@ FreeListAllocator<T, sz>::allocate(size_type n)
 template <class T, std::size_t sz>
 void FreeListAllocator<T, sz>::deallocate(pointer p, size_type n) noexcept
 {
+#ifdef SIMU_VERIF_SYSTEM_ALLOCATOR
+    return ::operator delete(p, std::align_val_t{alignof(T)});
+#endif
+
     for (auto it = blocks_->begin(); it != blocks_->end(); ++it)
     {
         auto& block = *it;
-- 
2.43.0


From 5b929786bac5789265f1de4990891189fd984589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:42 +0000
Subject: [PATCH 14/38] fix: moving a ScopedTimer lost the measure

---
 include/Simu/physics/Profiler.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index b11ab3e..2dbf86e 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -88,10 +88,9 @@ public:
 
     ScopedTimer(const ScopedTimer&) = delete;
     ScopedTimer(ScopedTimer&& other)
+        : entry_{other.entry_}, start_{other.start_}, partial_{other.partial_}
     {
-        std::swap(entry_, other.entry_);
-        entry_   = other.entry_;
-        partial_ = other.partial_;
+        other.entry_ = nullptr;
     }
 
     ~ScopedTimer()
-- 
2.43.0


From e01349d7d1000da16e393115fdaf5ac2a5e7b7a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:09 +0000
Subject: [PATCH 15/38] fix: SIMU_NO_PROFILER did not compile

---
 include/Simu/physics/Profiler.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/Simu/physics/Profiler.hpp b/include/Simu/physics/Profiler.hpp
index 2dbf86e..a76c3e6 100644
--- a/include/Simu/physics/Profiler.hpp
+++ b/include/Simu/physics/Profiler.hpp
@@ -111,6 +111,12 @@ private:
     TimePoint  start_;
     bool       partial_;
 
+#else
+
+public:
+
+    ScopedTimer(TimeEntry&, bool) {}
+
 #endif
 };
 
-- 
2.43.0


From 59c8cfa22e2eb02cc99d81fc9832b954c5c9c828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:52 +0000
Subject: [PATCH 16/38] fix: ~Body read the colliders it had just removed

---
 include/Simu/physics/Body.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/Simu/physics/Body.hpp b/include/Simu/physics/Body.hpp
index e8fd43c..7c9988c 100644
--- a/include/Simu/physics/Body.hpp
+++ b/include/Simu/physics/Body.hpp
@@ -216,8 +216,8 @@ public:
 
     ~Body() override
     {
-        for (Collider& c : colliders_.colliders_)
-            removeCollider(&c);
+        while (!colliders_.isEmpty())
+            removeCollider(&colliders_.colliders_.front());
     }
 
     Collider* addCollider(const ColliderDescriptor& descriptor);
-- 
2.43.0


From 3447d2ce1979912ef1a5bd40ee3b72ff04d509ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 17/38] fix: changing the colliders of a turning body updates
 the velocity of its center of mass

---
 src/Simu/physics/Body.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 8760ceb..794e4bd 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -52,9 +52,10 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
     // see removeCollider.
     // Here we assume the new collider has the Body's velocity, ignoring
     //  conservation of momentums.
+    position_.setLocalCentroid(colliders_.properties().centroid);
+
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
     world_->addCollider(c);
@@ -75,9 +76,10 @@ void Body::removeCollider(Collider* collider)
     //  of the Body's momentum.
     //  => velocities don't change for the Body, except at the center of mass
 
+    position_.setLocalCentroid(colliders_.properties().centroid);
+
     Vec2 dvAtCentroid = angularVelocity() * perp(centroid() - oldCentroid);
     setVelocity(velocity() + dvAtCentroid);
-    position_.setLocalCentroid(colliders_.properties().centroid);
 
     update();
 }
-- 
2.43.0


From a77bd8ecc7160eb429b913489209a4a9223ca3e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:30 +0000
Subject: [PATCH 18/38] fix: a collider refused by Body::addCollider was left
 in the body without being in the world

---
 include/Simu/physics/Collider.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index eddb1b8..07862a2 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -216,10 +216,11 @@ public:
 
     Collider* add(const ColliderDescriptor& descr, Body* owner)
     {
-        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        // throws on invalid descriptors, before anything is modified
+        MassProperties p{descr.polygon, descr.material.density};
 
-        MassProperties p = colliders_.back().properties();
-        properties_      = properties_ + p;
+        colliders_.emplace_back(descr, owner, colliders_.get_allocator());
+        properties_ = properties_ + p;
 
         return &colliders_.back();
     }
-- 
2.43.0


From 2093778c43e1018f23365f7b31c4f0b30b634926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 19/38] fix: queries of the world used the old bounds of bodies
 whose colliders changed

---
 include/Simu/physics/Collider.hpp | 1 +
 include/Simu/physics/World.hpp    | 3 +++
 src/Simu/physics/Body.cpp         | 2 ++
 src/Simu/physics/World.cpp        | 6 ++++++
 4 files changed, 12 insertions(+)

diff --git a/include/Simu/physics/Collider.hpp b/include/Simu/physics/Collider.hpp
index 07862a2..472fd03 100644
--- a/include/Simu/physics/Collider.hpp
+++ b/include/Simu/physics/Collider.hpp
@@ -250,6 +250,7 @@ public:
 private:
 
     friend class Body;
+    friend class World;
     typedef std::list<Collider, ReboundTo<Alloc, Collider>> ColliderList;
 
     ColliderList   colliders_{};
diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index 4cddc10..f0a589c 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -337,6 +337,9 @@ private:
 
     void removeCollider(Collider* collider);
 
+    // the geometry of a body moves when its centroid changes
+    void updateColliders(Body& body);
+
     UniquePtr<ContactConstraint>
     makeContactConstraint(Collider& first, Collider& second);
 
diff --git a/src/Simu/physics/Body.cpp b/src/Simu/physics/Body.cpp
index 794e4bd..38a1309 100644
--- a/src/Simu/physics/Body.cpp
+++ b/src/Simu/physics/Body.cpp
@@ -59,6 +59,7 @@ Collider* Body::addCollider(const ColliderDescriptor& descriptor)
 
     update();
     world_->addCollider(c);
+    world_->updateColliders(*this);
 
     return c;
 }
@@ -82,6 +83,7 @@ void Body::removeCollider(Collider* collider)
     setVelocity(velocity() + dvAtCentroid);
 
     update();
+    world_->updateColliders(*this);
 }
 
 } // namespace simu
diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index f7c66cb..63d30f0 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -221,6 +221,12 @@ void World::removeCollider(Collider* collider)
     }
 }
 
+void World::updateColliders(Body& body)
+{
+    for (Collider& c : body.colliders_.colliders_)
+        colliderTree_.update(c.treeLocation_, c.boundingBox());
+}
+
 void World::cleanup()
 {
     for (auto it = contacts_.begin(); it != contacts_.end();)
-- 
2.43.0


From bd4379bf6301c1873f9a2709d5bc8badaeb50368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:29 +0000
Subject: [PATCH 20/38] fix: World::step threw when two structural bodies
 overlapped

---
 src/Simu/physics/World.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index 63d30f0..d39eb39 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -299,6 +299,10 @@ void World::updateBodies(float dt)
         if (b0 == b1)
             return;
 
+        // neither would move, it is not a valid constraint.
+        if (b0->isStructural() && b1->isStructural())
+            return;
+
         for (Constraint* c : b0->constraints())
         {
             if (c->disablesContacts())
-- 
2.43.0


From dd6a3f447eb8c7666c8aa82201f049d89b74f4ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:09 +0000
Subject: [PATCH 21/38] fix: LcpSolver threw for singular matrices, two
 contacts at the same point crashed World::step

---
 include/Simu/math/Matrix.inl.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index af649a7..919c1d0 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -547,8 +547,14 @@ public:
     template <class U>
     Vector<Promoted<T, U>, 2> solve(const Vector<U, 2>& b) const
     {
-        Vector<T, 2> x = solver.solve(b);
-        if (all(x >= Vector<T, 2>::filled(0.f)))
+        // when A is singular, a solution with both components active is never
+        //  needed, there is also one with a single active component.
+        Vector<T, 2> both{};
+        if (isValid())
+            both = solver.solve(b);
+
+        Vector<T, 2> x = both;
+        if (isValid() && all(x >= Vector<T, 2>::filled(0.f)))
             return x;
 
         x = Vector<T, 2>{b[0] * invA11, 0.f};
@@ -567,7 +573,7 @@ public:
         //  the solution is the candidate that is rejected by the least.
         T leastError = residual(x, b);
         for (Vector<T, 2> candidate :
-             {solver.solve(b),
+             {both,
               Vector<T, 2>{b[0] * invA11, 0.f},
               Vector<T, 2>{0.f, b[1] * invA22}})
         {
-- 
2.43.0


From 92fa514052400c46f862219f6480488132c10c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:02 +0000
Subject: [PATCH 22/38] fix: World::setContactFactory left destroyed contacts
 in the bodies

---
 include/Simu/physics/World.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/Simu/physics/World.hpp b/include/Simu/physics/World.hpp
index f0a589c..39d56a8 100644
--- a/include/Simu/physics/World.hpp
+++ b/include/Simu/physics/World.hpp
@@ -138,6 +138,9 @@ public:
 
     void setContactFactory(ContactFactory makeContact)
     {
+        for (auto& body : bodies_)
+            body->contacts_.clear();
+
         contacts_.clear();
         makeContactConstraint_ = makeContact;
     }
-- 
2.43.0


From 57211704f983e0ec8567c176c4a68e803715ee10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:47 +0000
Subject: [PATCH 23/38] fix: onDestruction was never called on contacts, they
 were removed before other objects could die with them

---
 src/Simu/physics/World.cpp | 38 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 20 deletions(-)

diff --git a/src/Simu/physics/World.cpp b/src/Simu/physics/World.cpp
index d39eb39..16077d8 100644
--- a/src/Simu/physics/World.cpp
+++ b/src/Simu/physics/World.cpp
@@ -206,6 +206,11 @@ private:
     {
         return it->get();
     }
+
+    PhysicsObject* access(ContactList::iterator it)
+    {
+        return it->second.existingContact.get();
+    }
 };
 
 
@@ -229,32 +234,23 @@ void World::updateColliders(Body& body)
 
 void World::cleanup()
 {
-    for (auto it = contacts_.begin(); it != contacts_.end();)
-    {
-        ContactConstraint* contact = it->second.existingContact.get();
-        if (contact != nullptr && contact->isDead())
-        {
-            for (Body* b : contact->bodies())
-            {
-                std::erase(b->contacts_, contact);
-                b->wake();
-            }
-
-            it = contacts_.erase(it);
-        }
-        else
-        {
-            ++it;
-        }
-    }
-
-
     Cleaner cleaner{};
 
+    auto deadContacts    = cleaner.deadObjects(contacts_);
     auto deadConstraints = cleaner.deadObjects(constraints_);
     auto deadForces      = cleaner.deadObjects(forces_);
     auto deadBodies      = cleaner.deadObjects(bodies_);
 
+    for (auto c : deadContacts)
+    {
+        ContactConstraint* contact = c->second.existingContact.get();
+        for (Body* body : contact->bodies())
+        {
+            std::erase(body->contacts_, contact);
+            body->wake();
+        }
+    }
+
     for (auto c : deadConstraints)
     {
         for (Body* body : (*c)->bodies())
@@ -264,10 +260,12 @@ void World::cleanup()
         }
     }
 
+    cleaner.onDestruction(*this, deadContacts);
     cleaner.onDestruction(*this, deadConstraints);
     cleaner.onDestruction(*this, deadForces);
     cleaner.onDestruction(*this, deadBodies);
 
+    cleaner.erase(contacts_, deadContacts);
     cleaner.erase(constraints_, deadConstraints);
     cleaner.erase(forces_, deadForces);
     cleaner.erase(bodies_, deadBodies);
-- 
2.43.0


From 7a8006c9d456f13b76121d8557dc85dcae3c2ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 24/38] fix: constraints kept the masses their bodies had when
 they were made, structural bodies without colliders gave NaN

---
 include/Simu/physics/Bodies.hpp     |  7 +++++--
 include/Simu/physics/Bodies.inl.hpp | 24 +++++++++++++++++-------
 2 files changed, 22 insertions(+), 9 deletions(-)

diff --git a/include/Simu/physics/Bodies.hpp b/include/Simu/physics/Bodies.hpp
index 11baef7..a2a9b1e 100644
--- a/include/Simu/physics/Bodies.hpp
+++ b/include/Simu/physics/Bodies.hpp
@@ -242,7 +242,7 @@ private:
         proxies_ = Proxies{
             SolverProxy{ps + index0, vs + index0},
             SolverProxy{ps + index1, vs + index1},
-            invMasses_
+            invMasses()
         };
     }
 
@@ -250,6 +250,9 @@ private:
 
     bool hasProxies() const { return proxies_[0].position_ != nullptr; }
 
+    // The mass of a body changes with its colliders
+    inline InvMasses invMasses() const;
+
     Proxies& getProxies()
     {
         SIMU_ASSERT(hasProxies(), "has no proxies");
@@ -260,7 +263,7 @@ private:
 
     Proxies proxies_{};
 
-    InvMasses invMasses_;
+    Dominance dominances_;
 };
 
 
diff --git a/include/Simu/physics/Bodies.inl.hpp b/include/Simu/physics/Bodies.inl.hpp
index f564d19..2e574f5 100644
--- a/include/Simu/physics/Bodies.inl.hpp
+++ b/include/Simu/physics/Bodies.inl.hpp
@@ -84,24 +84,34 @@ Bodies::Bodies(std::initializer_list<Body*> bodies, std::optional<Dominance> dom
         bodies_[i++] = body;
     }
 
-    Dominance d = dominances.value_or(
+    dominances_ = dominances.value_or(
         Vec2{bodies_[0]->dominance(), bodies_[1]->dominance()}
     );
+}
+
 
-    invMasses_.m0 = d[0] * bodies_[0]->invMass();
-    invMasses_.I0 = d[0] * bodies_[0]->invInertia();
-    invMasses_.m1 = d[1] * bodies_[1]->invMass();
-    invMasses_.I1 = d[1] * bodies_[1]->invInertia();
+InvMasses Bodies::invMasses() const
+{
+    // a structural body may have no colliders, and thus no mass
+    auto scaled = [](float dominance, float inv) {
+        return dominance == 0.f ? 0.f : dominance * inv;
+    };
+
+    return InvMasses{
+        scaled(dominances_[0], bodies_[0]->invMass()),
+        scaled(dominances_[0], bodies_[0]->invInertia()),
+        scaled(dominances_[1], bodies_[1]->invMass()),
+        scaled(dominances_[1], bodies_[1]->invInertia())};
 }
 
 
 bool Bodies::isBodyStructural(const Body* body) const
 {
     if (body == bodies_[0])
-        return invMasses_.m0 == 0.f;
+        return dominances_[0] == 0.f;
 
     if (body == bodies_[1])
-        return invMasses_.m1 == 0.f;
+        return dominances_[1] == 0.f;
 
     SIMU_ASSERT(false, "Body is not part of these bodies.");
     return true;
-- 
2.43.0


From 338a55fdf1e4e27e33d11f312c718c0a777f783a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:55 +0000
Subject: [PATCH 25/38] fix: DistanceConstraint refused a minimal distance
 without a maximal one

---
 include/Simu/physics/DistanceConstraint.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Simu/physics/DistanceConstraint.hpp b/include/Simu/physics/DistanceConstraint.hpp
index 024aec0..d4b9f50 100644
--- a/include/Simu/physics/DistanceConstraint.hpp
+++ b/include/Simu/physics/DistanceConstraint.hpp
@@ -152,7 +152,7 @@ public:
         );
 
         SIMU_ASSERT(
-            maxDistance > 0.f,
+            !maxDistance.has_value() || maxDistance.value() > 0.f,
             "Cannot enforce a maximal distance <= 0. Use an Hinge constraint "
             "for a distance of 0."
         );
-- 
2.43.0


From e29e4e7bbfced231263d2301942a73639fdc90bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:20 +0000
Subject: [PATCH 26/38] fix: a constraint that became active while islands were
 solved moved its bodies twice in a step

---
 include/Simu/physics/Island.hpp | 34 +++++++++++++++++++++++++++++----
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/include/Simu/physics/Island.hpp b/include/Simu/physics/Island.hpp
index 09f42f0..ae359e5 100644
--- a/include/Simu/physics/Island.hpp
+++ b/include/Simu/physics/Island.hpp
@@ -44,7 +44,8 @@ public:
           constraints_{alloc},
           contacts_{alloc},
           positions_{alloc},
-          velocities_{alloc}
+          velocities_{alloc},
+          solved_{alloc}
     {
     }
 
@@ -165,9 +166,9 @@ public:
     {
         for (Body* b : bodies_)
         {
-            b->velocity_ = velocities_[b->proxyIndex];
-            b->position_ = positions_[b->proxyIndex];
-            b->update();
+            solved_.emplace_back(
+                SolvedBody{b, positions_[b->proxyIndex], velocities_[b->proxyIndex]}
+            );
             b->proxyIndex = Body::NO_INDEX;
         }
 
@@ -177,6 +178,20 @@ public:
             c->bodies().endSolve();
     }
 
+    // Must be called once all islands are solved: until then, a constraint that is not
+    //  active must stay so, otherwise it brings a solved body in a second island.
+    void writeBack()
+    {
+        for (const SolvedBody& s : solved_)
+        {
+            s.body->velocity_ = s.velocity;
+            s.body->position_ = s.position;
+            s.body->update();
+        }
+
+        solved_.clear();
+    }
+
 private:
 
     bool addBody(Body* body)
@@ -251,6 +266,15 @@ private:
     std::vector<Position, ReboundTo<Alloc, Position>> positions_;
     std::vector<Velocity, ReboundTo<Alloc, Velocity>> velocities_;
 
+    struct SolvedBody
+    {
+        Body*    body;
+        Position position;
+        Velocity velocity;
+    };
+
+    std::vector<SolvedBody, ReboundTo<Alloc, SolvedBody>> solved_;
+
     bool isAwake_ = false;
 };
 
@@ -328,6 +352,8 @@ void solveIslands(const T& bodies, const Alloc& alloc, World::Settings s, float
         island.clear();
     }
 
+    island.writeBack();
+
     SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.islandConstruction);
     SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.solveVelocities);
     SIMU_PROFILE_COMMIT_PARTIAL_ENTRY(profiler.solvePositions);
-- 
2.43.0


From 3c3d4a9fcc8e3cba9f1e0ed93d0387cf9330995d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:47:36 +0000
Subject: [PATCH 27/38] fix: LcpSolver amplified rounding errors of almost
 singular matrices, contacts gave huge impulses

---
 include/Simu/math/Matrix.inl.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index 919c1d0..3726869 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -541,7 +541,12 @@ public:
     LcpSolver(const Matrix<T, 2, 2>& A)
         : solver{A}, invA11{1.f / A(0, 0)}, invA22{1.f / A(1, 1)}
     {
-        solver.isValid_ = solver.isValid() && A(0, 0) != 0.f && A(1, 1) != 0.f;
+        // the rounding error of the determinant makes the solution of almost
+        //  singular matrices meaningless
+        const T diagonal = A(0, 0) * A(1, 1);
+        const T det      = diagonal - A(0, 1) * A(1, 0);
+        solver.isValid_  = std::abs(det) > T{1e-5f} * std::abs(diagonal)
+                          && A(0, 0) != 0.f && A(1, 1) != 0.f;
     }
 
     template <class U>
-- 
2.43.0


From ab1d192a46c5e5fec1d414b47f84ee7015f44b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:30 +0000
Subject: [PATCH 28/38] fix: the contour of drawContouredPolygon had its width
 only around right angles

---
 src/Simu/app/Renderer.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 7ef4073..c530b2b 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -64,8 +64,11 @@ void Renderer::drawContouredPolygon(
     for (auto e1 = edges.begin(); e1 != edges.end(); ++e1)
     {
         auto e2 = edges.next(e1);
-        v_[i++]
-            += (e1->normalizedNormal() + e2->normalizedNormal()) * contourWidth;
+        Vec2 n1 = e1->normalizedNormal();
+        Vec2 n2 = e2->normalizedNormal();
+
+        // moves both edges by contourWidth
+        v_[i++] += (n1 + n2) * (contourWidth / (1.f + dot(n1, n2)));
     }
 
     const Vertices& cOuter = v_;
-- 
2.43.0


From e301e9b93608782ba4b6a4149520f7ff9405708f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:02 +0000
Subject: [PATCH 29/38] fix: Renderer::drawPoint never ended with a precision
 above 255

---
 src/Simu/app/Renderer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index c530b2b..217138c 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -119,7 +119,7 @@ void Renderer::drawPoint(Vec2 P, Rgba color)
 {
     v_.clear();
 
-    for (Uint8 i = 0; i < getPointPrecision(); ++i)
+    for (Uint32 i = 0; i < getPointPrecision(); ++i)
     {
         v_.emplace_back(P + pointOffsets_[i]);
     }
-- 
2.43.0


From ecf31d23851c5c390cece568ee2f4fedd10e56a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 30/38] fix: scrolling by anything but one step multiplied the
 zoom by the length of the scroll

---
 src/Simu/app/Scene.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/Simu/app/Scene.cpp b/src/Simu/app/Scene.cpp
index 6b78987..3093cc5 100644
--- a/src/Simu/app/Scene.cpp
+++ b/src/Simu/app/Scene.cpp
@@ -109,8 +109,7 @@ bool Scene::onKeypress(Keyboard::Input input)
 
 bool Scene::onMouseScroll(Vec2 scroll)
 {
-    float zoomRatio = (scroll[1] < 0.f) ? 4.f / 5.f : 5.f / 4.f;
-    camera().setZoom(camera().zoom() * std::abs(scroll[1]) * zoomRatio);
+    camera().setZoom(camera().zoom() * std::pow(5.f / 4.f, scroll[1]));
     return true;
 }
 
-- 
2.43.0


From 2c1fb9ecb1410fad2848548bfaf6d8c9ec0d72a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 31/38] fix: showing the options of BoxSpawner changed its
 orientation

---
 src/Simu/app/Tool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index 0602932..aeb254a 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -102,8 +102,8 @@ void BoxSpawner::doGui()
 
     constexpr float pi    = std::numbers::pi_v<float>;
     float           ratio = orientation / (2.f * pi);
-    orientation -= std::floor(ratio) * pi;
-    int degrees = static_cast<int>(180 * orientation / pi);
+    orientation -= std::round(ratio) * 2.f * pi;
+    int degrees = static_cast<int>(std::round(180 * orientation / pi));
     ImGui::SliderInt("Orientation", &degrees, -180, 180);
     orientation = degrees * pi / 180.f;
 
-- 
2.43.0


From 0b4950f0ad0df216c52185babd656fd2f258749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 32/38] fix: the pause button did not follow the P key nor the
 change of scene

---
 src/Simu/app/Application.cpp | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/Simu/app/Application.cpp b/src/Simu/app/Application.cpp
index 6b52477..b4aa1b8 100644
--- a/src/Simu/app/Application.cpp
+++ b/src/Simu/app/Application.cpp
@@ -287,10 +287,9 @@ void Application::doGui(float dt)
         bool selectScene = true;
 
         // for scene
-        float playSpeed   = 1.f;
-        bool  restart     = false;
-        bool  pauseToggle = false;
-        bool  step        = false;
+        float playSpeed = 1.f;
+        bool  restart   = false;
+        bool  step      = false;
 
         bool showProfiler       = true;
         bool showEngineSettings = false;
@@ -459,20 +458,19 @@ void Application::doGui(float dt)
         if (ImGui::Button("+"))
             scene_->setPlaySpeed(scene_->playSpeed() * 2.f);
 
-        if (ImGui::Button(menu.pauseToggle ? "Play (P)" : "Pause (P)"))
+        if (ImGui::Button(scene_->isPaused() ? "Play (P)" : "Pause (P)"))
         {
-            menu.pauseToggle = !menu.pauseToggle;
-            if (menu.pauseToggle)
-                scene_->pause();
-            else
+            if (scene_->isPaused())
                 scene_->resume();
+            else
+                scene_->pause();
         }
 
         if (ImGui::Button("Restart (R)"))
             scene_->reset();
 
         // TODO:
-        // if (menu.pauseToggle)
+        // if (scene_->isPaused())
         //     if (ImGui::Button("Step (S)"))
         //         scene_->step();
 
-- 
2.43.0


From e81657ba43b65e75e3545ae22d9c8c9e8cbbb6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:09 +0000
Subject: [PATCH 33/38] fix: stepping a world threw when the points of a
 VisibleDistanceConstraint were together

---
 include/Simu/app/VisiblePhysics.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/Simu/app/VisiblePhysics.hpp b/include/Simu/app/VisiblePhysics.hpp
index 5a919d8..bec9c25 100644
--- a/include/Simu/app/VisiblePhysics.hpp
+++ b/include/Simu/app/VisiblePhysics.hpp
@@ -196,11 +196,11 @@ protected:
 
         auto points = f.localFixedPoints();
 
-        renderer.drawLine(
-            bodies()[0]->toWorldSpace() * points[0],
-            bodies()[1]->toWorldSpace() * points[1],
-            turquoise
-        );
+        Vec2 first  = bodies()[0]->toWorldSpace() * points[0];
+        Vec2 second = bodies()[1]->toWorldSpace() * points[1];
+
+        if (any(first != second))
+            renderer.drawLine(first, second, turquoise);
     }
 };
 
-- 
2.43.0


From c57b01241cfce781073aeda4207e6aae9ea017ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:07:57 +0000
Subject: [PATCH 34/38] fix: Grabber used its constraint after the world
 destroyed it

---
 include/Simu/app/Tool.hpp |  9 ++++++--
 src/Simu/app/Tool.cpp     | 44 ++++++++++++++++++++++++++++++---------
 2 files changed, 41 insertions(+), 12 deletions(-)

diff --git a/include/Simu/app/Tool.hpp b/include/Simu/app/Tool.hpp
index ab694b5..848d480 100644
--- a/include/Simu/app/Tool.hpp
+++ b/include/Simu/app/Tool.hpp
@@ -24,6 +24,8 @@
 
 #pragma once
 
+#include <memory>
+
 #include "Simu/app/Event.hpp"
 #include "Simu/app/VisiblePhysics.hpp"
 
@@ -91,8 +93,11 @@ private:
 
     VisibleMouseConstraint* makeMouseConstraint(Body* b, Vec2 pos);
 
-    VisibleMouseConstraint* mc_ = nullptr;
-    Scene&                  scene_;
+    // the constraint resets this when the world destroys it
+    std::shared_ptr<VisibleMouseConstraint*> mc_
+        = std::make_shared<VisibleMouseConstraint*>(nullptr);
+
+    Scene& scene_;
 };
 
 
diff --git a/src/Simu/app/Tool.cpp b/src/Simu/app/Tool.cpp
index aeb254a..68c7768 100644
--- a/src/Simu/app/Tool.cpp
+++ b/src/Simu/app/Tool.cpp
@@ -36,6 +36,30 @@ namespace simu
 // Grabber
 ////////////////////////////////////////////////////////////
 
+// The world may destroy the constraint while it is grabbed, when the body dies
+// or when the scene is reset.
+class GrabberConstraint : public VisibleMouseConstraint
+{
+public:
+
+    typedef std::shared_ptr<VisibleMouseConstraint*> Slot;
+
+    GrabberConstraint(Body* b, Vec2 pos, Renderer* renderer, Slot slot)
+        : VisibleMouseConstraint{b, pos, renderer}, slot_{std::move(slot)}
+    {
+    }
+
+    ~GrabberConstraint() override
+    {
+        if (*slot_ == this)
+            *slot_ = nullptr;
+    }
+
+private:
+
+    Slot slot_;
+};
+
 bool Grabber::onMousePress(Mouse::Input input)
 {
     if (input.button != Mouse::Button::left)
@@ -46,19 +70,19 @@ bool Grabber::onMousePress(Mouse::Input input)
         scene_.world().forEachAt(input.pos, [&, this](Body* b) {
             if (!b->isStructural())
             {
-                if (mc_ != nullptr)
-                    mc_->kill();
+                if (*mc_ != nullptr)
+                    (*mc_)->kill();
 
-                mc_ = this->makeMouseConstraint(b, input.pos);
+                *mc_ = this->makeMouseConstraint(b, input.pos);
             }
         });
     }
     else if (input.action == Mouse::Action::release)
     {
-        if (mc_ != nullptr)
+        if (*mc_ != nullptr)
         {
-            mc_->kill();
-            mc_ = nullptr;
+            (*mc_)->kill();
+            *mc_ = nullptr;
         }
     }
     else
@@ -71,9 +95,9 @@ bool Grabber::onMousePress(Mouse::Input input)
 
 bool Grabber::onMouseMove(Vec2 pos)
 {
-    if (mc_ != nullptr)
+    if (*mc_ != nullptr)
     {
-        mc_->updateMousePos(pos);
+        (*mc_)->updateMousePos(pos);
         return true;
     }
 
@@ -82,8 +106,8 @@ bool Grabber::onMouseMove(Vec2 pos)
 
 VisibleMouseConstraint* Grabber::makeMouseConstraint(Body* b, Vec2 pos)
 {
-    return scene_.world().makeConstraint<VisibleMouseConstraint>(
-        b, pos, scene_.app()->renderer()
+    return scene_.world().makeConstraint<GrabberConstraint>(
+        b, pos, scene_.app()->renderer(), mc_
     );
 }
 
-- 
2.43.0


From 4b9c72b9bd088bc406534bfcfc951f6c1f9700bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:20 +0000
Subject: [PATCH 35/38] fix: solveInequalities may iterate forever between
 rounding errors

---
 include/Simu/math/Matrix.hpp     |  6 ++++--
 include/Simu/math/Matrix.inl.hpp | 23 +++++++++++++++++------
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/Simu/math/Matrix.hpp b/include/Simu/math/Matrix.hpp
index 7a7c0d3..7a7ce21 100644
--- a/include/Simu/math/Matrix.hpp
+++ b/include/Simu/math/Matrix.hpp
@@ -252,7 +252,8 @@ inline Matrix<T, n, n> invert(const Matrix<T, n, n>& mat);
 ///     T proj(const Vector<T, n>& x, Uint32 index)
 /// where x[index] must be clamped and returned.
 ///
-/// when the absolute change of components of x drops below epsilon, iteration terminates.
+/// when the absolute change of components of x drops below epsilon (or below their
+/// rounding error), iteration terminates.
 ///
 /// Uses projected Gauss-Seidel to solve the MLCP,
 /// See A. Enzenhofer's master thesis (McGill): Numerical Solutions of MLCP
@@ -271,7 +272,8 @@ inline Vector<T, n> solveInequalities(
 ///
 /// proj must project x onto its valid bounds (ie clamp its values).
 ///
-/// when the absolute change of components of x drops below epsilon, iteration terminates.
+/// when the absolute change of components of x drops below epsilon (or below their
+/// rounding error), iteration terminates.
 ///
 /// Uses projected Gauss-Seidel to solve the MLCP,
 /// See A. Enzenhofer's master thesis (McGill): Numerical Solutions of MLCP
diff --git a/include/Simu/math/Matrix.inl.hpp b/include/Simu/math/Matrix.inl.hpp
index 3726869..9a6bc82 100644
--- a/include/Simu/math/Matrix.inl.hpp
+++ b/include/Simu/math/Matrix.inl.hpp
@@ -485,27 +485,38 @@ Vector<T, n> solveInequalities(
 
     Vector<T, n> x = initialGuess;
 
+    // x may never settle beyond the rounding error of its components
+    constexpr float roundingError = 4.f * std::numeric_limits<float>::epsilon();
+
     float eps = 1.f + epsilon;
     while (eps > epsilon)
     {
         eps = 0.f;
         for (Uint32 row = 0; row < n; ++row)
         {
-            float delX = 0.f;
+            float delX      = 0.f;
+            float magnitude = std::abs(b[row]);
 
-            for (Uint32 col = 0; col < row; ++col)
-                delX += A(row, col) * x[col];
+            for (Uint32 col = 0; col < n; ++col)
+            {
+                if (col == row)
+                    continue;
 
-            for (Uint32 col = row + 1; col < n; ++col)
                 delX += A(row, col) * x[col];
+                magnitude += std::abs(A(row, col) * x[col]);
+            }
 
-            delX = -(delX + b[row]) / A(row, row);
+            delX      = -(delX + b[row]) / A(row, row);
+            magnitude = magnitude / std::abs(A(row, row));
 
             Vector<T, n> newX{x};
             newX[row] = delX;
             delX      = proj(newX, row);
 
-            eps    = std::max(eps, std::abs(delX - x[row]));
+            float change = std::abs(delX - x[row]);
+            if (change > roundingError * magnitude)
+                eps = std::max(eps, change);
+
             x[row] = delX;
         }
     }
-- 
2.43.0


From 05153d8c6966885c4f13f5432775fff06b8e2b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:20 +0000
Subject: [PATCH 36/38] fix: LimitsSolver without limits throws when it
 corrects positions

---
 include/Simu/physics/ConstraintSolver.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index aee48c0..40a9a19 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -424,7 +424,9 @@ public:
         {
             case Func::equality:
             {
-                posLambda = f.clampPositionLambda(solve(effMass, -(C - L_.value())));
+                posLambda = f.clampPositionLambda(
+                    solve(effMass, -(C - L_.value_or(Value{})))
+                );
                 break;
             }
             case Func::lower:
-- 
2.43.0


From 3c3cdfc71982a07fe71e6aa409f5297bc7a47d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:43 +0000
Subject: [PATCH 37/38] fix: limits refused by LimitsSolver were kept

---
 include/Simu/physics/ConstraintSolver.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/Simu/physics/ConstraintSolver.hpp b/include/Simu/physics/ConstraintSolver.hpp
index 40a9a19..29b663c 100644
--- a/include/Simu/physics/ConstraintSolver.hpp
+++ b/include/Simu/physics/ConstraintSolver.hpp
@@ -312,13 +312,13 @@ public:
 
     void setLowerLimit(std::optional<Value> L)
     {
+        assertLimits(L, U_);
         L_ = L;
-        assertLimits();
     }
     void setUpperLimit(std::optional<Value> U)
     {
+        assertLimits(L_, U);
         U_ = U;
-        assertLimits();
     }
 
     bool isActive(const Proxies& proxies, const F& f) const
@@ -462,10 +462,11 @@ public:
 
 private:
 
-    void assertLimits() const
+    static void
+    assertLimits(const std::optional<Value>& L, const std::optional<Value>& U)
     {
-        if (L_.has_value() && U_.has_value())
-            SIMU_ASSERT(all(L_.value() <= U_.value()), "Invalid limits");
+        if (L.has_value() && U.has_value())
+            SIMU_ASSERT(all(L.value() <= U.value()), "Invalid limits");
     }
 
     enum class Func
-- 
2.43.0


From c69f6b1d7694e38594b922d528b8ffbecb2ba742 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:45:43 +0000
Subject: [PATCH 38/38] fix: polygons and points of more vertices than an
 Uint16 were drawn over other shapes

---
 src/Simu/app/Renderer.cpp | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/Simu/app/Renderer.cpp b/src/Simu/app/Renderer.cpp
index 217138c..0fd0027 100644
--- a/src/Simu/app/Renderer.cpp
+++ b/src/Simu/app/Renderer.cpp
@@ -284,24 +284,31 @@ void OpenGlRenderer::drawPolygon(Vec2 center, Poly vertices, Rgba color)
 {
     SIMU_ASSERT(vertices.size() >= 3, "Not enough vertices to make a Polygon.");
 
-    Uint16 centerIndex = static_cast<Uint16>(vertices_.size());
-
+    // A fan around center. It is split over batches so that indices always fit in 16 bits.
+    Vec2        previous    = *(vertices.end() - 1);
+    std::size_t centerIndex = vertices_.size();
     vertices_.emplace_back(center, color);
+    vertices_.emplace_back(previous, color);
+
     for (const Vec2& v : vertices)
-        vertices_.emplace_back(v, color);
+    {
+        if (vertices_.size() >= maxVertices_)
+        {
+            flush();
 
-    Uint16 end = static_cast<Uint16>(vertices_.size());
+            centerIndex = 0;
+            vertices_.emplace_back(center, color);
+            vertices_.emplace_back(previous, color);
+        }
 
-    indices_.emplace_back(centerIndex);
-    indices_.emplace_back(static_cast<Uint16>(end - 1));
-    indices_.emplace_back(static_cast<Uint16>(centerIndex + 1));
+        std::size_t index = vertices_.size();
+        vertices_.emplace_back(v, color);
 
-    Uint16 index = centerIndex + 2;
-    while (index < end)
-    {
-        indices_.emplace_back(centerIndex);
+        indices_.emplace_back(static_cast<Uint16>(centerIndex));
         indices_.emplace_back(static_cast<Uint16>(index - 1));
-        indices_.emplace_back(index++);
+        indices_.emplace_back(static_cast<Uint16>(index));
+
+        previous = v;
     }
 
     if (vertices_.size() >= maxVertices_)
-- 
2.43.0

