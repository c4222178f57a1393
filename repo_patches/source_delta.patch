From 1f36ebdf005254bf924e3f9500df175bb466df30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 01/16] fix: use the obstacle's own corner count for its
 closing edge

---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 8c8ce266ef5164513a5f64d9160b4cde74950f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:55 +0000
Subject: [PATCH 02/16] fix: keep applying obstacles to the remaining bumpers
 after a point-shaped one

---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From efd08ec673c200adf51101cad01aef0b3d5fcbcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:19 +0000
Subject: [PATCH 03/16] fix: compare squared line-point distance with the
 squared minimum distance

---
 include/trajopt/constraint/LinePointConstraint.hpp | 5 +++--
 include/trajopt/constraint/PointLineConstraint.hpp | 4 ++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..4d0a392 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -61,8 +61,9 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
         pose.Translation() + m_robotLineStart.RotateBy(pose.Rotation());
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
-    auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    auto squaredDist =
+        detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..416fa5c 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -58,9 +58,9 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
              [[maybe_unused]] const Translation2v& linearAcceleration,
              [[maybe_unused]] const sleipnir::Variable& angularAcceleration) {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
-    auto dist =
+    auto squaredDist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    problem.SubjectTo(squaredDist >= m_minDistance * m_minDistance);
   }
 
  private:
-- 
2.43.0


From 55d4ffb54c2e48376ae48a9a0a47ace280b2774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 04/16] fix: limit progress reports per generator and stop
 capturing the generator's address

---
 include/trajopt/SwerveTrajectoryGenerator.hpp |  2 +-
 src/SwerveTrajectoryGenerator.cpp             | 39 ++++++++++---------
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..2b85f2c 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -70,7 +70,7 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+  std::vector<std::function<void(SwerveTrajectoryGenerator&)>> callbacks;
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..7a166b4 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -42,24 +42,25 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
-    constexpr int fps = 60;
-    constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
-
-    // FPS limit on sending updates
-    static auto lastFrameTime = std::chrono::steady_clock::now();
-    auto now = std::chrono::steady_clock::now();
-    if (now - lastFrameTime < timePerFrame) {
-      return;
-    }
-
-    lastFrameTime = now;
-
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
-      callback(soln, handle);
-    }
-  });
+  callbacks.emplace_back(
+      [lastFrameTime = std::chrono::steady_clock::now(),
+       handle = handle](SwerveTrajectoryGenerator& self) mutable {
+        constexpr int fps = 60;
+        constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
+
+        // FPS limit on sending updates
+        auto now = std::chrono::steady_clock::now();
+        if (now - lastFrameTime < timePerFrame) {
+          return;
+        }
+
+        lastFrameTime = now;
+
+        auto soln = self.ConstructSwerveSolution();
+        for (auto& callback : self.path.callbacks) {
+          callback(soln, handle);
+        }
+      });
   size_t wptCnt = 1 + N.size();
   size_t sgmtCnt = N.size();
   size_t sampTot = GetIndex(N, wptCnt, 0);
@@ -276,7 +277,7 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   GetCancellationFlag() = 0;
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
-      callback();
+      callback(*this);
     }
     return trajopt::GetCancellationFlag();
   });
-- 
2.43.0


From cffd03c00c62a49141236aaff9f5f0161388e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:49 +0000
Subject: [PATCH 05/16] fix: raise out_of_range instead of reading past an
 empty guess list for an empty path

---
 include/trajopt/util/GenerateLinearInitialGuess.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/GenerateLinearInitialGuess.hpp b/include/trajopt/util/GenerateLinearInitialGuess.hpp
index 9873df3..39f5fe8 100644
--- a/include/trajopt/util/GenerateLinearInitialGuess.hpp
+++ b/include/trajopt/util/GenerateLinearInitialGuess.hpp
@@ -30,12 +30,12 @@ inline Solution GenerateLinearInitialGuess(
   initialGuess.thetasin.reserve(sampTot);
   initialGuess.dt.reserve(sampTot);
 
-  initialGuess.x.push_back(initialGuessPoints.front().front().X());
-  initialGuess.y.push_back(initialGuessPoints.front().front().Y());
+  initialGuess.x.push_back(initialGuessPoints.at(0).front().X());
+  initialGuess.y.push_back(initialGuessPoints.at(0).front().Y());
   initialGuess.thetacos.push_back(
-      initialGuessPoints.front().front().Rotation().Cos());
+      initialGuessPoints.at(0).front().Rotation().Cos());
   initialGuess.thetasin.push_back(
-      initialGuessPoints.front().front().Rotation().Sin());
+      initialGuessPoints.at(0).front().Rotation().Sin());
 
   for (size_t i = 0; i < sampTot; i++) {
     initialGuess.dt.push_back((wptCnt * 5.0) / sampTot);
-- 
2.43.0


From c8f458a7f5c09f9ed3c8fc547ca8161eabe1a43d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:05 +0000
Subject: [PATCH 06/16] fix: bound time steps by the closest pair of modules,
 whatever their order

---
 src/SwerveTrajectoryGenerator.cpp | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 7a166b4..aa6e2a5 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -108,17 +108,19 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
   double minWidth = INFINITY;
   for (size_t i = 1; i < path.drivetrain.modules.size(); i++) {
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                 path.drivetrain.modules.at(i).translation.X()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.X() -
-                             path.drivetrain.modules.at(i).translation.X()));
-    }
-    if (std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                 path.drivetrain.modules.at(i).translation.Y()) != 0) {
-      minWidth = std::min(
-          minWidth, std::abs(path.drivetrain.modules.at(i - 1).translation.Y() -
-                             path.drivetrain.modules.at(i).translation.Y()));
+    for (size_t j = 0; j < i; j++) {
+      if (std::abs(path.drivetrain.modules.at(j).translation.X() -
+                   path.drivetrain.modules.at(i).translation.X()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.X() -
+                               path.drivetrain.modules.at(i).translation.X()));
+      }
+      if (std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                   path.drivetrain.modules.at(i).translation.Y()) != 0) {
+        minWidth = std::min(
+            minWidth, std::abs(path.drivetrain.modules.at(j).translation.Y() -
+                               path.drivetrain.modules.at(i).translation.Y()));
+      }
     }
   }
 
-- 
2.43.0


From 00de2d329e2da897d0cfcebb286dfee118d66214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 07/16] fix: compare errors for inequality in expected<void,
 E>::operator!=

---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..b4c348d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2463,7 +2463,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 2c7e2dfaa6e5b4ca582d92d7d21af6e6d2fc14a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 08/16] fix: reconstruct the destroyed alternative when an
 expected operation throws

---
 include/trajopt/util/expected | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index b4c348d..a7d89d6 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -799,7 +799,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -834,7 +834,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1779,7 +1779,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1848,7 +1848,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1888,7 +1888,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1951,7 +1951,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1974,7 +1974,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 311dc0a2ef245885f951409976247f7a83741336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 09/16] fix: let throwing copies and moves escape expected
 assignments with the old state kept

---
 include/trajopt/util/expected | 57 ++++++++++++++++++++++++++++-------
 1 file changed, 46 insertions(+), 11 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index a7d89d6..98e8e51 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -756,7 +756,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_copy_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(rhs.get());
@@ -771,7 +771,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
             detail::enable_if_t<!std::is_nothrow_copy_constructible<U>::value &&
                                 std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(const expected_operations_base& rhs) noexcept {
+  void assign(const expected_operations_base& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       T tmp = rhs.get();
       geterr().~unexpected<E>();
@@ -797,7 +797,8 @@ struct expected_operations_base : expected_storage_base<T, E> {
 
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(rhs.get());
+        ::new (std::addressof(this->m_val)) T(rhs.get());
+        this->m_has_val = true;
       } catch (...) {
         ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
@@ -814,7 +815,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
   template <class U = T,
             detail::enable_if_t<std::is_nothrow_move_constructible<U>::value>* =
                 nullptr>
-  void assign(expected_operations_base&& rhs) noexcept {
+  void assign(expected_operations_base&& rhs) {
     if (!this->m_has_val && rhs.m_has_val) {
       geterr().~unexpected<E>();
       construct(std::move(rhs).get());
@@ -832,7 +833,8 @@ struct expected_operations_base : expected_storage_base<T, E> {
       geterr().~unexpected<E>();
 #ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
       try {
-        construct(std::move(rhs).get());
+        ::new (std::addressof(this->m_val)) T(std::move(rhs).get());
+        this->m_has_val = true;
       } catch (...) {
         ::new (std::addressof(this->m_unexpect)) unexpected<E>(std::move(tmp));
         throw;
@@ -875,8 +877,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       if (rhs.m_has_val) {
         get() = std::forward<Rhs>(rhs).get();
       } else {
-        destroy_val();
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        replace_val_with_error(std::forward<Rhs>(rhs).geterr());
       }
     } else {
       if (!rhs.m_has_val) {
@@ -885,6 +886,35 @@ struct expected_operations_base : expected_storage_base<T, E> {
     }
   }
 
+  // Replaces the value with an error, or keeps the value if constructing the
+  // error throws
+  template <class Err>
+  void replace_val_with_error(Err&& err) {
+    if constexpr (std::is_nothrow_constructible<unexpected<E>, Err&&>::value) {
+      destroy_val();
+      construct_error(std::forward<Err>(err));
+    } else if constexpr (std::is_nothrow_move_constructible<E>::value) {
+      unexpected<E> tmp(std::forward<Err>(err));
+      destroy_val();
+      construct_error(std::move(tmp));
+    } else {
+      T tmp(std::move(get()));
+      destroy_val();
+#ifdef TRAJOPT_EXPECTED_EXCEPTIONS_ENABLED
+      try {
+        ::new (std::addressof(this->m_unexpect))
+            unexpected<E>(std::forward<Err>(err));
+        this->m_has_val = false;
+      } catch (...) {
+        ::new (std::addressof(this->m_val)) T(std::move(tmp));
+        throw;
+      }
+#else
+      construct_error(std::forward<Err>(err));
+#endif
+    }
+  }
+
   bool has_value() const { return this->m_has_val; }
 
   TRAJOPT_EXPECTED_11_CONSTEXPR T& get() & { return this->m_val; }
@@ -936,7 +966,7 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
   }
 
   template <class Rhs>
-  void assign(Rhs&& rhs) noexcept {
+  void assign(Rhs&& rhs) {
     if (!this->m_has_val) {
       if (rhs.m_has_val) {
         geterr().~unexpected<E>();
@@ -946,7 +976,9 @@ struct expected_operations_base<void, E> : expected_storage_base<void, E> {
       }
     } else {
       if (!rhs.m_has_val) {
-        construct_error(std::forward<Rhs>(rhs).geterr());
+        ::new (std::addressof(this->m_unexpect))
+            unexpected<E>(std::forward<Rhs>(rhs).geterr());
+        this->m_has_val = false;
       }
     }
   }
@@ -1108,7 +1140,9 @@ struct expected_move_assign_base<T, E, false>
   expected_move_assign_base&
   operator=(expected_move_assign_base&& rhs) noexcept(
       std::is_nothrow_move_constructible<T>::value &&
-      std::is_nothrow_move_assignable<T>::value) {
+      std::is_nothrow_move_assignable<T>::value &&
+      std::is_nothrow_move_constructible<E>::value &&
+      std::is_nothrow_move_assignable<E>::value) {
     this->assign(std::move(rhs));
     return *this;
   }
@@ -1809,7 +1843,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
   template <class G = E,
             detail::enable_if_t<std::is_nothrow_move_constructible<G>::value &&
                                 std::is_move_assignable<G>::value>* = nullptr>
-  expected& operator=(unexpected<G>&& rhs) noexcept {
+  expected& operator=(unexpected<G>&& rhs) noexcept(
+      std::is_nothrow_move_assignable<G>::value) {
     if (!has_value()) {
       err() = std::move(rhs);
     } else {
-- 
2.43.0


From fe8c6b0fab42f869698a2f310667d33ab1696a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 10/16] fix: keep the old value when constructing the new one
 throws in expected::emplace

---
 include/trajopt/util/expected | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 98e8e51..1737145 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1872,8 +1872,17 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      if constexpr (std::is_nothrow_move_constructible<T>::value) {
+        T tmp(std::forward<Args>(args)...);
+        val().~T();
+        ::new (valptr()) T(std::move(tmp));
+      } else if constexpr (std::is_move_constructible<T>::value &&
+                           std::is_move_assignable<T>::value) {
+        val() = T(std::forward<Args>(args)...);
+      } else {
+        val().~T();
+        ::new (valptr()) T(std::forward<Args>(args)...);
+      }
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
-- 
2.43.0


From 66f00dc98572635ef2d01d33096cb43810f373f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:42 +0000
Subject: [PATCH 11/16] fix: do not construct a converted expected over a
 default-constructed value

---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 1737145..0e8666d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1702,7 +1702,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1717,7 +1718,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1731,7 +1733,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1745,7 +1748,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From 8362ec744bd3195597bf170b19acb0a4e99a3a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 12/16] fix: let translations of one scalar type convert to
 another

---
 include/trajopt/geometry/Translation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From cf90a7a25c115906d1e33959ca0d7e37902b14ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:25 +0000
Subject: [PATCH 13/16] fix: let a symbolic rotation be rotated by a numeric
 one

---
 include/trajopt/geometry/Rotation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Rotation2.hpp b/include/trajopt/geometry/Rotation2.hpp
index 148665b..af452b2 100644
--- a/include/trajopt/geometry/Rotation2.hpp
+++ b/include/trajopt/geometry/Rotation2.hpp
@@ -90,7 +90,7 @@ class Rotation2 {
    * @return The new rotated rotation.
    */
   template <typename U>
-  constexpr Rotation2<U> RotateBy(const Rotation2<U>& other) const {
+  constexpr auto RotateBy(const Rotation2<U>& other) const {
     using R = decltype(std::declval<T>() + std::declval<U>());
     return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                         Cos() * other.Sin() + Sin() * other.Cos()};
-- 
2.43.0


From 082806a5a0c788ed2dfd630e631f9e5ddcd4e94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:24 +0000
Subject: [PATCH 14/16] fix: copy a constraint before applying it to the path
 it may belong to

---
 include/trajopt/path/SwervePathBuilder.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/trajopt/path/SwervePathBuilder.hpp b/include/trajopt/path/SwervePathBuilder.hpp
index 421c701..1993848 100644
--- a/include/trajopt/path/SwervePathBuilder.hpp
+++ b/include/trajopt/path/SwervePathBuilder.hpp
@@ -138,11 +138,15 @@ class TRAJOPT_DLLEXPORT SwervePathBuilder {
                       const Constraint& constraint) {
     assert(fromIndex < toIndex);
 
+    // The argument may be one of the path's own constraints, which are relocated
+    // while constraints are added
+    const Constraint newConstraint = constraint;
+
     NewWpts(toIndex);
-    path.waypoints.at(fromIndex).waypointConstraints.push_back(constraint);
+    path.waypoints.at(fromIndex).waypointConstraints.push_back(newConstraint);
     for (size_t index = fromIndex + 1; index <= toIndex; ++index) {
-      path.waypoints.at(index).waypointConstraints.push_back(constraint);
-      path.waypoints.at(index).segmentConstraints.push_back(constraint);
+      path.waypoints.at(index).waypointConstraints.push_back(newConstraint);
+      path.waypoints.at(index).segmentConstraints.push_back(newConstraint);
     }
   }
 
-- 
2.43.0


From 66d531e6b1aaae437d2dc4d864915ea352c67910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:25 +0000
Subject: [PATCH 15/16] fix: raise out_of_range for a solution that lacks
 entries a trajectory needs

---
 include/trajopt/trajectory/HolonomicTrajectory.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/trajopt/trajectory/HolonomicTrajectory.hpp b/include/trajopt/trajectory/HolonomicTrajectory.hpp
index dab90cc..6f5c46b 100644
--- a/include/trajopt/trajectory/HolonomicTrajectory.hpp
+++ b/include/trajopt/trajectory/HolonomicTrajectory.hpp
@@ -39,13 +39,13 @@ class TRAJOPT_DLLEXPORT HolonomicTrajectory {
     double ts = 0.0;
     for (size_t samp = 0; samp < solution.x.size(); ++samp) {
       if (samp != 0) {
-        ts += solution.dt[samp - 1];
+        ts += solution.dt.at(samp - 1);
       }
       samples.emplace_back(
-          ts, solution.x[samp], solution.y[samp],
-          std::atan2(solution.thetasin[samp], solution.thetacos[samp]),
-          solution.vx[samp], solution.vy[samp], solution.omega[samp],
-          solution.moduleFX[samp], solution.moduleFY[samp]);
+          ts, solution.x.at(samp), solution.y.at(samp),
+          std::atan2(solution.thetasin.at(samp), solution.thetacos.at(samp)),
+          solution.vx.at(samp), solution.vy.at(samp), solution.omega.at(samp),
+          solution.moduleFX.at(samp), solution.moduleFY.at(samp));
     }
   }
 };
-- 
2.43.0


From 893bfbc672922bf2abd33e87fcf5a62dde937adf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:57 +0000
Subject: [PATCH 16/16] fix: start with a zero mass and inertia until a
 drivetrain is set

---
 include/trajopt/drivetrain/SwerveDrivetrain.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/drivetrain/SwerveDrivetrain.hpp b/include/trajopt/drivetrain/SwerveDrivetrain.hpp
index 7205707..36aa381 100644
--- a/include/trajopt/drivetrain/SwerveDrivetrain.hpp
+++ b/include/trajopt/drivetrain/SwerveDrivetrain.hpp
@@ -17,9 +17,9 @@ namespace trajopt {
  */
 struct TRAJOPT_DLLEXPORT SwerveDrivetrain {
   /// the mass of the robot (kg)
-  double mass;
+  double mass = 0.0;
   /// the moment of inertia of the robot about the origin (kg−m²)
-  double moi;
+  double moi = 0.0;
   /// The list of swerve modules that make the robot move, usually one in each
   /// corner.
   std::vector<SwerveModule> modules;
-- 
2.43.0

