From 4bcac6e5a276f1b743e2d4cb04ca6813cabbd0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 01/11] fix: close obstacle polygons with the obstacle's last
 corner

The edge joining an obstacle's last corner to its first was built from the
corner at index bumperCornerCount - 1, so obstacles with a different number of
corners than the bumpers got the wrong edge, or threw std::out_of_range.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 73afbc4..3d1499b 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -104,7 +104,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
         if (obstacleCornerCount >= 3) {
           WptConstraint(index, PointLineConstraint{
                                    bumperCorner,
-                                   obstacle.points.at(bumperCornerCount - 1),
+                                   obstacle.points.at(obstacleCornerCount - 1),
                                    obstacle.points.at(0), minDistance});
         }
       } else {
@@ -168,7 +168,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
           SgmtConstraint(
               fromIndex, toIndex,
               PointLineConstraint{bumperCorner,
-                                  obstacle.points.at(bumperCornerCount - 1),
+                                  obstacle.points.at(obstacleCornerCount - 1),
                                   obstacle.points.at(0), minDistance});
         }
       } else {
-- 
2.43.0


From 3293c4035f207792cd16be325b454d2fef74e40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:53 +0000
Subject: [PATCH 02/11] fix: keep applying an obstacle to the remaining bumpers

A single-point bumper meeting a single-point obstacle returned from
WptObstacle()/SgmtObstacle(), so every bumper added after it was not kept clear
of the obstacle.
---
 src/path/SwervePathBuilder.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/path/SwervePathBuilder.cpp b/src/path/SwervePathBuilder.cpp
index 3d1499b..c3d9663 100644
--- a/src/path/SwervePathBuilder.cpp
+++ b/src/path/SwervePathBuilder.cpp
@@ -66,7 +66,7 @@ void SwervePathBuilder::WptObstacle(size_t index, const Obstacle& obstacle) {
       WptConstraint(index,
                     PointPointConstraint{_bumpers.points.at(0),
                                          obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
@@ -128,7 +128,7 @@ void SwervePathBuilder::SgmtObstacle(size_t fromIndex, size_t toIndex,
       SgmtConstraint(fromIndex, toIndex,
                      PointPointConstraint{_bumpers.points.at(0),
                                           obstacle.points.at(0), minDistance});
-      return;
+      continue;
     }
 
     // robot bumper edge to obstacle point constraints
-- 
2.43.0


From c0465da01247f73920102b87556dc648d3c7fe3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 03/11] fix: bound the distance, not its square, in the
 line-point constraints

detail::LinePointDistance() returns a squared distance, which
LinePointConstraint and PointLineConstraint squared again before comparing it
with the squared minimum distance: a minimum distance of 4 m only kept the
robot 2 m away, and one of 0.25 m kept it 0.5 m away.
---
 include/trajopt/constraint/LinePointConstraint.hpp | 3 ++-
 include/trajopt/constraint/PointLineConstraint.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/constraint/LinePointConstraint.hpp b/include/trajopt/constraint/LinePointConstraint.hpp
index ded526c..07f734e 100644
--- a/include/trajopt/constraint/LinePointConstraint.hpp
+++ b/include/trajopt/constraint/LinePointConstraint.hpp
@@ -62,7 +62,8 @@ class TRAJOPT_DLLEXPORT LinePointConstraint {
     auto lineEnd =
         pose.Translation() + m_robotLineEnd.RotateBy(pose.Rotation());
     auto dist = detail::LinePointDistance(lineStart, lineEnd, m_fieldPoint);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    // LinePointDistance() returns the squared distance
+    problem.SubjectTo(dist >= m_minDistance * m_minDistance);
   }
 
  private:
diff --git a/include/trajopt/constraint/PointLineConstraint.hpp b/include/trajopt/constraint/PointLineConstraint.hpp
index 13f362b..80977cd 100644
--- a/include/trajopt/constraint/PointLineConstraint.hpp
+++ b/include/trajopt/constraint/PointLineConstraint.hpp
@@ -60,7 +60,8 @@ class TRAJOPT_DLLEXPORT PointLineConstraint {
     auto point = pose.Translation() + m_robotPoint.RotateBy(pose.Rotation());
     auto dist =
         detail::LinePointDistance(m_fieldLineStart, m_fieldLineEnd, point);
-    problem.SubjectTo(dist * dist >= m_minDistance * m_minDistance);
+    // LinePointDistance() returns the squared distance
+    problem.SubjectTo(dist >= m_minDistance * m_minDistance);
   }
 
  private:
-- 
2.43.0


From 2223d6b6d55014301da02316d15ba5ac795e5c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:24 +0000
Subject: [PATCH 04/11] fix: let Translation2's coercing constructor compile

It read the private members of another specialization, so converting a
Translation2d to a Translation2v (and a Pose2d to a Pose2v) did not compile.
---
 include/trajopt/geometry/Translation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Translation2.hpp b/include/trajopt/geometry/Translation2.hpp
index 8b2ad7c..47384e5 100644
--- a/include/trajopt/geometry/Translation2.hpp
+++ b/include/trajopt/geometry/Translation2.hpp
@@ -55,7 +55,7 @@ class Translation2 {
    */
   template <typename U>
   constexpr explicit Translation2(const Translation2<U>& other)
-      : m_x{other.m_x}, m_y{other.m_y} {}
+      : m_x{other.X()}, m_y{other.Y()} {}
 
   /**
    * Returns the x component of the translation.
-- 
2.43.0


From 19678425efcfc4dd9ea0f6525bcbaf4bad6d195d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 05/11] fix: return the common type from Rotation2::RotateBy()

Rotating a Rotation2v by a Rotation2d computed a Rotation2v and then did not
compile, because the declared return type was Rotation2d.
---
 include/trajopt/geometry/Rotation2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/geometry/Rotation2.hpp b/include/trajopt/geometry/Rotation2.hpp
index 148665b..af452b2 100644
--- a/include/trajopt/geometry/Rotation2.hpp
+++ b/include/trajopt/geometry/Rotation2.hpp
@@ -90,7 +90,7 @@ class Rotation2 {
    * @return The new rotated rotation.
    */
   template <typename U>
-  constexpr Rotation2<U> RotateBy(const Rotation2<U>& other) const {
+  constexpr auto RotateBy(const Rotation2<U>& other) const {
     using R = decltype(std::declval<T>() + std::declval<U>());
     return Rotation2<R>{Cos() * other.Cos() - Sin() * other.Sin(),
                         Cos() * other.Sin() + Sin() * other.Cos()};
-- 
2.43.0


From 8e73130de0bbc8b570ccef61ce8c362d2c353ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:43 +0000
Subject: [PATCH 06/11] fix: throttle progress callbacks per generator

The time of the last progress update was a function-local static, so
generators shared it: one generator's updates suppressed another's, and
generators running on different threads raced on it.
---
 src/SwerveTrajectoryGenerator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 173e752..14f4403 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -42,12 +42,13 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle] {
+  callbacks.emplace_back([this, handle = handle,
+                          lastFrameTime =
+                              std::chrono::steady_clock::now()]() mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
     // FPS limit on sending updates
-    static auto lastFrameTime = std::chrono::steady_clock::now();
     auto now = std::chrono::steady_clock::now();
     if (now - lastFrameTime < timePerFrame) {
       return;
-- 
2.43.0


From e231b8cfe6327cc6de2e75639fa906cd74f9cbe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 07/11] fix: compare errors with != in expected<void, E>'s
 operator!=

---
 include/trajopt/util/expected | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index 3163b07..b4c348d 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -2463,7 +2463,7 @@ constexpr bool operator!=(const expected<void, E>& lhs,
                           const expected<void, F>& rhs) {
   return (lhs.has_value() != rhs.has_value())
              ? true
-             : (!lhs.has_value() ? lhs.error() == rhs.error() : false);
+             : (!lhs.has_value() ? lhs.error() != rhs.error() : false);
 }
 
 template <class T, class E, class U>
-- 
2.43.0


From 6f5fc36f144b324b9914b35a15fcbd71cb1322c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 08/11] fix: restore an expected by construction, not by
 assigning to a destroyed object

---
 include/trajopt/util/expected | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index b4c348d..ead70be 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -799,7 +799,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(rhs.get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(geterr())) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -834,7 +834,7 @@ struct expected_operations_base : expected_storage_base<T, E> {
       try {
         construct(std::move(rhs).get());
       } catch (...) {
-        geterr() = std::move(tmp);
+        ::new (std::addressof(geterr())) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1779,7 +1779,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<U>(v));
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1848,7 +1848,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1888,7 +1888,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
         ::new (valptr()) T(il, std::forward<Args>(args)...);
         this->m_has_val = true;
       } catch (...) {
-        err() = std::move(tmp);
+        ::new (errptr()) unexpected<E>(std::move(tmp));
         throw;
       }
 #else
@@ -1951,7 +1951,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (rhs.valptr()) T(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      val() = std::move(temp);
+      ::new (valptr()) T(std::move(temp));
       throw;
     }
 #else
@@ -1974,7 +1974,7 @@ class expected : private detail::expected_move_assign_base<T, E>,
       ::new (errptr()) unexpected_type(std::move(temp));
       std::swap(this->m_has_val, rhs.m_has_val);
     } catch (...) {
-      rhs.err() = std::move(temp);
+      ::new (rhs.errptr()) unexpected_type(std::move(temp));
       throw;
     }
 #else
-- 
2.43.0


From 796137abeb2da78b2d2078e8979fb2c26cef97a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 09/11] fix: do not default-construct the value in expected's
 converting constructors

---
 include/trajopt/util/expected | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index ead70be..f6b9834 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1668,7 +1668,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
             detail::expected_enable_from_other<T, E, U, G, const U&,
                                                const G&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1683,7 +1684,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
       detail::expected_enable_from_other<T, E, U, G, const U&, const G&>* =
           nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(const expected<U, G>& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(*rhs);
     } else {
@@ -1697,7 +1699,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                             std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   explicit TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
@@ -1711,7 +1714,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                            std::is_convertible<G&&, E>::value)>* = nullptr,
       detail::expected_enable_from_other<T, E, U, G, U&&, G&&>* = nullptr>
   TRAJOPT_EXPECTED_11_CONSTEXPR expected(expected<U, G>&& rhs)
-      : ctor_base(detail::default_constructor_tag{}) {
+      : impl_base(detail::no_init),
+        ctor_base(detail::default_constructor_tag{}) {
     if (rhs.has_value()) {
       this->construct(std::move(*rhs));
     } else {
-- 
2.43.0


From 7e7c9cf8a96123bf8088ffbb2fa6262ae42f5e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:31:25 +0000
Subject: [PATCH 10/11] fix: keep expected's value when emplace() throws

---
 include/trajopt/util/expected | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/trajopt/util/expected b/include/trajopt/util/expected
index f6b9834..ed42ff6 100644
--- a/include/trajopt/util/expected
+++ b/include/trajopt/util/expected
@@ -1841,8 +1841,8 @@ class expected : private detail::expected_move_assign_base<T, E>,
                                T, Args&&...>::value>* = nullptr>
   void emplace(Args&&... args) {
     if (has_value()) {
-      val().~T();
-      ::new (valptr()) T(std::forward<Args>(args)...);
+      T t(std::forward<Args>(args)...);
+      val() = std::move(t);
     } else {
       auto tmp = std::move(err());
       err().~unexpected<E>();
-- 
2.43.0


From 64a9c48f9ba4ca06af5db059a76f4e0ee4140fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:56 +0000
Subject: [PATCH 11/11] fix: let copies of a generator report their own
 solution

The progress callback captured the generator it was made for, so a
generator that was copied or moved (e.g. by a growing vector) used the
original, which may be gone.
---
 include/trajopt/SwerveTrajectoryGenerator.hpp |  2 +-
 src/SwerveTrajectoryGenerator.cpp             | 14 ++++++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/trajopt/SwerveTrajectoryGenerator.hpp b/include/trajopt/SwerveTrajectoryGenerator.hpp
index 4e31baf..2b85f2c 100644
--- a/include/trajopt/SwerveTrajectoryGenerator.hpp
+++ b/include/trajopt/SwerveTrajectoryGenerator.hpp
@@ -70,7 +70,7 @@ class TRAJOPT_DLLEXPORT SwerveTrajectoryGenerator {
   std::vector<size_t> N;
 
   sleipnir::OptimizationProblem problem;
-  std::vector<std::function<void()>> callbacks;
+  std::vector<std::function<void(SwerveTrajectoryGenerator&)>> callbacks;
 
   void ApplyInitialGuess(const SwerveSolution& solution);
 
diff --git a/src/SwerveTrajectoryGenerator.cpp b/src/SwerveTrajectoryGenerator.cpp
index 14f4403..a454e7f 100644
--- a/src/SwerveTrajectoryGenerator.cpp
+++ b/src/SwerveTrajectoryGenerator.cpp
@@ -42,9 +42,11 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
     : path(pathBuilder.GetPath()), N(pathBuilder.GetControlIntervalCounts()) {
   auto initialGuess = pathBuilder.CalculateInitialGuess();
 
-  callbacks.emplace_back([this, handle = handle,
-                          lastFrameTime =
-                              std::chrono::steady_clock::now()]() mutable {
+  // The generator is passed in instead of captured, so that copies of a
+  // generator report their own solution
+  callbacks.emplace_back([handle = handle,
+                          lastFrameTime = std::chrono::steady_clock::now()](
+                             SwerveTrajectoryGenerator& generator) mutable {
     constexpr int fps = 60;
     constexpr std::chrono::duration<double> timePerFrame{1.0 / fps};
 
@@ -56,8 +58,8 @@ SwerveTrajectoryGenerator::SwerveTrajectoryGenerator(
 
     lastFrameTime = now;
 
-    auto soln = ConstructSwerveSolution();
-    for (auto& callback : this->path.callbacks) {
+    auto soln = generator.ConstructSwerveSolution();
+    for (auto& callback : generator.path.callbacks) {
       callback(soln, handle);
     }
   });
@@ -277,7 +279,7 @@ expected<SwerveSolution, std::string> SwerveTrajectoryGenerator::Generate(
   GetCancellationFlag() = 0;
   problem.Callback([this](const sleipnir::SolverIterationInfo&) -> bool {
     for (auto& callback : callbacks) {
-      callback();
+      callback(*this);
     }
     return trajopt::GetCancellationFlag();
   });
-- 
2.43.0

