From 86ee9e7aab1f8344542dd8e983fa09fa3ccac599 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:13 +0000
Subject: [PATCH 01/58] fix: change_twist_reference_frame returned nothing,
 apply the adjoint as documented

---
 eigen_ext/include/eigen_ext/geometry.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index 42ce308..c0a91b1 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -316,7 +316,9 @@ Eigen::Matrix<Scalar, 6, 6> transform_adjoint(const Eigen::Transform<Scalar, 3,
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 6, 1> change_twist_reference_frame(const Eigen::Transform<Scalar, 3, Eigen::Isometry>& transform,
-        const Eigen::Matrix<Scalar, 6, 1>& twist) {}
+        const Eigen::Matrix<Scalar, 6, 1>& twist) {
+    return transform_adjoint(transform) * twist;
+}
 
 }
 
-- 
2.43.0


From 6126545e70e6eef5d5b07195a1a1e73ce2ea7ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:47 +0000
Subject: [PATCH 02/58] fix: cartesian_to_polar azimuth must normalise x by the
 planar radius

---
 eigen_ext/include/eigen_ext/geometry.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/geometry.hpp b/eigen_ext/include/eigen_ext/geometry.hpp
index c0a91b1..e244c22 100644
--- a/eigen_ext/include/eigen_ext/geometry.hpp
+++ b/eigen_ext/include/eigen_ext/geometry.hpp
@@ -203,7 +203,7 @@ Eigen::Matrix<Scalar, 3, 1> cartesian_to_polar(const Scalar x, const Scalar y, c
     if (x2_plus_y2 == 0.0) {
         throw std::runtime_error("Failed to convert from cartesian to polar coordinates. x and y are zero.");
     }
-    const Scalar a_ = std::acos(x / x2_plus_y2);
+    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
     const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
     const Scalar e = std::acos(z / r);
     return Eigen::Matrix<Scalar, 3, 1>{r, a, e};
-- 
2.43.0


From 2cf5444468a042b36742c59caa8e91350a95e4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:41:48 +0000
Subject: [PATCH 03/58] fix: precomputed transform components were NaN for a
 zero rotation vector

---
 .../include/eigen_ext/precomputed_transform_components.hpp      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
index af9076e..8e7b70f 100644
--- a/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
+++ b/eigen_ext/include/eigen_ext/precomputed_transform_components.hpp
@@ -48,7 +48,7 @@ PrecomputedTransformComponents<Scalar>::PrecomputedTransformComponents(const Eig
     : r_(r),
       t_(t) {
     a_ = r_.norm();
-    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};
+    const Eigen::AngleAxis<Scalar> angleaxis{a_, r_.normalized()};
     R_ = angleaxis.toRotationMatrix();
     sina_ = std::sin(a_);
     cosa_ = std::cos(a_);
-- 
2.43.0


From 0ab605993b1fc28a82b7099df4fb2a1f8a05785e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:42:49 +0000
Subject: [PATCH 04/58] fix: reorder_covariance did not size its result for
 dynamic matrices

---
 eigen_ext/include/eigen_ext/covariance.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/covariance.hpp b/eigen_ext/include/eigen_ext/covariance.hpp
index f9d4cbc..00d3683 100644
--- a/eigen_ext/include/eigen_ext/covariance.hpp
+++ b/eigen_ext/include/eigen_ext/covariance.hpp
@@ -67,7 +67,7 @@ Derived reorder_covariance(const Eigen::MatrixBase<Derived>& covariance, const E
     if (boundary >= size) {
         throw std::runtime_error("Reorder boundary outside of covariance matrix.");
     }
-    Derived reordered_covariance;
+    Derived reordered_covariance(size, size);
     reordered_covariance << covariance.block(boundary, boundary, size - boundary, size - boundary),
             covariance.block(boundary, 0, size - boundary, boundary),
             covariance.block(0, boundary, boundary, size - boundary), covariance.block(0, 0, boundary, boundary);
-- 
2.43.0


From ad050867defec1e1b982778bbf7a41dfeb238122 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:58 +0000
Subject: [PATCH 05/58] fix: from_skew_symmetric accepted matrices that are not
 skew-symmetric

---
 eigen_ext/include/eigen_ext/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eigen_ext/include/eigen_ext/matrix.hpp b/eigen_ext/include/eigen_ext/matrix.hpp
index 87a27a9..6d12e53 100644
--- a/eigen_ext/include/eigen_ext/matrix.hpp
+++ b/eigen_ext/include/eigen_ext/matrix.hpp
@@ -81,7 +81,7 @@ Eigen::Matrix<Scalar, 3, 3> skew_symmetric(const Eigen::Matrix<Scalar, 3, 1>& v)
 
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> from_skew_symmetric(const typename Eigen::Matrix<Scalar, 3, 3>& matrix) {
-    if (matrix.diagonal().maxCoeff() > 0.0) {
+    if (!matrix.isApprox(-matrix.transpose())) {
         std::stringstream ss;
         ss << "Matrix was not skew-symmetric, was:\n" << matrix;
         throw std::runtime_error(ss.str());
-- 
2.43.0


From ed125f8d1557ae6a4b95751b95ccc3132daf8855 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:41 +0000
Subject: [PATCH 06/58] fix: window sums started from uninitialised
 accumulators

---
 serpent/src/front_end/stereo/window_functions.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/stereo/window_functions.cpp b/serpent/src/front_end/stereo/window_functions.cpp
index 14fc361..20d98cf 100644
--- a/serpent/src/front_end/stereo/window_functions.cpp
+++ b/serpent/src/front_end/stereo/window_functions.cpp
@@ -10,7 +10,7 @@ bool window_within_image(const cv::Mat& image, const cv::Point2i& top_left, cons
 }
 
 double window_sum(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double sum;
+    double sum{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));
@@ -24,7 +24,7 @@ double window_mean(const cv::Mat& image, const cv::Point2i& top_left, const cv::
 }
 
 double window_sum_squares(const cv::Mat& image, const cv::Point2i& top_left, const cv::Size& window) {
-    double squares;
+    double squares{0.0};
     for (int row = 0; row < window.height; ++row) {
         for (int col = 0; col < window.width; ++col) {
             squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);
-- 
2.43.0


From 35408dea1f26a8b46f972ae495d95262bfbd2043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 07/58] fix: ratio test ignored a second-best candidate found
 after the best one

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 65cece7..50742da 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -69,6 +69,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
             second_cost = cost;
             cost = window_cost;
             min_cost_top_left_x = search_image_top_left.x;
+        } else if (window_cost < second_cost) {
+            second_cost = window_cost;
         }
         search_image_top_left.x += increment;
     }
@@ -153,6 +155,8 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
                     second_cost = cost;
                     cost = window_cost;
                     min_cost_index = i;
+                } else if (window_cost < second_cost) {
+                    second_cost = window_cost;
                 }
             }
         }
-- 
2.43.0


From 5dac910aecdb6d1576644dda6dddd242c266f5c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 08/58] fix: report keypoints whose window leaves the image as
 unmatched instead of leaving the outputs unset

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 50742da..42a8158 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -49,6 +49,8 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
+        matched = false;
         return cv::KeyPoint{};
     }
 
@@ -131,6 +133,7 @@ int StereoKeyPointMatcher::keypoint_index_in_other_image(const cv::KeyPoint& ima
 
     // Validity check
     if (!window_within_image(reference_image, reference_image_top_left, window)) {
+        cost = std::numeric_limits<double>::max();
         return -1;
     }
 
-- 
2.43.0


From d89726bcb22e54163da828dbde02b59d6a565bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:48:02 +0000
Subject: [PATCH 09/58] fix: bidirectional scan reused the statistics of the
 original window for the reverse windows

---
 serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
index 42a8158..e7a11a7 100644
--- a/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
+++ b/serpent/src/front_end/stereo/stereo_keypoint_matcher.cpp
@@ -83,7 +83,7 @@ cv::KeyPoint StereoKeyPointMatcher::keypoint_in_other_image(const cv::KeyPoint&
         cv::Point2i reverse_reference_image_top_left = search_image_top_left;
         while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||
                 (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {
-            const double window_cost = cost_function(
+            const double window_cost = generate_cost_function(reference_image, reverse_reference_image_top_left)(
                     reference_image, search_image, reverse_reference_image_top_left, search_image_top_left, window);
             if (reverse_reference_image_top_left.x != reference_image_top_left.x && window_cost < cost) {
                 matched = false;
-- 
2.43.0


From 6aa1200fb710484d64a9faed41bc4fdda6bb2b1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:32 +0000
Subject: [PATCH 10/58] fix: stereo distance filter did not store focal length
 and baseline for later updates

---
 serpent/src/front_end/stereo/match_filters.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/match_filters.cpp b/serpent/src/front_end/stereo/match_filters.cpp
index 286dfe0..e0a740c 100644
--- a/serpent/src/front_end/stereo/match_filters.cpp
+++ b/serpent/src/front_end/stereo/match_filters.cpp
@@ -74,7 +74,7 @@ float StereoMatchFilter::vertical_pixel_threshold() const {
 
 StereoDistanceFilter::StereoDistanceFilter(
         const float fx, const float baseline, const float max_distance, const float min_distance)
-    : fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
+    : fx(fx), baseline(baseline), fx_b(fx * baseline), max_distance(max_distance), min_distance(min_distance) {}
 
 cv::Ptr<StereoDistanceFilter> StereoDistanceFilter::create(
         const float fx, const float baseline, const float max_distance, const float min_distance) {
-- 
2.43.0


From c80cd233965d17f99200059c4dd5a1d21b67f9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:32 +0000
Subject: [PATCH 11/58] fix: stereo_project read past the end of the point
 instead of its depth

---
 .../include/serpent/front_end/stereo/stereo_equations-inl.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
index 666eddf..3a3a338 100644
--- a/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
+++ b/serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp
@@ -21,13 +21,13 @@ Eigen::Matrix<Scalar, 3, 1> stereo_backproject(const Eigen::Matrix<Scalar, 3, 1>
 template<typename Scalar>
 Eigen::Matrix<Scalar, 3, 1> stereo_project(
         const Eigen::Matrix<Scalar, 3, 1>& point, const Eigen::Matrix<Scalar, 3, 3>& intrinsic, const Scalar baseline) {
-    if (point[3] <= 0.0) {
+    if (point[2] <= 0.0) {
         throw std::runtime_error("Point is on or behind the image plane - cannot project onto plane.");
     }
     return Eigen::Matrix<Scalar, 3, 1>{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)} +
            Eigen::Matrix<Scalar, 3, 1>{
                    intrinsic(0, 0) * point[0], intrinsic(0, 0) * (point[0] - baseline), intrinsic(1, 1) * point[1]} /
-                   point[3];
+                   point[2];
 }
 
 }
-- 
2.43.0


From c95d867dbeb8f00fd4c40e2084f40fa1900bec19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:25 +0000
Subject: [PATCH 12/58] fix: pose constructors of PointAngleAxis left the
 homogeneous padding uninitialised

---
 pointcloud_tools/src/point_types.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pointcloud_tools/src/point_types.cpp b/pointcloud_tools/src/point_types.cpp
index 22d2999..6573f42 100644
--- a/pointcloud_tools/src/point_types.cpp
+++ b/pointcloud_tools/src/point_types.cpp
@@ -124,22 +124,32 @@ PointAngleAxis::PointAngleAxis(const _PointAngleAxis& p) {
 }
 
 PointAngleAxis::PointAngleAxis(const Eigen::Isometry3f& pose) {
+    data[3] = 1.0f;
+    data_r[3] = 0.0f;
     setPose(pose);
 }
 
 PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::AngleAxisf& angle_axis) {
+    data[3] = 1.0f;
+    data_r[3] = 0.0f;
     setPose(position, angle_axis);
 }
 
 PointAngleAxis::PointAngleAxis(const Eigen::Vector3f& position, const Eigen::Quaternionf& quaternion) {
+    data[3] = 1.0f;
+    data_r[3] = 0.0f;
     setPose(position, quaternion);
 }
 
 PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Quaternionf& quaternion) {
+    data[3] = 1.0f;
+    data_r[3] = 0.0f;
     setPose(position, quaternion);
 }
 
 PointAngleAxis::PointAngleAxis(const Eigen::Translation<float, 3>& position, const Eigen::Matrix3f& rotation_matrix) {
+    data[3] = 1.0f;
+    data_r[3] = 0.0f;
     setPose(position, rotation_matrix);
 }
 
-- 
2.43.0


From ad355c22a74b2e362d4ef07d21f79600dc05fa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:06:50 +0000
Subject: [PATCH 13/58] fix: check_normals did not count NaN normals as
 unnormalised

---
 .../include/pointcloud_tools/impl/pclpointcloud_utilities.hpp  | 3 ++-
 pointcloud_tools/src/pclpointcloud2_utilities.cpp              | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp
index 9b977f2..a46183c 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp
@@ -21,7 +21,8 @@ int check_normals(const pcl::PointCloud<PointT>& pointcloud, const decltype(Poin
     for (std::size_t i = 0; i < pointcloud.size(); ++i) {
         const Eigen::Matrix<decltype(PointT::normal_x), 3, 1> normal{pointcloud[i].normal_x, pointcloud[i].normal_y,
                 pointcloud[i].normal_z};
-        if (std::abs(normal.norm() - static_cast<decltype(PointT::normal_x)>(1.0)) > threshold) {
+        // Negated so that NaN normals are counted
+        if (!(std::abs(normal.norm() - static_cast<decltype(PointT::normal_x)>(1.0)) <= threshold)) {
             ++unnormalised_normals;
         }
     }
diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 68aa608..81c3e0d 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -66,7 +66,7 @@ int check_normals(const pcl::PCLPointCloud2& pointcloud, const float threshold)
     for (std::size_t i = 0; i < num_points; ++i) {
         const Eigen::Vector3f normal{get_normal_x_field_data(pointcloud, i), get_normal_y_field_data(pointcloud, i),
                 get_normal_z_field_data(pointcloud, i)};
-        if (std::abs(normal.norm() - 1.f) > threshold) {
+        if (!(std::abs(normal.norm() - 1.f) <= threshold)) {  // negated so that NaN normals are counted
             ++unnormalised_count;
         }
     }
-- 
2.43.0


From 44bde49abdc3336bd081ec1e0d6c9c893c863fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:19:03 +0000
Subject: [PATCH 14/58] fix: compute_registration_correspondences reported
 positions in the index subset as source indices

---
 .../include/pointcloud_tools/impl/registration_utilities.hpp    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
index 9d69c02..50c3339 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp
@@ -41,7 +41,7 @@ pcl::CorrespondencesPtr compute_registration_correspondences(
             // Search for transformed point: p_{T} = T_{T}^{S} * p_{S}
             source_point.getVector4fMap() = transform * registration[i].getVector4fMap();  // Source point from indices
             if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {
-                correspondences->emplace_back(i, index[0], std::sqrt(sq_dist[0]));
+                correspondences->emplace_back((*registration.getIndices())[i], index[0], std::sqrt(sq_dist[0]));
             }
         }
     }
-- 
2.43.0


From 47eeb793b16cce4722df9d3054ac25d66c5d1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:24:02 +0000
Subject: [PATCH 15/58] fix: censi_range_bias_covariance dropped the
 off-diagonal range noise of each point

---
 .../front_end/lidar/registration_covariance-inl.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
index 64d6f83..16ffbff 100644
--- a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
@@ -143,14 +143,13 @@ Eigen::Matrix<double, 6, 6> censi_range_bias_covariance(
     }
     const Eigen::Matrix<double, 6, 6> half_d2F_dx2_inv = half_d2F_dx2.inverse();
 
-    // Construct Sigma_z where the diagonals are multiplied by (range_variance + range_bias_variance), rest by
+    // Construct Sigma_z where the 3x3 diagonal blocks are multiplied by (range_variance + range_bias_variance), rest by
     // range_bias_variance. TODO: test speed of alternatives.
-    Eigen::MatrixXd Sigma_z = (unit_vectors * unit_vectors.transpose()).cast<double>();
-    const Eigen::VectorXd diagonal = Sigma_z.diagonal();
-    // or: const Eigen::Diagonal<Eigen::MatrixXd, 0> diagonal = Sigma_z.diagonal();
-    Sigma_z *= range_bias_variance;
-    Sigma_z.diagonal() += range_variance * diagonal;
-    // or: Sigma_z += (range_variance * diagonal).asDiagonal();
+    const Eigen::VectorXd u = unit_vectors.cast<double>();
+    Eigen::MatrixXd Sigma_z = range_bias_variance * (u * u.transpose());
+    for (Eigen::Index i = 0; i < u.size(); i += 3) {
+        Sigma_z.block<3, 3>(i, i) += range_variance * (u.segment<3>(i) * u.segment<3>(i).transpose());
+    }
 
     // Use brackets to ensure that the Nx6K * 6Kx6K * 6KxN multiplication occurs first.
     return half_d2F_dx2_inv * (half_d2F_dzdx * Sigma_z * half_d2F_dzdx.transpose()) * half_d2F_dx2_inv;
-- 
2.43.0


From fef8152d60dba0222b5bdc23545e69785df52430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:44 +0000
Subject: [PATCH 16/58] fix: non-linear registration covariance was NaN for a
 zero rotation and inaccurate for tiny ones

---
 .../lidar/registration_covariance-inl.hpp     | 25 +++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
index 16ffbff..17492ef 100644
--- a/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp
@@ -5,6 +5,9 @@
 
 namespace serpent {
 
+// The generated non-linear derivatives divide by powers of the angle, so use their limit below this angle [rad].
+constexpr double MIN_NONLINEAR_ANGLE = 1.0e-5;
+
 template<typename Model, typename Scalar>
 Eigen::Matrix<double, 6, 6> censi_iid_covariance(
         typename pcl::Registration<typename Model::PointSource, typename Model::PointTarget, Scalar>& registration,
@@ -278,6 +281,14 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    if (tf.a() < MIN_NONLINEAR_ANGLE) {
+        // Limit as the angle approaches zero: linearised model plus the second derivative of the rotation.
+        Eigen::Matrix<double, 6, 6> half_d2F_dx2 =
+                PointToPointIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dx2(tf, p, q);
+        const Eigen::Vector3d e = p + tf.t() - q;
+        half_d2F_dx2.block<3, 3>(0, 0) += 0.5 * (e * p.transpose() + p * e.transpose()) - e.dot(p) * Eigen::Matrix3d::Identity();
+        return half_d2F_dx2;
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1355,6 +1366,9 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPointIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q) {
+    if (tf.a() < MIN_NONLINEAR_ANGLE) {
+        return PointToPointIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dzdx(tf, p, q);
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -1909,6 +1923,14 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dx2(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    if (tf.a() < MIN_NONLINEAR_ANGLE) {
+        // Limit as the angle approaches zero: linearised model plus the second derivative of the rotation.
+        Eigen::Matrix<double, 6, 6> half_d2F_dx2 =
+                PointToPlaneIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dx2(tf, p, q, n);
+        const double d = n.dot(p + tf.t() - q);
+        half_d2F_dx2.block<3, 3>(0, 0) += d * (0.5 * (n * p.transpose() + p * n.transpose()) - n.dot(p) * Eigen::Matrix3d::Identity());
+        return half_d2F_dx2;
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
@@ -3334,6 +3356,9 @@ template<typename PointSource, typename PointTarget>
 Eigen::Matrix<double, 6, 6> PointToPlaneIcpNonlinearModel<PointSource, PointTarget>::compute_half_d2F_dzdx(
         const eigen_ext::PrecomputedTransformComponents<double>& tf, const Eigen::Matrix<double, 3, 1>& p,
         const Eigen::Matrix<double, 3, 1>& q, const Eigen::Matrix<double, 3, 1>& n) {
+    if (tf.a() < MIN_NONLINEAR_ANGLE) {
+        return PointToPlaneIcpLinearisedModel<PointSource, PointTarget>::compute_half_d2F_dzdx(tf, p, q, n);
+    }
     // Aliases
     const double rx{tf.r()[0]};
     const double ry{tf.r()[1]};
-- 
2.43.0


From b141ec96da2b165bad112da6b46aee531579fc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:00 +0000
Subject: [PATCH 17/58] fix: connect first stereo factor of a landmark to the
 state that observed it

When keys without stereo features lie between two frames, the previous
frame's observation was attached to X(key - 1) instead of the state at which
it was made, although missed keys are documented as handled.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 5deb41e..55bcab5 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -168,7 +168,7 @@ void GraphManager::create_stereo_factors_and_values(
                         features_im2->second.find(id) == features_im2->second.end()) {
                     // Previous state factor
                     auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-                            features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,
+                            features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,
                             body_to_stereo_left_cam);
                     factors__.push_back(stereo_factor);
                     new_factors__.push_back(stereo_factor);
-- 
2.43.0


From 6111abdb8f6ba4a900e022aa731923e8401c4c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:00 +0000
Subject: [PATCH 18/58] fix: return stereo landmarks from values(first, last)
 when first has none

The range started with find(first), which is end() when no landmarks were
added at key first, so landmarks added at later keys of the range were lost.
---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 55bcab5..7b9e0f1 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -467,7 +467,7 @@ gtsam::Values GraphManager::values(const int first, const int last) const {
     add_values(extracted_values, values_, V(first), V(last));
     add_values(extracted_values, values_, P(first), P(last));
     // Iterate over (ordered) map of stereo landmark ids
-    auto it = stereo_landmark_ids.find(first);
+    auto it = stereo_landmark_ids.lower_bound(first);
     while (it != stereo_landmark_ids.end() && it->first <= last) {
         for (const int id : it->second) {
             extracted_values.insert(S(id), values_.at(S(id)));
-- 
2.43.0


From 23df35add46d138da60f17926ff3b1a0ae4ebaf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:00 +0000
Subject: [PATCH 19/58] fix: do not dereference the end iterator in add_values

---
 serpent/src/back_end/graph_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 7b9e0f1..724b091 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -454,7 +454,7 @@ void GraphManager::update_from_values(const gtsam::Values& updated_values_) {
 void add_values(
         gtsam::Values& extracted_values, const gtsam::Values& values_, const gtsam::Key first, const gtsam::Key last) {
     auto it = values_.lower_bound(first);
-    while (it->key >= first && it->key <= last) {
+    while (it != values_.end() && it->key >= first && it->key <= last) {
         extracted_values.insert(it->key, it->value);
         ++it;
     }
-- 
2.43.0


From c231123ae98ac2f2c00597d8be86e8d9e5551578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:59:00 +0000
Subject: [PATCH 20/58] fix: refuse stereo features reacquired with the id of a
 lost landmark

create_stereo_factors_and_values documents std::runtime_error for this, but
accepted the frame, overwrote the landmark and, once tracked again, listed it
as new a second time.
---
 serpent/src/back_end/graph_manager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 724b091..0eccb47 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -153,6 +153,13 @@ void GraphManager::create_stereo_factors_and_values(
                     "Failed to create stereo factors and values. Pose X(" + std::to_string(key_) + ") wasn't set.");
         }
 
+        for (const auto& [id, feature] : features) {
+            if (has_stereo_landmark(id) && features_im1->second.find(id) == features_im1->second.end()) {
+                throw std::runtime_error("Failed to create stereo factors and values. Stereo landmark " +
+                                         std::to_string(id) + " was lost and reacquired with the same id.");
+            }
+        }
+
         // Stereo Camera (pose corresponds to current feature set)
         const gtsam::StereoCamera camera = stereo_camera(key_);
 
-- 
2.43.0


From 57d14fc8791f508743013d5d12a95d837635c8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:11 +0000
Subject: [PATCH 21/58] fix: marginalise stereo landmarks with the last state
 that observes them

Landmarks were recorded for marginalisation under their id as if it were a
state key, so they were marginalised at an unrelated time (or never).
---
 serpent/include/serpent/back_end/graph_manager-inl.hpp |  6 +++---
 serpent/include/serpent/back_end/graph_manager.hpp     |  2 +-
 serpent/src/back_end/graph_manager.cpp                 | 10 ++++++++--
 3 files changed, 12 insertions(+), 6 deletions(-)

diff --git a/serpent/include/serpent/back_end/graph_manager-inl.hpp b/serpent/include/serpent/back_end/graph_manager-inl.hpp
index ebabbc4..b8e5c81 100644
--- a/serpent/include/serpent/back_end/graph_manager-inl.hpp
+++ b/serpent/include/serpent/back_end/graph_manager-inl.hpp
@@ -6,12 +6,12 @@
 namespace serpent {
 
 template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
-void GraphManager::add(const int key_, const ValueType& value_) {
+void GraphManager::add(const int key_, const ValueType& value_, const int state_key) {
     assert(key_ >= 0);
     const gtsam::Key raw_key = KeyFunc(key_);
     values_.insert(raw_key, value_);
     new_values_.insert(raw_key, value_);
-    unmarginalised_keys(key_).push_back(raw_key);
+    unmarginalised_keys(state_key).push_back(raw_key);
 }
 
 template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
@@ -21,7 +21,7 @@ void GraphManager::set(const int key_, const ValueType& value_) {
     if (values_.exists(raw_key)) {
         update(raw_key, value_);
     } else {
-        add<KeyFunc>(key_, value_);
+        add<KeyFunc>(key_, value_, key_);
     }
 }
 
diff --git a/serpent/include/serpent/back_end/graph_manager.hpp b/serpent/include/serpent/back_end/graph_manager.hpp
index aa23615..3ebd557 100644
--- a/serpent/include/serpent/back_end/graph_manager.hpp
+++ b/serpent/include/serpent/back_end/graph_manager.hpp
@@ -407,7 +407,7 @@ protected:
     gtsam::FastList<gtsam::Key>& unmarginalised_keys(const int key);
 
     template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
-    void add(const int key, const ValueType& value);
+    void add(const int key, const ValueType& value, const int state_key);
 
     template<gtsam::Key (*KeyFunc)(std::uint64_t), typename ValueType>
     void set(const int key, const ValueType& value);
diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 0eccb47..d0c9280 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -187,8 +187,14 @@ void GraphManager::create_stereo_factors_and_values(
 
                 // Compute landmark position in world frame
                 const gtsam::Point3 landmark = camera.backproject(feature);
-                // Update values
-                set<S>(id, landmark);
+                // Update values (landmarks are marginalised with the last state that observes them)
+                if (has_stereo_landmark(id)) {
+                    update(S(id), landmark);
+                    unmarginalised_keys(features_im1->first).remove(S(id));
+                    unmarginalised_keys(key_).push_back(S(id));
+                } else {
+                    add<S>(id, landmark, key_);
+                }
 
                 // Add current state factor if feature is in i-1
                 auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(
-- 
2.43.0


From 7467ddcb9e04029094d82e2b53cde9507377bb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:02:11 +0000
Subject: [PATCH 22/58] fix: order marginalised keys first before marginalising
 them

ISAM2::marginalizeLeaves requires the keys to be leaves of the bayes tree;
nothing ensured this, and marginalising a state with stereo landmarks crashed.
---
 serpent/src/back_end/graph_manager.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index d0c9280..364f1af 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -610,6 +610,21 @@ void ISAM2GraphManager::marginalise(const int key_) {
     }
     auto marginalisation_keys = extract_unmarginalised_keys(key_);
     marginalisation_key_ = key_;
+    if (marginalisation_keys.empty()) {
+        return;
+    }
+    // Only leaves of the bayes tree can be marginalised, so re-eliminate with the marginalised keys ordered first
+    gtsam::FastMap<gtsam::Key, int> constrained_keys;
+    const gtsam::KeyVector optimiser_keys = optimiser.getLinearizationPoint().keys();
+    for (const gtsam::Key optimiser_key : optimiser_keys) {
+        constrained_keys[optimiser_key] = 1;
+    }
+    for (const gtsam::Key marginalisation_key__ : marginalisation_keys) {
+        constrained_keys[marginalisation_key__] = 0;
+    }
+    const gtsam::FastList<gtsam::Key> reeliminate_keys{optimiser_keys.begin(), optimiser_keys.end()};
+    optimiser.update(gtsam::NonlinearFactorGraph{}, gtsam::Values{}, gtsam::FactorIndices{}, constrained_keys,
+            boost::none, reeliminate_keys);
     optimiser.marginalizeLeaves(marginalisation_keys);
 }
 
-- 
2.43.0


From d85c8274d6af5a0b3812891f15a1b792514d43aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:43 +0000
Subject: [PATCH 23/58] fix: replace the dimensions when a Float64MultiArray
 message is reused

to_ros appended two dimensions on every call, so a reused message became
unreadable (four or more dimensions).
---
 eigen_ros/include/eigen_ros/std_msgs.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/eigen_ros/include/eigen_ros/std_msgs.hpp b/eigen_ros/include/eigen_ros/std_msgs.hpp
index d62221c..8e8b750 100644
--- a/eigen_ros/include/eigen_ros/std_msgs.hpp
+++ b/eigen_ros/include/eigen_ros/std_msgs.hpp
@@ -46,6 +46,7 @@ void to_ros(std_msgs::Float64MultiArray& msg, const Eigen::MatrixBase<Derived>&
         }
     }
     msg.layout.data_offset = 0;
+    msg.layout.dim.clear();
     std_msgs::MultiArrayDimension row_dim;
     row_dim.label = "rows";
     row_dim.size = rows;
-- 
2.43.0


From 59af4076c5cb5701611c56a17a3b7ed2a20a1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:43 +0000
Subject: [PATCH 24/58] fix: rotate the IMU orientation covariance into the new
 frame

The extrinsic was applied the wrong way round: changing frame in two steps
gave another covariance than changing frame directly, unlike for the angular
velocity and linear acceleration covariances.
---
 eigen_ros/src/imu.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/eigen_ros/src/imu.cpp b/eigen_ros/src/imu.cpp
index 5f1a785..ae583ea 100644
--- a/eigen_ros/src/imu.cpp
+++ b/eigen_ros/src/imu.cpp
@@ -21,14 +21,12 @@ Imu::Imu(const Eigen::Quaterniond& orientation, const Eigen::Vector3d& angular_v
       frame(frame) {}
 
 void Imu::change_frame(const Eigen::Quaterniond& to_frame_ext, const Eigen::Quaterniond& from_frame_ext) {
-    const Eigen::Matrix3d to_frame_ext_m = to_frame_ext.matrix();
-    const Eigen::Matrix3d to_frame_ext_m_transpose = to_frame_ext_m.transpose();
     const Eigen::Matrix3d from_frame_ext_m = from_frame_ext.matrix();
     const Eigen::Matrix3d from_frame_ext_m_transpose = from_frame_ext_m.transpose();
 
     // Orientation
     orientation = orientation * to_frame_ext;
-    orientation_covariance = to_frame_ext_m * orientation_covariance * to_frame_ext_m_transpose;
+    orientation_covariance = from_frame_ext_m * orientation_covariance * from_frame_ext_m_transpose;
 
     // Angular velocity
     angular_velocity = from_frame_ext * angular_velocity;
-- 
2.43.0


From e426eefdde8d18e601bf878d4df80d6a3663b1e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:40:49 +0000
Subject: [PATCH 25/58] fix: do not publish dynamic body frames as static
 transforms

Dynamic frames were looked up when the publisher started (which fails if they
are not available yet) and frozen as a static transform, although tf already
provides them.
---
 eigen_ros/src/body_frames_tf.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eigen_ros/src/body_frames_tf.cpp b/eigen_ros/src/body_frames_tf.cpp
index 09fcddf..12aef58 100644
--- a/eigen_ros/src/body_frames_tf.cpp
+++ b/eigen_ros/src/body_frames_tf.cpp
@@ -12,7 +12,8 @@ BodyFramesTf::BodyFramesTf(const std::string& node_namespace)
     std::vector<geometry_msgs::TransformStamped> transforms;
     for (const std::string& frame : body_frames.frames()) {
         const std::string frame_id = body_frames.frame_id(frame);
-        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame)) {
+        if (frame_id != body_frames.body_frame_id() && !body_frames.lookedup_tf(frame) &&
+                !body_frames.is_dynamic(frame)) {
             geometry_msgs::TransformStamped transform;
             transform.header.stamp = ros::Time(0);
             transform.header.frame_id = body_frames.body_frame_id();
-- 
2.43.0


From 47f118675cead89db3f9abc623210b0e6048d7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:43 +0000
Subject: [PATCH 26/58] fix: skip empty intervals when integrating IMU
 measurements

---
 serpent/src/utils/utilities.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/utils/utilities.cpp b/serpent/src/utils/utilities.cpp
index 896fa96..e9674ea 100644
--- a/serpent/src/utils/utilities.cpp
+++ b/serpent/src/utils/utilities.cpp
@@ -45,6 +45,10 @@ void integrate_imu(gtsam::PreintegratedCombinedMeasurements& preint, const std::
             // Integrate from the current imu timestamp (integration_time_end) to the next imu timestamp. Account for
             // the cases where the last imu buffer message is before or after end.
             const ros::Time integration_time_end = (next_it == buffer.cend()) ? end : std::min(next_it->timestamp, end);
+            if (integration_time_end <= integration_time) {
+                // Measurement at the end time or with a repeated timestamp: there is nothing to integrate
+                continue;
+            }
             const double dt = (integration_time_end - integration_time).toSec();
             integration_time = integration_time_end;
             preint.integrateMeasurement(it->linear_acceleration, it->angular_velocity, dt);
-- 
2.43.0


From abc8251b8eb0ed2cf90cb10713bc9b878547f5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 27/58] fix: do not repeat default template arguments of point
 cloud utilities

---
 .../impl/pclpointcloud2_utilities.hpp         | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index a82ea62..c12ec40 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -603,13 +603,13 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return max<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return mean<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -648,7 +648,7 @@ void scale_and_cast_field(pcl::PCLPointCloud2& pointcloud, const std::string& na
     return scale_and_cast_field<type>(pointcloud, name, scale);
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud) {
     auto get_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto get_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -669,22 +669,22 @@ void set_field_data(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& f
     return create_set_field_data_function<InT>(field)(pointcloud, i, value);
 }
 
-template<typename T = double>
+template<typename T>
 T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     return static_cast<T>(std::sqrt(variance<double>(pointcloud, field, mean)));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return standard_deviation<T>(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T standard_deviation(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return standard_deviation<T>(pointcloud, get_field(pointcloud, field_name));
 }
@@ -705,7 +705,7 @@ inline T sum(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
     return sum<T>(pointcloud, get_field(pointcloud, field_name));
 }
 
-template<typename T = float>
+template<typename T>
 Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& pointcloud) {
     auto convert_x_field_data = create_get_field_data_function<T>(get_field(pointcloud, "x"));
     auto convert_y_field_data = create_get_field_data_function<T>(get_field(pointcloud, "y"));
@@ -720,7 +720,7 @@ Eigen::Matrix<T, 3, Eigen::Dynamic> unit_vectors(const pcl::PCLPointCloud2& poin
     return unit_vectors;
 }
 
-template<typename T = double>
+template<typename T>
 T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double mean) {
     double square_residuals_sum_{0.0};
     auto get_field_data = create_get_field_data_function<double>(field);
@@ -732,17 +732,17 @@ T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& fiel
     return static_cast<T>(square_residuals_sum_);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
     return variance(pointcloud, field, mean<double>(pointcloud, field));
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name, const double mean) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name), mean);
 }
 
-template<typename T = double>
+template<typename T>
 inline T variance(const pcl::PCLPointCloud2& pointcloud, const std::string& field_name) {
     return variance<T>(pointcloud, get_field(pointcloud, field_name));
 }
-- 
2.43.0


From 44ca34d67facdd45b37b14a08226eddb491a5c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:51 +0000
Subject: [PATCH 28/58] fix: declare polar_coordinates with the type it returns

---
 .../include/pointcloud_tools/pclpointcloud2_utilities.hpp       | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
index 4d0875c..631e455 100644
--- a/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/pclpointcloud2_utilities.hpp
@@ -269,7 +269,7 @@ void resize(pcl::PCLPointCloud2& pointcloud, const std::uint32_t width, const st
 std::uint32_t row_step(const pcl::PCLPointCloud2& pointcloud);
 
 template<typename T = float>
-std::vector<Eigen::Matrix<T, 3, 1>> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
+Eigen::Matrix<T, 3, Eigen::Dynamic> polar_coordinates(const pcl::PCLPointCloud2& pointcloud);
 
 void scale_field(pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field, const double scale);
 
-- 
2.43.0


From 15405fd80ed3cf80071d0550d9370ecb9aeb648c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 29/58] fix: account for padding and field order when adding
 point cloud fields

---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 81c3e0d..ad6903a 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -21,14 +21,19 @@ pcl::PCLPointCloud2 add_fields(const pcl::PCLPointCloud2& src, const std::vector
     dest.height = src.height;
     dest.width = src.width;
     dest.fields = src.fields;
+    // New fields begin after the last byte used by existing fields, which may be listed in any order
+    std::uint32_t offset = 0;
+    for (const auto& field : src.fields) {
+        offset = std::max(offset, point_step(field));
+    }
     for (const auto& name : names) {
-        dest.fields.emplace_back(pcl::PCLPointField{.name = name,
-                .offset = dest.fields.empty() ? 0 : point_step(dest.fields.back()),
-                .datatype = datatype,
-                .count = count});
+        dest.fields.emplace_back(
+                pcl::PCLPointField{.name = name, .offset = offset, .datatype = datatype, .count = count});
+        offset = point_step(dest.fields.back());
     }
     dest.is_bigendian = src.is_bigendian;
-    dest.point_step = point_step(dest.fields.back());
+    // Points may have trailing padding
+    dest.point_step = std::max(offset, src.point_step);
     dest.row_step = row_step(dest);
     dest.data.resize(size_bytes(dest));
     dest.is_dense = src.is_dense;
-- 
2.43.0


From a2fdd77431fda9243bef7be760c63d3ad0d8d239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:52:15 +0000
Subject: [PATCH 30/58] fix: sum point cloud fields without overflow when
 computing the mean

---
 .../include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
index c12ec40..3639973 100644
--- a/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
+++ b/pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp
@@ -605,7 +605,7 @@ inline T max(const pcl::PCLPointCloud2& pointcloud, const std::string& field_nam
 
 template<typename T>
 inline T mean(const pcl::PCLPointCloud2& pointcloud, const pcl::PCLPointField& field) {
-    const double mean_ = static_cast<double>(sum<T>(pointcloud, field)) / static_cast<double>(size_points(pointcloud));
+    const double mean_ = sum<double>(pointcloud, field) / static_cast<double>(size_points(pointcloud));
     return static_cast<T>(mean_);
 }
 
-- 
2.43.0


From d588e31628f163c76b18a56a0e28c02b52fea69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:40 +0000
Subject: [PATCH 31/58] fix: allow deskewing to a time before the start of the
 sweep

---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index ad6903a..4eb0c4a 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -134,7 +134,9 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
         const Eigen::Quaterniond skew_quaternion = Eigen::Quaterniond(skew.rotation());
 
         // Compute required quantities
-        const double new_time_seconds = static_cast<double>(new_time - src.header.stamp) / 1.0e6;  // us to s
+        // The new time may be before the start of the sweep
+        const double new_time_seconds =
+                static_cast<double>(static_cast<std::int64_t>(new_time - src.header.stamp)) / 1.0e6;  // us to s
         const double new_time_fraction = new_time_seconds / dt;
         const Eigen::Vector3d new_time_translation = new_time_fraction * skew_translation;
         const Eigen::Quaterniond new_time_quaternion =
-- 
2.43.0


From 15a1cfa59f9bf9a2d044fe15a835dbfa88fa7389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:55:40 +0000
Subject: [PATCH 32/58] fix: reset point times when deskewing without motion

---
 pointcloud_tools/src/pclpointcloud2_utilities.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pointcloud_tools/src/pclpointcloud2_utilities.cpp b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
index 4eb0c4a..2655ed4 100644
--- a/pointcloud_tools/src/pclpointcloud2_utilities.cpp
+++ b/pointcloud_tools/src/pclpointcloud2_utilities.cpp
@@ -181,6 +181,13 @@ void deskew(const Eigen::Isometry3d& skew, const double dt, const std::uint64_t
             set_z_field_data(dest, i, p_deskew[2]);
             set_t_field_data(dest, i, 0.0f);
         }
+    } else if (has_field(dest, "t")) {
+        // Points do not move, but their times are still relative to the new time
+        auto set_t_field_data = create_set_field_data_function<float>(get_field(dest, "t"));
+        const std::size_t num_points = size_points(dest);
+        for (std::size_t i = 0; i < num_points; ++i) {
+            set_t_field_data(dest, i, 0.0f);
+        }
     }
 }
 
-- 
2.43.0


From c4f13951ef75f24aeb0d6e8e93cf78e9ed9f379d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:00:13 +0000
Subject: [PATCH 33/58] fix: set tracked and filtered keypoint statistics in
 the first frame

---
 serpent/src/front_end/stereo/stereo_feature_tracker.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index 5a5cf07..f07fa8a 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -123,6 +123,10 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
                 stats->get().filtered_extracted_kp_count[lr] = new_keypoints[lr].size();
             }
         }
+    } else if (stats) {
+        // Nothing to track in the first frame
+        stats->get().tracked_kp_count = {0, 0};
+        stats->get().filtered_extracted_kp_count = stats->get().extracted_kp_count;
     }
 
     // Filter tracked matches by stereo geometry
-- 
2.43.0


From 7e58a8e319d4e3ed02f7f5b6f09c799f90801e7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:18 +0000
Subject: [PATCH 34/58] fix: do not accumulate match ids in reused tracker
 statistics

---
 serpent/src/front_end/stereo/stereo_feature_tracker.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
index f07fa8a..14d4f26 100644
--- a/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
+++ b/serpent/src/front_end/stereo/stereo_feature_tracker.cpp
@@ -211,9 +211,7 @@ StereoFeatureTracker::LRKeyPointMatches StereoFeatureTracker::process(const cv::
     if (stats) {
         stats->get().max_match_id = next_match_id - 1;
         stats->get().total_match_count = previous_track_data.matches.size();
-        for (const int match_id : previous_track_data.match_ids) {
-            stats->get().match_ids.push_back(match_id);
-        }
+        stats->get().match_ids = previous_track_data.match_ids;
     }
 
     // Update the images
-- 
2.43.0


From 2cd404b8d12c93cc907c465b35ccb4082495dbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:16 +0000
Subject: [PATCH 35/58] fix: frontend compiles with Eigen >= 3.4, where
 Isometry3d::rotation() is a block expression

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6de34bc..9ef7fa3 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -501,7 +501,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
                 (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
-                (deskew_rotation ? skew_transform.rotation() : Eigen::Matrix3d::Identity()));
+                (deskew_rotation ? Eigen::Matrix3d{skew_transform.rotation()} : Eigen::Matrix3d::Identity()));
 
         // Deskew pointcloud
         pcl::PCLPointCloud2::Ptr deskewed_pointcloud = boost::make_shared<pcl::PCLPointCloud2>();
-- 
2.43.0


From 684186a629b6371760d3e12f55564754974bd64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:16 +0000
Subject: [PATCH 36/58] fix: publish the base_link pose, not the body frame
 pose, on output/pose

---
 serpent/src/front_end/frontend.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 9ef7fa3..5b48e3b 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -291,8 +291,7 @@ void Frontend::optimised_odometry_callback(const serpent::ImuBiases::ConstPtr& i
         tf_broadcaster.sendTransform(map_to_base_link_tf);
 
         // Publish T_W^{BL} pose with covariance
-        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(
-                world_odometry.pose_stamped());  // map_to_base_link);
+        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(map_to_base_link);
         map_to_base_link_pose.header.frame_id = optimised_odometry_msg->header.frame_id;
         pose_publisher.publish(map_to_base_link_pose);
     } catch (const std::exception& ex) {
-- 
2.43.0


From 4765b062d46d9e3b6d6457841cac812f62abeb0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:16 +0000
Subject: [PATCH 37/58] fix: subtract the gyroscope bias from the measured
 angular velocity in IMU-rate odometry

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 5b48e3b..b8eb64e 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -236,7 +236,7 @@ void Frontend::imu_callback(const sensor_msgs::Imu::ConstPtr& msg) {
         ROS_WARN_ONCE("TODO FIX: angular velocity must be converted from IMU frame to body frame - is this even "
                       "possible? A rotation may be a good approximation.");
         const Eigen::Vector3d angular_velocity =
-                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity + imu_biases.gyroscope());
+                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity - imu_biases.gyroscope());
 
         // Publish current state as odometry output
         auto odometry = boost::make_shared<nav_msgs::Odometry>();
-- 
2.43.0


From 9e3ab12af35e32c46257fd0869806f3a2a7bb68e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:16 +0000
Subject: [PATCH 38/58] fix: change the deskew transform into the lidar frame
 with the lidar-to-body transform

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index b8eb64e..c088803 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -495,7 +495,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 eigen_gtsam::to_eigen<Eigen::Isometry3d>(previous_pointcloud_end_state.pose());
 
         // Transform skew_transform from body frame into lidar frame
-        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame("lidar"));
+        skew_transform = eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body("lidar"));
 
         // Deskew configuration
         skew_transform = eigen_ext::to_transform(
-- 
2.43.0


From 72ca5c5cf0986ae1437e4d39ca77c3a1b06d6557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:36 +0000
Subject: [PATCH 39/58] fix: wait for the IMU messages up to the new state
 before sending them to the back end

---
 serpent/src/front_end/frontend.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index c088803..321b8d5 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -375,6 +375,12 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
+        // Wait for IMU message at or after the new state time (for safety, as should already be received).
+        if (!protected_sleep(preintegration_mutex, 0.01, false, false,
+                    [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
+            return;
+        };
+
         // Initialised: publish the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
         if (initialised) {
@@ -401,12 +407,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             ROS_DEBUG_STREAM(
                     "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
         } else {
-            // Wait for IMU message after deskew timestamp (for safety, as should already be received).
-            if (!protected_sleep(preintegration_mutex, 0.01, false, false,
-                        [this, new_state_time]() { return last_preint_imu_timestamp < new_state_time; })) {
-                return;
-            };
-
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
 
-- 
2.43.0


From ab9f0303d56179384027453fb350917e3cf3b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:21:36 +0000
Subject: [PATCH 40/58] fix: send the IMU messages of a new state once the
 previous state is no longer needed, as the back end may answer immediately

---
 serpent/src/front_end/frontend.cpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 321b8d5..497033e 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -381,14 +381,15 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
             return;
         };
 
-        // Initialised: publish the IMU messages between the deskew times of the pointclouds.
+        // Initialised: collect the IMU messages between the deskew times of the pointclouds.
         // Not initialised: construct and publish the initial odometry at the deskew timestamp.
+        serpent::ImuArray::Ptr imu_s2s;
         if (initialised) {
-            // Accumulate and publish the IMU measurements required for registration of the previous two pointclouds.
+            // Accumulate the IMU measurements required for registration of the previous two pointclouds.
             // This spans from the previous to the current state time. Remove any IMU measurements older
             // than the first of these.
             std::lock_guard<std::mutex> guard{imu_data_mutex};
-            auto imu_s2s = boost::make_shared<serpent::ImuArray>();
+            imu_s2s = boost::make_shared<serpent::ImuArray>();
             imu_s2s->start_timestamp = previous_state_time;
             imu_s2s->end_timestamp = new_state_time;
             if (imu_buffer.front().timestamp > previous_state_time) {
@@ -403,9 +404,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 }
             }
             delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);
-            imu_s2s_publisher.publish(imu_s2s);
-            ROS_DEBUG_STREAM(
-                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
         } else {
             // Compute the interpolated IMU message at the deskew timestamp.
             const eigen_ros::Imu deskew_imu = interpolated_imu(new_state_time);
@@ -450,7 +448,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
 
         // Wait for previous imu_biases (& world_state) and IMU message past end of sweep and start of new point cloud.
         // Then imu_biases, world_state, world_odometry and preintegration_params can be used without mutex locking
-        // because the optimised odometry callback cannot trigger until after the deskewed pointcloud is published.
+        // because the optimised odometry callback cannot trigger until after the IMU messages are published (below).
         if (!protected_sleep(preintegration_mutex, 0.01, false, false, [this, previous_pointcloud_end]() {
                 return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end;
             })) {
@@ -510,6 +508,14 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         ROS_INFO_STREAM(
                 "Deskewed pointcloud to " << new_state_time << " in " << (ros::WallTime::now() - tic).toSec() << " s.");
 
+        // Publish IMU messages. With a back end that doesn't require the pointcloud, the optimised odometry for the new
+        // state may arrive from here on, hence this is after the state and biases of the previous state have been used.
+        if (imu_s2s) {
+            imu_s2s_publisher.publish(imu_s2s);
+            ROS_DEBUG_STREAM(
+                    "Published IMU measurements from " << imu_s2s->start_timestamp << " to " << imu_s2s->end_timestamp);
+        }
+
         // Publish deskewed pointcloud
         deskewed_pointcloud_publisher.publish(deskewed_pointcloud);
 
-- 
2.43.0


From 7f3d60326b780f8fdac64cedb5871a08f73f8c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:33 +0000
Subject: [PATCH 41/58] fix: release the stereo data mutex when shut down while
 waiting for stereo data

---
 serpent/src/front_end/frontend.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 497033e..6e9d41d 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -348,7 +348,7 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
         ros::Time new_state_time = previous_pointcloud_start;
         if (stereo_enabled) {
             // Remove old stereo data and wait for stereo data after previous_pointcloud_start (may arrive late)
-            stereo_data_mutex.lock();
+            std::lock_guard<std::mutex> guard{stereo_data_mutex};
             ROS_INFO_COND(stereo_buffer.empty() || stereo_buffer.back().timestamp() < previous_pointcloud_start,
                     "Waiting for stereo data to arrive before selecting new optimisation state.");
             if (!protected_sleep(stereo_data_mutex, 0.01, true, true, [this, previous_pointcloud_start]() {
@@ -371,7 +371,6 @@ void Frontend::pointcloud_callback(const pcl::PCLPointCloud2::ConstPtr& msg) {
                 // Remove stereo data from queue.
                 stereo_buffer.pop_front();
             }
-            stereo_data_mutex.unlock();
         }
         ROS_INFO_STREAM("New state time set to " << new_state_time << ".");
 
-- 
2.43.0


From 4108b1dc3f6617dd7f8d7c4d7192ab2c2f9394b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:27:01 +0000
Subject: [PATCH 42/58] fix: don't read from an empty barometer buffer when a
 state precedes all barometer messages

---
 serpent/src/front_end/frontend.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/frontend.cpp b/serpent/src/front_end/frontend.cpp
index 6e9d41d..72f21e7 100644
--- a/serpent/src/front_end/frontend.cpp
+++ b/serpent/src/front_end/frontend.cpp
@@ -160,7 +160,7 @@ void Frontend::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pr
 }
 
 void Frontend::barometer_try_publish() {
-    if (!barometer_timestamp_buffer.empty()) {
+    if (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
         // Special case (first measurement) where barometer data might not preceded first state timestamp
         if (barometer_buffer.front()->header.stamp > barometer_timestamp_buffer.front()) {
             ROS_WARN_STREAM("No barometer measurement prior to new state timestamp. Approximating with measurement "
-- 
2.43.0


From 3fcf8862806edae65afce218022341acbedbaf12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 43/58] fix: refuse invalid registration covariances instead of
 valid ones

---
 serpent/src/back_end/optimisation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a834845..d4600b5 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -274,7 +274,7 @@ void Optimisation::add_registration_factor(const geometry_msgs::PoseWithCovarian
             gtsam::Pose3(gtsam::Rot3(registration_pose.data.orientation), registration_pose.data.position);
 
     // Check if valid covariance matrix
-    if (eigen_ext::is_valid_covariance(registration_pose.data.covariance)) {
+    if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance, 1.0e-9)) {
         ROS_ERROR_STREAM("Registration covariance is invalid:\n" << registration_pose.data.covariance);
         throw std::runtime_error("Covariance matrix is not valid.");
     }
-- 
2.43.0


From 8a67a6e35b8c8e63851692d5370ae1d62b76ee47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 44/58] fix: the first barometer bias excludes the height of
 the state at which it is measured

---
 serpent/src/back_end/optimisation.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index d4600b5..893fd82 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -364,7 +364,8 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
     // For first barometer key, create prior (on the current state)
     if (next_barometer_key == 0) {
         // Set first barometer bias value using first measurement, which will get propagated up to current state.
-        gm->set_barometer_bias(0, height);
+        const double height_bias = height - gm->pose("barometer").z();
+        gm->set_barometer_bias(0, height_bias);
 
         // Prior barometer bias factor
         const double prior_barometer_noise = nh.param<double>("prior_noise/barometer_bias", 1.0e-6);
@@ -372,8 +373,8 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
             throw std::runtime_error("Prior barometer bias noise should not be zero.");
         }
         gm->create_prior_barometer_bias_factor(
-                gm->key("barometer"), height, gtsam::noiseModel::Isotropic::Sigma(1, prior_barometer_noise));
-        ROS_INFO_STREAM("Created prior factor: P(" << gm->key("barometer") << ") with height = " << height << " m");
+                gm->key("barometer"), height_bias, gtsam::noiseModel::Isotropic::Sigma(1, prior_barometer_noise));
+        ROS_INFO_STREAM("Created prior factor: P(" << gm->key("barometer") << ") with height bias = " << height_bias << " m");
     }
 
     // Create barometer bias factors up to the current key
-- 
2.43.0


From dda0946510fe9fdb293428bf47b0b802fcc1bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 45/58] fix: publish the velocity of the current state when
 optimisation is completed by stereo features

---
 serpent/src/back_end/optimisation.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 893fd82..1e14caa 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -744,12 +744,15 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
 
             // Optimise and publish
             if (gm->minimum_key(0) == gm->key("stereo") && gm->key("stereo") > 0) {
-                optimise_and_publish(gm->key("stereo"));
+                const auto optimisation_result = optimise(gm->key("stereo"));
 
                 // Update velocity if no IMU factors
                 if (!imu_factors_enabled) {
                     update_velocity_from_transforms("stereo");
                 }
+
+                // Publish
+                publish(gm->key("stereo"), optimisation_result);
             }
         }
     } while (features_in_future);
-- 
2.43.0


From 4b92923c7055b4de7485cd490f905de0828ca516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:09 +0000
Subject: [PATCH 46/58] fix: release the graph mutex when shut down while
 waiting or on exceptions

---
 serpent/src/back_end/optimisation.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index 1e14caa..a561466 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -337,7 +337,7 @@ void Optimisation::add_stereo_factors(const serpent::StereoFeatures::ConstPtr& f
 
 void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr& pressure) {
     // Wait for the state at the barometer time to be set before adding factors.
-    graph_mutex.lock();
+    std::lock_guard<std::mutex> guard{graph_mutex};
     int next_barometer_key = gm->key("barometer");
     if (!protected_sleep(graph_mutex, 0.01, true, true, [this, pressure]() {
             while (gm->has_pose("barometer") && gm->timestamp("barometer") < pressure->header.stamp) {
@@ -386,7 +386,6 @@ void Optimisation::barometer_callback(const sensor_msgs::FluidPressure::ConstPtr
 
     // Increment the barometer key
     gm->increment("barometer");
-    graph_mutex.unlock();
 }
 
 void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
@@ -398,7 +397,7 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
     }
 
     // Wait for imu bias to be optimised (when optimisation has run)
-    graph_mutex.lock();
+    std::lock_guard<std::mutex> guard{graph_mutex};
     ROS_WARN_STREAM_COND(gm->opt_key() != gm->key("imu"),
             "Waiting for optimisation (key = " << gm->opt_key() << ", t = " << gm->timestamp(gm->opt_key())
                                                << ")  to catch up (key = " << gm->key("imu") << ", t = "
@@ -468,8 +467,6 @@ void Optimisation::imu_s2s_callback(const serpent::ImuArray::ConstPtr& msg) {
             optimise_and_publish(imu_key);
         }
     }
-
-    graph_mutex.unlock();
 }
 
 void Optimisation::initial_odometry_callback(const nav_msgs::Odometry::ConstPtr& msg) {
@@ -715,7 +712,7 @@ void Optimisation::registration_callback(const geometry_msgs::PoseWithCovariance
 }
 
 void Optimisation::stereo_features_callback(const serpent::StereoFeatures::ConstPtr& features) {
-    graph_mutex.lock();
+    std::lock_guard<std::mutex> guard{graph_mutex};
     // Repeat while feature timestamp is ahead of the graph optimisation
     bool features_in_future;
     do {
@@ -756,7 +753,6 @@ void Optimisation::stereo_features_callback(const serpent::StereoFeatures::Const
             }
         }
     } while (features_in_future);
-    graph_mutex.unlock();
 }
 
 void Optimisation::update_velocity_from_transforms(const std::string& named_key) {
-- 
2.43.0


From 3b3263faf78a6ad587eba8937d9ad1afbf8370c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 47/58] fix: read the statistical outlier removal parameters
 from the documented names

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index c3b593a..045c821 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -70,8 +70,8 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     // Statistical Outlier Removal filter
     output_topic = random_sample_enabled ? "filter/sor_filtered_pointcloud" : final_output_topic;
     if (sor_enabled) {
-        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal_filter/mean_k", 1));
-        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal_filter/stddev_mul_thresh", 0.0));
+        sor_filter.setMeanK(nh.param<int>("statistical_outlier_removal/mean_k", 1));
+        sor_filter.setStddevMulThresh(nh.param<double>("statistical_outlier_removal/stddev_mul_thresh", 0.0));
         statistical_outlier_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
         statistical_outlier_pointcloud_subscriber = nh.subscribe<pcl::PCLPointCloud2>(
                 input_topic, 100, &PointcloudFilter::statistical_outlier_callback, this);
-- 
2.43.0


From 622a55242d84ca53089c9f4129fcbd419a9f6f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 48/58] fix: the body filter removes the points within the body
 region

---
 serpent/src/front_end/lidar/pointcloud_filter.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/serpent/src/front_end/lidar/pointcloud_filter.cpp b/serpent/src/front_end/lidar/pointcloud_filter.cpp
index 045c821..be0cdfb 100644
--- a/serpent/src/front_end/lidar/pointcloud_filter.cpp
+++ b/serpent/src/front_end/lidar/pointcloud_filter.cpp
@@ -41,6 +41,7 @@ PointcloudFilter::PointcloudFilter(std::string input_topic)
     output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled) ? "filter/body_filtered_pointcloud"
                                                                                   : final_output_topic;
     if (body_filter_enabled) {
+        body_filter.setNegative(true);  // Remove points within the body region
         body_filter.setMin(Eigen::Vector4f(nh.param<float>("body_filter/min/x", 0.f),
                 nh.param<float>("body_filter/min/y", 0.f), nh.param<float>("body_filter/min/z", 0.f), 1.f));
         body_filter.setMax(Eigen::Vector4f(nh.param<float>("body_filter/max/x", 0.f),
-- 
2.43.0


From f0492d119fa4f30c77d8dfe386da6f9122b613b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 49/58] fix: filter the global map if
 voxel_grid_filter/enabled_global is set

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index 7dd2213..f310cce 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -273,7 +273,7 @@ bool Mapping<PointT>::publish_map_service_callback(std_srvs::Empty::Request&, st
     }
 
     // Filtering/Downsampling
-    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;
+    PointCloudPtr filtered_pointcloud = voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;
 
     // Publish
     global_map_publisher.publish(filtered_pointcloud);
-- 
2.43.0


From 71155c87166aaec9bbcdaf2b33c0a63904c9cabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:11 +0000
Subject: [PATCH 50/58] fix: correct map frames without a pose cloud when
 extracting past frames

---
 serpent/include/serpent/mapping/mapping-inl.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/mapping/mapping-inl.hpp b/serpent/include/serpent/mapping/mapping-inl.hpp
index f310cce..caf4709 100644
--- a/serpent/include/serpent/mapping/mapping-inl.hpp
+++ b/serpent/include/serpent/mapping/mapping-inl.hpp
@@ -295,8 +295,10 @@ void Mapping<PointT>::update_map(const eigen_ros::PoseStamped& frame_pose_stampe
     auto it = map.find(frame_pose_stamped.timestamp);
     if (it != map.end()) {
         it->second.pose = frame_pose_stamped;
-        pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
-                frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        if (pose_cloud) {
+            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{
+                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};
+        }
     }
 }
 
-- 
2.43.0


From 20b5efbb471e8e55b0856d7949de2f92a7ddb398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:44 +0000
Subject: [PATCH 51/58] fix: release the registration queue mutex when shut
 down while waiting for a scan to scan registration

---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index cae8cbf..84c5d19 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -317,7 +317,8 @@ void Registration<PointT>::s2s_callback(
 template<typename PointT>
 void Registration<PointT>::s2m_callback(const PointCloudConstPtr& map) {
     // Wait for S2S transform and pointcloud
-    if (!protected_sleep(s2s_mutex, 0.01, false, true,
+    std::unique_lock<std::mutex> lock{s2s_mutex};
+    if (!protected_sleep(s2s_mutex, 0.01, true, true,
                 [this]() { return s2s_registrations.empty() || s2m_pointclouds.empty(); })) {
         return;
     };
@@ -327,7 +328,7 @@ void Registration<PointT>::s2m_callback(const PointCloudConstPtr& map) {
     s2m_pointclouds.pop_front();
     Eigen::Isometry3d s2s_transform = s2s_registrations.front();  // T_{L_i-1}^{L_i}
     s2s_registrations.pop_front();
-    s2s_mutex.unlock();
+    lock.unlock();
 
     // Refine registration with scan to map matching (must change timestamp for visualisation)
     Eigen::Matrix4f s2s_tf_mat_float = s2s_transform.matrix().cast<float>();
-- 
2.43.0


From f69e7ca8960e2bac9f86bfd61129b5f48eba6fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:56:16 +0000
Subject: [PATCH 52/58] fix: rotate both sides of the orientation covariance
 when transforming IMU messages

---
 imu_tools/README.md             | 4 ----
 imu_tools/src/imu_transform.cpp | 3 +--
 2 files changed, 1 insertion(+), 6 deletions(-)

diff --git a/imu_tools/README.md b/imu_tools/README.md
index 5cbec10..6d8a67c 100644
--- a/imu_tools/README.md
+++ b/imu_tools/README.md
@@ -9,7 +9,3 @@ Print information about IMU messages on an input stream.
 ## imu_transform
 
 Transform the IMU from one reference frame to another.
-
-### Known Issues
-
-* Transformation of IMU covariance is incorrect, and needs to be fixed.
diff --git a/imu_tools/src/imu_transform.cpp b/imu_tools/src/imu_transform.cpp
index 51d4d11..a253f11 100644
--- a/imu_tools/src/imu_transform.cpp
+++ b/imu_tools/src/imu_transform.cpp
@@ -17,8 +17,7 @@ ImuTransform::ImuTransform()
 void ImuTransform::transform(const sensor_msgs::ImuConstPtr& msg) {
     eigen_ros::Imu imu = eigen_ros::from_ros<eigen_ros::Imu>(*msg);
     imu.orientation = rotation * imu.orientation;
-    imu.orientation_covariance = rotation * imu.orientation_covariance;
-    ROS_WARN_ONCE("TODO FIX: Transformation of IMU covariance is incorrect.");
+    imu.orientation_covariance = rotation * imu.orientation_covariance * rotation.inverse();
     if (overwrite_frame) {
         imu.frame = new_frame;
     }
-- 
2.43.0


From 45279c405c4ca11526d24542865aeb6875d24b5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:42 +0000
Subject: [PATCH 53/58] fix: rotating an image by zero degrees does nothing,
 other angles than multiples of 90 degrees are refused

---
 .../include/camera_tools/image_operations.hpp         |  2 ++
 camera_tools/src/image_operations.cpp                 | 11 +++++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/camera_tools/include/camera_tools/image_operations.hpp b/camera_tools/include/camera_tools/image_operations.hpp
index e394fe8..53975a2 100644
--- a/camera_tools/include/camera_tools/image_operations.hpp
+++ b/camera_tools/include/camera_tools/image_operations.hpp
@@ -34,6 +34,8 @@ public:
     sensor_msgs::CameraInfo apply(const sensor_msgs::CameraInfo& info) override;
 
 private:
+    // Rotation by zero degrees
+    bool identity{false};
     cv::RotateFlags option;
 };
 
diff --git a/camera_tools/src/image_operations.cpp b/camera_tools/src/image_operations.cpp
index 3eacaec..cd92461 100644
--- a/camera_tools/src/image_operations.cpp
+++ b/camera_tools/src/image_operations.cpp
@@ -9,9 +9,10 @@ Rotate::Rotate(const cv::RotateFlags option)
 
 Rotate::Rotate(int degrees_clockwise) {
     degrees_clockwise = degrees_clockwise % 360;
-    if (degrees_clockwise <= 0) {
-        throw std::runtime_error("Rotate degrees_clockwise must be > 0");
+    if (degrees_clockwise < 0 || degrees_clockwise % 90 != 0) {
+        throw std::runtime_error("Rotate degrees_clockwise must be a positive multiple of 90, or 0");
     }
+    identity = degrees_clockwise == 0;
     if (degrees_clockwise == 90) {
         option = cv::RotateFlags::ROTATE_90_CLOCKWISE;
     } else if (degrees_clockwise == 180) {
@@ -22,6 +23,9 @@ Rotate::Rotate(int degrees_clockwise) {
 }
 
 cv::Mat Rotate::apply(const cv::Mat& in) {
+    if (identity) {
+        return in;
+    }
     cv::Mat out;
     cv::rotate(in, out, option);
     return out;
@@ -29,6 +33,9 @@ cv::Mat Rotate::apply(const cv::Mat& in) {
 
 sensor_msgs::CameraInfo Rotate::apply(const sensor_msgs::CameraInfo& in) {
     sensor_msgs::CameraInfo out = in;
+    if (identity) {
+        return out;
+    }
     switch (option) {
         case cv::RotateFlags::ROTATE_90_CLOCKWISE:
             // Swap width/height, fx/fy
-- 
2.43.0


From 144122bd68ff6552cc8e56a3fd21c84062e29c44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:57:56 +0000
Subject: [PATCH 54/58] fix: refuse unknown robust noise types of stereo
 factors instead of using none

---
 serpent/src/back_end/optimisation.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/serpent/src/back_end/optimisation.cpp b/serpent/src/back_end/optimisation.cpp
index a561466..354c1c2 100644
--- a/serpent/src/back_end/optimisation.cpp
+++ b/serpent/src/back_end/optimisation.cpp
@@ -230,6 +230,8 @@ Optimisation::Optimisation() : nh("serpent"), body_frames("serpent") {
                 const gtsam::noiseModel::mEstimator::Base::ReweightScheme reweight_scheme = to_reweight_scheme(
                         nh.param<std::string>("stereo_factors/robust/welsch/reweight_scheme", "BLOCK"));
                 robust_noise_model = gtsam::noiseModel::mEstimator::Welsch::Create(c, reweight_scheme);
+            } else {
+                throw std::runtime_error("Unrecognised robust noise type \'" + robust_noise_type + "\'.");
             }
             stereo_noise_model = gtsam::noiseModel::Robust::Create(robust_noise_model, stereo_measurement_covariance);
             ROS_INFO_STREAM("Created robust stereo noise model of type \'" << robust_noise_type << "\'");
-- 
2.43.0


From 91f7e20227c08f575cade75bceb36c55792dd2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:20 +0000
Subject: [PATCH 55/58] fix: read the SIFT contrast threshold under its
 configured name

---
 serpent/src/front_end/stereo/stereo_factor_finder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 005b2dc..8b29634 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -108,7 +108,7 @@ template<>
 cv::Ptr<cv::SIFT> create_from_params<cv::SIFT>(const ros::NodeHandle& nh) {
     const int num_features = nh.param<int>("stereo_tracking/detector/sift/num_features", 10);
     const int num_octave_layers = nh.param<int>("stereo_tracking/detector/sift/num_octave_layers", 3);
-    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/constrast_threshold", 0.04);
+    const double constrast_threshold = nh.param<double>("stereo_tracking/detector/sift/contrast_threshold", 0.04);
     const double edge_threshold = nh.param<double>("stereo_tracking/detector/sift/edge_threshold", 10.0);
     const double sigma = nh.param<double>("stereo_tracking/detector/sift/sigma", 1.6);
     return cv::SIFT::create(num_features, num_octave_layers, constrast_threshold, edge_threshold, sigma);
-- 
2.43.0


From f0b3b6d791aab32c6259e1e49de445e15a2a7789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:06:33 +0000
Subject: [PATCH 56/58] fix: read the optical flow settings under their
 configured names

---
 .../front_end/stereo/stereo_factor_finder.cpp | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/serpent/src/front_end/stereo/stereo_factor_finder.cpp b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
index 8b29634..a4a0fb3 100644
--- a/serpent/src/front_end/stereo/stereo_factor_finder.cpp
+++ b/serpent/src/front_end/stereo/stereo_factor_finder.cpp
@@ -241,16 +241,17 @@ StereoFactorFinder::StereoFactorFinder() : nh("serpent"), it(nh), stereo_sync(10
             nh.param<std::string>("stereo_tracking/sparse_optical_flow/type", "PyrLK");
     if (sparse_optical_flow_type == "PyrLK") {
         const std::vector<int> win_size_vec =
-                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/win_size", {{21, 21}});
+                nh.param<std::vector<int>>("stereo_tracking/sparse_optical_flow/pyrlk/win_size", {{21, 21}});
         const cv::Size win_size = cv::Size{win_size_vec.at(0), win_size_vec.at(1)};
-        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/max_level", 3);
-        const cv::TermCriteria term_criteria = cv::TermCriteria{
-                to_term_criteria_type(
-                        nh.param<std::string>("stereo_tracking/sparse_optical_flow/term_criteria/type", "COUNT+EPS")),
-                nh.param<int>("stereo_tracking/sparse_optical_flow/term_criteria/max_count", 30),
-                nh.param<double>("stereo_tracking/sparse_optical_flow/term_criteria/epsilon", 0.01)};
-        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/flags", 0);
-        const double min_eig_threshold = nh.param<double>("stereo_tracking/sparse_optical_flow/min_eig_threshold", 0);
+        const int max_level = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/max_level", 3);
+        const cv::TermCriteria term_criteria =
+                cv::TermCriteria{to_term_criteria_type(nh.param<std::string>(
+                                         "stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", "COUNT+EPS")),
+                        nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/max_count", 30),
+                        nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/epsilon", 0.01)};
+        const int flags = nh.param<int>("stereo_tracking/sparse_optical_flow/pyrlk/flags", 0);
+        const double min_eig_threshold =
+                nh.param<double>("stereo_tracking/sparse_optical_flow/pyrlk/min_eig_threshold", 0);
         sparse_optical_flow =
                 cv::SparsePyrLKOpticalFlow::create(win_size, max_level, term_criteria, flags, min_eig_threshold);
     } else if (sparse_optical_flow_type == "RLOF") {
-- 
2.43.0


From 84f8934e8065c4a0c7e13554963f002cdd748333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 57/58] fix: do not wait for ever for maps when registration to
 the map is disabled

---
 serpent/include/serpent/front_end/lidar/registration-inl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/serpent/include/serpent/front_end/lidar/registration-inl.hpp b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
index 84c5d19..e70951c 100644
--- a/serpent/include/serpent/front_end/lidar/registration-inl.hpp
+++ b/serpent/include/serpent/front_end/lidar/registration-inl.hpp
@@ -79,7 +79,6 @@ Registration<PointT>::Registration() : nh("serpent"), s2s_sync(10), body_frames(
     transform_subscriber.subscribe(nh, "optimisation/imu_transform", 10);
     s2s_sync.connectInput(pointcloud_subscriber, transform_subscriber);
     s2s_sync.registerCallback(boost::bind(&Registration<PointT>::s2s_callback, this, _1, _2));
-    map_subscriber = nh.subscribe<PointCloud>("mapping/local_map", 10, &Registration<PointT>::s2m_callback, this);
 
     // Configuration
     nh.param<bool>("s2m/enabled", s2m_enabled, true);
@@ -88,6 +87,7 @@ Registration<PointT>::Registration() : nh("serpent"), s2s_sync(10), body_frames(
     s2s = registration_method<PointT, PointT>(nh, "s2s/");
     if (s2m_enabled) {
         s2m = registration_method<PointT, PointT>(nh, "s2m/");
+        map_subscriber = nh.subscribe<PointCloud>("mapping/local_map", 10, &Registration<PointT>::s2m_callback, this);
     }
 
     // Covariance estimation configuration
-- 
2.43.0


From cd0877f391cdceedf99d58b9486bc9a3b0ea9ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 58/58] fix: do not marginalise variables that have no factors

---
 serpent/src/back_end/graph_manager.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/serpent/src/back_end/graph_manager.cpp b/serpent/src/back_end/graph_manager.cpp
index 364f1af..c7b4023 100644
--- a/serpent/src/back_end/graph_manager.cpp
+++ b/serpent/src/back_end/graph_manager.cpp
@@ -8,6 +8,8 @@
 #include <gtsam/slam/PriorFactor.h>
 #include <gtsam/slam/StereoFactor.h>
 
+#include <algorithm>
+
 using gtsam::symbol_shorthand::B;  // IMU Bias       (ax,ay,az,gx,gy,gz)
 using gtsam::symbol_shorthand::P;  // Pressure Bias  (p)
 using gtsam::symbol_shorthand::S;  // Stereo Point3  (x,y,z)
@@ -610,12 +612,16 @@ void ISAM2GraphManager::marginalise(const int key_) {
     }
     auto marginalisation_keys = extract_unmarginalised_keys(key_);
     marginalisation_key_ = key_;
+    // Variables without factors (e.g. velocities and biases when IMU factors are disabled) are not in the bayes tree
+    const auto not_in_tree = [this](const gtsam::Key key__) { return !optimiser.nodes().exists(key__); };
+    marginalisation_keys.remove_if(not_in_tree);
     if (marginalisation_keys.empty()) {
         return;
     }
     // Only leaves of the bayes tree can be marginalised, so re-eliminate with the marginalised keys ordered first
     gtsam::FastMap<gtsam::Key, int> constrained_keys;
-    const gtsam::KeyVector optimiser_keys = optimiser.getLinearizationPoint().keys();
+    gtsam::KeyVector optimiser_keys = optimiser.getLinearizationPoint().keys();
+    optimiser_keys.erase(std::remove_if(optimiser_keys.begin(), optimiser_keys.end(), not_in_tree), optimiser_keys.end());
     for (const gtsam::Key optimiser_key : optimiser_keys) {
         constrained_keys[optimiser_key] = 1;
     }
-- 
2.43.0

