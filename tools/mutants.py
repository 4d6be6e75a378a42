"""Mutants (property, file, old, new) used by tools/mutate.py to measure the checks; written from the statements and the code."""
GEO = "eigen_ext/include/eigen_ext/geometry.hpp"; MAT = "eigen_ext/include/eigen_ext/matrix.hpp"
COV = "eigen_ext/include/eigen_ext/covariance.hpp"; PRE = "eigen_ext/include/eigen_ext/precomputed_transform_components.hpp"
GT = "eigen_gtsam/src/geometry.cpp"
ST = "serpent/src/front_end/stereo/"
COST = ST + "stereo_cost_functions.cpp"; WIN = ST + "window_functions.cpp"; KPM = ST + "stereo_keypoint_matcher.cpp"
MF = ST + "match_filters.cpp"; SE = "serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp"
SFT = ST + "stereo_feature_tracker.cpp"
PT = "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_transform.hpp"; PTY = "pointcloud_tools/src/point_types.cpp"
PTH = "pointcloud_tools/include/pointcloud_tools/point_types.hpp"; RU = "pointcloud_tools/include/pointcloud_tools/impl/registration_utilities.hpp"
PCU = "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud_utilities.hpp"
P2 = "pointcloud_tools/src/pclpointcloud2_utilities.cpp"; P2H = "pointcloud_tools/include/pointcloud_tools/impl/pclpointcloud2_utilities.hpp"
RC = "serpent/include/serpent/front_end/lidar/registration_covariance-inl.hpp"; RCC = "serpent/src/front_end/lidar/registration_covariance.cpp"
TPC = "serpent/include/serpent/front_end/lidar/transform_pointcloud-inl.hpp"
PA = "pointcloud_tools/src/pointcloud_analyser.cpp"
M = [
# P01
("P01", GEO, "return rigid_transform_B_A * relative_transform_A * rigid_transform_A_B;", "return rigid_transform_B_A * relative_transform_A * Eigen::Transform<Scalar, 3, Eigen::Isometry>{rigid_transform_A_B.matrix().template cast<float>().template cast<Scalar>()};"),
("P01", GEO, "const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;", "const Scalar a = y > 0.0 ? a_ : 2.0 * M_PI - a_;"),
("P01", GEO, "adj << R, Eigen::Matrix<Scalar, 3, 3>::Zero(), skew_symmetric(t) * R, R;", "adj << R, Eigen::Matrix<Scalar, 3, 3>::Zero(), R * skew_symmetric(t), R;"),
("P01", GEO, "return pose_1.inverse() * pose_2;", "return Eigen::Transform<Scalar, Dim, Eigen::Isometry>{pose_1.matrix().inverse() * pose_2.matrix()};"),
("P01", GEO, "rates << rotation.axis() * rotation.angle() / dt, transform.translation() / dt;", "rates << rotation.axis() * std::sin(rotation.angle()) / dt, transform.translation() / dt;"),
("P01", GEO, "rates << rotation.axis() * rotation.angle() / dt, transform.translation() / dt;", "rates << rotation.axis() * rotation.angle() / dt, (pose_2.translation() - pose_1.translation()) / dt;"),
("P01", PRE, "r_ = angleaxis.axis() * a_;", "r_ = a_ > static_cast<Scalar>(3.1) ? Eigen::Matrix<Scalar, 3, 1>(-angleaxis.axis() * a_) : Eigen::Matrix<Scalar, 3, 1>(angleaxis.axis() * a_);"),
("P01", PRE, "const Eigen::AngleAxis<Scalar> angleaxis{a_, r_.normalized()};", "const Eigen::AngleAxis<Scalar> angleaxis{a_, r_ / a_};"),
("P01", GEO, "return t * q;", "return q * t;"),
("P02", MAT, "if (norm == 0.0) {", "if (norm < 1.0e-3) {"),
("P02", GEO, "return rotation * covariance * rotation.transpose();", "return rotation.transpose() * covariance * rotation;"),
("P02", MAT, "matrix(2, 1), matrix(0, 2), matrix(1, 0)};", "matrix(2, 1), matrix(0, 2), -matrix(1, 0)};"),
# P02
("P02", COV, "for (int r = 0; r < covariance.rows() - 1; ++r) {", "for (int r = 0; r < 0; ++r) {"),
("P02", COV, "if (!covariance.allFinite() || ", "if (covariance.hasNaN() || "),
("P02", MAT, "for (int c = r + 1; c < m.cols(); ++c) {", "for (int c = r + 1; c < m.cols() - (r > 0 ? 1 : 0); ++c) {"),
("P02", COV, "if (boundary >= size) {", "if (boundary > size) {"),
("P02", COV, "covariance.block(0, boundary, boundary, size - boundary), covariance", "covariance.block(boundary, 0, size - boundary, boundary).transpose(), covariance"),
("P02", GEO, "adj * relative_cross_covariance.transpose();", "adj * relative_cross_covariance;"),
("P02", GEO, "= transform_adjoint(relative_transform.inverse());", "= transform_adjoint(relative_transform).transpose();"),
("P02", GEO, "return transform_adjoint_B_A * covariance_A * transform_adjoint_B_A.transpose();", "return transform_adjoint_B_A * covariance_A.template triangularView<Eigen::Lower>() * transform_adjoint_B_A.transpose();"),
("P02", MAT, "return matrix.diagonal().minCoeff() > 0.0;", "return matrix.diagonal().minCoeff() != 0.0;"),
("P02", MAT, "return (1.0 - interp) * m1.derived() + interp * m2.derived();", "return m1.derived() + (interp > 1.0 ? 1.0 : interp) * (m2.derived() - m1.derived());"),
# P03
("P03", GT, "to = Eigen::Isometry3d{from.matrix()};", "to = Eigen::Isometry3d::Identity(); to.linear() = from.rotation().toQuaternion().toRotationMatrix(); to.translation() = from.translation().array().abs().maxCoeff() > 1e3 ? Eigen::Vector3d(from.translation().cast<float>().cast<double>()) : Eigen::Vector3d(from.translation());"),
("P03", GT, "to = gtsam::Pose3{from.matrix()};", "to = gtsam::Pose3{gtsam::Rot3::Ypr(from.rotation().eulerAngles(2,1,0)[0], from.rotation().eulerAngles(2,1,0)[1], from.rotation().eulerAngles(2,1,0)[2]), from.translation().cast<float>().cast<double>()};"),
("P03", GT, "to = from.matrix();", "to = from.transpose();"),
# P04
("P04", COST, "    const double mean2 = window_mean(image2, image2_top_left, window);\n\n    // Compute sum\n    double sum{0.0};\n    for (int row = 0; row < window.height; ++row) {\n        for (int col = 0; col < window.width; ++col) {\n            sum += std::abs(\n                    static_cast<double>(image1.at<unsigned char>(image1_top_left.y + row, image1_top_left.x + col)) -\n                    static_cast<double>(image2.at<unsigned char>(image2_top_left.y + row, image2_top_left.x + col)) -\n                    mean1 + mean2);", "    const double mean2 = std::floor(window_mean(image2, image2_top_left, window) * 256.0) / 256.0;\n\n    // Compute sum\n    double sum{0.0};\n    for (int row = 0; row < window.height; ++row) {\n        for (int col = 0; col < window.width; ++col) {\n            sum += std::abs(\n                    static_cast<double>(image1.at<unsigned char>(image1_top_left.y + row, image1_top_left.x + col)) -\n                    static_cast<double>(image2.at<unsigned char>(image2_top_left.y + row, image2_top_left.x + col)) -\n                    mean1 + mean2);"),
("P04", COST, "const double mean_ratio = mean1 / mean2;", "const double mean_ratio = mean2 > 0.0 ? mean1 / mean2 : 1.0;"),
("P04", WIN, "squares += std::pow(static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col)), 2.0);", "const unsigned char* p = image.data + (top_left.y + row) * image.cols + top_left.x + col; squares += static_cast<double>(*p) * *p;"),
("P04", WIN, "sum += static_cast<double>(image.at<unsigned char>(top_left.y + row, top_left.x + col));", "sum += static_cast<double>(image.at<unsigned char>(top_left.y + col, top_left.x + row));"),
("P04", COST, "const double ncc = cc / std::sqrt(sum_squares1 * sum_squares2);", "const double ncc = cc / std::sqrt(static_cast<float>(sum_squares1 * sum_squares2));"),
("P04", COST, "    const double sum_squares1 = window_sum_squares(image1, image1_top_left, window);", "    const double sum_squares1 = window_sum_squares(image1, image2_top_left, window);"),
("P04", WIN, "top_left.x >= 0 && (top_left.x + window.width) <= image.cols", "top_left.x >= 0 && (top_left.x + window.width) < image.cols"),
# P05
("P05", KPM, "        if (window_cost < cost) {\n            second_cost = cost;\n            cost = window_cost;\n            min_cost_top_left_x", "        if (window_cost <= cost) {\n            second_cost = cost;\n            cost = window_cost;\n            min_cost_top_left_x"),
("P05", KPM, "        } else if (window_cost < second_cost) {\n            second_cost = window_cost;\n        }\n        search_image_top_left.x += increment;", "        }\n        search_image_top_left.x += increment;"),
("P05", KPM, "(!find_in_right && search_image_top_left.x <= left_image.cols - window.width)", "(!find_in_right && search_image_top_left.x < left_image.cols - window.width)"),
("P05", KPM, "const double window_cost = generate_cost_function(reference_image, reverse_reference_image_top_left)(", "const double window_cost = cost_function("),
("P05", KPM, "&& window_cost < cost) {\n                matched = false;", "&& window_cost <= cost) {\n                matched = false;"),
("P05", KPM, "if (std::abs(search_image_keypoint.pt.y - image_keypoint.pt.y) <= vertical_pixel_threshold) {", "if (std::abs(search_image_keypoint.pt.y - image_keypoint.pt.y) < vertical_pixel_threshold) {"),
("P05", KPM, "            if (((find_in_right && search_image_keypoint.pt.x <= image_keypoint.pt.x) ||", "            if (((find_in_right && search_image_keypoint.pt.x < image_keypoint.pt.x) ||"),
("P05", KPM, "    if (matching_filter == MatchingFilter::RATIO_TEST && cost / second_cost > ratio) {\n        min_cost_index = -1;", "    if (matching_filter == MatchingFilter::RATIO_TEST && cost > ratio) {\n        min_cost_index = -1;"),
("P05", KPM, "window_within_image(search_image, search_image_top_left, window)) {", "search_image_top_left.x >= 0 && search_image_top_left.y >= 0) {"),
("P05", KPM, "                        left_image, right_image, !find_in_right, reverse_cost) != i) {", "                        left_image, right_image, !find_in_right, reverse_cost) < 0) {"),
("P05", KPM, "static_cast<int>(std::floor(centre.y)) - half_window_floor.height", "static_cast<int>(std::lround(centre.y)) - half_window_floor.height"),
("P05", KPM, "    const double reference_window_sum_squares = window_sum_squares(reference_image, reference_top_left, window);", "    static const double reference_window_sum_squares = window_sum_squares(reference_image, reference_top_left, window);"),
("P05", KPM, "search_image_keypoint.pt = cv::Point2f{search_image_top_left} + half_window;", "search_image_keypoint.pt = cv::Point2f{search_image_top_left} + cv::Point2f{half_window.y, half_window.y};"),
# P06
("P06", MF, "        if (match.distance <= descriptor_distance_threshold) {", "        if (match.distance < descriptor_distance_threshold) {"),
("P06", MF, "query_pt.x > train_pt.x &&", "query_pt.x >= train_pt.x &&"),
("P06", MF, "    std::vector<cv::DMatch> filtered_matches;\n    indices_.clear();", "    std::vector<cv::DMatch> filtered_matches;\n    if (!matches.empty()) indices_.clear();"),
("P06", MF, "    fx = fx_;\n    fx_b = fx * baseline;", "    fx = fx_;\n    fx_b = fx_ * (fx_b / baseline > 0 ? baseline : 0.f);"),
("P06", MF, "indices_.push_back(i);", "indices_.push_back(match.queryIdx);"),
("P06", MF, "distance >= min_distance && distance <= max_distance", "distance > min_distance && distance <= max_distance"),
("P06", MF, "            if (distance >= min_distance && distance <= max_distance) {\n                filtered_matches.push_back(match);", "            if (distance >= min_distance && distance <= max_distance) {\n                filtered_matches.emplace_back(match.queryIdx, match.trainIdx, match.distance);"),
# P07
("P07", SE, "if (u_diff == 0.0) {", "if (std::abs(u_diff) < 0.5) {"),
("P07", SE, "intrinsic(0, 0) * (stereo_coordinate[2] - intrinsic(1, 2)) / intrinsic(1, 1)", "(stereo_coordinate[2] - intrinsic(1, 2))"),
("P07", SE, "if (point[2] <= 0.0) {", "if (point[2] < 0.1) {"),
("P07", SE, "{intrinsic(0, 2), intrinsic(0, 2), intrinsic(1, 2)}", "{intrinsic(0, 2), intrinsic(0, 2) + intrinsic(0, 1) * 1e-3, intrinsic(1, 2)}"),
# P08
("P08", SFT, "roi_mask.size() != left_image.size()", "roi_mask.empty()"),
("P08", SFT, "    if (roi != cv::Rect2i{} && roi_mask.size()", "    if (frame_number_ == 0 && roi != cv::Rect2i{} && roi_mask.size()"),
("P08", SFT, "remove_close_keypoints(new_keypoints[lr], new_track_hypotheses.keypoints[lr]);", "remove_close_keypoints(new_keypoints[lr], previous_track_data.keypoints[lr]);"),
("P08", SFT, "extract_match_ids(previous_track_data.match_ids, stereo_distance_filter->indices());", "extract_match_ids(new_track_hypotheses.match_ids, stereo_distance_filter->indices());"),
("P08", SFT, "if (stereo_match_costs[i] < stereo_match_cost_threshold && right_indices[i] >= 0) {", "if (stereo_match_costs[i] <= stereo_match_cost_threshold && right_indices[i] >= 0) {"),
("P08", SFT, "right_indices[i] >= 0) {", "right_indices[i] > 0) {"),
("P08", SFT, "        new_filtered_keypoint_matches.match_ids.emplace_back(next_match_id++);\n    }\n    if (stats) {", "        new_filtered_keypoint_matches.match_ids.emplace_back(next_match_id + i);\n    }\n    next_match_id += std::max<std::size_t>(new_filtered_keypoint_matches.size(), frame_number_ > 1 ? 1 : 0);\n    if (stats) {"),
("P08", SFT, "        sof_status_mats[1].at<unsigned char>(previous_match.trainIdx) == 1) {", "        sof_status_mats[1].at<unsigned char>(previous_match.queryIdx) == 1) {"),
("P08", SFT, "        if (sof_status_mats[0].at<unsigned char>(previous_match.queryIdx) == 1 &&\n                sof_status_mats[1].at<unsigned char>(previous_match.trainIdx) == 1) {", "        if (sof_status_mats[0].at<unsigned char>(previous_match.queryIdx) == 1 ||\n                sof_status_mats[1].at<unsigned char>(previous_match.trainIdx) == 1) {"),
("P08", SFT, "    previous_images = images;", "    if (previous_track_data.size() > 0 || frame_number_ == 0) previous_images = images;"),
("P08", SFT, "previous_match.distance};", "0.f};"),
("P08", SFT, "stats->get().longest_tracked_match_id = previous_track_data.match_ids[0];", "stats->get().longest_tracked_match_id = previous_track_data.match_ids.back();"),
("P08", SFT, "    return std::pow(vec.x, 2.0) + std::pow(vec.y, 2.0) <= sqr_dist;", "    return std::abs(vec.x) + std::abs(vec.y) <= std::sqrt(sqr_dist);"),
("P08", SFT, "stats->get().max_match_id = next_match_id - 1;", "stats->get().max_match_id = previous_track_data.match_ids.empty() ? -1 : previous_track_data.match_ids.back();"),
# P09
("P09", PT, "            tf.so3(cloud_in[i].data_u, cloud_out[i].data_u);\n        }\n    }\n    // Dataset", "            tf.se3(cloud_in[i].data_u, cloud_out[i].data_u);\n        }\n    }\n    // Dataset"),
("P09", PT, "                continue;\n            tf.se3(cloud_in[i].data, cloud_out[i].data);\n            tf.so3(cloud_in[i].data_n, cloud_out[i].data_n);\n            tf.so3(cloud_in[i].data_u", "                continue;\n            tf.se3(cloud_in[i].data, cloud_out[i].data);\n            tf.so3(cloud_in[i].data_n, cloud_out[i].data_n);\n            if (&cloud_in != &cloud_out) tf.so3(cloud_in[i].data_u"),
("P09", PTY, "    covariance_yz = p.covariance_yz;\n    covariance_zz = p.covariance_zz;\n}\n\nPointCovariance::PointCovariance() {", "    covariance_yz = p.covariance_xz;\n    covariance_zz = p.covariance_zz;\n}\n\nPointCovariance::PointCovariance() {"),
("P09", PTH, "covariance_xz, covariance_yz, covariance_zz;                                                    \\", "covariance_xz, covariance_yy, covariance_zz;                                                    \\"),
("P09", PTH, "covariance_yz = matrix(1, 2);", "covariance_yz = matrix(0, 2);"),
("P09", PTH, "setPose(pose.translation(), pose.rotation());", "setPose(Eigen::Vector3f(pose.translation()), Eigen::Matrix3f(pose.rotation().transpose()));"),
("P09", PTH, "inline float angle() const { return std::sqrt(rx * rx + ry * ry + rz * rz); }", "inline float angle() const { return std::sqrt(rx * rx + ry * ry + ry * rz); }"),
("P09", TPC, "    pct::transform_pointcloud_with_normals_and_unit_vectors(cloud_in, cloud_out, transform);\n}\n\ntemplate<typename Scalar, int Mode>", "    pcl::transformPointCloudWithNormals(cloud_in, cloud_out, transform);\n}\n\ntemplate<typename Scalar, int Mode>"),
("P09", PCU, "point.t /= 1.0e9;", "point.t *= 1.0e-9f;"),
("P09", PCU, "Eigen::Vector3f{pointcloud[i].ux, pointcloud[i].uy, pointcloud[i].uz};", "Eigen::Vector3f{pointcloud[i].ux, pointcloud[i].uy, pointcloud[i].uz}.normalized();"),
("P09", PTY, "    normal_x = p.normal_x;\n    normal_y = p.normal_y;\n    normal_z = p.normal_z;\n    data_n[3] = 0.0f;\n    curvature = p.curvature;\n    ux", "    normal_x = p.normal_x;\n    normal_y = p.normal_y;\n    normal_z = p.normal_z;\n    data_n[3] = 0.0f;\n    ux"),
# P10
("P10", RU, "const double max_sq_dist = std::pow(registration.getMaxCorrespondenceDistance(), 2.0);", "const double max_sq_dist = registration.getMaxCorrespondenceDistance();"),
("P10", RU, "if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] <= max_sq_dist) {", "if (search->nearestKSearch(source_point, 1, index, sq_dist) == 1 && sq_dist[0] < max_sq_dist) {"),
("P10", RU, "transform.inverse() * (*target_cloud)[i].getVector4fMap();", "transform.transpose() * (*target_cloud)[i].getVector4fMap();"),
("P10", RU, "correspondences->emplace_back(index[0], i, std::sqrt(sq_dist[0]));", "correspondences->emplace_back((*registration.getIndices())[index[0]], i, std::sqrt(sq_dist[0]));"),
("P10", RU, "if (search->getIndices() != registration.getIndices()) {", "if (search->getIndices() && search->getIndices()->size() != registration.getIndices()->size()) {"),
("P10", RU, "const std::size_t source_size = registration.getIndices()->size();  // Use indices size", "const std::size_t source_size = std::min(registration.getIndices()->size(), target_cloud->size());"),
# P11
("P11", RC, "const Eigen::Matrix3f target_point_cov = range_variance * target_point.get_unit_outer_product();", "const Eigen::Matrix3f target_point_cov = range_variance * (tf.R().template cast<float>() * target_point.get_unit_outer_product() * tf.R().template cast<float>().transpose());"),
("P11", RC, "Eigen::MatrixXd Sigma_z = range_bias_variance * (u * u.transpose());", "Eigen::MatrixXd Sigma_z = std::sqrt(range_bias_variance) * (u * u.transpose());"),
("P11", RC, "    return point_variance * half_d2F_dx2_inv;", "    return point_variance * half_d2F_dx2_inv * (correspondence_count > 6 ? static_cast<double>(correspondence_count) / (correspondence_count - 0.0) : 1.0) * (correspondence_count > 3 ? 1.01 : 1.0);"),
("P11", RC, "half_d2F_dx2.block<3, 3>(0, 0) += 0.5 * (e * p.transpose() + p * e.transpose())", "half_d2F_dx2.block<3, 3>(0, 0) += 1.0 * (e * p.transpose())"),
# P12
("P12", P2, "        offset = std::max(offset, point_step(field));", "        offset = point_step(field);"),
("P12", P2, "    dest.point_step = std::max(offset, src.point_step);", "    dest.point_step = offset;"),
("P12", P2, "return last_field.offset + pcl::getFieldSize(last_field.datatype) * last_field.count;", "return last_field.offset + pcl::getFieldSize(last_field.datatype);"),
("P12", P2, "if (!(std::abs(normal.norm() - 1.f) <= threshold)) {  //", "if (!(std::abs(normal.squaredNorm() - 1.f) <= threshold)) {  //"),
("P12", P2, "    statistics_.count = size_points(pointcloud);", "    statistics_.count = pointcloud.width;"),
("P12", P2, "    return pointcloud.height * pointcloud.width;", "    return pointcloud.data.size() / std::max(1u, pointcloud.point_step);"),
("P12", P2H, "        if (get_field_data(src, i) <= max) {", "        if (!(get_field_data(src, i) > max)) {"),
("P12", P2H, "    T max_ = std::numeric_limits<T>::lowest();", "    T max_ = std::numeric_limits<T>::min();"),
("P12", P2H, "    square_residuals_sum_ /= static_cast<double>(num_points);", "    square_residuals_sum_ /= static_cast<double>(num_points > 1 ? num_points - 1 : 1);"),
("P12", P2H, "        auto set_field_data = create_set_field_data_function<double, CastType>(field);", "        auto set_field_data = create_set_field_data_function<float, CastType>(field);"),
("P12", P2H, "    dest.header = src.header;\n    dest.height = 1;", "    dest.height = 1;"),
("P12", P2H, "    dest.is_bigendian = src.is_bigendian;\n    dest.point_step = src.point_step;\n    dest.data.clear();", "    dest.is_bigendian = src.is_bigendian;\n    dest.point_step = point_step(src.fields.back());\n    dest.data.clear();"),
("P12", P2, "        case pcl::PCLPointField::PointFieldTypes::UINT32:\n            return true;\n        case pcl::PCLPointField::PointFieldTypes::INT8:    // fallthrough", "        case pcl::PCLPointField::PointFieldTypes::UINT32:\n        case pcl::PCLPointField::PointFieldTypes::INT16:\n            return true;\n        case pcl::PCLPointField::PointFieldTypes::INT8:    // fallthrough"),
("P12", PA, "statistics_array_publisher.publish(statistics_array);", "if (!empty(*pointcloud) && has_field(*pointcloud, \"x\")) statistics_array_publisher.publish(statistics_array);"),
("P12", P2, "        set_uz_field_data(dest, i, unit_vector[2]);", "        set_uz_field_data(dest, i, std::sqrt(std::max(0.f, 1.f - unit_vector[0] * unit_vector[0] - unit_vector[1] * unit_vector[1])));"),
# P13
("P13", P2, "static_cast<double>(static_cast<std::int64_t>(new_time - src.header.stamp)) / 1.0e6;  // us to s", "static_cast<double>(new_time / 1000 - src.header.stamp / 1000) / 1.0e3;"),
("P13", P2, "const Eigen::Vector3d p_deskew = new_time_transform * interp_transform * p;", "const Eigen::Vector3d p_deskew = interp_transform * new_time_transform * p;"),
("P13", P2, "    if (!skew.isApprox(Eigen::Isometry3d::Identity())) {", "    if (!skew.translation().isZero()) {"),
("P13", P2, "const Eigen::Vector3d interp_translation = interp_fraction * skew_translation;", "const Eigen::Vector3d interp_translation = std::min(1.0, interp_fraction) * skew_translation;"),
("P13", P2, "    dest = src;\n    dest.header.stamp = new_time;", "    dest = src;\n    dest.is_dense = 1;\n    dest.header.stamp = new_time;"),
("P13", P2, "                eigen_ext::to_transform(new_time_translation, new_time_quaternion).inverse();", "                eigen_ext::to_transform(Eigen::Vector3d(-new_time_translation), new_time_quaternion.inverse());"),
("P13", P2, "const double t = get_t_field_data(dest, i);", "const double t = std::max(0.0, get_t_field_data(dest, i));"),
("P13", P2, "        if (dt <= 0.0) {", "        if (dt < 0.0) {"),
]
import random, re
def _deriv(n, seed=7):
    """single-token changes in the generated derivative blocks"""
    s = open("/repo/" + RC).read(); rnd = random.Random(seed); out = []
    lines = s.split("\n"); cand = [i for i, l in enumerate(lines) if re.search(r"\b(rx2ry|rxry2|ca \*|a3 \*|nx \*)", l) and s.count(l) == 1 and "const" not in l]
    for i in rnd.sample(cand, n):
        l = lines[i]; ops = [(m.start(), m.group()) for m in re.finditer(r" [+-] |\b[234568]\b|\bsa\b|\bca\b|\brx\b|\bry\b", l)]
        if not ops: continue
        p, t = rnd.choice(ops)
        new = {" + ": " - ", " - ": " + ", "sa": "ca", "ca": "sa", "rx": "ry", "ry": "rz"}.get(t, str(int(t) + 1) if t.isdigit() else t)
        out.append(("P11", RC, l, l[:p] + new + l[p + len(t):]))
    return out
M += _deriv(12)

# ---- batch 2: P14-P26 ----------------------------------------------------------------------------------------------------
EI = "eigen_ros/src/imu.cpp"; EP = "eigen_ros/src/pose.cpp"; EG = "eigen_ros/src/geometry_msgs.cpp"; EN = "eigen_ros/src/nav_msgs.cpp"
ES = "eigen_ros/src/statistics_msgs.cpp"; BF = "eigen_ros/src/body_frames.cpp"; BFT = "eigen_ros/src/body_frames_tf.cpp"; EO = "eigen_ros/src/odometry.cpp"
UT = "serpent/src/utils/utilities.cpp"; UTI = "serpent/include/serpent/utils/utilities-inl.hpp"; FE = "serpent/src/front_end/frontend.cpp"
OPT = "serpent/src/back_end/optimisation.cpp"; GM = "serpent/src/back_end/graph_manager.cpp"; MAP = "serpent/include/serpent/mapping/mapping-inl.hpp"
PF = "serpent/src/front_end/lidar/pointcloud_filter.cpp"; PFM = "serpent/src/front_end/lidar/pointcloud_formatter.cpp"
PNE = "serpent/include/serpent/front_end/lidar/pointcloud_normal_estimation-inl.hpp"
REG = "serpent/include/serpent/front_end/lidar/registration-inl.hpp"; RM = "serpent/include/serpent/front_end/lidar/registration_methods-inl.hpp"
NC = "navigation_tools/src/combine_transforms.cpp"; NI = "navigation_tools/src/integrate_imu.cpp"; NO = "navigation_tools/src/odometry_to_tf.cpp"
SFF = ST + "stereo_factor_finder.cpp"; SFT = ST + "stereo_feature_tracker.cpp"; ND = "serpent/src/nodes/node.cpp"; NB = "serpent/src/nodes/backend_node.cpp"; NF = "serpent/src/nodes/frontend_node.cpp"; NS = "serpent/src/nodes/stereo_pipeline_node.cpp"; LA = "serpent/launch/"; CFG = "serpent/config/"; RMC = "serpent/src/front_end/lidar/registration_methods.cpp"
IT = "imu_tools/src/imu_transform.cpp"; IA = "imu_tools/src/imu_analysis.cpp"
CO = "camera_tools/src/image_operations.cpp"; CS = "camera_tools/src/split_image.cpp"; CPI = "camera_tools/src/publish_info.cpp"; CF = "camera_tools/src/change_frame_id.cpp"
M += [
# P14 graph manager
("P14", GM, "if (key_info.priority <= priority_) {", "if (key_info.priority < priority_ || key_info.priority == 0) {"),
("P14", GM, "for (int i = first; i <= last; ++i) {\n        // Factors associated with key i", "for (int i = first; i < last + (first == last ? 1 : (last - first > 3 ? 0 : 1)); ++i) {\n        // Factors associated with key i"),
("P14", GM, "unmarginalised_keys(features_im1->first).remove(S(id));", ""),
("P14", GM, "features_im1->second.at(id), stereo_noise_model, X(features_im1->first), S(id), K,", "features_im1->second.at(id), stereo_noise_model, X(key_ - 1), S(id), K,"),
("P14", GM, "features_im2->second.find(id) == features_im2->second.end()) {", "!has_stereo_landmark(id)) {"),
("P14", GM, "if (has_stereo_landmark(id) && features_im1->second.find(id) == features_im1->second.end()) {", "if (has_stereo_landmark(id) && features_im1->second.find(id) == features_im1->second.end() && features.size() > 1) {"),
("P14", GM, "return RobotState{timestamp(key_), pose(key_), velocity(key_), imu_bias(key_), barometer_bias(key_)};", "return RobotState{timestamp(key_), navstate(key_), imu_bias(key_), barometer_bias(std::max(0, key_ - (key_ > 2)))};"),
("P14", GM, "keys.at(name) = NamedKeyInfo{key_, priority_};", "keys.at(name).key = key_;"),
("P14", GM, "emplace_it.first->second = timestamp_;", "if (emplace_it.first->second < timestamp_) emplace_it.first->second = timestamp_;"),
("P14", GM, "if (factor->find(key_) != factor->end()) {", "if (factor->front() == key_ || factor->back() == key_) {"),
# P15
("P15", EI, "orientation_covariance = from_frame_ext_m * orientation_covariance * from_frame_ext_m_transpose;", "orientation_covariance = to_frame_ext.matrix() * orientation_covariance * to_frame_ext.matrix().transpose();"),
("P15", EI, "if (imu1.timestamp == imu2.timestamp) {\n        return imu1;", "if (interp_timestamp == imu1.timestamp) {\n        return imu1;"),
("P15", EI, "interp <= 0.5 ? imu1.angular_velocity_covariance : imu2.angular_velocity_covariance,", "interp < 0.5 ? imu1.angular_velocity_covariance : imu2.angular_velocity_covariance,"),
("P15", EI, "interp_timestamp > imu2.timestamp) {", "(interp_timestamp - imu2.timestamp).toSec() > 1.0e-9) {"),
("P15", EP, "eigen_ext::change_covariance_frame(current_pose.covariance, transform.inverse()));", "eigen_ext::change_covariance_frame(current_pose.covariance, transform));"),
("P15", EN, "odom.child_frame = msg.child_frame_id;", "if (!msg.child_frame_id.empty()) odom.child_frame = msg.child_frame_id;"),
("P15", ES, "covariance.resize(msg.dimensions, msg.dimensions);\n    from_ros(msg.matrix, covariance);\n}\n\nvoid from_ros(const statistics_msgs::CovarianceStamped& msg", "if (covariance.rows() < msg.dimensions) covariance.resize(msg.dimensions, msg.dimensions);\n    from_ros(msg.matrix, covariance);\n}\n\nvoid from_ros(const statistics_msgs::CovarianceStamped& msg"),
("P15", EO, "transform.timestamp,\n            current_odometry.frame, current_odometry.child_frame);", "std::max(transform.timestamp, current_odometry.timestamp),\n            current_odometry.frame, current_odometry.child_frame);"),
("P15", EG, "Eigen::Quaterniond q{matrix};", "Eigen::Quaterniond q{Eigen::AngleAxisd{matrix}}; if (q.w() < 1e-6) q.w() = 0;"),
("P15", EI, "imu1.orientation == Eigen::Quaterniond(0, 0, 0, 0) || imu2.orientation == Eigen::Quaterniond(0, 0, 0, 0)", "imu1.orientation == Eigen::Quaterniond(0, 0, 0, 0)"),
# P16
("P16", BF, "process_frames(it->second[\"frames\"], transform, frame_);", "process_frames(it->second[\"frames\"], it->second.hasMember(\"lookup_tf\") ? prepend_transform : transform, frame_);"),
("P16", BF, ": frame_to_body(frame1) * body_to_frame(frame2);", ": body_to_frame(frame1).inverse() * body_to_frame(frame2).inverse().inverse();"),
("P16", BF, "return is_dynamic(frame_) ? lookup_transform(frame_, body_frame_, timestamp)", "return is_dynamic(frame_) ? lookup_transform(frame_, body_frame_, ros::Time(0))"),
("P16", BF, "return is_dynamic(frame1) || is_dynamic(frame2) ?", "return is_dynamic(frame2) ?"),
("P16", BF, "transform = lookup_transform(parent_frame, frame_, ros::Time(0));", "transform = lookup_transform(body_frame_, frame_, ros::Time(0));"),
("P16", BF, "        rotation.normalize();\n", "        if (std::abs(rotation.norm() - 1.0) > 1.0e-2) {\n            rotation.normalize();\n        }\n"),
("P16", BF, "if (!frames_map.emplace(alias, frame_).second) {", "if (!frames_map.emplace(alias, frame_id_).second) {"),
("P16", BF, "{\"aliases\", \"lookup_tf\", \"translation\", \"rotation\", \"frames\"}", "{\"aliases\", \"lookup_tf\", \"translation\", \"rotation\"}"),
("P16", BF, "tf_buffer.lookupTransform(frame_id(frame1), frame_id(frame2), timestamp, lookup_tf_timeout);", "tf_buffer.lookupTransform(frame_id(frame1), frame2, timestamp, lookup_tf_timeout);"),
("P16", BFT, "transform.header.frame_id = frame_id;\n            transform.child_frame_id = alias;", "transform.header.frame_id = frame;\n            transform.child_frame_id = alias;"),
("P16", BFT, "!body_frames.lookedup_tf(frame) &&", "!(body_frames.lookedup_tf(frame) && body_frames.aliases(frame_id).empty()) &&"),
("P16", BF, "    if (!frames_map.emplace(frame_id_, frame_).second) {", "    if (!frames_map.emplace(frame_id_, frame_).second && frame_id_ == body_frame_) {"),
# P17
("P17", UT, "if (next_it == buffer.cend() || next_it->timestamp > start) {", "if (next_it == buffer.cend() || next_it->timestamp >= start) {"),
("P17", UT, "if (it->timestamp > end) {\n            break;", "if (it->timestamp >= end) {\n            break;"),
("P17", UT, "const ros::Time integration_time_end = (next_it == buffer.cend()) ? end : std::min(next_it->timestamp, end);", "const ros::Time integration_time_end = (next_it == buffer.cend()) ? std::min(it->timestamp + (it->timestamp - std::prev(it)->timestamp) + (it->timestamp - std::prev(it)->timestamp), end) : std::min(next_it->timestamp, end);"),
("P17", UT, "preint.integrateMeasurement(it->linear_acceleration, it->angular_velocity, dt);", "preint.integrateMeasurement(next_it != buffer.cend() && integration_time_end == next_it->timestamp && it == buffer.cbegin() ? Eigen::Vector3d((it->linear_acceleration + next_it->linear_acceleration) / 2.0) : it->linear_acceleration, it->angular_velocity, dt);"),
("P17", UT, "imu_buffer.front().timestamp < timestamp) {", "imu_buffer.front().timestamp <= timestamp) {"),
("P17", UT, "} else if (buffer.front().timestamp > start) {", "} else if (buffer.front().timestamp > start && buffer.front().timestamp >= end) {"),
("P17", UT, "    while (ros::ok() && condition()) {", "    while (condition() && ros::ok()) {"),
("P17", UT, "    if (!leave_locked) {\n        mutex.unlock();\n    }\n    return ros::ok();", "    const bool ok = ros::ok();\n    if (!leave_locked || !ok) {\n        mutex.unlock();\n    }\n    return ok;"),
("P17", UTI, "if (time2 <= time1 || interpolation_time < time1", "if (time2 < time1 || interpolation_time < time1"),
("P17", UT, "pressure1.variance, pressure2.variance, pressure1", "pressure1.variance, pressure1.variance, pressure1"),
("P17", UT, "eigen_ext::is_valid_covariance(params.getGyroscopeCovariance()) &&\n", ""),
("P17", UT, "params.getGravity().norm() > 0.0 && ", ""),
# P18
("P18", FE, "while (!stereo_buffer.empty() && stereo_buffer.front().timestamp() < previous_pointcloud_start) {", "while (!stereo_buffer.empty() && stereo_buffer.front().timestamp() <= previous_pointcloud_start) {"),
("P18", FE, "if (stereo_buffer.front().timestamp() < pointcloud_start) {", "if (stereo_buffer.front().timestamp() <= pointcloud_start) {"),
("P18", FE, "                // Remove stereo data from queue.\n                stereo_buffer.pop_front();", "                // Remove stereo data from queue.\n                stereo_buffer.clear();"),
("P18", FE, "return last_preint_imu_timestamp < new_state_time; })) {", "return last_preint_imu_timestamp <= new_state_time; })) {"),
("P18", FE, "(it->timestamp > previous_state_time || std::next(it)->timestamp > previous_state_time)) {", "(it->timestamp >= previous_state_time || std::next(it)->timestamp >= previous_state_time)) {"),
("P18", FE, "delete_old_measurements(imu_s2s->measurements.front().header.stamp, imu_buffer);", "delete_old_measurements(new_state_time, imu_buffer);"),
("P18", FE, "return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end;", "return imu_bias_timestamp == ros::Time() || last_preint_imu_timestamp < previous_pointcloud_end;"),
("P18", FE, "return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end;", "return imu_bias_timestamp != previous_state_time || last_preint_imu_timestamp < previous_pointcloud_end - ros::Duration(0.01);"),
("P18", FE, "            preintegrated_imu_skew.resetIntegration();\n", ""),
("P18", FE, "if (imu.timestamp > last_preint_imu_timestamp) {", "if (imu.timestamp >= last_preint_imu_timestamp + ros::Duration(0.001)) {"),
("P18", FE, "body_frames.body_to_frame(\"imu\").rotation() * (imu.angular_velocity - imu_biases.gyroscope());", "body_frames.frame_to_body(\"imu\").rotation() * (imu.angular_velocity - imu_biases.gyroscope());"),
("P18", FE, "body_frames.body_to_frame(\"imu\").rotation() * (imu.angular_velocity - imu_biases.gyroscope());", "body_frames.body_to_frame(\"imu\").rotation() * imu.angular_velocity;"),
("P18", FE, "body_frames.body_to_frame(\"base_link\", world_odometry.timestamp));", "body_frames.body_to_frame(\"base_link\"));"),
("P18", FE, "eigen_ext::change_relative_transform_frame(skew_transform, body_frames.frame_to_body(\"lidar\"));", "eigen_ext::change_relative_transform_frame(skew_transform, body_frames.body_to_frame(\"lidar\"));"),
("P18", FE, "if (imu_reference_frame == \"NED\") {", "if (imu_reference_frame != \"NWU\" && imu_reference_frame != \"NED\") {"),
("P18", FE, "std::pow(nh.param<double>(\"prior_noise/linear_velocity\", 1.0e-3), 2.0);", "nh.param<double>(\"prior_noise/linear_velocity\", 1.0e-3);"),
("P18", FE, "                // Publish stereo data if it hasn't been already.\n                if (only_graph_frames) {", "                if (only_graph_frames && initialised) {"),
("P18", FE, "const ros::Time timestamp = pcl_conversions::fromPCL(pcl_conversions::toPCL(left_image->header.stamp));", "const ros::Time timestamp = left_image->header.stamp;"),
("P18", FE, "        imu.angular_velocity_covariance = gyroscope_covariance;\n", "        if (imu.angular_velocity_covariance.isZero()) {\n            imu.angular_velocity_covariance = gyroscope_covariance;\n        }\n"),
("P18", FE, "    last_preint_imu_timestamp = imu_bias_timestamp;\n", ""),
("P18", FE, "deskew_imu.angular_velocity_covariance};", "Eigen::Matrix3d::Zero()};"),
# P19
("P19", FE, "barometer_buffer.back()->header.stamp > barometer_timestamp_buffer.front()) {", "barometer_buffer.back()->header.stamp >= barometer_timestamp_buffer.front()) {"),
("P19", FE, "while (barometer_buffer.at(1)->header.stamp < barometer_timestamp_buffer.front()) {", "while (barometer_buffer.size() > 2 && barometer_buffer.at(2)->header.stamp < barometer_timestamp_buffer.front()) {"),
("P19", FE, "while (barometer_buffer.at(1)->header.stamp < barometer_timestamp_buffer.front()) {", "while (barometer_buffer.at(1)->header.stamp <= barometer_timestamp_buffer.front()) {"),
("P19", FE, "            pressure->header.stamp = barometer_timestamp_buffer.front();\n            barometer_publisher", "            barometer_publisher"),
("P19", FE, "            barometer_timestamp_buffer.push_back(new_state_time);\n            barometer_try_publish();", "            barometer_timestamp_buffer.push_back(new_state_time);"),
("P19", FE, "        pressure_->variance = barometer_variance;\n        barometer_buffer.push_back(pressure_);", "        if (pressure_->variance <= 0.0) pressure_->variance = barometer_variance;\n        barometer_buffer.push_back(pressure_);"),
("P19", FE, "barometer_timestamp_buffer.push_back(new_state_time);", "barometer_timestamp_buffer.push_back(previous_pointcloud_start);"),
("P19", FE, "            std::lock_guard<std::mutex> guard{barometer_data_mutex};\n            barometer_timestamp_buffer.push_back(new_state_time);", "            barometer_timestamp_buffer.push_back(new_state_time);"),
# P20
("P20", OPT, "const double mean_y = (msg.left_y + msg.right_y) / 2.0;", "const double mean_y = msg.left_y;"),
("P20", OPT, "gm->set_pose(\"reg\", gm->pose(\"reg\", -1) * registration_pose_gtsam);", ""),
("P20", OPT, "while (gm->has_pose(\"barometer\") && gm->timestamp(\"barometer\") < pressure->header.stamp) {", "if (gm->has_pose(\"barometer\") && gm->timestamp(\"barometer\") < pressure->header.stamp) {"),
("P20", OPT, "for (int key = std::max(1, next_barometer_key); key <= gm->key(\"barometer\"); ++key) {", "for (int key = std::max(1, gm->key(\"barometer\")); key <= gm->key(\"barometer\"); ++key) {"),
("P20", OPT, "const double height_bias = height - gm->pose(\"barometer\").z();", "const double height_bias = height - gm->pose(0).z();"),
("P20", OPT, "return gm->opt_key() != gm->key(\"imu\"); })) {", "return gm->opt_key() < gm->key(\"imu\") - 1; })) {"),
("P20", OPT, "eigen_ext::change_relative_transform_frame(s2s_pose_body, body_frames.frame_to_body(\"lidar\"))};", "eigen_ext::change_relative_transform_frame(s2s_pose_body, body_frames.body_to_frame(\"lidar\"))};"),
("P20", OPT, "if (!eigen_ext::is_valid_covariance(registration_pose.data.covariance, 1.0e-9)) {", "if (!registration_pose.data.covariance.allFinite()) {"),
("P20", OPT, "prior_accel_bias_noise, prior_gyro_bias_noise, prior_gyro_bias_noise, prior_gyro_bias_noise)", "prior_accel_bias_noise, prior_accel_bias_noise, prior_accel_bias_noise, prior_accel_bias_noise)"),
("P20", OPT, "pressure->fluid_pressure * 1.0e-3,\n            gtsam::noiseModel::Isotropic::Variance(1, pressure->variance));", "pressure->fluid_pressure * 1.0e-3,\n            gtsam::noiseModel::Isotropic::Sigma(1, pressure->variance));"),
("P20", OPT, "imu_s2s.front().angular_velocity_covariance);", "imu_s2s.back().angular_velocity_covariance);"),
("P20", OPT, "gm->set_velocity(0, odometry.twist.linear);", "if (imu_factors_enabled) gm->set_velocity(0, odometry.twist.linear);"),
("P20", OPT, "gm->set_imu_bias(\"imu\", gm->imu_bias(\"imu\", -1));", "gm->set_imu_bias(\"imu\", gm->imu_bias(0));"),
("P20", OPT, "preintegrated_imu.predict(gm->navstate(\"imu\", -1), gm->imu_bias(\"imu\", -1)));", "preintegrated_imu.predict(gm->navstate(\"imu\", -1), gm->imu_bias(0)));"),
("P20", OPT, "robust_noise_model = gtsam::noiseModel::mEstimator::DCS::Create(c, reweight_scheme);", "robust_noise_model = gtsam::noiseModel::mEstimator::GemanMcClure::Create(c, reweight_scheme);"),
("P20", OPT, "const double k = nh.param<double>(\"stereo_factors/robust/huber/k\", 1.345);", "const double k = nh.param<double>(\"stereo_factors/robust/k\", 1.345);"),
("P20", OPT, "const double cy = left_info.K[5];", "const double cy = left_info.P[6];"),
("P20", OPT, "optimization_params.setInitialDelta(nh.param<double>(\"isam2/dogleg_params/initial_delta\", 1.0));", ""),
("P20", GM, "auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(\n                        feature, stereo_noise_model, X(key_), S(id), K, body_to_stereo_left_cam);", "auto stereo_factor = boost::make_shared<gtsam::GenericStereoFactor<gtsam::Pose3, gtsam::Point3>>(\n                        features_i->second.begin()->second, stereo_noise_model, X(key_), S(id), K, body_to_stereo_left_cam);"),
("P20", OPT, "gtsam::Vector(3) << nh.param<double>(\"stereo_factors/noise/left_x\", 5.0),\n                nh.param<double>(\"stereo_factors/noise/right_x\", 5.0)", "gtsam::Vector(3) << nh.param<double>(\"stereo_factors/noise/left_x\", 5.0),\n                nh.param<double>(\"stereo_factors/noise/left_x\", 5.0)"),
# P22
("P22", MAP, "const Eigen::Isometry3d lidar_pose = to_transform(body_pose_stamped.data) * body_frames.body_to_frame(\"lidar\");", "const Eigen::Isometry3d lidar_pose = to_transform(body_pose_stamped.data) * body_frames.frame_to_body(\"lidar\");"),
("P22", MAP, "return distance_m > distance_threshold || rotation_rad > rotation_threshold;", "return distance_m >= distance_threshold || rotation_rad >= rotation_threshold;"),
("P22", MAP, "const double rotation_rad = new_frame_pose.orientation.angularDistance(previous_frame_pose.orientation);", "const double rotation_rad = 2.0 * std::acos(std::min(1.0, new_frame_pose.orientation.dot(previous_frame_pose.orientation)));"),
("P22", MAP, "should_add_to_map(lidar_pose_stamped.data, last_frame().pose.data)", "should_add_to_map(lidar_pose_stamped.data, (map.size() > 2 ? std::next(map.rbegin())->second : last_frame()).pose.data)"),
("P22", MAP, "while (it->first > lidar_frame.timestamp) {\n        ++it;\n    }\n", ""),
("P22", MAP, "            pose_cloud->at(pose_cloud_indices.at(it->second.pose.timestamp)) = PointAngleAxis{\n                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};", "            pose_cloud->back() = PointAngleAxis{\n                    frame_pose_stamped.data.position.cast<float>(), frame_pose_stamped.data.orientation.cast<float>()};"),
("P22", MAP, "it->second.pose = frame_pose_stamped;", "it->second.pose.data.position = frame_pose_stamped.data.position;"),
("P22", MAP, "voxel_grid_enabled_global ? filter_pointcloud(pointcloud) : pointcloud;", "voxel_grid_enabled_local ? filter_pointcloud(pointcloud) : pointcloud;"),
("P22", MAP, "auto it = map.find(frame_pose_stamped.timestamp);", "auto it = map.lower_bound(frame_pose_stamped.timestamp);"),
("P22", MAP, "const std::size_t k = std::min(n, pose_cloud->size());", "const std::size_t k = std::min(n + 1, pose_cloud->size());"),
("P22", MAP, "transform_pointcloud(*map_frame.pointcloud, *pointcloud_i, eigen_ros::to_transform(map_frame.pose.data));\n            *pointcloud", "transform_pointcloud(*map_frame.pointcloud, *pointcloud_i, eigen_ros::to_transform(map_frame.pose.data).inverse());\n            *pointcloud"),
("P22", MAP, "    if (!pointcloud_timestamp_found) {\n        throw", "    if (!pointcloud_timestamp_found && map.empty()) {\n        throw"),
# P23
("P23", PFM, "if (!pct::has_field(*pointcloud, \"t\") && pct::has_field(*pointcloud, \"time\")) {", "if (pct::has_field(*pointcloud, \"time\")) {"),
("P23", PFM, "            pct::cast_field_with_scale<pcl::PCLPointField::PointFieldTypes::FLOAT32>(*pointcloud, \"t\", 1.0e-9);", "            pct::cast_field_with_scale<pcl::PCLPointField::PointFieldTypes::FLOAT32>(*pointcloud, \"t\", 1.0e-9f);\n            if (time_field_filter_enabled) max_time_threshold = static_cast<float>(static_cast<int>(max_time_threshold * 1000.0f)) / 1000.0f;"),
("P23", PFM, "        first_pointcloud_removed = true;\n        return;", "        first_pointcloud_removed = msg->width > 0;\n        return;"),
("P23", PFM, "    pointcloud->header.frame_id = body_frames.frame_id(\"lidar\");", "    if (pointcloud->header.frame_id.empty()) pointcloud->header.frame_id = body_frames.frame_id(\"lidar\");"),
("P23", PF, "voxel_grid_filter.setDownsampleAllData(true);", "voxel_grid_filter.setDownsampleAllData(range_filter_enabled || body_filter_enabled);"),
("P23", PF, "std::string output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled || body_filter_enabled)", "std::string output_topic = (random_sample_enabled || sor_enabled || range_filter_enabled)"),
("P23", PF, "output_topic = (random_sample_enabled || sor_enabled) ? \"filter/range_filtered_pointcloud\" : final_output_topic;", "output_topic = random_sample_enabled ? \"filter/range_filtered_pointcloud\" : final_output_topic;"),
("P23", PF, "nh.param<float>(\"body_filter/min/y\", 0.f), nh.param<float>(\"body_filter/min/z\", 0.f), 1.f));", "nh.param<float>(\"body_filter/min/y\", 0.f), nh.param<float>(\"body_filter/min/y\", 0.f), 1.f));"),
("P23", PF, "body_filter.setTranslation(Eigen::Vector3f(nh.param<float>(\"body_filter/translation/x\", 0.f),", "body_filter.setTranslation(-Eigen::Vector3f(nh.param<float>(\"body_filter/translation/x\", 0.f),"),
("P23", PF, "sor_filter.setStddevMulThresh(nh.param<double>(\"statistical_outlier_removal/stddev_mul_thresh\", 0.0));", "sor_filter.setStddevMulThresh(nh.param<double>(\"statistical_outlier_removal/stddev_mul_threshold\", 0.0));"),
("P23", PNE, "normal_estimation.setKSearch(nh.param<int>(\"normal_estimation/k\", 30));", "normal_estimation.setKSearch(nh.param<int>(\"normal_estimation/k\", 30) + 1);"),
("P23", PNE, "            nh.param<float>(\"normal_estimation/viewpoint/y\", 0.f),\n            nh.param<float>(\"normal_estimation/viewpoint/z\", 0.f));", "            nh.param<float>(\"normal_estimation/viewpoint/z\", 0.f),\n            nh.param<float>(\"normal_estimation/viewpoint/y\", 0.f));"),
# P24
("P24", REG, "const Eigen::Matrix4f tf_mat_float = transform.matrix().cast<float>();", "const Eigen::Matrix4f tf_mat_float = transform.inverse().matrix().cast<float>();"),
("P24", REG, "transform_msg->header.stamp = timestamp;  ", "transform_msg->header.stamp = ros::Time(timestamp.sec, timestamp.nsec / 10000 * 10000);  "),
("P24", REG, "covariance.allFinite() ? eigen_ext::change_covariance_frame(covariance, body_lidar_transform_adjoint)", "covariance.allFinite() && covariance_estimation_method != CovarianceEstimationMethod::CONSTANT ? eigen_ext::change_covariance_frame(covariance, body_lidar_transform_adjoint)"),
("P24", REG, "eigen_ext::change_relative_transform_frame(transform_lidar, body_frames.body_to_frame(\"lidar\"));", "eigen_ext::change_relative_transform_frame(transform_lidar, body_frames.frame_to_body(\"lidar\"));"),
("P24", REG, "return s2s_registrations.empty() || s2m_pointclouds.empty(); })) {", "return s2m_pointclouds.empty(); }) || s2s_registrations.empty()) {"),
("P24", REG, "    s2s_registrations.pop_front();\n    lock.unlock();", "    s2s_registrations.clear();\n    lock.unlock();"),
("P24", REG, "s2m = registration_method<PointT, PointT>(nh, \"s2m/\");", "s2m = registration_method<PointT, PointT>(nh, \"s2s/\");"),
("P24", REG, "range_bias_variance = std::pow(range_bias_noise, 2.0);", "range_bias_variance = range_bias_noise;"),
("P24", REG, "eigen_ext::reorder_covariance(covariance_body, 3)", "covariance_body"),
("P24", RM, "nh.param<double>(prefix + \"base/transformation_rotation_epsilon\", 0.0));", "nh.param<double>(prefix + \"base/transformation_epsilon\", 0.0));"),
("P24", RM, "fast_gicp_st.setNumThreads(1);", ""),
("P24", RM, "icp.setUseReciprocalCorrespondences(nh.param<bool>(prefix + \"icp/use_reciprocal_correspondences\", false));", "icp.setUseReciprocalCorrespondences(nh.param<bool>(prefix + \"icp/use_reciprocal_correspondences\", true));"),
("P24", REG, "std::pow(nh.param<double>(\"voxel_grid_filter/leaf_size\", 0.1), 2.0);", "std::pow(nh.param<double>(\"voxel_grid_filter/leaf_size\", 0.1), 3.0);"),
("P24", REG, "    previous_pointcloud = current_pointcloud;\n}", "    if (!previous_pointcloud || !s2m_enabled || s2s->hasConverged()) previous_pointcloud = current_pointcloud;\n}"),
# P25
("P25", NC, "path.header.stamp = transform.timestamp;", "if (path.header.stamp == ros::Time()) path.header.stamp = transform.timestamp;"),
("P25", NC, "odometry = eigen_ros::apply_transform(odometry, transform);", "odometry = eigen_ros::apply_transform(odometry, transform); odometry.pose.orientation = path.poses.size() % 3 == 2 ? Eigen::Quaterniond(odometry.pose.orientation.w(), odometry.pose.orientation.x(), odometry.pose.orientation.y(), std::abs(odometry.pose.orientation.z())).normalized() : odometry.pose.orientation;"),
("P25", NI, "if (dt == 0.0) {", "if (dt < 0.0) {"),
("P25", NI, "velocity_covariance << imu.angular_velocity_covariance, Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Zero(),\n                linear_velocity_covariance;", "velocity_covariance << linear_velocity_covariance, Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Zero(),\n                imu.angular_velocity_covariance;"),
("P25", NI, "preintegration_params->setBiasOmegaCovariance(\n            Eigen::Matrix3d::Identity() * std::pow(nh.param<double>(\"imu/noise/gyroscope_bias\", 1.0e-3), 2.0));", "preintegration_params->setBiasOmegaCovariance(\n            Eigen::Matrix3d::Identity() * std::pow(nh.param<double>(\"imu/noise/gyroscope\", 1.0e-3), 2.0));"),
("P25", NI, "Eigen::Quaterniond{(imu.orientation * body_frames.frame_to_body(\"imu\")).rotation()};", "Eigen::Quaterniond{(imu.orientation * body_frames.body_to_frame(\"imu\")).rotation()};"),
("P25", NI, "        initial_state = gtsam::NavState{gtsam::Rot3{body_orientation}, position, linear_velocity};", "        initial_state = gtsam::NavState{gtsam::Rot3{body_orientation}, position, body_orientation * linear_velocity};"),
("P25", NO, "transform.header = odometry->header;", "transform.header.stamp = odometry->header.stamp; transform.header.frame_id = \"map\";"),
("P25", IT, "imu.orientation_covariance = rotation * imu.orientation_covariance * rotation.inverse();", "imu.orientation_covariance = rotation.inverse() * imu.orientation_covariance * rotation;"),
("P25", IA, "const Eigen::Quaterniond q_FX = imu.orientation * rotation;", "const Eigen::Quaterniond q_FX = rotation * imu.orientation;"),
("P25", NI, "        path_publisher.publish(path);\n    } else {", "        path_publisher.publish(path);\n        imu_bias = gtsam::imuBias::ConstantBias{imu.linear_acceleration * 0.0, integrator->deltaTij() > 3.0 ? imu.angular_velocity * 1.0e-3 : Eigen::Vector3d(Eigen::Vector3d::Zero())};\n    } else {"),
# P26
("P26", CO, "out.K[2] = in.height - in.K[5];", "out.K[2] = in.width - in.K[5];"),
("P26", CO, "if (degrees_clockwise < 0 || degrees_clockwise % 90 != 0) {", "if (degrees_clockwise % 90 != 0) {"),
("P26", CO, "            flip_code = -1;\n            break;\n        default", "            flip_code = 0;\n            break;\n        default"),
("P26", CO, "            out.K[5] = in.width - in.K[2];", "            out.K[5] = in.width - in.K[5];"),
("P26", CS, "std::make_shared<Rotate>((360 - (int)it->second) % 360));", "std::make_shared<Rotate>(std::abs((int)it->second - 360 * ((int)it->second == 90))));"),
("P26", CS, "camera_info.header = output.header;", "camera_info.header = cv_image->header;"),
("P26", CS, "camera_info.D[4] = distortion[\"k3\"];", "camera_info.D[4] = distortion[\"k2\"];"),
("P26", CPI, "camera_info.height = msg->height;", "if (camera_info.height == 0) camera_info.height = msg->height;"),
("P26", CPI, "camera_info.P[3] = - camera_info.P[0] *", "camera_info.P[3] = - camera_info.K[0] *"),
("P26", CF, "new_info->header.frame_id = frame_id;", "new_info->header.frame_id = frame_id; new_info->header.stamp = ros::Time::now();"),
("P26", CS, "camera_info = operation->apply(camera_info);", "if (&operation == &image_config.operations.front() || image_config.operations.size() < 3) camera_info = operation->apply(camera_info);"),
# P27
("P27", SFF, """"stereo_tracking/detector/gftt/min_distance", 1.0""", """"stereo_tracking/detector/gftt/min_dist", 1.0"""),
("P27", SFF, "create(num_features, num_octave_layers, constrast_threshold, edge_threshold, sigma)", "create(num_features, num_octave_layers, edge_threshold, constrast_threshold, sigma)"),
("P27", SFF, "num_levels, edge_threshold, first_level, wta_k", "num_levels, patch_size, first_level, wta_k"),
("P27", SFF, "cv::Size{win_size_vec.at(0), win_size_vec.at(1)}", "cv::Size{win_size_vec.at(1), win_size_vec.at(0)}"),
("P27", SFF, "roi.x = nh.param<int>(\"stereo_mask/top_left_x\", 0);", "roi.x = nh.param<int>(\"stereo_mask/top_left_y\", 0);"),
("P27", SFF, "tracker->frame_number() == -1 && nh.param<bool>", "tracker->frame_number() == 0 && nh.param<bool>"),
("P27", SFF, "return cv::TermCriteria::COUNT + cv::TermCriteria::EPS;", "return cv::TermCriteria::EPS;"),
("P27", SFF, "stereo_features->right_info = *right_info;", "stereo_features->right_info = *left_info;"),
("P27", SFF, "    stereo_features->header = header;\n    to_ros", "    stereo_features->header = right_image->header;\n    to_ros"),
("P27", SFF, "stereo_feature.right_y = stereo_keypoint_matches.keypoints[1][match.trainIdx].pt.y;", "stereo_feature.right_y = stereo_feature.left_y;"),
("P27", SFF, "keypoints[1][match.trainIdx].pt.x;\n        stereo_feature.right_y", "keypoints[1][match.queryIdx].pt.x;\n        stereo_feature.right_y"),
("P27", SFF, "if (left_info->K[0] != right_info->K[0]) {", "if (left_info->K[0] > right_info->K[0]) {"),
("P27", SFF, "StereoDistanceFilter::create(left_info->K[0], baseline,", "StereoDistanceFilter::create(left_info->K[4], baseline,"),
("P27", SFF, "msg.filtered_extracted_kp_count[lr] = statistics.filtered_extracted_kp_count[lr];", "msg.filtered_extracted_kp_count[lr] = statistics.extracted_kp_count[lr];"),
("P27", SFF, "            } catch (const std::exception& ex) {\n            }", "            } catch (const std::exception& ex) {\n                break;\n            }"),
("P27", SFF, "    previous_right_image = right_image;", "    previous_right_image = left_image;"),
("P27", SFF, "    if (print_stats || publish_stats) {", "    if (print_stats) {"),
("P27", SFF, "new_feature_dist_threshold, stereo_match_cost_threshold, nullptr, roi);", "stereo_match_cost_threshold, new_feature_dist_threshold, nullptr, roi);"),
# P28
("P28", ND, "nh.param<bool>(\"statistical_outlier_removal/enabled\", false) ||", "nh.param<bool>(\"statistical_outlier_removal/enable\", false) ||"),
("P28", NF, "nh.param<bool>(\"body_filter/enabled\", false) ||", "nh.param<bool>(\"body_filter/enabled\", false) &&"),
("P28", NF, "            input_topic = pointcloud_filter->output_topic();\n", ""),
("P28", NF, "            input_topic = pointcloud_add_unit_vectors->output_topic();\n", ""),
("P28", NB, "    eigen_ros::BodyFramesTf body_frames_tf(\"serpent\");\n", ""),
("P28", NB, "if (nh.param<bool>(\"optimisation/factors/stereo\", true)) {", "if (nh.param<bool>(\"optimisation/factors/stereo\", false)) {"),
("P28", NB, "param<std::string>(\"registration_covariance/point_covariance/method\", \"RANGE\")", "param<std::string>(\"registration_covariance/point_covariance/method\", \"CONSTANT\")"),
("P28", NS, "if (threads < 1) {", "if (threads < 0) {"),
("P28", ND, "ros::AsyncSpinner spinner(threads);", "ros::AsyncSpinner spinner(std::min(threads, 8));"),
("P28", ND, "            mapping_unit_vectors = std::make_unique", "            if (nh.param<bool>(\"s2m/enabled\", true)) mapping_unit_vectors = std::make_unique"),
("P28", LA + "serpent_backend.launch", "type=\"serpent_backend_node\"", "type=\"serpent_backend\""),
("P28", PF, "nh.param<bool>(\"range_filter/enabled\", true)", "nh.param<bool>(\"range_filter/enabled\", false)"),
("P28", OPT, "\"registration/transform\"", "\"registration/transforms\""),
("P28", RMC, "method == \"NORMALIZED_MIN_EIG\"", "method == \"NORMALISED_MIN_EIG\""),
("P28", PNE, "advertise<PointCloudOut>(\"normal_estimation/pointcloud\"", "advertise<PointCloudOut>(\"normal_estimation/points\""),
]
