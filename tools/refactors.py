#!/usr/bin/env python3
"""refactors.py DIR: apply edits that keep the behaviour (a helper extracted, statements reordered, a loop rewritten) to a copy
of the repository in DIR. Development aid: all checks have to stay quiet on the result (SERPENT_REPO=DIR python3 check.py P01 quick).
R: (file, old, new)."""
import sys
from mutants import *
MP, RG = MAP, REG
R = [
# eigen_ext
(GEO, """    const Scalar a_ = std::acos(x / std::sqrt(x2_plus_y2));
    const Scalar a = y >= 0.0 ? a_ : 2.0 * M_PI - a_;
    const Scalar e = std::acos(z / r);
    return Eigen::Matrix<Scalar, 3, 1>{r, a, e};""",
"""    Scalar azimuth = std::acos(x / std::sqrt(x2_plus_y2));
    if (y < 0.0) {
        azimuth = 2.0 * M_PI - azimuth;
    }
    Eigen::Matrix<Scalar, 3, 1> polar;
    polar << r, azimuth, std::acos(z / r);
    return polar;"""),
(GEO, """    rates << rotation.axis() * rotation.angle() / dt, transform.translation() / dt;
    return rates;""", """    const Scalar inv_dt = static_cast<Scalar>(1.0) / dt;
    rates.template head<3>() = (rotation.angle() * inv_dt) * rotation.axis();
    rates.template tail<3>() = transform.translation() * inv_dt;
    return rates;"""),
(GEO, """    return adj * previous_covariance * adj_transpose + relative_covariance + relative_cross_covariance * adj_transpose +
           adj * relative_cross_covariance.transpose();""", """    Eigen::Matrix<Scalar, (Dim - 1) * 3, (Dim - 1) * 3> composed = relative_covariance;
    composed += adj * previous_covariance * adj_transpose;
    composed += relative_cross_covariance * adj_transpose;
    composed += adj * relative_cross_covariance.transpose();
    return composed;"""),
(GEO, """    adj << R, Eigen::Matrix<Scalar, 3, 3>::Zero(), skew_symmetric(t) * R, R;
    return adj;""", """    adj.template topRightCorner<3, 3>().setZero();
    adj.template bottomLeftCorner<3, 3>() = skew_symmetric(t) * R;
    adj.template topLeftCorner<3, 3>() = R;
    adj.template bottomRightCorner<3, 3>() = R;
    return adj;"""),
(COV, """    if (boundary == 0) {
        throw std::runtime_error("Reorder boundary cannot be 0.");
    }
    const Eigen::Index size = covariance.rows();
    if (size != covariance.cols()) {
        throw std::runtime_error("Covariance matrix must be square.");
    }
""", """    const Eigen::Index size = covariance.rows();
    if (size != covariance.cols()) {
        throw std::runtime_error("Covariance matrix must be square.");
    }
    if (boundary == 0) {
        throw std::runtime_error("Reorder boundary cannot be 0.");
    }
"""),
(MAT, """    for (int r = 0; r < m.rows() - 1; ++r) {
        for (int c = r + 1; c < m.cols(); ++c) {""", """    for (int c = 1; c < m.cols(); ++c) {
        for (int r = 0; r < c && r < m.rows() - 1; ++r) {"""),
# stereo
(SFT, """    return std::pow(vec.x, 2.0) + std::pow(vec.y, 2.0) <= sqr_dist;""", """    const double dx = vec.x;
    const double dy = vec.y;
    return dx * dx + dy * dy <= sqr_dist;"""),
(SFT, """        bool approximately_near_flag{false};
        for (const cv::KeyPoint& reference_kp : reference_keypoints) {
            if (approximately_near(reference_kp, kp, new_feature_sqr_dist_threshold)) {
                approximately_near_flag = true;
                break;
            }
        }
        if (!approximately_near_flag) {
            filtered_keypoints.push_back(kp);
        }""", """        if (std::none_of(reference_keypoints.begin(), reference_keypoints.end(), [&](const cv::KeyPoint& reference_kp) {
                return approximately_near(reference_kp, kp, new_feature_sqr_dist_threshold);
            })) {
            filtered_keypoints.push_back(kp);
        }"""),
(SFT, """#include <sstream>
""", """#include <algorithm>
#include <sstream>
"""),
(SFT, """    for (const std::size_t index : indices) {
        extracted_match_ids.emplace_back(match_ids[index]);
    }""", """    extracted_match_ids.reserve(indices.size());
    std::transform(indices.begin(), indices.end(), std::back_inserter(extracted_match_ids),
            [&match_ids](const std::size_t index) { return match_ids[index]; });"""),
(SFT, """        if (stereo_match_costs[i] < stereo_match_cost_threshold && right_indices[i] >= 0) {
            new""", """        const bool unmatched = right_indices[i] < 0;
        if (!unmatched && stereo_match_costs[i] < stereo_match_cost_threshold) {
            new"""),
(ST + "match_filters.cpp", """        if (query_pt.x > train_pt.x && std::abs(query_pt.y - train_pt.y) <= vertical_pixel_threshold_) {
            filtered_matches.push_back(match);
            indices.push_back(i);
        }""", """        if (std::abs(query_pt.y - train_pt.y) > vertical_pixel_threshold_ || query_pt.x <= train_pt.x) {
            continue;
        }
        indices.push_back(i);
        filtered_matches.push_back(match);"""),
(ST + "match_filters.cpp", """        const float horiz_diff = query_pt.x - train_pt.x;
        if (horiz_diff > 0.f) {
            const float distance = fx_b / horiz_diff;
            if (distance >= min_distance && distance <= max_distance) {
                filtered_matches.push_back(match);
                indices_.push_back(i);
            }
        }""", """        const float horiz_diff = query_pt.x - train_pt.x;
        if (!(horiz_diff > 0.f)) {
            continue;
        }
        const float distance = fx_b / horiz_diff;
        const bool in_range = min_distance <= distance && distance <= max_distance;
        if (in_range) {
            filtered_matches.push_back(match);
            indices_.push_back(i);
        }"""),
(ST + "stereo_cost_functions.cpp", """            sum += std::pow(
                    static_cast<double>(image1.at<unsigned char>(image1_top_left.y + row, image1_top_left.x + col)) -
                            static_cast<double>(
                                    image2.at<unsigned char>(image2_top_left.y + row, image2_top_left.x + col)),
                    2.0);""", """            const int a = image1.at<unsigned char>(image1_top_left.y + row, image1_top_left.x + col);
            const int b = image2.at<unsigned char>(image2_top_left.y + row, image2_top_left.x + col);
            sum += (a - b) * (a - b);"""),
(ST + "stereo_cost_functions.cpp", """    const double ncc = cc / std::sqrt(sum_squares1 * sum_squares2);

    // Return negative of NNC
    return -ncc;""", """    return -cc / std::sqrt(sum_squares1 * sum_squares2);"""),
(ST + "stereo_cost_functions.cpp", """    double sum{0.0};
    for (int row = 0; row < window.height; ++row) {
        for (int col = 0; col < window.width; ++col) {
            sum += std::abs(
                    static_cast<double>(image1.at<unsigned char>(image1_top_left.y + row, image1_top_left.x + col)) -
                    static_cast<double>(image2.at<unsigned char>(image2_top_left.y + row, image2_top_left.x + col)) -
                    mean1 + mean2);
        }
    }
    return sum;""", """    double sum{0.0};
    for (int col = 0; col < window.width; ++col) {
        for (int row = 0; row < window.height; ++row) {
            const double v1 = image1.at<unsigned char>(image1_top_left.y + row, image1_top_left.x + col);
            const double v2 = image2.at<unsigned char>(image2_top_left.y + row, image2_top_left.x + col);
            sum += std::abs((v1 - mean1) - (v2 - mean2));
        }
    }
    return sum;"""),
(ST + "stereo_keypoint_matcher.cpp", """        if (std::abs(search_image_keypoint.pt.y - image_keypoint.pt.y) <= vertical_pixel_threshold) {
            const cv::Point2i search_image_top_left = top_left(search_image_keypoint.pt);
            if (((find_in_right && search_image_keypoint.pt.x <= image_keypoint.pt.x) ||
                        (!find_in_right && search_image_keypoint.pt.x >= image_keypoint.pt.x)) &&
                    window_within_image(search_image, search_image_top_left, window)) {
                const double window_cost = cost_function(
                        reference_image, search_image, reference_image_top_left, search_image_top_left, window);
                if (window_cost < cost) {
                    second_cost = cost;
                    cost = window_cost;
                    min_cost_index = i;
                } else if (window_cost < second_cost) {
                    second_cost = window_cost;
                }
            }
        }""", """        if (std::abs(search_image_keypoint.pt.y - image_keypoint.pt.y) > vertical_pixel_threshold) {
            continue;
        }
        const bool correct_side = find_in_right ? search_image_keypoint.pt.x <= image_keypoint.pt.x
                                                : search_image_keypoint.pt.x >= image_keypoint.pt.x;
        const cv::Point2i search_image_top_left = top_left(search_image_keypoint.pt);
        if (!correct_side || !window_within_image(search_image, search_image_top_left, window)) {
            continue;
        }
        const double window_cost =
                cost_function(reference_image, search_image, reference_image_top_left, search_image_top_left, window);
        if (window_cost < cost) {
            second_cost = std::exchange(cost, window_cost);
            min_cost_index = i;
        } else {
            second_cost = std::min(second_cost, window_cost);
        }"""),
(ST + "stereo_keypoint_matcher.cpp", "    matched = true;\n    if (matching_filter == MatchingFilter::BIDIRECTIONAL) {", "    const int last_x = left_image.cols - window.width;\n    matched = true;\n    if (matching_filter == MatchingFilter::BIDIRECTIONAL) {"),
(ST + "stereo_keypoint_matcher.cpp", "        while ((!find_in_right && reverse_reference_image_top_left.x >= 0) ||\n                (find_in_right && reverse_reference_image_top_left.x <= left_image.cols - window.width)) {", "        while (find_in_right ? reverse_reference_image_top_left.x <= last_x : reverse_reference_image_top_left.x >= 0) {"),
("serpent/include/serpent/front_end/stereo/stereo_equations-inl.hpp", """    return baseline *
           Eigen::Matrix<Scalar, 3, 1>{stereo_coordinate[0] - intrinsic(0, 2),
                   intrinsic(0, 0) * (stereo_coordinate[2] - intrinsic(1, 2)) / intrinsic(1, 1), intrinsic(0, 0)} /
           u_diff;""", """    const Scalar z = intrinsic(0, 0) * baseline / u_diff;
    return Eigen::Matrix<Scalar, 3, 1>{z * (stereo_coordinate[0] - intrinsic(0, 2)) / intrinsic(0, 0),
            z * (stereo_coordinate[2] - intrinsic(1, 2)) / intrinsic(1, 1), z};"""),
# clouds
(PT, """            tf.se3(cloud_in[i].data, cloud_out[i].data);
            tf.so3(cloud_in[i].data_n, cloud_out[i].data_n);
            tf.so3(cloud_in[i].data_u, cloud_out[i].data_u);
        }
    }
    // Dataset might contain NaNs and Infs, so check for them first.""", """            tf.so3(cloud_in[i].data_u, cloud_out[i].data_u);
            tf.so3(cloud_in[i].data_n, cloud_out[i].data_n);
            tf.se3(cloud_in[i].data, cloud_out[i].data);
        }
    }
    // Dataset might contain NaNs and Infs, so check for them first."""),
(RU, """    const double max_sq_dist = std::pow(registration.getMaxCorrespondenceDistance(), 2.0);""", """    const double max_dist = registration.getMaxCorrespondenceDistance();
    const double max_sq_dist = max_dist * max_dist;"""),
(RU, """            target_point.getVector4fMap() = transform.inverse() * (*target_cloud)[i].getVector4fMap();""", """            target_point.getVector4fMap() = inverse_transform * (*target_cloud)[i].getVector4fMap();"""),
(RU, """        const std::size_t target_size = registration.getInputTarget()->size();""", """        const Eigen::Matrix<float, 4, 4> inverse_transform = transform.inverse();
        const std::size_t target_size = target_cloud->size();"""),
(RC, """    const Eigen::VectorXd u = unit_vectors.cast<double>();
    Eigen::MatrixXd Sigma_z = range_bias_variance * (u * u.transpose());
    for (Eigen::Index i = 0; i < u.size(); i += 3) {
        Sigma_z.block<3, 3>(i, i) += range_variance * (u.segment<3>(i) * u.segment<3>(i).transpose());
    }
""", """    const Eigen::VectorXd u = unit_vectors.cast<double>();
    Eigen::MatrixXd Sigma_z = u * u.transpose();
    Eigen::MatrixXd Sigma_r = Eigen::MatrixXd::Zero(u.size(), u.size());
    for (Eigen::Index i = 0; i < u.size(); i += 3) {
        Sigma_r.block<3, 3>(i, i) = Sigma_z.block<3, 3>(i, i);
    }
    Sigma_z = range_bias_variance * Sigma_z + range_variance * Sigma_r;
"""),
(RCC, """    bool required_by_cov_method;
    switch (cov_method) {
        case CovarianceEstimationMethod::CONSTANT:  // fallthrough
            required_by_cov_method = false;
            break;
        case CovarianceEstimationMethod::CENSI:  // fallthrough
        case CovarianceEstimationMethod::LLS:
            required_by_cov_method = true;
            break;
        default:
            throw std::runtime_error("CovarianceEstimationMethod not recognised.");
    }""", """    const bool required_by_cov_method = [&cov_method]() {
        switch (cov_method) {
            case CovarianceEstimationMethod::CONSTANT:
                return false;
            case CovarianceEstimationMethod::CENSI:
            case CovarianceEstimationMethod::LLS:
                return true;
        }
        throw std::runtime_error("CovarianceEstimationMethod not recognised.");
    }();"""),
# front end
(FE, """    sensor_msgs::ImagePtr left_image = boost::make_shared<sensor_msgs::Image>(*data.left_image);
        left_image->header.stamp = timestamp;
        sensor_msgs::ImagePtr right_image = boost::make_shared<sensor_msgs::Image>(*data.right_image);
        right_image->header.stamp = timestamp;
        sensor_msgs::CameraInfoPtr left_info = boost::make_shared<sensor_msgs::CameraInfo>(*data.left_info);
        left_info->header.stamp = timestamp;
        sensor_msgs::CameraInfoPtr right_info = boost::make_shared<sensor_msgs::CameraInfo>(*data.right_info);
        right_info->header.stamp = timestamp;
        left_image_publisher.publish(left_image);
        right_image_publisher.publish(right_image);
        left_info_publisher.publish(left_info);
        right_info_publisher.publish(right_info);
""", """    const auto restamp = [&timestamp](const auto& original) {
            auto copy = boost::make_shared<std::decay_t<decltype(*original)>>(*original);
            copy->header.stamp = timestamp;
            return copy;
        };
        left_info_publisher.publish(restamp(data.left_info));
        right_info_publisher.publish(restamp(data.right_info));
        left_image_publisher.publish(restamp(data.left_image));
        right_image_publisher.publish(restamp(data.right_image));
"""),
(FE, """        left_image_publisher.publish(data.left_image);
        right_image_publisher.publish(data.right_image);
        left_info_publisher.publish(data.left_info);
        right_info_publisher.publish(data.right_info);
        ROS_DEBUG_STREAM("Re-publishing stereo data at its original timestamp");""",
"""        ROS_DEBUG_STREAM_THROTTLE(1.0, "Re-publishing stereo data at its original timestamp");
        right_info_publisher.publish(data.right_info);
        left_info_publisher.publish(data.left_info);
        right_image_publisher.publish(data.right_image);
        left_image_publisher.publish(data.left_image);"""),
(FE, """    std::lock_guard<std::mutex> guard{barometer_data_mutex};
    if (overwrite_barometer_variance) {
        auto pressure_ = boost::make_shared<sensor_msgs::FluidPressure>(*pressure);
        pressure_->variance = barometer_variance;
        barometer_buffer.push_back(pressure_);
    } else {
        barometer_buffer.push_back(pressure);
    }
    barometer_try_publish();""", """    sensor_msgs::FluidPressure::ConstPtr measurement = pressure;
    if (overwrite_barometer_variance) {
        auto overwritten = boost::make_shared<sensor_msgs::FluidPressure>(*pressure);
        overwritten->variance = barometer_variance;
        measurement = overwritten;
    }
    const std::scoped_lock lock{barometer_data_mutex};
    barometer_buffer.push_back(measurement);
    barometer_try_publish();"""),
(FE, """    if (!barometer_timestamp_buffer.empty() && !barometer_buffer.empty()) {
        // Special""", """    if (barometer_timestamp_buffer.empty() || barometer_buffer.empty()) {
        return;
    }
    {
        // Special"""),
(FE, """            auto pressure = boost::make_shared<sensor_msgs::FluidPressure>(*barometer_buffer.front());
            pressure->header.stamp = barometer_timestamp_buffer.front();
            barometer_publisher.publish(pressure);
            barometer_timestamp_buffer.pop_front();""", """            sensor_msgs::FluidPressure pressure = *barometer_buffer.front();
            pressure.header.stamp = barometer_timestamp_buffer.front();
            barometer_timestamp_buffer.pop_front();
            barometer_publisher.publish(pressure);"""),
(FE, """    Eigen::Quaterniond body_orientation;
    if (imu.orientation.isApprox(Eigen::Quaterniond(0, 0, 0, 0))) {
        body_orientation = Eigen::Quaterniond::Identity();
    } else {
        // Compute""", """    if (imu.orientation.isApprox(Eigen::Quaterniond(0, 0, 0, 0))) {
        return Eigen::Quaterniond::Identity();
    }
    Eigen::Quaterniond body_orientation;
    {
        // Compute"""),
(FE, """    std::lock_guard<std::mutex> guard{preintegration_mutex};
    imu_data_mutex.lock();
    double dt = (imu.timestamp - last_preint_imu_timestamp).toSec();  // on 1st iteration invalid but not used
    imu_buffer.push_back(imu);
    imu_data_mutex.unlock();
    last_preint_imu_timestamp = imu.timestamp;

    if (preintegrated_imu) {""", """    std::unique_lock<std::mutex> guard{preintegration_mutex};
    {
        std::lock_guard<std::mutex> data_guard{imu_data_mutex};
        imu_buffer.emplace_back(imu);
    }
    const double dt = (imu.timestamp - std::exchange(last_preint_imu_timestamp, imu.timestamp)).toSec();

    if (preintegrated_imu != nullptr) {"""),
(FE, """        const Eigen::Vector3d angular_velocity =
                body_frames.body_to_frame("imu").rotation() * (imu.angular_velocity - imu_biases.gyroscope());
""", """        const Eigen::Matrix3d rotation = body_frames.body_to_frame("imu").rotation();
        const Eigen::Vector3d unbiased = imu.angular_velocity - imu_biases.gyroscope();
        const Eigen::Vector3d angular_velocity = rotation * unbiased;
"""),
(FE, """    std::size_t i{1};  // Index of imu message after deskew timestamp (which is guaranteed to exist).
    while (imu_buffer.at(i).timestamp < interp_timestamp) ++i;
    return eigen_ros::interpolate(imu_buffer.at(i - 1), imu_buffer.at(i), interp_timestamp);""",
"""    // First imu message at or after the timestamp, but not the very first (guaranteed to exist)
    const auto after = std::find_if(std::next(imu_buffer.cbegin()), imu_buffer.cend(),
            [&interp_timestamp](const eigen_ros::Imu& imu) { return imu.timestamp >= interp_timestamp; });
    return eigen_ros::interpolate(*std::prev(after), *after, interp_timestamp);"""),
(FE, """        // Broadcast T_W^{BL} TF
        auto map_to_base_link_tf = eigen_ros::to_ros<geometry_msgs::TransformStamped>(map_to_base_link);
        map_to_base_link_tf.header.frame_id = optimised_odometry_msg->header.frame_id;
        map_to_base_link_tf.child_frame_id = body_frames.frame_id("base_link");
        tf_broadcaster.sendTransform(map_to_base_link_tf);

        // Publish T_W^{BL} pose with covariance
        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(map_to_base_link);
        map_to_base_link_pose.header.frame_id = optimised_odometry_msg->header.frame_id;
        pose_publisher.publish(map_to_base_link_pose);
    } catch""", """        auto map_to_base_link_tf = eigen_ros::to_ros<geometry_msgs::TransformStamped>(map_to_base_link);
        auto map_to_base_link_pose = eigen_ros::to_ros<geometry_msgs::PoseWithCovarianceStamped>(map_to_base_link);
        map_to_base_link_tf.header.frame_id = optimised_odometry_msg->header.frame_id;
        map_to_base_link_tf.child_frame_id = body_frames.frame_id("base_link");
        map_to_base_link_pose.header.frame_id = map_to_base_link_tf.header.frame_id;

        // Publish T_W^{BL} pose with covariance
        pose_publisher.publish(map_to_base_link_pose);

        // Broadcast T_W^{BL} TF
        tf_broadcaster.sendTransform(map_to_base_link_tf);
    } catch"""),
(FE, """    for (const auto& imu : imu_buffer) {
        if (imu.timestamp > last_preint_imu_timestamp) {
            const double dt = (imu.timestamp - last_preint_imu_timestamp).toSec();
            last_preint_imu_timestamp = imu.timestamp;
            preintegrated_imu->integrateMeasurement(imu.linear_acceleration, imu.angular_velocity, dt);
        }
    }""", """    for (auto imu = imu_buffer.cbegin(); imu != imu_buffer.cend(); ++imu) {
        if (imu->timestamp <= last_preint_imu_timestamp) {
            continue;
        }
        const ros::Duration dt = imu->timestamp - last_preint_imu_timestamp;
        preintegrated_imu->integrateMeasurement(imu->linear_acceleration, imu->angular_velocity, dt.toSec());
        last_preint_imu_timestamp = imu->timestamp;
    }"""),
(FE, """            for (auto it = imu_buffer.cbegin(); it != imu_buffer.cend(); ++it) {
                // Add""", """            for (auto it = imu_buffer.cbegin(); it != imu_buffer.cend() && it->timestamp < new_state_time; ++it) {
                // Add"""),
(FE, """            // Check for stereo data between the point clouds.
            if (stereo_buffer.front().timestamp() < pointcloud_start) {
                // Update the deskew time.
                new_state_time = stereo_buffer.front().timestamp();
                // Publish stereo data if it hasn't been already.
                if (only_graph_frames) {
                    publish_stereo_data(stereo_buffer.front());
                }
                // Remove stereo data from queue.
                stereo_buffer.pop_front();
            }""", """            // Check for stereo data between the point clouds.
            const StereoData next_frame = stereo_buffer.front();
            if (next_frame.timestamp() < pointcloud_start) {
                stereo_buffer.pop_front();
                if (only_graph_frames) {
                    publish_stereo_data(next_frame);
                }
                new_state_time = next_frame.timestamp();
            }"""),
(FE, """        const ros::Duration sweep_duration{
                pct::has_field(*previous_pointcloud, "t") ? pct::max<float>(*previous_pointcloud, "t") : 0};""",
"""        double sweep_seconds = 0.0;
        if (pct::has_field(*previous_pointcloud, "t")) {
            sweep_seconds = pct::max<float>(*previous_pointcloud, "t");
        }
        const ros::Duration sweep_duration{sweep_seconds};"""),
(FE, """        imu_data_mutex.lock();
        gtsam::NavState""", """        std::unique_lock<std::mutex> imu_lock{imu_data_mutex};
        gtsam::NavState"""),
(FE, """        integrate_imu(preintegrated_imu_skew, imu_buffer, previous_pointcloud_start, previous_pointcloud_end);
        imu_data_mutex.unlock();""", """        integrate_imu(preintegrated_imu_skew, imu_buffer, previous_pointcloud_start, previous_pointcloud_end);
        imu_lock.unlock();"""),
(FE, """        if (!initialised) {
            ROS_WARN_ONCE("TODO FIX: The state""", """        if (not initialised) {
            ROS_WARN_ONCE("TODO FIX: The state"""),
(FE, """        skew_transform = eigen_ext::to_transform(
                (deskew_translation ? skew_transform.translation() : Eigen::Vector3d{0.0, 0.0, 0.0}),
                (deskew_rotation ? Eigen::Matrix3d{skew_transform.rotation()} : Eigen::Matrix3d::Identity()));
""", """        if (!deskew_translation) {
            skew_transform.translation().setZero();
        }
        if (!deskew_rotation) {
            skew_transform.linear().setIdentity();
        }
"""),
(FE, """        // Save timestamp for barometer interpolation
        if (barometer_enabled) {
            std::lock_guard<std::mutex> guard{barometer_data_mutex};
            barometer_timestamp_buffer.push_back(new_state_time);
            barometer_try_publish();
        }

        // Update previous_state_time
        previous_state_time = new_state_time;

        // Initialisation complete
        initialised = true;""", """        // Initialisation complete
        initialised = true;
        previous_state_time = new_state_time;

        // Save timestamp for barometer interpolation
        if (barometer_enabled) {
            barometer_data_mutex.lock();
            barometer_timestamp_buffer.emplace_back(new_state_time);
            barometer_try_publish();
            barometer_data_mutex.unlock();
        }"""),
# utilities
(UT, """    while (!imu_buffer.empty() && imu_buffer.front().timestamp < timestamp) {
        imu_buffer.pop_front();
    }""", """    const auto first_kept = std::find_if(imu_buffer.begin(), imu_buffer.end(),
            [&timestamp](const eigen_ros::Imu& imu) { return imu.timestamp >= timestamp; });
    imu_buffer.erase(imu_buffer.begin(), first_kept);"""),
(UT, """    for (auto it = buffer.cbegin(); it != buffer.cend(); ++it) {
        // Ignore imu messages past end
        if (it->timestamp > end) {
            break;
        }
        // If the next timestamp is after start time, we integrate
        auto next_it = std::next(it);
        if (next_it == buffer.cend() || next_it->timestamp > start) {
            // Integrate from the current imu timestamp (integration_time_end) to the next imu timestamp. Account for
            // the cases where the last imu buffer message is before or after end.
            const ros::Time integration_time_end = (next_it == buffer.cend()) ? end : std::min(next_it->timestamp, end);
            if (integration_time_end <= integration_time) {
                // Measurement at the end time or with a repeated timestamp: there is nothing to integrate
                continue;
            }
            const double dt = (integration_time_end - integration_time).toSec();
            integration_time = integration_time_end;
            preint.integrateMeasurement(it->linear_acceleration, it->angular_velocity, dt);
        }
    }""", """    for (std::size_t i = 0; i < buffer.size() && buffer[i].timestamp <= end; ++i) {
        const bool is_last = i + 1 == buffer.size();
        if (!is_last && buffer[i + 1].timestamp <= start) {
            continue;
        }
        ros::Time integration_time_end = end;
        if (!is_last && buffer[i + 1].timestamp < end) {
            integration_time_end = buffer[i + 1].timestamp;
        }
        if (integration_time < integration_time_end) {
            preint.integrateMeasurement(buffer[i].linear_acceleration, buffer[i].angular_velocity,
                    (integration_time_end - integration_time).toSec());
            integration_time = integration_time_end;
        }
    }"""),
(UT, """    const ros::Duration sleep_period{sleep_period_};
    if (!already_locked) {
        mutex.lock();
    }
    while (ros::ok() && condition()) {
        mutex.unlock();
        sleep_period.sleep();
        mutex.lock();
    }
    if (!leave_locked) {
        mutex.unlock();
    }
    return ros::ok();""", """    std::unique_lock<std::mutex> lock(mutex, std::defer_lock);
    if (already_locked) {
        lock = std::unique_lock<std::mutex>(mutex, std::adopt_lock);
    } else {
        lock.lock();
    }
    for (;;) {
        if (!ros::ok() || !condition()) {
            break;
        }
        lock.unlock();
        ros::Duration(sleep_period_).sleep();
        lock.lock();
    }
    if (leave_locked) {
        lock.release();
    } else {
        lock.unlock();
    }
    return ros::ok();"""),
(UT, """    reordered_covariance << covariance.block<3, 3>(3, 3), covariance.block<3, 3>(3, 0), covariance.block<3, 3>(0, 3),
            covariance.block<3, 3>(0, 0);""", """    for (int r = 0; r < 6; ++r) {
        for (int c = 0; c < 6; ++c) {
            reordered_covariance(r, c) = covariance((r + 3) % 6, (c + 3) % 6);
        }
    }"""),
# mapping
(MP, """    for (const auto& pose : path_changes_msg->poses) {
        // Pose""", """    for (std::size_t pose_index = 0; pose_index < path_changes_msg->poses.size(); ++pose_index) {
        const auto& pose = path_changes_msg->poses[pose_index];
        // Pose"""),
(MP, """    const double distance_m = (new_frame_pose.position - previous_frame_pose.position).norm();
    const double rotation_rad = new_frame_pose.orientation.angularDistance(previous_frame_pose.orientation);
    return distance_m > distance_threshold || rotation_rad > rotation_threshold;""",
"""    if (new_frame_pose.orientation.angularDistance(previous_frame_pose.orientation) > rotation_threshold) {
        return true;
    }
    return (new_frame_pose.position - previous_frame_pose.position).norm() > distance_threshold;"""),
(MP, """    const auto it = map.crbegin();
    if (it == map.crend()) {
        throw std::runtime_error("Failed to get last map frame. Is the map empty()?");
    }
    return it->second;""", """    if (map.empty()) {
        throw std::runtime_error("Failed to get last map frame. Is the map empty()?");
    }
    return std::prev(map.end())->second;"""),
(MP, """    for (const auto& map_frame_pair : map) {
        const auto& map_frame = map_frame_pair.second;
        sensor_msgs""", """    pose_graph.clouds.reserve(map.size());
    pose_graph.poses.reserve(map.size());
    for (const auto& [frame_time, map_frame] : map) {
        (void)frame_time;
        sensor_msgs"""),
(MP, """            auto pointcloud_i = boost::make_shared<PointCloud>();
            // p_W = T_W^{L_i} * p_{L_i}
            transform_pointcloud(*map_frame.pointcloud, *pointcloud_i, eigen_ros::to_transform(map_frame.pose.data));
            *pointcloud += *pointcloud_i;""", """            PointCloud pointcloud_i;
            // p_W = T_W^{L_i} * p_{L_i}
            transform_pointcloud(*map_frame.pointcloud, pointcloud_i, eigen_ros::to_transform(map_frame.pose.data));
            *pointcloud += pointcloud_i;"""),
(MP, """    // Error handling
    if (path_changes_msg->poses.empty()) {""", """    // A path always holds the pose of the cloud
    if (path_changes_msg->poses.size() == 0) {"""),
# registration
(RG, """            std::lock_guard<std::mutex> guard{s2s_mutex};
            s2m_pointclouds.emplace_back(current_pointcloud);
            s2s_registrations.emplace_back(s2s_transform);""", """            s2s_mutex.lock();
            s2s_registrations.emplace_back(s2s_transform);
            s2m_pointclouds.push_back(current_pointcloud);
            s2s_mutex.unlock();"""),
(RG, """    PointCloudConstPtr pointcloud = s2m_pointclouds.front();
    s2m_pointclouds.pop_front();
    Eigen::Isometry3d s2s_transform = s2s_registrations.front();  // T_{L_i-1}^{L_i}
    s2s_registrations.pop_front();
    lock.unlock();
""", """    const Eigen::Isometry3d s2s_transform = s2s_registrations.front();  // T_{L_i-1}^{L_i}
    const PointCloudConstPtr pointcloud = s2m_pointclouds.front();
    s2s_registrations.pop_front();
    s2m_pointclouds.pop_front();
    lock.unlock();
"""),
(RG, """        s2s->setInputSource(current_pointcloud);
        s2s->setInputTarget(previous_pointcloud);
        auto""", """        s2s->setInputTarget(previous_pointcloud);
        s2s->setInputSource(current_pointcloud);
        auto"""),
# back end
(OPT, """    const double dt = gm->time_between(named_key, named_key, -1).toSec();

    // Compute and set linear velocity
    const Eigen::Vector3d linear_velocity = Eigen::Vector3d{translation.x(), translation.y(), translation.z()} / dt;
    gm->set_velocity(named_key, linear_velocity);""", """    const ros::Duration between = gm->time_between(named_key, named_key, -1);

    // Compute and set linear velocity
    gm->set_velocity(named_key, translation / between.toSec());"""),
(OPT, """    path_publisher.publish(global_path);
    path_changes_publisher.publish(global_path_changes);
""", """    path_changes_publisher.publish(global_path_changes);
    path_publisher.publish(global_path);
"""),
(OPT, """void Optimisation::optimise_and_publish(const int key) {
    publish(key, optimise(key));
}""", """void Optimisation::optimise_and_publish(const int key) {
    const gtsam::ISAM2Result isam2_result = optimise(key);
    publish(key, isam2_result);
}"""),
(OPT, """    for (int key = std::max(1, next_barometer_key); key <= gm->key("barometer"); ++key) {
        gm->create_barometric_bias_factor(key, barometer_bias_noise);
        ROS_INFO_STREAM("Created barometer bias between factor: P(" << key - 1 << ") to P(" << key << ")");
        gm->set_barometer_bias(key, gm->barometer_bias(key - 1));
    }""", """    const int current_key = gm->key("barometer");
    int key = next_barometer_key > 1 ? next_barometer_key : 1;
    while (key <= current_key) {
        gm->set_barometer_bias(key, gm->barometer_bias(key - 1));
        gm->create_barometric_bias_factor(key, barometer_bias_noise);
        ROS_INFO_STREAM_NAMED("barometer", "Created barometer bias factor: P(" << key - 1 << ") to P(" << key << ")");
        ++key;
    }"""),
(OPT, """    gm->set_imu_bias("imu", gm->imu_bias("imu", -1));
    gm->set_navstate("imu", preintegrated_imu.predict(gm->navstate("imu", -1), gm->imu_bias("imu", -1)));
    gm->set_timestamp("imu", msg->end_timestamp);""", """    const gtsam::imuBias::ConstantBias previous_bias = gm->imu_bias("imu", -1);
    const gtsam::NavState predicted = preintegrated_imu.predict(gm->navstate("imu", -1), previous_bias);
    gm->set_timestamp("imu", msg->end_timestamp);
    gm->set_navstate("imu", predicted);
    gm->set_imu_bias("imu", previous_bias);"""),
(OPT, """    gm->set_imu_bias(0, gtsam::imuBias::ConstantBias());
    ROS_WARN_ONCE""", """    const gtsam::imuBias::ConstantBias zero_bias{};
    gm->set_imu_bias(0, zero_bias);
    ROS_WARN_ONCE"""),
(OPT, """    // Publish optimised biases
    auto imu_bias_msg = boost::make_shared<serpent::ImuBiases>();
    to_ros(*imu_bias_msg, gm->imu_bias(key), gm->timestamp(key));
    imu_biases_publisher.publish(imu_bias_msg);
""", """    // Publish optimised biases
    serpent::ImuBiases imu_bias_msg;
    to_ros(imu_bias_msg, gm->imu_bias(key), gm->timestamp(key));
    imu_biases_publisher.publish(imu_bias_msg);
"""),
(OPT, """    bool features_in_future;
    do {
        features_in_future = false;
""", """    bool features_in_future = true;
    while (features_in_future) {
        features_in_future = false;
"""),
(OPT, """    } while (features_in_future);
""", """    }
"""),
# graph manager
(GM, """    add_factor(new_key,
            boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(new_key - 1), X(new_key), transform, noise));
""", """    const int old_key = new_key - 1;
    const auto factor = boost::make_shared<gtsam::BetweenFactor<gtsam::Pose3>>(X(old_key), X(new_key), transform, noise);
    add_factor(new_key, factor);
"""),
(GM, """        for (const auto& [id, feature] : features) {
            if (has_stereo_landmark(id) && features_im1->second.find(id) == features_im1->second.end()) {
                throw std::runtime_error("Failed to create stereo factors and values. Stereo landmark " +
                                         std::to_string(id) + " was lost and reacquired with the same id.");
            }
        }
""", """        const auto reacquired = std::find_if(features.begin(), features.end(), [&](const auto& id_feature) {
            return features_im1->second.count(id_feature.first) == 0 && has_stereo_landmark(id_feature.first);
        });
        if (reacquired != features.end()) {
            throw std::runtime_error("Failed to create stereo factors and values. Stereo landmark " +
                                     std::to_string(reacquired->first) + " was lost and reacquired with the same id.");
        }
"""),
# registration methods
(RM, """    registration.setEuclideanFitnessEpsilon(nh.param<double>(prefix + "base/euclidean_fitness_epsilon", 0.0));
""", """    const double fitness_epsilon = nh.param<double>(prefix + "base/euclidean_fitness_epsilon", 0.0);
    registration.setEuclideanFitnessEpsilon(fitness_epsilon);
"""),
(RM, """    typename pcl::Registration<PointIn, PointOut>::Ptr registration;
    if (method == "icp") {
        auto icp = boost::make_shared<typename pcl::IterativeClosestPoint<PointIn, PointOut>>();
        set_icp_parameters(nh, prefix, *icp);
        registration = icp;
    } else if""", """    if (method == "icp") {
        auto icp = boost::make_shared<typename pcl::IterativeClosestPoint<PointIn, PointOut>>();
        set_icp_parameters(nh, prefix, *icp);
        return icp;
    }
    typename pcl::Registration<PointIn, PointOut>::Ptr registration;
    if"""),
# point cloud filter / formatter / normals
(PF, """    const bool voxel_grid_enabled = nh.param<bool>("voxel_grid_filter/enabled", true);
    const bool body_filter_enabled = nh.param<bool>("body_filter/enabled", false);
    const bool range_filter_enabled = nh.param<bool>("range_filter/enabled", true);
    const bool sor_enabled = nh.param<bool>("statistical_outlier_removal/enabled", false);
    const bool random_sample_enabled = nh.param<bool>("random_sample_filter/enabled", false);
""", """    const auto is_enabled = [this](const std::string& name, const bool by_default) {
        return nh.param<bool>(name + "/enabled", by_default);
    };
    const bool random_sample_enabled = is_enabled("random_sample_filter", false);
    const bool sor_enabled = is_enabled("statistical_outlier_removal", false);
    const bool range_filter_enabled = is_enabled("range_filter", true);
    const bool body_filter_enabled = is_enabled("body_filter", false);
    const bool voxel_grid_enabled = is_enabled("voxel_grid_filter", true);
"""),
(PF, """        voxel_grid_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
        voxel_grid_pointcloud_subscriber =
                nh.subscribe<pcl::PCLPointCloud2>(input_topic, 100, &PointcloudFilter::voxel_grid_callback, this);
        input_topic = voxel_grid_pointcloud_publisher.getTopic();
""", """        voxel_grid_pointcloud_subscriber =
                nh.subscribe<pcl::PCLPointCloud2>(input_topic, 100, &PointcloudFilter::voxel_grid_callback, this);
        voxel_grid_pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>(output_topic, 1);
        input_topic = voxel_grid_pointcloud_publisher.getTopic();
"""),
(PF, """        const int sample_size = nh.param<int>("random_sample_filter/sample_size", 3000);
        if (sample_size < 0) {
            throw std::runtime_error("RandomSample sample_size must be >= 0.");
        }
        const int seed = nh.param<int>("random_sample_filter/random_seed", 0);
        if (seed < 0) {
            throw std::runtime_error("RandomSample random_seed must be >= 0.");
        }
""", """        const int seed = nh.param<int>("random_sample_filter/random_seed", 0);
        const int sample_size = nh.param<int>("random_sample_filter/sample_size", 3000);
        if (seed < 0) {
            throw std::runtime_error("RandomSample random_seed must be >= 0.");
        }
        if (sample_size < 0) {
            throw std::runtime_error("RandomSample sample_size must be >= 0.");
        }
"""),
(PFM, """    // Publishers
    pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>("formatter/formatted_pointcloud", 1);

    // Subscribers
    pointcloud_subscriber =
            nh.subscribe<sensor_msgs::PointCloud2>("input/pointcloud", 100, &PointcloudFormatter::format, this);

    // Configuration
    sensor_type = to_sensor_type(nh.param<std::string>("pointcloud_type", "OUSTER"));
    time_field_filter_enabled = nh.param<bool>("time_field_filter/enabled", false);
    if (time_field_filter_enabled) {
        max_time_threshold = nh.param<float>("time_field_filter/max", 0.1);
    }
    first_pointcloud_removal_enabled = nh.param<bool>("first_pointcloud_removal/enabled", false);
""", """    // Configuration
    first_pointcloud_removal_enabled = nh.param<bool>("first_pointcloud_removal/enabled", false);
    time_field_filter_enabled = nh.param<bool>("time_field_filter/enabled", false);
    if (time_field_filter_enabled) {
        max_time_threshold = nh.param<float>("time_field_filter/max", 0.1);
    }
    sensor_type = to_sensor_type(nh.param<std::string>("pointcloud_type", "OUSTER"));

    // Publishers and subscribers
    pointcloud_publisher = nh.advertise<pcl::PCLPointCloud2>("formatter/formatted_pointcloud", 1);
    pointcloud_subscriber =
            nh.subscribe<sensor_msgs::PointCloud2>("input/pointcloud", 100, &PointcloudFormatter::format, this);
"""),
(PFM, """            // Cast time field from UINT32 to FLOAT32, scaling by 1.0e-9 to go from nanoseconds to seconds
            pct::cast_field_with_scale<pcl::PCLPointField::PointFieldTypes::FLOAT32>(*pointcloud, "t", 1.0e-9);
            // Cast range field to FLOAT32, scaling by 1.0e-3 to go from millimetres to metres
            pct::cast_field_with_scale<pcl::PCLPointField::PointFieldTypes::FLOAT32>(*pointcloud, "range", 1.0e-3);
""", """            for (const auto& [field, scale] : {std::make_pair("t", 1.0e-9), std::make_pair("range", 1.0e-3)}) {
                pct::cast_field_with_scale<pcl::PCLPointField::PointFieldTypes::FLOAT32>(*pointcloud, field, scale);
            }
"""),
(PNE, """    // Compute normals
    auto pointcloud_out = compute(pointcloud_in, normal_estimation);
""", """    auto pointcloud_out = boost::make_shared<PointCloudOut>();
    normal_estimation.setInputCloud(pointcloud_in);
    normal_estimation.compute(*pointcloud_out);
"""),
# stereo factor finder
(SFF, """    for (std::size_t i = 0; i < stereo_keypoint_matches.matches.size(); ++i) {
        const auto& match = stereo_keypoint_matches.matches[i];
        serpent::StereoFeature stereo_feature;
        stereo_feature.left_x = stereo_keypoint_matches.keypoints[0][match.queryIdx].pt.x;
        stereo_feature.left_y = stereo_keypoint_matches.keypoints[0][match.queryIdx].pt.y;
        stereo_feature.right_x = stereo_keypoint_matches.keypoints[1][match.trainIdx].pt.x;
        stereo_feature.right_y = stereo_keypoint_matches.keypoints[1][match.trainIdx].pt.y;
        stereo_feature.id = stereo_keypoint_matches.match_ids[i];
        stereo_features.push_back(stereo_feature);
    }""", """    stereo_features.reserve(stereo_keypoint_matches.matches.size());
    auto id = stereo_keypoint_matches.match_ids.begin();
    for (const auto& match : stereo_keypoint_matches.matches) {
        const cv::Point2f& left = stereo_keypoint_matches.keypoints[0][match.queryIdx].pt;
        const cv::Point2f& right = stereo_keypoint_matches.keypoints[1][match.trainIdx].pt;
        stereo_features.emplace_back();
        serpent::StereoFeature& stereo_feature = stereo_features.back();
        stereo_feature.id = *id++;
        stereo_feature.left_x = left.x;
        stereo_feature.left_y = left.y;
        stereo_feature.right_x = right.x;
        stereo_feature.right_y = right.y;
    }"""),
(SFF, """    // Publish Stereo Features
    auto stereo_features""", """    previous_right_image = right_image;
    previous_left_image = left_image;
    auto stereo_features"""),
(SFF, """    stereo_features_publisher.publish(stereo_features);

    // Keep images in scope
    previous_left_image = left_image;
    previous_right_image = right_image;
""", """    stereo_features_publisher.publish(stereo_features);
"""),
# nodes
(ND, """    serpent::Frontend frontend;
    serpent::Optimisation optimisation;
    serpent::PointcloudFormatter pointcloud_formatter;
""", """    serpent::PointcloudFormatter pointcloud_formatter;
    serpent::Optimisation optimisation;
    serpent::Frontend frontend;
"""),
(NF, """        const bool filter_enabled = voxel_grid_filter_enabled || nh.param<bool>("body_filter/enabled", false) ||
                                    nh.param<bool>("range_filter/enabled", true) ||
                                    nh.param<bool>("statistical_outlier_removal/enabled", false) ||
                                    nh.param<bool>("random_sample_filter/enabled", false);
        std::string input_topic = frontend.output_pointcloud_topic();
        if (filter_enabled) {""", """        std::string input_topic = frontend.output_pointcloud_topic();
        const bool nothing_enabled = !nh.param<bool>("range_filter/enabled", true) && !voxel_grid_filter_enabled &&
                                     !nh.param<bool>("random_sample_filter/enabled", false) &&
                                     !nh.param<bool>("statistical_outlier_removal/enabled", false) &&
                                     !nh.param<bool>("body_filter/enabled", false);
        if (!nothing_enabled) {"""),
(NB, """            mapping_unit_vectors = std::make_unique<serpent::Mapping<PointNormalUnit>>();
            registration_unit_vectors = std::make_unique<serpent::Registration<PointNormalUnit>>();
""", """            registration_unit_vectors = std::make_unique<serpent::Registration<PointNormalUnit>>();
            mapping_unit_vectors = std::make_unique<serpent::Mapping<PointNormalUnit>>();
"""),
# eigen_ros
(EI, """    // Orientation
    orientation = orientation * to_frame_ext;
    orientation_covariance = from_frame_ext_m * orientation_covariance * from_frame_ext_m_transpose;

    // Angular velocity
    angular_velocity = from_frame_ext * angular_velocity;
    angular_velocity_covariance = from_frame_ext_m * angular_velocity_covariance * from_frame_ext_m_transpose;

    // Linear acceleration
    linear_acceleration = from_frame_ext * linear_acceleration;
    linear_acceleration_covariance = from_frame_ext_m * linear_acceleration_covariance * from_frame_ext_m_transpose;
""", """    for (Eigen::Matrix3d* covariance :
            {&orientation_covariance, &angular_velocity_covariance, &linear_acceleration_covariance}) {
        *covariance = (from_frame_ext_m * *covariance * from_frame_ext_m_transpose).eval();
    }
    orientation *= to_frame_ext;
    angular_velocity = (from_frame_ext_m * angular_velocity).eval();
    linear_acceleration = (from_frame_ext_m * linear_acceleration).eval();
"""),
(EI, """    // Interpolation constant
    const double interp = (interp_timestamp - imu1.timestamp).toSec() / (imu2.timestamp - imu1.timestamp).toSec();
""", """    const ros::Duration interval = imu2.timestamp - imu1.timestamp;
    const double interp = (interp_timestamp - imu1.timestamp).toSec() / interval.toSec();
    const Imu& closest = interp <= 0.5 ? imu1 : imu2;
"""),
(EI, """            interp <= 0.5 ? imu1.orientation_covariance : imu2.orientation_covariance,
            interp <= 0.5 ? imu1.angular_velocity_covariance : imu2.angular_velocity_covariance,
            interp <= 0.5 ? imu1.linear_acceleration_covariance : imu2.linear_acceleration_covariance, interp_timestamp,
            interp <= 0.5 ? imu1.frame : imu2.frame};""", """            closest.orientation_covariance, closest.angular_velocity_covariance,
            closest.linear_acceleration_covariance, interp_timestamp, closest.frame};"""),
(BF, """    return is_dynamic(frame1) || is_dynamic(frame2) ? lookup_transform(frame1, frame2, timestamp)
                                                    : frame_to_body(frame1) * body_to_frame(frame2);
""", """    if (!is_dynamic(frame1) && !is_dynamic(frame2)) {
        return frame_to_body(frame1) * body_to_frame(frame2);
    }
    return lookup_transform(frame1, frame2, timestamp);
"""),
(BF, """    std::vector<std::string> frames_;
    for (const auto& key_value : frame_ids_map) {
        frames_.push_back(key_value.first);
    }
    return frames_;
""", """    std::vector<std::string> names;
    names.reserve(frame_ids_map.size());
    std::transform(frame_ids_map.begin(), frame_ids_map.end(), std::back_inserter(names),
            [](const auto& entry) { return entry.first; });
    return names;
"""),
(BF, """            // Aliases
            std::vector<std::string> aliases_vec;
            if (it->second""", """            std::vector<std::string> aliases_vec;
            const bool has_aliases = it->second.hasMember("aliases");
            if (has_aliases && it->second"""),
# navigation / imu tools
(NO, """    transform.transform.translation.z = odometry->pose.pose.position.z;
    transform.transform.translation.z = odometry->pose.pose.position.z;
""", """    transform.transform.translation.z = odometry->pose.pose.position.z;
"""),
(IT, """    rotation = Eigen::Quaterniond(eigen_ros::matrix3d_from_param(nh, "rotation"));
    nh.param<bool>("overwrite_frame", overwrite_frame, false);
    nh.param<std::string>("new_frame", new_frame, "");
""", """    new_frame = nh.param<std::string>("new_frame", "");
    overwrite_frame = nh.param<bool>("overwrite_frame", false);
    rotation = Eigen::Quaterniond(eigen_ros::matrix3d_from_param(nh, "rotation"));
"""),
(IT, """    imu.orientation = rotation * imu.orientation;
    imu.orientation_covariance = rotation * imu.orientation_covariance * rotation.inverse();
""", """    const Eigen::Matrix3d R = rotation.toRotationMatrix();
    imu.orientation_covariance = (R * imu.orientation_covariance * R.inverse()).eval();
    imu.orientation = rotation * imu.orientation;
"""),
(NC, """    // Convert to ROS
    auto odometry_msg = eigen_ros::to_ros<nav_msgs::Odometry>(odometry);
    odometry_publisher.publish(odometry_msg);

    // Add to path and publish
    path.header.stamp = transform.timestamp;
    eigen_ros::PoseStamped pose_stamped{odometry.pose, odometry.timestamp};
    path.poses.emplace_back(eigen_ros::to_ros<geometry_msgs::PoseStamped>(pose_stamped));
    path_publisher.publish(path);
""", """    // Add to path and publish
    path.poses.push_back(eigen_ros::to_ros<geometry_msgs::PoseStamped>(odometry.pose_stamped()));
    path.header.stamp = transform.timestamp;
    path_publisher.publish(path);

    // Convert to ROS
    odometry_publisher.publish(eigen_ros::to_ros<nav_msgs::Odometry>(odometry));
"""),
(NI, """        velocity_covariance << imu.angular_velocity_covariance, Eigen::Matrix3d::Zero(), Eigen::Matrix3d::Zero(),
                linear_velocity_covariance;

        // Publish odometry
        auto odometry = boost::make_shared<nav_msgs::Odometry>();
        odometry->header.stamp = imu.timestamp;
""", """        velocity_covariance.setZero();
        velocity_covariance.topLeftCorner<3, 3>() = imu.angular_velocity_covariance;
        velocity_covariance.bottomRightCorner<3, 3>() = linear_velocity_covariance;

        // Publish odometry
        auto odometry = boost::make_shared<nav_msgs::Odometry>();
        odometry->header.stamp = imu.timestamp;
"""),
(CO, """            // new cx changed
            out.K[2] = in.height - in.K[5];
            // new cy = old cx
            out.K[5] = in.K[2];
""", """            out.K[5] = in.K[2];
            out.K[2] = in.height - in.K[5];
"""),
(CO, """    degrees_clockwise = degrees_clockwise % 360;
    if (degrees_clockwise < 0 || degrees_clockwise % 90 != 0) {
        throw std::runtime_error("Rotate degrees_clockwise must be a positive multiple of 90, or 0");
    }
    identity = degrees_clockwise == 0;
    if (degrees_clockwise == 90) {
        option = cv::RotateFlags::ROTATE_90_CLOCKWISE;
    } else if (degrees_clockwise == 180) {
        option = cv::RotateFlags::ROTATE_180;
    } else if (degrees_clockwise == 270) {
        option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
    }
""", """    switch (degrees_clockwise % 360) {
        case 0:
            identity = true;
            return;
        case 90:
            option = cv::RotateFlags::ROTATE_90_CLOCKWISE;
            break;
        case 180:
            option = cv::RotateFlags::ROTATE_180;
            break;
        case 270:
            option = cv::RotateFlags::ROTATE_90_COUNTERCLOCKWISE;
            break;
        default:
            throw std::runtime_error("Rotate degrees_clockwise must be a positive multiple of 90, or 0");
    }
    identity = false;
"""),
(P2, """    for (std::size_t i = 0, j = 0; i < dest.data.size(); i += dest.point_step, j += src.point_step) {
        std::memcpy(&dest.data[i], &src.data[j], src.point_step);
    }
    return dest;
}

pcl::PCLPointCloud2 add_unit_vectors""", """    const std::size_t points = size_points(dest);
    for (std::size_t i = 0; i < points; ++i) {
        std::copy_n(src.data.begin() + i * src.point_step, src.point_step, dest.data.begin() + i * dest.point_step);
    }
    return dest;
}

pcl::PCLPointCloud2 add_unit_vectors"""),
(P2, """        const Eigen::Vector3f normal{get_normal_x_field_data(pointcloud, i), get_normal_y_field_data(pointcloud, i),
                get_normal_z_field_data(pointcloud, i)};
        if (!(std::abs(normal.norm() - 1.f) <= threshold)) {  // negated so that NaN normals are counted
            ++unnormalised_count;
        }
""", """        const Eigen::Vector3f normal{get_normal_x_field_data(pointcloud, i), get_normal_y_field_data(pointcloud, i),
                get_normal_z_field_data(pointcloud, i)};
        const float error = std::abs(normal.norm() - 1.f);
        unnormalised_count += error <= threshold ? 0 : 1;
"""),
]

INCLUDES = {UT: ["algorithm", "utility"], FE: ["algorithm", "utility"], BF: ["algorithm", "iterator"], P2: ["algorithm"]}

def main():
    root = sys.argv[1]
    import os
    bad = 0
    for file, old, new in R:
        path = os.path.join(root, file)
        text = open(path).read()
        n = text.count(old)
        if n != 1:
            bad += 1
            print("%s: %d matches of %r" % (file, n, old[:70]))
            continue
        open(path, "w").write(text.replace(old, new))
    for file, names in INCLUDES.items():
        path = os.path.join(root, file)
        text = open(path).read()
        open(path, "w").write("".join("#include <%s>\n" % n for n in names) + text)
    print("%d edits, %d not applied" % (len(R), bad))
    sys.exit(1 if bad else 0)

if __name__ == "__main__":
    main()
