// P27: the stereo front end. For every setting the published features are those of a tracker (checked by P04-P08) built from exactly
// these settings and fed with the same images; delivery order, losses and optional outputs do not matter.
#include "mc.hpp"
#include <malloc.h>
#include <map>
#include <memory>
#include <set>
#include <boost/make_shared.hpp>
#include <opencv2/video/tracking.hpp>
#include <ros/ros.h>
#include <sensor_msgs/Image.h>
#include <sensor_msgs/CameraInfo.h>
#include "serpent/front_end/stereo/stereo_factor_finder.hpp"

namespace {
using XmlRpc::XmlRpcValue;
using serpent::StereoFeatureTracker;

// ---- settings ---------------------------------------------------------------------------------------------------------------
// A setting is a number, a word, a truth value or a list of whole numbers; names as in the shipped configuration.
struct Value {
    char kind = 'd';   // i, d, b, s, v
    double d = 0;
    std::string s;
    std::vector<int> v;
    XmlRpcValue rpc() const {
        switch (kind) { case 'i': return XmlRpcValue(static_cast<int>(d)); case 'b': return XmlRpcValue(d != 0); case 's': return XmlRpcValue(s); case 'v': return XmlRpcValue(v); default: return XmlRpcValue(d); }
    }
};
Value I(int x) { Value v; v.kind = 'i'; v.d = x; return v; }
Value D(double x) { Value v; v.d = x; return v; }
Value B(bool x) { Value v; v.kind = 'b'; v.d = x; return v; }
Value S(const char* x) { Value v; v.kind = 's'; v.s = x; return v; }
Value V(std::vector<int> x) { Value v; v.kind = 'v'; v.v = x; return v; }
struct Knob { const char* name; std::vector<Value> values; int detector; };   // values[0] is the base; detector -1: all

const char* detectors[] = {"FAST", "GFTT", "ORB", "SIFT"};
const std::vector<Knob>& knobs() {
    static const std::vector<Knob> k = {
        {"stereo_tracking/detector/fast/threshold", {I(32), I(50)}, 0},
        {"stereo_tracking/detector/fast/nonmax_suppression", {B(true), B(false)}, 0},
        {"stereo_tracking/detector/fast/type", {S("TYPE_9_16"), S("TYPE_7_12"), S("TYPE_5_8")}, 0},
        {"stereo_tracking/detector/gftt/max_corners", {I(150), I(12)}, 1},
        {"stereo_tracking/detector/gftt/quality_level", {D(0.05), D(0.4)}, 1},
        {"stereo_tracking/detector/gftt/min_distance", {D(2.0), D(12.5)}, 1},
        {"stereo_tracking/detector/gftt/block_size", {I(3), I(7)}, 1},
        {"stereo_tracking/detector/gftt/use_harris_detector", {B(false), B(true)}, 1},
        {"stereo_tracking/detector/gftt/k", {D(0.04), D(0.15)}, 1},
        {"stereo_tracking/detector/orb/num_features", {I(80), I(25)}, 2},
        {"stereo_tracking/detector/orb/scale_factor", {D(1.2), D(1.7)}, 2},
        {"stereo_tracking/detector/orb/num_levels", {I(4), I(2)}, 2},
        {"stereo_tracking/detector/orb/edge_threshold", {I(15), I(25)}, 2},
        {"stereo_tracking/detector/orb/first_level", {I(0), I(1)}, 2},
        {"stereo_tracking/detector/orb/wta_k", {I(2), I(3)}, 2},
        {"stereo_tracking/detector/orb/score_type", {S("HARRIS_SCORE"), S("FAST_SCORE")}, 2},
        {"stereo_tracking/detector/orb/patch_size", {I(15), I(29)}, 2},
        {"stereo_tracking/detector/orb/fast_threshold", {I(20), I(45)}, 2},
        {"stereo_tracking/detector/sift/num_features", {I(60), I(15)}, 3},
        {"stereo_tracking/detector/sift/num_octave_layers", {I(3), I(2)}, 3},
        {"stereo_tracking/detector/sift/contrast_threshold", {D(0.02), D(0.12)}, 3},
        {"stereo_tracking/detector/sift/edge_threshold", {D(10.0), D(2.5)}, 3},
        {"stereo_tracking/detector/sift/sigma", {D(1.6), D(1.2)}, 3},
        {"stereo_tracking/stereo_match_filter/vertical_pixel_threshold", {D(2.0), D(0.25)}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/win_size", {V({11, 15}), V({21, 7})}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/max_level", {I(3), I(0)}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", {S("COUNT+EPS"), S("COUNT"), S("EPS"), S("MAX_ITER"), S("MAX_ITER+EPS")}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/max_count", {I(4), I(1)}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/epsilon", {D(0.01), D(1.5)}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/flags", {I(0), I(cv::OPTFLOW_LK_GET_MIN_EIGENVALS)}, -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/min_eig_threshold", {D(1e-4), D(3e-2)}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/cost_function", {S("SAD"), S("SSD"), S("ZMSAD"), S("LSSAD"), S("NNCC")}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/window_size/width", {I(5), I(9)}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/window_size/height", {I(7), I(3)}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/cost_threshold", {D(2e3), D(300.0), D(1e9)}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/vertical_pixel_threshold", {D(1.5), D(0.25)}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/matching_filter", {S("RATIO_TEST"), S("UNIDIRECTIONAL"), S("BIDIRECTIONAL")}, -1},
        {"stereo_tracking/stereo_keypoint_matcher/ratio", {D(0.8), D(0.35)}, -1},
        {"stereo_tracking/new_feature_dist_threshold", {D(5.0), D(14.5)}, -1},
        {"stereo_tracking/stereo_distance_filter/enabled", {B(false), B(true)}, -1},
        {"stereo_tracking/stereo_distance_filter/max_distance", {D(6.0), D(3.5)}, -1},
        {"stereo_tracking/stereo_distance_filter/min_distance", {D(2.0), D(2.8)}, -1},
        {"stereo_mask/enabled", {B(false), B(true)}, -1},
        {"stereo_mask/width", {I(90), I(60)}, -1},
        {"stereo_mask/height", {I(70), I(100)}, -1},
        {"stereo_mask/top_left_x", {I(40), I(10)}, -1},
        {"stereo_mask/top_left_y", {I(12), I(19)}, -1},
    };
    return k;
}
struct Settings : std::map<std::string, Value> {
    double num(const std::string& n) const { return at(n).d; }
    const std::string& word(const std::string& n) const { return at(n).s; }
};
Settings base(int detector) {
    Settings s;
    s["stereo_tracking/detector/type"] = S(detectors[detector]);
    s["stereo_tracking/sparse_optical_flow/type"] = S("PyrLK");
    for (auto& k : knobs()) s[k.name] = k.values[0];
    return s;
}

// ---- the tracker these settings describe ---------------------------------------------------------------------------------------
const double focal = 100, baseline_m = 0.3, cx = 79.5, cy = 58.25;
std::unique_ptr<StereoFeatureTracker> tracker_for(const Settings& s) {
    const std::string d = "stereo_tracking/detector/", f = "stereo_tracking/sparse_optical_flow/pyrlk/", m = "stereo_tracking/stereo_keypoint_matcher/";
    cv::Ptr<cv::Feature2D> detector;
    const std::string type = s.word(d + "type");
    if (type == "FAST") {
        const std::string t = s.word(d + "fast/type");
        detector = cv::FastFeatureDetector::create(s.num(d + "fast/threshold"), s.num(d + "fast/nonmax_suppression"), t == "TYPE_5_8" ? cv::FastFeatureDetector::TYPE_5_8 : t == "TYPE_7_12" ? cv::FastFeatureDetector::TYPE_7_12 : cv::FastFeatureDetector::TYPE_9_16);
    } else if (type == "GFTT") {
        auto g = cv::GFTTDetector::create();
        g->setMaxFeatures(s.num(d + "gftt/max_corners")); g->setQualityLevel(s.num(d + "gftt/quality_level")); g->setMinDistance(s.num(d + "gftt/min_distance"));
        g->setBlockSize(s.num(d + "gftt/block_size")); g->setHarrisDetector(s.num(d + "gftt/use_harris_detector")); g->setK(s.num(d + "gftt/k"));
        detector = g;
    } else if (type == "ORB") {
        auto o = cv::ORB::create();
        o->setMaxFeatures(s.num(d + "orb/num_features")); o->setScaleFactor(static_cast<float>(s.num(d + "orb/scale_factor"))); o->setNLevels(s.num(d + "orb/num_levels"));
        o->setEdgeThreshold(s.num(d + "orb/edge_threshold")); o->setFirstLevel(s.num(d + "orb/first_level")); o->setWTA_K(s.num(d + "orb/wta_k"));
        o->setScoreType(s.word(d + "orb/score_type") == "FAST_SCORE" ? cv::ORB::FAST_SCORE : cv::ORB::HARRIS_SCORE);
        o->setPatchSize(s.num(d + "orb/patch_size")); o->setFastThreshold(s.num(d + "orb/fast_threshold"));
        detector = o;
    } else {
        detector = cv::SIFT::create(s.num(d + "sift/num_features"), s.num(d + "sift/num_octave_layers"), s.num(d + "sift/contrast_threshold"), s.num(d + "sift/edge_threshold"), s.num(d + "sift/sigma"));
    }
    auto flow = cv::SparsePyrLKOpticalFlow::create();
    const auto& win = s.at(f + "win_size").v;
    flow->setWinSize(cv::Size(win[0], win[1]));
    flow->setMaxLevel(s.num(f + "max_level"));
    const std::string t = s.word(f + "term_criteria/type");
    const int criteria = (t == "COUNT" || t == "MAX_ITER") ? cv::TermCriteria::COUNT : t == "EPS" ? cv::TermCriteria::EPS : cv::TermCriteria::COUNT | cv::TermCriteria::EPS;
    cv::TermCriteria stop(criteria, s.num(f + "term_criteria/max_count"), s.num(f + "term_criteria/epsilon"));
    flow->setTermCriteria(stop);
    flow->setFlags(s.num(f + "flags"));
    flow->setMinEigThreshold(s.num(f + "min_eig_threshold"));
    const cv::Size window(s.num(m + "window_size/width"), s.num(m + "window_size/height"));
    const std::string mf = s.word(m + "matching_filter"), cost = s.word(m + "cost_function");
    typedef serpent::StereoKeyPointMatcher::MatchingFilter MF;
    const MF filter = mf == "UNIDIRECTIONAL" ? MF::UNIDIRECTIONAL : mf == "BIDIRECTIONAL" ? MF::BIDIRECTIONAL : MF::RATIO_TEST;
    const float vertical = s.num(m + "vertical_pixel_threshold");
    const double ratio = s.num(m + "ratio");
    cv::Ptr<serpent::StereoKeyPointMatcher> matcher;
    if (cost == "SAD") matcher = serpent::SADStereoKeyPointMatcher::create(window, vertical, filter, ratio);
    else if (cost == "SSD") matcher = serpent::SSDStereoKeyPointMatcher::create(window, vertical, filter, ratio);
    else if (cost == "ZMSAD") matcher = serpent::ZeroMeanSADStereoKeyPointMatcher::create(window, vertical, filter, ratio);
    else if (cost == "LSSAD") matcher = serpent::LocallyScaledSADStereoKeyPointMatcher::create(window, vertical, filter, ratio);
    else matcher = serpent::NCCStereoKeyPointMatcher::create(window, vertical, filter, ratio);
    cv::Ptr<serpent::StereoDistanceFilter> distances;
    if (s.num("stereo_tracking/stereo_distance_filter/enabled")) distances = serpent::StereoDistanceFilter::create(focal, baseline_m, s.num("stereo_tracking/stereo_distance_filter/max_distance"), s.num("stereo_tracking/stereo_distance_filter/min_distance"));
    cv::Rect2i roi;
    if (s.num("stereo_mask/enabled")) roi = cv::Rect2i(s.num("stereo_mask/top_left_x"), s.num("stereo_mask/top_left_y"), s.num("stereo_mask/width"), s.num("stereo_mask/height"));
    return std::make_unique<StereoFeatureTracker>(detector, flow, serpent::StereoMatchFilter::create(s.num("stereo_tracking/stereo_match_filter/vertical_pixel_threshold")), matcher,
            s.num("stereo_tracking/new_feature_dist_threshold"), s.num(m + "cost_threshold"), distances, roi);
}

// ---- images -------------------------------------------------------------------------------------------------------------------
// Textured patches at several depths; the right camera sees them shifted by their disparity, and a moving camera shifts both.
struct Patch { double x, y, disparity, vertical, vx, vy; int size, contrast, seed; };
const int W = 160, HGT = 120;
unsigned rnd(unsigned& s) { s = s * 1664525u + 1013904223u; return s >> 16; }
std::vector<Patch> patches() {
    std::vector<Patch> v;
    unsigned s = 99;
    for (int i = 0; i < 14; ++i) {
        Patch p;
        p.x = 26 + (i % 5) * 27 + rnd(s) % 8; p.y = 18 + (i / 5) * 36 + rnd(s) % 10;
        p.disparity = 4 + (i * 5) % 14; p.vertical = (i % 4) * 0.4;
        p.vx = (i % 3 - 1) * (i % 5 == 0 ? 7.5 : 2.5); p.vy = (i % 2) * 1.25;
        p.size = 5 + i % 6; p.contrast = 30 + (i * 37) % 90; p.seed = i;
        v.push_back(p);
    }
    return v;
}
cv::Mat picture(int frame, int side) {
    cv::Mat m(HGT, W, CV_32F);
    for (int y = 0; y < HGT; ++y) for (int x = 0; x < W; ++x) m.at<float>(y, x) = 100 + 8 * std::sin(0.11 * x + 0.7 * side) + 6 * std::cos(0.07 * y + 0.3 * frame);
    static const std::vector<Patch> ps = patches();
    for (auto& p : ps) {
        const double ox = p.x + p.vx * frame - (side ? p.disparity : 0), oy = p.y + p.vy * frame + (side ? p.vertical : 0);
        for (int y = 0; y < HGT; ++y) for (int x = 0; x < W; ++x) {
            const double u = x - ox, v = y - oy;
            if (std::fabs(u) > p.size || std::fabs(v) > p.size) continue;
            const double edge = std::min(1.0, std::min(p.size - std::fabs(u), p.size - std::fabs(v)));
            m.at<float>(y, x) += edge * p.contrast * (std::sin(u * (0.7 + 0.1 * (p.seed % 5)) + p.seed) * std::cos(v * (0.9 - 0.07 * (p.seed % 4)) - p.seed) > 0 ? 1.0 : -0.3);
        }
    }
    unsigned s = 1234 + frame * 17 + side;
    cv::Mat out(HGT, W, CV_8U);
    for (int y = 0; y < HGT; ++y) for (int x = 0; x < W; ++x) out.at<unsigned char>(y, x) = cv::saturate_cast<unsigned char>(m.at<float>(y, x) + static_cast<int>(rnd(s) % 5) - 2);
    return out;
}
const int max_frames = 5;
const cv::Mat& image_of(int frame, int side) {
    static std::vector<cv::Mat> cache = [] { std::vector<cv::Mat> v; for (int f = 0; f < max_frames; ++f) for (int s = 0; s < 2; ++s) v.push_back(picture(f, s)); return v; }();
    return cache[frame * 2 + side];
}

ros::Time stamp(int k) { ros::Time t; t.fromNSec(70000000123ULL + k * 50000017ULL); return t; }
sensor_msgs::ImagePtr image_msg(int frame, int side, int pad) {
    const cv::Mat& m = image_of(frame, side);
    sensor_msgs::ImagePtr p(new sensor_msgs::Image);
    p->header.stamp = stamp(frame); p->header.frame_id = side ? "right_eye" : "left_eye"; p->header.seq = 40 + frame * 2 + side;
    p->height = m.rows; p->width = m.cols; p->encoding = "mono8"; p->is_bigendian = 0; p->step = m.cols + pad;
    p->data.assign(p->step * p->height, 200);
    for (int y = 0; y < m.rows; ++y) std::memcpy(&p->data[y * p->step], m.ptr(y), m.cols);
    return p;
}
sensor_msgs::CameraInfo info_msg(int frame, int side, double focal_l = focal, double focal_r = focal, double tx = -focal * baseline_m) {
    sensor_msgs::CameraInfo c;
    c.header.stamp = stamp(frame); c.header.frame_id = side ? "right_eye_info" : "left_eye_info"; c.header.seq = 7 + frame;
    c.height = HGT; c.width = W; c.distortion_model = side ? "none" : "plumb_bob"; c.D = {0.1 * side, 0.25};
    const double f = side ? focal_r : focal_l;
    c.K[0] = f; c.K[2] = cx; c.K[4] = 1.25 * f; c.K[5] = cy; c.K[8] = 1;
    c.R[0] = c.R[4] = c.R[8] = 1;
    c.P[0] = f; c.P[2] = cx; c.P[3] = side ? tx : 0; c.P[5] = 1.25 * f; c.P[6] = cy; c.P[10] = 1;
    c.binning_x = 1; c.binning_y = 1 + side; c.roi.width = 3 + frame;
    return c;
}
bool same_info(const sensor_msgs::CameraInfo& a, const sensor_msgs::CameraInfo& b) {
    return a.header.stamp == b.header.stamp && a.header.frame_id == b.header.frame_id && a.height == b.height && a.width == b.width && a.distortion_model == b.distortion_model && a.D == b.D &&
        a.K == b.K && a.R == b.R && a.P == b.P && a.binning_x == b.binning_x && a.binning_y == b.binning_y && a.roi.width == b.roi.width;
}

// ---- one run ------------------------------------------------------------------------------------------------------------------
const char* topics[] = {"/serpent/stereo/left/image", "/serpent/stereo/right/image", "/serpent/stereo/left/camera_info", "/serpent/stereo/right/camera_info"};
const char* pictures[] = {"left/extracted_keypoints", "right/extracted_keypoints", "left/sof_matches", "right/sof_matches", "stereo_filtered_matches", "new_matches", "tracked_matches"};
struct Outputs { bool stats = false, points = false, images = false, print = false, rich_keypoints = true, rich_matches = true; };
struct Run {
    Settings s;
    Outputs o;
    std::unique_ptr<serpent::StereoFactorFinder> node;
    std::unique_ptr<StereoFeatureTracker> ref;
    std::size_t done = 0, reported = 0;
    std::uint64_t hash = 0;

    Run(const Settings& s, const Outputs& o = Outputs()) : s(s), o(o) {
        static const bool once = [] { cv::setNumThreads(0); mallopt(M_PERTURB, 0x5a); return true; }();
        (void)once;
        rosstub::Bus::reset();
        for (auto& k : s) rosstub::Bus::get().param("/serpent/" + k.first, k.second.rpc());
        auto flag = [](const char* n, bool v) { rosstub::Bus::get().param(std::string("/serpent/debug/stereo/") + n, XmlRpcValue(v)); };
        flag("publish_stats", o.stats); flag("publish_points", o.points); flag("publish_intermediate_results", o.images);
        flag("print_stats", o.print); flag("rich_keypoints", o.rich_keypoints); flag("rich_matches", o.rich_matches);
        node = std::make_unique<serpent::StereoFactorFinder>();
        ref = tracker_for(s);
    }
    ~Run() { node.reset(); rosstub::Bus::reset(); }

    void send(int frame, int part, int pad = 0) {
        auto& bus = rosstub::Bus::get();
        cv::theRNG().state = 4711 + frame;
        // The message is given away: only the node keeps it from being freed.
        if (part < 2) bus.inject<sensor_msgs::Image>(topics[part], boost::const_pointer_cast<const sensor_msgs::Image>(image_msg(frame, part, pad)));
        else bus.inject<sensor_msgs::CameraInfo>(topics[part], info_msg(frame, part - 2));
        bus.spin_all();
        forget();
        mc::transition();
    }
    // Drops the inputs from the bus' record.
    void forget() {
        auto& log = rosstub::Bus::get().log;
        for (std::size_t i = 0; i < log.size();) {
            bool input = false;
            for (auto t : topics) input = input || log[i].topic == t;
            if (input) log.erase(log.begin() + i); else ++i;
        }
    }
    // The features of `frame` must have been published now, and nothing else.
    void expect(int frame) {
        auto& bus = rosstub::Bus::get();
        StereoFeatureTracker::Statistics stats;
        StereoFeatureTracker::IntermediateImages images;
        images.keypoint_draw_flags = o.rich_keypoints ? cv::DrawMatchesFlags::DRAW_RICH_KEYPOINTS : cv::DrawMatchesFlags::DEFAULT;
        images.match_draw_flags = o.rich_matches ? cv::DrawMatchesFlags::DRAW_RICH_KEYPOINTS : cv::DrawMatchesFlags::DEFAULT;
        cv::theRNG().state = 4711 + frame;
        const auto want = ref->process(image_of(frame, 0), image_of(frame, 1), std::ref(stats), o.images ? std::optional<std::reference_wrapper<StereoFeatureTracker::IntermediateImages>>(images) : std::nullopt);
        const auto all = bus.published<serpent::StereoFeatures>("/serpent/stereo/features");
        MC_CHECK(all.size() == done + 1, "published", all.size() << " feature messages after " << done + 1 << " complete frames");
        const auto& got = *all.back();
        MC_CHECK(got.header.stamp == stamp(frame) && got.header.frame_id == "left_eye", "header", "features at " << got.header.stamp << " in " << got.header.frame_id);
        MC_CHECK(same_info(got.left_info, info_msg(frame, 0)) && same_info(got.right_info, info_msg(frame, 1)), "infos", "camera information changed");
        MC_CHECK(got.features.size() == want.size(), "count", got.features.size() << " features in frame " << frame << " instead of " << want.size());
        mc::Hash h;
        for (std::size_t i = 0; i < want.size(); ++i) {
            const auto& l = want.keypoints[0][want.matches[i].queryIdx].pt;
            const auto& r = want.keypoints[1][want.matches[i].trainIdx].pt;
            const auto& f = got.features[i];
            MC_CHECK(f.left_x == l.x && f.left_y == l.y && f.right_x == r.x && f.right_y == r.y && f.id == want.match_ids[i], "feature", "feature " << i << " of frame " << frame << " is (" << f.left_x << ", " << f.left_y << " | " << f.right_x << ", " << f.right_y << ") #" << f.id << " instead of (" << l.x << ", " << l.y << " | " << r.x << ", " << r.y << ") #" << want.match_ids[i]);
            h.add(f.left_x).add(f.left_y).add(f.right_x).add(static_cast<int>(f.id));
        }
        reported += want.size();
        hash = h.add(hash).h;
        ++done;
        const auto st = bus.published<serpent::StereoTrackerStatistics>("/serpent/stereo/statistics");
        MC_CHECK(st.size() == (o.stats ? done : 0), "statistics", st.size() << " statistics after " << done << " frames");
        if (o.stats) {
            const auto& m = *st.back();
            bool ok = m.header.stamp == stamp(frame) && m.frame_number == stats.frame_number && m.max_match_id == stats.max_match_id && m.longest_tracked_match_id == stats.longest_tracked_match_id &&
                m.tracked_match_count == static_cast<int>(stats.tracked_match_count) && m.new_match_count == static_cast<int>(stats.new_match_count) && m.total_match_count == static_cast<int>(stats.total_match_count) &&
                m.match_ids.size() == stats.match_ids.size();
            for (int k = 0; k < 2; ++k) ok = ok && m.tracked_kp_count[k] == static_cast<int>(stats.tracked_kp_count[k]) && m.extracted_kp_count[k] == static_cast<int>(stats.extracted_kp_count[k]) && m.filtered_extracted_kp_count[k] == static_cast<int>(stats.filtered_extracted_kp_count[k]);
            for (std::size_t k = 0; ok && k < stats.match_ids.size(); ++k) ok = m.match_ids[k] == stats.match_ids[k];
            MC_CHECK(ok, "statistics_value", "statistics of frame " << frame << " differ");
        }
        const auto pts = bus.published<pcl::PointCloud<pcl::PointXYZ>>("/serpent/stereo/track_points");
        MC_CHECK(pts.size() == (o.points ? done : 0), "points", pts.size() << " point clouds after " << done << " frames");
        if (o.points) {
            const auto& c = *pts.back();
            std::vector<serpent::StereoFeature> finite;      // those without disparity are infinitely far
            for (auto& f : got.features) if (f.left_x != f.right_x) finite.push_back(f);
            MC_CHECK(c.size() == finite.size() && c.header.frame_id == "left_eye" && c.header.stamp == stamp(frame).toNSec() / 1000, "points_size", c.size() << " points instead of " << finite.size() << " in " << c.header.frame_id << " at " << c.header.stamp);
            for (std::size_t i = 0; i < c.size(); ++i) {
                const auto& f = finite[i];
                const double z = focal * baseline_m / (f.left_x - f.right_x), x = (f.left_x - cx) * z / focal, y = ((f.left_y + f.right_y) / 2 - cy) * z / (1.25 * focal);
                MC_CHECK(mc::close(c[i].x, x, 1e-4) && mc::close(c[i].y, y, 1e-4) && mc::close(c[i].z, z, 1e-4), "point", "point " << i << " is " << c[i].x << ", " << c[i].y << ", " << c[i].z << " instead of " << x << ", " << y << ", " << z);
            }
        }
        for (int k = 0; k < 7; ++k) {
            const auto im = bus.published<sensor_msgs::Image>(std::string("/serpent/stereo/") + pictures[k] + "/image");
            MC_CHECK(im.size() == (o.images ? done : 0), "images", im.size() << " pictures " << pictures[k]);
            if (!o.images) continue;
            const cv::Mat& w = k < 2 ? images.extracted_keypoints[k] : k < 4 ? images.sof_matches[k - 2] : k == 4 ? images.stereo_filtered_matches : k == 5 ? images.new_matches : images.tracked_matches;
            const auto& m = *im.back();
            MC_CHECK(m.header.stamp == stamp(frame) && static_cast<int>(m.height) == w.rows && static_cast<int>(m.width) == w.cols, "image_size", pictures[k] << " " << m.width << "x" << m.height);
            for (int y = 0; y < w.rows; ++y) MC_CHECK(std::memcmp(&m.data[y * m.step], w.ptr(y), w.cols * w.elemSize()) == 0, "image", pictures[k] << " differs in row " << y);
        }
    }
    void frame(int k, int pad = 0) {
        for (int part = 0; part < 4; ++part) {
            const auto before = rosstub::Bus::get().count("/serpent/stereo/features");
            MC_CHECK(before == done, "early", "features published before their frame is complete");
            send(k, part, pad);
        }
        expect(k);
    }
};

// Every single setting and every pair of settings, for every detector.
MC_FAMILY(settings) {
    const int d = mc::choose(4, "detector");
    Settings s = base(d);
    std::vector<const Knob*> k;
    for (auto& x : knobs()) if (x.detector < 0 || x.detector == d) k.push_back(&x);
    const int changes = mc::thorough() ? 3 : 2;
    std::size_t from = 0;
    bool mask = false, filter = false;
    std::string changed;
    for (int c = 0; c < changes && from < k.size(); ++c) {
        const int i = mc::choose(1 + static_cast<int>(k.size() - from), "setting");
        if (i == 0) break;
        const Knob& x = *k[from + i - 1];
        from += i;
        s[x.name] = x.values[1 + mc::choose(static_cast<int>(x.values.size()) - 1, "value")];
        changed += std::string(x.name) + " ";
        mask = mask || std::string(x.name).find("stereo_mask/") == 0;
        filter = filter || std::string(x.name).find("stereo_distance_filter") != std::string::npos;
    }
    // A changed mask or distance is one that is used.
    if (mask) s["stereo_mask/enabled"] = B(true);
    if (filter) s["stereo_tracking/stereo_distance_filter/enabled"] = B(true);
    mc::note(changed);
    Run r(s);
    for (int f = 0; f < (mc::thorough() ? 4 : 3); ++f) r.frame(f);
    if (r.reported) mc::nontrivial(r.hash);
    mc::state(r.hash);
}

// Optional outputs describe the same features and do not change them.
MC_FAMILY(outputs) {
    Settings s = base(mc::choose(4, "detector"));
    Outputs o;
    o.stats = mc::flip("stats"); o.points = mc::flip("points"); o.images = mc::flip("images"); o.print = mc::flip("print");
    if (o.images) { o.rich_keypoints = mc::flip("rich keypoints"); o.rich_matches = mc::flip("rich matches"); }
    s["stereo_mask/enabled"] = B(mc::flip("mask"));
    s["stereo_tracking/stereo_distance_filter/enabled"] = B(mc::flip("distance"));
    const int pad = mc::flip("padding") ? 24 : 0;
    Run r(s, o);
    for (int f = 0; f < (mc::thorough() ? max_frames : 3); ++f) r.frame(f, pad);
    mc::nontrivial(mc::Hash().add(r.hash).add(o.stats + 2 * o.points + 4 * o.images + 8 * o.rich_keypoints + 16 * o.rich_matches).h);
}

// The four messages of each frame arrive in any order across topics (each topic keeps its order) and one of them may be lost.
MC_FAMILY(delivery) {
    Settings s = base(0);
    s["stereo_tracking/detector/fast/threshold"] = I(45);
    s["stereo_mask/enabled"] = B(true);
    const int frames = 2, lost = mc::choose(1 + 4 * frames, "lost") - 1;
    Outputs o;
    o.stats = true;
    Run r(s, o);
    int next[4] = {0, 0, 0, 0}, have[frames] = {0, 0};
    int last = -1;
    for (;;) {
        std::vector<int> open;
        for (int p = 0; p < 4; ++p) {
            if (next[p] < frames && lost == next[p] * 4 + p) ++next[p];
            if (next[p] < frames) open.push_back(p);
        }
        if (open.empty()) break;
        const int p = mc::pick(open, "topic"), f = next[p]++;
        r.send(f, p);
        if (++have[f] == 4 && f > last) { r.expect(f); last = f; }
        MC_CHECK(rosstub::Bus::get().count("/serpent/stereo/features") == r.done, "published_extra", "features of an incomplete frame published");
    }
    MC_CHECK(static_cast<int>(r.done) == frames - (lost >= 0), "frames", r.done << " frames");
    for (int f = frames; f < frames + 2; ++f) r.frame(f);
    mc::nontrivial(r.hash);
}

// What cannot be honoured is refused.
MC_FAMILY(refused) {
    struct Bad { const char* name; Value v; int detector; };
    static const std::vector<Bad> bad = {
        {"stereo_tracking/detector/type", S("BRISK"), -1}, {"stereo_tracking/detector/type", S("fast"), -1}, {"stereo_tracking/detector/type", S(""), -1},
        {"stereo_tracking/detector/fast/type", S("TYPE_9"), 0}, {"stereo_tracking/detector/fast/type", S(""), 0},
        {"stereo_tracking/detector/orb/score_type", S("BEST"), 2}, {"stereo_tracking/detector/orb/score_type", S(""), 2},
        {"stereo_tracking/sparse_optical_flow/type", S("RLOF"), -1}, {"stereo_tracking/sparse_optical_flow/type", S("DENSE"), -1}, {"stereo_tracking/sparse_optical_flow/type", S(""), -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", S("NEVER"), -1}, {"stereo_tracking/sparse_optical_flow/pyrlk/term_criteria/type", S(""), -1},
        {"stereo_tracking/sparse_optical_flow/pyrlk/win_size", V({21}), -1}, {"stereo_tracking/sparse_optical_flow/pyrlk/win_size", V({}), -1},
        {"stereo_tracking/stereo_keypoint_matcher/matching_filter", S("BEST"), -1}, {"stereo_tracking/stereo_keypoint_matcher/matching_filter", S(""), -1},
        {"stereo_tracking/stereo_keypoint_matcher/cost_function", S("NCC"), -1}, {"stereo_tracking/stereo_keypoint_matcher/cost_function", S(""), -1},
        {"stereo_tracking/stereo_keypoint_matcher/window_size/width", I(4), -1}, {"stereo_tracking/stereo_keypoint_matcher/window_size/height", I(0), -1},
        {"stereo_tracking/stereo_keypoint_matcher/window_size/height", I(-3), -1},
    };
    const int d = mc::choose(4, "detector");
    const Bad& b = mc::pick(bad, "setting");
    if (b.detector >= 0 && b.detector != d) mc::prune();
    Settings s = base(d);
    s[b.name] = b.v;
    rosstub::Bus::reset();
    for (auto& k : s) rosstub::Bus::get().param("/serpent/" + k.first, k.second.rpc());
    MC_CHECK(mc::throws([] { serpent::StereoFactorFinder f; }), "accepted", b.name << " = '" << b.v.s << "' accepted");
    rosstub::Bus::reset();
    mc::transition();
    mc::nontrivial(mc::Hash().add(std::string(b.name)).add(b.v.s).add(d).h);
}
MC_FAMILY(refused_input) {
    // calibrations without a usable baseline, where distances are needed; images of different sizes
    const int use = mc::choose(2, "use"), at = mc::choose(use == 0 ? 1 : 2, "frame"), what = mc::choose(use == 0 ? 3 : 2, "what");
    const int d = mc::choose(2, "detector");
    Settings s = base(d);
    Outputs o;
    if (use == 0) s["stereo_tracking/stereo_distance_filter/enabled"] = B(true);
    else o.points = true;
    Run r(s, o);
    for (int f = 0; f < at; ++f) r.frame(f);
    const double tx[] = {0, focal * baseline_m, -focal * baseline_m}, fr = what == 2 ? focal * 1.01 : focal;
    auto& bus = rosstub::Bus::get();
    const bool refused = mc::throws([&] {
        bus.inject<sensor_msgs::Image>(topics[0], boost::const_pointer_cast<const sensor_msgs::Image>(image_msg(at, 0, 0)));
        bus.inject<sensor_msgs::Image>(topics[1], boost::const_pointer_cast<const sensor_msgs::Image>(image_msg(at, 1, 0)));
        bus.inject<sensor_msgs::CameraInfo>(topics[2], info_msg(at, 0));
        bus.inject<sensor_msgs::CameraInfo>(topics[3], info_msg(at, 1, focal, fr, tx[what]));
        bus.spin_all();
    });
    MC_CHECK(refused, "accepted_calibration", "case " << use << "/" << what << " at frame " << at << " accepted");
    mc::transition();
    mc::nontrivial(mc::Hash().add(use * 100 + at * 10 + what).add(d).h);
}
}
