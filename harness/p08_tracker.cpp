// P08: stereo feature tracks over sequences of frames. Detector, optical flow and stereo matcher are scripted through their
// OpenCV / project interfaces, so that every combination of their outcomes is explored.
#include "mc.hpp"
#include <map>
#include <memory>
#include <set>
#include "serpent/front_end/stereo/stereo_feature_tracker.hpp"

namespace {
using serpent::StereoFeatureTracker;
typedef cv::Point2f P;
bool same(const P& a, const P& b) { return std::fabs(a.x - b.x) < 1e-3 && std::fabs(a.y - b.y) < 1e-3; }

const float proximity = 5.0f;
const double cost_limit = 10.0;
const float vertical = 1.0f;
const float fx = 100, baseline = 0.5f, min_distance = 1.0f, max_distance = 12.5f;   // disparity within [4, 50]
bool distance_ok(const P& l, const P& r) { const float d = l.x - r.x; return d > 0 && fx * baseline / d >= min_distance && fx * baseline / d <= max_distance; }
bool stereo_ok(const P& l, const P& r) { return l.x > r.x && std::fabs(l.y - r.y) <= vertical; }
float dist(const P& a, const P& b) { return std::hypot(a.x - b.x, a.y - b.y); }

// One physical track: where it was reported last.
struct Track {
    int id;
    P l, r;
    cv::KeyPoint kl, kr;
};
struct Flow { P l, r; bool left, right; };
struct Detection { P p; P partner; double cost; bool left; };

// The scripted world of one frame.
struct World {
    int frame = -1;
    std::vector<cv::KeyPoint> detected[2];
    std::vector<std::pair<P, P>> partner;   // left position -> matched right position
    std::vector<double> cost;
    std::vector<Track> tracks;       // reported in the previous frame
    std::vector<Flow> flow;          // outcome for each of them
    int detect_calls = 0, flow_calls = 0;
    cv::Size size;
    cv::Rect roi;
    bool masked = false;
};
World* W = nullptr;
unsigned char tone(int frame, int side) { return static_cast<unsigned char>(10 + 40 * frame + side); }

struct Detector : cv::Feature2D {
    void detect(cv::InputArray image, std::vector<cv::KeyPoint>& out, cv::InputArray mask) override {
        const cv::Mat m = image.getMat();
        int side = -1;
        for (int s = 0; s < 2; ++s) if (m.at<unsigned char>(0, 0) == tone(W->frame, s)) side = s;
        MC_CHECK(side >= 0, "detect_image", "features detected in an image that is not the current one");
        out.clear();
        const cv::Mat k = mask.empty() ? cv::Mat() : mask.getMat();
        MC_CHECK(k.empty() == !W->masked, "roi_mask", W->masked ? "no mask" : "mask without region of interest");
        if (!k.empty()) {
            MC_CHECK(k.size() == m.size() && k.type() == CV_8U, "roi_mask_size", k.size());
            for (int y = 0; y < k.rows; ++y) for (int x = 0; x < k.cols; ++x) MC_CHECK((k.at<unsigned char>(y, x) != 0) == W->roi.contains(cv::Point(x, y)), "roi_mask_content", x << "," << y);
        }
        for (auto& kp : W->detected[side]) if (k.empty() || k.at<unsigned char>(static_cast<int>(kp.pt.y), static_cast<int>(kp.pt.x))) out.push_back(kp);
        ++W->detect_calls;
    }
};
struct SparseFlow : cv::SparseOpticalFlow {
    void calc(cv::InputArray prev, cv::InputArray next, cv::InputArray pts, cv::InputOutputArray out, cv::OutputArray status, cv::OutputArray err) override {
        const cv::Mat p = prev.getMat(), n = next.getMat(), q = pts.getMat();
        int side = -1;
        for (int s = 0; s < 2; ++s) if (n.at<unsigned char>(0, 0) == tone(W->frame, s)) side = s;
        MC_CHECK(side >= 0 && p.at<unsigned char>(0, 0) == tone(W->frame - 1, side), "flow_images", "flow computed between the wrong images");
        const int count = static_cast<int>(q.total());
        out.create(count, 1, CV_32FC2);
        status.create(count, 1, CV_8U);
        if (err.needed()) err.create(count, 1, CV_32F);
        cv::Mat o = out.getMat(), st = status.getMat();
        for (int i = 0; i < count; ++i) {
            const P at = q.at<P>(i);
            bool found = false;
            for (std::size_t t = 0; t < W->tracks.size(); ++t) {
                if (!same(side ? W->tracks[t].r : W->tracks[t].l, at)) continue;
                found = true;
                o.at<P>(i) = side ? W->flow[t].r : W->flow[t].l;
                st.at<unsigned char>(i) = side ? W->flow[t].right : W->flow[t].left;
            }
            MC_CHECK(found, "flow_point", "flow asked for a point that was not reported: " << at);
        }
        ++W->flow_calls;
    }
};
struct Matcher : serpent::StereoKeyPointMatcher {
    Matcher() : StereoKeyPointMatcher(cv::Size(3, 3)) {}
    int keypoint_index_in_other_image(const cv::KeyPoint& kp, const std::vector<cv::KeyPoint>& others, const cv::Mat& l, const cv::Mat& r, const bool find_in_right, double& cost) const override {
        MC_CHECK(find_in_right && l.at<unsigned char>(0, 0) == tone(W->frame, 0) && r.at<unsigned char>(0, 0) == tone(W->frame, 1), "match_images", "");
        cost = 0;
        for (std::size_t k = 0; k < W->partner.size(); ++k) {
            if (!same(W->partner[k].first, kp.pt)) continue;
            for (std::size_t i = 0; i < others.size(); ++i) {
                if (same(others[i].pt, W->partner[k].second)) {
                    cost = W->cost[k];
                    return static_cast<int>(i);
                }
            }
        }
        return -1;
    }
    serpent::MatchingCostFunction generate_cost_function(const cv::Mat&, const cv::Point2i&) const override { mc::fail("cost_function", "not scripted"); }
};

struct Config {
    bool distance_filter = false, roi = false, stats = true, images = false, fresh_stats = true, late_filter = false;
    int width = 160;
};
struct Tracker {
    Config c;
    World w;
    std::unique_ptr<StereoFeatureTracker> t;
    std::set<int> used;
    int max_id = -1;
    StereoFeatureTracker::Statistics stats;
    bool filter_now = false;

    explicit Tracker(const Config& c) : c(c) {
        W = &w;
        std::memset(static_cast<void*>(&stats.frame_number), 0x5a, sizeof stats.frame_number);
        stats.tracked_kp_count = stats.extracted_kp_count = stats.filtered_extracted_kp_count = {{77777, 77777}};
        w.masked = c.roi;
        w.roi = cv::Rect(30, 10, 90, 60);
        filter_now = c.distance_filter && !c.late_filter;
        t = std::make_unique<StereoFeatureTracker>(cv::makePtr<Detector>(), cv::makePtr<SparseFlow>(), serpent::StereoMatchFilter::create(vertical), cv::makePtr<Matcher>(), proximity, cost_limit,
                filter_now ? serpent::StereoDistanceFilter::create(fx, baseline, max_distance, min_distance) : nullptr, c.roi ? w.roi : cv::Rect2i());
        MC_CHECK(t->frame_number() == -1, "frame_number", "");
    }
    ~Tracker() { W = nullptr; }

    // Processes one frame with the scripted detections and flows and checks everything reported.
    void frame(const std::vector<Detection>& ds, const std::vector<Flow>& flow) {
        ++w.frame;
        w.flow = flow;
        w.detect_calls = w.flow_calls = 0;
        w.partner.clear();
        w.cost.clear();
        for (int s = 0; s < 2; ++s) w.detected[s].clear();
        for (auto& d : ds) {
            const float tag = d.p.x;
            if (d.left) w.detected[0].emplace_back(d.p, 7 + tag, 0.5f * tag, 0.25f, 2, 3);
            w.detected[1].emplace_back(d.partner, 9 + tag, 0.25f * tag, 0.5f, 1, 4);
            w.partner.emplace_back(d.p, d.partner);
            w.cost.push_back(d.cost);
        }
        // Specification
        auto in_roi = [&](const P& p) { return !c.roi || w.roi.contains(cv::Point(static_cast<int>(p.x), static_cast<int>(p.y))); };
        std::vector<Track> tracked, hypotheses;
        for (std::size_t i = 0; i < w.tracks.size(); ++i) {
            if (!flow[i].left || !flow[i].right) continue;
            Track k = w.tracks[i];
            k.l = k.kl.pt = flow[i].l;
            k.r = k.kr.pt = flow[i].r;
            hypotheses.push_back(k);
            if (stereo_ok(k.l, k.r) && (!filter_now || distance_ok(k.l, k.r))) tracked.push_back(k);
        }
        std::vector<cv::KeyPoint> extracted[2], kept[2];
        for (int s = 0; s < 2; ++s) {
            for (auto& kp : w.detected[s]) {
                if (!in_roi(kp.pt)) continue;
                extracted[s].push_back(kp);
                bool near = false;
                for (auto& h : hypotheses) near = near || dist(s ? h.r : h.l, kp.pt) <= proximity;
                if (!near) kept[s].push_back(kp);
            }
        }
        std::vector<Track> fresh;
        for (auto& l : kept[0]) {
            for (std::size_t k = 0; k < w.partner.size(); ++k) {
                if (!same(w.partner[k].first, l.pt)) continue;
                for (auto& r : kept[1]) {
                    if (!same(r.pt, w.partner[k].second) || !(w.cost[k] < cost_limit) || (filter_now && !distance_ok(l.pt, r.pt))) continue;
                    fresh.push_back(Track{-1, l.pt, r.pt, l, r});
                }
            }
        }
        // Execution
        cv::Mat left(80, c.width, CV_8U, cv::Scalar(tone(w.frame, 0))), right(80, c.width, CV_8U, cv::Scalar(tone(w.frame, 1)));
        StereoFeatureTracker::IntermediateImages images;
        if (c.fresh_stats) stats.match_ids.clear();
        mc::transition();
        StereoFeatureTracker::LRKeyPointMatches out;
        {
            std::optional<std::reference_wrapper<StereoFeatureTracker::Statistics>> so;
            std::optional<std::reference_wrapper<StereoFeatureTracker::IntermediateImages>> io;
            if (c.stats) so = stats;
            if (c.images) io = images;
            out = t->process(left, right, so, io);
        }
        MC_CHECK(t->frame_number() == w.frame, "frame_number", t->frame_number());
        MC_CHECK(w.detect_calls == 2, "detect_calls", w.detect_calls);
        // Consistent lists
        MC_CHECK(out.matches.size() == out.match_ids.size() && out.keypoints[0].size() == out.matches.size() && out.keypoints[1].size() == out.matches.size(), "list_sizes",
                out.matches.size() << " " << out.match_ids.size() << " " << out.keypoints[0].size() << " " << out.keypoints[1].size());
        std::set<int> ql, qr, ids;
        std::vector<Track> reported;
        for (std::size_t i = 0; i < out.size(); ++i) {
            const auto& m = out.matches[i];
            MC_CHECK(m.queryIdx >= 0 && m.queryIdx < static_cast<int>(out.size()) && m.trainIdx >= 0 && m.trainIdx < static_cast<int>(out.size()), "match_index", "");
            MC_CHECK(ql.insert(m.queryIdx).second && qr.insert(m.trainIdx).second, "match_index_repeated", "");
            MC_CHECK(ids.insert(out.match_ids[i]).second, "id_repeated", "id " << out.match_ids[i] << " reported twice in a frame");
            const auto &kl = out.keypoints[0][m.queryIdx], &kr = out.keypoints[1][m.trainIdx];
            reported.push_back(Track{out.match_ids[i], kl.pt, kr.pt, kl, kr});
        }
        MC_CHECK(reported.size() == tracked.size() + fresh.size(), "track_count", reported.size() << " reported instead of " << tracked.size() << " tracked and " << fresh.size() << " new");
        auto keypoint_same = [](const cv::KeyPoint& a, const cv::KeyPoint& b) { return same(a.pt, b.pt) && a.size == b.size && a.angle == b.angle && a.response == b.response && a.octave == b.octave && a.class_id == b.class_id; };
        for (auto& k : tracked) {
            bool found = false;
            for (auto& r : reported) {
                if (r.id != k.id) continue;
                found = true;
                MC_CHECK(same(r.l, k.l) && same(r.r, k.r), "track_moved", "id " << k.id << " reported at " << r.l << " " << r.r << " instead of " << k.l << " " << k.r);
                MC_CHECK(keypoint_same(r.kl, k.kl) && keypoint_same(r.kr, k.kr), "track_keypoint", "keypoint properties lost");
            }
            MC_CHECK(found, "track_lost", "id " << k.id << " lost although it was tracked");
        }
        int before = max_id;
        for (auto& f : fresh) {
            bool found = false;
            for (auto& r : reported) {
                if (!same(r.l, f.l) || !same(r.r, f.r)) continue;
                found = true;
                MC_CHECK(keypoint_same(r.kl, f.kl) && keypoint_same(r.kr, f.kr), "new_keypoint", "keypoint properties lost");
                MC_CHECK(used.insert(r.id).second, "id_reused", "id " << r.id << " given to a new feature");
                max_id = std::max(max_id, r.id);
            }
            MC_CHECK(found, "new_lost", "new feature at " << f.l << " missing");
        }
        for (auto& r : reported) {
            for (auto& k : hypotheses) {
                if (r.id != k.id && std::none_of(tracked.begin(), tracked.end(), [&](const Track& q) { return q.id == r.id; })) MC_CHECK(dist(r.l, k.l) > proximity && dist(r.r, k.r) > proximity, "new_on_tracked", "new feature on a tracked one");
            }
        }
        (void) before;
        if (c.stats) {
            MC_CHECK(stats.frame_number == w.frame, "stats_frame", stats.frame_number);
            MC_CHECK(stats.tracked_match_count == tracked.size() && stats.new_match_count == fresh.size() && stats.total_match_count == reported.size(), "stats_counts", stats.to_string());
            MC_CHECK(stats.max_match_id == max_id, "stats_max_id", stats.max_match_id << " instead of " << max_id);
            int oldest = -1;
            for (auto& k : tracked) if (oldest < 0 || k.id < oldest) oldest = k.id;
            MC_CHECK(stats.longest_tracked_match_id == oldest, "stats_oldest", stats.longest_tracked_match_id << " instead of " << oldest);
            for (int s = 0; s < 2; ++s) {
                MC_CHECK(stats.extracted_kp_count[s] == extracted[s].size(), "stats_extracted", stats.extracted_kp_count[s]);
                MC_CHECK(stats.tracked_kp_count[s] == hypotheses.size(), "stats_tracked_keypoints", stats.tracked_kp_count[s] << " instead of " << hypotheses.size() << " in frame " << w.frame);
                MC_CHECK(stats.filtered_extracted_kp_count[s] == kept[s].size(), "stats_filtered_keypoints", stats.filtered_extracted_kp_count[s] << " instead of " << kept[s].size() << " in frame " << w.frame);
            }
            MC_CHECK(std::set<int>(stats.match_ids.begin(), stats.match_ids.end()) == ids && stats.match_ids.size() == ids.size(), "stats_ids", stats.match_ids.size() << " ids instead of " << ids.size());
        }
        w.tracks = reported;
        mc::Hash h;
        h.add(w.frame);
        for (auto& r : reported) h.add(r.id).add(r.l.x).add(r.l.y).add(r.r.x);
        mc::state(h.h);
        if (c.late_filter && c.distance_filter && !filter_now) {
            t->set_stereo_distance_filter(serpent::StereoDistanceFilter::create(fx, baseline, max_distance, min_distance));
            filter_now = true;
        }
    }

    // Flow outcomes for every current track.
    std::vector<Flow> choose_flow(int outcomes) {
        std::vector<Flow> f;
        for (auto& k : w.tracks) {
            const P step(2, 0.25f);
            Flow o{k.l + step, k.r + step, true, true};
            switch (mc::choose(outcomes, "flow")) {
                case 1: o.left = false; break;
                case 2: o.r.y += 1.5f; break;                    // leaves the epipolar line
                case 3: o.right = false; break;
                case 4: o.r.x = o.l.x + 1; break;                // negative disparity
                case 5: o.r.x = o.l.x - 2; break;                // beyond the maximum distance
                case 6: o.left = o.right = false; break;
                default: break;
            }
            // Tracks are scripted by position: two tracks at one place cannot be told apart
            for (auto& e : f) if (same(e.l, o.l) || same(e.r, o.r)) mc::prune();
            f.push_back(o);
        }
        return f;
    }
};
// Object k at this frame, `offset` from where its track would be.
Detection object(int k, int frame, float offset, float disparity = 15, double cost = 1) {
    const P p(40.f + 40 * k + 2 * frame + offset, 20.f + 20 * k + 0.25f * frame);
    return Detection{p, P(p.x - disparity, p.y), cost, true};
}
void choose_detection(std::vector<Detection>& out, int k, int frame, int kinds) {
    Detection d;
    switch (mc::choose(kinds, "detection")) {
        case 0: return;
        case 1: d = object(k, frame, 1); break;                  // close to where it is tracked
        case 2: d = object(k, frame, 8); break;                  // away from it
        case 3: d = object(k, frame, 5); d.p.x = 40.f + 40 * k + 2 * frame + 5; break;   // at the threshold
        case 4: d = object(k, frame, 0, 15, 10.0); break;        // cost at the limit
        case 5: d = object(k, frame, 0, 2); break;               // too far away
        case 6: d = object(k, frame, 8, 22); break;              // near in the right image only
        case 7: d = object(k, frame, 0); d.left = false; break;  // seen on the right only
        default: d = object(k, frame, -12); break;
    }
    out.push_back(d);
}
}

// One object, every outcome of every stage.
MC_FAMILY(one_object) {
    Config c;
    c.distance_filter = mc::flip("distance filter");
    c.late_filter = c.distance_filter && mc::flip("set after the first frame");
    const int frames = (mc::thorough() ? 4 : 3) - (c.late_filter ? 1 : 0);
    Tracker t(c);
    mc::Hash h;
    for (int f = 0; f < frames; ++f) {
        const auto flow = t.choose_flow(7);
        std::vector<Detection> ds;
        choose_detection(ds, 0, f, 9);
        if (ds.size() == 1 && f < 2 && mc::flip("second detection")) choose_detection(ds, 0, f, 3);
        if (ds.size() == 2 && (same(ds[0].p, ds[1].p) || same(ds[0].partner, ds[1].partner))) mc::prune();
        t.frame(ds, flow);
        for (auto& k : t.w.tracks) h.add(k.id).add(k.l.x).add(k.r.x);
    }
    mc::nontrivial(h.h);
}

// Two to three objects, fewer outcomes, longer.
MC_FAMILY(several_objects) {
    Config c;
    c.distance_filter = mc::flip("distance filter");
    const int objects = 2, frames = mc::thorough() ? 5 : 4;
    Tracker t(c);
    mc::Hash h;
    for (int f = 0; f < frames; ++f) {
        const auto flow = t.choose_flow(f == frames - 1 ? 3 : 2);
        std::vector<Detection> ds;
        for (int k = 0; k < objects; ++k) {
            if (mc::flip("detected")) ds.push_back(object(k, f, 0.5f));
        }
        if (mc::flip("reverse") && ds.size() > 1) std::reverse(ds.begin(), ds.end());
        t.frame(ds, flow);
        for (auto& k : t.w.tracks) h.add(k.id).add(k.l.x).add(k.r.x);
    }
    mc::nontrivial(h.h);
}

// Region of interest, reused and fresh statistics, intermediate images.
MC_FAMILY(options) {
    Config c;
    c.roi = mc::flip("region of interest");
    c.stats = mc::flip("statistics");
    c.fresh_stats = !c.stats || mc::flip("fresh statistics");
    c.images = mc::flip("intermediate images");
    Tracker t(c);
    mc::Hash h;
    h.add(c.roi).add(c.stats).add(c.fresh_stats).add(c.images);
    for (int f = 0; f < 3; ++f) {
        const auto flow = t.choose_flow(3);
        std::vector<Detection> ds;
        for (int k = 0; k < 2; ++k) if (mc::flip("detected")) ds.push_back(object(k, f, k ? 35 : 0));   // object 1 leaves the region
        t.frame(ds, flow);
        for (auto& k : t.w.tracks) h.add(k.id).add(k.l.x);
    }
    mc::nontrivial(h.h);
}

MC_FAMILY(refusals) {
    Config c;
    Tracker t(c);
    const int frames = mc::choose(3, "frames before");
    for (int f = 0; f < frames; ++f) t.frame({object(0, f, 0)}, std::vector<Flow>(t.w.tracks.size(), Flow{P(), P(), false, false}));
    const bool rows = mc::flip("rows");
    cv::Mat l(80, 160, CV_8U, cv::Scalar(1)), r(rows ? 79 : 80, rows ? 160 : 161, CV_8U, cv::Scalar(2));
    MC_CHECK(mc::throws([&] { t.t->process(l, r); }), "image_sizes", "images of different sizes accepted");
    MC_CHECK(t.t->frame_number() == frames - 1, "frame_number_refused", t.t->frame_number());
    t.frame({object(0, frames, 0)}, std::vector<Flow>(t.w.tracks.size(), Flow{P(60, 20), P(50, 20), true, true}));
    mc::nontrivial(mc::Hash().add(frames).add(rows).h);
}
