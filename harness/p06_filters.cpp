// P06: match filters keep exactly the matches that satisfy the documented condition, in order, with their indices;
// and stereo projection/back-projection.
#include "mc.hpp"
#include <serpent/front_end/stereo/match_filters.hpp>
#include <limits>
using namespace serpent;

static bool same(const cv::DMatch& a, const cv::DMatch& b) { return a.queryIdx == b.queryIdx && a.trainIdx == b.trainIdx && a.imgIdx == b.imgIdx && a.distance == b.distance; }
static void judge(const std::vector<cv::DMatch>& in, const std::vector<cv::DMatch>& out, const std::vector<std::size_t>& idx, const std::vector<int>& keep, const std::string& key) {
    // keep: 1 must stay, 0 must go, -1 not judged
    size_t o = 0;
    MC_CHECK(out.size() == idx.size(), key + ":indices", "indices() does not have one entry per kept match");
    mc::Hash h;
    for (size_t i = 0; i < in.size(); ++i) {
        const bool present = o < idx.size() && idx[o] == i;
        if (present) { MC_CHECK(same(in[i], out[o]), key + ":content", "kept match altered"); ++o; h.add((int) i); }
        if (keep[i] >= 0) MC_CHECK(present == (keep[i] == 1), key, "match " << i << (present ? " kept although it violates the condition" : " dropped although it satisfies the condition"));
    }
    MC_CHECK(o == out.size(), key + ":order", "output is not an ordered sub-sequence of the input");
    mc::nontrivial(h.add((int) in.size()).h); mc::state(h.h);
}
static std::vector<cv::KeyPoint> kps(const std::vector<cv::Point2f>& p) { std::vector<cv::KeyPoint> v; for (auto& q : p) v.emplace_back(q, 1.f); return v; }

// Sequences of filter calls on one object: the answer of every call depends only on that call's arguments.
MC_FAMILY(distance_filter) {
    const std::vector<float> d{0.f, 1.f, 2.f, 2.5f, 1e30f, -1.f};
    const std::vector<float> th{0.f, 2.f, 1e9f, std::numeric_limits<float>::max(), -0.5f};
    const int t = mc::choose((int) th.size() + 1, "threshold");
    cv::Ptr<DistanceMatchFilter> f = t == (int) th.size() ? DistanceMatchFilter::create() : DistanceMatchFilter::create(th[(size_t) t]);
    const float T = t == (int) th.size() ? std::numeric_limits<float>::max() : th[(size_t) t];
    for (int call = 0; call < 2; ++call) {
        const int n = mc::choose(call ? 3 : 4, "n");
        std::vector<cv::DMatch> m; std::vector<int> keep;
        for (int i = 0; i < n; ++i) { m.emplace_back(i + 3, 7 - i, i, mc::pick(d, "distance")); keep.push_back(m.back().distance <= T); }
        judge(m, f->filter(m), f->indices(), keep, "distance_filter");
        std::vector<std::size_t> idx{4, 5, 6};
        const auto out = DistanceMatchFilter::filter(m, T, idx);
        judge(m, out, idx, keep, "distance_filter:static");
        mc::transition(2);
    }
}
static const std::vector<cv::Point2f> L{{10, 5}, {10, 5.5f}, {9.75f, 6}, {3, 5}};
static const std::vector<cv::Point2f> Rr{{10, 5}, {9.5f, 5}, {9.75f, 6.5f}, {2, 5.25f}, {30, 5}};
MC_FAMILY(stereo_filter) {
    const std::vector<float> th{1.0f, 0.5f, 0.f, 0.25f, 100.f};
    const int how = mc::choose(3, "construction");
    const float T = how == 0 ? 1.0f : mc::pick(th, "threshold");
    cv::Ptr<StereoMatchFilter> f = how == 0 ? StereoMatchFilter::create() : StereoMatchFilter::create(how == 1 ? T : 42.f);
    if (how == 2) f->set_vertical_pixel_threshold(T);
    MC_CHECK(f->vertical_pixel_threshold() == T, "stereo_filter:threshold", "threshold not stored");
    const auto kq = kps(L), kt = kps(Rr);
    for (int call = 0; call < 2; ++call) {
        const int n = mc::choose(3, "n");
        std::vector<cv::DMatch> m; std::vector<int> keep;
        for (int i = 0; i < n; ++i) {
            m.emplace_back(mc::choose((int) L.size(), "q"), mc::choose((int) Rr.size(), "t"), i, 0.5f * (float) i);
            const auto& a = L[(size_t) m.back().queryIdx]; const auto& b = Rr[(size_t) m.back().trainIdx];
            keep.push_back(a.x > b.x && std::fabs(a.y - b.y) <= T);
        }
        judge(m, f->filter(kq, kt, m), f->indices(), keep, "stereo_filter");
        std::vector<std::size_t> idx{9};
        const auto out = StereoMatchFilter::filter(kq, kt, m, T, idx);
        judge(m, out, idx, keep, "stereo_filter:static");
        mc::transition(2);
    }
}
MC_FAMILY(range) {
    const auto kq = kps(L), kt = kps(Rr);
    const int which = mc::choose(2, "filter"); const bool q = mc::flip("query"); const std::vector<int> bad{-1, 5, 100};
    std::vector<cv::DMatch> m{cv::DMatch(q ? mc::pick(bad, "bad") : 0, q ? 0 : mc::pick(bad, "bad"), 0.f)};
    mc::transition();
    MC_CHECK(mc::throws([&] { if (which) StereoMatchFilter::create()->filter(kq, kt, m); else StereoDistanceFilter::create(1.f, 1.f)->filter(kq, kt, m); }), "out_of_range", "match index outside the keypoints must be rejected");
}
// Depth filter under every history of reconfiguration (construct, set_fx, set_baseline, filter).
MC_FAMILY(stereo_distance_histories) {
    const std::vector<std::pair<float, float>> lim{{std::numeric_limits<float>::max(), 0.f}, {100.f, 0.f}, {100.f, 20.f}, {8.f, 2.f}};
    const auto lm = mc::pick(lim, "limits");
    float fx = mc::flip("fx") ? 50.f : 8.f, b = mc::flip("baseline") ? 0.5f : 4.f;
    cv::Ptr<StereoDistanceFilter> f = mc::flip("defaults") ? (lm.second == 0.f && lm.first > 1e30f ? StereoDistanceFilter::create(fx, b) : StereoDistanceFilter::create(fx, b, lm.first, lm.second)) : cv::Ptr<StereoDistanceFilter>(new StereoDistanceFilter(fx, b, lm.first, lm.second));
    const auto kq = kps(L), kt = kps(Rr);
    const int depth = mc::thorough() ? 4 : 3;
    for (int s = 0; s < depth; ++s) {
        const int op = mc::choose(5, "op");
        if (op == 0) { fx = 100.f; f->set_fx(fx); }
        else if (op == 1) { fx = 3.f; f->set_fx(fx); }
        else if (op == 2) { b = 0.25f; f->set_baseline(b); }
        else if (op == 3) { b = 10.f; f->set_baseline(b); }
        mc::transition();
        std::vector<cv::DMatch> m; std::vector<int> keep;
        for (int i = 0; i < (int) L.size(); ++i) for (int j = 0; j < (int) Rr.size(); ++j) {
            m.emplace_back(i, j, 0, (float) (i + j));
            const double disp = (double) L[(size_t) i].x - Rr[(size_t) j].x;
            if (disp <= 0) { keep.push_back(0); continue; }
            const double z = (double) fx * b / disp;
            keep.push_back(mc::close(z, lm.first, 1e-5) || mc::close(z, lm.second, 1e-5) ? -1 : z <= lm.first && z >= lm.second);
        }
        judge(m, f->filter(kq, kt, m), f->indices(), keep, "stereo_distance_filter");
        mc::transition();
        if (s == 0) {
            judge({}, f->filter(kq, kt, {}), f->indices(), {}, "stereo_distance_filter:empty");
            judge({m[1]}, f->filter(kq, kt, {m[1]}), f->indices(), {keep[1]}, "stereo_distance_filter:single");
            mc::transition(2);
        }
    }
}
// Boundaries of the depth window are inclusive and computed exactly for power-of-two values.
MC_FAMILY(stereo_distance_boundary) {
    const std::vector<float> disp{0.5f, 1.f, 2.f, 4.f, 8.f, 16.f, 0.f, -4.f};
    const float d = mc::pick(disp, "disparity"), mx = 8.f, mn = 2.f;
    auto f = StereoDistanceFilter::create(16.f, 1.f, mx, mn);
    std::vector<cv::DMatch> m{cv::DMatch(0, 0, 0.f)};
    const auto out = f->filter(kps({{20.f, 1.f}}), kps({{20.f - d, 1.f}}), m);
    mc::transition();
    const bool keep = d > 0 && 16.f / d <= mx && 16.f / d >= mn;
    MC_CHECK((out.size() == 1) == keep, "stereo_distance_filter:boundary", "depth " << 16.f / d << " window [" << mn << "," << mx << "]");
}
