// P05: stereo keypoint matcher: every match returned is the documented one.
#include "mc.hpp"
#include "stereo_ref.hpp"
#include <serpent/front_end/stereo/stereo_keypoint_matcher.hpp>
using namespace sref;
using namespace serpent;
typedef StereoKeyPointMatcher::MatchingFilter MF;

static cv::Ptr<StereoKeyPointMatcher> make(int k, cv::Size w, float v, MF f, double ratio) {
    switch (k) {
        case SAD: return SADStereoKeyPointMatcher::create(w, v, f, ratio);
        case SSD: return SSDStereoKeyPointMatcher::create(w, v, f, ratio);
        case ZMSAD: return ZeroMeanSADStereoKeyPointMatcher::create(w, v, f, ratio);
        case LSSAD: return LocallyScaledSADStereoKeyPointMatcher::create(w, v, f, ratio);
        default: return NCCStereoKeyPointMatcher::create(w, v, f, ratio);
    }
}
static bool eq(double a, double b) { return mc::close(a, b, 1e-9); }
static bool lt(double a, double b) { return a < b && !eq(a, b); }

struct Case { Img L, R; int kind; int w, h; MF f; double ratio; bool right; };
static const Img& refimg(const Case& c, bool right) { return right ? c.L : c.R; }
static const Img& srch(const Case& c, bool right) { return right ? c.R : c.L; }
static bool inside(const Img& i, int x, int y, int w, int h) { return x >= 0 && y >= 0 && x + w <= i.w && y + h <= i.h; }

// ---- scan along the epipolar line -----------------------------------------------------------------------------------
static void scan(const Case& c, const cv::KeyPoint& kp, bool roi) {
    const cv::Mat l = mat(c.L, roi, 77), r = mat(c.R, roi, 3);
    auto m = make(c.kind, cv::Size(c.w, c.h), 1.0f, c.f, c.ratio);
    const Img &A = refimg(c, c.right), &B = srch(c, c.right);
    const int x0 = (int) std::floor(kp.pt.x) - (c.w - 1) / 2, y0 = (int) std::floor(kp.pt.y) - (c.h - 1) / 2;
    double cost_ = -12345; bool matched = mc::flip("stale_matched");
    const bool stale = matched;
    const cv::KeyPoint got = m->keypoint_in_other_image(kp, l, r, c.right, cost_, matched);
    std::vector<double> costs(1, -7); std::vector<bool> ms{stale};
    const std::vector<cv::KeyPoint> gv = m->keypoints_in_other_image({kp, kp}, l, r, c.right, costs, ms);
    mc::transition(2);
    MC_CHECK(gv.size() == 2 && costs.size() == 2 && ms.size() == 2, "scan:vector_sizes", "result vectors have wrong sizes");
    if (!inside(A, x0, y0, c.w, c.h)) {
        MC_CHECK(!matched, "scan:outside", "keypoint whose window is outside the image reported as matched");
        MC_CHECK(!ms[0] && !ms[1], "scan:outside_vector", "keypoint whose window is outside the image reported as matched (vector)");
        return;
    }
    MC_CHECK(ms[0] == matched && ms[1] == matched && eq(costs[0], cost_) && eq(costs[1], cost_) && gv[0].pt == got.pt && gv[1].pt == got.pt, "scan:vector", "vector call disagrees with single calls");
    // all candidates: same row, at or left of x0 (searching right image) / at or right (searching left image)
    std::vector<double> cs; std::vector<int> xs;
    for (int x = x0; c.right ? x >= 0 : x <= B.w - c.w; x += c.right ? -1 : 1) { xs.push_back(x); cs.push_back(cost(c.kind, A, B, x0, y0, x, y0, c.w, c.h)); }
    double best = INFINITY, second = INFINITY; int nbest = 0, bx = 0;
    for (double v : cs) best = std::min(best, v);
    for (size_t i = 0; i < cs.size(); ++i) if (eq(cs[i], best)) { ++nbest; bx = xs[i]; }
    { bool skipped = false; for (double v : cs) { if (eq(v, best) && !skipped) { skipped = true; continue; } second = std::min(second, v); } }
    MC_CHECK(eq(cost_, best), "scan:min_cost", "returned cost " << cost_ << " is not the minimum " << best);
    const int gx = (int) std::floor(got.pt.x) - (c.w - 1) / 2, gy = (int) std::floor(got.pt.y) - (c.h - 1) / 2;
    MC_CHECK(gy == y0, "scan:row", "match is not on the epipolar line");
    MC_CHECK(std::find(xs.begin(), xs.end(), gx) != xs.end(), "scan:side", "match on the wrong side of the keypoint, or outside the image");
    MC_CHECK(eq(cost(c.kind, A, B, x0, y0, gx, y0, c.w, c.h), best), "scan:argmin", "returned keypoint does not have the minimum cost");
    MC_CHECK(got.size == kp.size && got.angle == kp.angle && got.response == kp.response && got.octave == kp.octave && got.class_id == kp.class_id, "scan:attributes", "keypoint attributes lost");
    MC_CHECK(got.pt.x > gx + c.w / 2.f - 0.75f && got.pt.x < gx + c.w / 2.f + 0.75f, "scan:centre", "keypoint not at the window centre");
    if (c.f == MF::UNIDIRECTIONAL) MC_CHECK(matched, "scan:unidirectional", "unidirectional match dropped");
    if (c.f == MF::RATIO_TEST && c.kind != NCC) {
        if (cs.size() == 1) MC_CHECK(matched, "scan:ratio_single", "only one candidate, must match");
        else if (second > 0 && !eq(best, c.ratio * second)) MC_CHECK(matched == (best / second < c.ratio), "scan:ratio", "ratio " << best << "/" << second << " vs " << c.ratio << " but matched=" << matched);
    }
    if (c.f == MF::BIDIRECTIONAL && nbest == 1) {
        // search back from the match: same cost orientation and reversed orientation must agree to be judged
        bool lower_f = false, lower_r = false, tie = false;
        const double back_f = cost(c.kind, A, B, x0, y0, bx, y0, c.w, c.h), back_r = cost(c.kind, B, A, bx, y0, x0, y0, c.w, c.h);
        for (int x = bx; !c.right ? x >= 0 : x <= A.w - c.w; x -= c.right ? -1 : 1) {
            if (x == x0) continue;
            const double vf = cost(c.kind, A, B, x, y0, bx, y0, c.w, c.h), vr = cost(c.kind, B, A, bx, y0, x, y0, c.w, c.h);
            if (lt(vf, back_f)) lower_f = true; if (lt(vr, back_r)) lower_r = true;
            if (eq(vf, back_f) || eq(vr, back_r)) tie = true;
        }
        if (lower_f == lower_r && (lower_f || !tie)) MC_CHECK(matched == !lower_f, "scan:bidirectional", name(c.kind) << ": reverse search " << (lower_f ? "prefers another window" : "returns the same window") << " but matched=" << matched);
    }
    mc::Hash h; h.add(best).add(second).add(gx).add((int) matched).add(c.kind).add((int) c.f);
    mc::nontrivial(h.h); mc::state(h.h);
}
static cv::KeyPoint kp_at(float x, float y) { return cv::KeyPoint(x, y, 3.5f, 20.f, 0.25f, 2, 9); }

// Exhaustive image rows: 1-row images, all pixel contents.
static void scan_rows(int n, const std::vector<int>& val, int w) {
    Case c; c.w = w; c.h = 1;
    c.kind = mc::choose(5, "cost"); c.f = (MF) mc::choose(3, "filter"); c.right = mc::flip("find_in_right"); c.ratio = 0.5;
    c.L = Img{n, 1, {}}; c.R = Img{n, 1, {}};
    const int x = mc::choose(n, "keypoint_x");
    // only the reference row's pixels under its window and the candidates matter, but all are enumerated
    for (int i = 0; i < n; ++i) c.L.v.push_back(mc::pick(val, "L"));
    for (int i = 0; i < n; ++i) c.R.v.push_back(mc::pick(val, "R"));
    scan(c, kp_at(x + 0.5f, 0.5f), false);
}
MC_FAMILY(scan_w1) { scan_rows(4, {1, 4, 5}, 1); }
MC_FAMILY(scan_w3) { scan_rows(5, {2, 9}, 3); }
MC_FAMILY_THOROUGH(scan_w3_wide) { scan_rows(6, {2, 9}, 3); }
MC_FAMILY_THOROUGH(scan_w1_deep) { scan_rows(4, {1, 3, 4, 9}, 1); }

static Img pattern(int w, int h, int which, int shift) {
    Img m{w, h, {}};
    for (int y = 0; y < h; ++y) for (int x = 0; x < w; ++x) {
        const int u = x + shift;
        int v = which == 0 ? ((u * 37 + y * 91 + 11 + u * u * 5) % 250) + 3 : which == 1 ? 40 + 10 * ((u / 2 + y) % 3) + (u * 7 + y * 3) % 5 : 100 + ((u * u + 3 * y) % 11);
        m.v.push_back(((v % 256) + 256) % 256);
    }
    return m;
}
// Every keypoint position (including off-image and fractional) in textured images, all costs/filters/ratios/directions.
MC_FAMILY(scan_grid) {
    Case c; const int iw = 11, ih = 5;
    const std::vector<cv::Size> ws{{1, 1}, {3, 3}, {5, 1}, {3, 5}};
    const cv::Size s = mc::pick(ws, "window"); c.w = s.width; c.h = s.height;
    c.kind = mc::choose(5, "cost"); c.f = (MF) mc::choose(3, "filter"); c.right = mc::flip("find_in_right");
    const std::vector<double> ratios{0.3, 0.5, 0.8, 0.95}; c.ratio = c.f == MF::RATIO_TEST ? mc::pick(ratios, "ratio") : 0.5;
    const int which = mc::choose(3, "pattern"), shift = mc::choose(4, "disparity");
    c.L = pattern(iw, ih, which, 2); c.R = pattern(iw, ih, which, 2 + shift);
    const int x = mc::choose(iw + 2, "x") - 1, y = mc::choose(ih + 2, "y") - 1;
    const std::vector<float> fr{0.f, 0.5f, 0.99f};
    const float f = mc::pick(fr, "frac");
    scan(c, kp_at(x + f, y + f), mc::flip("roi"));
}

// ---- matching among detected keypoints ----------------------------------------------------------------------------------
static void indices(const Case& c, const std::vector<cv::KeyPoint>& kl, const std::vector<cv::KeyPoint>& kr, float vthresh) {
    const cv::Mat l = mat(c.L, false, 0), r = mat(c.R, false, 0);
    auto m = make(c.kind, cv::Size(c.w, c.h), vthresh, c.f, c.ratio);
    std::vector<double> costs(3, -9);
    const std::vector<int> got = m->keypoint_indices_in_other_image(kl, kr, l, r, c.right, costs);
    mc::transition();
    const auto &from = c.right ? kl : kr, &to = c.right ? kr : kl;
    MC_CHECK(got.size() == from.size() && costs.size() == from.size(), "index:sizes", "result size wrong");
    struct Res { int n = 0; double best = INFINITY, second = INFINITY; std::vector<int> arg; bool valid = false; };
    auto search = [&](const cv::KeyPoint& k, const std::vector<cv::KeyPoint>& others, bool right) {
        Res R; const Img &A = refimg(c, right), &B = srch(c, right);
        const int x0 = (int) std::floor(k.pt.x) - (c.w - 1) / 2, y0 = (int) std::floor(k.pt.y) - (c.h - 1) / 2;
        if (!inside(A, x0, y0, c.w, c.h)) return R;
        R.valid = true;
        std::vector<double> cs; std::vector<int> id;
        for (size_t i = 0; i < others.size(); ++i) {
            const auto& o = others[i];
            if (std::fabs(o.pt.y - k.pt.y) > vthresh) continue;
            if (right ? o.pt.x > k.pt.x : o.pt.x < k.pt.x) continue;
            const int x = (int) std::floor(o.pt.x) - (c.w - 1) / 2, y = (int) std::floor(o.pt.y) - (c.h - 1) / 2;
            if (!inside(B, x, y, c.w, c.h)) continue;
            cs.push_back(cost(c.kind, A, B, x0, y0, x, y, c.w, c.h)); id.push_back((int) i);
        }
        R.n = (int) cs.size();
        for (double v : cs) R.best = std::min(R.best, v);
        bool sk = false;
        for (size_t i = 0; i < cs.size(); ++i) { if (eq(cs[i], R.best)) R.arg.push_back(id[i]); if (eq(cs[i], R.best) && !sk) sk = true; else R.second = std::min(R.second, cs[i]); }
        return R;
    };
    mc::Hash h;
    for (size_t i = 0; i < from.size(); ++i) {
        const Res R = search(from[i], to, c.right);
        double single_cost = -4;
        const int single = m->keypoint_index_in_other_image(from[i], to, l, r, c.right, single_cost);
        mc::transition();
        if (c.f != MF::BIDIRECTIONAL) MC_CHECK(single == got[i], "index:single", "single and vector calls disagree");
        h.add(got[i]);
        if (R.n == 0) { MC_CHECK(got[i] == -1 && single == -1, "index:no_candidate", "match " << got[i] << " returned although no keypoint satisfies the epipolar/side/window conditions"); continue; }
        if (got[i] != -1) {
            MC_CHECK(std::find(R.arg.begin(), R.arg.end(), got[i]) != R.arg.end(), "index:argmin", "keypoint " << i << " matched to " << got[i] << " which is not a minimum-cost valid candidate");
            MC_CHECK(eq(costs[i], R.best), "index:cost", "reported cost is not that of the match");
        }
        if (c.f == MF::UNIDIRECTIONAL) MC_CHECK(got[i] != -1, "index:unidirectional", "valid candidate exists but unmatched");
        if (c.f == MF::RATIO_TEST && c.kind != NCC) {
            if (R.n == 1) MC_CHECK(got[i] != -1, "index:ratio_single", "only one valid candidate, must match");
            else if (R.second > 0 && !eq(R.best, c.ratio * R.second)) MC_CHECK((got[i] != -1) == (R.best / R.second < c.ratio), "index:ratio", "ratio " << R.best << "/" << R.second << " threshold " << c.ratio << " but result " << got[i]);
        }
        if (c.f == MF::BIDIRECTIONAL && R.arg.size() == 1) {
            const Res B = search(to[(size_t) R.arg[0]], from, !c.right);
            const bool in = std::find(B.arg.begin(), B.arg.end(), (int) i) != B.arg.end();
            if (!in) MC_CHECK(got[i] == -1, "index:bidirectional_accepts", "reverse search prefers another keypoint, but matched");
            else if (B.arg.size() == 1) MC_CHECK(got[i] == R.arg[0], "index:bidirectional_rejects", "mutual best match dropped");
        }
    }
    mc::nontrivial(h.add(c.kind).add((int) c.f).h); mc::state(h.h);
}
MC_FAMILY(index_sets) {
    Case c; const int iw = 9, ih = 6; c.w = 3; c.h = 3;
    c.kind = mc::choose(5, "cost"); c.f = (MF) mc::choose(3, "filter"); c.right = mc::flip("find_in_right");
    const std::vector<double> ratios{0.3, 0.7, 0.9}; c.ratio = c.f == MF::RATIO_TEST ? mc::pick(ratios, "ratio") : 0.5;
    const int which = mc::choose(2, "pattern");
    c.L = pattern(iw, ih, which, 0); c.R = pattern(iw, ih, which, 1);
    static const std::vector<cv::Point2f> pts{{2.5f, 2.5f}, {4.5f, 2.5f}, {6.2f, 3.6f}, {0.2f, 2.5f}, {4.5f, 4.9f}, {3.0f, 3.4f}};
    auto set = [&](const char* lab) { std::vector<cv::KeyPoint> v; for (size_t i = 0; i < pts.size(); ++i) if (mc::flip(lab)) v.push_back(kp_at(pts[i].x, pts[i].y)); return v; };
    const auto kl = set("left"), kr = set("right");
    indices(c, kl, kr, mc::flip("threshold") ? 1.0f : 0.0f);
}
// Candidates whose window leaves the image on any side are never considered.
MC_FAMILY(index_border) {
    Case c; const int iw = 9, ih = 6;
    const std::vector<cv::Size> ws{{3, 3}, {1, 3}, {5, 1}};
    const cv::Size s = mc::pick(ws, "window"); c.w = s.width; c.h = s.height;
    c.kind = mc::choose(5, "cost"); c.f = (MF) mc::choose(3, "filter"); c.right = mc::flip("find_in_right"); c.ratio = 0.7;
    const int which = mc::choose(2, "pattern");
    c.L = pattern(iw, ih, which, 0); c.R = pattern(iw, ih, which, 1);
    static const std::vector<cv::Point2f> refs{{4.5f, 2.5f}, {4.5f, 4.9f}, {4.5f, 1.1f}, {2.2f, 4.2f}, {6.9f, 1.4f}};
    static const std::vector<cv::Point2f> pts{{8.2f, 2.5f}, {4.5f, 5.2f}, {4.5f, 0.8f}, {0.7f, 2.2f}, {4.5f, 2.0f}, {8.9f, 5.5f}, {0.f, 0.4f}, {4.f, 4.3f}, {4.f, 1.9f}};
    const auto r = mc::pick(refs, "reference");
    std::vector<cv::KeyPoint> cand;
    for (int i = 0; i < 2; ++i) { const auto& p = mc::pick(pts, "candidate"); cand.push_back(kp_at(p.x, p.y)); }
    const std::vector<cv::KeyPoint> ref{kp_at(r.x, r.y)};
    indices(c, c.right ? ref : cand, c.right ? cand : ref, 1.0f);
}
// Order and tie sensitivity: three right keypoints in every order with distinct costs.
MC_FAMILY(index_orders) {
    Case c; const int iw = 12, ih = 3; c.w = 1; c.h = 1;
    c.kind = mc::choose(3, "cost"); c.f = (MF) mc::choose(3, "filter"); c.right = mc::flip("find_in_right"); c.ratio = 0.5;
    c.L = Img{iw, ih, std::vector<int>((size_t) iw * ih, 100)}; c.R = c.L;
    const std::vector<int> vals{100, 101, 103, 107, 90};
    Img& S = c.right ? c.R : c.L;
    std::vector<cv::KeyPoint> cand;
    const int n = 1 + mc::choose(4, "n");
    for (int i = 0; i < n; ++i) { const int x = c.right ? 2 + i : 6 + i; S.v[(size_t) (iw + x)] = mc::pick(vals, "candidate"); cand.push_back(kp_at(x + 0.5f, 1.5f)); }
    std::vector<cv::KeyPoint> ref{kp_at(6.5f, 1.5f)};
    if (mc::flip("second_reference")) ref.push_back(kp_at(c.right ? 7.5f : 5.5f, 1.0f));
    indices(c, c.right ? ref : cand, c.right ? cand : ref, 1.0f);
}
MC_FAMILY(errors) {
    const int k = mc::choose(5, "cost");
    const int w = mc::choose(6, "w") - 1, h = mc::choose(6, "h") - 1;
    const std::vector<double> rs{-0.1, 0, 0.01, 0.5, 0.99, 1, 1.5}; const double ratio = mc::pick(rs, "ratio");
    const bool ok = w >= 1 && h >= 1 && w % 2 == 1 && h % 2 == 1 && ratio > 0 && ratio < 1;
    mc::transition();
    MC_CHECK(mc::throws([&] { make(k, cv::Size(w, h), 1.f, MF::UNIDIRECTIONAL, ratio); }) == !ok, "ctor", "window " << w << "x" << h << " ratio " << ratio);
    if (!ok) return;
    auto m = make(k, cv::Size(w, h), 1.f, MF::UNIDIRECTIONAL, ratio);
    const cv::Mat a(8, 8, CV_8U, cv::Scalar(3)), b(8, 9, CV_8U, cv::Scalar(3)), d(9, 8, CV_8U, cv::Scalar(3));
    double c; bool mt; std::vector<double> cs; std::vector<bool> ms;
    for (const cv::Mat* o : {&b, &d}) {
        MC_CHECK(mc::throws([&] { m->keypoint_in_other_image(kp_at(4, 4), a, *o, true, c, mt); }) && mc::throws([&] { m->keypoint_index_in_other_image(kp_at(4, 4), {kp_at(4, 4)}, a, *o, false, c); }), "size_mismatch", "images of different sizes accepted");
    }
}
MC_FAMILY(names) {
    const std::vector<std::pair<std::string, int>> n{{"UNIDIRECTIONAL", 0}, {"BIDIRECTIONAL", 1}, {"RATIO_TEST", 2}, {"", -1}, {"ratio_test", -1}, {"RATIO", -1}, {"NONE", -1}};
    const auto& p = mc::pick(n, "name");
    mc::transition();
    if (p.second < 0) MC_CHECK(mc::throws([&] { to_matching_filter(p.first); }), "names:reject", "unknown filter name accepted");
    else MC_CHECK((int) to_matching_filter(p.first) == (int) (p.second == 0 ? MF::UNIDIRECTIONAL : p.second == 1 ? MF::BIDIRECTIONAL : MF::RATIO_TEST), "names", "wrong filter");
}
