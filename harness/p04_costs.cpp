// P04: stereo window statistics and matching costs.
#include "mc.hpp"
#include "stereo_ref.hpp"
#include <serpent/front_end/stereo/window_functions.hpp>
#include <serpent/front_end/stereo/stereo_cost_functions.hpp>
using namespace sref;
using namespace serpent;

static double call(int k, const cv::Mat& a, const cv::Mat& b, cv::Point2i pa, cv::Point2i pb, cv::Size w) {
    switch (k) {
        case SAD: return sum_of_absolute_differences(a, b, pa, pb, w);
        case SSD: return sum_of_squared_differences(a, b, pa, pb, w);
        case ZMSAD: return zero_mean_sum_of_absolute_differences(a, b, pa, pb, w);
        case LSSAD: return locally_scaled_sum_of_absolute_differences(a, b, pa, pb, w);
        default: return negative_normalised_cross_correlation(a, b, pa, pb, w);
    }
}
static double call1(int k, const cv::Mat& a, const cv::Mat& b, cv::Point2i pa, cv::Point2i pb, cv::Size w, double s) {
    switch (k) {
        case ZMSAD: return zero_mean_sum_of_absolute_differences(a, b, pa, pb, w, s);
        case LSSAD: return locally_scaled_sum_of_absolute_differences(a, b, pa, pb, w, s);
        default: return negative_normalised_cross_correlation(a, b, pa, pb, w, s);
    }
}
static void compare(const Img& A, const Img& B, bool roi, int xa, int ya, int xb, int yb, int w, int h) {
    const cv::Mat a = mat(A, roi, 201), b = mat(B, roi, 13);
    const cv::Mat a0 = a.clone(), b0 = b.clone();
    const cv::Point2i pa(xa, ya), pb(xb, yb); const cv::Size win(w, h);
    mc::Hash hh;
    MC_CHECK(mc::close(window_sum(a, pa, win), sum(A, xa, ya, w, h), 1e-12), "window_sum", "window sum wrong: got " << window_sum(a, pa, win) << " want " << sum(A, xa, ya, w, h));
    MC_CHECK(mc::close(window_mean(a, pa, win), sum(A, xa, ya, w, h) / (w * h), 1e-12), "window_mean", "window mean wrong");
    MC_CHECK(mc::close(window_sum_squares(a, pa, win), sumsq(A, xa, ya, w, h), 1e-12), "window_sum_squares", "window sum of squares wrong: got " << window_sum_squares(a, pa, win));
    mc::transition(3);
    for (int k = 0; k < 5; ++k) {
        const double s1 = sum(A, xa, ya, w, h), s2 = sum(B, xb, yb, w, h);
        if (k == LSSAD && s2 == 0) continue;     // ratio of means undefined
        if (k == NCC && (s1 == 0 || s2 == 0)) continue;
        const double want = cost(k, A, B, xa, ya, xb, yb, w, h), got = call(k, a, b, pa, pb, win);
        mc::transition();
        MC_CHECK(mc::close(got, want, 1e-9), std::string("cost:") + name(k), name(k) << " got " << got << " want " << want << " window " << w << "x" << h << " at (" << xa << "," << ya << ")/(" << xb << "," << yb << ")");
        hh.add(want);
        if (k >= ZMSAD) {
            const double stat = k == NCC ? sumsq(A, xa, ya, w, h) : s1 / (w * h);
            const double g1 = call1(k, a, b, pa, pb, win, stat);
            MC_CHECK(mc::close(g1, want, 1e-9), std::string("cost_precomputed:") + name(k), "overload with precomputed statistic disagrees");
            const double other = stat + 2.5, w2 = cost(k, A, B, xa, ya, xb, yb, w, h, true, other), g2 = call1(k, a, b, pa, pb, win, other);
            MC_CHECK(mc::close(g2, w2, 1e-9), std::string("cost_given:") + name(k), "given statistic not used as given");
            mc::transition(2);
        }
    }
    MC_CHECK(cv::norm(a, a0, cv::NORM_INF) == 0 && cv::norm(b, b0, cv::NORM_INF) == 0, "cost:pure", "input image modified");
    mc::nontrivial(hh.h);
}
// Exhaustive pixel contents for small windows.
static void contents(int w, int h, const std::vector<int>& val) {
    Img A{w, h, {}}, B{w, h, {}};
    for (int i = 0; i < w * h; ++i) A.v.push_back(mc::pick(val, "a"));
    for (int i = 0; i < w * h; ++i) B.v.push_back(mc::pick(val, "b"));
    compare(A, B, mc::flip("roi"), 0, 0, 0, 0, w, h);
}
MC_FAMILY(w1x1) { contents(1, 1, {0, 1, 2, 7, 100, 127, 128, 200, 254, 255}); }
MC_FAMILY(w2x1) { contents(2, 1, {0, 1, 9, 128, 255}); }
MC_FAMILY(w3x1) { contents(3, 1, {0, 3, 130, 255}); }
MC_FAMILY(w1x3) { contents(1, 3, {0, 3, 130, 255}); }
MC_FAMILY(w3x3) { contents(3, 3, {7, 255}); }
// Every placement of every window size in images with distinct pixels.
MC_FAMILY(placement) {
    const int iw = 7, ih = 6;
    const int w = 1 + mc::choose(iw, "w"), h = 1 + mc::choose(ih, "h");
    const int xa = mc::choose(iw - w + 1, "xa"), ya = mc::choose(ih - h + 1, "ya"), xb = mc::choose(iw - w + 1, "xb"), yb = mc::choose(ih - h + 1, "yb");
    Img A{iw, ih, {}}, B{iw, ih, {}};
    for (int i = 0; i < iw * ih; ++i) { A.v.push_back((i * 37 + 11) % 256); B.v.push_back(255 - (i * 53 + 5) % 251); }
    compare(A, B, mc::flip("roi"), xa, ya, xb, yb, w, h);
}
// Large windows: accumulated sums beyond 8/16 bit ranges.
MC_FAMILY(large) {
    const std::vector<int> sizes{9, 21, 31, 64};
    const int w = mc::pick(sizes, "w"), h = mc::pick(sizes, "h"), f = mc::choose(4, "fill"), g = mc::choose(4, "fill2");
    Img A{w + 2, h + 1, {}}, B{w + 2, h + 1, {}};
    auto val = [](int f, int i) { return f == 0 ? 255 : f == 1 ? (i % 2 ? 255 : 1) : f == 2 ? (i * 7) % 256 : 3; };
    for (int i = 0; i < (w + 2) * (h + 1); ++i) { A.v.push_back(val(f, i)); B.v.push_back(val(g, i)); }
    compare(A, B, mc::flip("roi"), mc::choose(3, "xa"), mc::choose(2, "ya"), 2, 1, w, h);
}
MC_FAMILY(within) {
    const int iw = 1 + mc::choose(5, "iw"), ih = 1 + mc::choose(5, "ih"), w = 1 + mc::choose(6, "w"), h = 1 + mc::choose(6, "h"), x = mc::choose(9, "x") - 3, y = mc::choose(9, "y") - 3;
    const cv::Mat m = cv::Mat::zeros(ih, iw, CV_8U);
    bool want = true;
    for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) if (x + c < 0 || x + c >= iw || y + r < 0 || y + r >= ih) want = false;
    mc::transition();
    MC_CHECK(window_within_image(m, cv::Point2i(x, y), cv::Size(w, h)) == want, "window_within_image", "image " << iw << "x" << ih << " window " << w << "x" << h << " at (" << x << "," << y << "): want " << want);
    mc::nontrivial(mc::Hash().add(iw).add(ih).add(w).add(h).add(x).add(y).h);
}
MC_FAMILY(types) {
    const std::vector<int> t{CV_8U, CV_8S, CV_16U, CV_32F, CV_64F, CV_8UC3};
    const int t1 = mc::pick(t, "t1"), t2 = mc::pick(t, "t2"), k = mc::choose(5, "cost");
    const cv::Mat a(4, 4, t1, cv::Scalar::all(3)), b(4, 4, t2, cv::Scalar::all(5));
    const bool th = mc::throws([&] { call(k, a, b, {0, 0}, {0, 0}, {2, 2}); });
    mc::transition();
    MC_CHECK(th == (t1 != CV_8U || t2 != CV_8U), std::string("type:") + name(k), "images that are not 8-bit must be rejected");
    if (k >= ZMSAD) MC_CHECK(mc::throws([&] { call1(k, a, b, {0, 0}, {0, 0}, {2, 2}, 3.0); }) == (t1 != CV_8U || t2 != CV_8U), std::string("type1:") + name(k), "images that are not 8-bit must be rejected (precomputed overload)");
    mc::nontrivial(mc::Hash().add(t1).add(t2).add(k).h);
}
