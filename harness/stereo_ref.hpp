// Reference definitions of the window costs (Hirschmuller & Scharstein naming), independent of the code under test.
#pragma once
#include <opencv2/core.hpp>
#include <vector>
#include <cmath>
namespace sref {
struct Img { int w = 0, h = 0; std::vector<int> v; int at(int y, int x) const { return v[(size_t) (y * w + x)]; } };
enum Cost { SAD, SSD, ZMSAD, LSSAD, NCC };
inline const char* name(int c) { const char* n[] = {"SAD", "SSD", "ZMSAD", "LSSAD", "NCC"}; return n[c]; }
inline double sum(const Img& i, int x, int y, int w, int h) { double s = 0; for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) s += i.at(y + r, x + c); return s; }
inline double sumsq(const Img& i, int x, int y, int w, int h) { double s = 0; for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) s += (double) i.at(y + r, x + c) * i.at(y + r, x + c); return s; }
inline double cost(int k, const Img& a, const Img& b, int xa, int ya, int xb, int yb, int w, int h, bool given = false, double stat1 = 0) {
    const double n = w * h;
    double m1 = sum(a, xa, ya, w, h) / n, m2 = sum(b, xb, yb, w, h) / n;
    double q1 = sumsq(a, xa, ya, w, h), q2 = sumsq(b, xb, yb, w, h);
    if (given) { m1 = stat1; q1 = stat1; }
    double s = 0;
    for (int r = 0; r < h; ++r) for (int c = 0; c < w; ++c) {
        const double p = a.at(ya + r, xa + c), q = b.at(yb + r, xb + c);
        switch (k) {
            case SAD: s += std::fabs(p - q); break;
            case SSD: s += (p - q) * (p - q); break;
            case ZMSAD: s += std::fabs((p - m1) - (q - m2)); break;
            case LSSAD: s += std::fabs(p - m1 / m2 * q); break;
            case NCC: s += p * q; break;
        }
    }
    return k == NCC ? -s / std::sqrt(q1 * q2) : s;
}
// The same image as a cv::Mat; roi = a view into a larger, differently filled buffer (non-continuous rows).
inline cv::Mat mat(const Img& i, bool roi, int fill) {
    cv::Mat big(i.h + (roi ? 3 : 0), i.w + (roi ? 4 : 0), CV_8U, cv::Scalar(fill));
    cv::Mat m = roi ? big(cv::Rect(2, 1, i.w, i.h)) : big;
    for (int y = 0; y < i.h; ++y) for (int x = 0; x < i.w; ++x) m.at<unsigned char>(y, x) = (unsigned char) i.at(y, x);
    return m;
}
}
