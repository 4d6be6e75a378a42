// Second-order forward-mode differentiation in long double: value, gradient and Hessian over N variables.
#pragma once
#include "ref.hpp"
template<int N> struct Jet {
    typedef long double L;
    L v = 0; L g[N]; L h[N][N];
    Jet(L x = 0) : v(x) { for (auto& y : g) y = 0; for (auto& r : h) for (auto& y : r) y = 0; }
    static Jet var(L x, int i) { Jet j(x); j.g[i] = 1; return j; }
    Jet operator+(const Jet& o) const { Jet r(v + o.v); for (int i = 0; i < N; ++i) { r.g[i] = g[i] + o.g[i]; for (int j = 0; j < N; ++j) r.h[i][j] = h[i][j] + o.h[i][j]; } return r; }
    Jet operator-(const Jet& o) const { Jet r(v - o.v); for (int i = 0; i < N; ++i) { r.g[i] = g[i] - o.g[i]; for (int j = 0; j < N; ++j) r.h[i][j] = h[i][j] - o.h[i][j]; } return r; }
    Jet operator*(const Jet& o) const {
        Jet r(v * o.v);
        for (int i = 0; i < N; ++i) { r.g[i] = g[i] * o.v + v * o.g[i]; for (int j = 0; j < N; ++j) r.h[i][j] = h[i][j] * o.v + g[i] * o.g[j] + g[j] * o.g[i] + v * o.h[i][j]; }
        return r;
    }
    // f(this) given f, f', f'' at v
    Jet chain(L f, L f1, L f2) const { Jet r(f); for (int i = 0; i < N; ++i) { r.g[i] = f1 * g[i]; for (int j = 0; j < N; ++j) r.h[i][j] = f1 * h[i][j] + f2 * g[i] * g[j]; } return r; }
};
// sin(sqrt u)/sqrt u and (1-cos(sqrt u))/u as analytic functions of u, with two derivatives, by their power series.
inline void sinc_series(long double u, long double& f, long double& f1, long double& f2, bool second) {
    // f = sum_k (-1)^k u^k / (2k+1)!   (second: / (2k+2)!)
    f = f1 = f2 = 0; long double c = second ? 0.5L : 1.0L; long double p0 = 1, p1 = 0, p2 = 0;
    for (int k = 0; k < 40; ++k) {
        if (k > 0) c /= -(long double) (second ? (2 * k + 1) * (2 * k + 2) : (2 * k) * (2 * k + 1));
        f += c * p0; f1 += c * p1; f2 += c * p2;
        p2 = p2 * u + 2 * p1; p1 = p1 * u + p0; p0 *= u;
    }
}
