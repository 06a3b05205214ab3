#include "common.h"
// ---- tangent plane
template<class T> int denom(T& c) {
    const T t = T(1e-6);
    if (c > t) return 0;
    if (c >= 0) { c = t; return 1; }
    if (c > -t) { c = -t; return 2; }
    return 3;
}
template<class T> int s2tp_(const T* p, const T* t, T& xi, T& eta) {
    T a = p[0] - t[0];
    T c = std::sin(p[1]) * std::sin(t[1]) + std::cos(p[1]) * std::cos(t[1]) * std::cos(a);
    int j = denom(c);
    xi = std::cos(p[1]) * std::sin(a) / c;
    eta = (std::sin(p[1]) * std::cos(t[1]) - std::cos(p[1]) * std::sin(t[1]) * std::cos(a)) / c;
    return j;
}
EX int spec_ds2tp(const d* p, const d* t, d& x, d& y) { return s2tp_(p, t, x, y); }
EX int spec_s2tp(const f* p, const f* t, f& x, f& y) { return s2tp_(p, t, x, y); }
template<class T> void tp2s_(T xi, T eta, const T* t, T* p) {
    T a = t[0], b = t[1], q = std::cos(b) - eta * std::sin(b);
    p[0] = NORM2PI(std::atan2(xi, q) + a);
    p[1] = std::atan2(std::sin(b) + eta * std::cos(b), std::sqrt(xi * xi + q * q));
}
EX void spec_dtp2s(d x, d y, const d* t, d* p) { tp2s_(x, y, t, p); }
EX void spec_tp2s(f x, f y, const f* t, f* p) { tp2s_(x, y, t, p); }
template<class T> int v2tp_(const T* p, const T* t, T& xi, T& eta) {
    T x0 = t[0], y0 = t[1], z0 = t[2], r2 = x0 * x0 + y0 * y0, r = std::sqrt(r2);
    if (x0 == 0 && y0 == 0) { r = T(1e-20); x0 = r; }
    T w = p[0] * x0 + p[1] * y0, c = w + p[2] * z0;
    int j = denom(c);
    xi = (p[1] * x0 - p[0] * y0) / (c * r);
    eta = (p[2] * r2 - z0 * w) / (c * r);
    return j;
}
EX int spec_dv2tp(const d* p, const d* t, d& x, d& y) { return v2tp_(p, t, x, y); }
EX int spec_v2tp(const f* p, const f* t, f& x, f& y) { return v2tp_(p, t, x, y); }
template<class T> void tp2v_(T xi, T eta, const T* t, T* p) {
    T x = t[0], y = t[1], z = t[2], n = std::sqrt(1 + xi * xi + eta * eta), r = std::sqrt(x * x + y * y);
    if (x == 0 && y == 0) { r = T(1e-20); x = r; }
    p[0] = (x - (xi * y + eta * x * z) / r) / n;
    p[1] = (y + (xi * x - eta * y * z) / r) / n;
    p[2] = (z + eta * r) / n;
}
EX void spec_dtp2v(d x, d y, const d* t, d* p) { tp2v_(x, y, t, p); }
EX void spec_tp2v(f x, f y, const f* t, f* p) { tp2v_(x, y, t, p); }
template<class T> int tps2c_(T xi, T eta, const T* p, T* s1, T* s2) {
    T a = p[0], sd = std::sin(p[1]), cd = std::cos(p[1]);
    T k = sd * std::sqrt(1 + xi * xi + eta * eta), r2 = cd * cd * (1 + eta * eta) - sd * sd * xi * xi;
    if (r2 < 0) return 0;
    T r = std::sqrt(r2);
    T q = (xi == 0 && r2 == 0) ? T(1) : r;
    s1[0] = NORM2PI(a - std::atan2(xi, q));
    s1[1] = std::atan2(k - eta * r, k * eta + r);
    s2[0] = NORM2PI(a - std::atan2(xi, -q));
    s2[1] = std::atan2(k + eta * q, k * eta - q);
    return std::fabs(k) < 1 ? 1 : 2;
}
EX int spec_dtps2c(d x, d y, const d* p, d* a, d* b) { return tps2c_(x, y, p, a, b); }
EX int spec_tps2c(f x, f y, const f* p, f* a, f* b) { return tps2c_(x, y, p, a, b); }
template<class T> int tpv2c_(T xi, T eta, const T* p, T* s1, T* s2) {
    T x = p[0], y = p[1], z = p[2], q = x * x + y * y, e = eta * eta + 1, k = z * std::sqrt(xi * xi + e), r2 = q * e - z * z * xi * xi;
    if (!(r2 > 0)) return 0;
    T r = std::sqrt(r2), n = e * std::sqrt(q * (r2 + xi * xi));
    T c = (k * eta + r) / n;
    s1[0] = c * (x * r + y * xi); s1[1] = c * (y * r - x * xi); s1[2] = (k - eta * r) / e;
    c = (k * eta - r) / n;
    s2[0] = c * (-x * r + y * xi); s2[1] = c * (-y * r - x * xi); s2[2] = (k + eta * r) / e;
    return std::fabs(k) < 1 ? 1 : 2;
}
EX int spec_dtpv2c(d x, d y, const d* p, d* a, d* b) { return tpv2c_(x, y, p, a, b); }
EX int spec_tpv2c(f x, f y, const f* p, f* a, f* b) { return tpv2c_(x, y, p, a, b); }
// ---- plate models: x' = m0 + m1 x + m2 y, y' = m3 + m4 x + m5 y
EX void spec_xy2xy(d x, d y, const d* m, d& u, d& v) { u = m[0] + m[1] * x + m[2] * y; v = m[3] + m[4] * x + m[5] * y; }
EX bool spec_invf(const d* m, d* o) {
    d a = m[0], b = m[1], c = m[2], e = m[3], g = m[4], h = m[5], D = b * h - c * g;
    if (D == 0) return false;
    o[1] = h / D; o[2] = -c / D; o[4] = -g / D; o[5] = b / D;
    o[0] = (c * e - a * h) / D;
    o[3] = (a * g - b * e) / D;
    return true;
}
EX void spec_dcmpf(const d* m, d& xz, d& yz, d& xs, d& ys, d& perp, d& orient) {
    d a = m[0], b = m[1], c = m[2], e0 = m[3], e = m[4], g = m[5];
    d X = std::sqrt(b * b + e * e), Y = std::sqrt(c * c + g * g), s = X;
    if (b * g - c * e < 0) { b = -b; e = -e; s = -X; }
    d p = NORMPI(angle0(c, g) + angle0(e, b));
    d w = angle0(c * X - e * Y, b * Y + g * X);
    d sh = std::sin(p / 2), ch = std::cos(p / 2), so = std::sin(w), co = std::cos(w);
    d D = s * Y * (ch + sh) * (ch - sh);
    if (D == 0) { xz = 0; yz = 0; }
    else {
        xz = Y * (a * (ch * co - sh * so) - e0 * (ch * so + sh * co)) / D;
        yz = s * (a * (ch * so - sh * co) + e0 * (ch * co + sh * so)) / D;
    }
    xs = s; ys = Y; perp = p; orient = w;
}
EX void spec_pxy(int n, const d* xe, const d* xm, const d* m, d* xp, d& xr, d& yr, d& rr) {
    d sx = 0, sy = 0;
    for (int i = 0; i < n; i++) {
        d u = m[0] + m[1] * xm[2 * i] + m[2] * xm[2 * i + 1], v = m[3] + m[4] * xm[2 * i] + m[5] * xm[2 * i + 1];
        xp[2 * i] = u; xp[2 * i + 1] = v;
        sx += sq(xe[2 * i] - u); sy += sq(xe[2 * i + 1] - v);
    }
    d k = n > 1 ? n : 1;
    xr = std::sqrt(sx / k); yr = std::sqrt(sy / k); rr = std::sqrt(sx / k + sy / k);
}
// ---- pincushion
EX void spec_pcd(d c, d& x, d& y) { d k = 1 + c * (x * x + y * y); x = x * k; y = y * k; }
static d cr(d w) { d r = std::pow(std::fabs(w), 1.0 / 3.0); return w >= 0 ? r : -r; }
EX void spec_unpcd(d c, d& x, d& y) {
    d x0 = x, y0 = y;
    if ((x0 == 0 && y0 == 0) || c == 0) return;
    d rp = std::sqrt(x0 * x0 + y0 * y0), q = 1 / (3 * c), r = rp / (2 * c), w = q * q * q + r * r, g;
    if (w >= 0) g = cr(r + std::sqrt(w)) + cr(r - std::sqrt(w));
    else {
        d k = 2 / std::sqrt(-3 * c), u = 4 * rp / (c * k * k * k), t = std::atan2(std::sqrt(1 - (u * u < 1 ? u * u : 1.0)), u);
        d g1 = k * std::cos((TAU - t) / 3), g2 = k * std::cos(t / 3), g3 = k * std::cos((TAU + t) / 3);
        d e1 = std::fabs(g1 - rp), e2 = std::fabs(g2 - rp), e3 = std::fabs(g3 - rp);
        if (e1 < e2) g = e1 < e3 ? g1 : g3; else g = e2 < e3 ? g2 : g3;
    }
    x = g / rp * x0; y = g / rp * y0;
}
