#include "common.h"
EX d spec_dvdv(const d* a, const d* b) { return DOT(a, b); }
EX f spec_vdv(const f* a, const f* b) { return DOT(a, b); }

template<class T> void cross(const T* a, const T* b, T* c) {
    T r[3];
    for (int i = 0; i < 3; i++) r[i] = a[(i + 1) % 3] * b[(i + 2) % 3] - a[(i + 2) % 3] * b[(i + 1) % 3];
    for (int i = 0; i < 3; i++) c[i] = r[i];
}
EX void spec_dvxv(const d* a, const d* b, d* c) { cross(a, b, c); }
EX void spec_vxv(const f* a, const f* b, f* c) { cross(a, b, c); }

template<class T> T unit(const T* v, T* n) {
    T m = std::sqrt(DOT(v, v)), w = m == 0 ? T(1) : m;
    T x = v[0], y = v[1], z = v[2];
    n[0] = x / w; n[1] = y / w; n[2] = z / w;
    return m;
}
EX d spec_dvn(const d* v, d* n) { return unit(v, n); }
EX f spec_vn(const f* v, f* n) { return unit(v, n); }

EX void spec_dmxm(const d* a, const d* b, d* c) { MM(a, b, c); }
EX void spec_mxm(const f* a, const f* b, f* c) { MM(a, b, c); }
EX void spec_dmxv(const d* a, const d* b, d* c) { MV(a, b, c); }
EX void spec_mxv(const f* a, const f* b, f* c) { MV(a, b, c); }
EX void spec_dimxv(const d* a, const d* b, d* c) { TV(a, b, c); }
EX void spec_imxv(const f* a, const f* b, f* c) { TV(a, b, c); }

// rotation by |v| about v (frame rotates clockwise seen along v): R = cos I + (1-cos) n n^T - sin [n]x
template<class T> void av2m_(const T* v, T* m) {
    T p = std::sqrt(DOT(v, v)), n[3] = {v[0], v[1], v[2]};
    if (p != 0) for (int i = 0; i < 3; i++) n[i] = v[i] / p;
    T s = std::sin(p), c = std::cos(p);
    T k[9] = {0, n[2], -n[1], -n[2], 0, n[0], n[1], -n[0], 0};
    for (int i = 0; i < 9; i++) m[i] = (i % 4 == 0 ? c : T(0)) + (1 - c) * n[i / 3] * n[i % 3] + s * k[i];
}
EX void spec_dav2m(const d* v, d* m) { av2m_(v, m); }
EX void spec_av2m(const f* v, f* m) { av2m_(v, m); }
template<class T> void m2av_(const T* m, T* v) {
    T a[3] = {m[5] - m[7], m[6] - m[2], m[1] - m[3]};
    T s = std::sqrt(DOT(a, a));
    if (s == 0) { v[0] = v[1] = v[2] = 0; return; }
    T phi = std::atan2(s, m[0] + m[4] + m[8] - 1);
    for (int i = 0; i < 3; i++) v[i] = a[i] / s * phi;
}
EX void spec_dm2av(const d* m, d* v) { m2av_(m, v); }
EX void spec_m2av(const f* m, f* v) { m2av_(m, v); }

template<class T> void euler_(const char* o, T a, T b, T c, T* m) {
    T ang[3] = {a, b, c};
    T r[9] = {1, 0, 0, 0, 1, 0, 0, 0, 1};
    for (int n = 0; n < 3; n++) {
        int ax;
        switch (o[n]) {
            case 'X': case 'x': case '1': ax = 0; break;
            case 'Y': case 'y': case '2': ax = 1; break;
            case 'Z': case 'z': case '3': ax = 2; break;
            default: goto done;
        }
        T q[9];
        RK(ax, ang[n], q);
        MM(q, r, r);
    }
done:
    for (int i = 0; i < 9; i++) m[i] = r[i];
}
EX void spec_deuler(const char* o, d a, d b, d c, d* m) { euler_(o, a, b, c, m); }
EX void spec_euler(const char* o, f a, f b, f c, f* m) { euler_(o, a, b, c, m); }

EX void spec_dcs2c(const d* s, d* v) { S2C(s[0], s[1], v); }
EX void spec_cs2c(const f* s, f* v) { S2C(s[0], s[1], v); }
EX void spec_dcc2s(const d* v, d* s) { C2S(v, s); }
EX void spec_cc2s(const f* v, f* s) { C2S(v, s); }

// position/velocity: spherical -> Cartesian by differentiating r (cos b cos a, cos b sin a, sin b)
template<class T> void s2c6(const T* s, T* o) {
    T a = s[0], b = s[1], r = s[2], ad = s[3], bd = s[4], rd = s[5];
    T sa = std::sin(a), ca = std::cos(a), sb = std::sin(b), cb = std::cos(b);
    o[0] = r * cb * ca; o[1] = r * cb * sa; o[2] = r * sb;
    o[3] = rd * cb * ca - r * sb * bd * ca - r * cb * sa * ad;
    o[4] = rd * cb * sa - r * sb * bd * sa + r * cb * ca * ad;
    o[5] = rd * sb + r * cb * bd;
}
EX void spec_ds2c6(const d* s, d* o) { s2c6(s, o); }
EX void spec_cs2c6(const f* s, f* o) { s2c6(s, o); }
// Cartesian -> spherical; a null position is replaced by the velocity direction
template<class T> void c62s(const T* c, T* o) {
    T x = c[0], y = c[1], z = c[2], xd = c[3], yd = c[4], zd = c[5];
    if (x == 0 && y == 0 && z == 0) { x = xd; y = yd; z = zd; }
    T p2 = x * x + y * y, r2 = p2 + z * z, p = std::sqrt(p2), r = std::sqrt(r2);
    if (x == 0 && y == 0) {
        o[0] = 0; o[3] = 0; o[4] = 0;
        o[1] = z == 0 ? T(0) : std::atan2(z, p);
    } else {
        o[0] = std::atan2(y, x);
        o[1] = std::atan2(z, p);
        o[3] = (x * yd - y * xd) / p2;
        o[4] = (p2 * zd - z * (x * xd + y * yd)) / r2 / p;
    }
    o[2] = r;
    o[5] = (x == 0 && y == 0 && z == 0) ? T(0) : (x * xd + y * yd + z * zd) / r;
}
EX void spec_dc62s(const d* c, d* o) { c62s(c, o); }
EX void spec_cc62s(const f* c, f* o) { c62s(c, o); }

EX d spec_drange(d x) { return NORMPI(x); }
EX f spec_range(f x) { return NORMPI(x); }
EX d spec_dranrm(d x) { return NORM2PI(x); }
EX f spec_ranorm(f x) { return NORM2PI(x); }

template<class T> T sepv_(const T* a, const T* b) {
    T x[3];
    cross(a, b, x);
    T s = std::sqrt(DOT(x, x)), c = DOT(a, b);
    return (x[0] == 0 && x[1] == 0 && x[2] == 0 && c == 0) ? T(0) : std::atan2(s, c);
}
EX d spec_dsepv(const d* a, const d* b) { return sepv_(a, b); }
EX f spec_sepv(const f* a, const f* b) { return sepv_(a, b); }
template<class T> T sep_(const T* a, const T* b) { T u[3], v[3]; S2C(a[0], a[1], u); S2C(b[0], b[1], v); return sepv_(u, v); }
EX d spec_dsep(const d* a, const d* b) { return sep_(a, b); }
EX f spec_sep(const f* a, const f* b) { return sep_(a, b); }
// bearing of b from a: components of the direction to b along east and north at a
template<class T> T bear_(const T* a, const T* b) {
    T da = b[0] - a[0];
    T e = std::sin(da) * std::cos(b[1]);
    T n = std::sin(b[1]) * std::cos(a[1]) - std::cos(b[1]) * std::sin(a[1]) * std::cos(da);
    return angle0(e, n);
}
EX d spec_dbear(const d* a, const d* b) { return bear_(a, b); }
EX f spec_bear(const f* a, const f* b) { return bear_(a, b); }
template<class T> T pav_(const T* a, const T* b) {
    T u[3]; unit(a, u);
    T e = u[0] * b[1] - u[1] * b[0];
    T n = b[2] * (u[0] * u[0] + u[1] * u[1]) - u[2] * (u[0] * b[0] + u[1] * b[1]);
    return angle0(e, n);
}
EX d spec_dpav(const d* a, const d* b) { return pav_(a, b); }
EX f spec_pav(const f* a, const f* b) { return pav_(a, b); }

// horizon coordinates
template<class T> void hor(T h, T de, T p, T* v) {        // x north, y east, z up
    v[0] = std::sin(de) * std::cos(p) - std::cos(h) * std::cos(de) * std::sin(p);
    v[1] = -std::sin(h) * std::cos(de);
    v[2] = std::sin(de) * std::sin(p) + std::cos(h) * std::cos(de) * std::cos(p);
}
template<class T> void e2h_(const T* s, T p, T& az, T& el) {
    T v[3]; hor(s[0], s[1], p, v);
    T r = std::sqrt(v[0] * v[0] + v[1] * v[1]);
    T a = angle0(v[1], v[0]);
    az = a < 0 ? a + T(TAU) : a;
    el = std::atan2(v[2], r);
}
EX void spec_de2h(const d* s, d p, d& az, d& el) { e2h_(s, p, az, el); }
EX void spec_e2h(const f* s, f p, f& az, f& el) { e2h_(s, p, az, el); }
template<class T> void h2e_(T az, T el, T p, T* s) {
    T v[3]; hor(az, el, p, v);
    s[0] = angle0(v[1], v[0]);
    s[1] = std::atan2(v[2], std::sqrt(v[0] * v[0] + v[1] * v[1]));
}
EX void spec_dh2e(d az, d el, d p, d* s) { h2e_(az, el, p, s); }
EX void spec_h2e(f az, f el, f p, f* s) { h2e_(az, el, p, s); }
EX d spec_zd(const d* s, d p) { d v[3]; hor(s[0], s[1], p, v); return std::atan2(std::sqrt(v[0] * v[0] + v[1] * v[1]), v[2]); }
EX d spec_pa(const d* s, d p) {
    return angle0(std::cos(p) * std::sin(s[0]), std::sin(p) * std::cos(s[1]) - std::cos(p) * std::sin(s[1]) * std::cos(s[0]));
}
EX d spec_airmas(d z) {
    d s = 1 / std::cos(std::fabs(z) > 1.52 ? 1.52 : std::fabs(z)) - 1;
    return 1 + 0.9981833 * s - 0.002875 * s * s - 0.0008083 * s * s * s;
}
