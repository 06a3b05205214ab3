#include "common.h"
extern "C" void spec_nutc(d, d&, d&, d&);
extern "C" d spec_epj(d);
// ---- mount
EX void spec_altaz(const d* s, d p, d* o) {
    d sh = std::sin(s[0]), ch = std::cos(s[0]), sd = std::sin(s[1]), cd = std::cos(s[1]), sp = std::sin(p), cp = std::cos(p);
    d x = sd * cp - ch * cd * sp, y = -sh * cd, z = sd * sp + ch * cd * cp, r2 = x * x + y * y;
    d a = angle0(y, x);
    o[0] = a < 0 ? a + TAU : a;
    o[3] = std::atan2(z, std::sqrt(r2));
    d qc = cd * sp - ch * sd * cp, qs = sh * cp;
    o[6] = qs * qs + qc * qc > 0 ? std::atan2(qs, qc) : PI_ - s[0];
    if (r2 < 1e-30) r2 = 1e-30;            // keep the rates finite at the zenith
    d r = std::sqrt(r2), qv = -x * cp / r2, av = sp + z * qv, ev = cp * y / r;
    o[1] = av; o[4] = ev; o[7] = qv;
    o[2] = ev / r * (z * sp + (2 - r2) * qv);
    o[5] = -r * qv * av;
    o[8] = ev / r * (sp + 2 * z * qv);
}
// argument kept away from 0 and from the critical value crit
static d avoid(d x, d crit) {
    const d T = 1e-12;
    if (std::fabs(std::fabs(x) - crit) < T) return x >= 0 ? x - T : x + T;
    if (std::fabs(x) < T) return T;
    return x;
}
EX void spec_pdq2h(d lat, d dec, d pa, d& h1, bool& v1, d& h2, bool& v2) {
    const d T = 1e-12;
    d p = avoid(NORMPI(lat), PI_ / 2), q = avoid(NORMPI(pa), PI_), dn = NORMPI(dec);
    if (std::fabs(std::fabs(dec) - std::fabs(lat)) < T || std::fabs(std::fabs(dec) - PI_ / 2) < T) dn = dn >= 0 ? dn - T : dn + T;
    d qt = std::sin(p) * std::sin(q) * std::cos(dn);
    d qb = std::cos(p) * std::sqrt(sq(std::cos(q)) + sq(std::sin(q) * std::sin(dn)));
    if (std::fabs(qt) <= qb) {
        d h = std::asin(qt / qb), t = std::atan2(std::sin(q) * std::sin(dn), std::cos(q));
        h1 = NORMPI(h - t);
        h2 = NORMPI(-h - t - PI_);
        v1 = h1 * q >= 0;
        v2 = h2 * q >= 0;
    } else { v1 = false; v2 = false; }
}
EX void spec_pda2h(d lat, d dec, d az, d& h1, bool& v1, d& h2, bool& v2) {
    const d T = 1e-12;
    d p = avoid(NORMPI(lat), PI_ / 2), a = avoid(NORMPI(az), PI_), dn = NORMPI(dec);
    if (std::fabs(std::fabs(dn) - std::fabs(lat)) < T || std::fabs(std::fabs(dn) - PI_ / 2) < T) dn = dn >= 0 ? dn - T : dn + T;
    else if (std::fabs(dn) < T) dn = T;
    d qt = std::sin(dn) * std::sin(a) * std::cos(p);
    d qb = std::cos(dn) * std::sqrt(sq(std::cos(a)) + sq(std::sin(a) * std::sin(p)));
    if (std::fabs(qt) <= qb) {
        d h = std::asin(qt / qb), t = std::atan2(std::sin(a) * std::sin(p), -std::cos(a));
        h1 = NORMPI(h - t);
        h2 = NORMPI(-h - t - PI_);
        v1 = h1 * a <= 0;
        v2 = h2 * a <= 0;
    } else { v1 = false; v2 = false; }
}
// ---- precession, nutation, ecliptic
EX void spec_prec(d e0, d e1, d* m) {
    d T = (e0 - 2000) / 100, t = (e1 - e0) / 100;
    d w = 2306.2181 + 1.39656 * T - 0.000139 * T * T;
    d ze = (w * t + (0.30188 - 0.000344 * T) * t * t + 0.017998 * t * t * t) * AS2R;
    d z = (w * t + (1.09468 + 0.000066 * T) * t * t + 0.018203 * t * t * t) * AS2R;
    d th = ((2004.3109 - 0.85330 * T - 0.000217 * T * T) * t - (0.42665 + 0.000217 * T) * t * t - 0.041833 * t * t * t) * AS2R;
    R3(2, -ze, 1, th, 2, -z, m);
}
EX void spec_prebn(d e0, d e1, d* m) {
    d T = (e0 - 1850) / 100, t = (e1 - e0) / 100;
    d w = 2303.5548 + 1.39720 * T + 0.000059 * T * T;
    d ze = (w * t + (0.30242 - 0.000269 * T) * t * t + 0.017996 * t * t * t) * AS2R;
    d z = (w * t + (1.09478 + 0.000387 * T) * t * t + 0.018324 * t * t * t) * AS2R;
    d th = ((2005.1125 - 0.85294 * T - 0.000365 * T * T) * t - (0.42647 + 0.000365 * T) * t * t - 0.041802 * t * t * t) * AS2R;
    R3(2, -ze, 1, th, 2, -z, m);
}
// Simon et al. 1994: coefficient of t^(j+1) T^k
static d poly2(const d c[6][6], d T, d t) {
    d r = 0, tp = t;
    for (int j = 0; j < 6; j++) {
        d Tp = 1;
        for (int k = 0; k < 6 - j; k++) { r += c[j][k] * tp * Tp; Tp *= T; }
        tp *= t;
    }
    return r;
}
EX void spec_precl(d e0, d e1, d* m) {
    static const d Z1[6][6] = {{23060.9097, 139.7459, -0.0038, -0.5918, -0.0037, 0.0007}, {30.2226, -0.2523, -0.3840, -0.0014, 0.0007},
        {18.0183, -0.1326, 0.0006, 0.0005}, {-0.0583, -0.0001, 0.0007}, {-0.0285, 0}, {-0.0002}};
    static const d Z2[6][6] = {{23060.9097, 139.7459, -0.0038, -0.5918, -0.0037, 0.0007}, {109.5270, 0.2446, -1.3913, -0.0134, 0.0026},
        {18.2667, -1.1400, -0.0173, 0.0044}, {-0.2821, -0.0093, 0.0032}, {-0.0301, 0.0006}, {-0.0001}};
    static const d TH[6][6] = {{20042.0207, -85.3131, -0.2111, 0.3642, 0.0008, -0.0005}, {-42.6566, -0.2111, 0.5463, 0.0017, -0.0012},
        {-41.8238, 0.0359, 0.0027, -0.0001}, {-0.0731, 0.0019, 0.0009}, {-0.0127, 0.0011}, {0.0004}};
    d T = (e0 - 2000) / 1000, t = (e1 - e0) / 1000;
    R3(2, -poly2(Z1, T, t) * AS2R, 1, poly2(TH, T, t) * AS2R, 2, -poly2(Z2, T, t) * AS2R, m);
}
EX void spec_ecmat(d date, d* m) {
    d t = (date - 51544.5) / 36525;
    RK(0, AS2R * (84381.448 - 46.8150 * t - 0.00059 * t * t + 0.001813 * t * t * t), m);
}
EX void spec_nut(d t, d* m) {
    d psi, eps, e0;
    spec_nutc(t, psi, eps, e0);
    R3(0, e0, 2, -psi, 0, -(e0 + eps), m);
}
EX void spec_prenut(d e, d t, d* m) {
    d p[9], n[9];
    spec_prec(e, spec_epj(t), p);
    spec_nut(t, n);
    MM(n, p, m);
}
EX d spec_eqeqx(d date) {
    d t = (date - 51544.5) / 36525;
    d om = AS2R * (450160.280 - (5 * 1296000.0 + 482890.539) * t + 7.455 * t * t + 0.008 * t * t * t);
    d psi, eps, e0;
    spec_nutc(date, psi, eps, e0);
    return psi * std::cos(e0) + AS2R * (0.00264 * std::sin(om) + 0.000063 * std::sin(2 * om));
}
EX void spec_preces(int sys, d e0, d e1, d* s) {
    if (sys != 4 && sys != 5) { s[0] = -99; s[1] = -99; return; }
    d m[9], v[3], w[3];
    if (sys == 4) spec_prebn(e0, e1, m); else spec_prec(e0, e1, m);
    S2C(s[0], s[1], v);
    MV(m, v, w);
    C2S(w, s);
    s[0] = NORM2PI(s[0]);
}
// ---- E-terms, proper motion
EX void spec_etrms(d be, d* e) {
    d t = (be - 1950) * 1.00002135903e-2;
    d ec = 0.01673011 - 0.00004193 * t - 0.000000126 * t * t;
    d ob = (84404.836 - 46.8495 * t - 0.00319 * t * t - 0.00181 * t * t * t) * AS2R;
    d pl = (1015489.951 + 6190.67 * t + 1.65 * t * t + 0.012 * t * t * t) * AS2R;
    d k = ec * 20.49552 * AS2R;
    e[0] = k * std::sin(pl);
    e[1] = -k * std::cos(pl) * std::cos(ob);
    e[2] = -k * std::cos(pl) * std::sin(ob);
}
EX void spec_addet(const d* s, d be, d* o) {
    d e[3], v[3];
    spec_etrms(be, e);
    S2C(s[0], s[1], v);
    for (int i = 0; i < 3; i++) v[i] += e[i];
    C2S(v, o);
    o[0] = NORM2PI(o[0]);
}
EX void spec_subet(const d* s, d be, d* o) {
    d e[3], v[3], w[3];
    spec_etrms(be, e);
    S2C(s[0], s[1], v);
    for (int i = 0; i < 3; i++) w[i] = v[i] + DOT(v, e) * v[i] - e[i];
    C2S(w, o);
    o[0] = NORM2PI(o[0]);
}
EX void spec_pm(const d* s, const d* m, d px, d rv, d e0, d e1, d* o) {
    const d VF = 365.25 * 86400 / 149597870.0 * 4.8481368111e-6;
    d v[3], w[3], t = e1 - e0, a = s[0], b = s[1];
    S2C(a, b, v);
    d E[3] = {-std::sin(a) * std::cos(b), std::cos(a) * std::cos(b), 0};            // d v / d ra
    d N[3] = {-std::cos(a) * std::sin(b), -std::sin(a) * std::sin(b), std::cos(b)}; // d v / d dec
    for (int i = 0; i < 3; i++) w[i] = v[i] + t * (m[0] * E[i] + m[1] * N[i] + VF * rv * px * v[i]);
    C2S(w, o);
    o[0] = NORM2PI(o[0]);
}
// ---- frames
static const d GAL[9] = {-0.054875539726, -0.873437108010, -0.483834985808, 0.494109453312, -0.444829589425, 0.746982251810,
                         -0.867666135858, -0.198076386122, 0.455983795705};
static const d SGAL[9] = {-0.735742574804, 0.677261296414, 0, -0.074553778365, -0.080991471307, 0.993922590400,
                          0.673145302109, 0.731271165817, 0.110081262225};
static const d GAL50[9] = {-0.066988739415, -0.872755765852, -0.483538914632, 0.492728466075, -0.450346958020, 0.744584633283,
                           -0.867600811151, -0.188374601723, 0.460199784784};
static void turn(const d* m, bool fwd, const d* s, d* o) {
    d v[3], w[3];
    S2C(s[0], s[1], v);
    if (fwd) MV(m, v, w); else TV(m, v, w);
    C2S(w, o);
    o[0] = NORM2PI(o[0]);
    o[1] = NORMPI(o[1]);
}
EX void spec_eqgal(const d* s, d* o) { turn(GAL, true, s, o); }
EX void spec_galeq(const d* s, d* o) { turn(GAL, false, s, o); }
EX void spec_galsup(const d* s, d* o) { turn(SGAL, true, s, o); }
EX void spec_supgal(const d* s, d* o) { turn(SGAL, false, s, o); }
EX void spec_eg50(const d* s, d* o) {
    d t[2];
    spec_subet(s, 1950, t);
    turn(GAL50, true, t, o);
}
EX void spec_ge50(const d* s, d* o) {
    d v[3], w[3], t[2];
    S2C(s[0], s[1], v);
    TV(GAL50, v, w);
    C2S(w, t);
    spec_addet(t, 1950, o);
    o[0] = NORM2PI(o[0]);
    o[1] = NORMPI(o[1]);
}
EX void spec_eqecl(const d* s, d date, d* o) {
    d v[3], p[9], e[9];
    S2C(s[0], s[1], v);
    spec_prec(2000, spec_epj(date), p);
    spec_ecmat(date, e);
    MV(p, v, v); MV(e, v, v);
    C2S(v, o);
    o[0] = NORM2PI(o[0]);
    o[1] = NORMPI(o[1]);
}
EX void spec_ecleq(const d* s, d date, d* o) {
    d v[3], p[9], e[9];
    S2C(s[0], s[1], v);
    spec_prec(2000, spec_epj(date), p);
    spec_ecmat(date, e);
    TV(e, v, v); TV(p, v, v);
    C2S(v, o);
    o[0] = NORM2PI(o[0]);
    o[1] = NORMPI(o[1]);
}
// ---- radial velocities
static f proj(f x, f y, f z, const f* s) { f v[3]; S2C(s[0], s[1], v); return x * v[0] + y * v[1] + z * v[2]; }
EX f spec_rvgalc(const f* s) { return proj(-108.70408f, 97.86251f, -164.33610f, s); }
EX f spec_rvlg(const f* s) { return proj(-148.23284f, 133.44888f, -224.09467f, s); }
EX f spec_rvlsrd(const f* s) { return proj(0.63823f, 14.58542f, -7.80116f, s); }
EX f spec_rvlsrk(const f* s) { return proj(-0.29000f, 17.31726f, -10.00141f, s); }
EX f spec_rverot(f phi, const f* s, f st) { return 0.4655f * std::cos(phi) * std::cos(s[1]) * std::sin(st - s[0]); }
// ---- observer
EX void spec_geoc(d p, d h, d& r, d& z) {
    const d A = 6378140, B = sq(1 - 1 / 298.257), AU = 1.49597870e11;
    d c = 1 / std::sqrt(sq(std::cos(p)) + B * sq(std::sin(p)));
    r = (A * c + h) * std::cos(p) / AU;
    z = (A * B * c + h) * std::sin(p) / AU;
}
EX void spec_pvobs(d p, d h, d st, d* o) {
    d r, z;
    spec_geoc(p, h, r, z);
    const d W = 7.292115855306589e-5;
    o[0] = r * std::cos(st); o[1] = r * std::sin(st); o[2] = z;
    o[3] = -W * o[1]; o[4] = W * o[0]; o[5] = 0;
}
EX void spec_polmo(d l, d p, d x, d y, d& tl, d& tp, d& az) {
    d v[3], X[9], Y[9], M[9], w[3], nm[3], n[3] = {0, 0, 1};
    S2C(l, p, v);
    RK(0, y, Y);                 // about x by yp, then about y by xp
    RK(1, x, X);
    MM(X, Y, M);
    MV(M, v, w);
    TV(M, n, nm);                // see below: terrestrial pole in the mean frame
    // mean pole in the true frame
    d q[3]; MV(M, n, q);
    d c = std::sqrt(w[0] * w[0] + w[1] * w[1]);
    d sl = 0, cl = 1;
    if (!(w[0] == 0 && w[1] == 0)) { sl = w[1] / c; cl = w[0] / c; }
    tl = angle0(w[1], w[0]);
    tp = std::atan2(w[2], c);
    d xn = (q[0] * cl + q[1] * sl) * w[2] - q[2] * c;
    d yn = -q[0] * sl + q[1] * cl;
    az = angle0(-yn, -xn);
}
// ---- refraction
static d ri(d w, d a, d b, d c) { d s = w * w; return a + b / s + c / (s * s); }
EX void spec_refcoq(d t, d p, d r, d wl, d& A, d& B) {
    bool opt = wl <= 100;
    t = CLAMP(t, 100.0, 500.0); p = CLAMP(p, 0.0, 10000.0); r = CLAMP(r, 0.0, 1.0);
    d w = CLAMP(wl, 0.1, 1e6), pw = 0;
    if (p > 0) {
        d c = t - 273.15;
        d ps = std::pow(10.0, (0.7859 + 0.03477 * c) / (1 + 0.00412 * c)) * (1 + p * (4.5e-6 + 6e-10 * c * c));
        pw = r * ps / (1 - (1 - r) * ps / p);
    }
    d g, b = 4.4474e-6 * t;
    if (opt) g = (ri(w, 77.53484e-6, 4.39108e-7, 3.666e-9) * p - 11.2684e-6 * pw) / t;
    else { g = (77.6890e-6 * p - (6.3938e-6 - 0.375463 / t) * pw) / t; b = b - 0.0074 * pw * b; }
    A = g * (1 - b);
    B = -g * (b - g / 2);
}
EX void spec_atmdsp(d t, d p, d r, d w1, d a1, d b1, d w2, d& a2, d& b2) {
    if (w1 > 100 || w2 > 100) { a2 = a1; b2 = b1; return; }
    t = CLAMP(t, 100.0, 500.0); p = CLAMP(p, 0.0, 10000.0); r = CLAMP(r, 0.0, 1.0);
    d pw = r * std::pow(10.0, -8.7115 + 0.03477 * t);
    w1 = w1 < 0.1 ? 0.1 : w1; w2 = w2 < 0.1 ? 0.1 : w2;
    d n1 = (ri(w1, 77.5317e-6, 0.43909e-6, 0.00367e-6) * p - 11.2684e-6 * pw) / t;
    d n2 = (ri(w2, 77.5317e-6, 0.43909e-6, 0.00367e-6) * p - 11.2684e-6 * pw) / t;
    if (n1 == 0) { a2 = a1; b2 = b1; return; }
    a2 = a1 * n2 / n1;
    b2 = b1 * n2 / n1;
    if (n1 != a1) b2 = b2 * (1 + n1 * (n1 - n2) / (2 * (n1 - a1)));
}
EX void spec_refv(const d* v, d A, d B, d* o) {
    d x = v[0], y = v[1], zt = v[2], z = zt < 0.05 ? 0.05 : zt;
    d z2 = z * z, r2 = x * x + y * y, r = std::sqrt(r2), wb = B * r2 / z2;
    d wt = (A + wb) / (1 + (A + 3 * wb) * (z2 + r2) / z2);
    d q = wt * r / z, c = 1 - q * q / 2, k = c * (1 - wt);
    o[0] = x * k; o[1] = y * k;
    o[2] = c * (z + q * r) + (zt - z);
}
EX d spec_refz(d zu, d A, d B) {
    const d R2D = 57.29577951308232, L = 83 / R2D;
    const d c1 = 0.55445, c2 = -0.01133, c3 = 0.00202, c4 = 0.28385, c5 = 0.02390;
    d z1 = zu < L ? zu : L;
    d t = std::sin(z1) / std::cos(z1);
    d zl = z1 - (A * t + B * t * t * t) / (1 + (A + 3 * B * t * t) / sq(std::cos(z1)));
    t = std::sin(zl) / std::cos(zl);
    d ref = z1 - zl + (zl - z1 + A * t + B * t * t * t) / (1 + (A + 3 * B * t * t) / sq(std::cos(zl)));
    if (zu > L) {
        d e = 90 - (zu * R2D < 93 ? zu * R2D : 93.0);
        ref = ref / ((c1 + c2 * 7 + c3 * 49) / (1 + c4 * 7 + c5 * 49)) * (c1 + c2 * e + c3 * e * e) / (1 + c4 * e + c5 * e * e);
    }
    return zu - ref;
}
