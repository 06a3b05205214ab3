#include "common.h"
#include "tables.h"
#define DEG 0.0174532925199432957692369
extern "C" void spec_prec(d, d, d*);
extern "C" d spec_epj(d);
static d cube(d a, d b, d c, d e, d t) { return a + b * t + c * t * t + e * t * t * t; }
static d TURN(d x) { return std::fmod(x, 1296000.0) * AS2R; }
// ---- nutation: Shirai & Fukushima 2001
EX void spec_nutc(d tdb, d& psi, d& eps, d& e0) {
    d t = (tdb - 51544.5) / 36525, t2 = t * t, t3 = t2 * t, t4 = t2 * t2;
    d a[9] = {134.96340251 * DEG + TURN(1717915923.2178 * t + 31.8792 * t2 + 0.051635 * t3 - 0.00024470 * t4),
              357.52910918 * DEG + TURN(129596581.0481 * t - 0.5532 * t2 + 0.000136 * t3 - 0.00001149 * t4),
              93.27209062 * DEG + TURN(1739527262.8478 * t - 12.7512 * t2 - 0.001037 * t3 + 0.00000417 * t4),
              297.85019547 * DEG + TURN(1602961601.209 * t - 6.3706 * t2 + 0.006539 * t3 - 0.00003169 * t4),
              125.04455501 * DEG + TURN(-6962890.5431 * t + 7.4722 * t2 + 0.007702 * t3 - 0.00005939 * t4),
              181.97980085 * DEG + TURN(210664136.433548 * t), 355.43299958 * DEG + TURN(68905077.493988 * t),
              34.35151874 * DEG + TURN(10925660.377991 * t), 50.07744430 * DEG + TURN(4399609.855732 * t)};
    d p = -153.1 * std::sin(a[1]) - 1.9 * std::sin(2 * a[1]), e = 0;
    for (int i = 0; i < NUM_TERMS; i++) {
        d th = 0;
        for (int k = 0; k < 9; k++) th += nutc_fa_coef[i][k] * a[k];
        const d *P = nutc_l_psi[i], *E = nutc_o_eps[i];
        d c = std::cos(th), s = std::sin(th);
        p += (P[0] + P[2] * t) * c + (P[1] + P[3] * t) * s;
        e += (E[0] + E[2] * t) * c + (E[1] + E[3] * t) * s;
    }
    // fixed offsets of the precession model, from mas to radians
    psi = (p * 1e-6 - 0.042888 - 0.29856 * t) * AS2R;
    eps = (e * 1e-6 - 0.005171 - 0.02408 * t) * AS2R;
    e0 = (84381.412 - 46.80927 * t - 0.000152 * t2 + 0.0019989 * t3 - 0.00000051 * t4 - 0.000000025 * t4 * t) * AS2R;
}
// ---- nutation: IAU 1980
EX void spec_nutc80(d tdb, d& psi, d& eps, d& e0) {
    d t = (tdb - 51544.5) / 36525;
    const d T = 1296000;
    d a[5] = {NORMPI(AS2R * cube(485866.733, 1325 * T + 715922.633, 31.310, 0.064, t)),
              NORMPI(AS2R * cube(1287099.804, 99 * T + 1292581.224, -0.577, -0.012, t)),
              NORMPI(AS2R * cube(335778.877, 1342 * T + 295263.137, -13.257, 0.011, t)),
              NORMPI(AS2R * cube(1072261.307, 1236 * T + 1105601.328, -6.891, 0.019, t)),
              NORMPI(AS2R * cube(450160.280, -5 * T - 482890.539, 7.455, 0.008, t))};
    d p = 0, e = 0;
    for (int i = 0; i < 106; i++) {
        const d* R = nutc80_T[i];
        d th = R[0] * a[0] + R[1] * a[1] + R[2] * a[2] + R[3] * a[3] + R[4] * a[4];
        p += (R[5] + R[6] * t) * std::sin(th);
        e += (R[7] + R[8] * t) * std::cos(th);
    }
    psi = p * AS2R / 1e4; eps = e * AS2R / 1e4;
    e0 = AS2R * cube(84381.448, -46.8150, -0.00059, 0.001813, t);
}
// ---- TDB - TT: Fairhead & Bretagnon
EX d spec_rcc(d tdb, d ut1, d wl, d u, d v) {
    d t = (tdb - 51544.5) / 365250, ts = std::fmod(ut1, 1.0) * TAU - wl, w = t / 3600;
    d es = std::fmod(280.46645683 + 1296027711.03429 * w, 360.0) * DEG, em = std::fmod(357.52910918 + 1295965810.481 * w, 360.0) * DEG;
    d mo = std::fmod(297.85019547 + 16029616012.09 * w, 360.0) * DEG, ju = std::fmod(34.35151874 + 109306899.89453 * w, 360.0) * DEG;
    d sa = std::fmod(50.0774443 + 44046398.47038 * w, 360.0) * DEG;
    d topo = u * (3.17679e-10 * std::sin(ts) - 0.13677e-10 * std::sin(ts + 2 * es) + 0.05312e-10 * std::sin(ts - em)
                  - 0.00229e-10 * std::sin(ts + 2 * es + em) + 0.00133e-10 * std::sin(ts + es - ju) + 0.00133e-10 * std::sin(ts - mo)
                  + 0.00100e-10 * std::sin(ts - 2 * em) + 0.00029e-10 * std::sin(ts + es - sa))
           - v * (1.31840e-10 * std::cos(es) + 0.02200e-10 * std::cos(es + em));
    static const int first[6] = {0, 474, 679, 764, 784, 787};
    d fair = 0, tp = 1;
    for (int k = 0; k < 5; k++) {
        d s = 0;
        for (int i = first[k]; i < first[k + 1]; i++) s += rcc_fb_coeffs[i][0] * std::sin(rcc_fb_coeffs[i][1] * t + rcc_fb_coeffs[i][2]);
        fair += tp * s;
        tp *= t;
    }
    d mass = 0.00065e-6 * std::sin(6069.776754 * t + 4.021194) + 0.00033e-6 * std::sin(213.299095 * t + 5.543132)
             - 0.00196e-6 * std::sin(6208.294251 * t + 5.696701) - 0.00173e-6 * std::sin(74.781599 * t + 2.435900) + 0.03638e-6 * t * t;
    return topo + fair + mass;
}
// ---- Earth: VSOP2000 series; velocity is the exact derivative of position
template<int N> static void sum(const d (*T)[N][3], int j, int n, int k, d t, d& p, d& v) {
    for (int i = 0; i < n; i++) {
        d a = T[j][i][0], ph = T[j][i][1] + T[j][i][2] * t, c = std::cos(ph), s = std::sin(ph);
        d tk = k == 0 ? 1 : k == 1 ? t : t * t, dk = k == 0 ? 0 : k == 1 ? 1 : 2 * t;
        p += a * tk * c;
        v += a * (dk * c - tk * T[j][i][2] * s);
    }
}
EX void spec_epv(d date, d* hp, d* hv, d* bp, d* bv) {
    d t = (date - 51544.5) / 365.25, q[4][3];
    for (int j = 0; j < 3; j++) {
        d p = 0, v = 0;
        sum(epv_E0, j, epv_NE0[j], 0, t, p, v); sum(epv_E1, j, epv_NE1[j], 1, t, p, v); sum(epv_E2, j, epv_NE2[j], 2, t, p, v);
        q[0][j] = p; q[1][j] = v / 365.25;
        sum(epv_S0, j, epv_NS0[j], 0, t, p, v); sum(epv_S1, j, epv_NS1[j], 1, t, p, v); sum(epv_S2, j, epv_NS2[j], 2, t, p, v);
        q[2][j] = p; q[3][j] = v / 365.25;
    }
    static const d M[9] = {1, 0.000000211284, -0.000000091603, -0.000000230286, 0.917482137087, -0.397776982902, 0, 0.397776982902, 0.917482137087};
    MV(M, q[0], hp); MV(M, q[1], hv); MV(M, q[2], bp); MV(M, q[3], bv);
}
// ---- Earth and Moon, low precision
static f yearfrac(int iy, int id, f fd) {
    int y4 = ((iy % 4) + 4) % 4;
    return ((f) (4 * (id - 1 / (y4 + 1)) - y4 - 2) + 4.0f * fd) / 1461.0f;
}
EX void spec_earth(int iy, int id, f fd, f* o) {
    const f T = 6.28318530718f, V = 1.9913e-7f, R = 3.12e-5f, S = 8.31e-11f;
    f yf = yearfrac(iy, id, fd), t = (f) (iy - 1900) + yf;
    f ml = std::fmod(4.881628f + T * yf + 0.00013420f * t, T), g = 4.908230f + 3.0005e-4f * t, m = ml - g;
    f ep = 0.40931975f - 2.27e-6f * t, e = 0.016751f - 4.2e-7f * t;
    f v = m + 2 * e * std::sin(m) + 1.25f * e * e * std::sin(2 * m), l = v + g;
    f r = (1 - e * e) / (1 + e * std::cos(v)), mm = std::fmod(4.72f + 83.9971f * t, T);
    f x = -r * std::cos(l), y = -r * std::sin(l);
    f vx = V * (std::sin(l) + e * std::sin(g)), vy = -V * (std::cos(l) + e * std::cos(g));
    o[0] = x - R * std::cos(mm);
    o[1] = (y - R * std::sin(mm)) * std::cos(ep);
    o[2] = y * std::sin(ep);
    o[3] = vx + S * std::sin(mm);
    o[4] = (vy - S * std::cos(mm)) * std::cos(ep);
    o[5] = vy * std::sin(ep);
}
struct sphf { f a, b; };
EX void spec_ecor(sphf s, int iy, int id, f fd, f& rv, f& tl) {
    f p[6], v[3];
    spec_earth(iy, id, fd, p);
    S2C(s.a, s.b, v);
    rv = -1.4959787066e8f * (p[3] * v[0] + p[4] * v[1] + p[5] * v[2]);
    tl = 499.0047837f * (p[0] * v[0] + p[1] * v[1] + p[2] * v[2]);
}
EX void spec_moon(int iy, int id, f fd, f* o) {
    const f D = 1.745329252e-2f, K = 9.652743551e-12f;
    f yf = yearfrac(iy, id, fd), t = (f) (iy - 1900) + yf;
    f lp = D * std::fmod(270.434164f + 4680.0f * yf + 132.678831f * t, 360.0f);
    f a[4] = {D * std::fmod(358.475833f + 359.990498f * t, 360.0f), D * std::fmod(296.104608f + 4680.0f * yf + 91.988491f * t, 360.0f),
              D * std::fmod(350.737486f + 4320.0f * yf + 132.671142f * t, 360.0f), D * std::fmod(11.250889f + 4680.0f * yf + 152.020251f * t, 360.0f)};
    const f w[4] = {359.990498f, 4771.988491f, 4452.671142f, 4832.020251f};
    f s[3] = {0, 0, 0.950724f}, r[3] = {0, 0, 0};
    for (int q = 0; q < 3; q++) {
        int n = q == 0 ? 39 : q == 1 ? 29 : 4;
        for (int i = 0; i < n; i++) {
            f c = q == 0 ? moon_TL[i] : q == 1 ? moon_TB[i] : moon_TP[i], th = 0, td = 0;
            for (int k = 0; k < 4; k++) {
                f m = q == 0 ? moon_ITL[i][k] : q == 1 ? moon_ITB[i][k] : moon_ITP[i][k];
                th += m * a[k]; td += m * w[k];
            }
            if (q < 2) { s[q] += c * std::sin(th); r[q] += c * std::cos(th) * td; }
            else { s[q] += c * std::cos(th); r[q] -= c * std::sin(th) * td; }
        }
    }
    f l = lp + D * s[0], ld = K * (r[0] + 4812.678831f / D), b = D * s[1], bd = K * r[1], p = D * s[2], pd = K * r[2];
    f R = 4.2635212653763e-5f / std::sin(p), Rd = -R * pd / std::sin(p);
    f cl = std::cos(l), sl = std::sin(l), cb = std::cos(b), sb = std::sin(b);
    f x[3] = {R * cb * cl, R * cb * sl, R * sb};
    f v[3] = {Rd * cb * cl - R * (bd * sb * cl + ld * cb * sl), Rd * cb * sl - R * (bd * sb * sl - ld * cb * cl), Rd * sb + R * bd * cb};
    f ep = D * (23.45229f - 0.00013f * t), ce = std::cos(ep), se = std::sin(ep);
    o[0] = x[0]; o[1] = x[1] * ce - x[2] * se; o[2] = x[1] * se + x[2] * ce;
    o[3] = v[0]; o[4] = v[1] * ce - v[2] * se; o[5] = v[1] * se + v[2] * ce;
}
// ---- Moon (Meeus); rates are exact derivatives
static void arg(const d c[4], d t, d& a, d& ad) { a = DEG * std::fmod(cube(c[0], c[1], c[2], c[3], t), 360.0); ad = DEG * (c[1] + 2 * c[2] * t + 3 * c[3] * t * t); }
EX void spec_dmoon(d date, d* o) {
    static const d C[6][4] = {{270.434164, 481267.8831, -0.001133, 0.0000019}, {358.475833, 35999.0498, -0.000150, -0.0000033},
        {296.104608, 477198.8491, 0.009192, 0.0000144}, {350.737486, 445267.1142, -0.001436, 0.0000019},
        {11.250889, 483202.0251, -0.003211, -0.0000003}, {259.183275, -1934.1420, 0.002078, 0.0000022}};
    d t = (date - 15019.5) / 36525, a[6], ad[6];
    for (int k = 0; k < 6; k++) arg(C[k], t, a[k], ad[k]);
    d om = a[5], omd = ad[5];
    d A = DEG * (51.2 + 20.2 * t), B = DEG * (346.560 + 132.870 * t - 0.0091731 * t * t), W = om + DEG * (275.05 - 2.30 * t);
    d Ad = DEG * 20.2, Bd = DEG * (132.870 - 2 * 0.0091731 * t), Wd = omd - DEG * 2.30;
    d wa = std::sin(A), wad = Ad * std::cos(A), wb = 0.003964 * std::sin(B), wbd = 0.003964 * Bd * std::cos(B);
    a[0] += DEG * (0.000233 * wa + wb + 0.001964 * std::sin(om)); ad[0] += DEG * (0.000233 * wad + wbd + 0.001964 * omd * std::cos(om));
    a[1] += DEG * -0.001778 * wa; ad[1] += DEG * -0.001778 * wad;
    a[2] += DEG * (0.000817 * wa + wb + 0.002541 * std::sin(om)); ad[2] += DEG * (0.000817 * wad + wbd + 0.002541 * omd * std::cos(om));
    a[3] += DEG * (0.002011 * wa + wb + 0.001964 * std::sin(om)); ad[3] += DEG * (0.002011 * wad + wbd + 0.001964 * omd * std::cos(om));
    a[4] += DEG * (wb - 0.024691 * std::sin(om) - 0.004328 * std::sin(W));
    ad[4] += DEG * (wbd - 0.024691 * omd * std::cos(om) - 0.004328 * Wd * std::cos(W));
    d e = 1 - 0.002495 * t - 0.00000752 * t * t, ed = -0.002495 - 2 * 0.00000752 * t, s[3], r[3];
    for (int q = 0; q < 3; q++) {
        int n = q == 0 ? NL : q == 1 ? NB : NP;
        s[q] = 0; r[q] = 0;
        for (int i = 0; i < n; i++) {
            const signed char* I = q == 0 ? dmoon_ITL[i] : q == 1 ? dmoon_ITB[i] : dmoon_ITP[i];
            d c = q == 0 ? dmoon_TL[i] : q == 1 ? dmoon_TB[i] : dmoon_TP[i], th = 0, td = 0;
            for (int k = 0; k < 4; k++) { th += I[k] * a[k + 1]; td += I[k] * ad[k + 1]; }
            d en = I[4] == 0 ? 1 : I[4] == 1 ? e : e * e, end = I[4] == 0 ? 0 : I[4] == 1 ? ed : 2 * e * ed;
            d fn = q < 2 ? std::sin(th) : std::cos(th), fd = q < 2 ? std::cos(th) : -std::sin(th);
            s[q] += c * en * fn;
            r[q] += c * (end * fn + en * fd * td);
        }
    }
    const d JC = 3155760000.0;
    d l = a[0] + DEG * s[0], ld = (ad[0] + DEG * r[0]) / JC;
    d bf = 1 - 0.0004664 * std::cos(om) - 0.0000754 * std::cos(W), bfd = 0.0004664 * omd * std::sin(om) + 0.0000754 * Wd * std::sin(W);
    d b = DEG * s[1] * bf, bd = DEG * (r[1] * bf + s[1] * bfd) / JC, p = DEG * s[2], pd = DEG * r[2] / JC;
    d R = 4.2635212653763e-5 / std::sin(p), Rd = -R * pd * std::cos(p) / std::sin(p);
    d cl = std::cos(l), sl = std::sin(l), cb = std::cos(b), sb = std::sin(b);
    d x[3] = {R * cb * cl, R * cb * sl, R * sb};
    d v[3] = {Rd * cb * cl - R * (bd * sb * cl + ld * cb * sl), Rd * cb * sl - R * (bd * sb * sl - ld * cb * cl), Rd * sb + R * bd * cb};
    d T = (date - 51544.5) / 36525, q = 7.272205216643039903848712e-5 * (0.035 + 0.00085 * (2000 + 100 * T - 1949.9997904423));
    d ep = AS2R * cube(84381.448, -46.8150, -0.00059, 0.001813, T), ce = std::cos(ep), se = std::sin(ep);
    const d* in[2] = {x, v};
    for (int k = 0; k < 2; k++) {
        const d* u = in[k];
        d* w = o + 3 * k;
        w[0] = u[0] - q * ce * u[1] + q * se * u[2];
        w[1] = q * u[0] + ce * u[1] - se * u[2];
        w[2] = se * u[1] + ce * u[2];
    }
}
// ---- Earth: Stumpff 1980 (mixed precision, as published)
EX void spec_evp(d date, d deqx, d* bv, d* bp, d* hv, d* hp) {
    const d C = 6.2831853071796;
    const f c = 6.283185f;
    d t = (date - 15019.5) / 36525, ml = 0;
    f T = (f) t, T2 = (f) (t * t), F[7], S[17], sn[4];
    for (int k = 0; k < 8; k++) {
        d x = std::fmod(evp_DCFEL[k][0] + evp_DCFEL[k][1] * t + evp_DCFEL[k][2] * t * t, C);
        if (k == 0) ml = x; else F[k - 1] = (f) x;
    }
    d ep = std::fmod(evp_DCEPS[0] + evp_DCEPS[1] * t + evp_DCEPS[2] * t * t, C);
    for (int k = 0; k < 17; k++) S[k] = std::fmod(evp_CCSEL[k][0] + evp_CCSEL[k][1] * T + evp_CCSEL[k][2] * T2, c);
    for (int k = 0; k < 4; k++) sn[k] = std::sin(std::fmod(evp_CCSEC[k][1] + evp_CCSEC[k][2] * T, c));
    f l = (evp_CCSEC[2][0] - 7.757020e-08f * T) * sn[2], ld = 0, r = 0, rd = 0;
    for (int k = 0; k < 4; k++) if (k != 2) l += evp_CCSEC[k][0] * sn[k];
    for (int k = 0; k < 15; k++) {
        f a = (f) std::fmod(evp_DCARGS[k][0] + evp_DCARGS[k][1] * t, C), ca = std::cos(a), sa = std::sin(a);
        const f* A = evp_CCAMPS[k];
        l += A[0] * ca + A[1] * sa; r += A[2] * ca + A[3] * sa;
        ld += (A[1] * ca - A[0] * sa) * A[4]; rd += (A[3] * ca - A[2] * sa) * A[4];      // rate amplitudes vanish beyond the tenth
    }
    f e = S[0], g = F[0], e2 = e * e;
    f phi = 2 * e * ((1 - e2 * 0.125f) * std::sin(g) + e * 0.625f * std::sin(2 * g) + e2 * 0.54166667f * std::sin(3 * g));
    f fv = g + phi, sf = std::sin(fv), cf = std::cos(fv);
    d psi = (1 - (d) e2) / (1 + (d) (e * cf));
    f phid = 2 * e * 1.990969e-07f * ((1 + e2 * 1.5f) * cf + e * (1.25f - sf * sf * 0.5f));
    f psid = 1.990969e-07f * e * sf / std::sqrt((f) (1 - (d) e2));
    d dd = 1 + (d) r, drd = dd * ((d) psid + psi * (d) rd), drl = dd * psi * (1.990987e-07 + (d) phid + (d) ld);
    d L = std::fmod(ml + (d) phi + (d) l, C), sL = std::sin(L), cL = std::cos(L);
    d vh[3] = {drd * cL - drl * sL, drd * sL + drl * cL, 0};
    f ml2 = 0, mld = 0, mp = 0, mpd = 0;
    for (int k = 0; k < 3; k++) {
        f a = (f) std::fmod(evp_DCARGM[k][0] + evp_DCARGM[k][1] * t, C), ca = std::cos(a), sa = std::sin(a);
        const f* A = evp_CCAMPM[k];
        ml2 += A[0] * sa; mld += A[1] * ca; mp += A[2] * ca; mpd -= A[3] * sa;
    }
    f tl = F[1] + ml2, sm = std::sin(tl), cm = std::cos(tl), sg = 3.122140e-05f / (1 + mp);
    f a = sg * (2.661699e-06f + mld), b = sg * mpd;
    vh[0] += (d) (a * sm + b * cm); vh[1] += (d) (b * sm - a * cm); vh[2] = -(d) (sg * 2.399485e-07f * std::cos(F[2]));
    const d Q = 0.99999696;
    d vb[3] = {vh[0] * Q, vh[1] * Q, vh[2] * Q};
    f fl = 8.978749e-2f * std::sin(F[2]), sl[4], cl[4];
    d xh[3] = {psi * dd * cL - (d) (sg * std::cos(fl) * cm), psi * dd * sL - (d) (sg * std::cos(fl) * sm), -(d) (sg * std::sin(fl))};
    d xb[3] = {xh[0] * Q, xh[1] * Q, xh[2] * Q};
    for (int k = 0; k < 4; k++) {
        f lo = F[k + 3], om = S[k + 1], no = S[k + 5], ec = S[k + 9], in = S[k + 13];
        f tt = std::fmod(lo + 2 * ec * std::sin(lo - om), c);
        sl[k] = std::sin(tt); cl[k] = std::cos(tt);
        vb[0] += (d) (evp_CCPAMV[k] * (sl[k] + ec * std::sin(om)));
        vb[1] -= (d) (evp_CCPAMV[k] * (cl[k] + ec * std::cos(om)));
        vb[2] -= (d) (evp_CCPAMV[k] * in * std::cos(lo - no));
        f la = in * std::sin(lo - no), R = evp_CCPAM[k] * (1 - ec * std::cos(lo - om));
        xb[0] -= (d) (R * std::cos(la) * cl[k]);
        xb[1] -= (d) (R * std::cos(la) * sl[k]);
        xb[2] -= (d) (R * std::sin(la));
    }
    d ce = std::cos(ep), se = std::sin(ep), ej = spec_epj(date), q = 0.7272205216643e-4 * (0.035 + 0.00085 * (ej - 1949.9997904423));
    d* out[4] = {hv, bv, hp, bp};
    const d* in[4] = {vh, vb, xh, xb};
    d M[9];
    if (deqx > 0) spec_prec(ej, deqx, M);
    for (int k = 0; k < 4; k++) {
        const d* u = in[k];
        d y = ce * u[1] - se * u[2], z = se * u[1] + ce * u[2], w[3] = {u[0] - q * y, y + q * u[0], z};
        if (deqx > 0) MV(M, w, out[k]);
        else for (int i = 0; i < 3; i++) out[k][i] = w[i];
    }
}
