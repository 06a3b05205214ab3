#include "common.h"
EX int spec_process_year_defaults(int y) { return y < 0 || y > 99 ? y : y < 50 ? y + 2000 : y + 1900; }
static bool leap(int y) { return y % 4 == 0 && (y % 100 != 0 || y % 400 == 0); }
EX int spec_validate_gregorian_day(int y, int m, int dd) {
    int len;
    switch (m) {
        case 2: len = leap(y) ? 29 : 28; break;
        case 4: case 6: case 9: case 11: len = 30; break;
        default: len = 31;
    }
    return dd >= 1 && dd <= len ? 0 : 3;
}
EX int spec_cldj(int y, int m, int dd, d& mjd) {
    if (y < -4699) return 1;
    if (m < 1 || m > 12) return 2;
    int s = (12 - m) / 10;                 // 1 for January and February: counted with the previous year
    mjd = (1461 * (y - s + 4712)) / 4 + (306 * ((m + 9) % 12) + 5) / 10 - (3 * ((y - s + 4900) / 100)) / 4 + dd - 2399904;
    return spec_validate_gregorian_day(y, m, dd);
}
EX int spec_caldj(int y, int m, int dd, d& mjd) { return spec_cldj(spec_process_year_defaults(y), m, dd, mjd); }
EX int spec_clyd(int y, int m, int dd, int& ny, int& nd) {
    if (y < -4711) return 1;
    if (m < 1 || m > 12) return 2;
    int s = (14 - m) / 12, k = y - s;
    int j = (1461 * (k + 4800)) / 4 + (367 * (m - 2 + 12 * s)) / 12 - (3 * ((k + 4900) / 100)) / 4 + dd - 30660;
    int q = (j - 1) / 1461, l = j - 1461 * q, n = (l - 1) / 365 - l / 1461;
    int w = ((80 * (l - 365 * n + 30)) / 2447) / 11;
    nd = 59 + l - 365 * (n + w) + ((4 - n) / 4) * (1 - w);
    ny = 4 * q + n + w - 4716;
    return spec_validate_gregorian_day(y, m, dd);
}
EX int spec_calyd(int y, int m, int dd, int& ny, int& nd) { return spec_clyd(spec_process_year_defaults(y), m, dd, ny, nd); }
struct Date { int y, m, d, i; double f; };
static void civil(int jd, Date& o) {
    int n4 = 4 * (jd + ((6 * ((4 * jd - 17918) / 146097)) / 4 + 1) / 2 - 37);
    int nd10 = 10 * (((n4 - 237) % 1461) / 4) + 5;
    o.y = n4 / 1461 - 4712;
    o.m = (nd10 / 306 + 2) % 12 + 1;
    o.d = (nd10 % 306) / 10 + 1;
}
EX bool spec_djcl(d mjd, Date& o) {
    if (!(mjd > -2395520.0) || !(mjd < 1e9)) return true;
    d fr = std::fmod(mjd, 1.0);
    if (fr < 0) fr += 1;
    civil((int) std::round(std::round(mjd - fr)) + 2400001, o);
    o.f = fr;
    return false;
}
EX bool spec_djcal(int ndp, d mjd, Date& o) {
    if (!(mjd > -2395520.0) || !(mjd < 1e9)) return true;
    d fd = std::round(std::pow(10.0, ndp > 0 ? ndp : 0));
    d n = std::round(mjd * fd), fr = std::fmod(n, fd);
    if (fr < 0) fr += fd;
    civil((int) std::round((n - fr) / fd) + 2400001, o);
    o.i = (int) std::round(fr);
    return false;
}
template<class T> int af2r(int g, int m, T s, T& r) {
    r = T(AS2R) * (T(3600) * g + T(60) * m + s);
    if (g < 0 || g > 359) return 1;
    if (m < 0 || m > 59) return 2;
    return s < 0 || s >= 60 ? 3 : 0;
}
EX int spec_daf2r(int g, int m, d s, d& r) { return af2r(g, m, s, r); }
EX int spec_caf2r(int g, int m, f s, f& r) { return af2r(g, m, s, r); }
template<class T> int tf2(int h, int m, T s, T scale, T& r) {
    r = (T(3600) * h + T(60) * m + s) / T(86400) * scale;
    if (s < 0 || s >= 60) return 3;
    if (m < 0 || m > 59) return 2;
    return h < 0 || h > 23 ? 1 : 0;
}
EX int spec_dtf2d(int h, int m, d s, d& r) { return tf2(h, m, s, 1.0, r); }
EX int spec_ctf2d(int h, int m, f s, f& r) { return tf2(h, m, s, 1.0f, r); }
EX int spec_dtf2r(int h, int m, d s, d& r) { return tf2(h, m, s, TAU, r); }
EX int spec_ctf2r(int h, int m, f s, f& r) { return tf2(h, m, s, f(TAU), r); }
struct Conv { int v[4]; bool s; };
// n = |days| in units of 10^-ndp s, rounded; split by truncation
template<class T> void d2tf(int ndp, T days, Conv& o) {
    d u = 1;
    for (int i = 0; i < ndp; i++) u *= 10;
    d n = std::round(u * 86400.0 * std::fabs(days));
    d h = std::trunc(n / (3600 * u)); n -= h * 3600 * u;
    d m = std::trunc(n / (60 * u)); n -= m * 60 * u;
    d s = std::trunc(n / u); n -= s * u;
    int hi = (int) std::round(h), mi = (int) std::round(m), si = (int) std::round(s);
    o.v[0] = hi < 0 ? 0 : hi;
    o.v[1] = mi < 0 ? 0 : mi > 59 ? 59 : mi;
    o.v[2] = si < 0 ? 0 : si > 59 ? 59 : si;
    int fi = (int) std::round(n > u - 1 ? u - 1 : n);
    o.v[3] = fi < 0 ? 0 : fi;
    o.s = days >= 0;
}
EX void spec_dd2tf(int n, d x, Conv& o) { d2tf(n, x, o); }
EX void spec_cd2tf(int n, f x, Conv& o) { d2tf(n, x, o); }
EX void spec_dr2tf(int n, d x, Conv& o) { d2tf(n, x / TAU, o); }
EX void spec_cr2tf(int n, f x, Conv& o) { d2tf(n, f(x / f(TAU)), o); }
EX void spec_dr2af(int n, d x, Conv& o) { d2tf(n, 15 * x / TAU, o); }
EX void spec_cr2af(int n, f x, Conv& o) { d2tf(n, f(15 * x / f(TAU)), o); }

// IERS: date from which, constant, reference date, rate
static const d TAI[][4] = {
    {-1e300, 1.417818, 37300, 0.001296}, {37300, 1.422818, 37300, 0.001296}, {37512, 1.372818, 37300, 0.001296},
    {37665, 1.845858, 37665, 0.0011232}, {38334, 1.945858, 37665, 0.0011232}, {38395, 3.240130, 38761, 0.001296},
    {38486, 3.340130, 38761, 0.001296}, {38639, 3.440130, 38761, 0.001296}, {38761, 3.540130, 38761, 0.001296},
    {38820, 3.640130, 38761, 0.001296}, {38942, 3.740130, 38761, 0.001296}, {39004, 3.840130, 38761, 0.001296},
    {39126, 4.313170, 39126, 0.002592}, {39887, 4.213170, 39126, 0.002592},
    {41317, 10, 0, 0}, {41499, 11, 0, 0}, {41683, 12, 0, 0}, {42048, 13, 0, 0}, {42413, 14, 0, 0}, {42778, 15, 0, 0},
    {43144, 16, 0, 0}, {43509, 17, 0, 0}, {43874, 18, 0, 0}, {44239, 19, 0, 0}, {44786, 20, 0, 0}, {45151, 21, 0, 0},
    {45516, 22, 0, 0}, {46247, 23, 0, 0}, {47161, 24, 0, 0}, {47892, 25, 0, 0}, {48257, 26, 0, 0}, {48804, 27, 0, 0},
    {49169, 28, 0, 0}, {49534, 29, 0, 0}, {50083, 30, 0, 0}, {50630, 31, 0, 0}, {51179, 32, 0, 0}, {53736, 33, 0, 0},
    {54832, 34, 0, 0}, {56109, 35, 0, 0}, {57204, 36, 0, 0}, {57754, 37, 0, 0}};
EX d spec_dat(d utc) {
    d r = TAI[0][1] + (utc - TAI[0][2]) * TAI[0][3];
    for (unsigned i = 1; i < sizeof TAI / sizeof TAI[0]; i++)
        if (utc >= TAI[i][0]) r = TAI[i][1] + (utc - TAI[i][2]) * TAI[i][3];
    return r;
}
EX d spec_dtt(d utc) { return spec_dat(utc) + 32.184; }
EX d spec_dt(d e) {
    d c = (e - 1800) / 100;
    if (e < 979.0258204760233) return 1360 + 320 * c + 44.3 * c * c;
    if (e < 1708.185161980887) return 25.5 * c * c;
    return 5.156 + 13.3066 * sq(c - 0.19);
}
EX d spec_epj(d m) { return 2000 + (m - 51544.5) / 365.25; }
EX d spec_epj2d(d e) { return 51544.5 + (e - 2000) * 365.25; }
EX d spec_epb(d m) { return 1900 + (m - 15019.81352) / 365.242198781; }
EX d spec_epb2d(d e) { return 15019.81352 + (e - 1900) * 365.242198781; }
EX d spec_epco(char r, char g, d e) {
    bool rb = r == 'B' || r == 'b', rj = r == 'J' || r == 'j', gb = g == 'B' || g == 'b', gj = g == 'J' || g == 'j';
    if (!(rb || rj) || !(gb || gj)) return 0;
    if ((rb && gb) || (rj && gj)) return e;
    return rb ? spec_epb(spec_epj2d(e)) : spec_epj(spec_epb2d(e));
}
static d gm(d t) { return AS2R * 15 * (24110.54841 + 8640184.812866 * t + 0.093104 * t * t - 6.2e-6 * t * t * t); }
EX d spec_gmst(d u) { return NORM2PI(TAU * std::fmod(u, 1.0) + gm((u - 51544.5) / 36525)); }
EX d spec_gmsta(d a, d b) { return NORM2PI(TAU * (std::fmod(a, 1.0) + std::fmod(b, 1.0)) + gm((a + b - 51544.5) / 36525)); }
