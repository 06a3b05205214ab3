#include "common.h"
#include "obs.h"
struct Obs { const char *id, *name; d lo, la, h; };
EX bool spec_obs(int n, const char* id, Obs& o) {
    int k = -1;
    if (n >= 0) { if (n < 85) k = n; }
    else if (id != nullptr)
        for (int i = 0; i < 85 && k < 0; i++) if (std::strncmp(id, SITES[i].id, std::strlen(id)) == 0) k = i;
    if (k < 0) { o.id = "?"; o.name = "?"; o.lo = 0; o.la = 0; o.h = 0; return false; }
    o.id = SITES[k].id; o.name = SITES[k].name; o.lo = SITES[k].lo; o.la = SITES[k].la; o.h = SITES[k].h;
    return true;
}
// ---- combinatorics
EX int spec_combn(int k, int n, int* l) {
    if (k < 1 || n < 1 || k > n) return 2;
    int j = -1;
    if (l[0] >= 1) {
        // the first element that can move up without meeting its successor
        for (int i = 0; i < k && j < 0; i++) { int up = i == k - 1 ? n + 1 : l[i + 1]; if (up - l[i] > 1) j = i; }
        if (j >= 0) { l[j] = l[j] + 1; for (int i = 0; i < j; i++) l[i] = i + 1; return 0; }
    }
    bool start = l[0] < 1;
    for (int i = 0; i < k; i++) l[i] = i + 1;
    return start ? 0 : 1;
}
// ---- least squares
EX void spec_svdsol(int m, int n, int mp, int np, const d* b, const d* u, const d* w, const d* v, d* ws, d* x) {
    for (int j = 0; j < n; j++) {
        d s = 0;
        for (int i = 0; i < m; i++) s += u[i * np + j] * b[i];
        ws[j] = w[j] == 0 ? 0 : s / w[j];
    }
    for (int i = 0; i < n; i++) { x[i] = 0; for (int j = 0; j < n; j++) x[i] += v[i * np + j] * ws[j]; }
}
EX void spec_svdcov(int n, int np, int nc, const d* w, const d* v, d* ws, d* c) {
    for (int j = 0; j < n; j++) ws[j] = w[j] == 0 ? 0 : 1 / (w[j] * w[j]);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) {
        d s = 0;
        for (int k = 0; k < n; k++) s += v[i * np + k] * v[j * np + k] * ws[k];
        c[i * nc + j] = s;
    }
}
// ---- permutations: state is a counter in mixed radix, digit j in 0..j
EX int spec_permut(int n, int* s, int* o) {
    if (n < 1) return 2;
    int st = 0;
    if (s[0] < 0) { for (int i = 0; i < n; i++) s[i] = 0; }
    else {
        int c = 1;                       // add one, with carry
        for (int j = 0; j < n; j++) { int x = s[j] + c; if (x > j) { s[j] = 0; c = 1; } else { s[j] = x; c = 0; } }
        if (c) st = 1;
    }
    for (int i = 0; i < n; i++) o[i] = 1;
    for (int l = n; l >= 2; l--) {       // l goes to the (s[l-1]+1)-th slot still free
        int seen = -1, done = 0;
        for (int i = 0; i < n; i++) {
            if (o[i] <= 1) seen++;
            if (!done && o[i] <= 1 && seen == s[l - 1]) { o[i] = l; done = 1; }
        }
    }
    return st;
}
// ---- plate fit
extern "C" bool spec_dmat(int, d*, d*, d&, int*);
EX int spec_fitxy(bool sbr, int n, const d* e, const d* m, d* o) {
    int w[4];
    d det;
    if (!sbr) {
        if (n < 3) return 1;
        d M[9] = {0}, X[3] = {0}, Y[3] = {0};
        for (int i = 0; i < n; i++) {
            d r[3] = {1, m[2 * i], m[2 * i + 1]};
            for (int j = 0; j < 3; j++) {
                for (int k = 0; k < 3; k++) M[3 * j + k] += r[j] * r[k];
                X[j] += r[j] * e[2 * i]; Y[j] += r[j] * e[2 * i + 1];
            }
        }
        if (spec_dmat(3, M, X, det, w)) return 2;
        for (int j = 0; j < 3; j++) { o[j] = X[j]; o[3 + j] = M[3 * j] * Y[0] + M[3 * j + 1] * Y[1] + M[3 * j + 2] * Y[2]; }
        return 0;
    }
    if (n < 2) return 1;
    d c[2][4], s2[2];
    bool bad = false;
    for (int q = 0; q < 2; q++) {        // direct and mirrored
        d g = q ? -1 : 1, M[16], v[4] = {0};
        d sx = 0, sy = 0, s = 0;
        for (int i = 0; i < n; i++) {
            d x = m[2 * i], y = m[2 * i + 1], X = g * e[2 * i], Y = e[2 * i + 1];
            sx += x; sy += y; s += x * x + y * y;
            v[0] += X; v[1] += X * x + Y * y; v[2] += X * y - Y * x; v[3] += Y;
        }
        d T[16] = {(d) n, sx, -sy, 0, sx, s, 0, sy, sy, 0, -s, -sx, 0, sy, sx, (d) n};
        for (int i = 0; i < 16; i++) M[i] = T[i];
        bad = spec_dmat(4, M, v, det, w);
        for (int i = 0; i < 4; i++) c[q][i] = v[i];
        s2[q] = 0;
        for (int i = 0; i < n; i++) {
            d x = m[2 * i], y = m[2 * i + 1];
            s2[q] += sq(v[0] + v[1] * x - v[2] * y - g * e[2 * i]) + sq(v[3] + v[2] * x + v[1] * y - e[2 * i + 1]);
        }
    }
    if (bad) return 2;                   // same matrix both times
    int q = (n == 2 || s2[0] <= s2[1]) ? 0 : 1;
    d g = q ? -1 : 1;
    o[0] = g * c[q][0]; o[1] = g * c[q][1]; o[2] = -g * c[q][2]; o[3] = c[q][3]; o[4] = c[q][2]; o[5] = c[q][1];
    return 0;
}
// ---- singularity of a linear system: elimination with the largest available pivot
template<class T> bool singular_(int n, const T* m, T* w) {
    T eps = T(1e-20), det = 1;
    for (int i = 0; i < n * n; i++) w[i] = m[i];
    for (int k = 0; k < n; k++) {
        int p = k;
        for (int i = k + 1; i < n; i++) if (std::fabs(w[i * n + k]) > std::fabs(w[p * n + k])) p = i;
        if (std::fabs(w[p * n + k]) < eps) return true;
        if (p != k) for (int j = 0; j < n; j++) { T t = w[k * n + j]; w[k * n + j] = w[p * n + j]; w[p * n + j] = t; }
        det *= w[k * n + k];
        if (std::fabs(det) < eps) return true;
        for (int i = k + 1; i < n; i++) {
            T g = w[i * n + k] / w[k * n + k];
            for (int j = k; j < n; j++) w[i * n + j] -= g * w[k * n + j];
        }
    }
    return false;
}
EX bool spec_dmat_singular(int n, d* m, d*, d&, int*) { d w[16]; return singular_(n, m, w); }
EX bool spec_smat_singular(int n, f* m, f*, f&, int*) { f w[16]; return singular_(n, m, w); }
// ---- refraction constants from two ray-traced refractions (itself a separate routine)
extern "C" d spec_refro(d, d, d, d, d, d, d, d, d);
EX void spec_refco(d h, d t, d p, d rh, d wl, d phi, d tlr, d eps, d& a, d& b) {
    // R = A tan z + B tan^3 z at tan z = 1 and tan z = 4
    d r1 = spec_refro(PI_ / 4, h, t, p, rh, wl, phi, tlr, eps), r4 = spec_refro(1.325817663668033, h, t, p, rh, wl, phi, tlr, eps);
    b = (r4 - 4 * r1) / 60;
    a = r1 - b;
}
