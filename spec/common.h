// Reference definitions of the library's mathematics, written from the documented formulas over flat arrays.
// They are never executed: the front end turns them into closed forms that serve as the rules.
#pragma once
#include <cmath>
#include <cstring>
#define EX extern "C"
typedef double d;
typedef float f;
#define PI_ 3.141592653589793238462643
#define TAU 6.283185307179586476925287
#define AS2R 0.484813681109535994e-5
// Spherical / vector layouts
template<class T> T sq(T x) { return x * x; }
template<class T> T angle0(T y, T x) { return (x == 0 && y == 0) ? T(0) : std::atan2(y, x); }
template<class T> void S2C(T a, T b, T* v) { v[0] = std::cos(a) * std::cos(b); v[1] = std::sin(a) * std::cos(b); v[2] = std::sin(b); }
template<class T> void C2S(const T* v, T* s) {
    T x = v[0], y = v[1], z = v[2];
    s[0] = (x == 0 && y == 0) ? T(0) : std::atan2(y, x);
    s[1] = z == 0 ? T(0) : std::atan2(z, std::sqrt(x * x + y * y));
}
template<class T> T DOT(const T* a, const T* b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
template<class T> void MV(const T* m, const T* v, T* o) {
    T r[3];
    for (int i = 0; i < 3; i++) r[i] = DOT(m + 3 * i, v);
    for (int i = 0; i < 3; i++) o[i] = r[i];
}
template<class T> void TV(const T* m, const T* v, T* o) {
    T r[3];
    for (int i = 0; i < 3; i++) r[i] = m[i] * v[0] + m[3 + i] * v[1] + m[6 + i] * v[2];
    for (int i = 0; i < 3; i++) o[i] = r[i];
}
template<class T> void MM(const T* a, const T* b, T* o) {
    T r[9];
    for (int i = 0; i < 9; i++) r[i] = a[i / 3 * 3] * b[i % 3] + a[i / 3 * 3 + 1] * b[3 + i % 3] + a[i / 3 * 3 + 2] * b[6 + i % 3];
    for (int i = 0; i < 9; i++) o[i] = r[i];
}
// rotation of the frame about axis k (0..2) by angle a
template<class T> void RK(int k, T a, T* m) {
    T c = std::cos(a), s = std::sin(a);
    int i = (k + 1) % 3, j = (k + 2) % 3;
    for (int n = 0; n < 9; n++) m[n] = 0;
    m[4 * k] = 1;
    m[4 * i] = c; m[4 * j] = c;
    m[3 * i + j] = s; m[3 * j + i] = -s;
}
// frame rotations about axes i, j, k in turn
template<class T> void R3(int i, T a, int j, T b, int k, T c, T* m) {
    T x[9], y[9], z[9], t[9];
    RK(i, a, x); RK(j, b, y); RK(k, c, z);
    MM(y, x, t); MM(z, t, m);
}
template<class T> T NORM2PI(T x) { T r = std::fmod(x, T(TAU)); return r < 0 ? r + T(TAU) : r; }
template<class T> T NORMPI(T x) {
    T r = std::fmod(x, T(TAU));
    if (std::fabs(r) >= T(PI_)) r -= x >= 0 ? T(TAU) : -T(TAU);
    return r;
}
template<class T> T CLAMP(T x, T lo, T hi) { return x < lo ? lo : x > hi ? hi : x; }
