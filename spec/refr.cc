// Refraction through the Hohenkerk-Sinclair model atmosphere (polytropic troposphere, isothermal stratosphere), by
// Simpson's rule in zenith distance with strip doubling.
#include "common.h"
namespace {
struct Air { d r0, t0, alpha, g2, d2, c1, c2, c3, c4, c5, c6, rt, tt, nt, gl; };
void tropo(const Air& a, d r, d& t, d& n, d& rdn) {
    t = CLAMP(a.t0 - a.alpha * (r - a.r0), 100.0, 320.0);
    d u = t / a.t0, pg = std::pow(u, a.g2), pd = std::pow(u, a.d2);
    n = 1 + (a.c1 * pg - (a.c2 - a.c5 / t) * pd) * u;
    rdn = r * (-a.c3 * pg + (a.c4 - a.c6 / u) * pd);
}
void strato(const Air& a, d r, d& n, d& rdn) {
    d b = a.gl / a.tt, w = (a.nt - 1) * std::exp(-b * (r - a.rt));
    n = 1 + w;
    rdn = -r * b * w;
}
d zen(d s) { return std::atan2(s, std::sqrt(1 - s * s > 0 ? 1 - s * s : 0.0)); }
}
EX d spec_refro(d ozd, d oh, d atk, d apm, d arh, d wl, d phi, d tlr, d eps) {
    d z1 = NORMPI(ozd), z = std::fabs(z1) <= 1.623156204 ? std::fabs(z1) : 1.623156204;
    d h = CLAMP(oh, -1000.0, 80000.0), t = CLAMP(atk, 100.0, 500.0), p = CLAMP(apm, 0.0, 10000.0), u = CLAMP(arh, 0.0, 1.0);
    d w = wl > 0.1 ? wl : 0.1, al = CLAMP(std::fabs(tlr), 0.001, 0.01), tol = CLAMP(std::fabs(eps), 1e-12, 0.1) / 2;
    bool opt = w <= 100;
    d w2 = w * w;
    d g = 9.784 * (1 - 0.0026 * std::cos(2 * phi) - 0.00000028 * h);
    d A = opt ? (287.6155 + (1.62887 + 0.01360 / w2) / w2) * 273.15e-6 / 1013.25 : 77.6890e-6;
    Air a;
    a.gl = g * 28.9644 / 8314.32;
    d gam = a.gl / al, c = t - 273.15;
    a.r0 = 6378120 + h; a.t0 = t; a.alpha = al; a.g2 = gam - 2; a.d2 = 16.36;
    d ps = std::pow(10.0, (0.7859 + 0.03477 * c) / (1 + 0.00412 * c)) * (1 + p * (4.5e-6 + 6e-10 * c * c));
    d pw = p > 0 ? u * ps / (1 - (1 - u) * ps / p) : 0.0;
    d q = pw * (1 - 18.0152 / 28.9644) * gam / (18.36 - gam);
    a.c1 = A * (p + q) / t;
    a.c2 = (A * q + (opt ? 11.2684e-6 : 6.3938e-6) * pw) / t;
    a.c3 = (gam - 1) * al * a.c1 / t;
    a.c4 = 17.36 * al * a.c2 / t;
    a.c5 = opt ? 0.0 : 375463e-6 * pw / t;
    a.c6 = opt ? 0.0 : a.c5 * 16.36 * al / (t * t);
    d t0, n, rdn, s;
    tropo(a, a.r0, t0, n, rdn);
    d sk = n * a.r0 * std::sin(z);
    d z0[2], zr[2], fb[2], fe[2];
    z0[0] = z; fb[0] = rdn / (n + rdn);
    a.rt = 6378120 + (h > 11000 ? h : 11000.0);
    tropo(a, a.rt, a.tt, a.nt, rdn);
    zr[0] = zen(sk / (a.rt * a.nt)) - z;
    fe[0] = rdn / (a.nt + rdn);
    strato(a, a.rt, n, rdn);
    z0[1] = zen(sk / (a.rt * n)); fb[1] = rdn / (n + rdn);
    strato(a, 6378120 + 80000.0, n, rdn);
    zr[1] = zen(sk / ((6378120 + 80000.0) * n)) - z0[1];
    fe[1] = rdn / (n + rdn);
    d total = 0;
    for (int k = 0; k < 2; k++) {
        d old = 1, even = 0, part;
        int strips = 8, step = 1;
        while (true) {
            d width = zr[k] / strips, odd = 0, r = k ? a.rt : a.r0;
            for (int i = 1; i < strips; i += step) {
                s = std::sin(z0[k] + width * i);
                if (s > 1e-20) {
                    d want = sk / s, rg = r, dr = 1e6, tt;
                    for (int j = 0; j < 4 && std::fabs(dr) > 1; j++) {
                        if (k) strato(a, rg, n, rdn); else tropo(a, rg, tt, n, rdn);
                        dr = (rg * n - want) / (n + rdn);
                        rg -= dr;
                    }
                    r = rg;
                }
                d tt;
                if (k) strato(a, r, n, rdn); else tropo(a, r, tt, n, rdn);
                d f = rdn / (n + rdn);
                if (step == 1 && i % 2 == 0) even += f; else odd += f;
            }
            part = width * (fb[k] + 4 * odd + 2 * even + fe[k]) / 3;
            if (std::fabs(part - old) <= tol || strips >= 16384) break;
            old = part;
            strips *= 2;
            even += odd;
            step = 2;
        }
        total += part;
    }
    return z1 < 0 ? -total : total;
}
