/** shared generators and long double reference geometry (independent of the code under test) */
#pragma once
#include "pbt.hpp"
#include <array>

namespace ref {
using R = long double;
struct V3 {
    R x = 0, y = 0, z = 0;
    V3() = default;
    V3(R a, R b, R c) : x(a), y(b), z(c) {}
    template <class T>
    explicit V3(const T *p) : x(p[0]), y(p[1]), z(p[2]) {}
    V3 operator+(const V3 &o) const { return {x + o.x, y + o.y, z + o.z}; }
    V3 operator-(const V3 &o) const { return {x - o.x, y - o.y, z - o.z}; }
    V3 operator*(R s) const { return {x * s, y * s, z * s}; }
    R dot(const V3 &o) const { return x * o.x + y * o.y + z * o.z; }
    V3 cross(const V3 &o) const { return {y * o.z - z * o.y, z * o.x - x * o.z, x * o.y - y * o.x}; }
    R norm() const { return std::sqrt(dot(*this)); }
    V3 unit() const { return *this * (1 / norm()); }
    R operator[](int i) const { return i == 0 ? x : i == 1 ? y : z; }
};
inline R clamp01(R t) { return t < 0 ? 0 : t > 1 ? 1 : t; }
/// squared distance point to segment, closest parameter
inline R pointSeg2(const V3 &p, const V3 &a, const V3 &b, R *tOut = nullptr) {
    const V3 d = b - a;
    const R l2 = d.dot(d);
    R t = l2 > 0 ? clamp01((p - a).dot(d) / l2) : 0;
    if (tOut)
        *tOut = t;
    const V3 r = p - (a + d * t);
    return r.dot(r);
}
/// squared distance between two segments: the four end point / segment candidates and the interior critical point
inline R segSeg2(const V3 &p0, const V3 &p1, const V3 &q0, const V3 &q1) {
    R best = std::min(std::min(pointSeg2(p0, q0, q1), pointSeg2(p1, q0, q1)),
                      std::min(pointSeg2(q0, p0, p1), pointSeg2(q1, p0, p1)));
    const V3 u = p1 - p0, v = q1 - q0, w = p0 - q0;
    const V3 n = u.cross(v);
    const R n2 = n.dot(n);
    if (n2 > 0) {
        // cross products keep their accuracy for nearly parallel segments; the distance itself is taken at that place, where it
        // hardly depends on the rounding of s and t
        const R s = clamp01(-w.cross(v).dot(n) / n2), t = clamp01(-w.cross(u).dot(n) / n2);
        best = std::min(best, std::min(pointSeg2(p0 + u * s, q0, q1), pointSeg2(q0 + v * t, p0, p1)));
    }
    return best;
}
/// quaternion (w,x,y,z) rotation of a vector
struct Q {
    R w = 1, x = 0, y = 0, z = 0;
    Q operator*(const Q &o) const {
        return {w * o.w - x * o.x - y * o.y - z * o.z, w * o.x + x * o.w + y * o.z - z * o.y,
                w * o.y - x * o.z + y * o.w + z * o.x, w * o.z + x * o.y - y * o.x + z * o.w};
    }
    V3 rot(const V3 &v) const {
        const V3 p(x, y, z);
        const V3 t = p.cross(v) * 2;
        return v + t * w + p.cross(t);
    }
    R norm() const { return std::sqrt(w * w + x * x + y * y + z * z); }
    Q unit() const {
        R n = 1 / norm();
        return {w * n, x * n, y * n, z * n};
    }
};
} // namespace ref

namespace gen {
using pbt::Case;
using A3 = std::array<double, 3>;
inline A3 vec(Case &c, double lo, double hi) { return {c.real(lo, hi), c.real(lo, hi), c.real(lo, hi)}; }
inline A3 add(const A3 &a, const A3 &b, double s = 1) { return {a[0] + s * b[0], a[1] + s * b[1], a[2] + s * b[2]}; }
inline double nrm(const A3 &a) { return std::sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); }
inline double dot(const A3 &a, const A3 &b) { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
inline A3 cross(const A3 &a, const A3 &b) {
    return {a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]};
}
inline A3 scale(const A3 &a, double s) { return {a[0] * s, a[1] * s, a[2] * s}; }
inline A3 normalized(const A3 &a) { return scale(a, 1 / nrm(a)); }
/// unit vector: axis aligned, on a face diagonal, or generic
inline A3 dir(Case &c) {
    int k = c.below(8);
    if (k < 2) {
        A3 v{0, 0, 0};
        v[2 - c.below(3)] = c.below(2) ? -1 : 1;
        return v;
    }
    if (k == 2) {
        A3 v{double(c.integer(-1, 1)), double(c.integer(-1, 1)), double(c.integer(-1, 1))};
        if (nrm(v) == 0)
            v[2] = 1;
        return normalized(v);
    }
    if (k == 3 && c.chance(1, 2)) { // a little off an axis
        const double tilt = c.logReal(1e-9, 1e-1), phi = c.generic(0, 2 * M_PI), w = c.below(2) ? -1 : 1;
        const int a = 2 - c.below(3);
        A3 v;
        v[a] = w * std::cos(tilt);
        v[(a + 1) % 3] = std::sin(tilt) * std::cos(phi);
        v[(a + 2) % 3] = std::sin(tilt) * std::sin(phi);
        return v;
    }
    double z = c.generic(-1, 1), phi = c.generic(0, 2 * M_PI), s = std::sqrt(std::max(0.0, 1 - z * z));
    return {s * std::cos(phi), s * std::sin(phi), z};
}
inline A3 perp(const A3 &d) { // a unit vector perpendicular to d
    A3 t = std::fabs(d[0]) < 0.7 ? A3{1, 0, 0} : A3{0, 1, 0};
    return normalized(cross(d, t));
}
/// unit quaternion in Eigen storage order (x,y,z,w); sometimes identity or axis aligned
inline std::array<double, 4> quat(Case &c) {
    int k = c.below(6);
    if (k == 0)
        return {0, 0, 0, 1};
    if (k == 1) { // quarter turn about an axis
        std::array<double, 4> q{0, 0, 0, std::sqrt(0.5)};
        q[c.below(3)] = (c.below(2) ? -1 : 1) * std::sqrt(0.5);
        return q;
    }
    double u1 = c.generic(0, 1), u2 = c.generic(0, 2 * M_PI), u3 = c.generic(0, 2 * M_PI);
    double a = std::sqrt(1 - u1), b = std::sqrt(u1);
    return {a * std::sin(u2), a * std::cos(u2), b * std::sin(u3), b * std::cos(u3)};
}
inline std::string show(const A3 &a) { return pbt::msg("(", a[0], ",", a[1], ",", a[2], ")"); }
} // namespace gen
