// C01 distance queries, C11 quaternions, C23 periodic images and random points, C27 Base64, C28 sort, C31 command line,
// C34 quadrature: header-only utilities, checked against independent long double or textbook references.
#include "gen_geom.hpp"
#include <cassert>
#include <memory>
#include <random>
#include <fstream>
#include <sstream>
#include <unistd.h>
#include <Eigen/Core>
#include <Eigen/Geometry>
#include "Collision/DCPQuery.hpp"
#include "Util/Base64.hpp"
#include "Util/EigenDef.hpp"
#include "Util/EquatnHelper.hpp"
#include "Util/GeoUtil.hpp"
#include "Util/IOHelper.hpp"
#include "gen_vtk.hpp"
#include "Util/Gauss_Legendre_Nodes_and_Weights.hpp"
#include "Util/SortUtil.hpp"
#include "Util/cmdparser.hpp"

using namespace gen;
using pbt::Case;
using pbt::msg;

static Evec3 E(const A3 &a) { return Evec3(a[0], a[1], a[2]); }
static ref::V3 L(const Evec3 &a) { return ref::V3(a[0], a[1], a[2]); }

struct Segs {
    A3 p0, p1, q0, q1;
    std::string shape;
};
/// two segments in one of many relative configurations
static Segs genSegs(Case &c) {
    Segs s;
    const A3 cp = vec(c, -1, 1);
    const double box = c.pick({1.0, 10.0, 100.0});
    A3 cen = scale(cp, box);
    A3 d = dir(c);
    double lp = c.logReal(1e-2, 1e2), lq = c.logReal(1e-2, 1e2);
    if (c.chance(1, 3))
        lq = lp;
    s.p0 = add(cen, d, -lp / 2);
    s.p1 = add(cen, d, lp / 2);
    A3 e = dir(c);
    A3 off = scale(dir(c), c.real(0, 1) * (lp + lq));
    int k = c.below(10);
    switch (k) {
    case 0:
        s.shape = "generic";
        break;
    case 1:
        s.shape = "parallel";
        e = d;
        break;
    case 2:
        s.shape = "antiparallel";
        e = scale(d, -1);
        break;
    case 3: {
        s.shape = "nearparallel";
        e = normalized(add(d, dir(c), std::pow(10.0, -c.real(1, 12))));
        break;
    }
    case 4:
        s.shape = "perpendicular";
        e = perp(d);
        break;
    case 5: {
        s.shape = "collinear";
        e = d;
        off = scale(d, c.real(-1, 1) * (lp + lq));
        break;
    }
    case 6: {
        s.shape = "crossing";
        // interior points of both coincide, then pulled apart along the common normal
        A3 n = cross(d, e);
        double h = c.real(0, 2);
        if (nrm(n) < 1e-6)
            n = perp(d);
        A3 x = add(cen, d, c.real(-0.5, 0.5) * lp);
        A3 cq = add(add(x, normalized(n), h), e, c.real(-0.5, 0.5) * lq);
        off = add(cq, cen, -1);
        break;
    }
    case 7: {
        s.shape = "touching";
        A3 x = add(cen, d, c.pick({-0.5, 0.5}) * lp);
        off = add(add(x, e, 0.5 * lq), cen, -1);
        break;
    }
    case 8:
        s.shape = "degenerate";
        if (c.below(2))
            lq = 0;
        else {
            s.p1 = s.p0;
            if (c.chance(1, 3))
                lq = 0;
        }
        break;
    default:
        s.shape = "disparate";
        lq = lp * (c.below(2) ? c.pick({1e-3, 1e-2, 1e2, 1e3}) : c.logReal(1e-9, 1e9));
        break;
    }
    A3 cq = add(cen, off);
    s.q0 = add(cq, e, -lq / 2);
    s.q1 = add(cq, e, lq / 2);
    if (c.chance(1, 6)) { // one shrinks to almost a point
        const double f = c.logReal(1e-9, 1e-2);
        if (c.below(2))
            s.p1 = add(s.p0, d, lp * f);
        else
            s.q1 = add(s.q0, e, lq * f);
    }
    if (c.chance(1, 3)) { // in other units
        const double unit = c.logReal(1e-12, 1e12);
        for (A3 *x : {&s.p0, &s.p1, &s.q0, &s.q1})
            *x = scale(*x, unit);
    }
    return s;
}
static double extent(const Segs &s) { // largest coordinate scale that enters the computation
    double m = 0;
    for (auto &p : {s.p0, s.p1, s.q0, s.q1})
        m = std::max(m, nrm(p));
    return m;
}

PBT_FACET(segseg, "two segments (generic, parallel, near parallel, collinear, crossing, touching, degenerate, very "
                  "different lengths); non-trivial: both non-degenerate") {
    Segs g = genSegs(c);
    c.label(g.shape);
    const Evec3 P0 = E(g.p0), P1 = E(g.p1), Q0 = E(g.q0), Q1 = E(g.q1);
    c << g.shape << " P" << show(g.p0) << show(g.p1) << " Q" << show(g.q0) << show(g.q1);
    c.nontrivial((P1 - P0).norm() > 0 && (Q1 - Q0).norm() > 0);
    DCPQuery<3, double, Evec3> query;
    Evec3 Pl, Ql;
    double s = -1, t = -1;
    const double d = query(P0, P1, Q0, Q1, Pl, Ql, s, t);
    const double ref2 = double(ref::segSeg2(L(P0), L(P1), L(Q0), L(Q1)));
    const double refd = std::sqrt(ref2);
    const double scale = std::max({(P1 - P0).norm(), (Q1 - Q0).norm(), (P0 - Q0).norm(), (P1 - Q1).norm()});
    const double ext = extent(g);
    const double round = 1e-13 * ext + 1e-300;
    c.require(std::isfinite(d) && d >= 0, msg("distance is ", d));
    c.require(s >= 0 && s <= 1 && t >= 0 && t <= 1, msg("parameters outside [0,1]: s=", s, " t=", t));
    // the points are the ones the parameters describe, and realise the distance
    const Evec3 Ps = P0 + s * (P1 - P0), Qt = Q0 + t * (Q1 - Q0);
    c.require((Ps - Pl).norm() <= round, msg("P point is not at parameter s=", s, " (off by ", (Ps - Pl).norm(), ")"));
    c.require((Qt - Ql).norm() <= round, msg("Q point is not at parameter t=", t, " (off by ", (Qt - Ql).norm(), ")"));
    c.require(std::fabs((Pl - Ql).norm() - d) <= 1e-13 * (d + ext), msg("|P-Q|=", (Pl - Ql).norm(), " but d=", d));
    // minimality; d >= minimum holds because the points lie on the segments (rounding of squared quantities of size scale^2, and of the coordinates themselves)
    const double tol2 = 1e-13 * scale * scale + 1e-14 * scale * ext;
    c.require(d * d <= ref2 + tol2, msg("distance ", d, " is not minimal: minimum ", refd, " (excess of d^2 ", d * d - ref2,
                                       " allowed ", tol2, ") s=", s, " t=", t));
    // the overload without parameters agrees
    Evec3 Pl2, Ql2;
    DCPQuery<3, double, Evec3> query2;
    c.require(query2(P0, P1, Q0, Q1, Pl2, Ql2) == d && Pl2 == Pl && Ql2 == Ql, "the two overloads disagree");
    // symmetric in the two segments and in their orientation
    const double dsw = query(Q0, Q1, P0, P1, Pl, Ql, s, t);
    c.require(std::fabs(dsw * dsw - d * d) <= 2 * tol2, msg("not symmetric: ", d, " vs ", dsw));
    const double drev = query(P1, P0, Q0, Q1, Pl, Ql, s, t);
    c.require(std::fabs(drev * drev - d * d) <= 2 * tol2, msg("depends on the end point order: ", d, " vs ", drev));
}

PBT_FACET(pointseg, "a point and a segment (interior, beyond an end, on the line, degenerate); non-trivial: "
                    "non-degenerate segment") {
    A3 cen = scale(vec(c, -1, 1), c.pick({1.0, 10.0, 100.0}));
    A3 d = dir(c);
    double l = c.chance(1, 8) ? 0 : c.chance(1, 6) ? c.logReal(1e-10, 1e-3) : c.logReal(1e-3, 1e2);
    A3 m = add(cen, d, -l / 2), p = add(cen, d, l / 2);
    A3 n = c.below(2) ? perp(d) : dir(c);
    double along = c.pick({0.0, -0.5, 0.5, 2.0}) + (c.below(2) ? c.real(-1, 1) : 0);
    double away = c.chance(1, 6) ? 0 : c.logReal(1e-6, 1e2);
    A3 x = add(add(cen, d, along * l), n, away);
    if (c.chance(1, 3)) { // in other units
        const double unit = c.logReal(1e-12, 1e12);
        for (A3 *y : {&m, &p, &x})
            *y = scale(*y, unit);
    }
    c << "point " << show(x) << " segment " << show(m) << show(p);
    c.nontrivial(l > 0);
    c.label(l == 0 ? "degenerate" : std::fabs(along) < 0.5 ? "interior" : "beyond");
    Evec3 foot;
    const double dist = DistPointSeg<Evec3>(E(x), E(m), E(p), foot);
    ref::R tref;
    const double r2 = double(ref::pointSeg2(L(E(x)), L(E(m)), L(E(p)), &tref));
    const double ext = std::max(nrm(x), std::max(nrm(m), nrm(p)));
    const double scale = std::max((E(p) - E(m)).norm(), (E(x) - E(m)).norm());
    c.require(std::isfinite(dist), "distance not finite");
    c.require(std::fabs(dist * dist - r2) <= 1e-12 * scale * scale + 1e-13 * scale * ext,
              msg("distance ", dist, " reference ", std::sqrt(r2)));
    c.require(std::fabs((E(x) - foot).norm() - dist) <= 1e-13 * (ext + dist), "foot point does not realise the distance");
    // foot on the segment
    c.require(double(std::sqrt(ref::pointSeg2(L(foot), L(E(m)), L(E(p))))) <= 1e-13 * ext + 1e-300,
              "foot point is not on the segment");
    Evec3 foot2;
    const double back = DistPointSeg<Evec3>(E(x), E(p), E(m), foot2);
    c.require(std::fabs(back - dist) <= 1e-12 * (scale + ext), "depends on the end point order");
}

// ---------------------------------------------------------------------------------------------- C11
static ref::Q toRef(const Equatn &q) { return ref::Q{q.w(), q.x(), q.y(), q.z()}; }
static Equatn genQ(Case &c) {
    auto q = quat(c);
    Equatn e;
    e.x() = q[0], e.y() = q[1], e.z() = q[2], e.w() = q[3];
    return e;
}
static ref::Q expRot(const ref::V3 &w, ref::R dt) {
    const ref::R n = w.norm(), a = n * dt / 2;
    if (n == 0)
        return ref::Q{};
    const ref::R s = std::sin(a) / n;
    return ref::Q{std::cos(a), w.x * s, w.y * s, w.z * s};
}
static double qdiff(const ref::Q &a, const ref::Q &b) { // distance as rotations
    ref::R p = 0, m = 0;
    for (auto pr : {std::make_pair(a.w, b.w), std::make_pair(a.x, b.x), std::make_pair(a.y, b.y), std::make_pair(a.z, b.z)}) {
        p = std::max(p, std::fabs(pr.first - pr.second));
        m = std::max(m, std::fabs(pr.first + pr.second));
    }
    return double(std::min(p, m));
}

PBT_FACET(rotate, "orientation, angular velocity (1e-15..1e3) and time step (1e-6..1e8, angles up to 1e4); non-trivial: rotation angle > "
                  "1e-6") {
    Equatn q = genQ(c);
    const double off = c.chance(1, 3) ? c.pick({-1.0, 1.0}) * c.logReal(1e-12, 1e-3) : 0; // read from a file with a few digits
    const A3 ax = dir(c);
    const double w = c.chance(1, 8) ? 0 : c.chance(1, 4) ? c.logReal(1e-15, 1e-6) : c.logReal(1e-9, 1e3);
    const double dt = w > 0 && c.chance(1, 3) ? c.logReal(1e-6, 10) / w : c.logReal(1e-6, 10);
    const Evec3 om = E(ax) * w;
    c << "q=(" << q.w() << "," << q.x() << "," << q.y() << "," << q.z() << ") omega=" << show(scale(ax, w)) << " dt=" << dt;
    c.nontrivial(w * dt > 1e-6);
    c.label(w * dt > 3 ? "large angle" : w * dt > 1e-3 ? "angle" : "small angle");
    const double tol = 1e-12 * (1 + w * dt);
    Equatn r = q;
    if (off != 0 && w > 1e-300) {
        Equatn z = q;
        z.coeffs() *= 1 + off;
        EquatnHelper::rotateEquatn(z, om, dt);
        const ref::Q turned = (expRot(L(om), dt) * toRef(q)).unit();
        c.require(std::fabs(toRef(z).norm() - 1) < 1e-14, msg("not a unit quaternion: ", z.norm(), ", the input was off by ", off));
        c.require(qdiff(toRef(z), turned) <= tol, msg("rotation of a quaternion of norm 1+", off, " differs by ", qdiff(toRef(z), turned)));
    }
    EquatnHelper::rotateEquatn(r, om, dt);
    const ref::Q want = (expRot(L(om), dt) * toRef(q)).unit();
    c.require(std::fabs(toRef(r).norm() - 1) < 1e-14, msg("not a unit quaternion: ", r.norm()));
    c.require(qdiff(toRef(r), want) <= tol, msg("rotation differs from exp(omega dt) q by ", qdiff(toRef(r), want)));
    // the director turns rigidly: angle with the axis is preserved
    const Evec3 d0 = q * Evec3(0, 0, 1), d1 = r * Evec3(0, 0, 1);
    c.require(std::fabs(d0.dot(E(ax)) - d1.dot(E(ax))) < tol + 1e-12, "the component along the rotation axis changed");
    // two half steps make one step, and stepping back undoes it
    Equatn h = q;
    EquatnHelper::rotateEquatn(h, om, dt / 2);
    EquatnHelper::rotateEquatn(h, om, dt / 2);
    c.require(qdiff(toRef(h), toRef(r)) <= 2 * tol, "two half steps differ from one step");
    Equatn b = r;
    EquatnHelper::rotateEquatn(b, -om, dt);
    c.require(qdiff(toRef(b), toRef(q)) <= 2 * tol, "rotating back does not restore the orientation");
    // the rate matrix Psi is the derivative of the rotation at dt -> 0
    EmatPsi psi;
    EquatnHelper::getPsiMatFromEquatn(q, psi);
    const Evec3 u = E(ax);
    const auto rate = psi * u;
    const ref::Q half = ref::Q{0, ax[0] / 2, ax[1] / 2, ax[2] / 2} * toRef(q);
    c.require(std::fabs(double(rate(0) - half.w)) < 1e-14 && std::fabs(double(rate(1) - half.x)) < 1e-14 &&
                  std::fabs(double(rate(2) - half.y)) < 1e-14 && std::fabs(double(rate(3) - half.z)) < 1e-14,
              "Psi * omega is not dq/dt");
    Emat3 X;
    EquatnHelper::getCrossProductMatrix(E(ax), X);
    const Evec3 v(c.real(-2, 2), c.real(-2, 2), c.real(-2, 2));
    c.require((X * v - E(ax).cross(v)).norm() < 1e-14, "cross product matrix is not the cross product");
}

PBT_FACET(randquat, "a regular grid of the three uniform inputs, shifted; the image must be uniform on rotations (unit "
                    "norm, vanishing first and isotropic second moments); non-trivial: all") {
    // grid with n points per axis and a random offset: trigonometric moments up to order n-1 are exact
    const int n = c.integer(8, 14);
    const double s1 = c.generic(0, 1), s2 = c.generic(0, 1), s3 = c.generic(0, 1);
    c << "grid " << n << " shift " << s1 << "," << s2 << "," << s3;
    c.nontrivial();
    Emat3 mean[3], second[3];
    for (int k = 0; k < 3; k++)
        mean[k].setZero(), second[k].setZero();
    Emat3 sum = Emat3::Zero();
    double qm[4] = {0, 0, 0, 0};
    const int n1 = 64; // finer in u1: midpoint rule with shift, second order
    for (int i = 0; i < n1; i++)
        for (int j = 0; j < n; j++)
            for (int k = 0; k < n; k++) {
                const double u1 = (i + 0.5) / n1, u2 = (j + s2) / n, u3 = (k + s3) / n;
                Equatn q;
                EquatnHelper::setUnitRandomEquatn(q, u1, u2, u3);
                c.require(std::fabs(q.norm() - 1) < 1e-14, msg("norm ", q.norm()));
                Emat3 Rm = q.toRotationMatrix();
                sum += Rm;
                for (int a = 0; a < 3; a++)
                    second[a] += Rm.col(a) * Rm.col(a).transpose();
                qm[0] += q.w() * q.w(), qm[1] += q.x() * q.x(), qm[2] += q.y() * q.y(), qm[3] += q.z() * q.z();
            }
    const double N = double(n1) * n * n;
    c.require((sum / N).cwiseAbs().maxCoeff() < 2e-3, "mean rotation matrix does not vanish");
    for (int a = 0; a < 3; a++)
        c.require((second[a] / N - Emat3::Identity() / 3).cwiseAbs().maxCoeff() < 3e-3,
                  msg("axis ", a, " is not isotropic"));
    for (int a = 0; a < 4; a++)
        c.require(std::fabs(qm[a] / N - 0.25) < 1e-3, "quaternion components are not equidistributed");
    // an arbitrary triple also gives a unit quaternion
    Equatn q;
    EquatnHelper::setUnitRandomEquatn(q, s1, s2, s3);
    c.require(std::fabs(q.norm() - 1) < 1e-14, msg("norm ", q.norm()));
}

// ---------------------------------------------------------------------------------------------- C23
PBT_FACET(pbcimage, "box [lb,ub) and one or two coordinates up to 30 periods away, often exactly on a face; "
                    "non-trivial: a coordinate outside the box") {
    const double lb = c.real(-50, 50), L0 = c.logReal(0.1, 100);
    const double ub = lb + L0;
    const double Lb = ub - lb;
    auto coord = [&]() {
        int k = c.below(5);
        if (k == 0)
            return lb + Lb * c.integer(-20, 20);          // faces
        if (k == 1)
            return lb + Lb * (c.integer(-20, 20) + 0.5);  // centres
        return lb + Lb * c.real(-30, 30);
    };
    const double x0 = coord(), t0 = coord();
    c << "[" << lb << "," << ub << ") x=" << x0 << " trg=" << t0;
    c.nontrivial(x0 < lb || x0 >= ub || t0 < lb || t0 >= ub);
    const double tol = 1e-13 * 40 * (std::fabs(lb) + std::fabs(ub) + std::fabs(x0) + std::fabs(t0) + Lb);
    auto periodic = [&](double a, double b) {
        const double k = (a - b) / Lb;
        return std::fabs(k - std::round(k)) * Lb <= tol;
    };
    double x = x0;
    findPBCImage(lb, ub, x);
    c.require(x >= lb && x < ub, msg("image ", x, " of ", x0, " outside the half open box"));
    c.require(periodic(x, x0), msg("image ", x, " is not a periodic image of ", x0));
    if (x0 >= lb && x0 < ub)
        c.require(x == x0, "a coordinate inside the box was moved");
    double y = x0, trg = t0;
    findPBCImage(lb, ub, y, trg);
    c.require(trg >= lb && trg < ub, msg("target image ", trg, " outside the box"));
    c.require(periodic(trg, t0), msg("target ", trg, " is not an image of ", t0));
    c.require(periodic(y, x0), msg("image ", y, " is not a periodic image of ", x0));
    c.require(std::fabs(y - trg) <= 0.5 * Lb + tol, msg("|x-trg|=", std::fabs(y - trg), " exceeds half a period ", Lb / 2));
    // float instantiation
    float fl = float(lb), fu = float(ub), fx = float(lb + Lb * c.real(-3, 3));
    const float fx0 = fx;
    findPBCImage(fl, fu, fx);
    const double kf = (double(fx) - fx0) / (double(fu) - fl);
    c.require(fx >= fl && fx < fu && std::fabs(kf - std::round(kf)) < 1e-4 * (1 + (std::fabs(fl) + std::fabs(fx0)) / (fu - fl)), "float image");
}

PBT_FACET(randpoint, "radius and shifted grids of the uniform inputs; points must lie in the disc / on the sphere and "
                     "have the moments of the uniform density; non-trivial: all") {
    const double R = c.logReal(1e-3, 1e3);
    const int n = c.integer(16, 24), n1 = 200;
    const double s = c.generic(0, 1);
    c << "R=" << R << " n=" << n;
    c.nontrivial();
    double mx = 0, my = 0, r2 = 0, r4 = 0, xy = 0, x2 = 0, y2 = 0;
    double px = 0, py = 0, pz = 0, pxx = 0, pyy = 0, pzz = 0, pz4 = 0, px4 = 0, pxy = 0, px2y2 = 0, ph = 0;
    for (int i = 0; i < n; i++)
        for (int j = 0; j < n1; j++) {
            const double a = (i + s) / n, b = (j + 0.5) / n1;
            double x, y;
            getRandPointInCircle(R, a, b, x, y);
            const double q = (x * x + y * y) / (R * R);
            c.require(q <= 1 + 1e-12, "point outside the disc");
            mx += x / R, my += y / R, r2 += q, r4 += q * q, xy += x * y / R / R, x2 += x * x / R / R, y2 += y * y / R / R;
            double p[3];
            getRandPointOnSphere(R, a, b, p);
            c.require(std::fabs(std::sqrt(p[0] * p[0] + p[1] * p[1] + p[2] * p[2]) - R) < 1e-12 * R, "point not on the sphere");
            double th, phi;
            getRandPointAngleOnSphere(a, b, th, phi);
            c.require(th >= 0 && th <= 2 * M_PI + 1e-12 && phi >= 0 && phi <= M_PI + 1e-12, "angles out of range");
            c.require(std::fabs(std::cos(th) * std::sin(phi) * R - p[0]) < 1e-12 * R &&
                          std::fabs(std::sin(th) * std::sin(phi) * R - p[1]) < 1e-12 * R &&
                          std::fabs(std::cos(phi) * R - p[2]) < 1e-12 * R,
                      "angles and position disagree");
            const double u = p[0] / R, v = p[1] / R, w = p[2] / R;
            px += u, py += v, pz += w, pxx += u * u, pyy += v * v, pzz += w * w, pz4 += w * w * w * w, px4 += u * u * u * u,
                pxy += u * v, px2y2 += u * u * v * v, ph += w > 0.5;
        }
    const double N = double(n) * n1;
    auto near = [&](double v, double want, const char *what) {
        c.require(std::fabs(v / N - want) < 2e-3, msg(what, " = ", v / N, " expected ", want));
    };
    near(mx, 0, "disc <x>"), near(my, 0, "disc <y>"), near(r2, 0.5, "disc <r^2>"), near(r4, 1.0 / 3, "disc <r^4>");
    near(xy, 0, "disc <xy>"), near(x2, 0.25, "disc <x^2>"), near(y2, 0.25, "disc <y^2>");
    near(px, 0, "sphere <x>"), near(py, 0, "sphere <y>"), near(pz, 0, "sphere <z>"), near(pxx, 1.0 / 3, "sphere <x^2>");
    near(pyy, 1.0 / 3, "sphere <y^2>"), near(pzz, 1.0 / 3, "sphere <z^2>"), near(pz4, 0.2, "sphere <z^4>");
    near(px4, 0.2, "sphere <x^4>"), near(pxy, 0, "sphere <xy>"), near(px2y2, 1.0 / 15, "sphere <x^2y^2>");
    c.require(std::fabs(ph / N - 0.25) < 0.006, "polar cap area");
}

// ---------------------------------------------------------------------------------------------- C27
static std::string refB64(const std::vector<unsigned char> &in) {
    static const std::string T = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    std::string bits, out;
    for (auto b : in)
        for (int i = 7; i >= 0; i--)
            bits += char('0' + ((b >> i) & 1));
    while (bits.size() % 6)
        bits += '0';
    for (size_t i = 0; i < bits.size(); i += 6) {
        int v = 0;
        for (int k = 0; k < 6; k++)
            v = v * 2 + (bits[i + k] - '0');
        out += T[v];
    }
    while (out.size() % 4)
        out += '=';
    return out;
}
static std::vector<unsigned char> genBytes(Case &c, int maxLen) {
    const int n = c.sized(0, maxLen);
    std::vector<unsigned char> v(n);
    const int style = c.below(3);
    for (auto &b : v)
        b = style == 0 ? c.below(256) : style == 1 ? (c.below(4) ? 0 : 255) : c.pick({0, 1, 0x3f, 0x40, 0x7f, 0x80, 0xfb, 0xff});
    return v;
}
template <class T>
static void vecB64(Case &c, const std::vector<T> &v) {
    std::string out = "prefix";
    B64Converter::getBase64FromVector(v, out);
    const uint32_t len = v.size() * sizeof(T);
    std::vector<unsigned char> head((unsigned char *)&len, (unsigned char *)&len + 4), body(len);
    if (len)
        memcpy(body.data(), v.data(), len);
    c.require(out == "prefix" + refB64(head) + refB64(body),
              msg("vector of ", v.size(), " x ", sizeof(T), " bytes is not header + data in base64"));
}
PBT_FACET(base64, "byte strings of length 0..400 and vectors of uint8/int/float/double; non-trivial: length not a "
                  "multiple of three") {
    const auto in = genBytes(c, 400);
    c << in.size() << " bytes";
    c.nontrivial(in.size() % 3 != 0);
    c.label(msg("len%3=", in.size() % 3));
    std::string out = "x";
    const bool mark = c.below(2);
    const size_t n = B64Converter::kwsysBase64_Encode(in.data(), in.size(), out, mark);
    std::string want = refB64(in);
    if (mark && in.size() % 3 == 0)
        want += "====";
    c.require(out == "x" + want, msg("encoding of ", in.size(), " bytes differs from RFC 4648: ", out, " vs ", want));
    c.require(n == want.size(), msg("returned length ", n, " but wrote ", want.size()));
    // decode by length, and by input length
    std::vector<unsigned char> dec(in.size() + 8, 0xAA);
    const std::string enc = refB64(in);
    if (!in.empty()) {
        size_t m = B64Converter::kwsysBase64_Decode((const unsigned char *)enc.data(), in.size(), dec.data(), 0);
        c.require(m == in.size() && std::equal(in.begin(), in.end(), dec.begin()), "decode (by length) is not the inverse");
        for (size_t i = in.size(); i < dec.size(); i++)
            c.require(dec[i] == 0xAA, "decode (by length) wrote past the requested length");
        std::fill(dec.begin(), dec.end(), 0xAA);
        m = B64Converter::kwsysBase64_Decode((const unsigned char *)enc.data(), 0, dec.data(), enc.size());
        c.require(m == in.size() && std::equal(in.begin(), in.end(), dec.begin()), msg("decode (by input size) is not the inverse: ", m, " of ", in.size()));
        // an invalid character stops the decoder at its group
        std::string bad = enc;
        const size_t at = c.below(bad.size());
        bad[at] = c.pick({'\n', '-', '_', '\0', '!', char(0x80), char(0xff)});
        m = B64Converter::kwsysBase64_Decode((const unsigned char *)bad.data(), in.size(), dec.data(), 0);
        c.require(m <= 3 * (at / 4), msg("decoded ", m, " bytes although character ", at, " is invalid"));
    }
    std::vector<int> vi;
    std::vector<float> vf;
    std::vector<double> vd;
    for (size_t i = 0; i + 8 <= in.size(); i += 8) {
        int a;
        float b;
        double d;
        memcpy(&a, &in[i], 4), memcpy(&b, &in[i], 4), memcpy(&d, &in[i], 8);
        vi.push_back(a), vf.push_back(b), vd.push_back(d);
    }
    vecB64(c, in), vecB64(c, vi), vecB64(c, vf), vecB64(c, vd);
}

// ---------------------------------------------------------------------------------------------- C28
PBT_FACET(sorttag, "tags with many repetitions and distinct data, 0..3000 and sometimes up to 120000 entries, 1..8 threads; non-trivial: at least "
                   "one repeated tag out of order") {
    const int n = c.chance(1, 150) ? c.integer(3000, 120000) : c.below(8) == 0 ? c.integer(0, 3000) : c.sized(0, 80);
    const int kinds = c.pick({1, 2, 5, 50, 1000000});
    std::vector<int> tag(n);
    std::vector<double> data(n);
    std::mt19937 many(n > 3000 ? (unsigned)c.seed64() : 0u);
    for (int i = 0; i < n; i++)
        tag[i] = int(n > 3000 ? many() % kinds : c.below(kinds)) - kinds / 2, data[i] = i + 0.25;
    const int th = c.integer(1, 8);
    c << n << " entries, " << kinds << " distinct tags, " << th << " threads";
    c.nontrivial(n > 2 && !std::is_sorted(tag.begin(), tag.end()));
    omp_set_num_threads(th);
    auto t2 = tag;
    auto d2 = data;
    sortDataWithTag(t2, d2);
    omp_set_num_threads(1);
    c.require(t2.size() == size_t(n) && d2.size() == size_t(n), "length changed");
    std::vector<bool> seen(n, false);
    for (int i = 0; i < n; i++) {
        if (i)
            c.require(t2[i - 1] <= t2[i], msg("tags are not sorted at ", i));
        const int k = int(d2[i]);
        c.require(k >= 0 && k < n && d2[i] == k + 0.25 && !seen[k], "data is not a permutation of the input");
        seen[k] = true;
        c.require(tag[k] == t2[i], msg("entry ", i, ": data travelled with the wrong tag"));
        if (i && t2[i - 1] == t2[i])
            c.require(d2[i - 1] < d2[i], msg("equal tags lost their order at ", i));
    }
    // structures and strings, and tags with an ordering of their own
    struct Rec {
        int id;
        std::string s;
    };
    std::vector<std::string> ts(std::min(n, 40));
    std::vector<Rec> rs(ts.size());
    for (size_t i = 0; i < ts.size(); i++)
        ts[i] = std::string(c.below(3), 'a' + c.below(3)), rs[i] = Rec{int(i), ts[i] + "!"};
    auto ts0 = ts;
    sortDataWithTag(ts, rs);
    for (size_t i = 0; i < ts.size(); i++) {
        c.require(rs[i].s == ts[i] + "!" && ts0[rs[i].id] == ts[i], "record travelled with the wrong tag");
        if (i)
            c.require(ts[i - 1] < ts[i] || (ts[i - 1] == ts[i] && rs[i - 1].id < rs[i].id), "string tags not stably sorted");
    }
}

// ---------------------------------------------------------------------------------------------- C34
static void legendre(int n, long double x, long double &p, long double &dp) {
    long double p0 = 1, p1 = x;
    if (n == 0) {
        p = 1, dp = 0;
        return;
    }
    for (int k = 2; k <= n; k++) {
        const long double p2 = ((2 * k - 1) * x * p1 - (k - 1) * p0) / k;
        p0 = p1, p1 = p2;
    }
    p = p1;
    dp = n * (x * p1 - p0) / (x * x - 1);
}
template <class Real>
static void gaussCheck(Case &c, int n, double tol) {
    std::vector<Real> x, w;
    if (c.below(2)) // the caller's vectors need not be empty
        x.assign(c.below(200), 7), w.assign(c.below(200), 7);
    Gauss_Legendre_Nodes_and_Weights(n, x, w);
    c.require(int(x.size()) == n && int(w.size()) == n, msg("rule ", n, " has ", x.size(), " nodes, ", w.size(), " weights"));
    std::vector<double> rx(n), rw(n);
    for (int i = 0; i < n; i++) {
        long double z = -std::cos(M_PIl * (i + 0.75L) / (n + 0.5L)), p, dp;
        for (int it = 0; it < 100; it++) {
            legendre(n, z, p, dp);
            const long double dz = p / dp;
            z -= dz;
            if (std::fabs(dz) < 1e-19L)
                break;
        }
        legendre(n, z, p, dp);
        rx[i] = z, rw[i] = 2 / ((1 - z * z) * dp * dp);
        if (n == 1)
            rx[i] = 0, rw[i] = 2;
    }
    // as a set of (node, weight) pairs: the order is not part of the contract
    std::vector<std::pair<double, double>> got;
    for (int i = 0; i < n; i++)
        got.push_back({x[i], w[i]});
    std::sort(got.begin(), got.end());
    for (int i = 0; i < n; i++) {
        c.require(std::fabs(got[i].first - rx[i]) < tol, msg("rule ", n, ": node ", i, " = ", got[i].first, " expected ", rx[i]));
        c.require(std::fabs(got[i].second - rw[i]) < tol, msg("rule ", n, ": weight ", i, " = ", got[i].second, " expected ", rw[i]));
    }
}
PBT_FACET(gauss, "every rule order 1..128 in turn (double and float), integrating a random polynomial of the highest "
                 "exact degree; non-trivial: order >= 2") {
    const int n = (c.index < 128 && !c.replay) ? 1 + int(c.below(1) + c.index) : int(c.integer(1, 128));
    c << "order " << n;
    c.nontrivial(n >= 2);
    gaussCheck<double>(c, n, 1e-14);
    gaussCheck<float>(c, n, 2e-7);
    // exact for a random combination of Legendre polynomials up to degree 2n-1: only P_0 contributes
    std::vector<double> x, w;
    Gauss_Legendre_Nodes_and_Weights(n, x, w);
    const double a0 = c.generic(-2, 2);
    const int k = c.integer(1, std::max(1, 2 * n - 1));
    const double ak = c.generic(-2, 2);
    long double sum = 0;
    for (int i = 0; i < n; i++) {
        long double p, dp;
        legendre(k, x[i], p, dp);
        sum += w[i] * (a0 + ak * p);
    }
    c.require(std::fabs(double(sum) - 2 * a0) < 1e-12, msg("rule ", n, " does not integrate degree ", k, " exactly: ", double(sum), " vs ", 2 * a0));
}

// ---------------------------------------------------------------------------------------------- C31
namespace {
enum Kind { INT, DBL, STR, FLAG, VINT, VSTR };
struct Opt {
    std::string shortN, longN;
    Kind kind;
    bool required, flagDef;
    int iDef;
    double dDef;
    std::string sDef;
    // model state
    bool handled = false;
    std::vector<std::string> args;
};
} // namespace
static bool modelInt(const std::string &s, int &v) {
    char *e;
    errno = 0;
    long l = strtol(s.c_str(), &e, 0);
    if (e == s.c_str() || l > INT_MAX || l < INT_MIN || errno)
        return false;
    v = l;
    return true;
}
PBT_FACET(cmdline, "an option table (int, double, string, flag, lists; required or optional) and a command line mixing "
                   "known options, values, negative numbers, repetitions and junk; non-trivial: at least two options "
                   "given") {
    static const std::vector<std::string> names = {"n", "m", "x", "cfg", "v", "list", "s"};
    static const std::vector<std::string> longs = {"number", "mass", "xpos", "config", "verbose", "items", "name"};
    const int nOpt = c.integer(1, 5);
    std::vector<Opt> opts;
    for (int i = 0; i < nOpt; i++) {
        Opt o;
        o.shortN = names[i], o.longN = longs[i];
        o.kind = Kind(c.below(6));
        o.required = c.chance(1, 4);
        o.flagDef = c.below(2);
        o.iDef = c.integer(-5, 5);
        o.dDef = c.integer(-5, 5) * 0.5;
        o.sDef = c.pick({"", "def", "a b"});
        opts.push_back(o);
    }
    std::vector<std::string> argv = {"prog"};
    const int nTok = c.sized(0, 10);
    for (int i = 0; i < nTok; i++) {
        const int k = c.below(8);
        if (k < 4) {
            const Opt &o = opts[c.below(nOpt)];
            argv.push_back(c.below(2) ? "--" + o.longN : "-" + o.shortN);
            if (o.kind != FLAG && !c.chance(1, 8)) { // usually give it a fitting value
                const int cnt = o.kind >= VINT ? c.below(4) : 1;
                for (int q = 0; q < cnt; q++)
                    switch (o.kind) {
                    case INT:
                    case VINT:
                        argv.push_back(c.pick({"0", "7", "-3", "0x1F", "010", "2147483647", "-2147483648", "99999999999"}));
                        break;
                    case DBL:
                        argv.push_back(c.pick({"0", "1.5", "-2.25", "1e-3", "-1e300", "3"}));
                        break;
                    default:
                        argv.push_back(c.pick({"abc", "a b", "-q", "=", "x=1"}));
                    }
            }
        } else if (k == 4)
            argv.push_back(c.pick({"12", "-4", "3.5", "junk", "-zz", "--unknown"}));
        else
            i += 0;
    }
    c << "options:";
    for (auto &o : opts)
        c << " -" << o.shortN << (o.required ? "!" : "") << ":" << o.kind;
    c << " | argv:";
    for (auto &t : argv)
        c << " [" << t << "]";
    std::vector<char *> av;
    for (auto &t : argv)
        av.push_back(&t[0]);
    const std::vector<const char *> cav(av.begin(), av.end());
    std::unique_ptr<cli::Parser> made(c.below(2) ? new cli::Parser(int(av.size()), av.data()) : new cli::Parser(int(cav.size()), (const char **)cav.data()));
    cli::Parser &parser = *made;
    parser.disable_help();
    for (auto &o : opts) {
        switch (o.kind) {
        case INT:
            o.required ? parser.set_required<int>(o.shortN, o.longN) : parser.set_optional<int>(o.shortN, o.longN, o.iDef);
            break;
        case DBL:
            o.required ? parser.set_required<double>(o.shortN, o.longN) : parser.set_optional<double>(o.shortN, o.longN, o.dDef);
            break;
        case STR:
            o.required ? parser.set_required<std::string>(o.shortN, o.longN) : parser.set_optional<std::string>(o.shortN, o.longN, o.sDef);
            break;
        case FLAG:
            o.required = false;
            parser.set_optional<bool>(o.shortN, o.longN, o.flagDef);
            break;
        case VINT:
            o.required ? parser.set_required<std::vector<int>>(o.shortN, o.longN) : parser.set_optional<std::vector<int>>(o.shortN, o.longN, {o.iDef});
            break;
        case VSTR:
            o.required ? parser.set_required<std::vector<std::string>>(o.shortN, o.longN)
                       : parser.set_optional<std::vector<std::string>>(o.shortN, o.longN, {o.sDef});
            break;
        }
    }
    // model
    bool ok = true;
    int given = 0;
    Opt *cur = nullptr;
    for (size_t i = 1; i < argv.size() && ok; i++) {
        Opt *hit = nullptr;
        for (auto &o : opts)
            if (argv[i] == "-" + o.shortN || argv[i] == "--" + o.longN)
                hit = &o;
        if (hit) {
            cur = hit;
            given++;
            hit->handled = true;
        } else if (!cur)
            ok = false;
        else {
            cur->args.push_back(argv[i]);
            if (cur->kind < VINT)
                cur = nullptr;
        }
    }
    for (auto &o : opts)
        if (ok && o.required && !o.handled)
            ok = false;
    for (auto &o : opts) {
        if (!ok || !o.handled)
            continue;
        int v;
        if (o.kind == FLAG)
            ok = o.args.empty();
        else if (o.kind < VINT && o.args.size() != 1)
            ok = false;
        else if (o.kind == INT || o.kind == VINT) {
            for (auto &s : o.args)
                ok = ok && modelInt(s, v);
        } else if (o.kind == DBL) {
            char *e;
            strtod(o.args[0].c_str(), &e);
            ok = e != o.args[0].c_str();
        }
    }
    c.nontrivial(given >= 2);
    c.label(ok ? "accepted" : "rejected");
    std::ostringstream so, se;
    const bool got = parser.run(so, se);
    c.require(got == ok, msg("run() returned ", got, ", expected ", ok, " ", se.str()));
    c.require(got || !se.str().empty(), "rejected without a message");
    if (!ok)
        return;
    for (auto &o : opts) {
        std::vector<int> vi;
        int v = 0;
        switch (o.kind) {
        case INT:
            if (o.handled)
                modelInt(o.args[0], v);
            else
                v = o.iDef;
            c.require(parser.get<int>(o.shortN) == v, msg("-", o.shortN, " int"));
            break;
        case DBL:
            c.require(parser.get<double>(o.shortN) == (o.handled ? strtod(o.args[0].c_str(), nullptr) : o.dDef), msg("-", o.shortN, " double"));
            break;
        case STR:
            c.require(parser.get<std::string>(o.shortN) == (o.handled ? o.args[0] : o.sDef), msg("-", o.shortN, " string"));
            break;
        case FLAG:
            c.require(parser.get<bool>(o.shortN) == (o.handled ? !o.flagDef : o.flagDef), msg("-", o.shortN, " flag"));
            break;
        case VINT:
            if (o.handled)
                for (auto &s : o.args)
                    modelInt(s, v), vi.push_back(v);
            else
                vi = {o.iDef};
            c.require(parser.get<std::vector<int>>(o.shortN) == vi, msg("-", o.shortN, " int list"));
            break;
        case VSTR:
            c.require(parser.get<std::vector<std::string>>(o.shortN) == (o.handled ? o.args : std::vector<std::string>{o.sDef}), msg("-", o.shortN, " list"));
            break;
        }
        // asking with the wrong type or an unknown name is an error, not a value
        bool threw = false;
        try {
            parser.get<long double>(o.shortN);
        } catch (const std::runtime_error &) {
            threw = true;
        }
        c.require(threw, "a parameter was handed out with the wrong type");
    }
}

PBT_FACET(cmdtypes, "options of every further type (unsigned and long integers, single and extended precision, numbers in a given base, lists "
                    "of numbers), a default parameter, and callbacks of which some come before everything else; values at the limits of each "
                    "type, required options left out; non-trivial with at least two options given") {
    struct Exposed : cli::Parser {
        using cli::Parser::Parser;
        using cli::Parser::usage;
    };
    enum T { UINT, ULONG, ULL, LONG, FLT, LDBL, HEX, DBLS, CALL, FIRST, N };
    static const char *kinds[] = {"unsigned", "unsigned long", "unsigned long long", "long", "float", "long double", "base 16", "doubles", "callback", "dominant callback"};
    struct O {
        T t;
        std::string s, l, d;
        bool req, given = false;
        std::vector<std::string> args, seen;
        int calls = 0;
        bool good = true;
    };
    std::vector<O> opts(c.integer(1, 5));
    static const char *shorts[] = {"a", "bb", "c", "d-e", "f"}, *longs[] = {"alpha", "beta", "gamma", "delta-e", "eps"};
    for (size_t i = 0; i < opts.size(); i++) {
        O &o = opts[i];
        o.t = T(c.below(N));
        o.s = shorts[i];
        o.l = longs[i];
        o.d = msg("what option ", i, " is for");
        o.req = o.t < CALL && c.chance(1, 5);
    }
    const int deflt = c.below(3); // none, one string, list of strings
    const bool defltReq = deflt && c.chance(1, 5);
    std::vector<std::string> argv = {"a program"}, defArgs;
    auto value = [&](T t) -> std::string {
        switch (t) {
        case UINT:
            return c.pick({"0", "17", "4294967295", "0xff", "017", "junk"});
        case ULONG:
        case ULL:
            return c.pick({"0", "18446744073709551615", "0xFFFFFFFFFF", "0777", "18446744073709551616", "x1"});
        case LONG:
            return c.pick({"-9223372036854775808", "9223372036854775807", "-0x10", "12", "9223372036854775808", "--"});
        case FLT:
            return c.pick({"0.5", "-1e30", "3.14159274", "1e39", "e5"});
        case LDBL:
            return c.pick({"0.1", "-1e4000", "1e-4000", "3.141592653589793238", "zz"});
        case HEX:
            return c.pick({"ff", "-7F", "0x1a", "10", "g"});
        case DBLS:
            return c.pick({"1", "-2.5", "1e-7", "1e300", "q"});
        default:
            return c.pick({"word", "two words", "-1", "=", "0"});
        }
    };
    int given = 0;
    std::vector<size_t> pool;
    for (size_t i = 0; i < opts.size(); i++)
        pool.push_back(i);
    for (size_t i = pool.size(); i-- > 1;)
        std::swap(pool[i], pool[c.below(i + 1)]);
    bool ok = true;
    if (deflt && c.below(2)) { // words for the default parameter come first
        const int k = deflt == 1 ? 1 : c.integer(1, 3);
        for (int i = 0; i < k; i++) {
            defArgs.push_back(c.pick({"file.txt", "7", "a b", "=x"}));
            argv.push_back(defArgs.back());
        }
    }
    for (size_t q : pool) {
        O &o = opts[q];
        if (c.chance(1, 4))
            continue;
        o.given = true;
        given++;
        argv.push_back(c.below(2) ? "-" + o.s : "--" + o.l);
        const int k = c.chance(1, 10) ? 0 : o.t == DBLS ? c.below(4) : 1;
        for (int i = 0; i < k; i++) {
            o.args.push_back(value(o.t));
            argv.push_back(o.args.back());
        }
        o.good = o.t >= DBLS || k == 1;
        for (auto &w : o.args) {
            char *e = nullptr;
            errno = 0;
            switch (o.t) {
            case UINT:
            case ULONG:
            case ULL:
                strtoull(w.c_str(), &e, 0);
                break;
            case LONG:
                strtol(w.c_str(), &e, 0);
                break;
            case HEX: {
                const long v = strtol(w.c_str(), &e, 16);
                if (v > INT_MAX || v < INT_MIN)
                    errno = ERANGE;
                break;
            }
            case FLT:
                strtof(w.c_str(), &e);
                break;
            case LDBL:
                strtold(w.c_str(), &e);
                break;
            case DBLS:
                strtod(w.c_str(), &e);
                break;
            default:
                continue;
            }
            if (e == w.c_str() || errno)
                o.good = false;
        }
    }
    c << "options:";
    for (auto &o : opts)
        c << " -" << o.s << (o.req ? "!" : "") << ":" << kinds[o.t];
    c << " default " << deflt << (defltReq ? "!" : "") << " | argv:";
    for (auto &t : argv)
        c << " [" << t << "]";
    std::vector<char *> av;
    for (auto &t : argv)
        av.push_back(&t[0]);
    Exposed parser(int(av.size()), av.data());
    parser.disable_help();
    for (auto &o : opts) {
        auto call = std::function<int(cli::CallbackArgs &)>([&o](cli::CallbackArgs &a) {
            o.calls++;
            o.seen = a.arguments;
            a.output << "called " << o.l;
            return 1;
        });
#define DECLARE(...)                                                                                                                                                \
    o.req ? parser.set_required<__VA_ARGS__>(o.s, o.l, o.d) : parser.set_optional<__VA_ARGS__>(o.s, o.l, __VA_ARGS__(41), o.d)
        switch (o.t) {
        case UINT:
            DECLARE(unsigned);
            break;
        case ULONG: {
            using U = unsigned long;
            DECLARE(U);
            break;
        }
        case ULL: {
            using U = unsigned long long;
            DECLARE(U);
            break;
        }
        case LONG:
            DECLARE(long);
            break;
        case FLT:
            DECLARE(float);
            break;
        case LDBL: {
            using L = long double;
            DECLARE(L);
            break;
        }
        case HEX: {
            using H = cli::NumericalBase<int, 16>;
            DECLARE(H);
            break;
        }
        case DBLS: {
            using V = std::vector<double>;
            o.req ? parser.set_required<V>(o.s, o.l, o.d) : parser.set_optional<V>(o.s, o.l, V{41}, o.d);
            break;
        }
        case CALL:
            parser.set_callback<int>(o.s, o.l, call, o.d);
            break;
        default:
            parser.set_callback<int>(o.s, o.l, call, o.d, true);
        }
#undef DECLARE
    }
    if (deflt == 1)
        parser.set_default<std::string>(defltReq, "the word");
    if (deflt == 2)
        parser.set_default<std::vector<std::string>>(defltReq, "the words");
    // what counts: callbacks that come first, then required options, then the values in the order of declaration
    bool missing = defltReq && defArgs.empty();
    for (auto &o : opts)
        missing |= o.req && !o.given;
    // a callback takes the one word after it
    ok = !missing;
    for (auto &o : opts)
        ok = ok && (!o.given || o.good);
    c.nontrivial(given >= 2);
    c.label(ok ? "accepted" : "rejected");
    int required = defltReq;
    for (auto &o : opts)
        required += o.req;
    c.require(parser.requirements() == required, msg(parser.requirements(), " required options instead of ", required));
    c.require(parser.commands() == int(opts.size()) + (deflt > 0), msg(parser.commands(), " options"));
    c.require(parser.app_name() == "a program", msg("the program is called ", parser.app_name()));
    const std::string usage = parser.usage();
    for (auto &o : opts)
        c.require(usage.find("-" + o.s) != std::string::npos && usage.find("--" + o.l) != std::string::npos && usage.find(o.d) != std::string::npos, msg("the help does not mention -", o.s));
    std::ostringstream so, se;
    const bool got = parser.run(so, se);
    c.require(got == ok, msg("run() returned ", got, ", expected ", ok, " ", se.str()));
    c.require(got || !se.str().empty(), "rejected without a message");
    for (auto &o : opts)
        if (o.t >= CALL) {
            c.require(o.calls <= (o.given ? 1 : 0), msg("the callback of -", o.s, " was called ", o.calls, " times"));
            if (o.given && (ok || o.t == FIRST))
                c.require(o.calls == 1 && o.seen == o.args && so.str().find("called " + o.l) != std::string::npos, msg("the callback of -", o.s, " was not called with its arguments"));
        }
    if (!ok)
        return;
    for (auto &o : opts) {
        const std::string w = o.args.empty() ? "41" : o.args[0];
        if (o.req && !o.given)
            continue;
        switch (o.t) {
        case UINT:
            c.require(parser.get<unsigned>(o.s) == strtoull(w.c_str(), nullptr, 0), msg("-", o.s));
            break;
        case ULONG:
            c.require(parser.get<unsigned long>(o.s) == strtoull(w.c_str(), nullptr, 0), msg("-", o.s));
            break;
        case ULL:
            c.require(parser.get<unsigned long long>(o.s) == strtoull(w.c_str(), nullptr, 0), msg("-", o.s));
            break;
        case LONG:
            c.require(parser.get<long>(o.s) == strtol(w.c_str(), nullptr, 0), msg("-", o.s));
            break;
        case FLT:
            c.require(parser.get<float>(o.s) == strtof(w.c_str(), nullptr), msg("-", o.s));
            break;
        case LDBL:
            c.require(parser.get<long double>(o.s) == strtold(w.c_str(), nullptr), msg("-", o.s));
            break;
        case HEX:
            c.require((parser.get<cli::NumericalBase<int, 16>>(o.s).value == (o.given ? strtol(w.c_str(), nullptr, 16) : 41)), msg("-", o.s));
            break;
        case DBLS: {
            std::vector<double> v;
            for (auto &q : o.args)
                v.push_back(strtod(q.c_str(), nullptr));
            if (!o.given)
                v = {41};
            c.require(parser.get<std::vector<double>>(o.s) == v, msg("-", o.s));
            break;
        }
        default:
            break;
        }
    }
    if (deflt == 1 && defArgs.size())
        c.require(parser.get<std::string>("") == defArgs[0], "the default parameter");
    if (deflt == 2)
        c.require(parser.get<std::vector<std::string>>("") == defArgs, "the list of default parameters");
    if (deflt == 1 && defArgs.size())
        c.require(parser.get_if<std::string>("", [](std::string x) { return x + "!"; }) == defArgs[0] + "!", "the value handed on");
}

int main(int argc, char **argv) { return pbt::run(argc, argv); }

// ------------------------------------------------------------------------------------------------ VTK helpers (C18)
static std::string fileText(const std::string &f) {
    std::ifstream in(f, std::ios::binary);
    std::ostringstream s;
    s << in.rdbuf();
    return s.str();
}
template <class T>
static std::vector<T> anyValues(Case &c, int n) {
    std::vector<T> v(n);
    std::mt19937_64 g(c.seed64());
    for (auto &x : v) {
        const uint64_t b = g();
        if (std::is_same<T, uint8_t>::value || g() % 8 == 0)
            x = T(b % 255);
        else if (std::is_integral<T>::value)
            x = T(b);
        else
            x = T(std::ldexp(double(int64_t(b)), int(g() % 80) - 100));
    }
    return v;
}
PBT_FACET(vtkhelper, "files put together from the VTK helpers: heads and tails of the four grid kinds around data arrays of any type, length "
                     "and number of components, index files with any list of fields and pieces; decoded with an independent reader; "
                     "non-trivial with a data array that is not empty") {
    const std::string f = msg("vtkhelper-", getpid(), ".tmp");
    struct Clean {
        std::string f;
        ~Clean() { remove(f.c_str()); }
    } clean{f};
    const char *names[] = {"pos", "a", "velocity", "x_y", "Stress", "id0"};
    static const char *types[] = {"UInt8", "Int32", "Float32", "Float64"};
    auto num = [](const std::string &t) {
        std::vector<double> v;
        std::istringstream s(t);
        double x;
        while (s >> x)
            v.push_back(x);
        return v;
    };
    const int kind = c.below(5);
    if (kind < 4) {
        static const char *grids[] = {"UnstructuredGrid", "PolyData", "RectilinearGrid", "ImageData"};
        int low[3], high[3];
        double spacing[3], origin[3];
        for (int k = 0; k < 3; k++) {
            low[k] = c.integer(-50, 50), high[k] = low[k] + c.integer(0, 1000);
            spacing[k] = c.logReal(1e-3, 1e3), origin[k] = c.real(-100, 100);
        }
        struct Want {
            std::string name, type, bytes;
            int comp;
        };
        std::vector<Want> want;
        {
            std::ofstream o(f, std::ios::binary);
            if (kind == 0)
                IOHelper::writeHeadVTU(o);
            if (kind == 1)
                IOHelper::writeHeadVTP(o);
            if (kind == 2)
                IOHelper::writeHeadVTR(o, low, high);
            if (kind == 3)
                IOHelper::writeHeadVTI(o, low, high, spacing, origin);
            for (int i = c.below(5); i > 0; i--) {
                const int comp = c.pick({1, 3, 9, 2}), n = comp * c.sized(0, 40), ty = c.below(4);
                Want w{names[c.below(6)], types[ty], "", comp};
                auto put = [&](auto v) {
                    const auto copy = v;
                    IOHelper::writeDataArrayBase64(v, w.name, comp, o);
                    c.expect(v.size() == copy.size() && (v.empty() || !memcmp(v.data(), copy.data(), v.size() * sizeof(v[0]))), "writing changed the data");
                    w.bytes.assign(copy.empty() ? "" : (const char *)copy.data(), copy.size() * sizeof(copy[0]));
                };
                if (ty == 0)
                    put(anyValues<uint8_t>(c, n));
                if (ty == 1)
                    put(anyValues<int32_t>(c, n));
                if (ty == 2)
                    put(anyValues<float>(c, n));
                if (ty == 3)
                    put(anyValues<double>(c, n));
                c << w.name << " " << w.type << " x" << comp << " " << n << "; ";
                c.nontrivial(n > 0);
                want.push_back(w);
            }
            if (kind == 0)
                IOHelper::writeTailVTU(o);
            if (kind == 1)
                IOHelper::writeTailVTP(o);
            if (kind == 2)
                IOHelper::writeTailVTR(o);
            if (kind == 3)
                IOHelper::writeTailVTI(o);
        }
        c << grids[kind];
        c.label(grids[kind]);
        try {
            const auto d = vtkx::Scanner(fileText(f)).document();
            c.require(d.tag == "VTKFile" && d.at("type") == grids[kind] && d.kids.size() == 1 && d.kids[0].tag == grids[kind], "not a file of this grid kind");
            c.require(d.at("byte_order") == "LittleEndian" && d.at("header_type") == "UInt32", "byte order or header type");
            const auto &grid = d.kids[0];
            c.require(grid.kids.size() == want.size(), msg(grid.kids.size(), " arrays for ", want.size()));
            for (size_t i = 0; i < want.size(); i++) {
                const auto a = vtkx::arrayOf(grid.kids[i]);
                c.require(a.name == want[i].name && a.type == want[i].type && a.comp == want[i].comp, msg("array ", i, " is ", a.name, " ", a.type, " x", a.comp));
                c.require(a.bytes == want[i].bytes, msg("array ", i, " holds other values"));
            }
            if (kind >= 2) {
                const auto e = num(grid.at("WholeExtent"));
                c.require(e.size() == 6, "extent");
                for (int k = 0; k < 3; k++)
                    c.require(e[2 * k] == low[k] && e[2 * k + 1] == high[k], msg("extent in direction ", k, ": ", e[2 * k], " ", e[2 * k + 1]));
            }
            if (kind == 3) {
                const auto o = num(grid.at("Origin")), s = num(grid.at("Spacing"));
                c.require(o.size() == 3 && s.size() == 3, "origin or spacing");
                for (int k = 0; k < 3; k++)
                    c.require(std::fabs(o[k] - origin[k]) <= 1e-5 * std::fabs(origin[k]) && std::fabs(s[k] - spacing[k]) <= 1e-5 * spacing[k], msg("origin or spacing in direction ", k));
            }
        } catch (vtkx::Bad &b) {
            c.require(false, b.what);
        }
        return;
    }
    // index files
    std::vector<IOHelper::FieldVTU> fields[2];
    std::vector<std::string> pieces;
    for (int w = 0; w < 2; w++)
        for (int i = c.below(6), first = c.below(6); i > 0; i--)
            fields[w].emplace_back(c.pick({1, 3, 9, 2}), IOHelper::IOTYPE(c.below(4)), names[(first + i) % 6]);
    for (int i = c.integer(0, 5); i > 0; i--)
        pieces.push_back(msg("piece_r", c.below(100), "_", i, ".vtp"));
    const int form = c.below(4);
    const bool both = form & 1, poly = form & 2;
    if (poly)
        both ? IOHelper::writePVTPFile(f, fields[0], fields[1], pieces) : IOHelper::writePVTPFile(f, fields[0], pieces);
    else
        both ? IOHelper::writePVTUFile(f, fields[0], fields[1], pieces) : IOHelper::writePVTUFile(f, fields[0], pieces);
    const std::string tag = poly ? "PPolyData" : "PUnstructuredGrid";
    c << tag << " with " << fields[0].size() << "+" << (both ? fields[1].size() : 0) << " fields, " << pieces.size() << " pieces";
    c.label(tag);
    c.nontrivial(fields[0].size() && pieces.size());
    try {
        const auto d = vtkx::Scanner(fileText(f)).document();
        c.require(d.tag == "VTKFile" && d.at("type") == tag && d.kids.size() == 1 && d.kids[0].tag == tag, "not an index of this kind");
        c.require(d.at("byte_order") == "LittleEndian", "byte order");
        const auto &grid = d.kids[0];
        for (int w = 0; w < (both ? 2 : 1); w++) {
            const auto *n = grid.kid(w ? "PCellData" : "PPointData");
            c.require(n && n->kids.size() == fields[w].size(), "number of declared fields");
            for (size_t i = 0; i < fields[w].size(); i++) {
                const auto &x = n->kids[i];
                c.require(x.tag == "PDataArray" && x.at("Name") == fields[w][i].name && x.at("type") == types[int(fields[w][i].type)] &&
                              x.at("NumberOfComponents") == msg(fields[w][i].dimension),
                          msg("field ", i, " is declared as ", x.at("Name"), " ", x.at("type"), " x", x.at("NumberOfComponents")));
            }
        }
        const auto *pts = grid.kid("PPoints");
        c.require(pts && pts->kids.size() == 1 && pts->kids[0].at("NumberOfComponents") == "3" && pts->kids[0].at("type") == "Float64", "points");
        std::vector<std::string> got;
        for (auto &k : grid.kids)
            if (k.tag == "Piece")
                got.push_back(k.at("Source"));
        c.require(got == pieces, "pieces");
    } catch (vtkx::Bad &b) {
        c.require(false, b.what);
    }
}
