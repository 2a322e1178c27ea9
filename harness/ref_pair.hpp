/** reference model of rods as seen by contact detection */
#pragma once
#include "gen_geom.hpp"
#include "Constraint/ConstraintBlock.hpp"

struct RefRod { // collision sizes
    int gid = 0;
    double radius = 0, length = 0, buf = 0;
    gen::A3 pos{0, 0, 0}, dir{0, 0, 1};
    /// shorter than its diameter: treated as the enclosing sphere
    bool isSphere() const { return length < 2 * radius; }
    double coreRadius() const { return isSphere() ? radius + 0.5 * length : radius; }
    double coreLength() const { return isSphere() ? 0.0 : length; }
    double bufLength() const { return coreRadius() * buf; }
    double outer() const { return radius + 0.5 * length; }
    double size() const { return radius + length; }
    ref::V3 end(int s, const gen::A3 &p) const { return ref::V3(p.data()) + ref::V3(dir.data()) * (s * 0.5L * coreLength()); }
};

inline double refAxisDistance(const RefRod &I, const RefRod &J, const gen::A3 &pI, const gen::A3 &pJ) {
    return double(std::sqrt(ref::segSeg2(I.end(-1, pI), I.end(1, pI), J.end(-1, pJ), J.end(1, pJ))));
}
inline double refSeparation(const RefRod &I, const RefRod &J, const gen::A3 &pI, const gen::A3 &pJ) {
    return refAxisDistance(I, J, pI, pJ) - I.coreRadius() - J.coreRadius();
}
inline double refSeparation(const RefRod &I, const RefRod &J) { return refSeparation(I, J, I.pos, J.pos); }

/// virial of one body for a force f at p (relative to the centre c): c f + rho int x (angular acceleration cross x) dV
/// the body is a uniform spherocylinder of unit density
inline void refBodyVirial(const RefRod &b, bool useLength, double length, double radius, const gen::A3 &c, const ref::V3 &rel,
                          const ref::V3 &f, ref::R S[3][3]) {
    using ref::R;
    using ref::V3;
    const R r = radius, h = useLength ? length : 0, pi = acosl(-1.0L);
    // second moments of a spherocylinder about its centre, integrated directly
    // cylinder: int x^2 = pi r^4 h / 4, int z^2 = pi r^2 h^3 / 12
    // two half balls at z = +-h/2 facing outwards: int x^2 = 4 pi r^5 / 15 (together)
    // int z^2 = 4 pi r^5/15 + 2 * (h/2)^2 * (2 pi r^3/3) + 2 * 2 * (h/2) * (pi r^4/4)
    const R a = pi * r * r * r * r * h / 4 + 4 * pi * r * r * r * r * r / 15;
    const R z = pi * r * r * h * h * h / 12 + 4 * pi * r * r * r * r * r / 15 + h * h * pi * r * r * r / 3 + h * pi * r * r * r * r / 2;
    const V3 u(b.dir.data());
    const V3 tau = rel.cross(f);
    // inertia: about the axis 2a, across a+z
    const R tp = tau.dot(u);
    const V3 alpha = u * (tp / (2 * a)) + (tau - u * tp) * (1 / (a + z));
    // N = a (1 - uu) + z uu ; S_ij = sum_l N_il (alpha x e_l)_j
    for (int l = 0; l < 3; l++) {
        V3 el(l == 0, l == 1, l == 2);
        V3 acc = alpha.cross(el);
        for (int i = 0; i < 3; i++) {
            R N = (i == l ? a : 0) + (z - a) * u[i] * u[l];
            for (int j = 0; j < 3; j++)
                S[i][j] += N * acc[j];
        }
    }
    for (int i = 0; i < 3; i++)
        for (int j = 0; j < 3; j++)
            S[i][j] += R(c[i]) * f[j];
}

/// how far the computed distance of two axes may exceed the true one: for nearly parallel axes the closest points are ill-conditioned,
/// the squared distance is not
inline double distanceSlack(const RefRod &I, const RefRod &J, double d) {
    const double s2 = std::pow(1e-7 * (I.size() + J.size()), 2);
    return s2 / std::max(d, std::sqrt(s2));
}

/// everything a collision constraint must satisfy; returns the first complaint
inline std::string checkPairBlock(const ConstraintBlock &b, const RefRod &I, const RefRod &J, int idxI, int idxJ, const gen::A3 &pI,
                                  const gen::A3 &pJ, double sep, double tol, bool solved = false) {
    using pbt::msg;
    using ref::V3;
    if (b.gidI != I.gid || b.gidJ != J.gid)
        return msg("bodies recorded as ", b.gidI, " ", b.gidJ);
    if (b.globalIndexI != idxI || b.globalIndexJ != idxJ)
        return msg("global indices ", b.globalIndexI, " ", b.globalIndexJ, " instead of ", idxI, " ", idxJ);
    if (b.oneSide || b.bilateral)
        return "flags of a collision are wrong";
    if (b.gammaLB != 0)
        return "lower bound of a collision force is not zero";
    const V3 labI(b.labI), labJ(b.labJ), cI(pI.data()), cJ(pJ.data());
    const double exact = sep + I.coreRadius() + J.coreRadius(), d = double((labI - labJ).norm());
    if (!(b.delta0 >= sep - tol && b.delta0 <= sep + tol + distanceSlack(I, J, exact)))
        return msg("gap ", b.delta0);
    if (!(std::fabs(d - I.coreRadius() - J.coreRadius() - b.delta0) <= tol))
        return msg("contact points are ", d, " apart, the gap is ", b.delta0);
    // after the solution the magnitude is the computed one, and the stress belongs to it
    if (!solved && (!(b.gamma >= 0) || std::fabs(b.gamma - std::max(0.0, -b.delta0)) > tol))
        return msg("initial force ", b.gamma);
    if (double(ref::pointSeg2(labI, I.end(-1, pI), I.end(1, pI))) > tol * tol)
        return msg("contact point of ", I.gid, " is not on its axis");
    if (double(ref::pointSeg2(labJ, J.end(-1, pJ), J.end(1, pJ))) > tol * tol)
        return msg("contact point of ", J.gid, " is not on its axis");
    if (double((labI - cI - V3(b.posI)).norm()) > tol || double((labJ - cJ - V3(b.posJ)).norm()) > tol)
        return "contact point relative to the centre is wrong";
    if (d > 1e3 * tol) { // otherwise the direction is undefined up to rounding
        const double ntol = 4 * tol / d + 1e-13;
        const V3 n = (labI - labJ).unit();
        if (double((V3(b.normI) - n).norm()) > ntol || double((V3(b.normJ) + n).norm()) > ntol)
            return msg("normals ", gen::show({b.normI[0], b.normI[1], b.normI[2]}), " ",
                       gen::show({b.normJ[0], b.normJ[1], b.normJ[2]}), " instead of +-", gen::show({double(n.x), double(n.y), double(n.z)}));
        ref::R S[3][3] = {};
        refBodyVirial(I, true, I.coreLength(), I.coreRadius(), pI, V3(b.posI), n, S);
        refBodyVirial(J, true, J.coreLength(), J.coreRadius(), pJ, V3(b.posJ), n * -1, S);
        const double f = solved ? b.gamma : 1; // the solver multiplies the stress by the force
        const double sscale = gen::nrm(pI) + gen::nrm(pJ) + I.size() + J.size();
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                if (!(std::fabs(double(S[i][j]) * f - b.stress[3 * i + j]) <= sscale * (ntol + 1e-11) * std::fabs(f)))
                    return msg(solved ? "stress (" : "unit-force stress (", i, ",", j, ") is ", b.stress[3 * i + j], ", the rigid-body virial is ", double(S[i][j]) * f, solved ? msg(" for the force ", f) : "");
    }
    return "";
}
