/** whole time steps: velocities and motion (C12), separation (C13), conservation (C14), rank independence (C15), Brownian motion (C30) */
#include "gen_system.hpp"

using namespace pbt;
using namespace sysgen;

namespace {
/// external data of a particle: depends on its identity only
struct Drive {
    uint64_t seed;
    double scale;
    bool on;
    std::array<double, 6> of(const Sylinder &s, bool velocity) const {
        std::array<double, 6> a{};
        std::mt19937_64 g(seed + 977 * s.gid + (velocity ? 13 : 0));
        std::normal_distribution<double> N(0, 1);
        for (int k = 0; k < 6; k++)
            a[k] = scale * N(g);
        if (velocity && s.isImmovable)
            a.fill(0);
        return a;
    }
    std::vector<double> local(SylinderSystem &sys, bool velocity) const {
        auto &con = sys.getContainerNonConst();
        std::vector<double> v;
        for (int i = 0; i < con.getNumberOfParticleLocal(); i++)
            for (double x : of(con[i], velocity))
                v.push_back(x);
        return v;
    }
};
using M6 = std::array<double, 36>;
/// the mobility blocks of all particles, from the operator
std::vector<M6> mobBlocks(SylinderSystem &sys, const State &st) {
    auto mob = sys.getMobOperator();
    auto map = mob->getDomainMap();
    const int nl = st.counts[mpiRank()];
    std::vector<M6> mine(nl);
    for (int k = 0; k < 6; k++) {
        auto F = Teuchos::rcp(new TV(map, true)), V = Teuchos::rcp(new TV(map, true));
        auto p = F->getLocalView<Kokkos::HostSpace>();
        F->modify<Kokkos::HostSpace>();
        for (int i = 0; i < nl; i++)
            p(6 * i + k, 0) = 1;
        mob->apply(*F, *V);
        auto v = V->getLocalView<Kokkos::HostSpace>();
        for (int i = 0; i < nl; i++)
            for (int j = 0; j < 6; j++)
                mine[i][6 * j + k] = v(6 * i + j, 0);
    }
    return allGather(mine);
}
struct V6 {
    LD a[6] = {0, 0, 0, 0, 0, 0};
};
V6 times(const M6 &m, const V6 &f) {
    V6 v;
    for (int i = 0; i < 6; i++)
        for (int j = 0; j < 6; j++)
            v.a[i] += (LD)m[6 * i + j] * f.a[j];
    return v;
}
/// generalised force directions of one constraint on its (one or two) bodies
struct Row {
    int body[2] = {-1, -1};
    V6 d[2];
};
Row rowOf(const ConstraintBlock &b) {
    Row r;
    auto fill = [](V6 &d, const double *n, const double *p) {
        const ref::V3 t = ref::V3(p).cross(ref::V3(n));
        for (int k = 0; k < 3; k++) {
            d.a[k] = n[k];
            d.a[3 + k] = t[k];
        }
    };
    r.body[0] = b.globalIndexI;
    fill(r.d[0], b.normI, b.posI);
    if (!b.oneSide) {
        r.body[1] = b.globalIndexJ;
        fill(r.d[1], b.normJ, b.posJ);
    }
    return r;
}
LD rate(const Row &r, const std::vector<V6> &v) {
    LD s = 0;
    for (int e = 0; e < 2; e++)
        if (r.body[e] >= 0)
            for (int k = 0; k < 6; k++)
                s += r.d[e].a[k] * v[r.body[e]].a[k];
    return s;
}
void addForce(const Row &r, LD g, std::vector<V6> &f) {
    for (int e = 0; e < 2; e++)
        if (r.body[e] >= 0)
            for (int k = 0; k < 6; k++)
                f[r.body[e]].a[k] += g * r.d[e].a[k];
}
/// what the solver says about its own last residual (-1: nothing)
double reportedResidual() {
    double r = -1;
    for (auto &l : logSink()->lines) {
        double a[6];
        const size_t at = l.find("residue ");
        if (at != std::string::npos && sscanf(l.c_str() + at + 8, "%lf, %lf, %lf, %lf, %lf, %lf", a, a + 1, a + 2, a + 3, a + 4, a + 5) == 6)
            r = a[4];
    }
    // only one rank may have a log
    double best = -1;
    MPI_Allreduce(&r, &best, 1, MPI_DOUBLE, MPI_MAX, MPI_COMM_WORLD);
    return best;
}
bool indicesFit(Case &c, const State &st, const Blocks &bl) {
    for (size_t i = 0; i < st.sy.size(); i++)
        if (!c.expect(st.sy[i].globalIndex == (int)i, msg("global index of particle ", st.sy[i].gid, " is ", st.sy[i].globalIndex, " instead of ", i)))
            return false;
    for (auto &b : bl.b) {
        const int n = st.sy.size();
        const bool ok = b.globalIndexI >= 0 && b.globalIndexI < n && st.sy[b.globalIndexI].gid == b.gidI &&
                        (b.oneSide || (b.globalIndexJ >= 0 && b.globalIndexJ < n && st.sy[b.globalIndexJ].gid == b.gidJ));
        if (!c.expect(ok, msg("constraint ", b.gidI, " ", b.gidJ, " with global indices ", b.globalIndexI, " ", b.globalIndexJ)))
            return false;
    }
    return true;
}
ref::Q quatOf(const Sylinder &s) { return ref::Q{s.orientation[3], s.orientation[0], s.orientation[1], s.orientation[2]}; }
ref::Q rotation(const double *om, double dt) {
    const ref::V3 w(om);
    const LD n = w.norm(), h = n * dt / 2;
    const LD s = n > 0 ? sinl(h) / n : 0;
    return {cosl(h), w.x * s, w.y * s, w.z * s};
}
double qdist(const ref::Q &a, const ref::Q &b) {
    auto d = [](const ref::Q &x, const ref::Q &y, int s) {
        return std::sqrt((x.w - s * y.w) * (x.w - s * y.w) + (x.x - s * y.x) * (x.x - s * y.x) + (x.y - s * y.y) * (x.y - s * y.y) + (x.z - s * y.z) * (x.z - s * y.z));
    };
    return double(std::min(d(a, b, 1), d(a, b, -1)));
}
/// data of a particle that no motion may change
std::string identity(const Sylinder &a, const Sylinder &b) {
    if (a.gid != b.gid)
        return msg("particle ", b.gid, " in place of ", a.gid);
    if (a.group != b.group)
        return "group";
    if (a.isImmovable != b.isImmovable)
        return "immovable flag";
    if (a.radius != b.radius || a.length != b.length)
        return "shape";
    return "";
}
} // namespace

PBT_FACET(step,
          "random systems with links, walls, immovable particles, temperatures, monolayers and both solvers; one to three steps "
          "with random external forces and velocities keyed by particle; every velocity and force contribution is recomputed in "
          "long double from the collected constraints; non-trivial with a moving particle and a constraint") {
    SceneOpt opt;
    opt.maxRods = 12;
    opt.mayMonolayer = true;
    opt.pLinks = 0.4;
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    if (c.chance(1, 4) && !cfg.monolayer)
        s.walls.push_back(wallNear(c, s));
    cfg.dt = c.pick({0.01, 1e-4, 0.1});
    cfg.timeSnap = cfg.dt * c.pick({1000.0, 1.0, 2.0});
    cfg.viscosity = c.pick({1.0, 0.1, 20.0});
    cfg.conMaxIte = c.pick({200, 1, 10, 1000});
    cfg.conResTol = c.pick({1e-5, 1e-8});
    const bool brown = c.chance(1, 4);
    if (brown)
        cfg.KBT = c.logReal(1e-4, 1);
    cfg.sylinderFixed = c.chance(1, 10);
    cfg.rngSeed = c.below(10000);
    const bool overlapFree = c.chance(1, 2);
    (void)overlapFree;
    c << s.show() << " dt " << cfg.dt << " KBT " << cfg.KBT << (cfg.sylinderFixed ? " fixed" : "") << " maxIte " << cfg.conMaxIte;
    Sim sim(s);
    const int steps = c.integer(1, 3);
    for (int k = 0; k < steps && !c.failed; k++) {
        sim->prepareStep();
        const State st = state(*sim.sys);
        Drive F{c.seed64(), c.pick({1.0, 30.0, 0.01}), !c.chance(1, 4)}, U{c.seed64(), c.pick({1.0, 0.1, 10.0}), !c.chance(1, 3)};
        if (F.on)
            sim->setForceNonBrown(F.local(*sim.sys, false));
        if (U.on)
            sim->setVelocityNonBrown(U.local(*sim.sys, true));
        auto mob = mobBlocks(*sim.sys, st);
        const int count = sim->getStepCount();
        sim->runStep();
        const State en = state(*sim.sys);
        const Blocks bl = blocks(*sim.sys);
        const std::string when = msg("step ", k);
        c.expect(sim->getStepCount() == count + 1, msg(when, ": step count ", sim->getStepCount(), " after ", count));
        c.require(en.counts == st.counts, msg(when, ": the step moved particles between ranks"));
        if (!indicesFit(c, st, bl))
            break;
        const int n = st.sy.size();
        std::vector<V6> fu(n), fb(n);
        std::vector<LD> fs(n, 0.0L); // sum of force sizes: rounding
        bool finiteAll = true, active = false, crossing = false;
        for (auto &b : bl.b) {
            finiteAll &= finite(b.normI, 3) && std::isfinite(b.gamma);
            const Row r = rowOf(b);
            addForce(r, b.gamma, b.bilateral ? fb : fu);
            active |= b.gamma != 0;
            for (int e = 0; e < 2; e++)
                if (r.body[e] >= 0) {
                    LD q = 0;
                    for (double x : r.d[e].a)
                        q += std::fabs(x);
                    fs[r.body[e]] += std::fabs(b.gamma) * q;
                }
            // in a layer all normals are in the plane, unless two axes cross
            if (std::fabs(b.normI[2]) > 1e-6)
                crossing = true;
        }
        if (!finiteAll)
            break;
        c.label("constraint", bl.b.size() > 0);
        c.label("active constraint", active);
        c.label("bilateral", s.links.size() > 0);
        c.label("Brownian", brown);
        c.label("monolayer", cfg.monolayer);
        for (int i = 0; i < n && !c.failed; i++) {
            const Sylinder &a = st.sy[i], &b = en.sy[i];
            const std::string who = msg(when, " particle ", a.gid, a.isImmovable ? " (immovable)" : "");
            const std::string id = identity(a, b);
            if (!c.expect(id.empty(), msg(who, ": ", id, " changed")))
                break;
            // forces
            auto f = F.on ? F.of(a, false) : std::array<double, 6>{};
            auto u = U.on ? U.of(a, true) : std::array<double, 6>{};
            auto part = [](const double *v, const double *w) { return std::array<double, 6>{v[0], v[1], v[2], w[0], w[1], w[2]}; };
            const auto fNon = part(b.forceNonB, b.torqueNonB), fCol = part(b.forceCol, b.torqueCol), fBi = part(b.forceBi, b.torqueBi), fAll = part(b.force, b.torque);
            const auto vNon = part(b.velNonB, b.omegaNonB), vCol = part(b.velCol, b.omegaCol), vBi = part(b.velBi, b.omegaBi), vBr = part(b.velBrown, b.omegaBrown),
                       vAll = part(b.vel, b.omega);
            const bool layer[6] = {0, 0, cfg.monolayer, cfg.monolayer, cfg.monolayer, 0};
            V6 F6;
            for (int q = 0; q < 6; q++)
                F6.a[q] = f[q];
            const V6 mf = times(mob[i], F6), mu = times(mob[i], fu[i]), mb = times(mob[i], fb[i]);
            LD ms = 0;
            for (double x : mob[i])
                ms = std::max(ms, (LD)std::fabs(x));
            LD fscale = 0;
            for (double x : f)
                fscale += std::fabs(x);
            for (int q = 0; q < 6; q++) {
                const char *ax[] = {"x", "y", "z", "rx", "ry", "rz"};
                const double ft = 1e-11 * (double)fs[i] + 1e-14, vt = ft * (double)ms * 6 + 1e-14;
                if (!layer[q]) {
                    c.expect(fNon[q] == f[q], msg(who, ": external force ", ax[q], " is ", fNon[q], ", given ", f[q]));
                    c.expect(std::fabs(vNon[q] - (double)(u[q] + mf.a[q])) <= 1e-12 * (double)(std::fabs(u[q]) + 6 * ms * fscale), //
                             msg(who, ": non-Brownian velocity ", ax[q], " is ", vNon[q], " instead of ", (double)(u[q] + mf.a[q])));
                }
                c.expect(std::fabs(fCol[q] - (double)fu[i].a[q]) <= ft, msg(who, ": collision force ", ax[q], " is ", fCol[q], ", the constraints give ", (double)fu[i].a[q]));
                c.expect(std::fabs(fBi[q] - (double)fb[i].a[q]) <= ft, msg(who, ": bilateral force ", ax[q], " is ", fBi[q], ", the constraints give ", (double)fb[i].a[q]));
                c.expect(std::fabs(vCol[q] - (double)mu.a[q]) <= vt, msg(who, ": collision velocity ", ax[q], " is ", vCol[q], " instead of ", (double)mu.a[q]));
                c.expect(std::fabs(vBi[q] - (double)mb.a[q]) <= vt, msg(who, ": bilateral velocity ", ax[q], " is ", vBi[q], " instead of ", (double)mb.a[q]));
                if (!brown || b.isImmovable)
                    c.expect(vBr[q] == 0, msg(who, ": Brownian velocity ", ax[q], " is ", vBr[q]));
                else if (!layer[q])
                    c.expect(vBr[q] != 0 && std::isfinite(vBr[q]), msg(who, ": Brownian velocity ", ax[q], " is ", vBr[q]));
                const LD vsum = (LD)vNon[q] + vBr[q] + vCol[q] + vBi[q], fsum = (LD)fNon[q] + fCol[q] + fBi[q];
                const double vs = std::fabs(vNon[q]) + std::fabs(vBr[q]) + std::fabs(vCol[q]) + std::fabs(vBi[q]);
                const double fss = std::fabs(fNon[q]) + std::fabs(fCol[q]) + std::fabs(fBi[q]);
                c.expect(std::fabs((double)(vAll[q] - vsum)) <= 1e-14 * vs + 1e-300, msg(who, ": velocity ", ax[q], " is ", vAll[q], ", the parts add up to ", (double)vsum));
                c.expect(std::fabs((double)(fAll[q] - fsum)) <= 1e-14 * fss + 1e-300, msg(who, ": force ", ax[q], " is ", fAll[q], ", the parts add up to ", (double)fsum));
            }
            // motion
            LD size = 0, wn = ref::V3(b.omega).norm();
            for (int q = 0; q < 3; q++)
                size += std::fabs(a.pos[q]) + std::fabs(b.vel[q] * cfg.dt);
            if (cfg.sylinderFixed) {
                c.expect(!memcmp(a.pos, b.pos, sizeof a.pos) && !memcmp(a.orientation, b.orientation, sizeof a.orientation), msg(who, ": moved although particles are fixed"));
                continue;
            }
            for (int q = 0; q < 3; q++)
                c.expect(std::fabs(double((LD)a.pos[q] + (LD)b.vel[q] * cfg.dt - b.pos[q])) <= 4e-16 * (double)size, msg(who, ": moved by ", b.pos[q] - a.pos[q], " with velocity ", b.vel[q]));
            const ref::Q want = (rotation(b.omega, cfg.dt) * quatOf(a)).unit();
            c.expect(qdist(want, quatOf(b)) <= 1e-12 * (double)(1 + wn * cfg.dt), msg(who, ": orientation after the step is off by ", qdist(want, quatOf(b))));
            c.expect(std::fabs(double(quatOf(b).norm()) - 1) <= 1e-12, msg(who, ": orientation has norm ", double(quatOf(b).norm())));
            if (a.isImmovable)
                c.expect(!memcmp(a.pos, b.pos, sizeof a.pos) && !memcmp(a.orientation, b.orientation, sizeof a.orientation), msg(who, ": moved"));
            if (cfg.monolayer) {
                const double mid = (cfg.simBoxLow[2] + cfg.simBoxHigh[2]) / 2;
                c.expect(std::fabs(a.pos[2] - mid) <= 4e-16 * (std::fabs(cfg.simBoxLow[2]) + std::fabs(cfg.simBoxHigh[2])) && std::fabs(double(axisOf(a).z)) < 1e-12, msg(who, ": not in the layer when the step begins: ", a.pos[2]));
                if (!crossing) {
                    const double t = 1e-9 * (double)(1 + size + wn * cfg.dt + fs[i] * ms * cfg.dt);
                    c.expect(std::fabs(b.pos[2] - mid) <= t, msg(who, ": left the layer by ", b.pos[2] - mid));
                    c.expect(std::fabs(double(axisOf(b).z)) <= t, msg(who, ": turned out of the layer by ", double(axisOf(b).z)));
                }
            }
            double dx = 0;
            for (int q = 0; q < 3; q++)
                dx += std::fabs(b.pos[q] - a.pos[q]);
            c.nontrivial(dx > 0 && bl.b.size() > 0);
        }
    }
}

namespace {
/// contact of two segments in long double: normal (from J to I) and whether the linearised gap bounds the motion to second order
struct Contact {
    LD dist = 0;
    ref::V3 n;
    bool regular = false;
    LD curv = 0; // second order coefficient is curv * disp^2
};
Contact contactOf(const RefRod &I, const RefRod &J, const A3 &pI, const A3 &pJ) {
    using ref::V3;
    Contact k;
    const V3 a0 = I.end(-1, pI), a1 = I.end(1, pI), b0 = J.end(-1, pJ), b1 = J.end(1, pJ);
    const V3 u = a1 - a0, v = b1 - b0;
    LD best = 1e30L, t = 0;
    int kind = -1;
    V3 n;
    auto cand = [&](int q, const V3 &d) {
        const LD l = d.norm();
        if (l < best) {
            best = l;
            kind = q;
            n = d;
        }
    };
    ref::pointSeg2(a0, b0, b1, &t);
    cand(t > 0 && t < 1 ? 0 : 2, a0 - (b0 + v * t));
    if (!I.isSphere()) {
        ref::pointSeg2(a1, b0, b1, &t);
        cand(t > 0 && t < 1 ? 0 : 2, a1 - (b0 + v * t));
    }
    ref::pointSeg2(b0, a0, a1, &t);
    cand(t > 0 && t < 1 ? 1 : 2, (a0 + u * t) - b0);
    if (!J.isSphere()) {
        ref::pointSeg2(b1, a0, a1, &t);
        cand(t > 0 && t < 1 ? 1 : 2, (a0 + u * t) - b1);
    }
    const V3 cr = u.cross(v), w = a0 - b0;
    const LD c2 = cr.dot(cr);
    const LD sn = (I.isSphere() || J.isSphere()) ? 0 : std::sqrt(c2) / (u.norm() * v.norm());
    if (c2 > 0 && sn > 1e-6L) {
        const LD s = -w.cross(v).dot(cr) / c2, tt = -w.cross(u).dot(cr) / c2;
        if (s > 0 && s < 1 && tt > 0 && tt < 1) {
            const V3 d = (a0 + u * s) - (b0 + v * tt);
            if (d.norm() < best) {
                best = d.norm();
                n = d;
                kind = 3;
                k.regular = sn > 0.3L && std::min(std::min(s, 1 - s), std::min(tt, 1 - tt)) > 0.02L;
            }
        }
    }
    k.dist = best;
    if (best <= 0)
        return k;
    k.n = n * (1 / best);
    const LD lu = u.norm(), lv = v.norm();
    const LD nu = lu > 0 ? std::fabs(k.n.dot(u)) / lu : 1, nv = lv > 0 ? std::fabs(k.n.dot(v)) / lv : 1;
    // a sphere against anything is convex; an end contact is stable when the rod leans away from the other body
    if (kind == 0)
        k.regular = I.isSphere() || nu > 0.2L;
    if (kind == 1)
        k.regular = J.isSphere() || nv > 0.2L;
    if (kind == 2)
        k.regular = (I.isSphere() || nu > 0.2L) && (J.isSphere() || nv > 0.2L);
    k.curv = 60 / std::min(best, std::min((LD)I.coreRadius(), (LD)J.coreRadius()));
    return k;
}
/// everything C13 says about one step; returns whether the solver claims convergence
bool checkSeparation(Case &c, Scene &s, const State &st, const State &en, const Blocks &bl, double res, const std::string &when) {
    auto &cfg = s.cfg;
    const int n = st.sy.size();
    std::vector<V6> v(n);
    LD vmax = 0;
    for (int i = 0; i < n; i++)
        for (int q = 0; q < 3; q++) {
            v[i].a[q] = en.sy[i].vel[q];
            v[i].a[3 + q] = en.sy[i].omega[q];
            vmax = std::max(vmax, std::max(std::fabs(v[i].a[q]), std::fabs(v[i].a[3 + q])));
        }
    if (!(res >= 0 && res <= cfg.conResTol) || !(vmax < 1e30L))
        return false;
    LD scale = 0;
    for (int i = 0; i < n; i++)
        scale = std::max(scale, (LD)(st.sy[i].length + st.sy[i].radius));
    const LD tol = 1.01L * res * cfg.dt + 1e-11L * (1 + scale) * (1 + vmax * cfg.dt);
    for (auto &b : bl.b) {
        if (b.bilateral)
            continue;
        const LD gap = b.delta0 + cfg.dt * rate(rowOf(b), v);
        c.expect(gap >= -tol, msg(when, ": the linearised gap of ", b.gidI, " and ", b.oneSide ? std::string("a boundary") : msg(b.gidJ), " is ", (double)gap, " (before: ", b.delta0, ", residual ", res,
                                  ") although the solver converged"));
        c.expect(b.gamma >= 0, msg(when, ": a contact between ", b.gidI, " and ", b.gidJ, " pulls: ", b.gamma));
    }
    // true separation
    auto disp = [&](int i) {
        LD t = 0, w = 0;
        for (int q = 0; q < 3; q++) {
            t += v[i].a[q] * v[i].a[q];
            w += v[i].a[3 + q] * v[i].a[3 + q];
        }
        return cfg.dt * (std::sqrt(t) + std::sqrt(w) * (st.sy[i].lengthCollision / 2 + st.sy[i].radiusCollision));
    };
    for (int i = 0; i < n && !c.failed; i++)
        for (int j = i + 1; j < n && !c.failed; j++) {
            const RefRod I = refRod(st.sy[i]), J = refRod(st.sy[j]);
            const A3 pJ = image(cfg, I.pos, J.pos);
            const Contact k = contactOf(I, J, I.pos, pJ);
            const LD d = disp(i) + disp(j), R = (LD)I.coreRadius() + J.coreRadius();
            if (d > 0.02L * std::min(I.coreRadius(), J.coreRadius()) || k.dist < 0.3L * R)
                continue; // not a small step
            const RefRod I2 = refRod(en.sy[i]), J2 = refRod(en.sy[j]);
            A3 p2 = J2.pos; // the same image
            for (int q = 0; q < 3; q++)
                p2[q] += pJ[q] - J.pos[q];
            const LD sep = refSeparation(I2, J2, I2.pos, p2);
            const LD before = k.dist - R;
            if (before > d * 1.01L + 1e-9L)
                continue; // out of reach
            c.label("close pair");
            if (!k.regular) {
                c.label("degenerate contact");
                continue;
            }
            c.label("contact resolved", before < 0 || sep < d);
            // a pair out of the collected range cannot matter (its gap exceeds the motion)
            const LD t2 = tol + k.curv * d * d;
            c.expect(sep >= -t2, msg(when, ": particles ", I.gid, " and ", J.gid, " are separated by ", (double)sep, " after the step (before: ", (double)before, ", displacement ", (double)d, ", tolerance ",
                                     (double)t2, ")"));
        }
    for (int i = 0; i < n && !c.failed; i++)
        for (auto &w : s.walls) {
            const RefRod r = refRod(st.sy[i]), r2 = refRod(en.sy[i]);
            const LD d = disp(i);
            if (d > 0.02L * r.coreRadius())
                continue;
            for (int e = -1; e <= 1; e += 2) {
                if (r.isSphere() && e == 1)
                    continue;
                const ref::V3 q = r.isSphere() ? ref::V3(r.pos.data()) : r.end(e, r.pos), q2 = r2.isSphere() ? ref::V3(r2.pos.data()) : r2.end(e, r2.pos);
                const LD before = w.clearance(q) - r.coreRadius(), after = w.clearance(q2) - r.coreRadius();
                const LD rad = w.type ? w.radial(q).norm() : 1e30L;
                if (before > d * 1.01L + 1e-9L || rad < 4 * d || std::fabs(w.clearance(q)) < 1e-3L * r.coreRadius())
                    continue;
                c.label("boundary contact");
                const LD t2 = tol + 4 * d * d * (1 / rad + 1 / (LD)r.coreRadius());
                c.expect(after >= -t2, msg(when, ": particle ", r.gid, " is ", (double)after, " from a ", w.name(), " after the step (before: ", (double)before, ", displacement ", (double)d, ", tolerance ",
                                           (double)t2, ")"));
            }
        }
    return true;
}
Scene contactScene(Case &c, bool easy) {
    SceneOpt opt;
    opt.maxRods = easy ? 8 : 14;
    opt.mayMonolayer = !easy;
    opt.pLinks = easy ? 0 : 0.2;
    opt.gentle = true;
    opt.touch = 0.8;
    opt.minBuf = 0.05;
    opt.pImmovable = easy ? 0 : 0.06;
    opt.farAway = false;
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    if (c.chance(1, 3)) {
        RefBoundary w = wallNear(c, s, true);
        s.walls.push_back(w);
    }
    cfg.dt = c.pick({1e-3, 1e-4, 1e-2});
    cfg.timeSnap = cfg.dt * 1000;
    cfg.linkKappa = c.logReal(0.1, 10) / cfg.dt;
    cfg.conMaxIte = 800;
    cfg.conResTol = 1e-6;
    cfg.logLevel = spdlog::level::info;
    return s;
}
} // namespace

PBT_FACET(separate,
          "random systems with many pairs touching or overlapping by up to a thousandth of the radius, walls, tubes and shells near "
          "particles, periodic directions, driven together with velocities giving displacements of 0 to a hundredth of a radius; "
          "after every step whose solution the solver reports as converged the linearised gaps, and to second order the true "
          "separations, are non-negative; non-trivial with a resolved contact") {
    Scene s = contactScene(c, false);
    auto &cfg = s.cfg;
    const double amp = c.pick({1e-3, 1e-2, 1e-4, 0.0}) * s.rods[0].radius / cfg.dt;
    c << s.show() << " dt " << cfg.dt << " speed " << amp;
    if (c.chance(1, 3)) { // random motion of up to a hundredth of a radius per step
        const double d = s.rods[0].radius * c.pick({1e-3, 3e-3, 1e-4});
        cfg.KBT = d * d / (2 * cfg.dt) * 3 * M_PI * cfg.viscosity * (s.rods[0].length + 2 * s.rods[0].radius);
        cfg.rngSeed = 1 + c.below(1000000);
    }
    c << " KBT " << cfg.KBT;
    c.label("random motion", cfg.KBT > 0);
    c.label("random motion in a monolayer", cfg.KBT > 0 && cfg.monolayer);
    Sim sim(s);
    const int steps = c.integer(1, 3);
    for (int k = 0; k < steps && !c.failed; k++) {
        sim->prepareStep();
        const State st = state(*sim.sys);
        Drive U{c.seed64(), amp, true};
        sim->setVelocityNonBrown(U.local(*sim.sys, true));
        logSink()->lines.clear();
        sim->runStep();
        const double res = reportedResidual();
        const State en = state(*sim.sys);
        const Blocks bl = blocks(*sim.sys);
        if (!indicesFit(c, st, bl))
            break;
        const bool conv = checkSeparation(c, s, st, en, bl, res, msg("step ", k));
        bool active = false;
        for (auto &b : bl.b)
            active |= !b.bilateral && b.gamma > 0;
        c.label("converged", conv);
        c.label("not converged", !conv);
        c.nontrivial(conv && active);
    }
}

PBT_FACET(separateconverge,
          "batches of 24 such systems without immovable particles and links: the solver has to report convergence for most of "
          "them, and every gap of those is checked; non-trivial always") {
    const uint64_t seed = c.seed64();
    c << "batch seed " << seed;
    c.nontrivial();
    int miss = 0;
    for (int k = 0; k < 24 && !c.failed; k++) {
        Case q;
        q.index = 40;
        q.state = seed + 104729 * k;
        Scene s = contactScene(q, true);
        Sim sim(s);
        sim->prepareStep();
        const State st = state(*sim.sys);
        Drive U{q.seed64(), 1e-3 * s.rods[0].radius / s.cfg.dt, true};
        sim->setVelocityNonBrown(U.local(*sim.sys, true));
        logSink()->lines.clear();
        sim->runStep();
        const double res = reportedResidual();
        const State en = state(*sim.sys);
        const Blocks bl = blocks(*sim.sys);
        if (!checkSeparation(q, s, st, en, bl, res, "step"))
            miss++;
        c.expect(!q.failed, msg("system ", k, ": ", q.message, "; ", s.show()));
    }
    c.label(msg("missed ", miss));
    c.expect(miss <= 12, msg(miss, " of 24 systems were not solved to the tolerance"));
}

PBT_FACET(anywhere,
          "random systems with links, boundaries and external forces, two steps; the constraint set is compared with an all-pairs "
          "search, and the solution with a serial reference solver on all constraints, so that no result depends on ranks or "
          "threads; non-trivial with an active constraint across ranks (or on one rank)") {
    SceneOpt opt;
    opt.maxRods = 14;
    opt.pLinks = 0.5;
    opt.touch = 0.7;
    opt.pImmovable = 0.06;
    opt.gentle = c.chance(1, 2);
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    if (c.chance(1, 4))
        s.walls.push_back(wallNear(c, s));
    cfg.dt = c.pick({1e-1, 1e-2});
    cfg.timeSnap = cfg.dt * 1000;
    cfg.linkKappa = c.logReal(0.1, 10) / cfg.dt;
    cfg.conMaxIte = 800;
    cfg.conResTol = 1e-6;
    cfg.logLevel = spdlog::level::info;
    c << s.show() << " dt " << cfg.dt;
    Sim sim(s);
    for (int k = 0; k < 2 && !c.failed; k++) {
        sim->prepareStep();
        const State st = state(*sim.sys);
        Drive F{c.seed64(), c.pick({1.0, 10.0}), true}, U{c.seed64(), 1, c.chance(1, 2)};
        sim->setForceNonBrown(F.local(*sim.sys, false));
        if (U.on)
            sim->setVelocityNonBrown(U.local(*sim.sys, true));
        const auto mob = mobBlocks(*sim.sys, st);
        logSink()->lines.clear();
        sim->runStep();
        const double res = reportedResidual();
        const State en = state(*sim.sys);
        const Blocks bl = blocks(*sim.sys);
        const std::string when = msg("step ", k);
        checkPairs(c, s, st, bl, when, true);
        int nb = 0, nw = 0;
        for (auto &b : bl.b) {
            nb += b.bilateral;
            nw += b.oneSide;
        }
        c.expect(nb == (int)s.links.size(), msg(when, ": ", nb, " bilateral constraints for ", s.links.size(), " links"));
        // boundary constraints
        int lo = 0, hi = 0;
        for (auto &y : st.sy) {
            const RefRod r = refRod(y);
            for (auto &w : s.walls)
                for (int e = -1; e <= 1; e += 2) {
                    if (r.isSphere() && e == 1)
                        continue;
                    const double cl = double(w.clearance(r.isSphere() ? ref::V3(r.pos.data()) : r.end(e, r.pos))), lim = r.coreRadius() * (1 + 2 * cfg.sylinderColBuf);
                    const double t = 1e-10 * (1 + gen::nrm(r.pos) + gen::nrm(w.center) + w.radius + r.size());
                    lo += cl < lim - t;
                    hi += cl < lim + t;
                }
        }
        c.expect(nw >= lo && nw <= hi, msg(when, ": ", nw, " boundary constraints instead of ", lo));
        if (c.failed || !indicesFit(c, st, bl))
            break;
        // the unique velocities of the constraint problem
        const int n = st.sy.size(), m = bl.b.size();
        if (m == 0)
            continue;
        std::vector<Row> rows(m);
        std::vector<V6> v0(n);
        for (int i = 0; i < n; i++) {
            V6 f;
            auto a = F.of(st.sy[i], false);
            for (int q = 0; q < 6; q++)
                f.a[q] = a[q];
            v0[i] = times(mob[i], f);
            if (U.on) {
                auto u = U.of(st.sy[i], true);
                for (int q = 0; q < 6; q++)
                    v0[i].a[q] += u[q];
            }
        }
        std::vector<double> A(size_t(m) * m), qv(m);
        bool bad = false;
        for (int i = 0; i < m; i++)
            rows[i] = rowOf(bl.b[i]);
        double gsum = 0;
        for (int i = 0; i < m; i++) {
            std::vector<V6> f(n);
            addForce(rows[i], 1, f);
            for (int p = 0; p < n; p++)
                f[p] = times(mob[p], f[p]);
            for (int j = 0; j < m; j++)
                A[size_t(j) * m + i] = (double)rate(rows[j], f);
            if (bl.b[i].bilateral)
                A[size_t(i) * m + i] += 1 / (bl.b[i].kappa * cfg.dt);
            qv[i] = (double)(rate(rows[i], v0) + bl.b[i].delta0 / cfg.dt);
            bad |= !std::isfinite(bl.b[i].gamma) || !finite(bl.b[i].normI, 3);
            gsum += std::fabs(bl.b[i].gamma);
        }
        if (bad)
            break;
        std::vector<double> x(m, 0.0);
        double resid = 0;
        for (int sweep = 0; sweep < 4000; sweep++) {
            resid = 0;
            for (int i = 0; i < m; i++) {
                double g = qv[i];
                for (int j = 0; j < m; j++)
                    g += A[size_t(i) * m + j] * x[j];
                const bool free = bl.b[i].bilateral;
                const double r = free || x[i] > 0 ? g : std::min(g, 0.0);
                resid += r * r;
                if (A[size_t(i) * m + i] > 1e-14) {
                    const double y = x[i] - g / A[size_t(i) * m + i];
                    x[i] = free ? y : std::max(0.0, y);
                }
            }
            resid = std::sqrt(resid);
            if (resid < 1e-10)
                break;
        }
        const bool conv = res >= 0 && res <= cfg.conResTol && resid < 1e-6;
        c.label(conv ? "compared with the reference solution" : "not converged");
        if (!conv)
            continue;
        std::vector<V6> f(n);
        LD dn = 0;
        for (int i = 0; i < m; i++) {
            addForce(rows[i], x[i], f);
            dn += ((LD)x[i] - bl.b[i].gamma) * ((LD)x[i] - bl.b[i].gamma);
            c.nontrivial(bl.b[i].gamma > 0 && (mpiSize() == 1 || bl.b[i].oneSide || st.owner[bl.b[i].globalIndexI] != st.owner[bl.b[i].globalIndexJ]));
        }
        dn = std::sqrt(dn);
        for (int i = 0; i < n && !c.failed; i++) {
            const V6 v = times(mob[i], f[i]);
            LD ms = 0;
            for (double z : mob[i])
                ms = std::max(ms, (LD)std::fabs(z));
            const LD tol = std::sqrt(3 * ms * (2.2L * (res + resid) * dn)) + 1e-8L * (1 + ms * gsum);
            for (int q = 0; q < 6; q++) {
                const LD got = (LD)(q < 3 ? en.sy[i].velCol[q] : en.sy[i].omegaCol[q - 3]) + (q < 3 ? en.sy[i].velBi[q] : en.sy[i].omegaBi[q - 3]);
                c.expect(std::fabs(got - v.a[q]) <= tol, msg(when, ": constraint velocity ", q, " of particle ", st.sy[i].gid, " is ", (double)got, ", the reference solution gives ", (double)v.a[q], ", tolerance ",
                                                             (double)tol));
            }
        }
    }
}

namespace {
/// a change of origin, axes, units and names: x -> length * A x + shift
struct Change {
    double A[3][3] = {{1, 0, 0}, {0, 1, 0}, {0, 0, 1}};
    double det = 1, length = 1, time = 1, viscosity = 1;
    A3 shift{0, 0, 0};
    std::map<int, int> name;
    A3 turn(const A3 &v, double s = 1) const {
        A3 r{0, 0, 0};
        for (int i = 0; i < 3; i++)
            for (int j = 0; j < 3; j++)
                r[i] += s * A[i][j] * v[j];
        return r;
    }
    A3 point(const A3 &v) const { return gen::add(turn(v, length), shift); }
    double velocity() const { return length / time; }
    double force() const { return viscosity * length * length / time; }
    std::array<double, 6> both(const std::array<double, 6> &v, double linear, double angular) const {
        const A3 a = turn({v[0], v[1], v[2]}, linear), b = turn({v[3], v[4], v[5]}, det * angular);
        return {a[0], a[1], a[2], b[0], b[1], b[2]};
    }
    Scene operator()(const Scene &s) const {
        Scene t = s;
        for (auto &r : t.rods) {
            r.gid = name.at(r.gid);
            r.radius *= length;
            r.length *= length;
            r.pos = point(r.pos);
            if (r.length > 0)
                r.dir = turn(r.dir);
        }
        for (auto &l : t.links)
            l = {name.at(l.first), name.at(l.second)};
        for (auto &w : t.walls) {
            w.center = point(w.center);
            w.dir = turn(w.dir);
            w.radius *= length;
        }
        auto &g = t.cfg;
        for (int k = 0; k < 3; k++)
            g.simBoxLow[k] = 1e300, g.simBoxHigh[k] = -1e300;
        for (int corner = 0; corner < 8; corner++) {
            A3 p;
            for (int k = 0; k < 3; k++)
                p[k] = corner >> k & 1 ? s.cfg.simBoxHigh[k] : s.cfg.simBoxLow[k];
            p = point(p);
            for (int k = 0; k < 3; k++) {
                g.simBoxLow[k] = std::min(g.simBoxLow[k], p[k]);
                g.simBoxHigh[k] = std::max(g.simBoxHigh[k], p[k]);
            }
        }
        for (int i = 0; i < 3; i++) {
            g.simBoxPBC[i] = false;
            for (int j = 0; j < 3; j++)
                g.simBoxPBC[i] |= s.cfg.simBoxPBC[j] && A[i][j] != 0;
            g.initBoxLow[i] = g.simBoxLow[i];
            g.initBoxHigh[i] = g.simBoxHigh[i];
        }
        g.dt *= time;
        g.timeSnap *= time;
        g.timeTotal *= time;
        g.viscosity *= viscosity;
        g.KBT *= viscosity * length * length * length / time;
        g.linkGap *= length;
        g.linkKappa *= viscosity * length / time;
        g.conResTol *= velocity();
        g.sylinderLength *= length;
        g.sylinderDiameter *= length;
        return t;
    }
};
Change change(Case &c, const Scene &s, bool brown) {
    Change g;
    if (!brown) {
        const bool periodic = s.cfg.simBoxPBC[0] || s.cfg.simBoxPBC[1] || s.cfg.simBoxPBC[2];
        if (!periodic && !s.cfg.monolayer && c.chance(2, 3)) { // any rotation
            const A3 x = gen::dir(c), q = gen::perp(x), w = gen::cross(x, q);
            const double phi = c.generic(0, 2 * M_PI);
            const A3 y = gen::add(gen::scale(q, std::cos(phi)), w, std::sin(phi)), z = gen::cross(x, y);
            for (int k = 0; k < 3; k++)
                g.A[0][k] = x[k], g.A[1][k] = y[k], g.A[2][k] = z[k];
        } else { // axes exchanged and reversed
            int p[3] = {0, 1, 2};
            if (s.cfg.monolayer) {
                if (c.chance(1, 2))
                    std::swap(p[0], p[1]);
            } else {
                std::swap(p[0], p[c.below(3)]);
                std::swap(p[1], p[1 + c.below(2)]);
            }
            for (int i = 0; i < 3; i++)
                for (int j = 0; j < 3; j++)
                    g.A[i][j] = p[i] == j ? (c.chance(1, 2) ? -1 : 1) : 0;
        }
        if (c.chance(1, 4)) // mirrored
            for (int k = 0; k < 3; k++)
                g.A[0][k] = -g.A[0][k];
        const double(*A)[3] = g.A;
        g.det = A[0][0] * (A[1][1] * A[2][2] - A[1][2] * A[2][1]) - A[0][1] * (A[1][0] * A[2][2] - A[1][2] * A[2][0]) + A[0][2] * (A[1][0] * A[2][1] - A[1][1] * A[2][0]);
        g.det = g.det > 0 ? 1 : -1;
    }
    if (c.chance(1, 2)) {
        const double most = c.pick({1e2, 1e3});
        g.length = c.logReal(1 / most, most);
        g.time = c.logReal(1 / most, most);
        g.viscosity = c.logReal(1 / most, most);
    }
    if (c.chance(2, 3))
        for (int k = 0; k < 3; k++)
            g.shift[k] = g.length * c.generic(-30, 30);
    int next = 0;
    for (auto &r : s.rods)
        g.name[r.gid] = brown ? r.gid : next++;
    if (!brown && c.chance(1, 2)) {
        std::vector<int> v;
        for (auto &r : s.rods)
            v.push_back(r.gid);
        for (size_t i = v.size(); i-- > 1;)
            std::swap(v[i], v[c.below(i + 1)]);
        for (size_t i = 0; i < v.size(); i++)
            g.name[v[i]] = 3 * i + 1;
    }
    return g;
}
struct Course {
    State st, en;
    Blocks bl;
    double res = -1;
    std::vector<M6> mob;
};
} // namespace

PBT_FACET(covariant,
          "random systems with links, boundaries, forces and velocities, and the same systems seen from other axes (any rotation, "
          "exchanged, reversed or mirrored axes), another origin, in other units of length, time and viscosity, with other "
          "identities, another order in the file and other rotations of the rods about themselves; constraints and gaps, motion, velocities "
          "and new positions must transform alike; non-trivial with an active constraint of a converged solution") {
    SceneOpt opt;
    opt.maxRods = 14;
    opt.pLinks = 0.5;
    opt.touch = 0.7;
    opt.pImmovable = 0.06;
    opt.mayMonolayer = true;
    opt.noCross = true;
    opt.farAway = false;
    opt.gentle = c.chance(1, 2);
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    for (auto &r : s.rods)
        if (r.length < 1e-3) { // a sphere: it has no axis of its own
            r.length = 0;
            r.dir = {0, 0, 1};
        }
    if (c.chance(1, 3))
        s.walls.push_back(wallNear(c, s));
    for (auto &r : s.rods) // boundaries have no images: on a periodic face either side may be taken
        for (int k = 0; k < 3; k++)
            if (cfg.simBoxPBC[k]) {
                const double x = (r.pos[k] - cfg.simBoxLow[k]) / s.edge(k);
                if (std::fabs(x - std::round(x)) < 1e-6)
                    r.pos[k] += 1e-4 * s.edge(k);
            }
    cfg.dt = c.pick({1e-1, 1e-2});
    cfg.timeSnap = cfg.dt * 1000;
    cfg.linkKappa = c.logReal(0.1, 10) / cfg.dt;
    cfg.conMaxIte = 1500;
    cfg.conResTol = 1e-8;
    cfg.viscosity = c.pick({1.0, 0.3});
    cfg.logLevel = spdlog::level::info;
    const bool brown = mpiSize() == 1 && omp_get_max_threads() == 1 && c.chance(1, 4);
    if (brown)
        cfg.KBT = c.logReal(1e-3, 1e-1);
    const Change g = change(c, s, brown);
    Scene t = g(s);
    t.spin = c.chance(1, 2);
    t.spinSeed = c.seed64();
    const Drive F{c.seed64(), c.pick({1.0, 10.0}), c.chance(2, 3)}, U{c.seed64(), 1, c.chance(1, 2)};
    std::vector<int> order;
    const size_t lines = t.rods.size() + t.links.size();
    if (!brown && c.chance(1, 2)) {
        for (size_t i = 0; i < lines; i++)
            order.push_back(i);
        for (size_t i = lines; i-- > 1;)
            std::swap(order[i], order[c.below(i + 1)]);
    }
    c << s.show() << " dt " << cfg.dt << " KBT " << cfg.KBT << "; axes " << gen::show({g.A[0][0], g.A[0][1], g.A[0][2]}) << gen::show({g.A[1][0], g.A[1][1], g.A[1][2]})
      << " length " << g.length << " time " << g.time << " viscosity " << g.viscosity << " shift " << gen::show(g.shift);
    std::map<int, int> original;
    for (auto &p : g.name)
        original[p.second] = p.first;
    auto go = [&](Scene &q, bool changed) {
        Course o;
        Sim sim(q, false);
        writeFile(scratch() + "/init.dat", posFileText(q, changed ? order : std::vector<int>()));
        sim.sys.reset(new SylinderSystem());
        sim->initialize(q.cfg, scratch() + "/init.dat", 0, nullptr);
        sim.applySpin();
        sim->prepareStep();
        o.st = state(*sim.sys);
        auto &con = sim->getContainerNonConst();
        std::vector<double> f, u;
        for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
            Sylinder who = con[i];
            if (changed)
                who.gid = original.count(who.gid) ? original[who.gid] : -1;
            auto a = F.of(who, false), b = U.of(who, true);
            if (changed) {
                a = g.both(a, g.force(), g.force() * g.length);
                b = g.both(b, g.velocity(), 1 / g.time);
            }
            f.insert(f.end(), a.begin(), a.end());
            u.insert(u.end(), b.begin(), b.end());
        }
        if (F.on)
            sim->setForceNonBrown(f);
        if (U.on)
            sim->setVelocityNonBrown(u);
        o.mob = mobBlocks(*sim.sys, o.st);
        logSink()->lines.clear();
        sim->runStep();
        o.res = reportedResidual();
        o.en = state(*sim.sys);
        o.bl = blocks(*sim.sys);
        return o;
    };
    const Course a = go(s, false), b = go(t, true);
    const size_t n = s.rods.size();
    if (!c.expect(a.st.sy.size() == n && b.st.sy.size() == n && a.st.byGid.size() == n && b.st.byGid.size() == n, msg(a.st.sy.size(), " and ", b.st.sy.size(), " particles of ", n)))
        return;
    for (auto &p : g.name)
        if (!c.expect(a.st.at(p.first) >= 0 && b.st.at(p.second) >= 0, msg("particle ", p.first, " or ", p.second, " is missing")))
            return;
    double coord = 1, coordT = g.length;
    for (int k = 0; k < 3; k++) {
        coord = std::max({coord, std::fabs(s.cfg.simBoxLow[k]), std::fabs(s.cfg.simBoxHigh[k])});
        coordT = std::max({coordT, std::fabs(t.cfg.simBoxLow[k]), std::fabs(t.cfg.simBoxHigh[k])});
    }
    for (auto &r : s.rods)
        coord = std::max(coord, gen::nrm(r.pos) + r.length);
    coord = std::max(coord, coordT / g.length);
    // constraints: the same ones, with the same gaps
    typedef std::tuple<int, int, int> Key; // kind, bodies by their first names
    std::map<Key, std::vector<double>> gap[2];
    std::map<Key, double> nearest; // distance of the two points
    double gamma = 0, gammaA = 0, gammaB = 0;
    bool active = false, crossing = false;
    for (int side = 0; side < 2; side++)
        for (auto &x : (side ? b : a).bl.b) {
            auto nm = [&](int gid) { return side ? (original.count(gid) ? original[gid] : -1) : gid; };
            const int i = nm(x.gidI), j = x.oneSide ? -1 : nm(x.gidJ);
            const Key k(x.oneSide ? 2 : x.bilateral ? 1 : 0, x.bilateral ? i : std::max(i, j), x.bilateral ? j : std::min(i, j));
            gap[side][k].push_back(x.delta0 / (side ? g.length : 1.0));
            double d2 = 0; // crossing axes: the distance is the root of rounding errors
            for (int q = 0; q < 3; q++)
                d2 += (x.labI[q] - x.labJ[q]) * (x.labI[q] - x.labJ[q]) / (side ? g.length * g.length : 1.0);
            auto &least = nearest[k];
            least = least == 0 ? std::sqrt(d2) + 1e-300 : std::min(least, std::sqrt(d2) + 1e-300);
            (side ? gammaB : gammaA) += side ? x.gamma * x.gamma / g.force() / g.force() : x.gamma * x.gamma;
            gamma += std::fabs(x.gamma) / (side ? g.force() : 1.0);
            active |= !x.bilateral && x.gamma > 0;
            crossing |= !x.bilateral && d2 < 1e-8; // axes that meet, or a point on a boundary
        }
    const double gtol = 1e-11 * coord;
    for (int side = 0; side < 2; side++)
        for (auto &p : gap[side]) {
            auto &q = gap[1 - side][p.first];
            std::sort(p.second.begin(), p.second.end());
            std::sort(q.begin(), q.end());
            static const char *kind[] = {"collision", "spring", "boundary"};
            const std::string who = msg(kind[std::get<0>(p.first)], " of ", std::get<1>(p.first), " ", std::get<2>(p.first));
            if (!c.expect(p.second.size() == q.size(), msg(who, ": ", p.second.size(), " constraints, ", q.size(), side ? " without" : " with", " the change; gap ", p.second[0])))
                return;
            for (size_t i = 0; i < q.size(); i++)
                c.expect(std::fabs(p.second[i] - q[i]) <= gtol + 1e-14 * coord * coord / std::max(nearest[p.first], 1e-7 * coord), msg(who, ": gap ", p.second[i], side ? " with, " : " without, ", q[i], side ? " without" : " with", " the change"));
        }
    // rods in contact that are parallel have no definite point of contact
    for (auto &x : a.bl.b)
        if (!x.oneSide && !x.bilateral) {
            const int i = a.st.at(x.gidI), j = a.st.at(x.gidJ);
            const ref::V3 u = axisOf(a.st.sy[i]), v = axisOf(a.st.sy[j]);
            const bool rods = !refRod(a.st.sy[i]).isSphere() && !refRod(a.st.sy[j]).isSphere();
            crossing |= rods && double(u.cross(v).norm()) < 1e-4;
        }
    // a side of a boundary may be arbitrary too: the centre of a tube or a sphere
    for (auto &x : a.bl.b)
        for (auto &w : s.walls)
            crossing |= x.oneSide && w.type && double(w.radial(ref::V3(x.labI)).norm()) < 1e-4 * (1 + w.radius);
    double mt = 0, mr = 0;
    for (auto &m : a.mob)
        for (int k = 0; k < 3; k++) {
            mt = std::max(mt, m[7 * k]);
            mr = std::max(mr, m[7 * (k + 3)]);
        }
    const double resB = b.res / g.velocity();
    const bool conv = (a.bl.b.empty() || (a.res >= 0 && a.res <= cfg.conResTol && b.res >= 0 && b.res <= t.cfg.conResTol)) && !crossing;
    c.label(crossing ? "arbitrary normal" : conv ? "converged" : "not converged");
    c.label("other units", g.length != 1);
    c.label("mirrored", g.det < 0);
    c.label("Brownian", brown);
    c.nontrivial(conv && active);
    const double diff2 = a.bl.b.empty() ? 0 : 3 * (std::max(a.res, 0.0) + std::max(resB, 0.0)) * (std::sqrt(gammaA) + std::sqrt(gammaB));
    const double round = 1e-10 * (1 + coord) * (1 + gamma + (F.on ? F.scale : 0));
    for (auto &p : g.name) {
        const Sylinder &x = a.en.sy[a.en.at(p.first)], &y = b.en.sy[b.en.at(p.second)], &x0 = a.st.sy[a.st.at(p.first)];
        double tt = std::sqrt(mt * diff2) + round * (1 + mt + mr), tr = std::sqrt(mr * diff2) + round * (1 + mt + mr);
        auto sameVectors = [&](const char *what, const double *u, const double *v, double scale, bool axial, double tol) {
            const A3 w = g.turn(a3(u), axial ? g.det : 1);
            for (int k = 0; k < 3; k++)
                if (!c.expect(std::fabs(v[k] / scale - w[k]) <= tol, msg(what, " of particle ", p.first, " is ", gen::show(a3(u)), ", turned ", gen::show(w), "; with the change ",
                                                                         gen::show({v[0] / scale, v[1] / scale, v[2] / scale}), ", tolerance ", tol)))
                    return;
        };
        const double r1 = round * (1 + mt + mr);
        sameVectors("velNonB", x.velNonB, y.velNonB, g.velocity(), false, r1);
        sameVectors("omegaNonB", x.omegaNonB, y.omegaNonB, 1 / g.time, true, r1);
        sameVectors("velBrown", x.velBrown, y.velBrown, g.velocity(), false, 1e-10 * (1 + gen::nrm(a3(x.velBrown))));
        sameVectors("omegaBrown", x.omegaBrown, y.omegaBrown, 1 / g.time, true, 1e-10 * (1 + gen::nrm(a3(x.omegaBrown))));
        if (!conv)
            continue;
        sameVectors("velocity", x.vel, y.vel, g.velocity(), false, tt);
        sameVectors("angular velocity", x.omega, y.omega, 1 / g.time, true, tr);
        A3 dx, dy;
        const A3 y0 = a3(b.st.sy[b.st.at(p.second)].pos);
        for (int k = 0; k < 3; k++)
            dx[k] = x.pos[k] - x0.pos[k], dy[k] = (y.pos[k] - y0[k]);
        sameVectors("displacement", dx.data(), dy.data(), g.length, false, cfg.dt * tt + 1e-13 * coord);
        if (x.length > 0) {
            const ref::V3 u = axisOf(x), v = axisOf(y);
            const A3 w = g.turn({double(u.x), double(u.y), double(u.z)});
            c.expect(double((ref::V3(w.data()) - v).norm()) <= 2 * cfg.dt * tr + 1e-12, msg("the axis of particle ", p.first, " is ", gen::show(w), " seen with the change, ", gen::show({double(v.x), double(v.y), double(v.z)})));
        }
        if (c.failed)
            return;
    }
}


PBT_FACET(presteps,
          "random systems with overlaps, links, boundaries, layers and an analogue of random motion, started with 0 to 6 relaxation steps; "
          "the same system started without and advanced by as many quiet steps must be in the same place, also one random step later; "
          "no snapshot, step or random number is used up, and fixed particles stay; non-trivial when the relaxation moves a particle") {
    SceneOpt opt;
    opt.maxRods = 12;
    opt.pLinks = 0.4;
    opt.touch = 0.7;
    opt.mayMonolayer = true;
    opt.noCross = true;
    Scene s = scene(c, opt);
    s.spin = false;
    if (c.chance(1, 3))
        s.walls.push_back(wallNear(c, s));
    auto &cfg = s.cfg;
    cfg.dt = c.pick({1e-1, 1e-2});
    cfg.timeSnap = cfg.dt * c.pick({1, 3, 1000});
    cfg.linkKappa = c.logReal(0.1, 10) / cfg.dt;
    cfg.conMaxIte = 300;
    cfg.conResTol = 1e-6;
    cfg.rngSeed = c.below(1000000);
    const double kbt = c.chance(1, 2) ? c.logReal(1e-4, 1e-2) : 0.0;
    const int n = c.integer(0, 6);
    const bool fixed = c.chance(1, 6);
    c << s.show() << " dt " << cfg.dt << " KBT " << kbt << " relaxation steps " << n << (fixed ? " fixed" : "");
    Scene a = s, b = s;
    a.cfg.initPreSteps = n;
    a.cfg.sylinderFixed = b.cfg.sylinderFixed = fixed;
    a.cfg.KBT = kbt;
    State start, A0, A1, B0, B1;
    {
        Sim sim(b);
        start = state(*sim.sys);
        for (int k = 0; k < n; k++) {
            sim->prepareStep();
            sim->runStep();
        }
        B0 = state(*sim.sys);
        sim->runConfig.KBT = kbt;
        sim->prepareStep();
        sim->runStep();
        B1 = state(*sim.sys);
    }
    {
        Sim sim(a);
        A0 = state(*sim.sys);
        c.expect(sim->getStepCount() == 0 && sim->getSnapID() == 0, msg("after ", n, " relaxation steps the run starts at step ", sim->getStepCount(), ", snapshot ", sim->getSnapID()));
        c.expect(slurp(scratch() + "/TimeStepInfo.txt").empty(), "a run just set up has time step information");
        struct stat st;
        c.expect(stat((scratch() + "/result/result0-399").c_str(), &st) != 0, "a run just set up has a folder of snapshots");
        sim->prepareStep();
        sim->runStep();
        A1 = state(*sim.sys);
    }
    bool moved = false;
    auto same = [&](const State &x, const State &y, const std::string &when, double tol) {
        if (!c.expect(x.sy.size() == y.sy.size() && x.byGid.size() == y.byGid.size(), msg(when, ": ", x.sy.size(), " and ", y.sy.size(), " particles")))
            return;
        for (auto &p : x.sy) {
            const int j = y.at(p.gid);
            if (!c.expect(j >= 0, msg(when, ": particle ", p.gid, " is missing")))
                return;
            const Sylinder &q = y.sy[j];
            const double len = p.length + 2 * p.radius;
            for (int k = 0; k < 3; k++) {
                double d = p.pos[k] - q.pos[k];
                if (cfg.simBoxPBC[k])
                    d -= s.edge(k) * std::round(d / s.edge(k));
                c.expect(std::fabs(d) <= tol * (len + std::fabs(p.pos[k]) + s.edge(k)), msg(when, ": particle ", p.gid, " is at ", gen::show(a3(p.pos)), " with relaxation, ", gen::show(a3(q.pos)), " after quiet steps"));
            }
            const ref::V3 da = axisOf(p), db = axisOf(q);
            c.expect(double((da - db).norm()) <= tol * 10, msg(when, ": particle ", p.gid, " points another way: axes differ by ", double((da - db).norm())));
        }
    };
    if (fixed) {
        same(A0, start, "fixed particles after the relaxation", 1e-13);
        return;
    }
    same(A0, B0, "after the relaxation", 1e-9);
    same(A1, B1, "one step later", 1e-8);
    for (auto &p : A0.sy) {
        const int j = start.at(p.gid);
        for (int k = 0; k < 3 && j >= 0; k++)
            moved |= std::fabs(image(cfg, a3(p.pos), a3(start.sy[j].pos))[k] - p.pos[k]) > 1e-6 * (p.length + p.radius);
    }
    c.label("random motion", kbt > 0);
    c.nontrivial(moved && n > 0);
}

int main(int argc, char **argv) { return sysgen::mainBody(argc, argv); }
