/** constraint assembly and write-back (C06), constraint solution (C07), constraint VTK output (C18) */
#include "gen_geom.hpp"
#include "gen_solver.hpp"
#include <Eigen/Dense>

#include "Constraint/ConstraintCollector.hpp"
#include "Constraint/ConstraintOperator.hpp"
#include "Constraint/ConstraintSolver.hpp"


#include "spdlog/sinks/base_sink.h"

using namespace pbt;
using gen::A3;
using LD = long double;

namespace {

struct World {
    int np, nPart = 0;
    std::vector<int> partCount, partFirst; // particles per rank
    struct Con {
        ConstraintBlock b;
        int rank, que;
        double st[9];
    };
    std::vector<Con> con; // ordered by rank, then queue, then position in the queue
    std::vector<int> conCount, conFirst;
    int nThreads;

    int m() const { return (int)con.size(); }

    void particles(Case &c, int maxPart) {
        np = mpiSize();
        nThreads = omp_get_max_threads();
        nPart = c.sized(1, maxPart);
        partCount.assign(np, 0);
        const int mode = c.below(3);
        for (int i = 0; i < nPart; i++)
            partCount[mode == 0 ? i * np / nPart : mode == 1 ? int(c.below(np)) : 0]++;
        if (mode == 2 && np > 1)
            std::rotate(partCount.begin(), partCount.begin() + c.below(np), partCount.end());
        partFirst.assign(np + 1, 0);
        for (int i = 0; i < np; i++)
            partFirst[i + 1] = partFirst[i] + partCount[i];
    }

    void constraints(Case &c, int maxCon, bool physical) {
        const int n = c.sized(0, maxCon);
        std::mt19937_64 g(c.seed64());
        std::normal_distribution<double> N(0, 1);
        std::uniform_real_distribution<double> U(0, 1);
        const int where = c.below(3); // 0 any rank and queue, 1 all on one rank, 2 all in one queue
        const int r0 = c.below(np), q0 = c.below(nThreads);
        const double pBi = c.pick<double>({0.3, 0.0, 1.0}), pOne = c.pick<double>({0.2, 0.0, 1.0});
        const bool selfOk = c.chance(1, 4);
        for (int i = 0; i < n; i++) {
            Con k;
            k.rank = where == 1 ? r0 : int(g() % np);
            k.que = where == 2 ? q0 : int(g() % nThreads);
            ConstraintBlock &b = k.b;
            b.globalIndexI = g() % nPart;
            b.globalIndexJ = g() % nPart;
            if (!selfOk && nPart > 1 && b.globalIndexI == b.globalIndexJ)
                b.globalIndexJ = (b.globalIndexI + 1) % nPart;
            b.gidI = 1000 + 7 * b.globalIndexI;
            b.gidJ = 1000 + 7 * b.globalIndexJ;
            b.bilateral = U(g) < pBi;
            b.oneSide = !b.bilateral && U(g) < pOne;
            if (!physical && U(g) < 0.1)
                b.oneSide = !b.oneSide;
            b.delta0 = 0.3 * N(g);
            b.kappa = b.bilateral ? (U(g) < 0.15 ? 0.0 : std::pow(10, 2 * N(g))) : (U(g) < 0.3 ? 5 : 0);
            b.gamma = U(g) < 0.3 ? 0 : physical ? std::fabs(N(g)) : N(g);
            if (physical && !b.bilateral && U(g) < 0.1)
                b.gamma = -0.1; // a poor guess
            double d[3], s = 0;
            for (int a = 0; a < 3; a++) {
                d[a] = N(g);
                s += d[a] * d[a];
            }
            s = std::sqrt(s) + 1e-30;
            for (int a = 0; a < 3; a++) {
                b.normI[a] = d[a] / s;
                b.normJ[a] = physical ? -b.normI[a] : N(g);
                b.posI[a] = N(g);
                b.posJ[a] = N(g);
                b.labI[a] = 10 * N(g);
                b.labJ[a] = b.labI[a] + b.delta0 * b.normI[a];
            }
            for (int a = 0; a < 9; a++)
                b.stress[a] = k.st[a] = N(g);
            con.push_back(k);
        }
        if (physical && selfOk) { // two constraints with identical geometry: singular system
            if (con.size() >= 2)
                con[1] = con[0];
        }
        std::stable_sort(con.begin(), con.end(),
                         [](const Con &a, const Con &b) { return std::make_pair(a.rank, a.que) < std::make_pair(b.rank, b.que); });
        conCount.assign(np, 0);
        for (auto &k : con)
            conCount[k.rank]++;
        conFirst.assign(np + 1, 0);
        for (int i = 0; i < np; i++)
            conFirst[i + 1] = conFirst[i] + conCount[i];
    }

    void fill(ConstraintCollector &col) const {
        for (auto &k : con)
            if (k.rank == mpiRank())
                (*col.constraintPoolPtr)[k.que].push_back(k.b);
    }

    Teuchos::RCP<const TMAP> mobMap() const {
        auto comm = getMPIWORLDTCOMM();
        return getTMAPFromLocalSize(6 * partCount[mpiRank()], comm);
    }

    /// generalised force of a unit multiplier, at the particles' positions in the global vector
    static void wrench(const ConstraintBlock &b, std::vector<LD> &f, LD gamma) {
        auto add = [&](int idx, const double n[3], const double p[3]) {
            LD *o = &f[6 * size_t(idx)];
            for (int a = 0; a < 3; a++)
                o[a] += gamma * n[a];
            o[3] += gamma * ((LD)p[1] * n[2] - (LD)p[2] * n[1]);
            o[4] += gamma * ((LD)p[2] * n[0] - (LD)p[0] * n[2]);
            o[5] += gamma * ((LD)p[0] * n[1] - (LD)p[1] * n[0]);
        };
        add(b.globalIndexI, b.normI, b.posI);
        if (!b.oneSide)
            add(b.globalIndexJ, b.normJ, b.posJ);
    }
    std::vector<LD> forces(const std::vector<double> &gamma, int which = -1) const { // which: 0 uni, 1 bi, -1 both
        std::vector<LD> f(6 * nPart, 0.0L);
        for (int i = 0; i < m(); i++)
            if (which < 0 || which == (int)con[i].b.bilateral)
                wrench(con[i].b, f, gamma[i]);
        return f;
    }
    std::vector<LD> gapRates(const std::vector<LD> &vel) const {
        std::vector<LD> out(m());
        for (int i = 0; i < m(); i++) {
            std::vector<LD> f(6 * nPart, 0.0L);
            wrench(con[i].b, f, 1);
            for (size_t k = 0; k < f.size(); k++)
                out[i] += f[k] * vel[k];
        }
        return out;
    }
    std::string show() const {
        std::ostringstream o;
        o << nPart << " particles on ranks";
        for (int v : partCount)
            o << " " << v;
        o << ", " << m() << " constraints on ranks";
        for (int v : conCount)
            o << " " << v;
        int bi = 0, one = 0, remote = 0;
        for (auto &k : con) {
            bi += k.b.bilateral;
            one += k.b.oneSide;
            remote += owner(k.b.globalIndexI) != k.rank;
        }
        o << " (" << bi << " bilateral, " << one << " one sided, " << remote << " with a remote first particle)";
        return o.str();
    }
    int owner(int idx) const { return int(std::upper_bound(partFirst.begin(), partFirst.end(), idx) - partFirst.begin()) - 1; }
};

/// every rank receives the whole distributed vector
std::vector<double> gatherTV(Case &c, const Teuchos::RCP<const TV> &t, const std::vector<int> &counts, const char *what) {
    const int np = mpiSize(), r = mpiRank();
    auto p = t->getLocalView<Kokkos::HostSpace>();
    c.expect((int)p.extent(0) == counts[r], msg(what, " has ", p.extent(0), " local entries, expected ", counts[r]));
    std::vector<int> displs(np + 1, 0);
    for (int i = 0; i < np; i++)
        displs[i + 1] = displs[i] + counts[i];
    std::vector<double> mine(counts[r] + 1), all(displs[np] + 1);
    for (int i = 0; i < counts[r] && i < (int)p.extent(0); i++)
        mine[i] = p(i, 0);
    MPI_Allgatherv(mine.data(), counts[r], MPI_DOUBLE, all.data(), counts.data(), displs.data(), MPI_DOUBLE, MPI_COMM_WORLD);
    all.resize(displs[np]);
    return all;
}
Teuchos::RCP<TV> toTV(const Teuchos::RCP<const TMAP> &map, const std::vector<double> &v, int first) {
    Teuchos::RCP<TV> t = Teuchos::rcp(new TV(map, true));
    auto p = t->getLocalView<Kokkos::HostSpace>();
    t->modify<Kokkos::HostSpace>();
    for (size_t i = 0; i < p.extent(0); i++)
        p(i, 0) = v[first + i];
    return t;
}
std::vector<int> times6(std::vector<int> v) {
    for (int &x : v)
        x *= 6;
    return v;
}
std::vector<double> randomVec(Case &c, size_t n) {
    std::mt19937_64 g(c.seed64());
    std::normal_distribution<double> N(0, 1);
    std::vector<double> v(n);
    for (auto &x : v)
        x = N(g);
    return v;
}

struct LogSink : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
    std::vector<std::string> lines;
    void sink_it_(const spdlog::details::log_msg &m) override { lines.emplace_back(m.payload.data(), m.payload.size()); }
    void flush_() override {}
};
std::shared_ptr<LogSink> logSink;

} // namespace

PBT_FACET(assemble,
          "random particle counts per rank (also none), random constraints between particles of any rank in random thread queues, "
          "uni- and bilateral, one and two sided, including both ends on one particle; matrix applied to random vectors both ways, "
          "vectors, write-back and stress sums compared with long double sums over the constraints; non-trivial with at least "
          "two constraints") {
    World w;
    w.particles(c, 12);
    w.constraints(c, 40, false);
    c << w.show() << ", " << w.nThreads << " queues";
    c.nontrivial(w.m() >= 2);
    ConstraintCollector col;
    w.fill(col);
    c.expect(col.getLocalNumberOfConstraints() == w.conCount[mpiRank()], "local number of constraints");
    auto map = w.mobMap();
    Teuchos::RCP<TCMAT> DT;
    Teuchos::RCP<TV> delta0, invKappa, biFlag, guess;
    col.buildConstraintMatrixVector(map, DT, delta0, invKappa, biFlag, guess);
    auto d = gatherTV(c, delta0, w.conCount, "delta0"), k = gatherTV(c, invKappa, w.conCount, "invKappa"),
         f = gatherTV(c, biFlag, w.conCount, "biFlag"), g = gatherTV(c, guess, w.conCount, "gammaGuess");
    for (int i = 0; i < w.m() && !c.failed; i++) {
        const auto &b = w.con[i].b;
        c.expect(d[i] == b.delta0, msg("delta0[", i, "] = ", d[i], " for a block with gap ", b.delta0));
        c.expect(f[i] == (b.bilateral ? 1 : 0), msg("biFlag[", i, "] = ", f[i]));
        c.expect(g[i] == b.gamma, msg("gamma guess[", i, "] = ", g[i], " instead of ", b.gamma));
        const double ik = b.bilateral && b.kappa > 0 ? 1 / b.kappa : 0;
        c.expect(close(k[i], ik, 1e-15, 0), msg("invKappa[", i, "] = ", k[i], " instead of ", ik));
    }
    c.expect(DT->getRangeMap()->isSameAs(*delta0->getMap()), "the matrix rows and the vectors have different maps");
    c.expect(DT->getDomainMap()->isSameAs(*map), "the matrix domain is not the mobility map");
    // D^T v
    auto v = randomVec(c, 6 * w.nPart);
    Teuchos::RCP<TV> out = Teuchos::rcp(new TV(delta0->getMap(), true));
    DT->apply(*toTV(map, v, 6 * w.partFirst[mpiRank()]), *out);
    auto got = gatherTV(c, out, w.conCount, "D^T v");
    auto want = w.gapRates(std::vector<LD>(v.begin(), v.end()));
    for (int i = 0; i < w.m(); i++)
        c.expect(close(got[i], (double)want[i], 1e-12, 1e-12), msg("(D^T v)[", i, "] = ", got[i], ", the block gives ", (double)want[i]));
    // D gamma and the operator
    auto gam = randomVec(c, w.m());
    if (c.chance(1, 2))
        for (size_t i = c.below(3); i < gam.size(); i += 1 + i % 3) // inactive constraints
            gam[i] = 0;
    std::vector<double> mobDiag(6 * w.nPart);
    for (size_t i = 0; i < mobDiag.size(); i++)
        mobDiag[i] = 0.1 + (i * 37 % 11);
    std::vector<double> M(mobDiag.size() * mobDiag.size(), 0.0);
    for (size_t i = 0; i < mobDiag.size(); i++)
        M[i * mobDiag.size() + i] = mobDiag[i];
    Teuchos::RCP<TOP> mob = Teuchos::rcp(new gensolver::DenseOp(map, M, 6 * w.nPart, times6(w.partCount)));
    ConstraintOperator op(mob, DT, invKappa);
    auto X = toTV(delta0->getMap(), gam, w.conFirst[mpiRank()]);
    const double alpha = c.pick<double>({1.0, -0.5, 2.0}), beta = c.pick<double>({0.0, 1.0, -3.0});
    auto y0 = randomVec(c, w.m());
    auto Y = toTV(delta0->getMap(), y0, w.conFirst[mpiRank()]);
    if (alpha == 1 && beta == 0)
        op.apply(*X, *Y);
    else
        op.apply(*X, *Y, Teuchos::NO_TRANS, alpha, beta);
    auto F = gatherTV(c, op.getForce(), times6(w.partCount), "force"), V = gatherTV(c, op.getVel(), times6(w.partCount), "vel");
    auto y = gatherTV(c, Y, w.conCount, "operator result");
    auto wf = w.forces(gam);
    std::vector<LD> wv(wf.size());
    for (size_t i = 0; i < wf.size(); i++) {
        wv[i] = wf[i] * mobDiag[i];
        c.expect(close(F[i], (double)wf[i], 1e-12, 1e-12), msg("generalised force ", i, " is ", F[i], ", the constraints exert ", (double)wf[i]));
        c.expect(close(V[i], (double)wv[i], 1e-12, 1e-11), msg("velocity ", i, " is ", V[i], " instead of ", (double)wv[i]));
    }
    auto wy = w.gapRates(wv);
    for (int i = 0; i < w.m(); i++) {
        const LD e = alpha * (wy[i] + (LD)k[i] * gam[i]) + (LD)beta * y0[i];
        double mag = std::fabs(alpha * k[i] * gam[i]) + 100;
        c.expect(close(y[i], (double)e, 1e-11, 1e-11 * mag), msg("operator row ", i, " gives ", y[i], " instead of ", (double)e));
    }
    // stress sums before and after write back
    for (int phase = 0; phase < 2; phase++) {
        for (int one = 0; one < 2; one++) {
            Emat3 uni, bi;
            col.sumLocalConstraintStress(uni, bi, one);
            LD su[9] = {}, sb[9] = {};
            for (int i = w.conFirst[mpiRank()]; i < w.conFirst[mpiRank() + 1]; i++) {
                const auto &kk = w.con[i];
                if (kk.b.oneSide && !one)
                    continue;
                for (int a = 0; a < 9; a++)
                    (kk.b.bilateral ? sb : su)[a] += kk.st[a] * (phase ? (LD)gam[i] : 1.0L);
            }
            for (int a = 0; a < 9; a++) {
                c.expect(close(uni(a / 3, a % 3), (double)su[a], 1e-12, 1e-11),
                         msg(phase ? "after" : "before", " write-back, unilateral stress ", a, " is ", uni(a / 3, a % 3), " instead of ", (double)su[a]));
                c.expect(close(bi(a / 3, a % 3), (double)sb[a], 1e-12, 1e-11),
                         msg(phase ? "after" : "before", " write-back, bilateral stress ", a, " is ", bi(a / 3, a % 3), " instead of ", (double)sb[a]));
            }
        }
        if (phase == 0)
            col.writeBackGamma(X.getConst());
    }
    std::vector<int> at(w.nThreads, 0);
    for (int i = w.conFirst[mpiRank()]; i < w.conFirst[mpiRank() + 1]; i++) {
        const auto &q = (*col.constraintPoolPtr)[w.con[i].que];
        const auto &b = q[at[w.con[i].que]++];
        c.expect(b.gamma == gam[i], msg("block ", i, " got magnitude ", b.gamma, " instead of ", gam[i]));
        c.expect(b.delta0 == w.con[i].b.delta0 && b.globalIndexI == w.con[i].b.globalIndexI, "write-back changed a block");
        for (int a = 0; a < 9; a++)
            c.expect(close(b.stress[a], w.con[i].st[a] * gam[i], 1e-14, 1e-300), msg("stress of block ", i, " after write-back"));
    }
    col.clear();
    c.expect(col.getLocalNumberOfConstraints() == 0 && (int)col.constraintPoolPtr->size() == w.nThreads, "clear");
}

namespace {
struct SolveOut {
    std::vector<double> gamma, fu, fb, vu, vb;
    double reported = -1;
};
struct SolveCase {
    World w;
    std::vector<double> M, vnc;
    double dt = 0.1, res = 1e-5;
    int maxIte = 6000;
    double mobScale = 1;
    void generate(Case &c, bool generous) {
        w.particles(c, 8);
        w.constraints(c, 20, true);
        const int n = 6 * w.nPart;
        std::mt19937_64 g(c.seed64());
        std::normal_distribution<double> N(0, 1);
        std::uniform_real_distribution<double> U(0, 1);
        mobScale = c.pick<double>({1, 0.01, 30, 1e-10}); // any units of force
        M.assign(size_t(n) * n, 0.0);
        const bool full = c.chance(1, 4), frozen = c.chance(1, 4) && !generous;
        const int blk = full ? n : 6;
        for (int s = 0; s < n; s += blk) {
            const bool zero = frozen && !full && (s / 6) % 3 == 1; // immovable particles
            std::vector<double> B(size_t(blk) * blk);
            for (auto &x : B)
                x = N(g) / std::sqrt(double(blk));
            for (int i = 0; i < blk && !zero; i++)
                for (int j = 0; j < blk; j++) {
                    double t = 0;
                    for (int k = 0; k < blk; k++)
                        t += B[i * blk + k] * B[j * blk + k];
                    M[size_t(s + i) * n + s + j] = mobScale * (0.5 * t + (i == j ? 0.5 : 0.0));
                }
        }
        vnc.resize(n);
        const double vs = c.pick<double>({1, 0, 10});
        for (auto &x : vnc)
            x = vs * N(g);
        dt = c.pick<double>({0.1, 1e-3, 1});
        // forces and velocities differ by the mobility: guesses and springs in proportion
        for (auto &k : w.con) {
            if (generous && k.b.bilateral) // feasible and not too stiff
                k.b.kappa = std::min(10.0, std::max(0.1, k.b.kappa));
            k.b.delta0 *= dt;
            k.b.kappa /= mobScale * dt;
            k.b.gamma /= mobScale;
        }
        if (generous) { // some velocity satisfies all unilateral constraints
            std::vector<LD> v(n);
            for (auto &x : v)
                x = N(g);
            auto r = w.gapRates(v);
            for (int i = 0; i < w.m(); i++)
                if (!w.con[i].b.bilateral)
                    w.con[i].b.delta0 = dt * (double)(-r[i] + (U(g) < 0.5 ? 0 : 1) * std::fabs(N(g)));
        }
        res = c.pick<double>({1e-5, 1e-3, 1e-7});
        maxIte = generous ? 6000 : c.pick<int>({6000, 1, 2, 5, 30});
    }
    SolveOut run(Case &c, int solver) {
        SolveOut o;
        auto map = w.mobMap();
        Teuchos::RCP<TOP> mob = Teuchos::rcp(new gensolver::DenseOp(map, M, 6 * w.nPart, times6(w.partCount)));
        ConstraintCollector col;
        w.fill(col);
        Teuchos::RCP<TV> v = toTV(map, vnc, 6 * w.partFirst[mpiRank()]);
        ConstraintSolver s;
        logSink->lines.clear();
        s.setup(col, mob, v, dt);
        s.setControlParams(res, maxIte, solver);
        s.solveConstraints();
        s.writebackGamma();
        for (auto &l : logSink->lines) {
            double a[6];
            const size_t at = l.find("residue ");
            if (at != std::string::npos &&
                sscanf(l.c_str() + at + 8, "%lf, %lf, %lf, %lf, %lf, %lf", a, a + 1, a + 2, a + 3, a + 4, a + 5) == 6)
                o.reported = a[4];
        }
        std::vector<double> mine(w.conCount[mpiRank()] + 1);
        std::vector<int> at(w.nThreads, 0);
        for (int i = w.conFirst[mpiRank()], j = 0; i < w.conFirst[mpiRank() + 1]; i++, j++)
            mine[j] = (*col.constraintPoolPtr)[w.con[i].que][at[w.con[i].que]++].gamma;
        o.gamma.resize(w.m() + 1);
        MPI_Allgatherv(mine.data(), w.conCount[mpiRank()], MPI_DOUBLE, o.gamma.data(), w.conCount.data(), w.conFirst.data(), MPI_DOUBLE,
                       MPI_COMM_WORLD);
        o.gamma.resize(w.m());
        auto c6 = times6(w.partCount);
        o.fu = gatherTV(c, s.getForceUni(), c6, "unilateral force");
        o.fb = gatherTV(c, s.getForceBi(), c6, "bilateral force");
        o.vu = gatherTV(c, s.getVelocityUni(), c6, "unilateral velocity");
        o.vb = gatherTV(c, s.getVelocityBi(), c6, "bilateral velocity");
        auto vn = gatherTV(c, v, c6, "velocity");
        c.expect(vn == vnc, "the solver changed the external velocity");
        return o;
    }
    std::vector<LD> mobTimes(const std::vector<LD> &f) const {
        const size_t n = f.size();
        std::vector<LD> v(n, 0.0L);
        for (size_t i = 0; i < n; i++)
            for (size_t j = 0; j < n; j++)
                v[i] += (LD)M[i * n + j] * f[j];
        return v;
    }
    /// the predicted gap change rates including the current gap, and the complementarity residual
    std::vector<LD> predicted(const std::vector<double> &gamma, LD &resid) const {
        auto v = mobTimes(w.forces(gamma));
        for (size_t i = 0; i < v.size(); i++)
            v[i] += vnc[i];
        auto g = w.gapRates(v);
        resid = 0;
        for (int i = 0; i < w.m(); i++) {
            const auto &b = w.con[i].b;
            g[i] += (LD)b.delta0 / dt;
            LD q;
            if (b.bilateral) {
                if (b.kappa > 0)
                    g[i] += (LD)gamma[i] / b.kappa / dt;
                q = g[i];
            } else
                q = gamma[i] <= 1e-13 ? std::min(g[i], 0.0L) : g[i];
            resid += q * q;
        }
        resid = std::sqrt(resid);
        return g;
    }
    void check(Case &c, const SolveOut &o, const char *who) const {
        auto fu = w.forces(o.gamma, 0), fb = w.forces(o.gamma, 1);
        auto vu = mobTimes(fu), vb = mobTimes(fb);
        LD gs = 0;
        for (double x : o.gamma)
            gs += std::fabs(x);
        const double ft = 1e-11 * (double)gs + 1e-13, vt = ft * mobScale * 20;
        for (int i = 0; i < w.m(); i++) {
            const auto &b = w.con[i].b;
            c.expect(std::isfinite(o.gamma[i]), msg(who, ": magnitude ", i, " is ", o.gamma[i]));
            if (!b.bilateral)
                c.expect(o.gamma[i] >= 0, msg(who, ": unilateral magnitude ", i, " is ", o.gamma[i]));
        }
        for (size_t i = 0; i < fu.size(); i++) {
            c.expect(close(o.fu[i], (double)fu[i], 0, ft), msg(who, ": unilateral force ", i, " is ", o.fu[i], ", the magnitudes give ", (double)fu[i]));
            c.expect(close(o.fb[i], (double)fb[i], 0, ft), msg(who, ": bilateral force ", i, " is ", o.fb[i], ", the magnitudes give ", (double)fb[i]));
            c.expect(close(o.vu[i], (double)vu[i], 0, vt), msg(who, ": unilateral velocity ", i, " is ", o.vu[i], ", the magnitudes give ", (double)vu[i]));
            c.expect(close(o.vb[i], (double)vb[i], 0, vt), msg(who, ": bilateral velocity ", i, " is ", o.vb[i], ", the magnitudes give ", (double)vb[i]));
        }
        if (o.reported >= 0 && o.reported < res) {
            LD r;
            auto g = predicted(o.gamma, r);
            const double lim = res * (1 + 1e-5) + vt + 1e-11;
            c.label(std::string(who) + ":converged");
            for (int i = 0; i < w.m(); i++) {
                const auto &b = w.con[i].b;
                if (b.bilateral)
                    c.expect(std::fabs((double)g[i]) <= lim, msg(who, ": bilateral constraint ", i, " misses its spring law by ", (double)g[i]));
                else
                    c.expect(g[i] >= -lim && (o.gamma[i] <= 1e-13 || g[i] <= lim),
                             msg(who, ": unilateral constraint ", i, " magnitude ", o.gamma[i], " predicted gap over dt ", (double)g[i], " tolerance ", res));
            }
            c.expect(r <= lim, msg(who, ": residual ", (double)r, " above ", res));
        } else
            c.label(std::string(who) + (o.reported < 0 ? ":no-report" : ":not-converged"));
    }
};
} // namespace

PBT_FACET(solve,
          "random particles with symmetric mobility (block diagonal, dense, some immovable), random uni-/bilateral constraints over "
          "all ranks and queues, external velocities, steps, tolerances and iteration limits; both solvers; forces, velocities, signs, "
          "predicted gaps and spring laws recomputed in long double; non-trivial with at least two constraints of which one active") {
    SolveCase s;
    s.generate(c, false);
    c << s.w.show() << ", dt=" << s.dt << " res=" << s.res << " maxIte=" << s.maxIte << " mobility " << s.mobScale;
    SolveOut o[2];
    for (int k = 0; k < 2; k++) {
        o[k] = s.run(c, k);
        s.check(c, o[k], k ? "APGD" : "BBPGD");
    }
    bool active = false;
    for (double x : o[0].gamma)
        active = active || x > 1e-9;
    c.nontrivial(s.w.m() >= 2 && active);
    if (o[0].reported >= 0 && o[1].reported >= 0 && o[0].reported < s.res && o[1].reported < s.res) {
        // (g1-g2)^T A (g1-g2) <= (|q1|+|q2|) |g1-g2|
        std::vector<double> d(s.w.m());
        LD dn = 0;
        for (int i = 0; i < s.w.m(); i++) {
            d[i] = o[0].gamma[i] - o[1].gamma[i];
            dn += (LD)d[i] * d[i];
        }
        auto f = s.w.forces(d);
        auto v = s.mobTimes(f);
        LD e = 0;
        for (size_t i = 0; i < f.size(); i++)
            e += f[i] * v[i];
        for (int i = 0; i < s.w.m(); i++)
            if (s.w.con[i].b.bilateral && s.w.con[i].b.kappa > 0)
                e += (LD)d[i] * d[i] / s.w.con[i].b.kappa / s.dt;
        c.expect(e <= 2.1L * s.res * std::sqrt(dn) + 1e-9L * (1 + dn), msg("the two solvers disagree: energy of the difference ", (double)e));
    }
}

PBT_FACET(solveconverge,
          "batches of 30 such problems with a generous iteration limit: the complementarity residual, recomputed in long double, has "
          "to reach the tolerance in all but a few; non-trivial always") {
    const uint64_t seed = c.seed64();
    int miss[2] = {0, 0};
    c << "batch seed " << seed;
    c.nontrivial();
    for (int k = 0; k < 30; k++) {
        Case q;
        q.index = 40;
        q.state = seed + 104729 * k;
        SolveCase s;
        s.generate(q, true);
        s.res = std::max(s.res, 1e-5);
        for (int which = 0; which < 2; which++) {
            SolveOut o = s.run(q, which);
            s.check(q, o, which ? "APGD" : "BBPGD");
            LD r;
            s.predicted(o.gamma, r);
            LD gs = 0;
            for (double x : o.gamma)
                gs += std::fabs(x);
            if (!(r <= s.res * 1.001L + 1e-9L * gs * s.mobScale + 1e-11L))
                miss[which]++;
        }
        c.expect(!q.failed, msg("problem ", k, ": ", q.message, "; ", s.w.show()));
    }
    for (int k = 0; k < 2; k++) {
        c.label(msg(k ? "APGD" : "BBPGD", ":missed", miss[k]));
        c.expect(miss[k] <= 7, msg(k ? "APGD" : "BBPGD", ": ", miss[k], " of 30 problems did not reach the tolerance"));
    }
}

PBT_FACET(solvefew,
          "up to three well-conditioned constraints (all stretched springs, all apart, all overlapping or mixed), particles at rest or moving: the "
          "residual, recomputed in long double, has to reach the tolerance in every case; non-trivial unless all magnitudes vanish") {
    SolveCase s;
    s.w.particles(c, 4);
    s.w.constraints(c, 3, true);
    const int n = 6 * s.w.nPart, m = s.w.m();
    if (m == 0)
        c.discard();
    std::mt19937_64 g(c.seed64());
    std::normal_distribution<double> N(0, 1);
    std::uniform_real_distribution<double> U(0, 1);
    s.mobScale = c.pick<double>({1, 0.01, 30, 1e-10});
    s.dt = c.pick<double>({0.1, 1e-3, 1});
    s.res = c.pick<double>({1e-5, 1e-3});
    s.maxIte = 6000;
    s.M.assign(size_t(n) * n, 0.0);
    for (int i = 0; i < n; i++)
        s.M[size_t(i) * n + i] = s.mobScale * (0.5 + U(g));
    const int sign = c.below(3), kind = c.below(4);
    const double vs = c.pick<double>({0, 1, 0.01});
    s.vnc.resize(n);
    for (auto &x : s.vnc)
        x = vs * N(g);
    for (auto &k : s.w.con) {
        if (kind != 3 && !k.b.bilateral && kind != 1) { // springs only
            k.b.bilateral = true;
            k.b.oneSide = false;
            k.b.kappa = kind == 0 ? 1 : 0;
        }
        if (k.b.bilateral)
            k.b.kappa = k.b.kappa == 0 ? 0 : std::pow(10, 2 * U(g) - 1) / (s.mobScale * s.dt);
        else
            k.b.kappa = 0;
        k.b.delta0 = s.dt * (sign == 0 ? std::fabs(N(g)) : sign == 1 ? -std::fabs(N(g)) : N(g));
        k.b.gamma = c.chance(1, 2) ? 0 : k.b.gamma / s.mobScale;
    }
    // the Gram matrix of the constraint directions must be far from singular
    Eigen::MatrixXd G(m, m);
    std::vector<std::vector<LD>> rows(m);
    for (int i = 0; i < m; i++) {
        rows[i].assign(n, 0.0L);
        World::wrench(s.w.con[i].b, rows[i], 1);
    }
    for (int i = 0; i < m; i++)
        for (int j = 0; j < m; j++) {
            LD t = 0;
            for (int a = 0; a < n; a++)
                t += rows[i][a] * rows[j][a];
            G(i, j) = (double)t;
        }
    Eigen::SelfAdjointEigenSolver<Eigen::MatrixXd> eig(G);
    if (eig.eigenvalues()[0] < 0.2 || eig.eigenvalues()[m - 1] > 30)
        c.discard();
    c << s.w.show() << ", dt=" << s.dt << " res=" << s.res << " mobility " << s.mobScale << ", gaps";
    for (auto &k : s.w.con)
        c << " " << k.b.delta0 << (k.b.bilateral ? msg("b", k.b.kappa) : "u");
    for (int which = 0; which < 2; which++) {
        const char *who = which ? "APGD" : "BBPGD";
        SolveOut o = s.run(c, which);
        s.check(c, o, who);
        LD r, gs = 0;
        s.predicted(o.gamma, r);
        for (double x : o.gamma)
            gs += std::fabs(x);
        c.nontrivial(gs > 0);
        c.expect(r <= s.res * 1.001L + 1e-9L * gs * s.mobScale + 1e-11L, msg(who, ": residual ", (double)r, " above the tolerance ", s.res));
    }
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    logSink = std::make_shared<LogSink>();
    auto lg = std::make_shared<spdlog::logger>("capture", logSink);
    spdlog::set_default_logger(lg);
    spdlog::set_level(spdlog::level::info);
    int r = pbt::run(argc, argv);
    MPI_Finalize();
    return r;
}
