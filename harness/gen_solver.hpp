/** quadratic problems with known solution, spread over the ranks */
#pragma once
#include "pbt.hpp"

#include "Trilinos/TpetraUtil.hpp"
#include "spdlog/spdlog.h"

#include <random>

namespace gensolver {
using pbt::Case;
using pbt::msg;

/// dense symmetric operator: every rank holds the whole matrix and computes its own rows
class DenseOp : public TOP {
  public:
    Teuchos::RCP<const TMAP> map;
    const std::vector<double> &A;
    int n, first;
    std::vector<int> counts, displs;
    DenseOp(Teuchos::RCP<const TMAP> map_, const std::vector<double> &A_, int n_, std::vector<int> counts_)
        : map(map_), A(A_), n(n_), counts(counts_) {
        displs.resize(counts.size() + 1, 0);
        for (size_t i = 0; i < counts.size(); i++)
            displs[i + 1] = displs[i] + counts[i];
        first = displs[pbt::mpiRank()];
    }
    Teuchos::RCP<const TMAP> getDomainMap() const { return map; }
    Teuchos::RCP<const TMAP> getRangeMap() const { return map; }
    bool hasTransposeApply() const { return true; }
    void apply(const TMV &X, TMV &Y, Teuchos::ETransp = Teuchos::NO_TRANS, double alpha = 1, double beta = 0) const {
        for (size_t c = 0; c < X.getNumVectors(); c++) {
            auto x = X.getVector(c);
            auto y = Y.getVectorNonConst(c);
            auto xv = x->getLocalView<Kokkos::HostSpace>();
            std::vector<double> all(n + 1);
            std::vector<double> mine(counts[pbt::mpiRank()] + 1);
            for (int i = 0; i < counts[pbt::mpiRank()]; i++)
                mine[i] = xv(i, 0);
            MPI_Allgatherv(mine.data(), counts[pbt::mpiRank()], MPI_DOUBLE, all.data(), counts.data(), displs.data(), MPI_DOUBLE,
                           MPI_COMM_WORLD);
            auto yv = y->getLocalView<Kokkos::HostSpace>();
            y->modify<Kokkos::HostSpace>();
            for (int i = 0; i < counts[pbt::mpiRank()]; i++) {
                double s = 0;
                const double *row = &A[size_t(first + i) * n];
                for (int j = 0; j < n; j++)
                    s += row[j] * all[j];
                yv(i, 0) = alpha * s + (beta == 0 ? 0 : beta * yv(i, 0));
            }
        }
    }
};

struct Problem {
    int n = 0, nActive = 0, nFree = 0;
    double mu = 0, L = 0, gscale = 1;
    bool setLower = true, setUpper = true, realMatrix = false;
    std::vector<double> A, bv, lb, ub, xs;
    std::vector<int> counts, displs;
    std::string guessKind;
    Teuchos::RCP<const TCOMM> comm;
    Teuchos::RCP<const TMAP> map;
    Teuchos::RCP<const TOP> op;
    Teuchos::RCP<const TV> b;

    int globalSize() const { return n; }

    void generate(Case &c, bool lcp, double condMax = 1e5, bool nonempty = false) {
        n = c.sized(nonempty ? 1 : 0, 24);
        const double wide = nonempty ? 10 : 1e3;
        const double scale = c.chance(1, 3) ? 1.0 : c.logReal(1 / wide, wide); // of the matrix
        const double xscale = c.chance(1, 3) ? 1.0 : c.logReal(1 / wide, wide); // of the solution
        const double cond = c.chance(1, 4) ? 1.0 : c.logReal(1, condMax);
        const bool psd = !lcp && !nonempty && c.chance(1, 3);
        const int kind = c.below(3); // 0 diagonal, 1 full, 2 block diagonal
        const int blk = kind == 0 ? 1 : kind == 1 ? std::max(n, 1) : 1 + c.below(4);
        std::mt19937_64 g(c.seed64());
        std::normal_distribution<double> N(0, 1);
        std::uniform_real_distribution<double> U(0, 1);
        A.assign(size_t(n) * n, 0.0);
        std::vector<long double> AL(size_t(n) * n, 0.0L);
        L = 0;
        mu = 1e300;
        for (int s = 0; s < n; s += blk) {
            const int m = std::min(blk, n - s);
            std::vector<std::vector<long double>> Q; // orthonormal rows
            while ((int)Q.size() < m) {
                std::vector<long double> v(m);
                for (auto &x : v)
                    x = N(g);
                for (int rep = 0; rep < 2; rep++)
                    for (auto &q : Q) {
                        long double d = 0;
                        for (int i = 0; i < m; i++)
                            d += q[i] * v[i];
                        for (int i = 0; i < m; i++)
                            v[i] -= d * q[i];
                    }
                long double nn = 0;
                for (auto x : v)
                    nn += x * x;
                if (nn < 1e-6)
                    continue;
                nn = std::sqrt(nn);
                for (auto &x : v)
                    x /= nn;
                Q.push_back(v);
            }
            for (int k = 0; k < m; k++) {
                double lam = scale * std::pow(cond, U(g));
                if (psd && U(g) < 0.4)
                    lam = 0;
                L = std::max(L, lam);
                mu = std::min(mu, lam);
                for (int i = 0; i < m; i++)
                    for (int j = 0; j < m; j++)
                        AL[size_t(s + i) * n + s + j] += lam * Q[k][i] * Q[k][j];
            }
        }
        if (n == 0)
            mu = L = 1;
        if (!psd)
            mu *= 1 - 1e-9;
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++)
                A[size_t(i) * n + j] = (double)(0.5L * (AL[size_t(i) * n + j] + AL[size_t(j) * n + i]));
        // box, solution, multipliers
        const double inf = std::numeric_limits<double>::max() / 10;
        const int boxKind = lcp ? 1 : c.below(5); // 0 two sided, 1 lower 0 only, 2 mixed, 3 unbounded, 4 upper only
        setLower = boxKind != 3 && boxKind != 4;
        setUpper = boxKind == 0 || boxKind == 2 || boxKind == 4;
        lb.assign(n, -inf);
        ub.assign(n, inf);
        xs.assign(n, 0.0);
        std::vector<double> w(n, 0.0);
        for (int i = 0; i < n; i++) {
            double a = xscale * (2 * U(g) - 1), h = xscale * U(g);
            const double r = U(g);
            if (boxKind == 0 || (boxKind == 2 && r < 0.3)) {
                lb[i] = a;
                ub[i] = U(g) < 0.1 ? a : a + h;
            } else if (boxKind == 1 || (boxKind == 2 && r < 0.6)) {
                lb[i] = lcp || U(g) < 0.7 ? 0.0 : a;
                if (boxKind == 2 && U(g) < 0.2)
                    lb[i] = -1e8 * xscale;
            } else if (boxKind == 4) {
                ub[i] = a;
            }
            const bool hasL = lb[i] > -inf, hasU = ub[i] < inf;
            const double t = U(g);
            const double ww = scale * xscale * (U(g) < 0.15 ? 0.0 : U(g));
            if (hasL && t < 0.4) {
                xs[i] = lb[i];
                w[i] = ww;
                nActive++;
            } else if (hasU && t < (hasL ? 0.7 : 0.5)) {
                xs[i] = ub[i];
                w[i] = -ww;
                nActive++;
            } else {
                if (hasL && hasU)
                    xs[i] = lb[i] + (ub[i] - lb[i]) * U(g);
                else if (hasL)
                    xs[i] = (lb[i] < -1e6 * xscale ? 0 : lb[i]) + xscale * U(g);
                else if (hasU)
                    xs[i] = ub[i] - xscale * U(g);
                else
                    xs[i] = xscale * (2 * U(g) - 1);
                if (hasL)
                    xs[i] = std::max(xs[i], lb[i]);
                if (hasU)
                    xs[i] = std::min(xs[i], ub[i]);
                nFree++;
            }
            if (lb[i] == ub[i])
                w[i] = U(g) < 0.5 ? ww : -ww;
        }
        bv.assign(n, 0.0);
        for (int i = 0; i < n; i++) {
            long double s = w[i];
            for (int j = 0; j < n; j++)
                s -= (long double)A[size_t(i) * n + j] * xs[j];
            bv[i] = (double)s;
        }
        gscale = L * std::max(norm(xs), xscale) + norm(bv);
        if (!(gscale > 0))
            gscale = scale * xscale;
        // distribution over the ranks
        const int np = pbt::mpiSize();
        counts.assign(np, 0);
        const int mode = c.below(3); // even, random, all on one rank
        if (mode == 2) {
            counts[c.below(np)] = n;
        } else {
            for (int i = 0; i < n; i++)
                counts[mode == 0 ? i * np / n : int(g() % np)]++;
        }
        displs.assign(np + 1, 0);
        for (int i = 0; i < np; i++)
            displs[i + 1] = displs[i] + counts[i];
        realMatrix = c.chance(1, 2);
        kindName = msg(psd ? "psd" : "spd", " cond=", cond, " scale=", scale, " xscale=", xscale, " structure=", kind, " box=", boxKind);
    }
    std::string kindName;

    static std::string vec(const std::vector<double> &v) {
        std::ostringstream o;
        o.precision(17);
        o << "(";
        for (size_t i = 0; i < v.size() && i < 6; i++)
            o << (i ? ", " : "") << v[i];
        o << (v.size() > 6 ? ", ...)" : ")");
        return o.str();
    }
    std::string show() const {
        std::ostringstream o;
        o.precision(6);
        o << "n=" << n << " rows per rank";
        for (int k : counts)
            o << " " << k;
        o << " " << kindName << " active=" << nActive << " free=" << nFree;
        if (n <= 3 && n > 0) {
            o.precision(17);
            o << " A=";
            for (double v : A)
                o << v << ",";
            o << " b=";
            for (double v : bv)
                o << v << ",";
            o << " box=";
            for (int i = 0; i < n; i++)
                o << "[" << lb[i] << "," << ub[i] << "]";
            o << " x*=";
            for (double v : xs)
                o << v << ",";
        }
        return o.str();
    }

    std::vector<double> guess(Case &c) {
        static const char *names[] = {"zero", "solution", "ones", "inside", "outside", "bounds", "near-solution"};
        const int k = c.below(7);
        guessKind = names[k];
        std::mt19937_64 g(c.seed64());
        std::uniform_real_distribution<double> U(0, 1);
        std::vector<double> x(n, 0.0);
        const double sc = std::max(norm(xs), 1e-3);
        for (int i = 0; i < n; i++) {
            const double u = U(g), v = U(g);
            const double far = xs[i] + sc * 4 * (u - 0.5);
            switch (k) {
            case 1:
                x[i] = xs[i];
                break;
            case 2:
                x[i] = 1;
                break;
            case 3:
                x[i] = std::min(ub[i], std::max(lb[i], far));
                break;
            case 4:
                x[i] = far;
                break;
            case 5:
                x[i] = std::fabs(lb[i]) < 1e100 && (v < 0.5 || !(std::fabs(ub[i]) < 1e100)) ? lb[i] : std::fabs(ub[i]) < 1e100 ? ub[i] : far;
                if (std::fabs(x[i]) > 1e6 * sc)
                    x[i] = far;
                break;
            case 6:
                x[i] = xs[i] * (1 + 1e-3 * u);
                break;
            default:
                break;
            }
        }
        return x;
    }

    void build() {
        comm = getMPIWORLDTCOMM();
        const int r = pbt::mpiRank();
        map = getTMAPFromLocalSize(counts[r], comm);
        b = toTV(bv);
        if (realMatrix) {
            std::vector<int> all(n);
            for (int i = 0; i < n; i++)
                all[i] = i;
            Teuchos::RCP<TCMAT> M = Teuchos::rcp(new TCMAT(map, std::max(n, 1)));
            for (int i = displs[r]; i < displs[r + 1]; i++) {
                std::vector<int> col;
                std::vector<double> val;
                for (int j = 0; j < n; j++)
                    if (A[size_t(i) * n + j] != 0 || i == j) {
                        col.push_back(j);
                        val.push_back(A[size_t(i) * n + j]);
                    }
                M->insertGlobalValues(i, Teuchos::ArrayView<const int>(col), Teuchos::ArrayView<const double>(val));
            }
            M->fillComplete(map, map);
            op = M;
        } else {
            op = Teuchos::rcp(new DenseOp(map, A, n, counts));
        }
    }
    Teuchos::RCP<TV> toTV(const std::vector<double> &v) const {
        Teuchos::RCP<TV> t = Teuchos::rcp(new TV(map, true));
        auto p = t->getLocalView<Kokkos::HostSpace>();
        t->modify<Kokkos::HostSpace>();
        const int r = pbt::mpiRank();
        for (int i = 0; i < counts[r]; i++)
            p(i, 0) = v[displs[r] + i];
        return t;
    }
    std::vector<double> gather(const Teuchos::RCP<const TV> &t) const {
        const int r = pbt::mpiRank();
        auto p = t->getLocalView<Kokkos::HostSpace>();
        std::vector<double> mine(counts[r] + 1), all(n + 1);
        for (int i = 0; i < counts[r] && i < (int)p.extent(0); i++)
            mine[i] = p(i, 0);
        MPI_Allgatherv(mine.data(), counts[r], MPI_DOUBLE, all.data(), counts.data(), displs.data(), MPI_DOUBLE, MPI_COMM_WORLD);
        all.resize(n);
        return all;
    }
    void checkUntouched(Case &c, const char *who) const {
        auto now = gather(b);
        c.expect(now == bv, msg(who, ": changed the vector b"));
    }
    static double norm(const std::vector<double> &v) {
        long double s = 0;
        for (double x : v)
            s += (long double)x * x;
        return std::sqrt((double)s);
    }
    std::vector<long double> grad(const std::vector<double> &x) const {
        std::vector<long double> y(n);
        for (int i = 0; i < n; i++) {
            y[i] = bv[i];
            for (int j = 0; j < n; j++)
                y[i] += (long double)A[size_t(i) * n + j] * x[j];
        }
        return y;
    }
    double objective(const std::vector<double> &x) const {
        auto y = grad(x);
        long double s = 0;
        for (int i = 0; i < n; i++)
            s += 0.5L * x[i] * (y[i] + bv[i]);
        return (double)s;
    }
    /// rounding of Ax+b in double, and the 1e-13 with which a solver may identify an active bound
    double roundoff(const std::vector<double> &x) const {
        double s = 0, ax = 0;
        for (int i = 0; i < n; i++) {
            double t = std::fabs(bv[i]);
            for (int j = 0; j < n; j++)
                t += std::fabs(A[size_t(i) * n + j] * x[j]);
            s += t * t;
        }
        (void)ax;
        return 4e-16 * (n + 10) * std::sqrt(s) + 1e-13 * (L + 1) * std::sqrt(n + 1.0);
    }
    double residual(const std::vector<double> &x) const {
        auto y = grad(x);
        long double s = 0;
        for (int i = 0; i < n; i++) {
            long double q = y[i];
            if (x[i] <= lb[i] + 3e-14)
                q = std::min(q, 0.0L);
            else if (x[i] >= ub[i] - 3e-14)
                q = std::max(q, 0.0L);
            if (lb[i] == ub[i])
                q = x[i] == lb[i] ? 0 : q;
            s += q * q;
        }
        return std::sqrt((double)s);
    }
    double minMap(const std::vector<double> &x) const {
        auto y = grad(x);
        long double s = 0;
        for (int i = 0; i < n; i++) {
            long double q = std::min((long double)x[i], y[i]);
            s += q * q;
        }
        return std::sqrt((double)s);
    }
};
} // namespace gensolver
