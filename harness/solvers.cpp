/** bound constrained quadratic (C08) and linear complementarity (C09) solvers on problems with a known solution */
#include "pbt.hpp"
#include "gen_solver.hpp"

#include "Collision/CPSolver.hpp"
#include "Constraint/BCQPSolver.hpp"

using namespace pbt;
using namespace gensolver;

static void checkHistory(Case &c, const char *who, const IteHistory &h, int iteMax) {
    c.expect(!h.empty(), msg(who, ": no iteration history"));
    if (h.empty())
        return;
    c.expect(h.back()[0] <= iteMax, msg(who, ": ", h.back()[0], " iterations, the limit is ", iteMax));
}

static const char *NAME[] = {"BBPGD", "APGD"};

struct Solved {
    int ret = 0;
    double reported = 0; ///< residual the history reports for the returned point
    std::vector<double> x;
    IteHistory h;
};

static Solved runBCQP(Problem &p, const std::vector<double> &guess, int which, double tol, int iteMax) {
    Solved s;
    BCQPSolver solver(p.op, p.b);
    if (p.setLower)
        solver.setLowerBound(p.toTV(p.lb));
    if (p.setUpper)
        solver.setUpperBound(p.toTV(p.ub));
    solver.prepareSolver();
    Teuchos::RCP<TV> x = p.toTV(guess);
    s.ret = which == 0 ? solver.solveBBPGD(x, tol, iteMax, s.h) : solver.solveAPGD(x, tol, iteMax, s.h);
    s.x = p.gather(x);
    // BBPGD returns its last iterate, APGD its best one
    if (!s.h.empty()) {
        s.reported = s.h.back()[4];
        if (which == 1) {
            s.reported = std::numeric_limits<double>::max();
            for (size_t i = 1; i < s.h.size(); i++)
                s.reported = std::min(s.reported, s.h[i][4]);
        }
    }
    return s;
}

static void checkBCQP(Case &c, Problem &p, const Solved &s, int which, double tol, int iteMax) {
    const char *who = NAME[which];
    checkHistory(c, who, s.h, iteMax);
    for (int i = 0; i < p.n; i++)
        c.expect(s.x[i] >= p.lb[i] && s.x[i] <= p.ub[i],
                 msg(who, ": x[", i, "] = ", s.x[i], " outside [", p.lb[i], ", ", p.ub[i], "]"));
    if (c.failed)
        return;
    const double res = p.residual(s.x), slack = p.roundoff(s.x);
    if (s.h.size() > (which == 1 ? 1 : 0))
        c.expect(std::fabs(res - s.reported) <= 1e-7 * s.reported + slack,
                 msg(who, ": the returned point ", p.vec(s.x), " has residual ", res, ", the history reports ", s.reported));
    const bool claims = s.reported < tol && s.ret == 0;
    c.label(std::string(who) + (claims ? ":converged" : s.ret ? ":stagnated" : ":iteration-limit"));
    if (!claims)
        return;
    c.expect(res <= tol * (1 + 1e-7) + slack, msg(who, ": reports convergence to ", tol, " with residual ", res));
    if (p.mu > 0) {
        long double d = 0;
        for (int i = 0; i < p.n; i++)
            d += (long double)(s.x[i] - p.xs[i]) * (s.x[i] - p.xs[i]);
        const double bound = (tol * (1 + 1e-6) + slack + p.roundoff(p.xs)) / p.mu;
        c.expect(std::sqrt((double)d) <= bound * (1 + 1e-6),
                 msg(who, ": distance to the solution ", (double)std::sqrt((double)d), " exceeds ", bound));
    } else {
        const double gap = p.objective(s.x) - p.objective(p.xs);
        double d = 0;
        for (int i = 0; i < p.n; i++)
            d += (s.x[i] - p.xs[i]) * (s.x[i] - p.xs[i]);
        d = std::sqrt(d);
        c.expect(gap <= (tol + slack + p.roundoff(p.xs)) * d * (1 + 1e-6) + slack * (d + p.norm(p.xs)) + 3e-14 * p.n * p.gscale,
                 msg(who, ": objective above the minimum by ", gap));
    }
}

PBT_FACET(bcqp,
          "symmetric positive (semi-)definite matrix with chosen spectrum, random box (one sided, two sided, degenerate, unbounded), "
          "right hand side built from a known solution with free, bound and degenerate entries; starting guesses feasible, "
          "infeasible, all ones, at a bound, at the solution; rows spread unevenly over the ranks; both solvers; non-trivial when "
          "some bound is active and some entry is free") {
    Problem p;
    p.generate(c, false);
    std::vector<double> guess = p.guess(c);
    const double tol = std::max(p.gscale, 1e-300) * c.pick<double>({1e-4, 1e-6, 1e-8, 1e-2});
    const int iteMax = c.pick<int>({5000, 1, 2, 3, 10, 500, 5000, 5000});
    c << p.show() << " guess=" << p.guessKind << " tol=" << tol << " iteMax=" << iteMax;
    c.nontrivial(p.nActive > 0 && p.nFree > 0);
    p.build();
    const int first = c.below(2);
    for (int k = 0; k < 2; k++) {
        const int which = k ? 1 - first : first;
        Solved s = runBCQP(p, guess, which, tol, iteMax);
        checkBCQP(c, p, s, which, tol, iteMax);
        p.checkUntouched(c, NAME[which]);
    }
}

PBT_FACET(bcqpconverge,
          "batches of 40 well conditioned problems (condition number up to 300) with generous iteration limits: each solver has to "
          "reach the tolerance in all but a few of them; non-trivial always") {
    const uint64_t seed = c.seed64();
    const int batch = 40;
    int miss[2] = {0, 0};
    double worst[2] = {0, 0};
    c << "batch seed " << seed;
    c.nontrivial();
    for (int k = 0; k < batch; k++) {
        Case q;
        q.index = 30;
        q.state = seed + 7919 * k;
        Problem p;
        p.generate(q, false, 300, true);
        std::vector<double> guess = p.guess(q);
        const double tol = p.gscale * q.pick<double>({1e-4, 1e-5, 1e-6});
        p.build();
        for (int which = 0; which < 2; which++) {
            Solved s = runBCQP(p, guess, which, tol, 1500);
            checkBCQP(q, p, s, which, tol, 1500);
            if (!(s.ret == 0 && s.reported < tol))
                miss[which]++;
            worst[which] = std::max(worst[which], s.h.back()[0]);
        }
        c.expect(!q.failed, msg("problem ", k, ": ", q.message, "; ", p.show()));
    }
    for (int which = 0; which < 2; which++) {
        c.label(msg(NAME[which], ":missed", miss[which]));
        c.label(msg(NAME[which], ":iterations<", std::pow(2, std::ceil(std::log2(worst[which] + 1)))));
        c.expect(miss[which] <= 1, msg(NAME[which], ": ", miss[which], " of ", batch, " well conditioned problems did not converge"));
    }
}

static const char *LNAME[] = {"LCP_BBPGD", "LCP_APGD", "LCP_mmNewton"};

static Solved runLCP(Problem &p, const std::vector<double> &guess, int which, double tol, int iteMax) {
    Solved s;
    CPSolver solver(p.op, p.b);
    Teuchos::RCP<TV> x = p.toTV(guess);
    std::cout.setstate(std::ios::badbit);
    s.ret = which == 0   ? solver.LCP_BBPGD(x, tol, iteMax, s.h)
            : which == 1 ? solver.LCP_APGD(x, tol, iteMax, s.h)
                         : solver.LCP_mmNewton(x, tol, iteMax, s.h);
    std::cout.clear();
    s.x = p.gather(x);
    if (!s.h.empty()) {
        s.reported = s.h.back()[4];
        if (which == 1) {
            s.reported = std::numeric_limits<double>::max();
            for (size_t i = 1; i < s.h.size(); i++)
                s.reported = std::min(s.reported, s.h[i][4]);
        }
        if (which == 2 && !(s.h.back()[3] > 0))
            s.reported = std::numeric_limits<double>::max(); // nothing evaluated yet
    }
    return s;
}

static void checkLCP(Case &c, Problem &p, const Solved &s, int which, double tol, int iteMax) {
    const char *who = LNAME[which];
    checkHistory(c, who, s.h, iteMax);
    const double slack = p.roundoff(s.x);
    const double res = p.minMap(s.x);
    const bool claims = s.ret == 0 && s.reported < tol;
    c.label(std::string(who) + (claims ? ":converged" : s.ret ? ":gave-up" : ":no-claim"));
    // Barzilai-Borwein steps without a line search may diverge: then there is no claim to check
    if (which != 2 && std::isfinite(s.reported) && s.h.size() > (which == 1 ? 1 : 0))
        c.expect(std::fabs(res - s.reported) <= 1e-7 * s.reported + slack,
                 msg(who, ": the returned point has residual ", res, ", the history reports ", s.reported));
    if (!claims)
        return;
    const double t = tol * (1 + 1e-7) + slack;
    c.expect(res <= t, msg(who, ": reports convergence to ", tol, " with residual ", res));
    std::vector<long double> y = p.grad(s.x);
    for (int i = 0; i < p.n; i++) {
        c.expect(s.x[i] >= -t, msg(who, ": x[", i, "] = ", s.x[i]));
        c.expect(y[i] >= -t, msg(who, ": (Ax+b)[", i, "] = ", (double)y[i]));
        c.expect(std::min((long double)s.x[i], y[i]) <= t, msg(who, ": x and Ax+b both positive at ", i, ": ", s.x[i], " ", (double)y[i]));
    }
    long double d = 0;
    for (int i = 0; i < p.n; i++)
        d += (long double)(s.x[i] - p.xs[i]) * (s.x[i] - p.xs[i]);
    const double bound = (1 + p.L) / p.mu * (t + p.roundoff(p.xs));
    c.expect(std::sqrt((double)d) <= bound * (1 + 1e-6),
             msg(who, ": distance to the solution ", (double)std::sqrt((double)d), " exceeds ", bound));
}

PBT_FACET(lcp,
          "symmetric positive definite complementarity problems with a known solution (free, bound and degenerate entries), random "
          "guesses and iteration limits, rows spread unevenly over the ranks; three methods; non-trivial when some entry is free "
          "and some is at zero") {
    Problem p;
    p.generate(c, true, 1e4);
    std::vector<double> guess = p.guess(c);
    const double tol = std::max(p.gscale, 1e-300) * c.pick<double>({1e-4, 1e-6, 1e-8, 1e-2});
    const int iteMax = c.pick<int>({3000, 1, 2, 3, 10, 500, 3000, 3000});
    c << p.show() << " guess=" << p.guessKind << " tol=" << tol << " iteMax=" << iteMax;
    c.nontrivial(p.nActive > 0 && p.nFree > 0);
    p.build();
    const int first = c.below(3);
    for (int k = 0; k < 3; k++) {
        const int which = (k + first) % 3;
        if (which == 2 && (p.globalSize() == 0)) // Belos does not accept an empty problem
            continue;
        Solved s = runLCP(p, guess, which, tol, which == 2 ? std::min(iteMax, 100) : iteMax);
        checkLCP(c, p, s, which, tol, which == 2 ? 101 : iteMax);
        p.checkUntouched(c, LNAME[which]);
    }
}

PBT_FACET(lcpconverge,
          "batches of 25 well conditioned complementarity problems (condition number up to 100) with generous iteration limits: each "
          "method has to reach the tolerance in all but a few of them; non-trivial always") {
    const uint64_t seed = c.seed64();
    const int batch = 25;
    int miss[3] = {0, 0, 0};
    c << "batch seed " << seed;
    c.nontrivial();
    for (int k = 0; k < batch; k++) {
        Case q;
        q.index = 30;
        q.state = seed + 7919 * k;
        Problem p;
        p.generate(q, true, 100, true);
        std::vector<double> guess = p.guess(q);
        const double tol = p.gscale * q.pick<double>({1e-4, 1e-5, 1e-6});
        p.build();
        for (int which = 0; which < 3; which++) {
            Solved s = runLCP(p, guess, which, tol, which == 2 ? 100 : 2000);
            checkLCP(q, p, s, which, tol, 3000);
            // Newton also stops when its merit function stops decreasing: judge the point itself
            if (!(p.minMap(s.x) < (which == 2 ? 1e-2 * p.gscale * std::max(1.0, 1 / p.L) : tol * (1 + 1e-6))))
                miss[which]++;
        }
        c.expect(!q.failed, msg("problem ", k, ": ", q.message, "; ", p.show()));
    }
    for (int which = 0; which < 3; which++) {
        c.label(msg(LNAME[which], ":missed", miss[which]));
        c.expect(miss[which] <= (which == 2 ? 8 : 1), msg(LNAME[which], ": ", miss[which], " of ", batch, " well conditioned problems did not converge"));
    }
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    spdlog::set_level(spdlog::level::err);
    int r;
    { r = pbt::run(argc, argv); }
    MPI_Finalize();
    return r;
}
