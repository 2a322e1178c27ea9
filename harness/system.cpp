/** particle systems: constraint collection (C04, C05, C20), mobility (C10) */
#include "gen_system.hpp"

#include <functional>

using namespace pbt;
using namespace sysgen;

static bool stop(Case &c) { // collective: did any rank fail?
    int f = c.failed, any = 0;
    MPI_Allreduce(&f, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return any;
}

PBT_FACET(pairs,
          "random systems of rods and spheres in boxes with every combination of periodic directions, many pairs close, also across "
          "the periodic faces; one to three rounds of moving, exchanging, inserting and collecting; the collected collision "
          "constraints are compared with an all-pairs search over nearest images; non-trivial with at least one pair in range") {
    SceneOpt opt;
    opt.mayMonolayer = true;
    Scene s = scene(c, opt);
    c << s.show();
    Sim sim(s);
    const int rounds = c.integer(1, 3);
    for (int round = 0; round < rounds; round++) {
        if (round) {
            auto &con = sim->getContainerNonConst();
            const double amp = c.pick({0.0, 0.3, 5.0});
            const uint64_t seed = c.seed64();
            for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
                std::mt19937_64 g(seed + 977 * con[i].gid);
                std::normal_distribution<double> N(0, 1);
                for (int k = 0; k < 3; k++)
                    con[i].pos[k] += amp * N(g);
                if (amp > 0 && !s.cfg.monolayer) {
                    double q[4], n2 = 0;
                    for (double &x : q) {
                        x = N(g);
                        n2 += x * x;
                    }
                    for (int k = 0; k < 4; k++)
                        con[i].orientation[k] = q[k] / std::sqrt(n2);
                }
            }
            if (c.chance(1, 3)) { // insertion: the search structure has to grow
                std::vector<Sylinder> add;
                const int nAdd = c.integer(0, 12);
                const uint64_t s2 = c.seed64();
                for (int i = 0; i < nAdd; i++) {
                    std::mt19937_64 g(s2 + i);
                    std::uniform_real_distribution<double> U(0, 1);
                    const int r = g() % mpiSize();
                    const Rod &like = s.rods[g() % s.rods.size()];
                    double p[3], o[4] = {0, 0, 0, 1};
                    for (int k = 0; k < 3; k++)
                        p[k] = s.cfg.simBoxLow[k] + U(g) * s.edge(k);
                    if (r == mpiRank())
                        add.emplace_back(0, like.radius, like.radius, like.length, like.length, p, o);
                }
                const int before = con.getNumberOfParticleLocal();
                const int maxGid = sim->getMaxGid().second;
                sim->addNewSylinder(add);
                int first = 0, mine = add.size(); // the ids are handed out at random: make the case repeatable
                MPI_Exscan(&mine, &first, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
                if (mpiRank() == 0)
                    first = 0;
                for (int i = before; i < con.getNumberOfParticleLocal(); i++)
                    con[i].gid = maxGid + 1 + first + i - before;
                c.label("insertion");
            }
        }
        sim->prepareStep();
        State st = state(*sim.sys);
        sim->collectPairCollision();
        Blocks bl = blocks(*sim.sys);
        const int near = checkPairs(c, s, st, bl, msg("round ", round));
        c.nontrivial(near > 0);
    }
}


PBT_FACET(pairsbulk,
          "systems of 100 to 900 rods and spheres, sizes over two decades, uniform, clustered or on a line, in boxes with every combination of "
          "periodic directions; two rounds of moving, exchanging and collecting, compared with an all-pairs search; non-trivial with at least ten "
          "pairs in range") {
    Scene s;
    sysgen::defaults(s.cfg);
    auto &cfg = s.cfg;
    const int n = c.sized(100, 900), pbc = c.below(8), how = c.below(4), sizes = c.below(3);
    cfg.sylinderColBuf = c.pick({0.0, 0.2, 1.0});
    cfg.sylinderLengthColRatio = c.pick({1.0, 1.2});
    const double dense = c.pick({0.5, 1.0, 2.0}), aspect = c.pick({1.0, 1.0, 0.1, 10.0});
    std::mt19937_64 g(c.seed64());
    std::uniform_real_distribution<double> U(0, 1);
    std::normal_distribution<double> N(0, 1);
    double reach = 0, volume = 0;
    for (int i = 0; i < n; i++) {
        Rod r;
        r.gid = i;
        r.group = 0;
        r.radius = sizes == 0 ? 0.25 : sizes == 1 ? 0.05 * std::pow(10.0, U(g)) : i == 0 ? 2.0 : 0.1;
        r.length = sizes == 0 ? 1.0 : U(g) < 0.4 ? 0.0 : r.radius * (6 * U(g));
        r.dir = {0, 0, 1};
        if (r.length > 0)
            r.dir = gen::normalized({N(g), N(g), N(g) + 1e-9});
        reach = std::max(reach, s.searchRadius(r));
        volume += std::pow(r.length + 2 * r.radius, 3);
        s.rods.push_back(r);
    }
    A3 centre;
    for (int k = 0; k < 3; k++) {
        cfg.simBoxPBC[k] = pbc >> k & 1;
        double e = std::cbrt(volume / dense) * (k == 0 ? aspect : 1);
        if (cfg.simBoxPBC[k])
            e = std::max(e, 2.05 * reach);
        cfg.simBoxLow[k] = c.pick({0.0, -e / 2, 100.0});
        cfg.simBoxHigh[k] = cfg.simBoxLow[k] + e;
        centre[k] = cfg.simBoxLow[k] + e * (c.chance(1, 2) ? 0.001 : U(g));
    }
    const double clump = std::cbrt(volume) * 0.3;
    for (auto &r : s.rods)
        for (int k = 0; k < 3; k++) {
            const double e = s.edge(k);
            r.pos[k] = cfg.simBoxLow[k] + e * U(g);
            if (how == 1 || (how == 2 && r.gid % 2))
                r.pos[k] = centre[k] + clump * N(g);
            if (how == 3 && k > 0)
                r.pos[k] = centre[k] + 0.05 * N(g);
        }
    c << n << " rods, " << (const char *[]){"one size", "sizes", "one large"}[sizes] << ", " << (const char *[]){"uniform", "cluster", "half a cluster", "line"}[how] << ", "
      << s.show(2);
    Sim sim(s);
    for (int round = 0; round < 2; round++) {
        if (round) {
            auto &con = sim->getContainerNonConst();
            const double amp = c.pick({0.1, 3.0});
            const uint64_t seed = c.seed64();
            for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
                std::mt19937_64 h(seed + 977 * con[i].gid);
                std::normal_distribution<double> M(0, amp);
                for (int k = 0; k < 3; k++)
                    con[i].pos[k] += M(h);
            }
        }
        sim->prepareStep();
        State st = state(*sim.sys);
        c.expect(int(st.byGid.size()) == n && int(st.sy.size()) == n, msg("round ", round, ": ", st.sy.size(), " particles instead of ", n));
        sim->collectPairCollision();
        Blocks bl = blocks(*sim.sys);
        const int near = checkPairs(c, s, st, bl, msg("round ", round));
        c.nontrivial(near >= 10);
        c.label("more than 1000 pairs", near > 1000);
        if (stop(c))
            return;
    }
}

PBT_FACET(boundary,
          "random systems with one to three walls, tubes and shells placed through or beside particles, both sides allowed; the "
          "collected boundary constraints are compared with the signed clearance of every rod end and sphere centre; non-trivial "
          "with at least one constraint") {
    SceneOpt opt;
    opt.maxRods = 10;
    opt.farAway = false;
    opt.outsideOpenBox = true;
    Scene s = scene(c, opt);
    const int nw = c.integer(1, 3);
    for (int i = 0; i < nw; i++)
        s.walls.push_back(wallNear(c, s));
    c << s.show();
    Sim sim(s);
    sim->prepareStep();
    State st = state(*sim.sys);
    sim->collectBoundaryCollision();
    Blocks bl = blocks(*sim.sys);
    // per particle
    std::map<int, std::vector<int>> of;
    for (size_t i = 0; i < bl.b.size(); i++) {
        of[bl.b[i].gidI].push_back(i);
        c.expect(st.at(bl.b[i].gidI) >= 0 && bl.owner[i] == st.owner[st.at(bl.b[i].gidI)], msg("constraint for particle ", bl.b[i].gidI, " collected on rank ", bl.owner[i]));
    }
    c.nontrivial(bl.b.size() > 0);
    c.label("several constraints", bl.b.size() > 1);
    for (size_t i = 0; i < st.sy.size() && !c.failed; i++) {
        const RefRod r = refRod(st.sy[i]);
        const std::vector<int> &mine = of[r.gid];
        const double scale = gen::nrm(r.pos) + r.size();
        const double rad = r.coreRadius();
        // the constraints this particle has to have (and may have, when the clearance is at the limit)
        struct Slot {
            ref::V3 q;
            const RefBoundary *b;
            double clear, tol;
            bool must;
            std::string who;
        };
        std::vector<Slot> slots;
        for (auto &b : s.walls)
            for (int e = -1; e <= 1; e += 2) {
                if (r.isSphere() && e == 1)
                    continue;
                Slot z;
                z.b = &b;
                z.q = r.isSphere() ? ref::V3(r.pos.data()) : r.end(e, r.pos);
                z.tol = 1e-11 * (scale + gen::nrm(b.center) + b.radius);
                z.clear = double(b.clearance(z.q));
                const double lim = rad * (1 + 2 * s.cfg.sylinderColBuf);
                z.must = z.clear < lim - z.tol;
                z.who = msg(b.name(), " and the ", r.isSphere() ? "centre" : e < 0 ? "minus end" : "plus end", ", clearance ", z.clear, ", radius ", rad, ", limit ", lim);
                if (z.must) {
                    c.label(z.clear < 0 ? "beyond the boundary" : "within the buffer");
                    c.label(r.isSphere() ? "sphere" : "rod");
                }
                if (z.clear <= lim + z.tol)
                    slots.push_back(z);
            }
        auto fit = [&](const ConstraintBlock &x, const Slot &z) -> std::string {
            if (!(double((ref::V3(x.labI) - z.q).norm()) <= z.tol))
                return "point";
            if (!(std::fabs(double(z.b->clearance(ref::V3(x.labJ)))) <= z.tol) ||
                !(std::fabs(double((ref::V3(x.labJ) - z.q).norm()) - std::fabs(z.clear)) <= z.tol))
                return msg("projection ", gen::show(a3(x.labJ)));
            if (!(std::fabs(x.delta0 - (z.clear - rad)) <= z.tol))
                return msg("gap ", x.delta0, " instead of ", z.clear - rad);
            if (!x.oneSide || x.bilateral)
                return "flags";
            if (x.globalIndexI != st.sy[i].globalIndex)
                return "global index";
            if (!(double((ref::V3(x.posI) - (z.q - ref::V3(r.pos.data()))).norm()) <= z.tol))
                return "lever arm";
            if (!(x.gamma >= 0))
                return "initial force";
            if (!finite(x.normI, 3) || !(std::fabs(ref::V3(x.normI).norm() - 1) <= 1e-9))
                return msg("normal ", gen::show(a3(x.normI)));
            const ref::V3 n = z.b->normalAt(ref::V3(x.labJ));
            const double d = double((ref::V3(x.normI) - n).norm());
            // on the boundary the normal follows from the neighbourhood only
            if (!(d <= (std::fabs(z.clear) > 1e3 * z.tol ? 10 * z.tol / std::fabs(z.clear) + 1e-9 : z.clear == 0 && z.b->type == 0 ? 1e-6 : 3)))
                return msg("normal ", gen::show(a3(x.normI)), " instead of ", gen::show({double(n.x), double(n.y), double(n.z)}));
            return "";
        };
        // one to one: every slot that must be filled has a constraint, and every constraint has a slot (boundaries may coincide)
        const int nc = mine.size(), ns = slots.size();
        std::vector<std::vector<int>> fits(nc, std::vector<int>(ns));
        for (int k = 0; k < nc; k++)
            for (int z = 0; z < ns; z++)
                fits[k][z] = fit(bl.b[mine[k]], slots[z]).empty();
        auto match = [&](int nu, int nv, auto edge) { // unmatched u, or -1
            std::vector<int> of(nv, -1), seen;
            std::function<bool(int)> aug = [&](int u) {
                for (int v = 0; v < nv; v++)
                    if (edge(u, v) && !seen[v]) {
                        seen[v] = 1;
                        if (of[v] < 0 || aug(of[v])) {
                            of[v] = u;
                            return true;
                        }
                    }
                return false;
            };
            for (int u = 0; u < nu; u++) {
                seen.assign(nv, 0);
                if (!aug(u))
                    return u;
            }
            return -1;
        };
        auto why = [&](const Slot &z) {
            std::string t;
            for (int k : mine)
                t += msg(" [gap ", bl.b[k].delta0, ": ", fit(bl.b[k], z), "]");
            return t;
        };
        std::vector<int> must;
        for (int z = 0; z < ns; z++)
            if (slots[z].must)
                must.push_back(z);
        const int us = match(must.size(), nc, [&](int u, int v) { return fits[v][must[u]]; });
        c.expect(us < 0, us < 0 ? "" : msg("particle ", r.gid, ": no fitting constraint for ", slots[must[us]].who, "; it has", why(slots[must[us]])));
        const int uc = match(nc, ns, [&](int u, int v) { return fits[u][v]; });
        c.expect(uc < 0, uc < 0 ? "" : msg("particle ", r.gid, ": a constraint with gap ", bl.b[mine[uc]].delta0, " belongs to no end and boundary"));
        if (c.failed)
            c << "failing " << s.byGid(r.gid).show();
    }
    c.expect(sim.sys->getConstraintPoolNonConst().size() == (size_t)omp_get_max_threads(), "queues");
}

PBT_FACET(links,
          "random systems with chains, stars, random and repeated links (also cycles), periodic in every combination; the "
          "collected bilateral constraints are compared one to one with the link list; non-trivial with at least one link") {
    SceneOpt opt;
    opt.pLinks = 0.9;
    opt.maxRods = 14;
    opt.mayMonolayer = true;
    opt.fill = 0.8;
    Scene s = scene(c, opt);
    if (s.links.size() && c.chance(3, 10)) { // two ends half a period apart: both images are nearest
        auto &l = s.links[c.below(s.links.size())];
        Rod &b = const_cast<Rod &>(s.byGid(l.second));
        const Rod &a = s.byGid(l.first);
        for (int k = 0; k < 3; k++)
            if (s.cfg.simBoxPBC[k] && c.chance(3, 5)) {
                double x = a.pos[k] + (c.chance(1, 2) ? 0.5 : -0.5) * s.edge(k);
                for (int u = c.integer(-2, 2); u; u += u < 0 ? 1 : -1)
                    x = std::nextafter(x, u < 0 ? -1e300 : 1e300);
                if (x >= s.cfg.simBoxLow[k] && x < s.cfg.simBoxHigh[k]) {
                    b.pos[k] = x;
                    c.label("half a period apart");
                }
            }
    }
    if (s.links.size() && c.chance(1, 4)) { // two ends that all but touch
        auto &l = s.links[c.below(s.links.size())];
        Rod &b = const_cast<Rod &>(s.byGid(l.second));
        const Rod &a = s.byGid(l.first);
        if (a.gid != b.gid) {
            const A3 u = gen::dir(c);
            const double apart = c.logReal(1e-9, 1e-1);
            A3 x;
            bool inside = true;
            for (int k = 0; k < 3; k++) {
                x[k] = a.pos[k] + 0.5 * a.length * a.dir[k] + apart * u[k] + 0.5 * b.length * b.dir[k];
                inside &= x[k] >= s.cfg.simBoxLow[k] && x[k] < s.cfg.simBoxHigh[k];
            }
            if (inside && !s.cfg.monolayer) {
                b.pos = x;
                c.label("ends all but touch");
            }
        }
    }
    c << s.show();
    Sim sim(s);
    const int rounds = c.integer(1, 2);
    for (int round = 0; round < rounds; round++) {
        if (round) { // new links given on arbitrary ranks
            const int nl = c.integer(0, 4);
            std::vector<Link> mine;
            for (int i = 0; i < nl && s.rods.size() > 1; i++) {
                const int a = c.below(s.rods.size()), r = c.below(mpiSize());
                const int b = (a + 1 + c.below(s.rods.size() - 1)) % s.rods.size();
                std::pair<int, int> l{s.rods[a].gid, s.rods[b].gid};
                if (std::find(s.links.begin(), s.links.end(), l) != s.links.end())
                    continue;
                s.links.push_back(l);
                Link k;
                k.prev = l.first;
                k.next = l.second;
                if (r == mpiRank())
                    mine.push_back(k);
            }
            sim->addNewLink(mine);
        }
        sim->prepareStep();
        State st = state(*sim.sys);
        sim->collectLinkBilateral();
        Blocks bl = blocks(*sim.sys);
        c.nontrivial(s.links.size() > 0);
        std::map<std::pair<int, int>, std::vector<int>> got;
        for (size_t i = 0; i < bl.b.size(); i++)
            got[{bl.b[i].gidI, bl.b[i].gidJ}].push_back(i);
        std::map<std::pair<int, int>, int> want;
        for (auto &l : s.links)
            want[l]++;
        c.expect(bl.b.size() == s.links.size(), msg(bl.b.size(), " bilateral constraints for ", s.links.size(), " links"));
        for (auto &w : want) {
            const int gi = w.first.first, gj = w.first.second;
            const int i = st.at(gi), j = st.at(gj);
            if (!c.expect(i >= 0 && j >= 0, "a linked particle is gone"))
                break;
            const std::string who = msg("link ", gi, ">", gj, " (ranks ", st.owner[i], ",", st.owner[j], ")");
            c.label("link across ranks", st.owner[i] != st.owner[j]);
            auto &v = got[w.first];
            if (!c.expect((int)v.size() == w.second, msg(who, ": ", v.size(), " constraints for ", w.second, " links")))
                continue;
            const RefRod I = refRod(st.sy[i], false), J = refRod(st.sy[j], false);
            A3 pJ = image(s.cfg, I.pos, J.pos);
            for (int k = 0; k < 3; k++)
                if (s.cfg.simBoxPBC[k]) {
                    c.label("nearest image", pJ[k] != J.pos[k]);
                    if (std::fabs(std::fabs(pJ[k] - I.pos[k]) - 0.5 * s.edge(k)) < 1e-9 * (1 + std::fabs(I.pos[k]))) {
                        // either image will do: take the one that was taken
                        const double other = pJ[k] + (pJ[k] > I.pos[k] ? -1 : 1) * s.edge(k), x = bl.b[v[0]].labJ[k] + 0.5 * J.length * J.dir[k];
                        if (std::fabs(other - x) < std::fabs(pJ[k] - x))
                            pJ[k] = other;
                    }
                }
            // the rods' own sizes, never treated as spheres
            const ref::V3 P = ref::V3(I.pos.data()) + ref::V3(I.dir.data()) * (0.5L * I.length);
            const ref::V3 Q = ref::V3(pJ.data()) - ref::V3(J.dir.data()) * (0.5L * J.length);
            const double d = double((P - Q).norm());
            const double tol = 1e-11 * (gen::nrm(I.pos) + gen::nrm(pJ) + I.size() + J.size() + s.edge(0) + s.edge(1) + s.edge(2));
            const double delta0 = d - I.radius - J.radius - s.cfg.linkGap;
            for (int bi : v) {
                const auto &b = bl.b[bi];
                c.expect(bl.owner[bi] == st.owner[i], msg(who, ": collected on rank ", bl.owner[bi]));
                c.expect(b.bilateral && !b.oneSide, msg(who, ": flags"));
                c.expect(b.kappa == s.cfg.linkKappa, msg(who, ": stiffness ", b.kappa, " instead of ", s.cfg.linkKappa));
                c.expect(std::fabs(b.delta0 - delta0) <= tol, msg(who, ": gap ", b.delta0, " instead of ", delta0));
                c.expect(b.globalIndexI == st.sy[i].globalIndex && b.globalIndexJ == st.sy[j].globalIndex, msg(who, ": global indices"));
                c.expect(double((ref::V3(b.labI) - P).norm()) <= tol, msg(who, ": first end is not the plus end of ", gi));
                c.expect(double((ref::V3(b.labJ) - Q).norm()) <= tol, msg(who, ": second end is not the nearest minus end of ", gj));
                c.expect(double((ref::V3(b.posI) - (P - ref::V3(I.pos.data()))).norm()) <= tol && double((ref::V3(b.posJ) - (Q - ref::V3(pJ.data()))).norm()) <= tol,
                         msg(who, ": lever arms"));
                if (d > 1e3 * tol) {
                    const ref::V3 n = (P - Q).unit();
                    const double nt = 10 * tol / d + 1e-12;
                    c.expect(double((ref::V3(b.normI) - n).norm()) <= nt && double((ref::V3(b.normJ) + n).norm()) <= nt, msg(who, ": normals"));
                    ref::R S[3][3] = {};
                    refBodyVirial(I, true, I.length, I.radius, I.pos, ref::V3(b.posI), n, S);
                    refBodyVirial(J, true, J.length, J.radius, pJ, ref::V3(b.posJ), n * -1, S);
                    const double ss = gen::nrm(I.pos) + gen::nrm(pJ) + I.size() + J.size();
                    for (int a = 0; a < 9; a++)
                        c.expect(std::fabs(double(S[a / 3][a % 3]) - b.stress[a]) <= ss * (nt + 1e-10), msg(who, ": unit-force stress ", a));
                }
            }
        }
        for (auto &g : got)
            c.expect(want.count(g.first), msg("bilateral constraint between ", g.first.first, " and ", g.first.second, " without a link"));
    }
}

PBT_FACET(mobility,
          "random systems with mixed shapes, viscosities, immovable particles and monolayers; the operator is applied to random "
          "vectors and compared with the drag of every particle in long double; non-trivial with a movable rod") {
    SceneOpt opt;
    opt.maxRods = 16;
    opt.mayMonolayer = true;
    opt.touch = 0;
    Scene s = scene(c, opt);
    s.cfg.viscosity = c.logReal(1e-3, 1e3);
    c << s.show() << " viscosity " << s.cfg.viscosity;
    Sim sim(s);
    sim->prepareStep();
    State st = state(*sim.sys);
    auto mob = sim->getMobOperator();
    auto map = mob->getDomainMap();
    const int me = mpiRank(), nl = st.counts[me];
    c.expect((int)map->getNodeNumElements() == 6 * nl, "size of the mobility map");
    c.expect(mob->getDomainMap()->isSameAs(*mob->getRangeMap()), "domain and range differ");
    int first = 0;
    for (int r = 0; r < me; r++)
        first += st.counts[r];
    auto F = Teuchos::rcp(new TV(map, true)), V = Teuchos::rcp(new TV(map, true));
    std::vector<double> f(6 * nl + 1);
    const uint64_t seed = c.seed64();
    {
        auto p = F->getLocalView<Kokkos::HostSpace>();
        F->modify<Kokkos::HostSpace>();
        for (int i = 0; i < nl; i++) {
            std::mt19937_64 g(seed + 977 * st.sy[first + i].gid);
            std::normal_distribution<double> N(0, 1);
            for (int k = 0; k < 6; k++)
                p(6 * i + k, 0) = f[6 * i + k] = N(g);
        }
    }
    mob->apply(*F, *V);
    auto v = V->getLocalView<Kokkos::HostSpace>();
    for (int i = 0; i < nl && !c.failed; i++) {
        const auto &sy = st.sy[first + i];
        const Rod &r = s.byGid(sy.gid);
        const std::string who = msg("particle ", sy.gid, " r ", r.radius, " L ", r.length, r.immovable ? " immovable" : "");
        // documented drag: sphere of the enclosing radius, or slender body theory
        const LD pi = acosl(-1.0L), mu = s.cfg.viscosity, L = sy.length, rad = sy.radius;
        c.expect(close(sy.length, r.length, 1e-12, 1e-12 * (1 + gen::nrm(r.pos))) && close(sy.radius, r.radius, 1e-14, 0), msg(who, ": shape was not kept"));
        LD para, perp, rot;
        const bool sphere = L < 2 * rad;
        if (sphere) {
            const LD R = L / 2 + rad;
            para = perp = 6 * pi * mu * R;
            rot = 8 * pi * mu * R * R * R;
        } else {
            const LD b = -(1 + 2 * logl(rad / L));
            para = 8 * pi * L * mu / (2 * b);
            perp = 8 * pi * L * mu / (b + 2);
            rot = 2 * pi * mu * L * L * L / (3 * (b + 2));
        }
        if (!sphere && -(1 + 2 * logl(rad / L)) < 0.05L) {
            continue; // slender body theory has no positive drag for such a stocky rod
        }
        c.label(sphere ? "sphere" : "rod");
        c.label("immovable", sy.isImmovable);
        c.nontrivial(!sphere && !sy.isImmovable);
        c.expect(sy.isImmovable == r.immovable, msg(who, ": immovable flag"));
        const ref::V3 q = axisOf(sy);
        const ref::V3 ff(&f[6 * i]), tt(&f[6 * i + 3]);
        ref::V3 vv = q * (ff.dot(q) / para) + (ff - q * ff.dot(q)) * (1 / perp);
        if (sy.isImmovable)
            vv = ref::V3();
        // across the axis the rotation is fixed by the drag; about the axis of a rod it is free (regularised), never negative
        for (int k = 0; k < 3; k++)
            c.expect(std::fabs(double(vv[k]) - v(6 * i + k, 0)) <= 1e-12 * double(ff.norm() * (1 / para + 1 / perp)),
                     msg(who, ": velocity ", k, " is ", v(6 * i + k, 0), ", the drag gives ", double(vv[k])));
        ref::V3 w(v(6 * i + 3, 0), v(6 * i + 4, 0), v(6 * i + 5, 0));
        ref::V3 want = tt * (1 / rot);
        if (sy.isImmovable)
            want = ref::V3();
        const double wt = 1e-12 * double(tt.norm() / rot);
        if (sphere) {
            c.expect(double((w - want).norm()) <= wt, msg(who, ": angular velocity of a sphere"));
        } else {
            c.expect(double(((w - q * w.dot(q)) - (want - q * want.dot(q))).norm()) <= wt, msg(who, ": angular velocity across the axis is wrong"));
            c.expect(double(w.dot(q) * tt.dot(q)) >= -1e-12 * double(tt.norm() * tt.norm() / rot), msg(who, ": rotation about the axis against the torque"));
        }
    }
}

int main(int argc, char **argv) { return sysgen::mainBody(argc, argv); }
