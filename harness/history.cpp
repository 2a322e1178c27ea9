/** histories of a system: conservation (C14), insertion (C19), Brownian statistics (C30), diagnostics (C21) */
#include "gen_system.hpp"

#include <limits>

using namespace pbt;
using namespace sysgen;

namespace {
/// the ranks agree on whether to stop (no rank may leave the others in a collective call)
bool stop(Case &c) {
    int mine = c.failed, any = 0;
    MPI_Allreduce(&mine, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return any;
}
struct Field {
    const char *name;
    size_t offset, size;
};
#define F_(m) Field{#m, offsetof(Sylinder, m), sizeof(Sylinder::m)}
/// everything a particle carries except where it is stored
const std::vector<Field> &fields() {
    static const std::vector<Field> f = {
        F_(gid), F_(group), F_(isImmovable), F_(radius), F_(radiusCollision), F_(length), F_(lengthCollision), F_(colBuf), F_(pos), F_(orientation), //
        F_(vel), F_(omega), F_(velCol), F_(omegaCol), F_(velBi), F_(omegaBi), F_(velNonB), F_(omegaNonB),                                          //
        F_(force), F_(torque), F_(forceCol), F_(torqueCol), F_(forceBi), F_(torqueBi), F_(forceNonB), F_(torqueNonB), F_(velBrown), F_(omegaBrown)};
    return f;
}
/// first field that differs bit by bit ("" when none does)
std::string differs(const Sylinder &a, const Sylinder &b, std::initializer_list<const char *> except = {}) {
    for (auto &f : fields()) {
        bool skip = false;
        for (auto e : except)
            skip |= !strcmp(e, f.name);
        if (!skip && memcmp((const char *)&a + f.offset, (const char *)&b + f.offset, f.size))
            return f.name;
    }
    return "";
}
using Links = std::multiset<std::pair<int, int>>;
Links forward(SylinderSystem &sys) {
    Links l;
    for (auto &p : sys.getLinkMap())
        l.insert({p.first, p.second});
    return l;
}
Links backward(SylinderSystem &sys) {
    Links l;
    for (auto &p : sys.getLinkReverseMap())
        l.insert({p.second, p.first});
    return l;
}
std::string showLinks(const Links &l) {
    std::string s;
    for (auto &p : l)
        s += msg(" ", p.first, ">", p.second);
    return s;
}
/// the particles the system must contain
struct Model {
    std::map<int, Sylinder> sy;
    Links links;
    std::set<int> everUsed;
};
/// the same particles as in the model, every field but the listed ones as it was
bool sameParticles(Case &c, const Model &m, const State &st, const std::string &when, std::initializer_list<const char *> except = {}) {
    if (!c.expect(st.sy.size() == m.sy.size(), msg(when, ": ", st.sy.size(), " particles instead of ", m.sy.size())))
        return false;
    if (!c.expect(st.byGid.size() == m.sy.size(), msg(when, ": an identity appears twice")))
        return false;
    for (auto &p : m.sy) {
        const int i = st.at(p.first);
        if (!c.expect(i >= 0, msg(when, ": particle ", p.first, " is lost")))
            return false;
        const std::string d = differs(p.second, st.sy[i], except);
        if (!c.expect(d.empty(), msg(when, ": ", d, " of particle ", p.first, " changed")))
            return false;
    }
    return true;
}
bool sameLinks(Case &c, const Model &m, SylinderSystem &sys, const std::string &when) {
    const Links f = forward(sys), b = backward(sys);
    return c.expect(f == m.links, msg(when, ": links are", showLinks(f), " instead of", showLinks(m.links))) &&
           c.expect(b == m.links, msg(when, ": links in the reverse map are", showLinks(b), " instead of", showLinks(m.links)));
}
/// a is the position before wrapping, b after
void wrapped(Case &c, const SylinderConfig &cfg, const A3 &a, const A3 &b, const std::string &who) {
    for (int k = 0; k < 3; k++) {
        const double lo = cfg.simBoxLow[k], hi = cfg.simBoxHigh[k], L = hi - lo;
        if (!cfg.simBoxPBC[k]) {
            c.expect(a[k] == b[k], msg(who, ": coordinate ", k, " changed from ", a[k], " to ", b[k], " in an open direction"));
            continue;
        }
        const double scale = std::fabs(lo) + std::fabs(hi) + std::fabs(a[k]);
        c.expect(b[k] >= lo && b[k] < hi, msg(who, ": coordinate ", k, " = ", b[k], " outside [", lo, ",", hi, ")"));
        const double n = std::round((b[k] - a[k]) / L);
        c.expect(std::fabs(double((LD)a[k] + (LD)n * L - b[k])) <= 4e-15 * (1 + std::fabs(n)) * scale, msg(who, ": coordinate ", k, " moved from ", a[k], " to ", b[k], ", period ", L));
        const double margin = 1e-13 * scale;
        if (a[k] > lo + margin && a[k] < hi - margin)
            c.expect(a[k] == b[k], msg(who, ": coordinate ", k, " changed from ", a[k], " to ", b[k], " inside the box"));
    }
}
/// new particles for every rank (the same list on all ranks; rank r inserts list[r])
std::vector<std::vector<Sylinder>> newParticles(Case &c, const Scene &s, int max) {
    std::vector<std::vector<Sylinder>> list(mpiSize());
    const int who = c.below(3); // everyone, one rank, some ranks
    const int one = c.below(mpiSize());
    for (int r = 0; r < mpiSize(); r++) {
        const bool none = who == 1 ? r != one : who == 2 && c.chance(1, 2);
        const int n = none ? 0 : c.integer(0, max);
        for (int i = 0; i < n; i++) {
            const Rod &like = s.rods[c.below(s.rods.size())];
            double p[3], o[4];
            std::mt19937_64 g(c.seed64());
            std::normal_distribution<double> N(0, 1);
            double n2 = 0;
            for (int k = 0; k < 3; k++)
                p[k] = s.cfg.simBoxLow[k] + c.generic(-0.2, 1.2) * s.edge(k);
            for (double &x : o) {
                x = N(g);
                n2 += x * x;
            }
            for (double &x : o)
                x /= std::sqrt(n2);
            const double size = c.generic(0.5, 1); // no larger than what the box was made for
            Sylinder y(c.integer(-1, 50), like.radius * size, like.radius * size * 1.1, like.length * size, like.length * size * 0.9, p, o);
            y.clear();
            y.group = c.integer(-1, 9);
            y.isImmovable = c.chance(1, 4);
            y.colBuf = s.cfg.sylinderColBuf;
            y.radiusSearch = 0;
            list[r].push_back(y);
        }
    }
    return list;
}
/// inserts and checks the returned identities; the model is extended
bool insert(Case &c, SylinderSystem &sys, Model &m, const std::vector<std::vector<Sylinder>> &list, const std::string &when) {
    const State before = state(sys);
    int maxBefore = 0;
    for (auto &y : before.sy)
        maxBefore = std::max(maxBefore, y.gid);
    const auto mg = sys.getMaxGid();
    int maxLocal = 0;
    for (size_t i = 0; i < before.sy.size(); i++)
        if (before.owner[i] == mpiRank())
            maxLocal = std::max(maxLocal, before.sy[i].gid);
    c.expect(mg.first == maxLocal && mg.second == maxBefore, msg(when, ": largest identities ", mg.first, " (own) and ", mg.second, " instead of ", maxLocal, " and ", maxBefore));
    const auto &mine = list[mpiRank()];
    const std::vector<int> ids = sys.addNewSylinder(mine);
    c.expect(ids.size() == mine.size(), msg(when, ": ", ids.size(), " identities for ", mine.size(), " new particles"));
    std::vector<int> counts;
    const std::vector<int> all = allGather(ids, &counts);
    std::set<int> fresh;
    for (int g : all) {
        c.expect(fresh.insert(g).second, msg(when, ": identity ", g, " was handed out twice"));
        c.expect(!m.everUsed.count(g), msg(when, ": identity ", g, " is already in use"));
        c.expect(g > maxBefore, msg(when, ": new identity ", g, ", the largest one before is ", maxBefore));
    }
    if (stop(c))
        return false;
    size_t at = 0;
    for (int r = 0; r < mpiSize(); r++)
        for (size_t i = 0; i < list[r].size(); i++) {
            Sylinder y = list[r][i];
            y.gid = all[at++];
            m.sy[y.gid] = y;
            m.everUsed.insert(y.gid);
        }
    const State after = state(sys);
    if (!sameParticles(c, m, after, when))
        return false;
    // on the rank that inserted them, behind the ones it had, in the given order
    size_t first = 0;
    at = 0;
    for (int r = 0; r < mpiSize(); r++) {
        const int had = before.counts[r];
        if (!c.expect(after.counts[r] == had + (int)list[r].size(), msg(when, ": rank ", r, " has ", after.counts[r], " particles instead of ", had + list[r].size())))
            return false;
        for (size_t i = 0; i < list[r].size(); i++)
            c.expect(after.sy[first + had + i].gid == all[at + i], msg(when, ": new particle ", i, " of rank ", r, " has identity ", after.sy[first + had + i].gid, ", returned ", all[at + i]));
        at += list[r].size();
        first += after.counts[r];
    }
    c.label("insertion", all.size() > 0);
    return !c.failed;
}
bool insertLinks(Case &c, SylinderSystem &sys, Model &m, const std::string &when) {
    std::vector<int> ids;
    for (auto &p : m.sy)
        ids.push_back(p.first);
    std::vector<std::vector<Link>> list(mpiSize());
    const int style = c.below(3); // 0 different per rank, 1 the same on all ranks, 2 one rank only
    const int one = c.below(mpiSize());
    auto some = [&] {
        std::vector<Link> l;
        const int n = c.integer(0, 4);
        for (int i = 0; i < n; i++) {
            Link k;
            k.prev = ids[c.below(ids.size())];
            k.next = ids[c.below(ids.size())];
            if (k.prev == k.next)
                continue;
            l.push_back(k);
            if (c.chance(1, 5))
                l.push_back(k); // given twice
            if (c.chance(1, 8)) {
                std::swap(k.prev, k.next); // the opposite direction is another link
                l.push_back(k);
            }
            if (m.links.size() && c.chance(1, 6)) { // already there
                auto it = m.links.begin();
                std::advance(it, c.below(m.links.size()));
                k.prev = it->first;
                k.next = it->second;
                l.push_back(k);
            }
        }
        return l;
    };
    const auto common = some();
    for (int r = 0; r < mpiSize(); r++)
        list[r] = style == 1 ? common : style == 2 ? (r == one ? common : std::vector<Link>()) : some();
    bool any = false, twice = false;
    for (auto &l : list)
        for (auto &k : l) {
            any = true;
            if (m.links.count({k.prev, k.next}))
                twice = true;
            else
                m.links.insert({k.prev, k.next});
        }
    sys.addNewLink(list[mpiRank()]);
    c.label("new links", any);
    c.label("link given twice", twice);
    sameLinks(c, m, sys, when);
    return !stop(c);
}
Model modelOf(const State &st, SylinderSystem &sys) {
    Model m;
    for (auto &y : st.sy) {
        m.sy[y.gid] = y;
        m.everUsed.insert(y.gid);
    }
    m.links = forward(sys);
    return m;
}
/// the model when nothing but storage may have changed
void adopt(Model &m, const State &st) {
    for (auto &y : st.sy)
        m.sy[y.gid] = y;
}
} // namespace

PBT_FACET(conserve,
          "random systems driven through random sequences of steps, periodic wrapping, domain decomposition with exchange, "
          "teleports many periods away, rods and links inserted on any ranks; after every action the particles over all ranks are "
          "compared field by field with a model keyed by identity; non-trivial when a particle changes its rank or is wrapped") {
    SceneOpt opt;
    opt.maxRods = 20;
    opt.mayMonolayer = true;
    opt.pLinks = 0.4;
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    cfg.dt = c.pick({0.01, 0.1});
    cfg.timeSnap = cfg.dt * c.pick({1000000.0, 2.0});
    cfg.conMaxIte = c.pick({20, 100});
    cfg.conResTol = 1e-5;
    if (c.chance(1, 3))
        cfg.KBT = c.logReal(1e-3, 1);
    cfg.rngSeed = c.below(1000);
    {
        // one link twice in the file is kept as given: the model takes it from the file
        std::set<std::pair<int, int>> once(s.links.begin(), s.links.end());
        s.links.assign(once.begin(), once.end());
    }
    c << s.show() << " dt " << cfg.dt << " KBT " << cfg.KBT;
    Sim sim(s);
    auto &sys = *sim.sys;
    State st = state(sys);
    c.expect(st.byGid.size() == s.rods.size() && st.sy.size() == s.rods.size(), msg("the system starts with ", st.sy.size(), " particles instead of ", s.rods.size()));
    for (auto &r : s.rods) {
        const int i = st.at(r.gid);
        if (!c.expect(i >= 0, msg("particle ", r.gid, " of the file is missing")))
            return;
        const Sylinder &y = st.sy[i];
        c.expect(y.group == r.group && y.isImmovable == r.immovable && close(y.radius, r.radius, 1e-15, 0), msg("particle ", r.gid, " differs from the file"));
    }
    Model m = modelOf(st, sys);
    c.expect(m.links == Links(s.links.begin(), s.links.end()), msg("links are", showLinks(m.links)));
    sameLinks(c, m, sys, "start");
    if (stop(c))
        return;
    const bool longRun = c.chance(1, 25) && s.rods.size() <= 8;
    const int actions = c.integer(1, 8);
    bool wasWrapped = false, changedRank = false;
    for (int a = 0; a < actions; a++) {
        const int kind = c.below(6);
        const std::string when = msg("action ", a, " (", (const char *[]){"steps", "wrap", "exchange", "teleport", "new rods", "new links"}[kind], ")");
        c << " | " << (const char *[]){"steps", "wrap", "exchange", "teleport", "new rods", "new links"}[kind];
        if (kind == 0) {
            const int steps = longRun && a == 0 ? 55 : c.integer(1, 3);
            c.label("more than 50 steps", steps > 50);
            for (int k = 0; k < steps; k++) {
                const State before = state(sys);
                sim->prepareStep();
                st = state(sys);
                // identity and shape kept, positions wrapped, everything else cleared or set from the configuration
                if (!sameParticles(c, m, st, when,
                                   {"pos", "orientation", "radiusCollision", "lengthCollision", "colBuf", "vel", "omega", "velCol", "omegaCol", "velBi", "omegaBi", "velNonB", "omegaNonB",
                                    "force", "torque", "forceCol", "torqueCol", "forceBi", "torqueBi", "forceNonB", "torqueNonB", "velBrown", "omegaBrown"}))
                    return;
                for (size_t i = 0; i < st.sy.size() && !c.failed; i++) {
                    const Sylinder &y = st.sy[i], &o = m.sy[y.gid];
                    const std::string who = msg(when, " step ", k, " particle ", y.gid);
                    A3 was = a3(o.pos), is = a3(y.pos);
                    if (cfg.monolayer) { // both in the middle
                        c.expect(std::fabs(is[2] - (cfg.simBoxLow[2] + cfg.simBoxHigh[2]) / 2) <= 1e-13 * (std::fabs(cfg.simBoxLow[2]) + std::fabs(cfg.simBoxHigh[2])), msg(who, ": not in the layer"));
                        was[2] = is[2];
                    } else {
                        c.expect(!memcmp(y.orientation, o.orientation, sizeof y.orientation), msg(who, ": the orientation changed without motion"));
                    }
                    wrapped(c, cfg, was, is, who);
                    for (int q = 0; q < 3; q++)
                        wasWrapped |= std::fabs(was[q] - is[q]) > 1e-6;
                    c.expect(y.globalIndex == (int)i, msg(who, ": global index ", y.globalIndex, " instead of ", i));
                    c.expect(y.rank == st.owner[i], msg(who, ": rank ", y.rank, " recorded on rank ", st.owner[i]));
                    const int b = before.at(y.gid);
                    changedRank |= b >= 0 && before.owner[b] != st.owner[i];
                    c.expect(close(y.radiusCollision, y.radius * cfg.sylinderDiameterColRatio, 1e-15, 0) && close(y.lengthCollision, y.length * cfg.sylinderLengthColRatio, 1e-15, 0) && y.colBuf == cfg.sylinderColBuf,
                             msg(who, ": collision size ", y.radiusCollision, ", ", y.lengthCollision, ", buffer ", y.colBuf));
                }
                c.expect(sys.getContainerNonConst().getNumberOfParticleGlobal() == (int)m.sy.size(), msg(when, ": particle count ", sys.getContainerNonConst().getNumberOfParticleGlobal()));
                if (stop(c))
                    return;
                adopt(m, st);
                sim->runStep();
                st = state(sys);
                if (!sameParticles(c, m, st, when,
                                   {"pos", "orientation", "vel", "omega", "velCol", "omegaCol", "velBi", "omegaBi", "velNonB", "omegaNonB", "force", "torque", "forceCol", "torqueCol", "forceBi",
                                    "torqueBi", "forceNonB", "torqueNonB", "velBrown", "omegaBrown"}))
                    return;
                for (auto &y : st.sy)
                    if (!finite(y.pos, 3) || !finite(y.orientation, 4)) // coinciding axes: no normal (tolerated, see DESIGN.md)
                        c.discard();
                adopt(m, st);
            }
        } else if (kind == 1) {
            sim->applyBoxBC();
            st = state(sys);
            if (!sameParticles(c, m, st, when, {"pos"}))
                return;
            for (auto &y : st.sy) {
                const A3 was = a3(m.sy[y.gid].pos), is = a3(y.pos);
                wrapped(c, cfg, was, is, msg(when, " particle ", y.gid));
                for (int q = 0; q < 3; q++)
                    wasWrapped |= std::fabs(was[q] - is[q]) > 1e-6;
            }
            adopt(m, st);
        } else if (kind == 2) {
            // every value a particle carries travels with it
            auto &con = sys.getContainerNonConst();
            sim->applyBoxBC();
            const uint64_t seed = c.seed64();
            for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
                std::mt19937_64 g(seed + 977 * con[i].gid);
                for (auto &f : fields()) {
                    const std::string n = f.name;
                    if (f.size % sizeof(double) || n == "radius" || n == "length" || n == "pos" || n == "orientation" || n == "radiusCollision" || n == "lengthCollision" || n == "colBuf")
                        continue;
                    double *d = (double *)((char *)&con[i] + f.offset);
                    for (size_t k = 0; k < f.size / sizeof(double); k++)
                        d[k] = std::normal_distribution<double>(0, 1)(g);
                }
            }
            const State before = state(sys);
            adopt(m, before);
            if (c.chance(2, 3))
                sim->decomposeDomain();
            sim->exchangeSylinder();
            st = state(sys);
            if (!sameParticles(c, m, st, when))
                return;
            for (size_t i = 0; i < st.sy.size(); i++) {
                c.expect(st.sy[i].rank == st.owner[i], msg(when, ": rank ", st.sy[i].rank, " recorded on rank ", st.owner[i]));
                changedRank |= before.owner[before.at(st.sy[i].gid)] != st.owner[i];
            }
            adopt(m, st);
        } else if (kind == 3) {
            auto &con = sys.getContainerNonConst();
            const uint64_t seed = c.seed64();
            const double far = c.pick({0.6, 3.0, 50.0});
            for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
                std::mt19937_64 g(seed + 977 * con[i].gid);
                for (int k = 0; k < 3; k++)
                    con[i].pos[k] += std::uniform_real_distribution<double>(-far, far)(g) * s.edge(k) * (cfg.simBoxPBC[k] ? 1 : 0.3);
            }
            adopt(m, state(sys));
        } else if (kind == 4) {
            if (m.sy.size() > 60)
                continue;
            if (!insert(c, sys, m, newParticles(c, s, 3), when) || stop(c))
                return;
        } else {
            if (!insertLinks(c, sys, m, when))
                return;
        }
        sameLinks(c, m, sys, when);
        if (stop(c))
            return;
    }
    c.label("wrapped by a period", wasWrapped);
    c.label("changed rank", changedRank);
    c.label("monolayer", cfg.monolayer);
    c.nontrivial(wasWrapped || changedRank);
}

PBT_FACET(insertion,
          "random systems; several rounds of inserting rods with random counts on random ranks (also none) and links given on one, "
          "some or all ranks, also repeated ones and ones already present, with steps in between; identities, fields and both link "
          "maps on every rank are compared with a model; non-trivial with a new rod and a new link") {
    SceneOpt opt;
    opt.maxRods = 8;
    opt.pLinks = 0.4;
    Scene s = scene(c, opt);
    s.cfg.conMaxIte = 20;
    s.cfg.conResTol = 1e-4;
    std::set<std::pair<int, int>> once(s.links.begin(), s.links.end());
    s.links.assign(once.begin(), once.end());
    c << s.show();
    Sim sim(s);
    auto &sys = *sim.sys;
    Model m = modelOf(state(sys), sys);
    sameLinks(c, m, sys, "start");
    bool rods = false, links = false;
    const int rounds = c.integer(1, 4);
    for (int r = 0; r < rounds; r++) {
        const std::string when = msg("round ", r);
        const size_t n0 = m.sy.size(), l0 = m.links.size();
        if (!insert(c, sys, m, newParticles(c, s, 6), when) || stop(c))
            return;
        if (c.chance(2, 3) && !insertLinks(c, sys, m, when))
            return;
        rods |= m.sy.size() > n0;
        links |= m.links.size() > l0;
        if (c.chance(1, 2)) { // the documented place of insertions: after a step
            sim->prepareStep();
            const State st = state(sys);
            if (!c.expect(st.byGid.size() == m.sy.size() && st.sy.size() == m.sy.size(), msg(when, ": ", st.sy.size(), " particles after preparing a step, ", m.sy.size(), " expected")))
                return;
            for (auto &y : st.sy) {
                const std::string d = m.sy.count(y.gid) ? differs(m.sy[y.gid], y, {"pos", "radiusCollision", "lengthCollision", "colBuf", "vel", "omega", "velCol", "omegaCol", "velBi", "omegaBi", "velNonB", "omegaNonB", "force", "torque", "forceCol", "torqueCol", "forceBi", "torqueBi", "forceNonB", "torqueNonB", "velBrown", "omegaBrown"}) : "identity";
                c.expect(d.empty(), msg(when, ": ", d, " of particle ", y.gid, " changed"));
            }
            if (stop(c))
                return;
            if (c.chance(1, 2)) {
                // the new links act: one bilateral constraint for every linked pair
                sim->collectLinkBilateral();
                Links got;
                for (auto &b : blocks(sys).b)
                    if (b.bilateral)
                        got.insert({b.gidI, b.gidJ});
                c.expect(got.size() == m.links.size(), msg(when, ": ", got.size(), " bilateral constraints for ", m.links.size(), " links"));
            }
            sim->prepareStep();
            adopt(m, state(sys));
        }
    }
    c.nontrivial(rods && links);
}

PBT_FACET(brown,
          "random rods and spheres, viscosities, temperatures and time steps; thousands of draws of the Brownian velocities "
          "per case, scaled by the drag of each body in long double; means, variances, all cross correlations, kurtosis and lag-one "
          "correlation must be those of independent standard normals, no two bodies share their numbers; non-trivial with a movable rod") {
    SceneOpt opt;
    opt.maxRods = 24;
    opt.touch = 0;
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    cfg.viscosity = c.logReal(0.05, 20);
    // any units: only a step in which a body diffuses a small fraction of its size makes sense
    cfg.KBT = c.logReal(1e-5, c.chance(1, 2) ? 10 : 1e6);
    cfg.dt = c.logReal(1e-6, c.chance(1, 2) ? 0.1 : 1e4);
    cfg.rngSeed = c.below(100000);
    // slender body theory needs a positive drag
    for (auto &r : s.rods) {
        if (r.length >= 2 * r.radius && -(1 + 2 * std::log(r.radius / r.length)) < 0.3)
            r.length = 3 * r.radius;
    }
    struct D {
        double para, perp, rot;
    };
    auto drag = [&](const Rod &r) {
        const double L = r.length, R = L / 2 + r.radius, mu = cfg.viscosity;
        if (L < 2 * r.radius)
            return D{6 * M_PI * mu * R, 6 * M_PI * mu * R, 8 * M_PI * mu * R * R * R};
        const double b = -(1 + 2 * std::log(r.radius / L));
        return D{8 * M_PI * L * mu / (2 * b), 8 * M_PI * L * mu / (b + 2), 2 * M_PI * mu * L * L * L / (3 * (b + 2))};
    };
    for (auto &r : s.rods) {
        const D d = drag(r);
        const double dm = 1 / d.para - 1 / d.perp, m = std::min(1 / d.para, 1 / d.perp);
        if (dm != 0)
            cfg.dt = std::min(cfg.dt, 1e-4 * 2 * m * std::pow(r.length + 2 * r.radius, 2) / (cfg.KBT * dm * dm));
    }
    cfg.timeSnap = cfg.dt * 1000;
    c << s.show(4) << " viscosity " << cfg.viscosity << " KBT " << cfg.KBT << " dt " << cfg.dt << " seed " << cfg.rngSeed;
    Sim sim(s);
    auto &sys = *sim.sys;
    sim->prepareStep();
    const State st0 = state(sys);
    const int n = st0.sy.size();
    int movable = 0;
    for (auto &y : st0.sy)
        movable += !y.isImmovable;
    const int K = c.pick({1000, 2000});
    // sums over draws and bodies
    double mean[6] = {}, lag[6] = {}, cov[6][6] = {}, fourth[6] = {};
    std::vector<std::array<double, 6>> sq(n), sum(n), prev(n);
    for (auto &q : sq)
        q.fill(0);
    for (auto &q : sum)
        q.fill(0);
    std::vector<ref::V3> u(n), e1(n), e2(n);
    std::vector<D> scale(n);
    for (int i = 0; i < n; i++) {
        const Rod &r = s.byGid(st0.sy[i].gid);
        u[i] = axisOf(st0.sy[i]);
        const A3 a{double(u[i].x), double(u[i].y), double(u[i].z)}, p = gen::perp(a);
        e1[i] = ref::V3(p[0], p[1], p[2]).unit();
        e2[i] = u[i].cross(e1[i]);
        const D d = drag(r);
        const double k = std::sqrt(2 * cfg.KBT / cfg.dt);
        scale[i] = {k * std::sqrt(1 / d.para), k * std::sqrt(1 / d.perp), k * std::sqrt(1 / d.rot)};
        c.nontrivial(!r.immovable && r.length >= 2 * r.radius);
        c.label("rod", r.length >= 2 * r.radius && !r.immovable);
        c.label("sphere", r.length < 2 * r.radius && !r.immovable);
        c.label("immovable", r.immovable);
    }
    int first = 0;
    for (int r = 0; r < mpiRank(); r++)
        first += st0.counts[r];
    auto &con = sys.getContainerNonConst();
    const int nl = con.getNumberOfParticleLocal();
    bool bad = false;
    std::vector<std::array<double, 6>> draw0(nl);
    for (int t = 0; t < K; t++) {
        sim->calcVelocityBrown();
        for (int l = 0; l < nl; l++) {
            const int i = first + l;
            const Sylinder &y = con[l];
            if (y.isImmovable) {
                for (int k = 0; k < 3; k++)
                    bad |= !c.expect(y.velBrown[k] == 0 && y.omegaBrown[k] == 0, msg("immovable particle ", y.gid, " has a Brownian velocity"));
                continue;
            }
            const ref::V3 v(y.velBrown), w(y.omegaBrown);
            const double z[6] = {double(v.dot(u[i])) / scale[i].para, double(v.dot(e1[i])) / scale[i].perp, double(v.dot(e2[i])) / scale[i].perp,
                                 double(w.dot(u[i])) / scale[i].rot,  double(w.dot(e1[i])) / scale[i].rot,  double(w.dot(e2[i])) / scale[i].rot};
            for (int a = 0; a < 6; a++) {
                mean[a] += z[a];
                for (int b = 0; b < 6; b++)
                    cov[a][b] += z[a] * z[b];
                fourth[a] += z[a] * z[a] * z[a] * z[a];
                if (t)
                    lag[a] += z[a] * prev[i][a];
                prev[i][a] = z[a];
                sum[i][a] += z[a];
                sq[i][a] += z[a] * z[a];
            }
            if (t == 0)
                for (int a = 0; a < 6; a++)
                    draw0[l][a] = a < 3 ? y.velBrown[a] : y.omegaBrown[a - 3] / scale[i].rot;
        }
    }
    // the vector handed to the next stage is what the particles hold: seen by C12 through the sum of the parts
    MPI_Allreduce(MPI_IN_PLACE, mean, 6, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    MPI_Allreduce(MPI_IN_PLACE, lag, 6, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    MPI_Allreduce(MPI_IN_PLACE, cov, 36, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    MPI_Allreduce(MPI_IN_PLACE, fourth, 6, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
    const auto draws = allGather(draw0);
    const double N = double(K) * movable;
    if (movable == 0)
        return;
    const char *name[] = {"along the axis", "across the axis (1)", "across the axis (2)", "rotation about the axis", "rotation across the axis (1)", "rotation across the axis (2)"};
    // rotation about the axis of a rod does not move it: only spheres have a defined value
    auto defined = [&](int a) { return a != 3 || [&] {
        for (int i = 0; i < n; i++)
            if (!st0.sy[i].isImmovable && s.byGid(st0.sy[i].gid).length >= 2 * s.byGid(st0.sy[i].gid).radius)
                return false;
        return true;
    }(); };
    for (int a = 0; a < 6; a++) {
        c.expect(std::isfinite(mean[a]) && std::fabs(mean[a]) <= 6 * std::sqrt(N * 1.001), msg("mean ", name[a], " is ", mean[a] / N, " standard deviations over ", N, " draws"));
        if (!defined(a))
            continue;
        c.expect(std::fabs(cov[a][a] / N - 1) <= 6.5 * std::sqrt(2 / N) + 3e-4, msg("variance ", name[a], " is ", cov[a][a] / N, " of 2 kT mobility / dt over ", N, " draws"));
        c.expect(std::fabs(fourth[a] / N - 3) <= 8 * std::sqrt(96 / N) + 3e-3, msg("fourth moment ", name[a], " is ", fourth[a] / N, " instead of 3 over ", N, " draws"));
        c.expect(std::fabs(lag[a]) <= 6.5 * std::sqrt(N), msg("successive draws ", name[a], " are correlated: ", lag[a] / N, " over ", N, " draws"));
        for (int b = 0; b < a; b++)
            if (defined(b))
                c.expect(std::fabs(cov[a][b]) <= 6.5 * std::sqrt(N), msg(name[a], " and ", name[b], " are correlated: ", cov[a][b] / N, " over ", N, " draws"));
    }
    // every body on its own
    for (int l = 0; l < nl && !c.failed; l++) {
        const int i = first + l;
        if (con[l].isImmovable)
            continue;
        const Rod &r = s.byGid(con[l].gid);
        for (int a = 0; a < 6; a++) {
            if (a == 3 && r.length >= 2 * r.radius)
                continue;
            c.expect(std::fabs(sq[i][a] / K - 1) <= 7 * std::sqrt(2.0 / K) + 3e-4, msg("particle ", con[l].gid, " r ", r.radius, " L ", r.length, ": variance ", name[a], " is ", sq[i][a] / K, " of 2 kT mobility / dt over ", K, " draws"));
            c.expect(std::fabs(sum[i][a]) <= 6.5 * std::sqrt(double(K)), msg("particle ", con[l].gid, ": mean ", name[a], " is ", sum[i][a] / K, " standard deviations over ", K, " draws"));
        }
    }
    // two bodies with the same numbers
    for (int i = 0; i < n && !c.failed; i++)
        for (int j = 0; j < i; j++) {
            if (st0.sy[i].isImmovable || st0.sy[j].isImmovable)
                continue;
            double d = 0;
            for (int a = 3; a < 6; a++)
                d += std::fabs(draws[i][a] - draws[j][a]);
            c.expect(d > 1e-9, msg("particles ", st0.sy[j].gid, " (rank ", st0.owner[j], ") and ", st0.sy[i].gid, " (rank ", st0.owner[i], ") draw the same rotation"));
        }
}

namespace {
/// the numbers behind the last log line starting with the key
std::vector<double> logged(const std::string &key) {
    std::vector<double> v;
    const auto &l = logSink()->lines;
    for (size_t i = l.size(); i-- > 0;) {
        const size_t at = l[i].find(key);
        if (at == std::string::npos)
            continue;
        std::string rest = l[i].substr(at + key.size());
        for (char &ch : rest)
            if (!strchr("0123456789+-.einfa", ch))
                ch = ' ';
        std::istringstream f(rest);
        std::string w;
        while (f >> w)
            v.push_back(strtod(w.c_str(), nullptr));
        break;
    }
    return v;
}
} // namespace

PBT_FACET(diagnostics,
          "random systems anywhere in space (also at negative coordinates, ranks without particles), after a random step; bounding "
          "boxes, volume fraction, order parameter and contact stress are recomputed in long double over all particles and "
          "constraints; non-trivial with two particles") {
    SceneOpt opt;
    opt.maxRods = 16;
    opt.pLinks = 0.4;
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    cfg.KBT = c.logReal(1e-2, 10);
    cfg.conMaxIte = 50;
    cfg.conResTol = 1e-4;
    cfg.logLevel = spdlog::level::off;
    if (c.chance(1, 5))
        s.walls.push_back(wallNear(c, s));
    c << s.show();
    Sim sim(s);
    auto &sys = *sim.sys;
    const bool stepped = c.chance(3, 4);
    if (stepped) {
        sim->prepareStep();
        if (c.chance(3, 4)) {
            sim->runStep();
        }
    }
    const bool empty = c.chance(1, 6) && mpiSize() > 1; // all on one rank
    if (empty && !stepped) {
        // put everything where rank 0 takes it
        auto &con = sys.getContainerNonConst();
        for (int i = 0; i < con.getNumberOfParticleLocal(); i++)
            for (int k = 0; k < 3; k++)
                con[i].pos[k] = cfg.simBoxLow[k] + 0.5 * s.edge(k);
        sim->decomposeDomain();
        sim->exchangeSylinder();
    }
    const State st = state(sys);
    const int n = st.sy.size();
    for (auto &y : st.sy)
        if (!finite(y.pos, 3) || !finite(y.orientation, 4))
            c.discard();
    c.nontrivial(n > 1);
    c.label("all coordinates negative", cfg.simBoxHigh[0] < 0 && cfg.simBoxHigh[1] < 0 && cfg.simBoxHigh[2] < 0);
    // bounding boxes
    double ll[3], lh[3], gl[3], gh[3];
    sys.calcBoundingBox(ll, lh, gl, gh);
    LD wl[3], wh[3], vl[3], vh[3], coord = 0;
    for (int k = 0; k < 3; k++) {
        wl[k] = vl[k] = 1e300L;
        wh[k] = vh[k] = -1e300L;
    }
    LD volume = 0, p[3] = {}, Q[9] = {};
    for (int i = 0; i < n; i++) {
        const Sylinder &y = st.sy[i];
        const ref::V3 d = axisOf(y);
        const LD da[3] = {d.x, d.y, d.z};
        for (int e = -1; e <= 1; e += 2)
            for (int k = 0; k < 3; k++) {
                const LD x = y.pos[k] + e * 0.5L * y.length * da[k];
                coord = std::max(coord, std::fabs(x) + y.length);
                wl[k] = std::min(wl[k], x);
                wh[k] = std::max(wh[k], x);
                if (st.owner[i] == mpiRank()) {
                    vl[k] = std::min(vl[k], x);
                    vh[k] = std::max(vh[k], x);
                }
            }
        const LD pi = acosl(-1.0L);
        volume += pi * y.radius * y.radius * y.length + 4 * pi / 3 * y.radius * y.radius * y.radius;
        for (int a = 0; a < 3; a++) {
            p[a] += da[a] / n;
            for (int b = 0; b < 3; b++)
                Q[3 * a + b] += (da[a] * da[b] - (a == b ? 1.0L / 3 : 0)) / n;
        }
    }
    const double tol = 1e-13 * (double)coord;
    const bool none = st.counts[mpiRank()] == 0;
    c.label("rank without particles", none);
    for (int k = 0; k < 3; k++) {
        c.expect(std::fabs(double(gl[k] - wl[k])) <= tol && std::fabs(double(gh[k] - wh[k])) <= tol,
                 msg("global box in direction ", k, ": ", gl[k], " to ", gh[k], ", the rods span ", double(wl[k]), " to ", double(wh[k])));
        if (!none)
            c.expect(std::fabs(double(ll[k] - vl[k])) <= tol && std::fabs(double(lh[k] - vh[k])) <= tol,
                     msg("local box in direction ", k, ": ", ll[k], " to ", lh[k], ", the rods span ", double(vl[k]), " to ", double(vh[k])));
        else
            c.expect(ll[k] > lh[k], msg("local box of no rods in direction ", k, ": ", ll[k], " to ", lh[k]));
    }
    // log lines; only some ranks may log, those that do must agree with the definition
    // the level of the logger decides what is computed
    spdlog::set_level(spdlog::level::trace);
    logSink()->lines.clear();
    sys.calcVolFrac();
    auto lines = [&](const std::string &key) {
        const auto v = logged(key);
        int have = v.size() > 0, any = 0;
        MPI_Allreduce(&have, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        c.expect(any, msg("nothing was logged for '", key, "'"));
        return v;
    };
    const double box = s.edge(0) * s.edge(1) * s.edge(2);
    auto v = lines("Volume Sylinder = ");
    if (v.size())
        c.expect(v.size() == 1 && close(v[0], (double)volume, 1e-5, 0), msg("logged volume ", v[0], " instead of ", double(volume)));
    v = lines("Volume fraction = ");
    if (v.size())
        c.expect(v.size() == 1 && close(v[0], double(volume / box), 1e-5, 0), msg("logged volume fraction ", v[0], " instead of ", double(volume / box)));
    logSink()->lines.clear();
    // these two look at the log level of the configuration, which is fixed when the system starts: a second system
    spdlog::set_level(spdlog::level::err);
    Scene t = s;
    t.cfg.logLevel = spdlog::level::info;
    Sim sim2(t);
    auto &sys2 = *sim2.sys;
    spdlog::set_level(spdlog::level::trace);
    sim2->prepareStep();
    const bool solved = c.chance(3, 4);
    if (solved)
        sim2->runStep();
    const State s2 = state(sys2);
    const Blocks bl = blocks(sys2);
    bool fin = true;
    for (auto &y : s2.sy)
        fin &= finite(y.orientation, 4);
    for (auto &b : bl.b)
        fin &= std::isfinite(b.gamma) && finite(b.stress, 9);
    logSink()->lines.clear();
    if (fin) {
        for (int a = 0; a < 3; a++)
            p[a] = 0;
        for (int a = 0; a < 9; a++)
            Q[a] = 0;
        for (auto &y : s2.sy) {
            const ref::V3 d = axisOf(y);
            const LD da[3] = {d.x, d.y, d.z};
            for (int a = 0; a < 3; a++) {
                p[a] += da[a] / n;
                for (int b = 0; b < 3; b++)
                    Q[3 * a + b] += (da[a] * da[b] - (a == b ? 1.0L / 3 : 0)) / n;
            }
        }
        sys2.calcOrderParameter();
        v = lines("RECORD: Order P,");
        if (v.size() && c.expect(v.size() == 12, msg("the order parameter line has ", v.size(), " numbers"))) {
            for (int a = 0; a < 3; a++)
                c.expect(close(v[a], double(p[a]), 1e-5, 1e-12), msg("logged polarity ", a, " is ", v[a], " instead of ", double(p[a])));
            for (int a = 0; a < 9; a++)
                c.expect(close(v[3 + a], double(Q[a]), 1e-5, 1e-12), msg("logged nematic tensor entry ", a, " is ", v[3 + a], " instead of ", double(Q[a])));
        }
        LD uni[9] = {}, bi[9] = {}, su = 0, sb = 0;
        bool act = false;
        for (auto &b : bl.b) {
            if (b.oneSide)
                continue;
            act |= b.gamma != 0;
            for (int a = 0; a < 9; a++) {
                c.expect(!solved || b.gamma != 0 || b.stress[a] == 0,
                         msg("constraint ", b.gidI, "-", b.gidJ, " carries no force but the stress ", a, " is ", b.stress[a]));
                // the solver has multiplied the unit-force stress of the block by its force (C03, C07)
                (b.bilateral ? bi : uni)[a] += (LD)b.stress[a] / (n * cfg.KBT);
                (b.bilateral ? sb : su) += std::fabs(b.stress[a]) / (n * cfg.KBT);
            }
        }
        c.label("contact stress", act);
        sys2.calcConStress();
        v = lines("RECORD: ColXF,");
        if (v.size() && c.expect(v.size() == 9, msg("the collision stress line has ", v.size(), " numbers")))
            for (int a = 0; a < 9; a++)
                c.expect(close(v[a], double(uni[a]), 1e-5, 1e-12 * double(su)), msg("logged collision stress ", a, " is ", v[a], " instead of ", double(uni[a])));
        v = lines("RECORD: BiXF,");
        if (v.size() && c.expect(v.size() == 9, msg("the bilateral stress line has ", v.size(), " numbers")))
            for (int a = 0; a < 9; a++)
                c.expect(close(v[a], double(bi[a]), 1e-5, 1e-12 * double(sb)), msg("logged bilateral stress ", a, " is ", v[a], " instead of ", double(bi[a])));
    }
    spdlog::set_level(spdlog::level::err);
    logSink()->lines.clear();
}

int main(int argc, char **argv) { return sysgen::mainBody(argc, argv); }
