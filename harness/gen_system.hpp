/** generated particle systems, and access to the state of a running SylinderSystem from every rank */
#pragma once
#include "gen_geom.hpp"
#include "ref_boundary.hpp"
#include "ref_pair.hpp"

#include "Sylinder/SylinderSystem.hpp"
#include "Util/Logger.hpp"

#include "spdlog/sinks/base_sink.h"

#include <dirent.h>
#include <memory>
#include <random>

namespace sysgen {
using namespace pbt;
using gen::A3;
using LD = long double;

// ------------------------------------------------------------------------------------------------------- files
inline const std::string &scratch() {
    static const std::string s = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "";
    return s;
}
/// removes what a simulation wrote below the scratch directory (never anything else)
inline void removeTree(const std::string &path) {
    if (scratch().size() < 6 || path.compare(0, scratch().size() + 1, scratch() + "/") != 0)
        return;
    DIR *d = opendir(path.c_str());
    if (!d)
        return;
    while (dirent *e = readdir(d)) {
        const std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        const std::string q = path + "/" + n;
        struct stat st;
        if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            removeTree(q);
        else
            unlink(q.c_str());
    }
    closedir(d);
    rmdir(path.c_str());
}
inline void cleanOutput() {
    MPI_Barrier(MPI_COMM_WORLD);
    if (mpiRank() == 0) {
        removeTree(scratch() + "/result");
        unlink((scratch() + "/TimeStepInfo.txt").c_str());
        unlink((scratch() + "/simBox.vtk").c_str());
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
inline std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

struct LogSink : spdlog::sinks::base_sink<spdlog::details::null_mutex> {
    std::vector<std::string> lines;
    void sink_it_(const spdlog::details::log_msg &m) override { lines.emplace_back(m.payload.data(), m.payload.size()); }
    void flush_() override {}
};
inline std::shared_ptr<LogSink> &logSink() {
    static std::shared_ptr<LogSink> s = std::make_shared<LogSink>();
    return s;
}

// ------------------------------------------------------------------------------------------------------- scene
struct Rod {
    int gid = 0, group = -1;
    bool immovable = false;
    double radius = 0.5, length = 0;
    A3 pos{0, 0, 0}, dir{0, 0, 1};
    A3 end(int s) const { return gen::add(pos, dir, s * 0.5 * length); }
    std::string show() const {
        return msg(immovable ? "S" : "C", " gid ", gid, " r ", radius, " L ", length, " pos ", gen::show(pos), " dir ", gen::show(dir));
    }
};
struct Scene {
    SylinderConfig cfg;
    std::vector<Rod> rods;
    std::vector<std::pair<int, int>> links;
    std::vector<RefBoundary> walls;
    bool spin = false; // give every rod an arbitrary rotation about its own axis after loading
    uint64_t spinSeed = 0;

    const Rod &byGid(int gid) const {
        for (auto &r : rods)
            if (r.gid == gid)
                return r;
        static Rod none;
        return none;
    }
    std::string show(size_t maxRods = 8) const {
        std::ostringstream o;
        o << rods.size() << " rods, box " << gen::show({cfg.simBoxLow[0], cfg.simBoxLow[1], cfg.simBoxLow[2]}) << " to "
          << gen::show({cfg.simBoxHigh[0], cfg.simBoxHigh[1], cfg.simBoxHigh[2]}) << " periodic " << cfg.simBoxPBC[0] << cfg.simBoxPBC[1]
          << cfg.simBoxPBC[2] << (cfg.monolayer ? " monolayer" : "") << " colRatio " << cfg.sylinderDiameterColRatio << "," << cfg.sylinderLengthColRatio
          << " buf " << cfg.sylinderColBuf << "; ";
        for (size_t i = 0; i < rods.size() && i < maxRods; i++)
            o << rods[i].show() << "; ";
        if (links.size()) {
            o << "links";
            for (auto &l : links)
                o << " " << l.first << ">" << l.second;
            o << "; ";
        }
        for (auto &w : walls)
            o << w.show() << "; ";
        return o.str();
    }
    double searchRadius(const Rod &r) const {
        return std::max(r.length + 2 * r.radius, r.length * cfg.sylinderLengthColRatio + 2 * r.radius * cfg.sylinderDiameterColRatio) *
               (1 + cfg.sylinderColBuf);
    }
    double edge(int k) const { return cfg.simBoxHigh[k] - cfg.simBoxLow[k]; }
};

struct SceneOpt {
    int maxRods = 24;
    bool farAway = true;     ///< initial coordinates many periods away
    bool mayMonolayer = false;
    double pLinks = 0;       ///< probability of any links
    double pWalls = 0;
    double pImmovable = 0.2;
    bool outsideOpenBox = true; ///< positions outside the box in open directions
    double touch = 0.5;      ///< fraction of rods placed next to an earlier one
    double fill = 1;         ///< larger: more room
    bool noCross = false;    ///< discard overlapping axes (contact normal undefined)
    bool fixRatio = false;   ///< collision size ratios of one
    double minBuf = 0, maxBuf = 1;
    bool gentle = false;     ///< overlaps of at most a thousandth of the size
};

inline void defaults(SylinderConfig &cfg) {
    cfg.rngSeed = 1234;
    cfg.logLevel = spdlog::level::off;
    cfg.timerLevel = spdlog::level::off;
    for (int k = 0; k < 3; k++) {
        cfg.simBoxLow[k] = 0;
        cfg.simBoxHigh[k] = 20;
        cfg.simBoxPBC[k] = false;
        cfg.initBoxLow[k] = 0;
        cfg.initBoxHigh[k] = 20;
        cfg.initOrient[k] = 2;
    }
    cfg.initPreSteps = 0;
    cfg.viscosity = 1;
    cfg.KBT = 0;
    cfg.linkKappa = 100;
    cfg.linkGap = 0.1;
    cfg.sylinderNumber = 1;
    cfg.sylinderLength = 1;
    cfg.sylinderLengthSigma = 0;
    cfg.sylinderDiameter = 1;
    cfg.sylinderDiameterColRatio = 1;
    cfg.sylinderLengthColRatio = 1;
    cfg.sylinderColBuf = 0.3;
    cfg.dt = 0.01;
    cfg.timeTotal = 1;
    cfg.timeSnap = 1e6;
    cfg.conResTol = 1e-8;
    cfg.conMaxIte = 1000;
    cfg.conSolverChoice = 0;
}

/// places rod i in contact with an earlier one (or anywhere in the box), no other overlap; false when that fails
inline bool placeGently(Case &c, Scene &s, int i, bool touch) {
    const auto &cfg = s.cfg;
    Rod &r = s.rods[i];
    if (touch) {
        const Rod &o = s.rods[c.below(i)];
        const double lr = cfg.sylinderLengthColRatio, ro = o.radius * cfg.sylinderDiameterColRatio, rr = r.radius * cfg.sylinderDiameterColRatio;
        const double gap = (ro + rr) * c.pick({0.9995, 1.0, 1.0003, 1.01}) * c.generic(0.9997, 1.0003);
        const bool oEnd = o.length == 0 || c.chance(1, 3), rEnd = r.length == 0 || c.chance(1, 2);
        const int eo = c.below(2) ? 1 : -1, er = c.below(2) ? 1 : -1;
        A3 p = gen::add(o.pos, o.dir, 0.5 * lr * o.length * (oEnd ? eo : c.generic(-0.9, 0.9)));
        A3 d = gen::dir(c);
        if (!oEnd || gen::dot(d, o.dir) * eo < 0)
            d = gen::add(d, o.dir, -gen::dot(d, o.dir) / gen::dot(o.dir, o.dir));
        if (!rEnd) { // both interior
            d = oEnd ? gen::add(d, r.dir, -gen::dot(d, r.dir)) : gen::cross(o.dir, r.dir);
            if (c.chance(1, 2))
                d = gen::scale(d, -1);
        }
        if (gen::nrm(d) < 1e-3)
            return false;
        d = gen::normalized(d);
        p = gen::add(p, d, gap);
        const double lean = gen::dot(d, r.dir) >= 0 ? 1 : -1;
        r.pos = gen::add(p, r.dir, 0.5 * lr * r.length * (rEnd ? lean : er * c.generic(0, 0.9)));
    } else {
        for (int k = 0; k < 3; k++)
            r.pos[k] = cfg.simBoxLow[k] + s.edge(k) * c.generic(0, 1);
    }
    auto ref = [&](const Rod &q) {
        RefRod f;
        f.radius = q.radius * cfg.sylinderDiameterColRatio;
        f.length = q.length * cfg.sylinderLengthColRatio;
        f.pos = q.pos;
        f.dir = q.dir;
        return f;
    };
    for (int j = 0; j < i; j++) {
        const RefRod I = ref(r), J = ref(s.rods[j]);
        A3 q = J.pos;
        for (int k = 0; k < 3; k++)
            if (cfg.simBoxPBC[k])
                q[k] -= s.edge(k) * std::round((q[k] - r.pos[k]) / s.edge(k));
        if (refAxisDistance(I, J, I.pos, q) - I.coreRadius() - J.coreRadius() < -0.001 * std::min(I.coreRadius(), J.coreRadius()))
            return false;
    }
    return true;
}

inline Scene scene(Case &c, const SceneOpt &opt) {
    Scene s;
    defaults(s.cfg);
    auto &cfg = s.cfg;
    cfg.sylinderColBuf = c.chance(1, 5) ? opt.minBuf : c.real(opt.minBuf, opt.maxBuf);
    if (!opt.fixRatio && c.chance(1, 2)) {
        cfg.sylinderDiameterColRatio = c.generic(0.7, 1.5);
        cfg.sylinderLengthColRatio = c.generic(0.7, 1.5);
    }
    cfg.monolayer = opt.mayMonolayer && c.chance(1, 4);
    cfg.conSolverChoice = c.below(2);
    const int n = c.sized(1, opt.maxRods);
    const int pbc = c.below(8);
    for (int k = 0; k < 3; k++)
        cfg.simBoxPBC[k] = (pbc >> k) & 1;
    const int shapes = c.below(4); // 0 rods, 1 spheres, 2 short and long, 3 one size
    const double r1 = c.generic(0.2, 1), l1 = c.generic(0, 6);
    std::set<int> used;
    double reach = 0, avg = 0;
    const int gidMode = c.below(3);
    for (int i = 0; i < n; i++) {
        Rod r;
        r.gid = gidMode == 0 ? i : gidMode == 1 ? n - 1 - i : int(c.below(100000));
        while (!used.insert(r.gid).second)
            r.gid++;
        r.group = c.integer(-1, 3);
        r.immovable = c.chance(int(opt.pImmovable * 100), 100);
        r.radius = shapes == 3 ? r1 : c.generic(0.2, 1);
        r.length = shapes == 3 ? l1 : shapes == 1 ? 0.0 : shapes == 0 ? c.generic(2.1 * r.radius, 6) : c.pick({0.0, r.radius * c.generic(0, 2), c.generic(2, 6)});
        if (cfg.monolayer) {
            const double phi = c.real(0, 2 * M_PI);
            r.dir = {std::cos(phi), std::sin(phi), 0};
        } else {
            r.dir = gen::dir(c);
        }
        if (r.length == 0)
            r.dir = {0, 0, 1}; // as the file format has it
        reach = std::max(reach, s.searchRadius(r));
        avg += r.length + 2 * r.radius;
        s.rods.push_back(r);
    }
    avg /= n;
    const bool offset = c.chance(1, 2);
    for (int k = 0; k < 3; k++) {
        const double minEdge = 2.05 * reach;
        double e = avg * std::cbrt(double(n)) * opt.fill * c.pick({0.5, 0.8, 1.2, 2.0, 4.0}) * c.generic(0.9, 1.1);
        if (cfg.simBoxPBC[k])
            e = std::max(e, minEdge);
        cfg.simBoxLow[k] = offset ? c.pick({-e, 10.0, -100.0, 0.37 * e}) : 0.0;
        cfg.simBoxHigh[k] = cfg.simBoxLow[k] + e;
        cfg.initBoxLow[k] = cfg.simBoxLow[k];
        cfg.initBoxHigh[k] = cfg.simBoxHigh[k];
    }
    const double zmid = (cfg.simBoxLow[2] + cfg.simBoxHigh[2]) / 2;
    for (int i = 0; i < n; i++) {
        Rod &r = s.rods[i];
        bool placed = false;
        for (int t = 0; opt.gentle && !cfg.monolayer && i > 0 && t < 12 && !placed; t++)
            placed = placeGently(c, s, i, c.chance(int(opt.touch * 100), 100));
        if (placed) {
        } else if (i > 0 && c.chance(int(opt.touch * 100), 100)) {
            const Rod &o = s.rods[c.below(i)];
            A3 p = gen::add(o.pos, o.dir, c.generic(-0.5, 0.5) * o.length);
            double gap = (o.radius + r.radius) * cfg.sylinderDiameterColRatio;
            if (opt.gentle)
                gap *= c.pick({0.9995, 1.0, 1.0003, 1.01}) * c.generic(0.9995, 1.0005);
            else
                gap *= c.pick({0.6, 0.95, 1.05, 1.0 + 0.9 * cfg.sylinderColBuf, 1.1 + cfg.sylinderColBuf}) * c.generic(0.97, 1.03);
            A3 d = gen::dir(c);
            if (cfg.monolayer) {
                const double phi = c.generic(0, 2 * M_PI);
                d = {std::cos(phi), std::sin(phi), 0};
            }
            p = gen::add(p, d, gap);
            r.pos = gen::add(p, r.dir, c.generic(-0.5, 0.5) * r.length);
        } else {
            for (int k = 0; k < 3; k++) {
                const double e = s.edge(k);
                r.pos[k] = cfg.simBoxLow[k] + e * c.generic(0, 1);
                const int where = c.below(6);
                if (where == 5)
                    r.pos[k] = (c.below(2) ? cfg.simBoxHigh[k] : cfg.simBoxLow[k]) + c.generic(-0.5, 0.5);
                if (where == 4 && opt.outsideOpenBox)
                    r.pos[k] += e * c.pick({-1.0, 1.0});
            }
        }
        for (int k = 0; k < 3; k++) {
            if (cfg.simBoxPBC[k] && c.chance(1, 16)) // on a periodic face, or as close to it as possible
                r.pos[k] = c.pick({cfg.simBoxLow[k], std::nextafter(cfg.simBoxHigh[k], cfg.simBoxLow[k]), cfg.simBoxHigh[k]});
            if (cfg.simBoxPBC[k] && opt.farAway && c.chance(1, 10))
                r.pos[k] += s.edge(k) * double(c.integer(-5, 5));
            if (!cfg.simBoxPBC[k] && !opt.outsideOpenBox)
                r.pos[k] = std::min(std::max(r.pos[k], cfg.simBoxLow[k] + 1e-3), cfg.simBoxHigh[k] - 1e-3);
        }
        if (cfg.monolayer)
            r.pos[2] = zmid;
    }
    if (n > 1 && c.chance(int(opt.pLinks * 100), 100)) {
        const int kind = c.below(4);
        const int nl = kind == 0 ? n - 1 : int(c.sized(1, 2 * n));
        for (int i = 0; i < nl; i++) {
            int a = kind == 0 ? i : int(c.below(n)), b = kind == 0 ? i + 1 : int(c.below(n));
            if (kind == 1) // star
                a = 0;
            if (a == b)
                b = (a + 1) % n;
            s.links.push_back({s.rods[a].gid, s.rods[b].gid});
        }
        cfg.linkKappa = c.logReal(1, 1000);
        cfg.linkGap = c.generic(-0.2, 0.5);
    }
    s.spin = c.chance(1, 2);
    s.spinSeed = c.seed64();
    return s;
}

/// a boundary through or beside a particle; allowed: the particle is on the allowed side, about to touch
inline RefBoundary wallNear(Case &c, const Scene &s, bool allowed = false) {
    RefBoundary b = RefBoundary::generate(c, 3);
    // a boundary that meets the particles: through or beside one of them
    const Rod &r = s.rods[c.below(s.rods.size())];
    if (allowed) {
        const int e = c.below(2) ? 1 : -1;
        const A3 tip = r.end(e);
        const double clear = r.radius * s.cfg.sylinderDiameterColRatio * c.pick({0.9995, 1.0, 1.001, 1.02});
        if (b.type == 0) {
            if (e * gen::dot(b.dir, r.dir) > 0) // the other end is on the allowed side too
                b.dir = gen::scale(b.dir, -1);
            b.center = gen::add(tip, gen::normalized(b.dir), -clear);
            return b;
        }
        A3 u = gen::dir(c);
        if (b.type == 1) {
            const A3 a = gen::normalized(b.dir);
            u = gen::add(u, a, -gen::dot(u, a));
            if (gen::nrm(u) < 1e-3)
                u = gen::perp(a);
            u = gen::normalized(u);
        }
        if (b.inside)
            b.radius = std::max(b.radius, 2 * clear);
        b.center = gen::add(tip, u, b.inside ? clear - b.radius : -clear - b.radius);
        return b;
    }
    const A3 at = gen::add(r.end(c.below(2) ? 1 : -1), gen::dir(c), r.radius * c.real(0, 3));
    if (b.type == 0) {
        b.center = at;
    } else {
        const double d = b.radius;
        A3 u = gen::dir(c);
        if (b.type == 1) {
            A3 a = gen::normalized(b.dir);
            u = gen::add(u, a, -gen::dot(u, a));
            if (gen::nrm(u) < 1e-3)
                u = gen::perp(a);
            u = gen::normalized(u);
        }
        b.center = gen::add(at, u, -d);
        if (c.chance(1, 4)) // concentric with a particle
            b.center = r.pos;
    }
    return b;
}

/// the text format of initial configurations
inline std::string posFileText(const Scene &s, const std::vector<int> &order = {}) {
    std::string t = "# header\n# header 2\n";
    char b[512];
    std::vector<std::string> lines;
    for (auto &r : s.rods) {
        const A3 m = r.end(-1), p = r.end(1);
        snprintf(b, sizeof b, "%c %d %.17g %.17g %.17g %.17g %.17g %.17g %.17g %d\n", r.immovable ? 'S' : 'C', r.gid, r.radius, m[0], m[1], m[2], p[0], p[1],
                 p[2], r.group);
        lines.push_back(b);
    }
    for (auto &l : s.links) {
        snprintf(b, sizeof b, "L %d %d\n", l.first, l.second);
        lines.push_back(b);
    }
    for (size_t i = 0; i < lines.size(); i++)
        t += lines[order.size() == lines.size() ? order[i] : i];
    return t;
}
inline void writeFile(const std::string &name, const std::string &text) {
    if (mpiRank() == 0) {
        std::ofstream f(name, std::ios::binary);
        f << text;
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

// ------------------------------------------------------------------------------------------------------- state
template <class T>
std::vector<T> allGather(const std::vector<T> &mine, std::vector<int> *counts = nullptr) {
    static_assert(std::is_trivially_copyable<T>::value, "");
    const int np = mpiSize();
    int n = mine.size() * sizeof(T);
    std::vector<int> cnt(np), disp(np + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < np; i++)
        disp[i + 1] = disp[i] + cnt[i];
    std::vector<T> all(disp[np] / sizeof(T));
    MPI_Allgatherv(mine.data(), n, MPI_BYTE, all.data(), cnt.data(), disp.data(), MPI_BYTE, MPI_COMM_WORLD);
    if (counts) {
        counts->resize(np);
        for (int i = 0; i < np; i++)
            (*counts)[i] = cnt[i] / sizeof(T);
    }
    return all;
}
struct State {
    std::vector<Sylinder> sy; // by rank, then local order
    std::vector<int> owner, local, counts;
    std::map<int, int> byGid;
    int at(int gid) const {
        auto it = byGid.find(gid);
        return it == byGid.end() ? -1 : it->second;
    }
};
inline State state(SylinderSystem &sys) {
    State s;
    auto &con = sys.getContainerNonConst();
    std::vector<Sylinder> mine;
    for (int i = 0; i < con.getNumberOfParticleLocal(); i++)
        mine.push_back(con[i]);
    s.sy = allGather(mine, &s.counts);
    for (int r = 0; r < mpiSize(); r++)
        for (int i = 0; i < s.counts[r]; i++) {
            s.owner.push_back(r);
            s.local.push_back(i);
        }
    for (size_t i = 0; i < s.sy.size(); i++)
        s.byGid[s.sy[i].gid] = i;
    return s;
}
struct Blocks {
    std::vector<ConstraintBlock> b; // by rank, queue, position
    std::vector<int> owner, counts;
};
inline Blocks blocks(SylinderSystem &sys) {
    Blocks o;
    std::vector<ConstraintBlock> mine;
    for (auto &q : sys.getConstraintPoolNonConst())
        for (auto &b : q)
            mine.push_back(b);
    o.b = allGather(mine, &o.counts);
    for (int r = 0; r < mpiSize(); r++)
        o.owner.insert(o.owner.end(), o.counts[r], r);
    return o;
}
inline A3 a3(const double *p) { return {p[0], p[1], p[2]}; }
/// unit axis of a particle in long double from its quaternion (stored x,y,z,w)
inline ref::V3 axisOf(const Sylinder &s) {
    const ref::Q q{s.orientation[3], s.orientation[0], s.orientation[1], s.orientation[2]};
    return q.unit().rot(ref::V3(0, 0, 1));
}
inline RefRod refRod(const Sylinder &s, bool collision = true) {
    RefRod r;
    r.gid = s.gid;
    r.radius = collision ? s.radiusCollision : s.radius;
    r.length = collision ? s.lengthCollision : s.length;
    r.buf = s.colBuf;
    r.pos = a3(s.pos);
    const ref::V3 d = axisOf(s);
    r.dir = {double(d.x), double(d.y), double(d.z)};
    return r;
}
/// nearest image of b as seen from a in the periodic directions
inline A3 image(const SylinderConfig &cfg, const A3 &a, A3 b) {
    for (int k = 0; k < 3; k++)
        if (cfg.simBoxPBC[k]) {
            const double e = cfg.simBoxHigh[k] - cfg.simBoxLow[k];
            b[k] -= e * std::round((b[k] - a[k]) / e);
        }
    return b;
}

struct Sim {
    std::unique_ptr<SylinderSystem> sys;
    Scene *scene;
    explicit Sim(Scene &s, bool load = true) : scene(&s) {
        cleanOutput();
        s.cfg.boundaryPtr.clear();
        for (auto &w : s.walls)
            s.cfg.boundaryPtr.push_back(w.makeShared());
        if (load) {
            writeFile(scratch() + "/init.dat", posFileText(s));
            sys.reset(new SylinderSystem());
            sys->initialize(s.cfg, scratch() + "/init.dat", 0, nullptr);
            applySpin();
        }
    }
    ~Sim() { MPI_Barrier(MPI_COMM_WORLD); }
    void applySpin() {
        if (!scene->spin)
            return;
        auto &con = sys->getContainerNonConst();
        for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
            std::mt19937_64 g(scene->spinSeed + 977 * con[i].gid);
            const double phi = std::uniform_real_distribution<double>(0, 2 * M_PI)(g);
            Equatn q = Emapq(con[i].orientation) * Equatn(Eigen::AngleAxisd(phi, Evec3(0, 0, 1)));
            q.normalize();
            Emapq(con[i].orientation).coeffs() = q.coeffs();
        }
    }
    SylinderSystem *operator->() { return sys.get(); }
};

/// all constraints the collision search has to produce, against what it produced; returns complaints through c
inline int checkPairs(Case &c, const Scene &s, const State &st, const Blocks &bl, const std::string &when, bool solved = false) {
    // a pair of particles has at most one image within reach: the generator keeps the reach below half a period
    const int n = st.sy.size();
    std::map<std::pair<int, int>, std::vector<int>> found; // by gids
    for (size_t i = 0; i < bl.b.size(); i++) {
        const auto &b = bl.b[i];
        if (b.oneSide || b.bilateral)
            continue;
        if (!c.expect(st.at(b.gidI) >= 0 && st.at(b.gidJ) >= 0, msg(when, ": constraint between unknown particles ", b.gidI, " ", b.gidJ)))
            return 0;
        found[{std::min(b.gidI, b.gidJ), std::max(b.gidI, b.gidJ)}].push_back(i);
    }
    int near = 0, across = 0, remote = 0;
    double coord = 0;
    for (int k = 0; k < 3; k++)
        coord = std::max({coord, std::fabs(s.cfg.simBoxLow[k]), std::fabs(s.cfg.simBoxHigh[k])});
    std::vector<RefRod> rods;
    for (auto &y : st.sy)
        rods.push_back(refRod(y));
    for (int a = 0; a < n && !c.failed; a++)
        for (int b = a + 1; b < n && !c.failed; b++) {
            const int i = st.sy[a].gid < st.sy[b].gid ? a : b, j = i == a ? b : a; // smaller id first
            const RefRod &I = rods[i], &J = rods[j];
            const A3 pI = I.pos;
            const A3 pJ = image(s.cfg, pI, J.pos);
            if (gen::nrm(gen::add(pI, pJ, -1)) > 2.001 * (I.outer() + J.outer() + I.bufLength() + J.bufLength()) + 1e-9 * coord) { // out of reach
                if (n > 50) {
                    auto it = found.find({I.gid, J.gid});
                    c.expect(it == found.end(), msg(when, ": a constraint for ", I.gid, " ", J.gid, ", which are far apart"));
                    continue;
                }
            }
            const double axis = refAxisDistance(I, J, pI, pJ);
            const double sep = axis - I.coreRadius() - J.coreRadius();
            const double lim = I.bufLength() + J.bufLength();
            const double tol = 1e-11 * (I.size() + J.size() + gen::nrm(pI) + gen::nrm(pJ) + coord);
            auto it = found.find({I.gid, J.gid});
            const int count = it == found.end() ? 0 : it->second.size();
            if (sep > lim + tol) {
                c.expect(count == 0, msg(when, ": ", count, " constraints for ", I.gid, " ", J.gid, " separated by ", sep, ", buffer ", lim));
                continue;
            }
            if (sep > lim - tol - distanceSlack(I, J, axis))
                continue;
            near++;
            across += pJ != J.pos;
            remote += st.owner[i] != st.owner[j];
            if (!c.expect(count == 1, msg(when, ": ", count, " constraints for the pair ", I.gid, " (rank ", st.owner[i], ") ", J.gid, " (rank ", st.owner[j],
                                          ") separated by ", sep, ", buffer ", lim, pJ != J.pos ? ", through the periodic boundary" : "")))
                continue;
            if (axis < 1e-6 * (I.size() + J.size()))
                continue; // crossing axes: no unique normal
            auto bk = bl.b[it->second[0]];
            // either body may come first, in its own frame: the first one is at its true position
            std::string e;
            if (bk.gidI == I.gid)
                e = checkPairBlock(bk, I, J, st.sy[i].globalIndex, st.sy[j].globalIndex, pI, pJ, sep, 1e2 * tol, solved);
            else
                e = checkPairBlock(bk, J, I, st.sy[j].globalIndex, st.sy[i].globalIndex, J.pos, image(s.cfg, J.pos, pI), sep, 1e2 * tol, solved);
            c.expect(e.empty(), msg(when, ": pair ", I.gid, " ", J.gid, " separated by ", sep, ": ", e));
        }
    c.label("close pair", near > 0);
    c.label("close pair across the periodic boundary", across > 0);
    c.label("close pair on two ranks", remote > 0);
    return near;
}

inline int mainBody(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    int noArg = 1;
    char *name[] = {argv[0], nullptr};
    char **nameP = name;
    // the simulation prints its settings for every system it starts
    if (!getenv("PBT_KEEP_STDOUT") && !freopen("/dev/null", "w", stdout))
        return 3;
    PS::Initialize(noArg, nameP);
    auto lg = std::make_shared<spdlog::logger>("capture", logSink());
    spdlog::set_default_logger(lg);
    spdlog::set_level(spdlog::level::err);
    int r = pbt::run(argc, argv);
    PS::Finalize();
    int fin = 0;
    MPI_Finalized(&fin);
    if (!fin)
        MPI_Finalize();
    return r;
}
} // namespace sysgen
