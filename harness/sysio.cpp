/** files of a simulation: restart (C16), text (C17), VTK (C18), initial configurations (C32), snapshot schedule (C33) */
#include "gen_system.hpp"
#include "gen_vtk.hpp"

using namespace pbt;
using namespace sysgen;

namespace {
bool stop(Case &c) {
    int mine = c.failed, any = 0;
    MPI_Allreduce(&mine, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return any;
}
/// all files below a directory, with their contents' hash
std::map<std::string, uint64_t> filesBelow(const std::string &dir) {
    std::map<std::string, uint64_t> m;
    DIR *d = opendir(dir.c_str());
    if (!d)
        return m;
    while (dirent *e = readdir(d)) {
        const std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        const std::string q = dir + "/" + n;
        struct stat st;
        if (lstat(q.c_str(), &st))
            continue;
        if (S_ISDIR(st.st_mode)) {
            for (auto &p : filesBelow(q))
                m[n + "/" + p.first] = p.second;
        } else {
            m[n] = hashStr(slurp(q));
        }
    }
    closedir(d);
    return m;
}
/// the snapshot number in a file name such as Sylinder_r0_12.vtp (-1: none)
int snapOf(const std::string &path) {
    const size_t dot = path.rfind('.'), us = path.rfind('_');
    if (dot == std::string::npos || us == std::string::npos || us + 1 >= dot)
        return -1;
    for (size_t i = us + 1; i < dot; i++)
        if (!isdigit((unsigned char)path[i]))
            return -1;
    return atoi(path.substr(us + 1, dot - us - 1).c_str());
}
std::vector<std::string> namesOf(int id, int np) {
    std::vector<std::string> v{msg("SylinderAscii_", id, ".dat"), msg("Sylinder_", id, ".pvtp"), msg("ConBlock_", id, ".pvtp")};
    for (int r = 0; r < np; r++) {
        v.push_back(msg("Sylinder_r", r, "_", id, ".vtp"));
        v.push_back(msg("ConBlock_r", r, "_", id, ".vtp"));
    }
    return v;
}
/// the snapshots 0..n-1 (and no others) are there, each complete and in one folder whose name covers it
void checkFolders(Case &c, const std::map<std::string, uint64_t> &files, int n, int np, const std::string &when) {
    std::map<int, std::map<std::string, int>> inFolder; // id -> folder -> files
    std::map<std::string, std::pair<int, int>> range;
    for (auto &f : files) {
        const int id = snapOf(f.first);
        const size_t slash = f.first.find('/');
        if (id < 0)
            continue;
        if (!c.expect(slash != std::string::npos, msg(when, ": ", f.first, " is outside the snapshot folders")))
            return;
        const std::string dir = f.first.substr(0, slash);
        int lo, hi;
        if (!c.expect(sscanf(dir.c_str(), "result%d-%d", &lo, &hi) == 2, msg(when, ": folder ", dir)))
            return;
        range[dir] = {lo, hi};
        if (!c.expect(lo <= id && id <= hi, msg(when, ": ", f.first, " is not in the folder covering it")))
            return;
        inFolder[id][dir]++;
    }
    for (auto &a : range)
        for (auto &b : range)
            c.expect(a.first == b.first || a.second.second < b.second.first || b.second.second < a.second.first, msg(when, ": folders ", a.first, " and ", b.first, " overlap"));
    c.expect((int)inFolder.size() == n, msg(when, ": ", inFolder.size(), " snapshots on disk instead of ", n));
    for (int id = 0; id < n && !c.failed; id++) {
        if (!c.expect(inFolder.count(id) && inFolder[id].size() == 1, msg(when, ": snapshot ", id, " is missing or spread over folders")))
            return;
        for (auto &name : namesOf(id, np))
            c.expect(files.count(inFolder[id].begin()->first + "/" + name), msg(when, ": ", name, " is missing"));
    }
}
std::string result() { return scratch() + "/result"; }
/// rank 0 looks at the disk
template <class Fn>
void onRoot(Fn f) {
    MPI_Barrier(MPI_COMM_WORLD);
    if (mpiRank() == 0)
        f();
    MPI_Barrier(MPI_COMM_WORLD);
}
/// every recorded field of every local particle gets an arbitrary value
void fillFields(SylinderSystem &sys, uint64_t seed, bool wild) {
    auto &con = sys.getContainerNonConst();
    for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
        std::mt19937_64 g(seed + 977 * con[i].gid);
        std::normal_distribution<double> N(0, 1);
        auto &y = con[i];
        auto val = [&] {
            const double x = N(g);
            if (!wild)
                return x;
            switch (g() % 8) {
            case 0:
                return 0.0;
            case 1:
                return -0.0;
            case 2:
                return x * 1e30;
            case 3:
                return x * 1e-30;
            case 4:
                return double(float(x));
            default:
                return x;
            }
        };
        for (double *v : {y.vel, y.omega, y.velCol, y.omegaCol, y.velBi, y.omegaBi, y.velNonB, y.omegaNonB, y.force, y.torque, y.forceCol, y.torqueCol, y.forceBi, y.torqueBi, y.forceNonB, y.torqueNonB, y.velBrown, y.omegaBrown})
            for (int k = 0; k < 3; k++)
                v[k] = val();
        y.radiusCollision = y.radius * (1 + 0.1 * std::fabs(N(g)));
        y.lengthCollision = y.length * (1 + 0.1 * std::fabs(N(g)));
        y.group = wild ? int(g() % 2 ? g() : -1) : y.group;
    }
}
/// one serial file of particles against memory
void checkSylinders(Case &c, const vtkx::Piece &p, const std::vector<Sylinder> &pos, const std::vector<Sylinder> &val, const std::string &who) {
    const size_t n = val.size();
    if (!c.expect(p.lines == n, msg(who, ": ", p.lines, " lines for ", n, " particles")))
        return;
    c.expect(p.pos.type == "Float64", msg(who, ": end points are ", p.pos.type));
    struct V3 {
        const char *name;
        size_t off;
    };
#define O_(m) offsetof(Sylinder, m)
    static const std::vector<V3> vec = {{"vel", O_(vel)},
                                        {"omega", O_(omega)},
                                        {"velCollision", O_(velCol)},
                                        {"omegaCollision", O_(omegaCol)},
                                        {"velBilateral", O_(velBi)},
                                        {"omegaBilateral", O_(omegaBi)},
                                        {"velNonBrown", O_(velNonB)},
                                        {"omegaNonBrown", O_(omegaNonB)},
                                        {"force", O_(force)},
                                        {"torque", O_(torque)},
                                        {"forceCollision", O_(forceCol)},
                                        {"torqueCollision", O_(torqueCol)},
                                        {"forceBilateral", O_(forceBi)},
                                        {"torqueBilateral", O_(torqueBi)},
                                        {"forceNonBrown", O_(forceNonB)},
                                        {"torqueNonBrown", O_(torqueNonB)},
                                        {"velBrown", O_(velBrown)},
                                        {"omegaBrown", O_(omegaBrown)}};
    static const std::vector<V3> scal = {{"radius", O_(radius)}, {"radiusCollision", O_(radiusCollision)}, {"length", O_(length)}, {"lengthCollision", O_(lengthCollision)}};
#undef O_
    auto need = [&](const vtkx::Array *a, const char *name, const char *type, int comp) {
        return c.expect(a != nullptr, msg(who, ": array ", name, " is missing")) && c.expect(a->type == type && a->comp == comp, msg(who, ": array ", name, " is ", a->type, "x", a->comp));
    };
    const auto *lab = p.point("endLabel");
    const auto *gid = p.cell("gid"), *group = p.cell("group"), *imm = p.cell("isImmovable"), *xn = p.cell("xnorm"), *zn = p.cell("znorm");
    if (!need(lab, "endLabel", "UInt8", 1) || !need(gid, "gid", "Int32", 1) || !need(group, "group", "Int32", 1) || !need(imm, "isImmovable", "UInt8", 1) || !need(xn, "xnorm", "Float32", 3) || !need(zn, "znorm", "Float32", 3))
        return;
    for (size_t i = 0; i < n && !c.failed; i++) {
        const Sylinder &y = val[i], &g = pos[i];
        const std::string w = msg(who, " particle ", i, " (", y.gid, ")");
        c.expect(gid->get<int32_t>(i) == y.gid, msg(w, ": gid ", gid->get<int32_t>(i)));
        c.expect(group->get<int32_t>(i) == y.group, msg(w, ": group ", group->get<int32_t>(i), " instead of ", y.group));
        c.expect(imm->get<uint8_t>(i) == (y.isImmovable ? 1 : 0), msg(w, ": isImmovable ", int(imm->get<uint8_t>(i))));
        c.expect(lab->get<uint8_t>(2 * i) == 0 && lab->get<uint8_t>(2 * i + 1) == 1, msg(w, ": end labels"));
        const ref::Q q{g.orientation[3], g.orientation[0], g.orientation[1], g.orientation[2]};
        const ref::V3 z = q.unit().rot(ref::V3(0, 0, 1)), x = q.unit().rot(ref::V3(1, 0, 0));
        const LD za[3] = {z.x, z.y, z.z}, xa[3] = {x.x, x.y, x.z};
        for (int e = 0; e < 2; e++)
            for (int k = 0; k < 3; k++) {
                const LD want = g.pos[k] + (e ? 0.5L : -0.5L) * g.length * za[k];
                const double got = p.pos.get<double>(6 * i + 3 * e + k);
                c.expect(std::fabs(double(want - got)) <= 1e-14 * (double)(std::fabs(g.pos[k]) + g.length), msg(w, ": end ", e, " coordinate ", k, " is ", got, " instead of ", double(want)));
            }
        for (int k = 0; k < 3; k++) {
            c.expect(std::fabs(double(zn->get<float>(3 * i + k) - za[k])) <= 1.2e-7, msg(w, ": znorm ", k, " is ", zn->get<float>(3 * i + k), " instead of ", double(za[k])));
            c.expect(std::fabs(double(xn->get<float>(3 * i + k) - xa[k])) <= 1.2e-7, msg(w, ": xnorm ", k, " is ", xn->get<float>(3 * i + k), " instead of ", double(xa[k])));
        }
        for (auto &v : vec) {
            const auto *a = p.cell(v.name);
            if (!need(a, v.name, "Float32", 3))
                return;
            for (int k = 0; k < 3; k++) {
                const double want = ((const double *)((const char *)&y + v.off))[k];
                c.expect(a->get<float>(3 * i + k) == (float)want, msg(w, ": ", v.name, " ", k, " is ", a->get<float>(3 * i + k), " instead of ", want));
            }
        }
        for (auto &v : scal) {
            const auto *a = p.cell(v.name);
            if (!need(a, v.name, "Float32", 1))
                return;
            const double want = *(const double *)((const char *)&y + v.off);
            c.expect(a->get<float>(i) == (float)want, msg(w, ": ", v.name, " is ", a->get<float>(i), " instead of ", want));
        }
    }
}
void checkConstraints(Case &c, const vtkx::Piece &p, const std::vector<ConstraintBlock> &bl, const std::string &who) {
    if (!c.expect(p.lines == bl.size(), msg(who, ": ", p.lines, " lines for ", bl.size(), " constraints")))
        return;
    auto cell = [&](const char *name, const char *type, int comp) -> const vtkx::Array * {
        const auto *a = p.cell(name);
        if (!c.expect(a != nullptr, msg(who, ": array ", name, " is missing")) || !c.expect(a->type == type && a->comp == comp, msg(who, ": array ", name, " is ", a->type, "x", a->comp)))
            return nullptr;
        return a;
    };
    auto point = [&](const char *name, const char *type, int comp) -> const vtkx::Array * {
        const auto *a = p.point(name);
        if (!c.expect(a != nullptr, msg(who, ": point array ", name, " is missing")) || !c.expect(a->type == type && a->comp == comp, msg(who, ": point array ", name, " is ", a->type, "x", a->comp)))
            return nullptr;
        return a;
    };
    const auto *gid = point("gid", "Int32", 1), *gi = point("globalIndex", "Int32", 1), *pos = point("posIJ", "Float32", 3), *nor = point("normIJ", "Float32", 3);
    const auto *one = cell("oneSide", "Int32", 1), *bi = cell("bilateral", "Int32", 1), *d0 = cell("delta0", "Float32", 1), *ga = cell("gamma", "Float32", 1), *ka = cell("kappa", "Float32", 1), *st = cell("Stress", "Float32", 9);
    if (!gid || !gi || !pos || !nor || !one || !bi || !d0 || !ga || !ka || !st)
        return;
    auto same = [](float a, double b) { return std::isnan(b) ? std::isnan(a) : a == (float)b; };
    for (size_t i = 0; i < bl.size() && !c.failed; i++) {
        const auto &b = bl[i];
        const std::string w = msg(who, " constraint ", i, " (", b.gidI, ",", b.gidJ, ")");
        c.expect(gid->get<int32_t>(2 * i) == b.gidI && gid->get<int32_t>(2 * i + 1) == b.gidJ, msg(w, ": gid ", gid->get<int32_t>(2 * i), " ", gid->get<int32_t>(2 * i + 1)));
        c.expect(gi->get<int32_t>(2 * i) == b.globalIndexI && gi->get<int32_t>(2 * i + 1) == b.globalIndexJ, msg(w, ": globalIndex"));
        c.expect(one->get<int32_t>(i) == (b.oneSide ? 1 : 0) && bi->get<int32_t>(i) == (b.bilateral ? 1 : 0), msg(w, ": oneSide or bilateral"));
        c.expect(same(d0->get<float>(i), b.delta0) && same(ga->get<float>(i), b.gamma) && same(ka->get<float>(i), b.kappa), msg(w, ": delta0, gamma or kappa"));
        for (int k = 0; k < 3; k++) {
            c.expect(p.pos.get<double>(6 * i + k) == b.labI[k] && p.pos.get<double>(6 * i + 3 + k) == b.labJ[k], msg(w, ": end points"));
            c.expect(same(pos->get<float>(6 * i + k), b.posI[k]) && same(pos->get<float>(6 * i + 3 + k), b.posJ[k]), msg(w, ": posIJ"));
            c.expect(same(nor->get<float>(6 * i + k), b.normI[k]) && same(nor->get<float>(6 * i + 3 + k), b.normJ[k]), msg(w, ": normIJ"));
        }
        for (int k = 0; k < 9; k++)
            c.expect(same(st->get<float>(9 * i + k), b.stress[k]), msg(w, ": Stress ", k, " is ", st->get<float>(9 * i + k), " instead of ", b.stress[k]));
    }
}
/// both kinds of files of one snapshot, on every rank; pos: geometry at the snapshot, val: everything else
void checkSnapshot(Case &c, SylinderSystem &sys, const std::string &folder, int id, const State &pos, const State &val, const std::string &when) {
    MPI_Barrier(MPI_COMM_WORLD);
    const int me = mpiRank();
    size_t first = 0;
    for (int r = 0; r < me; r++)
        first += val.counts[r];
    const std::vector<Sylinder> P(pos.sy.begin() + first, pos.sy.begin() + first + pos.counts[me]), V(val.sy.begin() + first, val.sy.begin() + first + val.counts[me]);
    std::vector<ConstraintBlock> B;
    for (auto &q : sys.getConstraintPoolNonConst())
        B.insert(B.end(), q.begin(), q.end());
    std::string at;
    try {
        at = msg(folder, "Sylinder_r", me, "_", id, ".vtp");
        const auto sy = vtkx::readVTP(slurp(at));
        checkSylinders(c, sy, P, V, msg(when, " rank ", me));
        at = msg(folder, "ConBlock_r", me, "_", id, ".vtp");
        const auto cb = vtkx::readVTP(slurp(at));
        checkConstraints(c, cb, B, msg(when, " rank ", me));
        for (int kind = 0; kind < 2; kind++) {
            const std::string base = kind ? "ConBlock_" : "Sylinder_";
            at = msg(folder, base, id, ".pvtp");
            const auto ix = vtkx::readPVTP(slurp(at));
            const auto &pc = kind ? cb : sy;
            c.expect(ix.pointsType == pc.pos.type, msg(when, ": points declared as ", ix.pointsType, ", written as ", pc.pos.type));
            std::string e = vtkx::declared(ix.pointData, pc.pointData);
            c.expect(e.empty(), msg(when, " ", base, id, ".pvtp point data: ", e));
            e = vtkx::declared(ix.cellData, pc.cellData);
            c.expect(e.empty(), msg(when, " ", base, id, ".pvtp cell data: ", e));
            if (c.expect((int)ix.pieces.size() == mpiSize(), msg(when, " ", base, id, ".pvtp lists ", ix.pieces.size(), " pieces")))
                for (int r = 0; r < mpiSize(); r++) {
                    c.expect(ix.pieces[r] == msg(base, "r", r, "_", id, ".vtp"), msg(when, " ", base, id, ".pvtp: piece ", r, " is ", ix.pieces[r]));
                    c.expect(IOHelper::fileExist(folder + ix.pieces[r]), msg(when, ": ", ix.pieces[r], " does not exist"));
                }
        }
    } catch (const vtkx::Bad &b) {
        c.fail(msg(when, ": ", at, ": ", b.what));
    }
    MPI_Barrier(MPI_COMM_WORLD);
}
Scene smallScene(Case &c, int maxRods, bool monolayer = true) {
    SceneOpt opt;
    opt.maxRods = maxRods;
    opt.mayMonolayer = monolayer;
    opt.pLinks = 0.5;
    Scene s = scene(c, opt);
    s.cfg.conMaxIte = 30;
    s.cfg.conResTol = 1e-5;
    s.cfg.dt = c.pick({0.01, 0.1, 1e-3});
    s.cfg.timeSnap = s.cfg.dt * 1000;
    s.cfg.rngSeed = c.below(1000);
    return s;
}
std::vector<std::pair<int, int>> linksOf(SylinderSystem &sys, bool reverse) {
    std::vector<std::pair<int, int>> v;
    if (reverse)
        for (auto &p : sys.getLinkReverseMap())
            v.push_back({p.second, p.first});
    else
        for (auto &p : sys.getLinkMap())
            v.push_back({p.first, p.second});
    std::sort(v.begin(), v.end());
    return v;
}
} // namespace

/// the box is drawn as configured, to the digits written
static void checkBox(Case &c, const SylinderConfig &cfg) {
    if (mpiRank() != 0)
        return;
    std::istringstream in(slurp("result/simBox.vtk"));
    std::string word, all = in.str();
    c.expect(all.compare(0, 14, "# vtk DataFile") == 0 && all.find("\nASCII") != std::string::npos && all.find("DATASET RECTILINEAR_GRID") != std::string::npos &&
                 all.find("DIMENSIONS 2 2 2") != std::string::npos,
             "the box file is not a legacy rectilinear grid of one cell");
    int found = 0;
    while (in >> word)
        for (int k = 0; k < 3; k++)
            if (word == std::string(1, char('X' + k)) + "_COORDINATES") {
                int n = 0;
                std::string type;
                double lo = 0, hi = 0;
                in >> n >> type >> lo >> hi;
                const double tol = 1e-5;
                c.expect(bool(in) && n == 2 && std::fabs(lo - cfg.simBoxLow[k]) <= tol * std::fabs(cfg.simBoxLow[k]) && std::fabs(hi - cfg.simBoxHigh[k]) <= tol * std::fabs(cfg.simBoxHigh[k]),
                         msg("the box file says ", lo, " to ", hi, " in direction ", k));
                found++;
            }
    c.expect(found == 3, msg("the box file has ", found, " coordinate axes"));
}
PBT_FACET(vtk,
          "random systems (also ranks without particles) whose recorded fields hold arbitrary values, with collected, solved or "
          "synthetic constraints; every particle and constraint file is decoded with an independent reader and compared with "
          "memory, the index files with the files; non-trivial with a particle and a constraint") {
    Scene s = smallScene(c, 16);
    if (c.chance(1, 4) && !s.cfg.monolayer)
        s.walls.push_back(wallNear(c, s));
    c << s.show();
    Sim sim(s);
    auto &sys = *sim.sys;
    checkBox(c, s.cfg);
    sim->prepareStep();
    const int mode = c.below(3);
    if (mode == 0) { // a real step writes on its own
        s.cfg.timeSnap = s.cfg.dt;
        const int id = sim->getSnapID();
        const std::string folder = sim->getCurrentResultFolder();
        const State before = state(sys);
        if (c.chance(1, 2)) {
            std::vector<double> f;
            std::normal_distribution<double> N(0, 1);
            auto &con = sys.getContainerNonConst();
            const uint64_t seed = c.seed64();
            for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
                std::mt19937_64 g(seed + 977 * con[i].gid);
                for (int k = 0; k < 6; k++)
                    f.push_back(N(g));
            }
            sim->setForceNonBrown(f);
        }
        sim->runStep(); // step 0 is always written
        const State after = state(sys);
        if (!c.expect(after.counts == before.counts, "the step moved particles between ranks"))
            return;
        c.expect(sim->getSnapID() == id + 1, msg("snapshot number ", sim->getSnapID(), " after ", id));
        bool fin = true;
        for (auto &y : after.sy)
            fin &= finite(y.vel, 3) && finite(y.omega, 3);
        if (!fin)
            c.discard(); // coinciding axes
        checkSnapshot(c, sys, folder, id, before, after, "step");
        c.nontrivial(blocks(sys).b.size() > 0);
        c.label("written by a step");
        return;
    }
    fillFields(sys, c.seed64(), c.chance(1, 2));
    if (mode == 1) {
        sim->calcVelocityNonCon();
        sim->resolveConstraints();
        fillFields(sys, c.seed64(), c.chance(1, 2));
    } else {
        // synthetic constraints, the queues of the threads filled unevenly
        auto &pool = sys.getConstraintPoolNonConst();
        const int nq = pool.size();
        for (int q = 0; q < nq; q++) {
            pool[q].clear();
            const int n = c.chance(1, 3) ? 0 : c.integer(0, 5);
            for (int i = 0; i < n; i++) {
                std::mt19937_64 g(c.seed64() + mpiRank());
                std::normal_distribution<double> N(0, 1);
                ConstraintBlock b;
                b.delta0 = N(g);
                b.gamma = N(g) * 1e3;
                b.gidI = int(g());
                b.gidJ = int(g());
                b.globalIndexI = int(g() % 1000);
                b.globalIndexJ = int(g() % 1000);
                b.oneSide = g() % 2;
                b.bilateral = g() % 2;
                b.kappa = N(g) * 1e-5;
                for (double *v : {b.normI, b.normJ, b.posI, b.posJ, b.labI, b.labJ})
                    for (int k = 0; k < 3; k++)
                        v[k] = N(g) * (g() % 4 ? 1 : 1e6);
                for (double &x : b.stress)
                    x = N(g);
                if ((int)(g() % mpiSize()) == mpiRank() || g() % 2)
                    pool[q].push_back(b);
            }
        }
    }
    c.label(mode == 1 ? "solved constraints" : "synthetic constraints");
    const State st = state(sys);
    const int n = c.integer(1, 2);
    for (int k = 0; k < n; k++) {
        const int id = sim->getSnapID();
        const std::string folder = sim->getCurrentResultFolder();
        sim->writeResult();
        checkSnapshot(c, sys, folder, id, st, st, msg("write ", k));
    }
    bool none = false;
    for (int x : st.counts)
        none |= x == 0;
    c.label("rank without particles", none);
    c.nontrivial(blocks(sys).b.size() > 0);
}

PBT_FACET(ascii,
          "random systems after random steps, written as text; the file is parsed and compared with memory, and loaded as the "
          "initial configuration of a new system; non-trivial with two particles and a link") {
    Scene s = smallScene(c, 16, false);
    c << s.show();
    Sim sim(s);
    auto &sys = *sim.sys;
    sim->prepareStep();
    if (c.chance(1, 2))
        sim->runStep();
    if (c.chance(1, 2))
        sim->applyBoxBC();
    const State st = state(sys);
    for (auto &y : st.sy)
        if (!finite(y.pos, 3) || !finite(y.orientation, 4))
            c.discard();
    const int id = sim->getSnapID();
    const std::string file = sim->getCurrentResultFolder() + msg("SylinderAscii_", id, ".dat");
    const auto links = linksOf(sys, false);
    sim->writeResult();
    MPI_Barrier(MPI_COMM_WORLD);
    const std::string text = slurp(file);
    c.nontrivial(st.sy.size() > 1 && links.size() > 0);
    // the file on its own
    {
        std::istringstream f(text);
        std::string line;
        int count = -1;
        std::getline(f, line);
        c.expect(sscanf(line.c_str(), "%d", &count) == 1 && count == (int)st.sy.size(), msg("the header says ", count, " particles"));
        std::getline(f, line);
        double time = -1;
        c.expect(sscanf(line.c_str(), "%lf", &time) == 1 && std::fabs(time - sim->getStepCount() * s.cfg.dt) <= 1e-6, msg("the header says time ", time));
        std::set<int> seen;
        std::vector<std::pair<int, int>> L;
        while (std::getline(f, line) && !c.failed) {
            if (line.empty())
                continue;
            if (line[0] == 'L') {
                int a, b;
                c.expect(sscanf(line.c_str(), "L %d %d", &a, &b) == 2, "line " + line);
                L.push_back({a, b});
                continue;
            }
            char type;
            int gid, group;
            double r, m[3], p[3];
            if (!c.expect(sscanf(line.c_str(), "%c %d %lf %lf %lf %lf %lf %lf %lf %d", &type, &gid, &r, m, m + 1, m + 2, p, p + 1, p + 2, &group) == 10, "line " + line))
                break;
            const int i = st.at(gid);
            if (!c.expect(i >= 0 && seen.insert(gid).second, msg("particle ", gid, " is unknown or written twice")))
                break;
            const Sylinder &y = st.sy[i];
            c.expect(type == (y.isImmovable ? 'S' : 'C') && group == y.group && close(r, y.radius, 1e-7, 0), "line " + line);
            const ref::V3 d = axisOf(y);
            const LD da[3] = {d.x, d.y, d.z};
            for (int k = 0; k < 3; k++) {
                const double wm = double(y.pos[k] - 0.5L * y.length * da[k]), wp = double(y.pos[k] + 0.5L * y.length * da[k]);
                const double t = 1e-14 * (std::fabs(y.pos[k]) + y.length);
                c.expect(close(m[k], wm, 1e-7, t) && close(p[k], wp, 1e-7, t), msg("ends of particle ", gid, " coordinate ", k, ": ", m[k], " ", p[k], " instead of ", wm, " ", wp));
            }
        }
        std::sort(L.begin(), L.end());
        c.expect(seen.size() == st.sy.size(), msg(seen.size(), " particles in the file instead of ", st.sy.size()));
        c.expect(L == links, msg(L.size(), " links in the file, ", links.size(), " in memory, or different ones"));
    }
    if (stop(c))
        return;
    // loaded again: shapes of the scene as the file has them
    Scene t = s;
    for (int k = 0; k < 3; k++) // nothing may be wrapped: the comparison is with the file
        t.cfg.simBoxPBC[k] = false;
    onRoot([&] {
        std::ofstream f(scratch() + "/again.dat");
        f << text;
    });
    {
        cleanOutput();
        SylinderSystem sys2;
        t.cfg.boundaryPtr.clear();
        sys2.initialize(t.cfg, scratch() + "/again.dat", 0, nullptr);
        const State s2 = state(sys2);
        c.expect(s2.sy.size() == st.sy.size() && s2.byGid.size() == st.byGid.size(), msg(s2.sy.size(), " particles after loading instead of ", st.sy.size()));
        for (auto &y : st.sy) {
            const int i = s2.at(y.gid);
            if (!c.expect(i >= 0, msg("particle ", y.gid, " is missing after loading")))
                break;
            const Sylinder &z = s2.sy[i];
            const std::string w = msg("particle ", y.gid, " after loading: ");
            c.expect(z.isImmovable == y.isImmovable, w + "flag");
            c.expect(z.group == y.group, w + "group");
            c.expect(close(z.radius, y.radius, 1e-7, 0), w + "radius");
            const ref::V3 a = axisOf(y), b = axisOf(z);
            const LD aa[3] = {a.x, a.y, a.z}, bb[3] = {b.x, b.y, b.z};
            double scale = 0;
            for (int k = 0; k < 3; k++)
                scale += std::fabs(y.pos[k]) + y.length;
            for (int e = -1; e <= 1; e += 2)
                for (int k = 0; k < 3; k++) {
                    const LD want = y.pos[k] + e * 0.5L * y.length * aa[k], got = z.pos[k] + e * 0.5L * z.length * bb[k];
                    c.expect(std::fabs(double(want - got)) <= 1e-7 * scale, msg(w, e < 0 ? "minus" : "plus", " end, coordinate ", k, " is ", double(got), " instead of ", double(want)));
                }
        }
        c.expect(linksOf(sys2, false) == links && linksOf(sys2, true) == links, "links differ after loading");
    }
    MPI_Barrier(MPI_COMM_WORLD);
}

PBT_FACET(restart,
          "random systems run for random steps with random forces and snapshot intervals, restarted from the last snapshot in a new "
          "system; step count, snapshot number, particles and links are compared with the run that went on, and continuing must not "
          "touch an earlier file; non-trivial with two particles that move") {
    Scene s = smallScene(c, 12);
    auto &cfg = s.cfg;
    cfg.conMaxIte = c.pick({30, 200});
    if (c.chance(1, 4))
        cfg.KBT = c.logReal(1e-4, 0.1);
    cfg.sylinderFixed = c.chance(1, 12);
    const int every = c.integer(1, 3);
    cfg.timeSnap = cfg.dt * every;
    c << s.show() << " dt " << cfg.dt << " snapshot every " << every << " steps";
    const bool euler = !c.chance(1, 6);
    const int total = c.integer(1, 7);
    const uint64_t seed = c.seed64();
    auto drive = [&](SylinderSystem &sys, bool force, int step) {
        auto &con = sys.getContainerNonConst();
        std::vector<double> v;
        for (int i = 0; i < con.getNumberOfParticleLocal(); i++) {
            std::mt19937_64 g(seed + 977 * con[i].gid + 31 * step);
            std::normal_distribution<double> N(0, 1);
            for (int k = 0; k < 6; k++)
                v.push_back(force ? N(g) : con[i].isImmovable ? 0.0 : 3 * N(g));
        }
        if (force)
            sys.setForceNonBrown(v);
        else
            sys.setVelocityNonBrown(v);
    };
    State at;        // after the step that wrote the last snapshot
    State atBefore;  // the geometry in the snapshot
    int atStep = 0, atSnap = 0;
    std::vector<std::pair<int, int>> links;
    std::unique_ptr<Sim> sim(new Sim(s));
    bool moved = false;
    // now and then the run is at the end of a folder of results
    const int num = std::max(400 / mpiSize(), 1);
    const int ahead = c.chance(1, mpiSize() == 1 ? 60 : 30) ? num - c.integer(1, 4) : 0;
    for (int k = 0; k < total; k++) {
        (*sim)->prepareStep();
        if (k == 0)
            for (int i = 0; i < ahead; i++)
                (*sim)->writeResult();
        if (c.chance(2, 3))
            drive(*sim->sys, true, k);
        if (c.chance(1, 2))
            drive(*sim->sys, false, k);
        const State before = state(*sim->sys);
        const bool writes = (*sim)->getIfWriteResultCurrentStep();
        (*sim)->runStep();
        if (writes) {
            at = state(*sim->sys);
            atBefore = before;
            atStep = (*sim)->getStepCount();
            atSnap = (*sim)->getSnapID();
            links = linksOf(*sim->sys, false);
            for (auto &y : at.sy)
                for (int q = 0; q < 3; q++)
                    moved |= y.pos[q] != before.sy[before.at(y.gid)].pos[q];
        }
        if (c.chance(1, 5) && k + 1 < total) { // a new link before the next step
            std::vector<Link> l;
            if (s.rods.size() > 1 && mpiRank() == int(c.below(mpiSize()))) {
                Link a;
                a.prev = s.rods[0].gid;
                a.next = s.rods.back().gid;
                l.push_back(a);
            } else if (s.rods.size() <= 1)
                c.below(mpiSize());
            (*sim)->addNewLink(l);
        }
    }
    for (auto &y : at.sy)
        if (!finite(y.pos, 3) || !finite(y.vel, 3) || !finite(y.omega, 3))
            c.discard();
    c.nontrivial(at.sy.size() > 1 && moved);
    c.label("links", links.size() > 0);
    c.label("snapshot after step 0", atStep > 1);
    c.label("without the closing Euler step", !euler);
    c.label("last snapshot of a folder", atSnap % num == 0);
    std::map<std::string, uint64_t> files;
    onRoot([&] { files = filesBelow(result()); });
    sim->sys.reset();
    sim.reset();
    s.cfg.boundaryPtr.clear();
    const std::string info = scratch() + "/TimeStepInfo.txt";
    {
        std::istringstream f(slurp(info));
        long a = -1, b = -1, d = -1;
        std::string n;
        f >> a >> b >> d >> n;
        c.expect(a == cfg.rngSeed && b == atStep - 1 && d == atSnap - 1 && n == msg("Sylinder_", atSnap - 1, ".pvtp"), msg("the restart file holds ", a, " ", b, " ", d, " ", n, " after step ", atStep - 1, ", snapshot ", atSnap - 1));
    }
    if (stop(c))
        return;
    SylinderSystem sys;
    sys.reinitialize(s.cfg, info, 0, nullptr, euler);
    c.expect(sys.getStepCount() == atStep, msg("step count ", sys.getStepCount(), " instead of ", atStep));
    c.expect(sys.getSnapID() == atSnap, msg("snapshot number ", sys.getSnapID(), " instead of ", atSnap));
    c.expect(linksOf(sys, false) == links, msg(sys.getLinkMap().size(), " links instead of ", links.size(), ", or others"));
    c.expect(linksOf(sys, true) == links, "reverse links differ");
    const State re = state(sys);
    c.expect(re.sy.size() == at.sy.size() && re.byGid.size() == at.byGid.size(), msg(re.sy.size(), " particles instead of ", at.sy.size()));
    const State &want = euler ? at : atBefore;
    double coord = 0;
    for (int k = 0; k < 3; k++)
        coord += std::fabs(cfg.simBoxLow[k]) + std::fabs(cfg.simBoxHigh[k]);
    for (auto &y : want.sy) {
        const int i = re.at(y.gid);
        if (!c.expect(i >= 0, msg("particle ", y.gid, " is missing")))
            break;
        const Sylinder &z = re.sy[i], &v = at.sy[at.at(y.gid)];
        const std::string w = msg("particle ", y.gid, " after the restart: ");
        c.expect(z.isImmovable == y.isImmovable, w + "flag");
        c.expect(z.group == y.group, w + "group");
        c.expect(close(z.radius, y.radius, 1e-7, 0), w + "radius");
        c.expect(close(z.length, y.length, 1e-7, 1e-40), w + "length");
        double vn = 0, wn = 0, far = coord;
        for (int k = 0; k < 3; k++) {
            vn += std::fabs(v.vel[k]);
            wn += std::fabs(v.omega[k]);
            far += std::fabs(y.pos[k]) + y.length;
        }
        for (int k = 0; k < 3; k++) {
            double d = z.pos[k] - y.pos[k];
            if (cfg.simBoxPBC[k]) {
                const double e = s.edge(k);
                d -= e * std::round(d / e);
                c.expect(z.pos[k] >= cfg.simBoxLow[k] && z.pos[k] < cfg.simBoxHigh[k], msg(w, "coordinate ", k, " outside the box"));
            }
            c.expect(std::fabs(d) <= 1e-13 * far + (euler ? 2e-7 * vn * cfg.dt : 0), msg(w, "coordinate ", k, " is ", z.pos[k], " instead of ", y.pos[k]));
        }
        if (y.length > 1e-6) {
            const ref::V3 a = axisOf(y), b = axisOf(z);
            c.expect(double((a - b).norm()) <= 1e-6 + (euler ? 2e-6 * wn * cfg.dt : 0), msg(w, "axis is off by ", double((a - b).norm())));
        }
        c.expect(std::fabs(double(ref::Q{z.orientation[3], z.orientation[0], z.orientation[1], z.orientation[2]}.norm()) - 1) < 1e-9, w + "orientation is not a unit quaternion");
    }
    if (stop(c))
        return;
    // going on: the next snapshots get new numbers, nothing written before changes
    const int more = c.integer(1, 4);
    int written = 0;
    for (int k = 0; k < more; k++) {
        sys.prepareStep();
        written += sys.getIfWriteResultCurrentStep();
        sys.runStep();
    }
    c.expect(sys.getStepCount() == atStep + more, msg("step count ", sys.getStepCount(), " after ", more, " more steps from ", atStep));
    c.expect(sys.getSnapID() == atSnap + written, msg("snapshot number ", sys.getSnapID(), " after ", written, " more snapshots from ", atSnap));
    int due = 0;
    for (int k = atStep; k < atStep + more; k++)
        due += k % every == 0;
    c.expect(written == due, msg(written, " snapshots in the ", more, " steps after step ", atStep, ", one every ", every, " steps is due"));
    onRoot([&] {
        const auto now = filesBelow(result());
        for (auto &f : files)
            if (f.first.find('/') != std::string::npos)
                c.expect(now.count(f.first) && now.at(f.first) == f.second, msg(f.first, " was changed by the restarted run"));
        checkFolders(c, now, atSnap + written, mpiSize(), "after going on");
    });
}

PBT_FACET(schedule,
          "random time steps and snapshot intervals (also not a multiple of the step, shorter than it, or much longer than the run), "
          "run for random steps, or many snapshots written one after another; files on disk, folder ranges and numbers are checked "
          "after every step; non-trivial with two snapshots") {
    SceneOpt opt;
    opt.maxRods = 3;
    opt.pLinks = 0;
    opt.touch = 0;
    opt.fill = 4;
    opt.farAway = false;
    Scene s = scene(c, opt);
    auto &cfg = s.cfg;
    cfg.conMaxIte = 5;
    cfg.dt = c.pick({0.01, 0.1, 1e-3, 1e-5, 0.25, 0.7, 1.0 / 3});
    int every = 1;
    bool whole = true;
    const int style = c.below(5);
    if (style == 0) {
        every = c.integer(1, 12);
        cfg.timeSnap = every * cfg.dt; // rounded product
    } else if (style == 1) { // decimal numbers as a user writes them
        static const double dts[] = {0.1, 0.01, 0.001, 1e-4, 0.05, 0.2, 0.0001, 1e-5};
        cfg.dt = dts[c.below(8)];
        every = c.integer(1, 40);
        char b[64];
        snprintf(b, sizeof b, "%.10g", every * cfg.dt);
        cfg.timeSnap = strtod(b, nullptr);
    } else if (style == 2) { // shorter than a step: every step
        cfg.timeSnap = cfg.dt * c.generic(0.05, 0.45);
        every = 1;
    } else if (style == 3) { // between multiples: either neighbour will do
        const double q = c.integer(1, 6) + c.generic(0.05, 0.95);
        cfg.timeSnap = cfg.dt * q;
        every = int(q);
        whole = false;
    } else {
        cfg.timeSnap = cfg.dt * c.pick({1e7, 1e10, 1e13});
        every = 1000000000;
    }
    const bool many = c.chance(1, 60);
    const int steps = many ? 0 : c.integer(1, c.chance(1, 6) ? 100 : 25);
    c << s.show() << " dt " << cfg.dt << " timeSnap " << cfg.timeSnap << " (" << every << " steps) for " << steps << " steps" << (many ? ", then many snapshots" : "");
    Sim sim(s);
    auto &sys = *sim.sys;
    std::map<std::string, uint64_t> known;
    std::vector<int> written;
    c.expect(sim->getSnapID() == 0 && sim->getStepCount() == 0, "a new system does not start at zero");
    std::string folderBefore;
    int disk = 0;
    for (int k = 0; k < steps; k++) {
        sim->prepareStep();
        const bool says = sim->getIfWriteResultCurrentStep();
        const int id = sim->getSnapID();
        const std::string folder = sim->getCurrentResultFolder();
        c.expect(folder == sim->getResultFolderWithID(id), "current folder");
        sim->runStep();
        const bool did = sim->getSnapID() != id;
        c.expect(did == says, msg("step ", k, ": a snapshot was ", did ? "" : "not ", "written, announced: ", says));
        c.expect(sim->getSnapID() == id + did, msg("step ", k, ": snapshot number went from ", id, " to ", sim->getSnapID()));
        if (did)
            written.push_back(k);
        if (did && ++disk <= 12) {
            onRoot([&] {
                const auto now = filesBelow(result());
                for (auto &f : known)
                    c.expect(now.count(f.first) && now.at(f.first) == f.second, msg("step ", k, " changed ", f.first));
                c.expect(IOHelper::fileExist(folder + msg("Sylinder_", id, ".pvtp")), msg("snapshot ", id, " is not in ", folder));
                known = now;
                checkFolders(c, now, id + 1, mpiSize(), msg("step ", k));
            });
            if (stop(c))
                return;
        }
    }
    // the schedule
    if (steps) {
        std::vector<int> want, want2;
        for (int k = 0; k < steps; k += every)
            want.push_back(k);
        for (int k = 0; k < steps; k += every + 1)
            want2.push_back(k);
        auto show = [](const std::vector<int> &v) {
            std::string t;
            for (int x : v)
                t += msg(" ", x);
            return t;
        };
        c.expect(written == want || (!whole && written == want2), msg("snapshots at steps", show(written), " instead of", show(want), " (dt ", cfg.dt, ", interval ", cfg.timeSnap, ")"));
        c.nontrivial(written.size() > 1);
        c.label("not a multiple", !whole);
        c.label("decimal", style == 1);
        c.label("shorter than a step", style == 2);
        c.label("longer than the run", style == 4);
    } else {
        // more snapshots than one folder holds
        const int num = std::max(400 / mpiSize(), 1);
        const int total = num + c.integer(1, 4);
        sim->prepareStep();
        for (int i = 0; i < total; i++)
            sim->writeResult();
        c.expect(sim->getSnapID() == total, msg("snapshot number ", sim->getSnapID(), " after ", total));
        onRoot([&] {
            const auto now = filesBelow(result());
            checkFolders(c, now, total, mpiSize(), "many snapshots");
        });
        // the first ones hold what was written: nothing changed in between
        const State st = state(sys);
        for (int id : {0, 1, num - 1, num, total - 1})
            checkSnapshot(c, sys, sim->getResultFolderWithID(id), id, st, st, msg("snapshot ", id));
        c.nontrivial();
        c.label("more than one folder");
    }
}

PBT_FACET(initfile,
          "random files in the documented format: lines of rods, spheres and links in any order, extra spaces, comments, missing "
          "groups, 0 to 40 particles on any number of ranks; the loaded system must hold every line; non-trivial with three lines") {
    Scene s;
    defaults(s.cfg);
    auto &cfg = s.cfg;
    const int n = c.sized(1, 40);
    const int pbc = c.below(8);
    for (int k = 0; k < 3; k++) {
        cfg.simBoxPBC[k] = pbc >> k & 1;
        cfg.simBoxLow[k] = c.pick({0.0, -10.0, 3.5});
        cfg.simBoxHigh[k] = cfg.simBoxLow[k] + c.generic(15, 30);
    }
    std::set<int> used;
    std::vector<std::string> lines;
    std::vector<bool> group;
    const bool exact = c.chance(1, 4);
    for (int i = 0; i < n; i++) {
        Rod r;
        r.gid = c.chance(1, 3) ? i : int(c.below(1000000));
        while (!used.insert(r.gid).second)
            r.gid++;
        r.group = c.integer(-1, 20);
        r.immovable = c.chance(1, 4);
        r.radius = c.generic(0.1, 1);
        r.length = c.pick({0.0, c.generic(0.1, 1), c.generic(1, 6), c.logReal(1e-5, 0.1)});
        r.dir = exact ? A3{0, 0, c.below(2) ? 1.0 : -1.0} : gen::dir(c);
        for (int k = 0; k < 3; k++)
            r.pos[k] = cfg.simBoxLow[k] + s.edge(k) * c.generic(0.01, 0.99);
        const bool far = c.chance(1, 10); // outside: wrapped when periodic
        if (far) {
            const int k = c.below(3);
            r.pos[k] += s.edge(k) * c.pick({-1.0, 1.0, 3.0});
        }
        const A3 m = r.end(-1), p = r.end(1);
        const std::string gap = c.chance(1, 5) ? "   " : " ";
        char b[600];
        const char *fmt = c.chance(1, 3) ? "%.17e" : "%.17g";
        std::string line = r.immovable ? "S" : "C";
        line += gap + std::to_string(r.gid);
        const double num[7] = {r.radius, m[0], m[1], m[2], p[0], p[1], p[2]};
        for (double x : num) {
            snprintf(b, sizeof b, fmt, x);
            line += gap + b;
        }
        const bool withGroup = !c.chance(1, 6);
        if (withGroup)
            line += gap + std::to_string(r.group);
        else
            r.group = -1;
        if (c.chance(1, 8))
            line += "  ";
        lines.push_back(line);
        s.rods.push_back(r);
    }
    const int nl = n > 1 ? c.integer(0, n) : 0;
    std::set<std::pair<int, int>> have;
    for (int i = 0; i < nl; i++) {
        const int a = s.rods[c.below(n)].gid, b = s.rods[c.below(n)].gid;
        if (a == b || !have.insert({a, b}).second)
            continue;
        s.links.push_back({a, b});
        lines.push_back(msg("L ", a, " ", b));
    }
    if (c.chance(1, 4))
        lines.push_back("# a comment C 1 2 3");
    if (c.chance(1, 6))
        lines.push_back("");
    for (size_t i = lines.size(); i > 1; i--)
        std::swap(lines[i - 1], lines[c.below(i)]);
    std::string text = c.chance(1, 2) ? "# header\n# header\n" : "12\n C 0 0.5\n";
    for (size_t i = 0; i < lines.size(); i++)
        text += lines[i] + (i + 1 == lines.size() && c.chance(1, 3) ? "" : "\n");
    c << n << " particles, " << s.links.size() << " links: " << text.substr(0, 400);
    c.nontrivial(lines.size() > 2);
    Sim sim(s, false);
    writeFile(scratch() + "/given.dat", text);
    sim.sys.reset(new SylinderSystem());
    sim->initialize(cfg, scratch() + "/given.dat", 0, nullptr);
    const State st = state(*sim.sys);
    c.expect((int)st.sy.size() == n && (int)st.byGid.size() == n, msg(st.sy.size(), " particles (", st.byGid.size(), " identities) for ", n, " lines"));
    for (auto &r : s.rods) {
        const int i = st.at(r.gid);
        if (!c.expect(i >= 0, msg("particle ", r.gid, " is missing")))
            return;
        const Sylinder &y = st.sy[i];
        const std::string w = msg("particle ", r.gid, ": ");
        c.expect(y.isImmovable == r.immovable, w + "flag");
        c.expect(y.group == r.group, msg(w, "group ", y.group, " instead of ", r.group));
        c.expect(y.radius == r.radius && y.radiusCollision == r.radius, msg(w, "radius ", y.radius));
        c.expect(close(y.length, r.length, 1e-12, 1e-13 * (1 + gen::nrm(r.pos))) && y.lengthCollision == y.length, msg(w, "length ", y.length, " instead of ", r.length));
        for (int k = 0; k < 3; k++) {
            double d = y.pos[k] - r.pos[k];
            if (cfg.simBoxPBC[k]) {
                d -= s.edge(k) * std::round(d / s.edge(k));
                c.expect(y.pos[k] >= cfg.simBoxLow[k] && y.pos[k] < cfg.simBoxHigh[k], msg(w, "coordinate ", k, " outside the box"));
            }
            c.expect(std::fabs(d) <= 1e-12 * (1 + gen::nrm(r.pos)), msg(w, "centre ", k, " is ", y.pos[k], " instead of ", r.pos[k]));
        }
        const ref::V3 a = axisOf(y);
        if (r.length > 2e-6)
            c.expect(double((a - ref::V3(r.dir[0], r.dir[1], r.dir[2])).norm()) <= 1e-11 * (1 + gen::nrm(r.pos) / r.length), msg(w, "axis"));
        c.expect(std::fabs(double(ref::Q{y.orientation[3], y.orientation[0], y.orientation[1], y.orientation[2]}.norm()) - 1) < 1e-9, w + "orientation is not a unit quaternion");
        for (int k = 0; k < 3; k++)
            c.expect(y.vel[k] == 0 && y.omega[k] == 0 && y.force[k] == 0 && y.torque[k] == 0, w + "starts with a velocity or force");
    }
    std::sort(s.links.begin(), s.links.end());
    c.expect(linksOf(*sim.sys, false) == s.links, msg(sim->getLinkMap().size(), " links for ", s.links.size(), " lines, or others"));
    c.expect(linksOf(*sim.sys, true) == s.links, "reverse links differ");
    bool none = false;
    for (int x : st.counts)
        none |= x == 0;
    c.label("rank without particles", none);
    c.label("links", s.links.size() > 0);
}

PBT_FACET(initrandom,
          "random configurations without a file: number, diameter, length with and without spread, initial box inside the "
          "simulation box, disc cross sections, every combination of fixed and random orientation components; per rod facts for "
          "every rod, uniformity and length statistics at 6 sigma over the rods; non-trivial with 100 rods") {
    Scene s;
    defaults(s.cfg);
    auto &cfg = s.cfg;
    const int n = c.chance(1, 3) ? c.integer(1, 20) : c.integer(200, 3000);
    cfg.sylinderNumber = n;
    cfg.sylinderDiameter = c.logReal(0.01, 2);
    cfg.rngSeed = c.below(1000000);
    double minEdge = 1e300;
    for (int k = 0; k < 3; k++) {
        cfg.simBoxPBC[k] = c.below(2);
        cfg.simBoxLow[k] = c.pick({0.0, -50.0, 7.25});
        cfg.simBoxHigh[k] = cfg.simBoxLow[k] + c.generic(30, 100);
        const double e = s.edge(k);
        cfg.initBoxLow[k] = cfg.simBoxLow[k] + e * c.pick({0.0, 0.25, 0.4});
        cfg.initBoxHigh[k] = cfg.initBoxLow[k] + e * c.pick({0.6, 0.3, 0.1});
        minEdge = std::min(minEdge, cfg.initBoxHigh[k] - cfg.initBoxLow[k]);
        const int o = c.below(4);
        cfg.initOrient[k] = o == 0 ? c.pick({2.0, -3.0, 1.5}) : o == 1 ? c.pick({1.0, -1.0, 0.5}) : c.generic(-1, 1);
    }
    if (c.chance(1, 3))
        for (int k = 0; k < 3; k++)
            cfg.initOrient[k] = c.pick({2.0, -1.5});
    double on = 0;
    bool anyRandom = false;
    for (int k = 0; k < 3; k++) {
        if (std::fabs(cfg.initOrient[k]) <= 1)
            on += std::fabs(cfg.initOrient[k]);
        else
            anyRandom = true;
    }
    if (!anyRandom && on < 1e-2)
        cfg.initOrient[2] = 1; // no direction given
    cfg.sylinderLengthSigma = c.chance(1, 2) ? c.generic(0.05, 1) : 0;
    // with a spread, the pair (sylinderLength, sigma) gives the parameters of the logarithm (TRngPool::setLogNormalParameters)
    cfg.sylinderLength = cfg.sylinderLengthSigma > 0 ? std::log(minEdge * c.generic(0.05, 0.45)) : c.generic(0, 5);
    cfg.initCircularX = c.chance(1, 3);
    c << n << " rods, diameter " << cfg.sylinderDiameter << " length " << cfg.sylinderLength << " sigma " << cfg.sylinderLengthSigma << " orient " << cfg.initOrient[0] << "," << cfg.initOrient[1] << "," << cfg.initOrient[2] << " init box "
      << gen::show({cfg.initBoxLow[0], cfg.initBoxLow[1], cfg.initBoxLow[2]}) << gen::show({cfg.initBoxHigh[0], cfg.initBoxHigh[1], cfg.initBoxHigh[2]}) << (cfg.initCircularX ? " disc" : "") << " seed " << cfg.rngSeed;
    c.nontrivial(n >= 100);
    Sim sim(s, false);
    sim.sys.reset(new SylinderSystem());
    sim->initialize(cfg, scratch() + "/no-such-file.dat", 0, nullptr);
    const State st = state(*sim.sys);
    c.expect((int)st.sy.size() == n && (int)st.byGid.size() == n, msg(st.sy.size(), " rods with ", st.byGid.size(), " identities instead of ", n));
    if (c.failed)
        return;
    c.expect(sim->getLinkMap().empty() && sim->getLinkReverseMap().empty(), "links without a file");
    const double cy = (cfg.initBoxLow[1] + cfg.initBoxHigh[1]) / 2, cz = (cfg.initBoxLow[2] + cfg.initBoxHigh[2]) / 2;
    const double disc = std::min(cfg.initBoxHigh[1] - cfg.initBoxLow[1], cfg.initBoxHigh[2] - cfg.initBoxLow[2]) / 2;
    const bool allRandom = std::fabs(cfg.initOrient[0]) > 1 && std::fabs(cfg.initOrient[1]) > 1 && std::fabs(cfg.initOrient[2]) > 1;
    std::set<int> ids;
    struct Mean {
        double s = 0, s2 = 0;
        int n = 0;
        void add(double x) {
            s += x;
            s2 += x * x;
            n++;
        }
    };
    Mean pos[3], dir[3], q2[3], len, pairs;
    std::set<std::vector<double>> places;
    for (int g = 0; g < n && !c.failed; g++) {
        const int i = st.at(g);
        if (!c.expect(i >= 0, msg("no rod with identity ", g)))
            return;
        const Sylinder &y = st.sy[i];
        const std::string w = msg("rod ", g, ": ");
        c.expect(y.radius == cfg.sylinderDiameter / 2 && y.radiusCollision == y.radius, msg(w, "radius ", y.radius));
        c.expect(y.lengthCollision == y.length, w + "collision length");
        if (cfg.sylinderLengthSigma > 0)
            c.expect(y.length > 0 && y.length < minEdge / 2, msg(w, "length ", y.length, ", half of the smallest edge is ", minEdge / 2));
        else
            c.expect(y.length == cfg.sylinderLength, msg(w, "length ", y.length));
        c.expect(!y.isImmovable && y.group == -1, w + "flag or group");
        for (int k = 0; k < 3; k++) {
            const double t = 1e-12 * (std::fabs(cfg.initBoxLow[k]) + std::fabs(cfg.initBoxHigh[k]));
            c.expect(y.pos[k] >= cfg.initBoxLow[k] - t && y.pos[k] <= cfg.initBoxHigh[k] + t, msg(w, "coordinate ", k, " is ", y.pos[k]));
            pos[k].add((y.pos[k] - cfg.initBoxLow[k]) / (cfg.initBoxHigh[k] - cfg.initBoxLow[k]));
            c.expect(y.vel[k] == 0 && y.omega[k] == 0, w + "starts with a velocity");
        }
        const double rho = std::hypot(y.pos[1] - cy, y.pos[2] - cz);
        if (cfg.initCircularX) {
            c.expect(rho <= disc * (1 + 1e-9), msg(w, "is ", rho, " from the axis of a disc of radius ", disc));
            pairs.add(rho * rho / (disc * disc));
        }
        c.expect(places.insert({y.pos[0], y.pos[1], y.pos[2]}).second, w + "is where another one is");
        const ref::V3 a = axisOf(y);
        const double d[3] = {double(a.x), double(a.y), double(a.z)};
        c.expect(std::fabs(double(ref::Q{y.orientation[3], y.orientation[0], y.orientation[1], y.orientation[2]}.norm()) - 1) < 1e-9, w + "orientation is not a unit quaternion");
        if (allRandom) {
            for (int k = 0; k < 3; k++) {
                dir[k].add(d[k]);
                q2[k].add(d[k] * d[k]);
            }
        } else {
            // parallel to (p0,p1,p2), random components free in [-1,1]: find the length of the vector
            double len = 0, best = 0;
            for (int k = 0; k < 3; k++)
                if (std::fabs(cfg.initOrient[k]) <= 1 && std::fabs(cfg.initOrient[k]) > best && std::fabs(d[k]) > 0) {
                    best = std::fabs(cfg.initOrient[k]);
                    len = cfg.initOrient[k] / d[k];
                }
            if (best > 1e-6) {
                c.expect(len > 0, msg(w, "points away from the given direction"));
                for (int k = 0; k < 3; k++) {
                    const double v = d[k] * len;
                    const double t = 1e-9 * (1 + std::fabs(len)) / best;
                    if (std::fabs(cfg.initOrient[k]) <= 1)
                        c.expect(std::fabs(v - cfg.initOrient[k]) <= t, msg(w, "orientation component ", k, " is ", v, " instead of ", cfg.initOrient[k]));
                    else
                        c.expect(std::fabs(v) <= 1 + t, msg(w, "random orientation component ", k, " is ", v));
                }
            } else {
                for (int k = 0; k < 3; k++)
                    if (std::fabs(cfg.initOrient[k]) <= 1)
                        c.expect(std::fabs(d[k]) <= 1e-5, msg(w, "orientation component ", k, " is ", d[k], " instead of ", cfg.initOrient[k]));
            }
        }
        if (cfg.sylinderLengthSigma > 0)
            len.add(std::log(y.length));
    }
    if (c.failed || n < 100)
        return;
    auto mean = [&](const Mean &m, double want, double sd, const std::string &what) {
        c.expect(std::fabs(m.s / m.n - want) <= 6.5 * sd / std::sqrt(double(m.n)), msg("mean of ", what, " over ", m.n, " rods is ", m.s / m.n, " instead of ", want));
    };
    auto variance = [&](const Mean &m, double mu0, double want, double sd2, const std::string &what) {
        const double v = m.s2 / m.n - 2 * mu0 * m.s / m.n + mu0 * mu0;
        c.expect(std::fabs(v - want) <= 7 * sd2 / std::sqrt(double(m.n)), msg("variance of ", what, " over ", m.n, " rods is ", v, " instead of ", want));
    };
    for (int k = 0; k < 3; k++) {
        if (cfg.initCircularX && k > 0)
            continue;
        mean(pos[k], 0.5, std::sqrt(1 / 12.0), msg("position ", k));
        variance(pos[k], 0.5, 1 / 12.0, std::sqrt(1 / 180.0), msg("position ", k));
    }
    if (cfg.initCircularX)
        mean(pairs, 0.5, std::sqrt(1 / 12.0), "squared distance from the axis of the disc");
    if (allRandom)
        for (int k = 0; k < 3; k++) {
            mean(dir[k], 0, std::sqrt(1 / 3.0), msg("direction ", k));
            mean(q2[k], 1 / 3.0, std::sqrt(4 / 45.0), msg("squared direction ", k));
        }
    if (cfg.sylinderLengthSigma > 0) {
        // logarithm: normal around log of the generator's parameter, cut at half the smallest edge; moments by quadrature
        auto moments = [&](double m, double sd, double cut, double &m1, double &m2) {
            double z = 0, a = 0, b = 0;
            const double hi = std::min((cut - m) / sd, 8.0), lo = -8;
            const int K = 4000;
            for (int i = 0; i < K; i++) {
                const double x = lo + (hi - lo) * (i + 0.5) / K, wgt = std::exp(-x * x / 2);
                z += wgt;
                a += wgt * x;
                b += wgt * x * x;
            }
            m1 = m + sd * a / z;
            m2 = sd * sd * (b / z - (a / z) * (a / z));
        };
        double m1, m2;
        moments(cfg.sylinderLength, cfg.sylinderLengthSigma, std::log(minEdge / 2), m1, m2);
        c << " [log length " << len.s / len.n << " expected " << m1 << "]";
        mean(len, m1, std::sqrt(m2), "the logarithm of the length");
        const double v = len.s2 / len.n - std::pow(len.s / len.n, 2);
        c.expect(std::fabs(v - m2) <= 8 * m2 * std::sqrt(3.0 / len.n), msg("variance of the logarithm of the length over ", len.n, " rods is ", v, " instead of ", m2));
    }
    c.label("disc", cfg.initCircularX);
    c.label("length spread", cfg.sylinderLengthSigma > 0);
    c.label("random orientation", allRandom);
}

int main(int argc, char **argv) { return sysgen::mainBody(argc, argv); }
