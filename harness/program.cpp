/** the program SylinderSystem_main as a user runs it: steps and snapshots of a run, stopped and killed runs taken up again (C39) */
#include "gen_geom.hpp"

#include <dirent.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>

using namespace pbt;
using gen::A3;

namespace {
const std::string &scratch() {
    static const std::string s = getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : "";
    return s;
}
std::string slurp(const std::string &p) {
    std::ifstream f(p, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}
void spill(const std::string &p, const std::string &t) {
    std::ofstream f(p, std::ios::binary);
    f << t;
}
bool exists(const std::string &p) { return access(p.c_str(), F_OK) == 0; }
/// removes a directory below the scratch directory (never anything else)
void removeTree(const std::string &path) {
    if (scratch().size() < 6 || path.compare(0, scratch().size() + 1, scratch() + "/") != 0)
        return;
    DIR *d = opendir(path.c_str());
    if (!d)
        return;
    while (dirent *e = readdir(d)) {
        const std::string n = e->d_name;
        if (n == "." || n == "..")
            continue;
        const std::string q = path + "/" + n;
        struct stat st;
        if (lstat(q.c_str(), &st) == 0 && S_ISDIR(st.st_mode))
            removeTree(q);
        else
            unlink(q.c_str());
    }
    closedir(d);
    rmdir(path.c_str());
}

struct Setup {
    int np = 1, omp = 1;
    double dt = 0.01, snap = 0.02, KBT = 0;
    std::string head, start, nudged; // the configuration but for the total time, the initial particles, moved by 1e-9
    std::string config(double total) const { return head + msg("timeTotal: ", full(total), "\n"); }
    static std::string full(double v) {
        char b[64];
        snprintf(b, sizeof b, "%.17g", v);
        return b;
    }
};
/// runs the program in a directory; the exit status (124: it did not end in time)
int launch(const Setup &s, const std::string &dir, double total, int killRank = -1, long killEvent = -1) {
    spill(dir + "/RunConfig.yaml", s.config(total));
    std::string cmd = "cd '" + dir + "' && ";
    cmd += msg("OMP_NUM_THREADS=", s.omp, " PBT_EVENTS='", dir, "/events' ");
    if (killRank >= 0)
        cmd += msg("PBT_KILL_RANK=", killRank, " PBT_KILL_EVENT=", killEvent, " ");
    cmd += "timeout -k 3 100 ";
    if (s.np > 1)
        cmd += msg("mpirun -np ", s.np, " ");
    cmd += std::string("'") + getenv("PBT_PROGRAM") + "' >>log 2>&1 </dev/null";
    const int st = system(cmd.c_str());
    return WIFEXITED(st) ? WEXITSTATUS(st) : 128 + WTERMSIG(st);
}
void prepare(const Setup &s, const std::string &dir) {
    removeTree(dir);
    mkdir(dir.c_str(), 0755);
    spill(dir + "/SylinderInitial.dat", s.start);
}
struct Snap {
    std::string path, time; // as written
    std::map<int, std::array<double, 7>> rods; // id -> radius, end points
    std::multiset<std::pair<int, int>> links;
    std::string bad;
};
/// all text snapshots of a run: number -> content
std::map<int, Snap> snapshots(const std::string &dir) {
    std::map<int, Snap> m;
    DIR *d = opendir((dir + "/result").c_str());
    if (!d)
        return m;
    while (dirent *e = readdir(d)) {
        const std::string folder = dir + "/result/" + e->d_name;
        if (e->d_name[0] == '.')
            continue;
        DIR *f = opendir(folder.c_str());
        if (!f)
            continue;
        while (dirent *g = readdir(f)) {
            int id;
            if (sscanf(g->d_name, "SylinderAscii_%d.dat", &id) != 1)
                continue;
            Snap s;
            s.path = folder + "/" + g->d_name;
            std::istringstream in(slurp(s.path));
            std::string line, n;
            std::getline(in, n);
            std::getline(in, s.time);
            while (std::getline(in, line)) {
                int gid, a, b;
                std::array<double, 7> v;
                char t;
                if (sscanf(line.c_str(), " L %d %d", &a, &b) == 2) {
                    s.links.insert({a, b});
                } else if (sscanf(line.c_str(), " %c %d %lf %lf %lf %lf %lf %lf %lf", &t, &gid, &v[0], &v[1], &v[2], &v[3], &v[4], &v[5], &v[6]) == 9) {
                    if (!s.rods.emplace(gid, v).second)
                        s.bad = msg("particle ", gid, " twice");
                } else {
                    s.bad = "line " + line;
                }
            }
            if (m.count(id))
                s.bad = msg("two files of snapshot ", id);
            m[id] = s;
        }
        closedir(f);
    }
    closedir(d);
    return m;
}
/// the files of the snapshots up to a number: path -> which file it is and when it was written
std::map<std::string, std::string> identities(const std::string &dir, int last) {
    std::map<std::string, std::string> m;
    DIR *d = opendir((dir + "/result").c_str());
    while (dirent *e = d ? readdir(d) : nullptr) {
        const std::string folder = dir + "/result/" + e->d_name;
        DIR *f = e->d_name[0] == '.' ? nullptr : opendir(folder.c_str());
        while (dirent *g = f ? readdir(f) : nullptr) {
            const std::string name = g->d_name;
            const size_t dot = name.rfind('.'), low = name.rfind('_');
            struct stat s;
            if (dot == std::string::npos || low == std::string::npos || low > dot || atoi(name.c_str() + low + 1) > last || stat((folder + "/" + name).c_str(), &s))
                continue;
            m[folder + "/" + name] = msg(s.st_ino, " ", s.st_size, " ", s.st_mtim.tv_sec, ".", s.st_mtim.tv_nsec);
        }
        if (f)
            closedir(f);
    }
    if (d)
        closedir(d);
    return m;
}
struct Info {
    long seed = -1, step = -1, snap = -1;
    std::string name;
};
Info info(const std::string &dir) {
    Info i;
    std::istringstream f(slurp(dir + "/TimeStepInfo.txt"));
    f >> i.seed >> i.step >> i.snap >> i.name;
    return i;
}
std::string tailOf(const std::string &dir) {
    std::string t = slurp(dir + "/log");
    return t.size() > 1200 ? t.substr(t.size() - 1200) : t;
}

Setup generate(Case &c, double &size) {
    Setup s;
    s.np = c.pick({1, 1, 1, 2, 3});
    s.omp = c.pick({1, 1, 2});
    s.dt = c.pick({0.01, 0.1, 0.001, 0.03}) * (c.chance(1, 3) ? c.generic(0.5, 1) : 1.0);
    const int every = c.integer(1, 4);
    s.snap = s.dt * every;
    s.KBT = c.chance(1, 4) ? 1e-3 : 0;
    const int n = c.sized(1, 10);
    const int pbc = c.below(8);
    const bool spheres = c.chance(1, 2), mono = spheres && c.chance(1, 4);
    const double e = spheres ? c.pick({4.0, 8.0, 20.0}) : c.pick({12.0, 20.0});
    size = e;
    std::ostringstream o;
    o.precision(17);
    auto flag = [&](int k) { return (pbc >> k & 1) ? "true" : "false"; };
    o << "rngSeed: " << c.below(1000) << "\nsimBoxLow: [0, 0, 0]\nsimBoxHigh: [" << e << ", " << e << ", " << e << "]\nsimBoxPBC: [" << flag(0) << ", "
      << flag(1) << ", " << flag(2) << "]\nmonolayer: " << (mono ? "true" : "false") << "\nviscosity: " << c.pick({1.0, 0.3}) << "\nKBT: " << s.KBT
      << "\nsylinderNumber: 1\nsylinderLength: 1\nsylinderDiameter: 0.5\nsylinderColBuf: 0.3\ndt: " << s.dt << "\ntimeSnap: " << s.snap
      << "\nconResTol: 1e-8\nconMaxIte: 2000\nconSolverChoice: " << c.below(2) << "\ninitPreSteps: " << c.pick({0, 0, 2})
      << "\nlinkKappa: " << c.pick({1.0, 10.0}) << "\nlinkGap: 0.1\nlogLevel: " << c.pick({6, 3, 2}) << "\n";
    std::ostringstream p, nudged;
    p.precision(17);
    nudged.precision(17);
    p << "# start\n#\n";
    // clusters of spheres, or crossing pairs of rods apart from each other: many rods in contact end up parallel, where
    // the point of contact is arbitrary and a run cannot be reproduced to more than its rounding errors
    std::vector<A3> at, axis;
    std::ostringstream links;
    double lowest = 1e9;
    const bool linked = c.chance(1, 2);
    for (int i = 0; i < n; i++) {
        A3 x, u;
        double l = 0;
        if (spheres) {
            u = {0, 0, 1};
            const int o = i ? int(c.below(i)) : 0;
            const bool touch = i && c.chance(2, 3);
            bool ok = false;
            for (int t = 0; t < 20 && !ok; t++) { // no deep overlap
                x = touch ? gen::add(at[o], gen::dir(c), c.generic(0.4, 0.6)) : gen::vec(c, 0, e);
                if (mono)
                    x[2] = e / 2;
                ok = true;
                for (auto &q : at) {
                    A3 d = gen::add(x, q, -1);
                    for (int k = 0; k < 3; k++)
                        if (pbc >> k & 1)
                            d[k] -= e * std::round(d[k] / e);
                    ok = ok && gen::nrm(d) > 0.39;
                }
            }
            if (!ok)
                break;
            if (touch && linked)
                links << "L " << o << " " << i << "\n";
        } else if (i % 2 == 0) {
            const int cell = i / 2;
            x = {e / 4 + e / 2 * (cell % 2), e / 4 + e / 2 * (cell / 2 % 2), e / 4 + e / 2 * (cell / 4 % 2)};
            x = gen::add(x, gen::vec(c, -0.05 * e, 0.05 * e));
            u = gen::dir(c);
            l = c.generic(0.6, 1.2);
        } else { // across the one before, or its tip on the side of the other
            const A3 v = axis[i - 1], q = gen::perp(v), w = gen::cross(v, q);
            l = c.generic(0.6, 1.2);
            const double d = c.generic(0.45, 0.56);
            x = gen::add(at[i - 1], v, c.generic(-0.2, 0.2));
            u = gen::normalized(gen::add(w, v, c.generic(-0.5, 0.5)));
            x = c.chance(1, 2) ? gen::add(gen::add(x, q, d), u, c.generic(-0.2, 0.2)) : gen::add(gen::add(x, w, d), u, l / 2);
            if (linked)
                links << "L " << i - 1 << " " << i << "\n";
        }
        lowest = std::min(lowest, x[2] - 0.5 * l * std::fabs(u[2]));
        at.push_back(x);
        axis.push_back(u);
        const A3 a = gen::add(x, u, -l / 2), b = gen::add(x, u, l / 2);
        const std::string type = c.chance(1, 8) ? "S " : "C ";
        const double h = 1e-9 * std::sin(i + 1.0);
        nudged << type << i << " 0.25 " << a[0] + h << " " << a[1] - h << " " << a[2] << " " << (l > 0 ? b[0] : a[0] + h) << " " << (l > 0 ? b[1] + h : a[1] - h) << " " << (l > 0 ? b[2] + h : a[2]) << " " << i % 3 << "\n";
        p << type << i << " 0.25 " << a[0] << " " << a[1] << " " << a[2] << " " << b[0] << " " << b[1] << " " << b[2] << " " << i % 3 << "\n";
    }
    p << links.str();
    if (!mono && !(pbc & 4) && c.chance(1, 4)) // the lowest particle touches a wall
        o << "boundaries:\n  - type: wall\n    center: [0, 0, " << lowest - c.generic(0.23, 0.27) << "]\n    norm: [0, 0, 1]\n";
    s.head = o.str();
    s.start = p.str();
    s.nudged = "#\n#\n" + nudged.str() + links.str();
    return s;
}
} // namespace

PBT_FACET(program,
          "the program on a generated configuration: run to the end; run to a part of the time and taken up; killed (SIGKILL) at one or two random "
          "changes of a file on a random rank and taken up; all runs must leave the same snapshots; non-trivial with three snapshots and an interruption") {
    double size = 1;
    const Setup s = generate(c, size);
    const int steps = c.integer(2, 9);
    const double total = s.dt * (c.chance(1, 3) ? steps - c.generic(0.1, 0.9) : double(steps));
    const int part = c.integer(1, steps);
    const double partial = s.dt * part;
    const uint64_t kill1 = c.seed64(), kill2 = c.chance(1, 3) ? c.seed64() : 0;
    const int rank1 = c.below(s.np), rank2 = c.below(s.np);
    c << s.np << " ranks, " << s.omp << " threads, dt " << s.dt << " total " << total << " snapshot interval " << s.snap << ", first part to " << partial << "; "
      << s.head << s.start;
    // what has to be there
    int n = 0;
    while (n * s.dt < total)
        n++;
    const int every = std::max(1, int(std::lround(s.snap / s.dt)));
    const std::string A = scratch() + "/full", B = scratch() + "/part", K = scratch() + "/killed";
    prepare(s, A);
    prepare(s, B);
    prepare(s, K);
    auto settled = [&](int st, const std::string &dir, const std::string &what) {
        c.require(st != 124, msg(what, " does not end"));
        c.require(st == 0, msg(what, " ends with status ", st, ": ", tailOf(dir)));
    };
    int st = 0, stPart = 0;
    std::thread tA([&] { st = launch(s, A, total); });
    std::thread tB([&] { stPart = launch(s, B, partial); });
    tA.join();
    tB.join();
    settled(st, A, "the run");
    settled(stPart, B, "the first part of the run");
    auto sched = [&](const std::string &dir, int n, const std::string &what) {
        auto m = snapshots(dir);
        const int want = (n - 1) / every + 1;
        c.require((int)m.size() == want && (!m.size() || m.rbegin()->first == want - 1), msg(what, " of ", n, " steps leaves ", m.size(), " snapshots instead of ", want));
        const Info i = info(dir);
        c.require(i.step == (want - 1) * every && i.snap == want - 1 && i.name == msg("Sylinder_", want - 1, ".pvtp"),
                  msg(what, ": TimeStepInfo.txt says step ", i.step, ", snapshot ", i.snap, ", ", i.name));
        for (auto &p : m) {
            c.require(p.second.bad.empty(), msg(what, ", snapshot ", p.first, ": ", p.second.bad));
            const double t = atof(p.second.time.c_str());
            c.require(std::fabs(t - p.first * every * s.dt) < 1e-5 * (1 + total), msg(what, ", snapshot ", p.first, " has the time ", p.second.time));
        }
        return m;
    };
    const auto full = sched(A, n, "the run");
    int nPart = 0;
    while (nPart * s.dt < partial)
        nPart++;
    sched(B, nPart, "the first part of the run");
    // again, to the end
    const int before = (nPart - 1) / every; // the snapshot it is taken up from
    std::map<std::string, std::string> old;
    for (auto &p : snapshots(B))
        old[p.second.path] = slurp(p.second.path);
    const auto oldFiles = identities(B, before);
    std::vector<std::string> rewritten; // snapshots before the one the killed run was taken up from, written again
    auto again = [](const std::map<std::string, std::string> &was, const std::string &dir, int last) {
        const auto is = identities(dir, last);
        for (auto &p : was) {
            auto q = is.find(p.first);
            if (q == is.end() || q->second != p.second)
                return p.first;
        }
        return std::string();
    };
    long events1 = atol(slurp(A + msg("/events.", rank1)).c_str()), events2 = atol(slurp(A + msg("/events.", rank2)).c_str());
    bool killed = false;
    int took1 = -1, took2 = -1, stPart2 = 0, stKill = 0;
    std::thread t2([&] { stPart2 = launch(s, B, total); });
    std::thread t3([&] {
        if (events1 > 0) {
            killed |= launch(s, K, total, rank1, 1 + kill1 % events1) != 0;
            took1 = exists(K + "/TimeStepInfo.txt") ? info(K).snap : -1;
        }
        auto was = identities(K, took1);
        if (kill2 && events2 > 0) {
            killed |= launch(s, K, total, rank2, 1 + kill2 % events2) != 0;
            took2 = exists(K + "/TimeStepInfo.txt") ? info(K).snap : -1;
            rewritten.push_back(again(was, K, took1));
            was = identities(K, took2);
        }
        stKill = launch(s, K, total);
        rewritten.push_back(again(was, K, took2 >= 0 ? took2 : took1));
    });
    t2.join();
    t3.join();
    c << " killed rank " << rank1 << " at event " << (events1 > 0 ? 1 + kill1 % events1 : 0) << " of " << events1 << " (restart from snapshot " << took1 << ")";
    if (kill2)
        c << ", rank " << rank2 << " at event " << (events2 > 0 ? 1 + kill2 % events2 : 0) << " (snapshot " << took2 << ")";
    settled(stPart2, B, "the second part of the run");
    settled(stKill, K, "the run after it was killed");
    for (auto &p : old)
        c.require(slurp(p.first) == p.second, msg("the second part of the run changed ", p.first));
    rewritten.push_back(again(oldFiles, B, before));
    for (auto &p : rewritten)
        c.require(p.empty(), msg("a run taken up from a later snapshot wrote again ", p));
    // a run taken up from the last snapshot does the step after it, and those up to the total time
    const int nResumed = std::max(n, before * every + 1);
    const auto resumed = sched(B, nResumed, "the run in two parts");
    const auto revived = sched(K, n, "the run killed and taken up");
    double worst = 0;
    // how far a run ends from itself when it starts 1e-9 away: chaotic systems are no test of a restart
    std::map<int, Snap> control;
    auto sensitivity = [&](int id) -> double {
        if (control.empty()) {
            const std::string P = scratch() + "/nudged";
            prepare(s, P);
            spill(P + "/SylinderInitial.dat", s.nudged);
            if (launch(s, P, total))
                return 1e9;
            control = snapshots(P);
        }
        double d = 0;
        const auto f = full.find(id);
        const auto g = control.find(id);
        if (f == full.end() || g == control.end())
            return 1e9;
        for (auto &r : f->second.rods) {
            auto q = g->second.rods.find(r.first);
            if (q == g->second.rods.end())
                return 1e9;
            for (int k = 0; k < 7; k++)
                d = std::max(d, std::fabs(q->second[k] - r.second[k]));
        }
        return d;
    };
    auto same = [&](const std::map<int, Snap> &m, int exact, const std::string &what) {
        for (auto &p : full) {
            auto it = m.find(p.first);
            c.require(it != m.end(), msg(what, ": snapshot ", p.first, " is missing"));
            c.require(it->second.links == p.second.links, msg(what, ": the links of snapshot ", p.first, " are not those of the run without interruption"));
            c.require(it->second.rods.size() == p.second.rods.size(), msg(what, ": snapshot ", p.first, " has ", it->second.rods.size(), " particles"));
            for (auto &r : p.second.rods) {
                auto q = it->second.rods.find(r.first);
                c.require(q != it->second.rods.end(), msg(what, ": snapshot ", p.first, " lacks particle ", r.first));
                if (s.KBT > 0 && p.first > exact)
                    continue;
                for (int k = 0; k < 7; k++) {
                    const double d = std::fabs(q->second[k] - r.second[k]);
                    worst = std::max(worst, d);
                    if (d >= 1e-5 * (1 + size) && s.KBT == 0 && sensitivity(p.first) > 1e-3 * d)
                        c.discard();
                    c.require(d < 1e-5 * (1 + size), msg(what, ": particle ", r.first, " of snapshot ", p.first, " is off by ", d));
                }
            }
        }
    };
    same(resumed, before, "taken up");
    same(revived, std::min(took1 < 0 ? 1 << 20 : took1, took2 < 0 ? 1 << 20 : took2), "killed and taken up");
    c.nontrivial(full.size() > 2 && killed && part < steps);
    c.label("killed", killed);
    c.label("off by 1e-7", worst > 1e-7);
    c.label("off by 1e-6", worst > 1e-6);
    c.label("off by 1e-5", worst > 1e-5);
    c.label("killed twice", killed && kill2);
    c.label("restart from a snapshot", took1 >= 0);
    c.label("Brownian", s.KBT > 0);
    c.label("several ranks", s.np > 1);
}

int main(int argc, char **argv) { return pbt::run(argc, argv); }
