/** the state of the disk at every moment of a run: what a restart would find if the run were killed there (C38) */
#include "fsevents.hpp"
#include "gen_system.hpp"

#include <chrono>
#include <thread>

using namespace pbt;
using namespace sysgen;

namespace {
bool stop(Case &c) {
    int mine = c.failed, any = 0;
    MPI_Allreduce(&mine, &any, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return any;
}
using Files = std::map<std::string, std::pair<size_t, uint64_t>>; // name -> size, hash
/// files below the result folder that belong to one snapshot
Files filesOf(int id) {
    Files m;
    const std::string root = scratch() + "/result", tail = msg("_", id, ".");
    DIR *d = opendir(root.c_str());
    if (!d)
        return m;
    while (dirent *e = readdir(d)) {
        const std::string n = e->d_name;
        if (n[0] == '.')
            continue;
        DIR *f = opendir((root + "/" + n).c_str());
        if (!f)
            continue;
        while (dirent *g = readdir(f)) {
            const std::string name = g->d_name;
            if (name.find(tail) == std::string::npos)
                continue;
            const std::string t = slurp(root + "/" + n + "/" + name);
            m[n + "/" + name] = {t.size(), hashStr(t)};
        }
        closedir(f);
    }
    closedir(d);
    return m;
}
/// what a restart would read now
struct Moment {
    bool exists = false;
    std::string info; // TimeStepInfo.txt
    int id = -1;      // the snapshot it names
    Files files;
    const char *what = "";
    int count = 0; // equal moments
    bool operator==(const Moment &o) const { return exists == o.exists && info == o.info && id == o.id && files == o.files; }
};
Moment look() {
    Moment m;
    const std::string path = scratch() + "/TimeStepInfo.txt";
    struct stat st;
    m.exists = stat(path.c_str(), &st) == 0;
    if (!m.exists)
        return m;
    m.info = slurp(path);
    std::istringstream f(m.info);
    long seed, step, snap;
    if (f >> seed >> step >> snap) {
        m.id = snap;
        m.files = filesOf(snap);
    }
    return m;
}
std::vector<Moment> moments;
int events = 0, sleepAt = -1, sleepMs = 0;
void onEvent(const char *what) {
    events++;
    Moment m = look();
    m.what = what;
    if (moments.empty() || !(moments.back() == m))
        moments.push_back(m);
    moments.back().count++;
    if (events == sleepAt)
        std::this_thread::sleep_for(std::chrono::milliseconds(sleepMs));
}
struct Watch {
    Watch() { fsev::tracker().handler = onEvent; }
    ~Watch() { fsev::tracker().handler = nullptr; }
};
std::string show(const Moment &m) {
    if (!m.exists)
        return "no TimeStepInfo.txt";
    std::string t = m.info;
    std::replace(t.begin(), t.end(), '\n', '|');
    std::ostringstream o;
    o << "TimeStepInfo.txt \"" << t << "\", snapshot " << m.id << " with";
    for (auto &f : m.files)
        o << " " << f.first.substr(f.first.find('/') + 1) << ":" << f.second.first;
    return o.str();
}
} // namespace

PBT_FACET(crashpoints,
          "short runs with snapshots, restarted once; at every change of a file on any rank (opened, cut in half, written, closed, renamed) a "
          "restart must find the previous or the new snapshot, whole; non-trivial with more than ten events on this rank between two snapshots") {
    SceneOpt opt;
    opt.maxRods = 8;
    opt.mayMonolayer = true;
    opt.pLinks = 0.5;
    Scene s = scene(c, opt);
    s.cfg.conMaxIte = 10;
    s.cfg.conResTol = 1e-5;
    s.cfg.dt = c.pick({0.01, 0.1, 1e-3});
    s.cfg.rngSeed = c.below(1000);
    const int every = c.integer(1, 2);
    s.cfg.timeSnap = every * s.cfg.dt;
    if (c.chance(1, 4))
        s.cfg.KBT = 1e-3;
    const int first = c.integer(1, 4), second = c.integer(1, 3), ahead = c.chance(1, 12) ? std::max(400 / mpiSize(), 1) - c.integer(0, 2) : 0;
    c << s.show(3) << "; " << first << " + " << second << " steps, a snapshot every " << every << (ahead ? ", folder boundary" : "");
    moments.clear();
    Moment last; // a restart of the settled state before the current library call
    int most = 0, snapshots = 0;
    // the events since the previous call against the settled states before and after
    auto judge = [&](const std::string &when) {
        MPI_Barrier(MPI_COMM_WORLD);
        Moment now;
        for (int t = 0; t < 1; t++)
            now = look();
        int n = 0;
        for (auto &m : moments) {
            n += m.count;
            const bool ok = (m.exists == now.exists && m.info == now.info && m.files == now.files) ||
                            (m.exists == last.exists && m.info == last.info && m.files == last.files);
            if (!c.expect(ok, msg("killed ", when, ", after event ", n, " (", m.what, ") of rank ", mpiRank(), " a restart finds ", show(m), "; before: ",
                                  show(last), "; after: ", show(now))))
                break;
        }
        most = std::max(most, n);
        c.expect(!last.exists || now.exists, msg(when, ": TimeStepInfo.txt is gone"));
        if (now.exists && now.info != last.info)
            snapshots++;
        MPI_Barrier(MPI_COMM_WORLD);
        last = now;
        moments.clear();
        events = 0;
    };
    auto schedule = [&] { // one rank is late
        const int rank = c.below(4), at = c.integer(1, 40), ms = c.chance(1, 4) ? c.pick({2, 10}) : 0;
        sleepAt = rank == mpiRank() && ms ? at : -1;
        sleepMs = ms;
    };
    Sim sim(s, false);
    writeFile(scratch() + "/init.dat", posFileText(s));
    last = look();
    {
        sim.sys.reset(new SylinderSystem());
        {
            Watch w;
            sim->initialize(s.cfg, scratch() + "/init.dat", 0, nullptr);
        }
        judge("during initialize");
        for (int i = 0; i < ahead; i++) {
            sim->prepareStep();
            sim->writeResult();
        }
        judge("-");
        for (int k = 0; k < first && !stop(c); k++) {
            schedule();
            {
                Watch w;
                sim->prepareStep();
                sim->runStep();
            }
            judge(msg("in step ", k));
        }
        if (stop(c))
            return;
        sim.sys.reset();
    }
    if (last.exists) {
        sim.sys.reset(new SylinderSystem());
        s.cfg.boundaryPtr.clear();
        {
            Watch w;
            sim->reinitialize(s.cfg, scratch() + "/TimeStepInfo.txt", 0, nullptr, true);
        }
        judge("during the restart");
        for (int k = 0; k < second && !stop(c); k++) {
            schedule();
            {
                Watch w;
                sim->prepareStep();
                sim->runStep();
            }
            judge(msg("in step ", k, " after the restart"));
        }
    }
    c.nontrivial(snapshots > 1 && most > 10);
    c.label("three snapshots", snapshots > 2);
    c.label("over twenty events", most > 20);
    c.label("folder boundary", ahead > 0);
}

int main(int argc, char **argv) { return sysgen::mainBody(argc, argv); }
