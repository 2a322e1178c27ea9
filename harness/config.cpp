/** boundaries (C02) and configuration files (C22) */
#include "gen_geom.hpp"

#include "Boundary/Boundary.hpp"
#include "Sylinder/SylinderConfig.hpp"
#include "Util/Logger.hpp"

#include "ref_boundary.hpp"

#include <memory>
#include <sys/wait.h>

using namespace pbt;
using gen::A3;

// ------------------------------------------------------------------------------------------------- boundaries
static double g_scale(Case &c) { return c.pick({1.0, 1.0, 10.0, 0.1, 1000.0}); }

PBT_FACET(boundaryproj,
          "a wall, tube or spherical shell (from the constructor or from YAML text) and query points on both sides, near "
          "the surface, near and exactly on the centre or axis; non-trivial when the query is off the surface") {
    const double scale = g_scale(c);
    RefBoundary b = RefBoundary::generate(c, scale);
    std::unique_ptr<Boundary> ptr;
    const bool yaml = c.chance(1, 2);
    if (yaml) {
        ptr = b.makeYaml(c);
    } else {
        ptr = b.makeCtor();
    }
    const int nq = 4;
    for (int iq = 0; iq < nq; iq++) {
        const A3 q = b.query(c, scale);
        c << b.show() << (yaml ? " yaml" : " ctor") << " q=" << gen::show(q) << "; ";
        double P[3] = {7e77, 7e77, 7e77}, D[3] = {7e77, 7e77, 7e77};
        ptr->project(q.data(), P, D);
        double S = gen::nrm(q) + gen::nrm(b.center) + b.radius + scale;
        c.require(finite(P, 3) && finite(D, 3), msg("projection is not finite: project ", gen::show({P[0], P[1], P[2]}),
                                                    " delta ", gen::show({D[0], D[1], D[2]})));
        const double tol = 2e-13 * S;
        const ref::V3 vq(q.data()), vp(P), vd(D);
        const double clearance = b.clearance(vq); // > 0 on the allowed side
        c.label(clearance > 0 ? "allowed side" : "forbidden side");
        c.label(b.name());
        c.nontrivial(std::fabs(clearance) > 1e-9 * scale);
        c.require(std::fabs(double(b.clearance(vp))) <= tol,
                  msg("projected point is not on the boundary: off by ", double(b.clearance(vp))));
        c.require(std::fabs(double((vq - vp).norm()) - std::fabs(clearance)) <= tol,
                  msg("projected point is at ", double((vq - vp).norm()), ", the boundary at ", std::fabs(clearance)));
        c.require(std::fabs(double(vd.norm()) - std::fabs(clearance)) <= tol,
                  msg("offset length ", double(vd.norm()), ", distance ", std::fabs(clearance)));
        // offset = distance * unit normal towards the allowed side
        const ref::V3 n = b.normalAt(vp);
        c.require(double((vd - n * std::fabs(clearance)).norm()) <= 4 * tol,
                  msg("offset ", gen::show({D[0], D[1], D[2]}), " is not along the allowed-side normal ",
                      gen::show({double(n.x), double(n.y), double(n.z)}), " with length ", std::fabs(clearance)));
        // the library's own consistency check agrees on good and bad answers (its tolerance is absolute: order one sizes)
        if (S < 60 && std::fabs(clearance) > 1e-2 && b.radius > 1e-2 && c.chance(1, 8)) {
            c.require(ptr->check(q.data(), P, D), "check() rejects a correct projection");
            double P2[3] = {P[0], P[1], P[2]}, D2[3] = {D[0], D[1], D[2]};
            const int kind = c.below(3);
            if (kind == 0) { // off the surface, along the normal
                double h = c.pick({1e-3, -1e-3, 0.1});
                for (int k = 0; k < 3; k++)
                    P2[k] += h * double(n[k]);
            } else if (kind == 1) {
                for (int k = 0; k < 3; k++)
                    D2[k] *= 1.01;
            } else {
                for (int k = 0; k < 3; k++)
                    D2[k] *= -1;
            }
            c.require(!ptr->check(q.data(), P2, D2), msg("check() accepts a wrong projection (kind ", kind, ")"));
        }
    }
}

// ------------------------------------------------------------------------------------------------- configuration
namespace {
struct Entry {
    std::string key;
    std::vector<double> v; // numeric value(s)
    char type;             // d double, i int, u unsigned, b bool
    bool optional;
};
std::string num(Case &c, double v, char type) {
    char b[64];
    if (type == 'b') {
        return v != 0 ? c.pick<std::string>({"true", "True", "yes", "on"}) : c.pick<std::string>({"false", "no", "False", "off"});
    }
    if (type == 'i') {
        snprintf(b, sizeof b, "%d", int(v));
        return b;
    }
    if (type == 'u') {
        snprintf(b, sizeof b, "%u", unsigned(v));
        return b;
    }
    snprintf(b, sizeof b, c.below(2) ? "%.17g" : "%.16e", v);
    return b;
}
} // namespace

static std::vector<Entry> genEntries(Case &c) {
    std::vector<Entry> e;
    auto add = [&](const char *k, char t, bool opt, int n, std::function<double()> g) {
        Entry x;
        x.key = k;
        x.type = t;
        x.optional = opt;
        for (int i = 0; i < n; i++)
            x.v.push_back(g());
        e.push_back(x);
    };
    auto pos = [&] { return c.chance(1, 10) ? 0.0 : std::exp(c.generic(-12, 12)); };
    auto any = [&] { return c.chance(1, 10) ? double(c.integer(-3, 3)) : c.generic(-1000, 1000); };
    auto boolean = [&] { return double(c.below(2)); };
    add("rngSeed", 'u', false, 1, [&] { return double(c.below(4294967296ULL)); });
    add("simBoxLow", 'd', false, 3, any);
    add("simBoxHigh", 'd', false, 3, any);
    add("simBoxPBC", 'b', false, 3, boolean);
    add("viscosity", 'd', false, 1, pos);
    add("KBT", 'd', false, 1, pos);
    add("sylinderNumber", 'i', false, 1, [&] { return double(c.below(2147483647)); });
    add("sylinderLength", 'd', false, 1, pos);
    add("sylinderDiameter", 'd', false, 1, pos);
    add("dt", 'd', false, 1, pos);
    add("timeTotal", 'd', false, 1, pos);
    add("timeSnap", 'd', false, 1, pos);
    add("conResTol", 'd', false, 1, pos);
    add("conMaxIte", 'i', false, 1, [&] { return double(c.below(2147483647)); });
    add("conSolverChoice", 'i', false, 1, [&] { return double(c.below(6)); });
    add("logLevel", 'i', true, 1, [&] { return double(c.below(7)); });
    add("timerLevel", 'i', true, 1, [&] { return double(c.below(7)); });
    add("monolayer", 'b', true, 1, boolean);
    add("initBoxLow", 'd', true, 3, any);
    add("initBoxHigh", 'd', true, 3, any);
    add("initOrient", 'd', true, 3, any);
    add("initCircularX", 'b', true, 1, boolean);
    add("initPreSteps", 'i', true, 1, [&] { return double(c.below(1000)); });
    add("linkKappa", 'd', true, 1, pos);
    add("linkGap", 'd', true, 1, pos);
    add("sylinderFixed", 'b', true, 1, boolean);
    add("sylinderLengthSigma", 'd', true, 1, any);
    add("sylinderDiameterColRatio", 'd', true, 1, pos);
    add("sylinderLengthColRatio", 'd', true, 1, pos);
    add("sylinderColBuf", 'd', true, 1, pos);
    return e;
}

static std::vector<double> fieldOf(const SylinderConfig &s, const std::string &k) {
    auto a3 = [](const double *p) { return std::vector<double>{p[0], p[1], p[2]}; };
#define F1(name)                                                                                                       \
    if (k == #name)                                                                                                    \
        return {double(s.name)};
#define F3(name)                                                                                                       \
    if (k == #name)                                                                                                    \
        return a3(s.name);
    F1(rngSeed) F3(simBoxLow) F3(simBoxHigh) F1(viscosity) F1(KBT) F1(sylinderNumber) F1(sylinderLength)
    F1(sylinderDiameter) F1(dt) F1(timeTotal) F1(timeSnap) F1(conResTol) F1(conMaxIte) F1(conSolverChoice) F1(logLevel)
    F1(timerLevel) F1(monolayer) F3(initBoxLow) F3(initBoxHigh) F3(initOrient) F1(initCircularX) F1(initPreSteps)
    F1(linkKappa) F1(linkGap) F1(sylinderFixed) F1(sylinderLengthSigma) F1(sylinderDiameterColRatio)
    F1(sylinderLengthColRatio) F1(sylinderColBuf)
    if (k == "simBoxPBC")
        return {double(s.simBoxPBC[0]), double(s.simBoxPBC[1]), double(s.simBoxPBC[2])};
    return {};
}

static std::vector<double> defaultOf(const std::string &k, std::map<std::string, std::vector<double>> &given) {
    // values documented in SylinderConfig.hpp / used when a key is absent
    if (k == "logLevel")
        return {2}; // spdlog info
    if (k == "timerLevel")
        return given["logLevel"];
    if (k == "monolayer" || k == "initCircularX" || k == "sylinderFixed")
        return {0};
    if (k == "initBoxLow")
        return given["simBoxLow"];
    if (k == "initBoxHigh")
        return given["simBoxHigh"];
    if (k == "initOrient")
        return {2, 2, 2};
    if (k == "initPreSteps")
        return {100};
    if (k == "linkKappa")
        return {100};
    if (k == "linkGap")
        return {0.01};
    if (k == "sylinderLengthSigma")
        return {-1};
    if (k == "sylinderDiameterColRatio" || k == "sylinderLengthColRatio")
        return {1};
    if (k == "sylinderColBuf")
        return {0.3};
    return {};
}

static std::string scratch() {
    const char *s = getenv("PBT_SCRATCH");
    return s ? s : ".";
}

PBT_FACET(configfile,
          "a configuration file with random values, random key order, random subset of the optional keys, flow or block "
          "lists, comments, unknown keys and boundaries; sometimes a required key is missing or a list has the wrong "
          "length; non-trivial when at least one optional key is absent and at least one is given") {
    auto entries = genEntries(c);
    std::map<std::string, std::vector<double>> given;
    std::vector<std::pair<std::string, std::string>> text;
    std::vector<std::string> absent, required;
    for (auto &e : entries) {
        if (e.optional && !c.chance(1, 2)) {
            absent.push_back(e.key);
            continue;
        }
        if (!e.optional)
            required.push_back(e.key);
        given[e.key] = e.v;
        std::string s;
        if (e.v.size() == 1) {
            s = " " + num(c, e.v[0], e.type);
        } else if (c.below(2)) {
            s = " [";
            for (size_t i = 0; i < e.v.size(); i++)
                s += (i ? ", " : "") + num(c, e.v[i], e.type);
            s += "]";
        } else {
            for (size_t i = 0; i < e.v.size(); i++)
                s += "\n  - " + num(c, e.v[i], e.type);
        }
        if (c.chance(1, 6))
            s += " # note: " + c.str(10, "abc: #[]{}");
        text.push_back({e.key, e.key + ":" + s + "\n"});
    }
    // boundaries
    std::vector<RefBoundary> bs;
    const bool hasB = c.chance(1, 2);
    if (hasB) {
        int n = c.integer(0, 4);
        std::string s = n ? "boundaries:\n" : "boundaries: []\n";
        for (int i = 0; i < n; i++) {
            bs.push_back(RefBoundary::generate(c, 1.0));
            s += bs.back().yamlItem(c, "  ");
        }
        text.push_back({"boundaries", s});
    }
    if (c.chance(1, 4))
        text.push_back({"userKey", "userKey: [1, 2]\n"});
    // order
    for (size_t i = text.size(); i > 1; i--)
        std::swap(text[i - 1], text[i - 1 - c.below(i)]);
    const int bad = c.below(10); // 8: a required key missing, 9: a list of the wrong length
    std::string victim;
    std::string file;
    if (bad == 8) {
        victim = required[c.below(required.size())];
    } else if (bad == 9) {
        victim = c.pick<std::string>({"simBoxLow", "simBoxHigh", "simBoxPBC"});
    }
    for (auto &t : text) {
        if (t.first == victim) {
            if (bad == 8)
                continue;
            file += victim + ": " + c.pick<std::string>({"[1, 0]", "[1, 0, 1, 0]", "[]", "[0]"}) + "\n";
            continue;
        }
        file += t.second;
    }
    const std::string path = scratch() + "/config.yaml";
    {
        std::ofstream o(path);
        o << file;
    }
    c << "absent:";
    for (auto &a : absent)
        c << " " << a;
    c << (victim.empty() ? "" : "; broken: " + victim) << "; boundaries " << bs.size();
    if (!victim.empty()) {
        c.label(bad == 8 ? "required key missing" : "wrong list length");
        c.nontrivial();
        fflush(stdout);
        pid_t pid = fork();
        if (pid == 0) {
            int fd = open("/dev/null", O_WRONLY);
            dup2(fd, 1);
            dup2(fd, 2);
            try {
                SylinderConfig cfg(path);
            } catch (...) {
                _exit(9);
            }
            _exit(0);
        }
        int st = 0;
        waitpid(pid, &st, 0);
        c.require(WIFEXITED(st) && WEXITSTATUS(st) != 0, msg("a file without a usable ", victim, " is accepted, status ", st));
        return;
    }
    c.nontrivial(!absent.empty() && absent.size() < 15);
    SylinderConfig cfg(path);
    for (auto &e : entries) {
        std::vector<double> want = given.count(e.key) ? given[e.key] : defaultOf(e.key, given);
        if (!given.count(e.key))
            given[e.key] = want;
        std::vector<double> got = fieldOf(cfg, e.key);
        c.require(got == want, msg(e.key, " is ", got.empty() ? 0 : got[0], got.size() > 1 ? got[1] : 0, got.size() > 2 ? got[2] : 0,
                                   ", the file says ", want[0], want.size() > 1 ? want[1] : 0, want.size() > 2 ? want[2] : 0));
    }
    c.require(cfg.boundaryPtr.size() == bs.size(), msg(cfg.boundaryPtr.size(), " boundaries from ", bs.size()));
    for (size_t i = 0; i < bs.size(); i++) {
        for (int k = 0; k < 3; k++) {
            A3 q = bs[i].query(c, 1.0);
            double P[3], D[3];
            cfg.boundaryPtr[i]->project(q.data(), P, D);
            const ref::V3 vq(q.data()), vp(P), vd(D);
            double cl = bs[i].clearance(vq);
            double S = gen::nrm(q) + gen::nrm(bs[i].center) + bs[i].radius + 1;
            c.require(std::fabs(double((vq - vp).norm()) - std::fabs(cl)) < 1e-11 * S &&
                          double((vd - bs[i].normalAt(vp) * std::fabs(cl)).norm()) < 1e-11 * S,
                      msg("boundary ", i, " is not the one in the file: ", bs[i].show(), " query ", gen::show(q)));
        }
    }
    c.label("boundaries", !bs.empty());
}

int main(int argc, char **argv) {
    spdlog::set_level(spdlog::level::off);
    return pbt::run(argc, argv);
}
