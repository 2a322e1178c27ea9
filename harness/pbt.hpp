/**
 * Minimal property-based testing engine used by every harness in /verif.
 *
 * A generated case is a finite sequence of bounded integer draws ("choices").  Every random decision of a
 * property goes through Case::below(), so a case is a pure function of its choice sequence: recording the choices is
 * enough to replay it, and shrinking works on the sequence (delete chunks, zero chunks, minimise single values).
 * Draw sources: splitmix64 seeded by (seed, facet, case index) when exploring, a recorded list when replaying
 * (an exhausted list yields 0, the simplest value).
 *
 * MPI: all ranks run the same generator and therefore hold the same choices; the verdict of a case is reduced over the
 * ranks, so that exploring, shrinking and stopping stay in lock step.
 *
 * A progress file (mmap) always holds the choices of the case being run, so that a crash, an exit() or a hang inside
 * the code under test is still turned into a replayable case by the runner.
 */
#pragma once
#include <algorithm>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <initializer_list>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

#include <fcntl.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <unistd.h>

#ifdef PBT_MPI
#include <mpi.h>
#endif

namespace pbt {

struct Discard {};
struct Failure {
    std::string msg;
};

inline uint64_t splitmix(uint64_t &s) {
    uint64_t z = (s += 0x9e3779b97f4a7c15ULL);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
    return z ^ (z >> 31);
}

inline uint64_t hashStr(const std::string &s, uint64_t h = 1469598103934665603ULL) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ULL;
    }
    return h;
}

// ------------------------------------------------------------------------------------------ progress file
struct Progress {
    static constexpr uint64_t MAXCHOICE = 500000;
    uint64_t magic;
    uint64_t caseIndex;
    uint64_t running; // 1 while inside a case
    uint64_t beat;    // increments with every executed case (also while shrinking)
    uint64_t nChoice;
    char facet[64];
    uint64_t choice[MAXCHOICE];
};
inline Progress *&progress() {
    static Progress *p = nullptr;
    return p;
}

// ------------------------------------------------------------------------------------------ one case
class Case {
  public:
    std::vector<uint64_t> choices; ///< consumed so far
    const std::vector<uint64_t> *replay = nullptr;
    uint64_t state = 0;
    size_t index = 0; ///< case index within the facet (drives size)
    bool failed = false;
    std::string message;
    bool isNontrivial = false;
    std::set<std::string> labels;
    std::ostringstream noteStream;
    bool wantNote = false;

    uint64_t below(uint64_t n) { // uniform in [0,n)
        uint64_t v;
        if (n <= 1) {
            v = 0;
        } else if (replay) {
            v = choices.size() < replay->size() ? (*replay)[choices.size()] : 0;
            v %= n;
        } else {
            v = splitmix(state);
            if (n < (1ULL << 32)) {
                v = ((v >> 32) * n) >> 32;
            } else {
                v %= n;
            }
        }
        if (Progress *p = progress()) {
            if (p->nChoice < Progress::MAXCHOICE)
                p->choice[p->nChoice++] = v;
        }
        choices.push_back(v);
        return v;
    }
    int64_t integer(int64_t lo, int64_t hi) { return lo + int64_t(below(uint64_t(hi - lo) + 1)); } // inclusive
    bool chance(int num, int den) { return below(den) >= uint64_t(den - num); } // false is simplest
    double u01() { return double(below(1ULL << 53)) * (1.0 / 9007199254740992.0); }
    /// real in [lo,hi]; one in eight draws lies on a coarse grid (coincidences, exact zeros)
    double real(double lo, double hi) {
        if (below(8) == 0) {
            uint64_t k = below(17);
            // order the grid so that small choices are simple: mid, lo, hi, then the rest
            static const int ord[17] = {8, 0, 16, 4, 12, 2, 6, 10, 14, 1, 3, 5, 7, 9, 11, 13, 15};
            return lo + (hi - lo) * (ord[k] / 16.0);
        }
        return lo + (hi - lo) * u01();
    }
    /// real in [lo,hi], never on the coarse grid on purpose
    double generic(double lo, double hi) { return lo + (hi - lo) * u01(); }
    /// log uniform in [lo,hi], lo>0
    double logReal(double lo, double hi) { return std::exp(real(std::log(lo), std::log(hi))); }
    template <class T>
    T pick(std::initializer_list<T> l) {
        return *(l.begin() + below(l.size()));
    }
    template <class T>
    const T &pick(const std::vector<T> &l) {
        return l[below(l.size())];
    }
    /// size that grows with the case index: in [lo,hi]
    int64_t sized(int64_t lo, int64_t hi) {
        double f = std::min(1.0, (1 + index % 60) / 50.0);
        int64_t h = lo + std::max<int64_t>(0, int64_t(std::llround((hi - lo) * f)));
        return lo + int64_t(below(uint64_t(std::max<int64_t>(h, lo) - lo) + 1));
    }
    std::string str(size_t maxLen, const std::string &alphabet) {
        std::string s;
        size_t n = sized(0, maxLen);
        for (size_t i = 0; i < n; i++)
            s.push_back(alphabet[below(alphabet.size())]);
        return s;
    }
    /// independent 64 bit seed for bulk data generated without recording every value
    uint64_t seed64() { return below(1ULL << 48); }

    void label(const std::string &l, bool cond = true) {
        if (cond)
            labels.insert(l);
    }
    void nontrivial(bool cond = true) {
        if (cond)
            isNontrivial = true;
    }
    static bool &echo() {
        static bool e = false;
        return e;
    }
    template <class T>
    Case &operator<<(const T &t) {
        noteStream << t;
        if (echo()) { // a single case is being replayed: the note must survive a crash
            std::ostringstream o;
            o << t;
            fprintf(stderr, "%s", o.str().c_str());
        }
        return *this;
    }
    void discard() { throw Discard(); }
    /// soft failure: records the first message and continues (safe before later collective calls)
    void fail(const std::string &m) {
        if (!failed) {
            failed = true;
            message = m;
        }
    }
    bool expect(bool cond, const std::string &m) {
        if (!cond)
            fail(m);
        return cond;
    }
    /// hard failure (never before a collective operation another rank will enter)
    void require(bool cond, const std::string &m) {
        if (!cond)
            throw Failure{m};
    }
};

template <class... A>
std::string msg(const A &...a) {
    std::ostringstream o;
    o.precision(17);
    using expand = int[];
    (void)expand{0, ((void)(o << a), 0)...};
    return o.str();
}

inline bool finite(const double *v, int n) {
    for (int i = 0; i < n; i++)
        if (!std::isfinite(v[i]))
            return false;
    return true;
}
/// |a-b| <= abs + rel*max(|a|,|b|); NaN is never close
inline bool close(double a, double b, double rel, double abs) {
    if (!(std::isfinite(a) && std::isfinite(b)))
        return false;
    return std::fabs(a - b) <= abs + rel * std::max(std::fabs(a), std::fabs(b));
}

// ------------------------------------------------------------------------------------------ facets
using Body = std::function<void(Case &)>;
struct Facet {
    std::string name;
    std::string rule; ///< how cases are made, what makes one non-trivial
    Body body;
};
inline std::vector<Facet> &facets() {
    static std::vector<Facet> f;
    return f;
}
struct Reg {
    Reg(const char *n, const char *rule, Body b) { facets().push_back(Facet{n, rule, b}); }
};
#define PBT_FACET(name, rule)                                                                                          \
    static void facet_##name(pbt::Case &c);                                                                            \
    static pbt::Reg reg_##name(#name, rule, facet_##name);                                                             \
    static void facet_##name(pbt::Case &c)

inline std::string jsonEsc(const std::string &s) {
    std::string o;
    for (unsigned char ch : s) {
        switch (ch) {
        case '"':
            o += "\\\"";
            break;
        case '\\':
            o += "\\\\";
            break;
        case '\n':
            o += "\\n";
            break;
        case '\t':
            o += "\\t";
            break;
        default:
            if (ch < 0x20 || ch >= 0x7f) {
                char b[8];
                snprintf(b, sizeof b, "\\u%04x", ch);
                o += b;
            } else
                o.push_back(ch);
        }
    }
    return o;
}

struct Outcome {
    bool discarded = false, failed = false, nontrivial = false;
    std::string message, note;
    std::vector<uint64_t> choices;
    std::set<std::string> labels;
};

inline int &mpiRank() {
    static int r = 0;
    return r;
}
inline int &mpiSize() {
    static int r = 1;
    return r;
}

inline Outcome runCase(const Facet &f, size_t index, uint64_t seed, const std::vector<uint64_t> *replay) {
    Case c;
    c.index = index;
    c.replay = replay;
    c.state = hashStr(f.name, seed * 0x9e3779b97f4a7c15ULL + 12345) ^ (index * 0xd1342543de82ef95ULL);
    splitmix(c.state);
    Progress *p = progress();
    if (p) {
        p->nChoice = 0;
        p->caseIndex = index;
        p->beat++;
        p->running = 1;
    }
    Outcome o;
    try {
        f.body(c);
    } catch (const Discard &) {
        o.discarded = true;
    } catch (const Failure &e) {
        c.fail(e.msg);
    } catch (const std::exception &e) {
        if (mpiSize() > 1) { // the other ranks are probably stuck in a collective call: leave it to the runner
            fprintf(stderr, "PBT rank %d exception: %s\n", mpiRank(), e.what());
            fflush(stderr);
            _exit(77);
        }
        c.fail(std::string("exception: ") + e.what());
    } catch (...) {
        if (mpiSize() > 1)
            _exit(77);
        c.fail("unknown exception");
    }
#ifdef PBT_MPI
    if (mpiSize() > 1) {
        int flag = c.failed ? mpiRank() : mpiSize(), first;
        MPI_Allreduce(&flag, &first, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
        if (first < mpiSize()) {
            std::string m = msg("[rank ", first, " of ", mpiSize(), "] ", c.message);
            int len = m.size();
            MPI_Bcast(&len, 1, MPI_INT, first, MPI_COMM_WORLD);
            m.resize(len);
            MPI_Bcast(&m[0], len, MPI_CHAR, first, MPI_COMM_WORLD);
            c.failed = true;
            c.message = m;
        }
        int nt = c.isNontrivial, ntg;
        MPI_Allreduce(&nt, &ntg, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
        c.isNontrivial = ntg;
    }
#endif
    if (p)
        p->running = 0;
    o.failed = c.failed;
    o.message = c.message;
    o.nontrivial = c.isNontrivial;
    o.note = c.noteStream.str();
    o.choices = std::move(c.choices);
    o.labels = std::move(c.labels);
    return o;
}

inline double now() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now().time_since_epoch()).count();
}
/// time decisions are taken by rank 0 only, so that the ranks stay in step
inline bool timeUp(double deadline) {
    int up = now() > deadline;
#ifdef PBT_MPI
    if (mpiSize() > 1)
        MPI_Bcast(&up, 1, MPI_INT, 0, MPI_COMM_WORLD);
#endif
    return up;
}

/// shrink a failing choice sequence
inline Outcome shrink(const Facet &f, size_t index, Outcome best, double seconds, int maxRuns) {
    const double deadline = now() + seconds;
    int runs = 0;
    auto attempt = [&](std::vector<uint64_t> cand) {
        if (runs >= maxRuns || timeUp(deadline))
            return false;
        runs++;
        Outcome o = runCase(f, index, 0, &cand);
        if (o.failed && (o.choices.size() < best.choices.size() ||
                         (o.choices.size() == best.choices.size() && o.choices < best.choices))) {
            best = o;
            return true;
        }
        return false;
    };
    bool improved = true;
    while (improved && runs < maxRuns && !timeUp(deadline)) {
        improved = false;
        for (size_t chunk : {64, 32, 16, 8, 4, 3, 2, 1}) {
            size_t i = best.choices.size();
            while (i >= chunk && i > 0) {
                if (i > best.choices.size())
                    i = best.choices.size();
                if (i < chunk)
                    break;
                auto cand = best.choices;
                cand.erase(cand.begin() + (i - chunk), cand.begin() + i);
                if (attempt(cand)) {
                    improved = true;
                } else {
                    i--;
                }
                if (runs >= maxRuns || timeUp(deadline))
                    return best;
            }
        }
        for (size_t i = 0; i < best.choices.size(); i++) {
            if (best.choices[i] == 0)
                continue;
            auto cand = best.choices;
            cand[i] = 0;
            if (attempt(cand)) {
                improved = true;
                continue;
            }
            uint64_t lo = 0, hi = best.choices[i]; // hi fails, lo does not
            int steps = 0;
            while (hi - lo > 1 && steps++ < 56 && i < best.choices.size()) {
                uint64_t mid = lo + (hi - lo) / 2;
                cand = best.choices;
                cand[i] = mid;
                if (attempt(cand)) {
                    improved = true;
                    hi = mid;
                } else
                    lo = mid;
                if (runs >= maxRuns || timeUp(deadline))
                    return best;
            }
        }
    }
    return best;
}

/**
 * command line:
 *   --facet NAME --cases N --seed S --time T --out FILE [--progress FILE] [--replay FILE] [--shrink SECONDS]
 * exit status: 0 always when the run completed (failures are reported in the JSON)
 */
inline int run(int argc, char **argv) {
    std::map<std::string, std::string> a;
    for (int i = 1; i + 1 < argc; i += 2)
        a[argv[i]] = argv[i + 1];
    if (argc == 2 && std::string(argv[1]) == "--list") {
        for (auto &f : facets())
            printf("%s\n", f.name.c_str());
        return 0;
    }
#ifdef PBT_MPI
    MPI_Comm_rank(MPI_COMM_WORLD, &mpiRank());
    MPI_Comm_size(MPI_COMM_WORLD, &mpiSize());
#endif
    const Facet *f = nullptr;
    for (auto &x : facets())
        if (x.name == a["--facet"])
            f = &x;
    if (!f) {
        fprintf(stderr, "no facet %s\n", a["--facet"].c_str());
        return 3;
    }
    const uint64_t seed = a.count("--seed") ? strtoull(a["--seed"].c_str(), 0, 10) : 1;
    const size_t nCase = a.count("--cases") ? strtoull(a["--cases"].c_str(), 0, 10) : 100;
    const size_t first = a.count("--first") ? strtoull(a["--first"].c_str(), 0, 10) : 0;
    const double tcap = a.count("--time") ? atof(a["--time"].c_str()) : 1e9;
    const double tshrink = a.count("--shrink") ? atof(a["--shrink"].c_str()) : 20;
    if (a.count("--progress") && mpiRank() == 0) {
        int fd = open(a["--progress"].c_str(), O_RDWR | O_CREAT, 0644);
        if (fd >= 0 && ftruncate(fd, sizeof(Progress)) == 0) {
            void *m = mmap(nullptr, sizeof(Progress), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
            if (m != MAP_FAILED) {
                progress() = (Progress *)m;
                memset(m, 0, 5 * sizeof(uint64_t));
                progress()->magic = 0x50425450524f4731ULL;
                strncpy(progress()->facet, f->name.c_str(), 63);
            }
        }
        if (fd >= 0)
            ::close(fd);
    }
    std::vector<uint64_t> replay;
    const bool isReplay = a.count("--replay");
    Case::echo() = isReplay && mpiRank() == 0;
    if (isReplay) {
        std::ifstream in(a["--replay"]);
        uint64_t v;
        while (in >> v)
            replay.push_back(v);
    }
    const double t0 = now();
    const double deadline = t0 + tcap;
    size_t done = 0, discards = 0, nontrivial = 0;
    std::map<std::string, size_t> labels;
    std::set<uint64_t> distinct;
    std::vector<std::string> samples;
    bool failed = false, capped = false;
    Outcome bad;
    size_t badIndex = 0, badOrigLen = 0;
    std::string origMsg;
    const size_t total = isReplay ? 1 : nCase;
    for (size_t k = 0; k < total; k++) {
        const size_t i = first + k;
        if (k && !isReplay && timeUp(deadline)) {
            capped = true;
            break;
        }
        Outcome o = runCase(*f, i, seed, isReplay ? &replay : nullptr);
        if (o.failed) {
            done++;
            failed = true;
            bad = o;
            badIndex = i;
            badOrigLen = o.choices.size();
            origMsg = o.message;
            if (!isReplay && tshrink > 0)
                bad = shrink(*f, i, o, tshrink, 2000);
            break;
        }
        if (o.discarded) {
            discards++;
            continue;
        }
        done++;
        for (auto &l : o.labels)
            labels[l]++;
        if (o.nontrivial) {
            uint64_t h = 7;
            for (auto v : o.choices)
                h = (h ^ v) * 1099511628211ULL + 0x9e3779b9;
            if (distinct.insert(h).second) {
                nontrivial++;
                if (samples.size() < 3 || (samples.size() < 5 && k > total / 2))
                    samples.push_back(o.note.substr(0, 700));
            }
        }
    }
    if (mpiRank() == 0 && a.count("--out")) {
        std::ofstream out(a["--out"]);
        out << "{\"facet\":\"" << jsonEsc(f->name) << "\",\"rule\":\"" << jsonEsc(f->rule) << "\",\"seed\":" << seed
            << ",\"cases\":" << done << ",\"discards\":" << discards << ",\"nontrivial\":" << nontrivial
            << ",\"time_capped\":" << (capped ? "true" : "false") << ",\"seconds\":" << (now() - t0) << ",\"labels\":{";
        bool sep = false;
        for (auto &l : labels) {
            out << (sep ? "," : "") << "\"" << jsonEsc(l.first) << "\":" << l.second;
            sep = true;
        }
        out << "},\"samples\":[";
        for (size_t i = 0; i < samples.size(); i++)
            out << (i ? "," : "") << "\"" << jsonEsc(samples[i]) << "\"";
        out << "],\"failed\":" << (failed ? "true" : "false");
        if (failed) {
            out << ",\"failure\":{\"index\":" << badIndex << ",\"message\":\"" << jsonEsc(bad.message)
                << "\",\"original_message\":\"" << jsonEsc(origMsg) << "\",\"original_choices\":" << badOrigLen
                << ",\"note\":\"" << jsonEsc(bad.note.substr(0, 4000)) << "\",\"choices\":[";
            for (size_t i = 0; i < bad.choices.size(); i++)
                out << (i ? "," : "") << bad.choices[i];
            out << "]}";
        }
        out << "}\n";
    }
    return 0;
}

} // namespace pbt
