/** distributed helpers: exchange and directory (C24), mixed pair search (C25), vectors and matrices (C26), random
 * streams (C29), point sets (C35) */
#include <fcntl.h>
#include <unistd.h>
#include "pbt.hpp"

#include "FDPS/particle_simulator.hpp"

#include "MPI/CommMPI.hpp"
#include "MPI/MixPairInteraction.hpp"
#include "Trilinos/TpetraUtil.hpp"
#include "Trilinos/ZDD.hpp"
#include "Util/PointDistribution.hpp"
#include "Util/TRngPool.hpp"

#include <array>
#include <memory>
#include <random>

using namespace pbt;
typedef long double LD;

static bool stop(Case &c) { // collective: did any rank fail?
    int f = c.failed, g;
    MPI_Allreduce(&f, &g, 1, MPI_INT, MPI_MAX, MPI_COMM_WORLD);
    return g;
}

static std::string slurp(const std::string &f) {
    std::ifstream in(f);
    std::ostringstream o;
    o << in.rdbuf();
    return o.str();
}

// every rank's vector, on every rank
template <class T>
static std::vector<std::vector<T>> gatherAll(const std::vector<T> &mine) {
    int n = mine.size() * sizeof(T);
    std::vector<int> cnt(mpiSize()), dis(mpiSize() + 1, 0);
    MPI_Allgather(&n, 1, MPI_INT, cnt.data(), 1, MPI_INT, MPI_COMM_WORLD);
    for (int i = 0; i < mpiSize(); i++)
        dis[i + 1] = dis[i] + cnt[i];
    std::vector<char> buf(dis.back() + 1);
    MPI_Allgatherv(mine.data(), n, MPI_BYTE, buf.data(), cnt.data(), dis.data(), MPI_BYTE, MPI_COMM_WORLD);
    std::vector<std::vector<T>> r(mpiSize());
    for (int i = 0; i < mpiSize(); i++) {
        r[i].resize(cnt[i] / sizeof(T));
        if (cnt[i])
            memcpy((void *)r[i].data(), buf.data() + dis[i], cnt[i]);
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ C24
struct Small {
    int tag = -1;
    bool operator==(const Small &o) const { return tag == o.tag; }
    static Small make(uint64_t s) { return Small{int(s & 0x7fffffff)}; }
};
struct Odd {
    char b[7] = {0};
    bool operator==(const Odd &o) const { return !memcmp(b, o.b, 7); }
    static Odd make(uint64_t s) {
        Odd r;
        for (char &x : r.b) {
            x = char(s & 0xff);
            s = s * 6364136223846793005ULL + 1442695040888963407ULL;
            s ^= s >> 29;
        }
        return r;
    }
};
struct Big {
    int64_t id = -1;
    double v[25] = {0};
    bool operator==(const Big &o) const { return id == o.id && !memcmp(v, o.v, sizeof v); }
    static Big make(uint64_t s) {
        Big r;
        r.id = s;
        for (double &x : r.v)
            x = double(splitmix(s) >> 11) * 1e-3;
        return r;
    }
};

template <class T>
static void exchangeOf(Case &c) {
    CommMPI comm;
    c.expect(comm.getRank() == mpiRank() && comm.getSize() == mpiSize(), "rank or size of the communicator");
    const int rounds = c.integer(1, 3);
    for (int round = 0; round < rounds; round++) {
        std::vector<std::vector<int>> dest(mpiSize());
        std::vector<std::vector<T>> data(mpiSize());
        const int mode = c.below(4);
        uint64_t s = c.seed64();
        for (int r = 0; r < mpiSize(); r++) {
            const int n = c.chance(1, 5) ? 0 : c.chance(1, 12) ? c.sized(0, 3000) : c.sized(0, 40);
            const int to = c.below(mpiSize());
            for (int i = 0; i < n; i++) {
                const int d = mode == 0 ? splitmix(s) % mpiSize() : mode == 1 ? to : mode == 2 ? r : (i * mpiSize()) / n;
                dest[r].push_back(mode == 3 ? mpiSize() - 1 - d : d);
                data[r].push_back(T::make(splitmix(s)));
            }
            c << "round " << round << " rank " << r << " sends " << n << " mode " << mode << "\n";
            c.nontrivial(n > 1);
            c.label("empty sender", n == 0);
            c.label("large", n > 500);
        }
        std::vector<T> want;
        std::vector<int> wantSrc;
        for (int r = 0; r < mpiSize(); r++)
            for (size_t i = 0; i < dest[r].size(); i++)
                if (dest[r][i] == mpiRank()) {
                    want.push_back(data[r][i]);
                    wantSrc.push_back(r);
                }
        std::vector<int> sd = dest[mpiRank()], src(c.below(5), 77);
        std::vector<T> sv = data[mpiRank()], recv(c.below(5));
        comm.exchangeAllToAllV(sd, sv, src, recv);
        c.expect(recv.size() == want.size() && src.size() == want.size(),
                 msg("round ", round, ": ", want.size(), " records were sent to this rank, ", recv.size(), " records and ",
                     src.size(), " sources arrived"));
        if (!c.failed)
            for (size_t i = 0; i < want.size(); i++)
                c.expect(recv[i] == want[i] && src[i] == wantSrc[i],
                         msg("round ", round, ": received record ", i, " of ", want.size(), " said to be from rank ", src[i],
                             " is not the one rank ", wantSrc[i], " sent"));
        if (stop(c))
            return;
    }
}
PBT_FACET(exchange, "every rank sends up to 3000 records of 4, 7 or 208 bytes to random, equal, own or descending ranks, one to "
                    "three rounds with the same communicator; the received records are compared with the sent ones in rank order "
                    "and, per source, in the order sent; non-trivial when a rank sends more than one record") {
    switch (c.below(3)) {
    case 0:
        return exchangeOf<Small>(c);
    case 1:
        return exchangeOf<Odd>(c);
    default:
        return exchangeOf<Big>(c);
    }
}

template <class T>
static void directoryOf(Case &c) {
    std::map<unsigned, T> model;
    std::map<unsigned, int> owner;
    ZDD<T> dir(c.below(50));
    const int rounds = c.integer(1, 4);
    const int idMode = c.below(3);
    uint64_t s = c.seed64();
    auto freshId = [&] {
        for (int k = 0;; k++) {
            unsigned id = idMode == 0 ? model.size() + k : idMode == 1 ? splitmix(s) % 1000003 : splitmix(s) % 4294967290u;
            if (!model.count(id))
                return id;
        }
    };
    for (int round = 0; round < rounds; round++) {
        // publish: every id at most once per round
        std::vector<std::vector<unsigned>> ids(mpiSize());
        std::vector<std::vector<T>> val(mpiSize());
        std::map<unsigned, T> changed;
        std::map<unsigned, int> changedOwner;
        const int pMove = c.below(3), pAgain = c.below(5);
        for (auto &m : model) // earlier ids: published again (new record), moved to another rank or left alone
            if (splitmix(s) % 4 < unsigned(pAgain)) {
                const int r = splitmix(s) % 3 < unsigned(pMove) ? int(splitmix(s) % mpiSize()) : owner[m.first];
                T v = T::make(splitmix(s));
                ids[r].push_back(m.first);
                val[r].push_back(v);
                changed[m.first] = v;
                changedOwner[m.first] = r;
                c.label("published again");
                c.label("moved", r != owner[m.first]);
            }
        for (int r = 0; r < mpiSize(); r++) {
            const int n = c.chance(1, 4) ? 0 : c.chance(1, 15) ? c.sized(0, 2000) : c.sized(0, 30);
            for (int i = 0; i < n; i++) {
                const unsigned id = freshId();
                T v = T::make(splitmix(s));
                model[id] = v;
                owner[id] = r;
                ids[r].push_back(id);
                val[r].push_back(v);
            }
            c << "round " << round << " rank " << r << " publishes " << ids[r].size() << "\n";
            c.label("rank publishes nothing", ids[r].empty());
        }
        for (auto &m : changed)
            model[m.first] = m.second;
        for (auto &m : changedOwner)
            owner[m.first] = m.second;
        dir.gidOnLocal = ids[mpiRank()];
        dir.dataOnLocal = val[mpiRank()];
        dir.buildIndex();

        const int finds = c.integer(1, 2);
        for (int f = 0; f < finds; f++) {
            std::vector<std::vector<unsigned>> want(mpiSize());
            std::vector<unsigned> all;
            for (auto &m : model)
                all.push_back(m.first);
            const bool absent = c.chance(1, 3);
            for (int r = 0; r < mpiSize(); r++) {
                const int n = c.chance(1, 4) ? 0 : c.chance(1, 15) ? c.sized(0, 2000) : c.sized(0, 60);
                unsigned last = 0;
                for (int i = 0; i < n; i++) {
                    const uint64_t k = splitmix(s);
                    if (absent && k % 5 == 0)
                        want[r].push_back(freshId());
                    else if (i && k % 7 == 1)
                        want[r].push_back(last);
                    else if (all.size())
                        want[r].push_back(all[(k >> 8) % all.size()]);
                    if (want[r].size())
                        last = want[r].back();
                }
                c << "rank " << r << " asks for " << want[r].size() << (absent ? ", some absent" : "") << "\n";
                c.nontrivial(want[r].size() > 1);
                c.label("rank asks for nothing", want[r].empty());
            }
            const auto &mine = want[mpiRank()];
            dir.gidToFind = mine;
            if (c.chance(1, 2))
                dir.dataToFind.clear(); // otherwise whatever the last request left
            dir.find();
            if (c.expect(dir.dataToFind.size() >= mine.size() && dir.gidToFind == mine,
                         msg(mine.size(), " ids requested, ", dir.dataToFind.size(), " records returned")))
                for (size_t i = 0; i < mine.size(); i++) {
                    auto it = model.find(mine[i]);
                    if (it != model.end())
                        c.expect(dir.dataToFind[i] == it->second,
                                 msg("round ", round, ": the record returned for id ", mine[i], " (request ", i, " of ", mine.size(),
                                     ") is not the one rank ", owner[mine[i]], " published"));
                }
            if (stop(c))
                return;
        }
        c.expect(dir.gidOnLocal == ids[mpiRank()] && dir.dataOnLocal == val[mpiRank()], "the published records were changed");
        if (stop(c))
            return;
    }
}
PBT_FACET(directory, "records of 4, 7 or 208 bytes under dense, scattered or huge identifiers are published over up to four rounds, "
                     "some again with new content or from another rank; every rank then looks up own, remote, repeated and absent "
                     "identifiers; the records are compared with a model; non-trivial when a rank asks for more than one") {
    switch (c.below(3)) {
    case 0:
        return directoryOf<Small>(c);
    case 1:
        return directoryOf<Odd>(c);
    default:
        return directoryOf<Big>(c);
    }
}

// ------------------------------------------------------------------------------------------------ C25
namespace mix {
template <int KIND>
struct Particle {
    int gid = -1;
    double rs = 1;
    double pos[3] = {0, 0, 0};
    double extra = 0;
    double getRSearch() const { return rs; }
    PS::F64vec3 getPos() const { return PS::F64vec3(pos[0], pos[1], pos[2]); }
    void setPos(const PS::F64vec3 &p) {
        pos[0] = p.x;
        pos[1] = p.y;
        pos[2] = p.z;
    }
    void copyFromFP(const Particle &o) { *this = o; }
};
typedef Particle<0> Trg;
typedef Particle<1> Src;

static const int MAXHIT = 1024;
struct Hits {
    int gid = -1;
    double extra = 0;
    int n = 0;
    int src[MAXHIT];
    double d[MAXHIT];
    void clear() {
        gid = -1;
        extra = 0;
        n = 0;
    }
};
struct Visit {
    bool wrongFlag = false;
    std::map<int, std::pair<double, double>> *srcData = nullptr; // gid -> (search radius, extra)
    bool corrupt = false;
    void operator()(const MixEPI<Trg> *const t, const PS::S32 nT, const MixEPJ<Src> *const s, const PS::S32 nS, Hits *const h) {
        for (int i = 0; i < nT; i++) {
            if (!t[i].trgFlag)
                continue;
            h[i].gid = t[i].epTrg.gid;
            h[i].extra = t[i].epTrg.extra;
            if (t[i].getRSearch() != t[i].epTrg.rs)
                corrupt = true;
            for (int j = 0; j < nS; j++) {
                if (!s[j].srcFlag)
                    continue;
                auto it = srcData->find(s[j].epSrc.gid);
                if (it == srcData->end() || it->second.first != s[j].epSrc.rs || it->second.second != s[j].epSrc.extra ||
                    s[j].getRSearch() != s[j].epSrc.rs)
                    corrupt = true;
                const PS::F64vec3 d = s[j].getPos() - t[i].getPos();
                const double r = std::sqrt(d * d);
                if (r < std::max(s[j].getRSearch(), t[i].getRSearch())) {
                    if (h[i].n < MAXHIT) {
                        h[i].src[h[i].n] = s[j].epSrc.gid;
                        h[i].d[h[i].n] = r;
                    }
                    h[i].n++;
                }
            }
        }
    }
};

struct P0 {
    double pos[3], rs, extra;
};

struct World {
    double low[3], high[3];
    bool pbc[3];
    std::vector<P0> t, s; // index = gid
    double scale;
};

template <class P>
void put(Case &c, World &w, PS::ParticleSystem<P> &sys, const std::vector<P0> &p, uint64_t seed) {
    std::vector<int> mine;
    for (size_t i = 0; i < p.size(); i++)
        if (int((seed = seed * 6364136223846793005ULL + 1442695040888963407ULL, seed >> 33) % mpiSize()) == mpiRank())
            mine.push_back(i);
    sys.setNumberOfParticleLocal(mine.size());
    for (size_t k = 0; k < mine.size(); k++) {
        P q;
        q.gid = mine[k];
        for (int j = 0; j < 3; j++)
            q.pos[j] = p[mine[k]].pos[j];
        q.rs = p[mine[k]].rs;
        q.extra = p[mine[k]].extra;
        sys[k] = q;
    }
}
} // namespace mix

static void mixCase(Case &c, bool bulk) {
    using namespace mix;
    World w;
    for (int k = 0; k < 3; k++) {
        w.pbc[k] = c.chance(1, 2);
        const double e = c.pick({10.0, 3.0, 40.0});
        w.low[k] = c.pick({0.0, -5.0, 100.0, -0.3});
        w.high[k] = w.low[k] + e;
    }
    PS::ParticleSystem<Trg> sysT;
    PS::ParticleSystem<Src> sysS;
    sysT.initialize();
    sysS.initialize();
    PS::DomainInfo dinfo;
    dinfo.initialize();
    static const PS::BOUNDARY_CONDITION bc[8] = {
        PS::BOUNDARY_CONDITION_OPEN,       PS::BOUNDARY_CONDITION_PERIODIC_Z,  PS::BOUNDARY_CONDITION_PERIODIC_Y,
        PS::BOUNDARY_CONDITION_PERIODIC_YZ, PS::BOUNDARY_CONDITION_PERIODIC_X,  PS::BOUNDARY_CONDITION_PERIODIC_XZ,
        PS::BOUNDARY_CONDITION_PERIODIC_XY, PS::BOUNDARY_CONDITION_PERIODIC_XYZ};
    dinfo.setBoundaryCondition(bc[4 * w.pbc[0] + 2 * w.pbc[1] + w.pbc[2]]);
    dinfo.setPosRootDomain(PS::F64vec3(w.low[0], w.low[1], w.low[2]), PS::F64vec3(w.high[0], w.high[1], w.high[2]));

    typedef MixPairInteraction<Trg, Src, Trg, Src, Hits> Mix;
    Mix mixer;
    mixer.initialize();
    double minEdge = 1e300;
    for (int k = 0; k < 3; k++)
        if (w.pbc[k])
            minEdge = std::min(minEdge, w.high[k] - w.low[k]);
    if (minEdge > 1e200)
        minEdge = 10;
    const int rounds = c.integer(1, 3);
    for (int round = 0; round < rounds; round++) {
        const int nt = bulk ? int(c.sized(100, 400)) : c.chance(1, 10) ? 0 : c.sized(0, 40), ns = bulk ? int(c.sized(100, 600)) : c.chance(1, 10) ? 0 : c.sized(0, 60);
        if (nt + ns == 0)
            c.discard();
        const double rmax = minEdge * (bulk ? c.pick({0.002, 0.01, 0.04, 0.12}) : c.pick({0.05, 0.2, 0.45, 0.9}));
        const int how = c.below(3), rs = c.below(3);
        const bool outside = c.chance(1, 3);
        const uint64_t seed = c.seed64();
        std::mt19937_64 g(seed);
        std::uniform_real_distribution<double> U(0, 1);
        double centre[3];
        for (int k = 0; k < 3; k++)
            centre[k] = w.low[k] + (w.high[k] - w.low[k]) * (c.chance(1, 2) ? 0.01 : U(g));
        auto fill = [&](std::vector<P0> &p, int n, int which) {
            p.resize(n);
            for (auto &q : p) {
                for (int k = 0; k < 3; k++) {
                    const double e = w.high[k] - w.low[k];
                    double x = how == 1 || (how == 2 && U(g) < 0.5) ? centre[k] + (U(g) - 0.5) * rmax * 1.5 : w.low[k] + e * U(g);
                    if (U(g) < 0.05)
                        x = U(g) < 0.5 ? w.low[k] : w.high[k] - (w.pbc[k] ? 1e-9 * e : 0);
                    q.pos[k] = x;
                }
                q.rs = rmax * (rs == 0 ? 1.0 : rs == 1 ? 0.02 + 0.98 * U(g) : which == int(g() % 2) ? 0.01 : 1.0);
                q.extra = U(g);
            }
        };
        fill(w.t, nt, 0);
        fill(w.s, ns, 1);
        c << "round " << round << ": " << nt << " targets, " << ns << " sources" << (outside ? ", some outside the box" : "") << ", rmax " << rmax << " box";
        for (int k = 0; k < 3; k++)
            c << " [" << w.low[k] << "," << w.high[k] << (w.pbc[k] ? ")p" : "]");
        c << "\n";
        put(c, w, sysT, w.t, seed + 1);
        put(c, w, sysS, w.s, seed + 2);
        sysT.adjustPositionIntoRootDomain(dinfo);
        sysS.adjustPositionIntoRootDomain(dinfo);
        if (nt > ns)
            dinfo.decomposeDomainAll(sysT);
        else
            dinfo.decomposeDomainAll(sysS);
        sysT.exchangeParticle(dinfo);
        sysS.exchangeParticle(dinfo);
        if (outside) { // particles that left a periodic box since the exchange
            auto leave = [&](auto &sys, uint64_t s0) {
                for (int i = 0; i < sys.getNumberOfParticleLocal(); i++)
                    for (int k = 0; k < 3; k++) {
                        const uint64_t h = (s0 + 3 * sys[i].gid + k) * 0x9E3779B97F4A7C15ULL >> 40;
                        if (w.pbc[k] && h % 3 == 0)
                            sys[i].pos[k] += (w.high[k] - w.low[k]) * (h / 3 % 2 ? 1 : -1);
                    }
            };
            leave(sysT, seed + 3);
            leave(sysS, seed + 4);
        }

        mixer.updateSystem(sysT, sysS, dinfo);
        mixer.updateTree();
        std::map<int, std::pair<double, double>> sd;
        for (int j = 0; j < ns; j++)
            sd[j] = {w.s[j].rs, w.s[j].extra};
        Visit v;
        v.srcData = &sd;
        mixer.computeForce(v, dinfo);
        const auto &res = mixer.getForceResult();
        c.expect(!v.corrupt, "the interaction saw a particle with other data than it was given");
        c.expect(int(res.size()) == sysT.getNumberOfParticleLocal(),
                 msg(sysT.getNumberOfParticleLocal(), " targets on this rank, ", res.size(), " results"));
        if (!c.failed)
            for (size_t i = 0; i < res.size(); i++) {
                const int gid = sysT[i].gid;
                const P0 &t = w.t[gid];
                if (ns && !c.expect(res[i].gid == gid && res[i].extra == t.extra,
                                    msg("result ", i, " belongs to target ", gid, ", it was computed for target ", res[i].gid)))
                    break;
                std::map<int, std::vector<double>> want, got;
                std::map<int, int> optional;
                for (int j = 0; j < ns; j++) {
                    const double R = std::max(t.rs, w.s[j].rs);
                    int lo[3], hi[3];
                    for (int k = 0; k < 3; k++) {
                        lo[k] = w.pbc[k] ? bulk ? -1 : -2 : 0;
                        hi[k] = w.pbc[k] ? bulk ? 1 : 2 : 0;
                    }
                    // both are wrapped into the box before the search: take wrapped coordinates
                    double x[3], y[3];
                    for (int k = 0; k < 3; k++) {
                        const double e = w.high[k] - w.low[k];
                        x[k] = t.pos[k];
                        y[k] = w.s[j].pos[k];
                        if (w.pbc[k]) {
                            x[k] -= e * std::floor((x[k] - w.low[k]) / e);
                            y[k] -= e * std::floor((y[k] - w.low[k]) / e);
                        }
                    }
                    for (int a = lo[0]; a <= hi[0]; a++)
                        for (int b = lo[1]; b <= hi[1]; b++)
                            for (int d = lo[2]; d <= hi[2]; d++) {
                                const int sh[3] = {a, b, d};
                                LD r2 = 0;
                                for (int k = 0; k < 3; k++) {
                                    const LD q = (LD)y[k] + (LD)sh[k] * (w.high[k] - w.low[k]) - x[k];
                                    r2 += q * q;
                                }
                                const double r = std::sqrt((double)r2);
                                const double eps = 1e-9 * (R + std::fabs(w.low[0]) + std::fabs(w.low[1]) + std::fabs(w.low[2]));
                                if (std::fabs(r - R) <= eps)
                                    optional[j]++;
                                else if (r < R)
                                    want[j].push_back(r);
                            }
                }
                if (!c.expect(res[i].n < MAXHIT, msg("target ", gid, " saw ", res[i].n, " sources")))
                    break;
                for (int q = 0; q < res[i].n; q++)
                    got[res[i].src[q]].push_back(res[i].d[q]);
                for (int j = 0; j < ns; j++) {
                    const size_t nw = want[j].size(), ng = got[j].size(), no = optional[j];
                    if (nw)
                        c.nontrivial();
                    c.label("several images of one source", nw > 1);
                    if (!c.expect(ng >= nw && ng <= nw + no, msg("round ", round, ": source ", j, " has ", nw, " images in range of target ", gid,
                                                                 ", ", ng, " were visited; search radii ", t.rs, " and ", w.s[j].rs)))
                        break;
                    if (no == 0) {
                        auto a = want[j], b = got[j];
                        std::sort(a.begin(), a.end());
                        std::sort(b.begin(), b.end());
                        for (size_t q = 0; q < nw; q++)
                            c.expect(std::fabs(a[q] - b[q]) <= 1e-9 * (1 + std::fabs(a[q]) + std::fabs(w.low[0]) + std::fabs(w.low[1]) + std::fabs(w.low[2])),
                                     msg("round ", round, ": source ", j, " was visited at distance ", b[q], " from target ", gid, ", its image is at ",
                                         a[q]));
                    }
                }
                if (c.failed)
                    break;
            }
        c.label(msg("ranks", mpiSize(), nt == 0 ? " no targets" : ns == 0 ? " no sources" : ""));
        if (stop(c))
            return;
    }
}
PBT_FACET(mixpair,
          "two sets of up to 40 targets and 60 sources with their own search radii (up to the edge of the box) in open, partly and "
          "fully periodic boxes, clustered, on faces or empty; one to three rounds with the same interaction object; for every target "
          "the visited sources within the larger of both radii are compared, image by image, with an all-pairs search; "
          "non-trivial with at least one pair in range") {
    mixCase(c, false);
}
PBT_FACET(mixbulk,
          "as mixpair with 100 to 400 targets and 100 to 600 sources and smaller radii: deep trees, far ranks; non-trivial with at least one pair in range") {
    mixCase(c, true);
}
// ------------------------------------------------------------------------------------------------ C26
static double value(Case &c, std::mt19937_64 &g, int mode) {
    std::uniform_real_distribution<double> U(-1, 1);
    if (mode == 0)
        return U(g);
    if (mode == 1)
        return double(int64_t(g() % 2001) - 1000);
    return U(g) * std::pow(10.0, double(int(g() % 60)) - 30);
}
static std::vector<double> localOf(const TV &v) {
    auto p = v.getLocalView<Kokkos::HostSpace>();
    std::vector<double> r(v.getLocalLength());
    for (size_t i = 0; i < r.size(); i++)
        r[i] = p(i, 0);
    return r;
}
static std::vector<int> gidsOf(const TMAP &m) {
    std::vector<int> r(m.getNodeNumElements());
    for (size_t i = 0; i < r.size(); i++)
        r[i] = m.getGlobalElement(i);
    return r;
}
/// lines of a MatrixMarket file without comments; numbers in order
static bool matrixMarket(const std::string &text, std::string &header, std::vector<long> &dims, std::vector<double> &v, int nDims) {
    std::istringstream in(text);
    if (!std::getline(in, header) || header.compare(0, 14, "%%MatrixMarket"))
        return false;
    std::string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '%')
            continue;
        std::istringstream l(line);
        if (dims.empty()) {
            for (int i = 0; i < nDims; i++) {
                long d;
                if (!(l >> d))
                    return false;
                dims.push_back(d);
            }
        } else {
            std::string tok;
            while (l >> tok) {
                char *end;
                v.push_back(strtod(tok.c_str(), &end));
                if (*end)
                    return false;
            }
        }
    }
    return dims.size() == size_t(nDims);
}

PBT_FACET(tvector,
          "local vectors of 0 to 400 entries per rank turned into distributed vectors and maps, joined in two blocks and dumped; "
          "local entries, global indices and the parsed dump are compared with the concatenation in rank order; also maps from "
          "permuted global indices; non-trivial with more than one entry in all") {
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    c.expect(comm->getRank() == mpiRank() && comm->getSize() == mpiSize(), "communicator");
    const uint64_t seed = c.seed64();
    std::mt19937_64 g(seed);
    std::vector<std::vector<double>> a(mpiSize()), b(mpiSize());
    const int mode = c.below(3);
    std::vector<double> all[2];
    std::vector<int> off[2] = {{0}, {0}};
    for (int q = 0; q < 2; q++)
        for (int r = 0; r < mpiSize(); r++) {
            auto &v = (q ? b : a)[r];
            v.resize(c.chance(1, 4) ? 0 : c.chance(1, 10) ? c.sized(0, 400) : c.sized(0, 12));
            for (double &x : v)
                x = value(c, g, mode);
            all[q].insert(all[q].end(), v.begin(), v.end());
            off[q].push_back(all[q].size());
            c << (q ? "b" : "a") << " on rank " << r << ": " << v.size() << " entries\n";
            c.label("empty rank", v.empty());
        }
    c.nontrivial(all[0].size() + all[1].size() > 1);
    const int me = mpiRank();
    auto checkMap = [&](const TMAP &m, const std::vector<int> &gid, size_t global, const char *what) {
        c.expect(gidsOf(m) == gid, msg(what, ": wrong global indices on this rank"));
        c.expect(m.getGlobalNumElements() == global, msg(what, ": ", m.getGlobalNumElements(), " global entries, ", global, " expected"));
        c.expect(m.getIndexBase() == 0 || global == 0, msg(what, ": index base ", m.getIndexBase()));
        for (size_t i = 0; i < gid.size(); i++)
            c.expect(m.getLocalElement(gid[i]) == int(i), msg(what, ": global index ", gid[i], " is not local index ", i));
    };
    auto range = [&](int q, int r, int shift = 0) {
        std::vector<int> v;
        for (int i = off[q][r]; i < off[q][r + 1]; i++)
            v.push_back(i + shift);
        return v;
    };
    Teuchos::RCP<TMAP> ma = getTMAPFromLocalSize(a[me].size(), comm), mb = getTMAPFromLocalSize(b[me].size(), comm);
    checkMap(*ma, range(0, me), all[0].size(), "map from local size");
    checkMap(*mb, range(1, me), all[1].size(), "map from local size");
    Teuchos::RCP<const TV> va = getTVFromVector(a[me], comm), vb = getTVFromVector(b[me], comm);
    checkMap(*va->getMap(), range(0, me), all[0].size(), "vector");
    c.expect(localOf(*va) == a[me] && localOf(*vb) == b[me], "the distributed vector does not hold the local entries in order");
    LD norm = 0;
    for (double x : all[0])
        norm += (LD)x * x;
    const double n2 = va->norm2();
    c.expect(close(n2, std::sqrt((double)norm), 1e-12, 0), msg("norm of the vector ", n2, " expected ", std::sqrt((double)norm)));
    if (stop(c))
        return;
    { // two blocks
        Teuchos::RCP<const TMAP> m1 = c.chance(1, 2) ? va->getMap() : Teuchos::RCP<const TMAP>(ma), m2 = vb->getMap();
        Teuchos::RCP<TMAP> m = getTMAPFromTwoBlockTMAP(m1, m2);
        std::vector<int> want = range(0, me), w2 = range(1, me, all[0].size());
        want.insert(want.end(), w2.begin(), w2.end());
        checkMap(*m, want, all[0].size() + all[1].size(), "map of two blocks");
        if (stop(c))
            return;
        Teuchos::RCP<TV> v = getTVFromTwoBlockTV(va, vb);
        checkMap(*v->getMap(), want, all[0].size() + all[1].size(), "vector of two blocks");
        std::vector<double> wv = a[me];
        wv.insert(wv.end(), b[me].begin(), b[me].end());
        c.expect(localOf(*v) == wv, "the vector of two blocks does not hold both blocks");
        v->putScalar(7);
        c.expect(localOf(*va) == a[me] && localOf(*vb) == b[me], "joining or changing the joined vector changed its blocks");
        if (stop(c))
            return;
    }
    // permuted global indices
    const size_t n = all[0].size();
    std::vector<int> perm(n), gid;
    for (size_t i = 0; i < n; i++)
        perm[i] = i;
    std::shuffle(perm.begin(), perm.end(), g);
    for (int i = off[0][me]; i < off[0][me + 1]; i++)
        gid.push_back(perm[i]);
    Teuchos::RCP<TMAP> mp = getTMAPFromGlobalIndexOnLocal(gid, n, comm);
    checkMap(*mp, gid, n, "map from global indices");
    if (stop(c))
        return;
    Teuchos::RCP<TV> vp = Teuchos::rcp(new TV(mp, true));
    for (size_t i = 0; i < gid.size(); i++)
        vp->replaceLocalValue(i, a[me][i]);
    // dump
    if (c.chance(1, 6) && n > 0) {
        const bool permuted = c.chance(1, 2);
        c.label(permuted ? "dump of a permuted vector" : "dump of a vector");
        const std::string f = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : ".") + "/dump";
        const auto before = localOf(permuted ? *vp : *va);
        dumpTV(permuted ? Teuchos::RCP<const TV>(vp) : va, f);
        dumpTMAP(permuted ? Teuchos::RCP<const TMAP>(mp) : Teuchos::RCP<const TMAP>(ma), f);
        c.expect(localOf(permuted ? *vp : *va) == before, "dumping changed the vector");
        comm->barrier();
        std::vector<double> want(n);
        for (size_t i = 0; i < n; i++)
            want[permuted ? perm[i] : i] = all[0][i];
        if (me == 0) {
            std::string h;
            std::vector<long> d;
            std::vector<double> v;
            bool ok = matrixMarket(slurp(f + "_TV.mtx"), h, d, v, 2);
            if (c.expect(ok && h.find(" array ") != std::string::npos && h.find("general") != std::string::npos && d[0] == long(n) && d[1] == 1 && v.size() == n,
                         msg("the dump of a vector of ", n, " entries has header '", h, "', ", d.size() > 0 ? d[0] : -1, " rows, ", v.size(), " values")))
                for (size_t i = 0; i < n; i++)
                    c.expect(close(v[i], want[i], 1e-14, 0), msg("entry ", i, " of the dump is ", v[i], ", the vector holds ", want[i]));
            std::vector<double> m;
            d.clear();
            ok = matrixMarket(slurp(f + "_TMAP.mtx"), h, d, m, 2);
            if (c.expect(ok && d[0] * d[1] == long(2 * n) && m.size() == 2 * n, "the dump of a map has the wrong shape")) {
                std::map<int, std::vector<int>> byRank, wantRank;
                for (size_t i = 0; i < n; i++) // (gid, rank) pairs
                    byRank[int(m[2 * i + 1])].push_back(int(m[2 * i]));
                for (int r = 0; r < mpiSize(); r++)
                    for (int i = off[0][r]; i < off[0][r + 1]; i++)
                        wantRank[r].push_back(permuted ? perm[i] : i);
                c.expect(byRank == wantRank, "the dump of a map does not list every rank's global indices in order");
            }
        }
        stop(c);
        if (me == 0) {
            unlink((f + "_TV.mtx").c_str());
            unlink((f + "_TMAP.mtx").c_str());
        }
    }
}

PBT_FACET(tmatrix,
          "random sparse matrices of up to 30 rows and columns with contiguous or permuted rows are dumped; the parsed file is "
          "compared entry by entry; non-trivial with at least two entries on a matrix of at least 2 x 2") {
    Teuchos::RCP<const TCOMM> comm = getMPIWORLDTCOMM();
    std::mt19937_64 g(c.seed64());
    const int mode = c.below(3);
    std::vector<int> offR{0}, offC{0};
    for (int r = 0; r < mpiSize(); r++)
        offR.push_back(offR.back() + (c.chance(1, 4) ? 0 : c.sized(0, 12)));
    for (int r = 0; r < mpiSize(); r++)
        offC.push_back(offC.back() + (c.chance(1, 4) ? 0 : c.sized(0, 12)));
    const int nR = offR.back(), nC = offC.back();
    if (nR == 0 || nC == 0)
        c.discard();
    std::vector<int> permR(nR);
    for (int i = 0; i < nR; i++)
        permR[i] = i;
    const bool permuted = c.chance(1, 2);
    if (permuted)
        std::shuffle(permR.begin(), permR.end(), g);
    std::map<std::pair<int, int>, double> M;
    const int fillIn = c.pick({1, 4, 20});
    for (int i = 0; i < nR; i++)
        for (int j = 0; j < nC; j++)
            if (int(g() % 24) < fillIn) {
                double v = value(c, g, mode);
                M[{i, j}] = v == 0 ? 1 : v;
            }
    c << nR << " x " << nC << ", " << M.size() << " entries" << (permuted ? ", permuted rows" : "") << "\n";
    c.nontrivial(M.size() >= 2 && nR > 1 && nC > 1);
    const int me = mpiRank();
    std::vector<int> rows;
    for (int i = offR[me]; i < offR[me + 1]; i++)
        rows.push_back(permR[i]);
    Teuchos::RCP<const TMAP> rowMap = getTMAPFromGlobalIndexOnLocal(rows, nR, comm);
    Teuchos::RCP<const TMAP> domMap = getTMAPFromLocalSize(offC[me + 1] - offC[me], comm);
    Teuchos::RCP<TCMAT> A = Teuchos::rcp(new TCMAT(rowMap, size_t(nC)));
    for (int i : rows)
        for (auto it = M.lower_bound({i, 0}); it != M.end() && it->first.first == i; ++it) {
            int col = it->first.second;
            double v = it->second;
            A->insertGlobalValues(i, 1, &v, &col);
        }
    A->fillComplete(domMap, rowMap);
    const std::string f = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : ".") + "/dump";
    dumpTCMAT(A, f);
    comm->barrier();
    if (me == 0) {
        std::string h;
        std::vector<long> d;
        std::vector<double> v;
        const bool ok = matrixMarket(slurp(f + "_TCMAT.mtx"), h, d, v, 3);
        if (c.expect(ok && h.find("coordinate") != std::string::npos && h.find("general") != std::string::npos && d[0] == nR && d[1] == nC &&
                         d[2] == long(M.size()) && v.size() == 3 * M.size(),
                     msg("the dump of a ", nR, " x ", nC, " matrix with ", M.size(), " entries: header '", h, "' ", v.size() / 3, " entries"))) {
            std::map<std::pair<int, int>, double> got;
            for (size_t i = 0; i < M.size(); i++)
                got[{int(v[3 * i]) - 1, int(v[3 * i + 1]) - 1}] = v[3 * i + 2];
            for (auto &m : M) {
                auto it = got.find(m.first);
                if (!c.expect(it != got.end() && close(it->second, m.second, 1e-14, 0),
                              msg("entry (", m.first.first, ",", m.first.second, ") = ", m.second, " of the matrix is ",
                                  it == got.end() ? std::string("missing from") : msg(it->second, " in"), " the dump")))
                    break;
            }
        }
        unlink((f + "_TCMAT.mtx").c_str());
    }
}

// ------------------------------------------------------------------------------------------------ C29
PBT_FACET(rngstream,
          "pools of 1 to 4 threads with random seeds; random interleavings of draws over threads and distributions are repeated in "
          "another order and from parallel regions; streams of all threads and ranks are compared; non-trivial with several streams") {
    const int keep = omp_get_max_threads();
    const int nt = c.integer(1, 4);
    omp_set_num_threads(nt);
    struct Restore {
        int n;
        ~Restore() { omp_set_num_threads(n); }
    } restore{keep};
    // any two different seeds in [0, 2^31 - 2], also ones that share their low or high bits
    const long top = 2147483646;
    auto anySeed = [&] {
        switch (c.below(4)) {
        case 0: return long(c.pick({0, 1, 2, 12345, 2147483646, 77777, 65536, 16777216}));
        case 1: return long(c.below(100000));
        case 2: return long(1) << c.below(31);
        default: return long(c.below(top + 1));
        }
    };
    const int seed = anySeed();
    const int seed2 = [&] {
        long s = anySeed();
        if (c.chance(2, 3)) {
            const long d = (long(1) << c.below(31)) * c.pick({1, 1, 3, 1000});
            s = c.chance(1, 2) ? seed + d : seed - d;
        }
        if (s < 0 || s > top || s == seed)
            s = seed > 0 ? seed - 1 : 1;
        return s;
    }();
    const double mu = c.real(-2, 2), sigma = c.logReal(0.05, 1.5);
    const bool setLN = c.chance(2, 3);
    c << "seed " << seed << " other seed " << seed2 << " threads " << nt << "\n";
    const int nOps = c.sized(0, 60);
    std::vector<std::pair<int, int>> ops;
    for (int i = 0; i < nOps; i++)
        ops.push_back({int(c.below(nt)), int(c.below(3))});
    c.nontrivial((nt > 1 || mpiSize() > 1) && nOps > 2);
    TRngPool A(seed), B(seed), D(seed2), E(seed), F(seed);
    if (setLN) {
        A.setLogNormalParameters(mu, sigma);
        B.setLogNormalParameters(mu, sigma);
        E.setLogNormalParameters(mu, sigma);
    }
    auto draw = [](TRngPool &p, int t, int k) { return k == 0 ? p.getU01(t) : k == 1 ? p.getN01(t) : p.getLN(t); };
    std::vector<std::vector<double>> a(nt), b(nt), e(nt);
    for (auto &o : ops)
        a[o.first].push_back(draw(A, o.first, o.second));
    for (int t = nt - 1; t >= 0; t--) // thread by thread
        for (auto &o : ops)
            if (o.first == t)
                b[t].push_back(draw(B, t, o.second));
    int team = 0;
#pragma omp parallel num_threads(nt)
    {
#pragma omp single
        team = omp_get_num_threads();
        const int t = omp_get_thread_num();
        for (auto &o : ops)
            if (o.first == t)
                e[t].push_back(o.second == 0 ? E.getU01() : o.second == 1 ? E.getN01() : E.getLN());
    }
    for (int t = 0; t < nt; t++) {
        c.expect(a[t] == b[t], msg("the numbers drawn on thread ", t, " depend on the order of the threads"));
        if (team == nt)
            c.expect(a[t] == e[t], msg("drawing inside a parallel region does not use the stream of thread ", t));
        for (double x : a[t])
            c.expect(std::isfinite(x), "a draw is not finite");
    }
    // no stream shares a number with another one, or with another seed
    const int K = 200;
    std::vector<double> mine;
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < K; i++)
            mine.push_back(F.getU01(t));
    std::vector<double> other;
    for (int t = 0; t < nt; t++)
        for (int i = 0; i < K; i++)
            other.push_back(D.getU01(t));
    for (double x : mine)
        c.expect(x >= 0 && x < 1, msg("uniform draw ", x));
    c.expect(mine != other, msg("seeds ", seed, " and ", seed2, " give the same numbers"));
    auto all = gatherAll(mine);
    std::map<double, std::pair<int, int>> seen;
    for (size_t r = 0; r < all.size(); r++)
        for (size_t i = 0; i < all[r].size(); i++) {
            auto ins = seen.insert({all[r][i], {int(r), int(i)}});
            c.expect(ins.second, msg("draw ", i % K, " of thread ", i / K, " on rank ", r, " equals draw ", ins.first->second.second % K,
                                     " of thread ", ins.first->second.second / K, " on rank ", ins.first->second.first));
        }
}

static double ks(std::vector<double> u) { // u: probability transforms
    std::sort(u.begin(), u.end());
    double d = 0;
    const double n = u.size();
    for (size_t i = 0; i < u.size(); i++)
        d = std::max({d, std::fabs(u[i] - i / n), std::fabs((i + 1) / n - u[i])});
    return d * std::sqrt(n);
}
static double corr(const std::vector<double> &x, const std::vector<double> &y) {
    double mx = 0, my = 0, sx = 0, sy = 0, s = 0;
    const size_t n = std::min(x.size(), y.size());
    for (size_t i = 0; i < n; i++) {
        mx += x[i] / n;
        my += y[i] / n;
    }
    for (size_t i = 0; i < n; i++) {
        sx += (x[i] - mx) * (x[i] - mx);
        sy += (y[i] - my) * (y[i] - my);
        s += (x[i] - mx) * (y[i] - my);
    }
    return s / std::sqrt(sx * sy);
}
PBT_FACET(rngdist,
          "4000 uniform, normal and log-normal draws per stream with random seeds and log-normal parameters: Kolmogorov distance to "
          "the distribution, correlation between successive draws and between streams of all threads and ranks, bounds at a "
          "probability below 1e-12 per case; every case is non-trivial") {
    const int keep = omp_get_max_threads();
    const int nt = c.integer(1, 3);
    omp_set_num_threads(nt);
    const int seed = int(c.below(1 << 30));
    const bool setLN = c.chance(4, 5);
    const double mu = setLN ? c.real(-3, 3) : 1, sigma = setLN ? c.logReal(0.01, 2) : 1;
    TRngPool p(seed);
    omp_set_num_threads(keep);
    if (setLN)
        p.setLogNormalParameters(mu, sigma);
    c << "seed " << seed << " threads " << nt << " mu " << mu << " sigma " << sigma << "\n";
    c.nontrivial();
    const int n = 4000;
    auto Phi = [](double x) { return 0.5 * std::erfc(-x / std::sqrt(2.0)); };
    std::vector<double> firstOf;
    for (int t = 0; t < nt; t++) {
        std::vector<double> u(n), z(n), l(n), zu(n), lu(n);
        for (int i = 0; i < n; i++)
            u[i] = p.getU01(t);
        for (int i = 0; i < n; i++)
            zu[i] = Phi(z[i] = p.getN01(t));
        for (int i = 0; i < n; i++) {
            l[i] = p.getLN(t);
            lu[i] = Phi((std::log(l[i]) - mu) / sigma);
        }
        const double bound = 3.9; // 2 exp(-2 d^2) = 1e-13
        c.expect(ks(u) < bound, msg("uniform draws on thread ", t, ": Kolmogorov distance ", ks(u), "/sqrt(n)"));
        c.expect(ks(zu) < bound, msg("normal draws on thread ", t, ": Kolmogorov distance ", ks(zu), "/sqrt(n)"));
        c.expect(ks(lu) < bound, msg("log-normal draws on thread ", t, ": Kolmogorov distance ", ks(lu), "/sqrt(n)"));
        auto lag = [](const std::vector<double> &x) {
            return corr(std::vector<double>(x.begin(), x.end() - 1), std::vector<double>(x.begin() + 1, x.end()));
        };
        const double cb = 7.5 / std::sqrt(double(n));
        c.expect(std::fabs(lag(u)) < cb && std::fabs(lag(zu)) < cb && std::fabs(lag(lu)) < cb, "successive draws are correlated");
        firstOf.insert(firstOf.end(), u.begin(), u.end());
        for (int i = 0; i < n; i++)
            c.expect(u[i] >= 0 && u[i] < 1 && std::isfinite(z[i]) && l[i] > 0 && std::isfinite(l[i]), "a draw is out of range");
    }
    auto all = gatherAll(firstOf);
    std::vector<std::vector<double>> st;
    for (auto &r : all)
        for (size_t k = 0; k * n < r.size(); k++)
            st.emplace_back(r.begin() + k * n, r.begin() + (k + 1) * n);
    for (size_t i = 0; i < st.size(); i++)
        for (size_t j = i + 1; j < st.size(); j++)
            for (int shift = -2; shift <= 2; shift++) {
                std::vector<double> x(st[i].begin() + std::max(0, shift), st[i].end()), y(st[j].begin() + std::max(0, -shift), st[j].end());
                c.expect(std::fabs(corr(x, y)) < 7.5 / std::sqrt(double(n) - 2), msg("streams ", i, " and ", j, " are correlated at shift ", shift));
            }
}

// ------------------------------------------------------------------------------------------------ C35
PBT_FACET(points,
          "point sets of 0 to 1000 points with 1 to 6 numbers each: fixed and random generation in boxes of many sizes, shifting, "
          "scattering from rank 0, collecting on one and on all ranks, dumping and parsing; compared with the definition and with the "
          "set on rank 0 in order; non-trivial with more than one point") {
    const double box = c.logReal(1e-3, 1e3), shift = c.real(-1, 1) * c.pick({0.0, 1.0, 100.0});
    std::mt19937_64 g(c.seed64());
    auto near = [](double x, double y, double scale) { return std::fabs(x - y) <= 8e-16 * (scale + std::fabs(x)); };
    switch (c.below(5)) {
    case 0: { // fixed
        const int n = c.pick({1, 2, 4});
        static const double f1[] = {0.7, 0.6, 0.4}, f2[] = {0.7, 0.6, 0.5, 0.2, 0.8, 0.7},
                            f4[] = {0.1, 0.1, 0.1, 0.2, 0.2, 0.2, 0.3, 0.3, 0.3, 0.4, 0.4, 0.4};
        const double *f = n == 1 ? f1 : n == 2 ? f2 : f4;
        std::vector<double> p;
        fixedPoints(n, box, shift, p);
        c << "fixed " << n << "\n";
        c.label("fixed");
        c.nontrivial(n > 1);
        if (c.expect(p.size() == size_t(3 * n), msg(n, " fixed points asked for, ", p.size() / 3.0, " made")))
            for (int i = 0; i < 3 * n; i++)
                c.expect(near(p[i], f[i] * box + shift, box + std::fabs(shift)), msg("coordinate ", i, " of ", n, " fixed points is ", p[i]));
        break;
    }
    case 1: { // random
        const int n = c.integer(0, 8);
        std::vector<double> p(c.below(10), 3.3), q;
        randomPoints(n, box, shift, p);
        randomPoints(n, box, shift, q);
        c << "random " << n << " box " << box << " shift " << shift << "\n";
        c.label("random");
        c.nontrivial(n > 0);
        c.expect(p.size() == size_t(3 * (n + 1) * (n + 1) * (n + 1)), msg("random points of order ", n, ": ", p.size() / 3.0));
        c.expect(p == q, "random points differ from call to call");
        std::set<double> distinct(p.begin(), p.end());
        c.expect(p.size() < 2 || distinct.size() * 2 > p.size(), "random points coincide");
        for (double x : p)
            c.expect(x >= shift - 1e-15 * std::fabs(shift) && x <= shift + box + 1e-15 * (box + std::fabs(shift)),
                     msg("random coordinate ", x, " outside [", shift, ",", shift + box, ")"));
        // shift and scale
        double sh[3] = {c.real(-5, 5), c.real(-5, 5), c.real(-5, 5)};
        const double sc = c.logReal(1e-2, 1e2);
        q = p;
        shiftAndScalePoints(q, sh, sc);
        if (c.expect(q.size() == p.size(), "shifting changed the number of points"))
            for (size_t i = 0; i < p.size(); i++)
                c.expect(near(q[i], p[i] * sc + sh[i % 3], std::fabs(p[i] * sc) + std::fabs(sh[i % 3])), msg("point coordinate ", i, " shifted and scaled"));
        break;
    }
    case 2: { // fills
        const int n = c.chance(1, 2) ? 3000 : c.sized(0, 50), seed = c.below(1 << 30);
        const double low = c.real(-10, 10), high = low + c.logReal(1e-3, 1e2);
        std::vector<double> v(n, 5.0), w(n, 6.0), x(n, 7.0);
        randomUniformFill(v, low, high, seed);
        randomUniformFill(w, low, high, seed);
        randomUniformFill(x, low, high, seed + 1);
        c << "fill " << n << " seed " << seed << "\n";
        c.label("fill");
        c.nontrivial(n > 1);
        c.expect(int(v.size()) == n && v == w, "a uniform fill is not repeatable");
        c.expect(n == 0 || v != x, "uniform fills of different seeds are equal");
        std::vector<double> u;
        for (double y : v) {
            c.expect(y >= low && y <= high, msg("uniform fill ", y, " outside [", low, ",", high, ")"));
            u.push_back((y - low) / (high - low));
        }
        const double med = c.logReal(0.1, 10), sg = c.logReal(0.1, 2);
        std::vector<double> l(n, 8.0), l2(n, 9.0), ul;
        randomLogNormalFill(l, med, sg, seed);
        randomLogNormalFill(l2, med, sg, seed);
        c.expect(int(l.size()) == n && l == l2, "a log-normal fill is not repeatable");
        for (double y : l) {
            c.expect(y > 0 && std::isfinite(y), msg("log-normal fill ", y));
            ul.push_back(0.5 * std::erfc(-(std::log(y) - std::log(med)) / sg / std::sqrt(2.0)));
        }
        if (n >= 1000) {
            c.expect(ks(u) < 3.9, "a uniform fill is not uniform");
            c.expect(ks(ul) < 3.9, "a log-normal fill does not have the median and width asked for");
        }
        break;
    }
    case 3: { // scatter and gather
        const int dim = c.integer(1, 6), n = c.chance(1, 8) ? 0 : c.sized(0, c.chance(1, 10) ? 1000 : 40);
        std::vector<double> full(n * dim);
        for (double &x : full)
            x = value(c, g, 0);
        std::vector<double> p = full;
        if (mpiRank() != 0)
            p.assign(c.integer(0, 20), 1e99);
        else
            c.integer(0, 20);
        c << "scatter " << n << " points of dimension " << dim << "\n";
        c.label("scatter");
        c.nontrivial(n > 1);
        distributePts(p, dim);
        c.expect(p.size() % dim == 0, msg("a rank got ", p.size(), " numbers of points of dimension ", dim));
        auto parts = gatherAll(p);
        std::vector<double> cat;
        for (auto &q : parts)
            cat.insert(cat.end(), q.begin(), q.end());
        c.expect(cat == full, msg("scattering ", n, " points over ", mpiSize(), " ranks gives ", cat.size() / dim, " points, or other points"));
        const auto mine = p;
        std::vector<double> one = p, all = p;
        collectPts(one);
        c.expect(mpiRank() == 0 ? one == full : one.empty(), "collecting on rank 0 does not give the points back in order");
        collectPtsAll(all);
        c.expect(all == full, "collecting on all ranks does not give the points back in order");
        break;
    }
    default: { // ragged gather and dump
        const int dim = c.integer(0, 4);
        std::vector<int> cnt;
        for (int r = 0; r < mpiSize(); r++)
            cnt.push_back(c.chance(1, 4) ? 0 : c.sized(0, 30));
        std::vector<std::vector<double>> co(mpiSize()), va(mpiSize());
        std::vector<double> coAll, vaAll;
        const double scale = c.pick({1.0, 1000.0, 0.01});
        for (int r = 0; r < mpiSize(); r++) {
            co[r].resize(3 * cnt[r]);
            va[r].resize(dim * cnt[r]);
            for (double &x : co[r])
                x = scale * value(c, g, 0);
            for (double &x : va[r])
                x = scale * value(c, g, 0);
            coAll.insert(coAll.end(), co[r].begin(), co[r].end());
            vaAll.insert(vaAll.end(), va[r].begin(), va[r].end());
        }
        const int n = coAll.size() / 3;
        c << "dump " << n << " points with " << dim << " values\n";
        c.label("dump");
        c.nontrivial(n > 1);
        std::vector<double> x = co[mpiRank()], y = va[mpiRank()];
        collectPtsAll(x);
        c.expect(x == coAll, "collecting unevenly spread points on all ranks");
        x = co[mpiRank()];
        const std::string f = std::string(getenv("PBT_SCRATCH") ? getenv("PBT_SCRATCH") : ".") + "/points.txt";
        dumpPoints(f, x, y, dim);
        c.expect(x == co[mpiRank()] && y == va[mpiRank()], "dumping changed the points");
        MPI_Barrier(MPI_COMM_WORLD);
        if (mpiRank() == 0) {
            std::istringstream in(slurp(f));
            std::string line;
            int i = 0;
            while (std::getline(in, line)) {
                std::replace(line.begin(), line.end(), ';', ' ');
                std::istringstream l(line);
                std::vector<double> v;
                double q;
                while (l >> q)
                    v.push_back(q);
                if (!c.expect(int(v.size()) == 3 + dim && i < n, msg("line ", i, " of the dump of ", n, " points has ", v.size(), " numbers")))
                    break;
                for (int k = 0; k < 3 + dim; k++) {
                    const double w = k < 3 ? coAll[3 * i + k] : vaAll[dim * i + k - 3];
                    c.expect(std::fabs(v[k] - w) <= 5.01e-7, msg("number ", k, " of dumped point ", i, " is ", v[k], ", not ", w));
                }
                i++;
            }
            c.expect(i == n, msg(n, " points dumped, ", i, " read"));
            unlink(f.c_str());
        }
    }
    }
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    int noArg = 1;
    char *name[] = {argv[0], nullptr};
    char **nameP = name;
    if (!getenv("PBT_KEEP_STDOUT") && !freopen("/dev/null", "w", stdout))
        return 3;
    PS::Initialize(noArg, nameP);
    spdlog::set_level(spdlog::level::err);
    int r = pbt::run(argc, argv);
    PS::Finalize();
    int fin = 0;
    MPI_Finalized(&fin);
    if (!fin)
        MPI_Finalize();
    return r;
}

/// what rank 0 prints while it runs
template <class F>
static std::string printed(F f) {
    const std::string name = msg("printed-", getpid(), ".tmp");
    fflush(stdout);
    const int keep = dup(1), to = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0600);
    dup2(to, 1);
    close(to);
    f();
    fflush(stdout);
    dup2(keep, 1);
    close(keep);
    const std::string text = slurp(name);
    remove(name.c_str());
    return text;
}
PBT_FACET(errors,
          "distributed value sets of 1 to 200 numbers spread unevenly over the ranks, and values off by known amounts; the error figures "
          "and the verdict printed on rank 0 are compared with their definitions in long double; non-trivial with an error") {
    const int n = c.sized(1, 200), me = mpiRank(), np = mpiSize();
    std::mt19937_64 g(c.seed64());
    std::normal_distribution<double> N(0, 1);
    const double scale = c.logReal(1e-3, 1e3), err = c.pick({0.0, 1e-12, 1e-6, 1e-3, 1.0});
    std::vector<double> truth(n), value(n);
    for (int i = 0; i < n; i++) {
        truth[i] = scale * N(g);
        value[i] = truth[i] * (1 + (i == n / 2 ? 5 : 1) * err * N(g));
    }
    std::vector<int> cut(np + 1, 0);
    cut[np] = n;
    for (int r = 1; r < np; r++)
        cut[r] = c.below(n + 1);
    std::sort(cut.begin(), cut.end());
    // values and truth need not be spread alike
    std::vector<int> cut2 = cut;
    if (c.chance(1, 3)) {
        for (int r = 1; r < np; r++)
            cut2[r] = c.below(n + 1);
        std::sort(cut2.begin(), cut2.end());
    }
    long double sum2 = 0, sum1 = 0, t2 = 0, mx = 0, rel = 0;
    for (int i = 0; i < n; i++) {
        const long double d = fabsl((long double)truth[i] - value[i]);
        sum2 += d * d, sum1 += d, t2 += (long double)truth[i] * truth[i];
        mx = std::max(mx, d), rel = std::max(rel, d / fabsl(truth[i]));
    }
    const long double want[5] = {mx, rel, sum1 / n, sqrtl(sum2 / n), sqrtl(sum2 / t2)};
    const double bar = c.chance(1, 3) ? 0.0 : double(std::max({mx, rel, sum1, want[3], want[4]})) * c.pick({1e-3, 0.5, 0.99, 1.01, 2.0, 1e6}) + (err == 0 ? c.pick({0.0, 1.0}) : 0.0);
    c << n << " values, error " << err << ", bar " << bar;
    c.nontrivial(err > 0);
    const std::string text = printed([&] {
        checkError(std::vector<double>(value.begin() + cut[me], value.begin() + cut[me + 1]), std::vector<double>(truth.begin() + cut2[me], truth.begin() + cut2[me + 1]), bar);
    });
    if (me == 0) {
        static const char *what[] = {"Max Abs Error L2:", "Max Rel Error L2:", "Ave Abs Error L2:", "RMS Error L2:", "Relative Error L2:"};
        for (int k = 0; k < 5; k++) {
            const size_t p = text.find(what[k]);
            if (!c.expect(p != std::string::npos, msg(what[k], " is missing")))
                continue;
            const double got = strtod(text.c_str() + p + strlen(what[k]), nullptr);
            c.expect(std::fabs(got - double(want[k])) <= 1e-9 * double(want[k]), msg(what[k], " ", got, " instead of ", double(want[k])));
        }
        const bool pass = text.find("Test Pass") != std::string::npos, fail = text.find("Error larger") != std::string::npos;
        const bool good = mx < bar && rel < bar && sum1 < bar && want[3] < bar && want[4] < bar;
        c.expect(pass == (bar > 0 && good) && fail == (bar > 0 && !good), msg("the verdict for bar ", bar, " is ", pass ? "pass" : fail ? "fail" : "none"));
        c.label(bar > 0 ? good ? "pass" : "fail" : "no bar");
    } else {
        c.expect(text.find("Error") == std::string::npos, "another rank than 0 reports");
    }
}
