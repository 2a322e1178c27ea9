/** pair contact blocks (C03) */
#include "gen_geom.hpp"
#include "ref_pair.hpp"

#include "Sylinder/SylinderNear.hpp"

using namespace pbt;
using gen::A3;

PBT_FACET(pairblock,
          "a cloud of 2 to 5 near particles (rods, short sphere-like bodies, spheres; different radii, lengths, buffers, "
          "collision size ratios) in random relative positions, often touching or overlapping; the contact functor is called "
          "with every particle as target; non-trivial when at least one pair is within its buffer") {
    const double scale = c.chance(1, 3) ? 1.0 : c.logReal(1e-3, 1e3);
    const int n = c.integer(2, 5);
    std::vector<RefRod> rods;
    std::vector<SylinderNearEP> ep;
    for (int i = 0; i < n; i++) {
        RefRod r;
        r.gid = c.chance(1, 4) ? int(c.below(2147483000)) : int(c.below(12));
        while (std::count_if(rods.begin(), rods.end(), [&](const RefRod &o) { return o.gid == r.gid; }))
            r.gid++;
        r.radius = scale * (c.chance(1, 3) ? 0.5 : c.logReal(0.05, 2));
        r.length = c.chance(1, 4) ? 0.0 : c.chance(1, 3) ? r.radius * c.generic(0, 4) : scale * c.logReal(0.05, 20);
        r.buf = c.chance(1, 4) ? 0.0 : c.real(0, 1);
        r.dir = gen::dir(c);
        const double reach = 0.5 * r.length + r.radius;
        if (i == 0 || c.chance(1, 8)) {
            r.pos = gen::vec(c, -reach, reach);
        } else { // near a point of an earlier rod
            const RefRod &o = rods[c.below(rods.size())];
            A3 p = gen::add(o.pos, o.dir, c.real(-0.5, 0.5) * o.length);
            double gap = (o.coreRadius() + r.coreRadius()) * c.pick({0.0, 0.2, 0.5, 0.9, 1.0, 1.1, 1.3, 1.6, 2.0});
            p = gen::add(p, gen::dir(c), gap * (1 + c.generic(-0.05, 0.05)));
            r.pos = gen::add(p, r.dir, c.real(-0.5, 0.5) * r.length);
        }
        rods.push_back(r);
        SylinderNearEP e;
        e.gid = r.gid;
        e.globalIndex = i + 100;
        e.rank = 0;
        // the true (not collision) size is irrelevant for contacts
        e.radius = r.radius * c.pick({1.0, 1.0, 0.5, 2.0});
        e.length = r.length * c.pick({1.0, 1.0, 0.5, 2.0});
        e.radiusCollision = r.radius;
        e.lengthCollision = r.length;
        e.colBuf = r.buf;
        std::copy(r.pos.begin(), r.pos.end(), e.pos);
        std::copy(r.dir.begin(), r.dir.end(), e.direction);
        ep.push_back(e);
        c << "gid " << r.gid << " r " << r.radius << " L " << r.length << " buf " << r.buf << " pos " << gen::show(r.pos) << " dir "
          << gen::show(r.dir) << "; ";
    }
    auto pool = std::make_shared<ConstraintBlockPool>();
    pool->resize(1);
    CalcSylinderNearForce ftr(pool);
    std::vector<ForceNear> force(n);
    ftr(ep.data(), n, ep.data(), n, force.data());
    const auto &que = (*pool)[0];
    std::map<std::pair<int, int>, int> count;
    std::vector<char> seen(que.size(), 0);
    for (int i = 0; i < n; i++) {
        for (int j = 0; j < n; j++) {
            if (rods[i].gid >= rods[j].gid)
                continue;
            const RefRod &I = rods[i], &J = rods[j];
            const double sep = refSeparation(I, J);
            const double thr = I.bufLength() + J.bufLength();
            const double tol = 1e-12 * (I.size() + J.size() + gen::nrm(I.pos) + gen::nrm(J.pos));
            const ConstraintBlock *b = nullptr;
            int found = 0;
            for (size_t k = 0; k < que.size(); k++) {
                if ((que[k].gidI == I.gid && que[k].gidJ == J.gid) || (que[k].gidI == J.gid && que[k].gidJ == I.gid)) {
                    b = &que[k];
                    seen[k] = 1;
                    found++;
                }
            }
            const std::string who = msg("pair ", I.gid, " ", J.gid, " with surface separation ", sep, " and buffer ", thr, ": ");
            if (sep < thr - tol - distanceSlack(I, J, sep + I.coreRadius() + J.coreRadius())) {
                c.nontrivial();
                c.label(msg(I.isSphere() ? "sphere" : "rod", "-", J.isSphere() ? "sphere" : "rod"));
                c.label("overlap", sep < 0);
                c.require(found == 1, msg(who, found, " constraints"));
            } else if (sep > thr + tol) {
                c.require(found == 0, msg(who, "a constraint although not near"));
            }
            c.require(found <= 1, msg(who, found, " constraints"));
            if (!found)
                continue;
            const std::string bad = checkPairBlock(*b, I, J, i + 100, j + 100, I.pos, J.pos, sep, tol);
            c.require(bad.empty(), who + bad);
        }
    }
    for (size_t k = 0; k < que.size(); k++)
        c.require(seen[k], msg("constraint between unknown particles ", que[k].gidI, " ", que[k].gidJ));
}

/// search radius: a pair within its buffer is always within reach of the neighbour search
PBT_FACET(searchradius,
          "two near particles with generated true and collision sizes and buffers, as copied from full particles; the larger "
          "search radius must cover every centre distance at which a contact can be recorded; always non-trivial") {
    c.nontrivial();
    double reach = 0, rmax = 0;
    for (int i = 0; i < 2; i++) {
        double radius = c.logReal(0.01, 10), length = c.chance(1, 4) ? 0.0 : c.logReal(0.01, 100);
        double dr = c.chance(1, 2) ? 1.0 : c.logReal(0.2, 5), lr = c.chance(1, 2) ? 1.0 : c.logReal(0.2, 5);
        double pos[3] = {0, 0, 0};
        auto q = gen::quat(c);
        Sylinder sy(3, radius, radius * dr, length, length * lr, pos, q.data());
        sy.colBuf = c.chance(1, 4) ? 0 : c.real(0, 1);
        sy.globalIndex = 7;
        sy.rank = 2;
        SylinderNearEP e;
        e.copyFromFP(sy);
        c << "radius " << radius << " length " << length << " ratios " << dr << " " << lr << " buf " << sy.colBuf << "; ";
        c.require(e.gid == 3 && e.globalIndex == 7 && e.rank == 2 && e.radius == radius && e.length == length &&
                      e.radiusCollision == radius * dr && e.lengthCollision == length * lr && e.colBuf == sy.colBuf,
                  "near particle does not carry the particle's data");
        const ref::Q qq{q[3], q[0], q[1], q[2]};
        const ref::V3 d = qq.rot(ref::V3(0, 0, 1));
        for (int k = 0; k < 3; k++)
            c.require(std::fabs(double(d[k]) - e.direction[k]) < 1e-14, "near particle direction");
        RefRod r;
        r.radius = e.radiusCollision;
        r.length = e.lengthCollision;
        r.buf = e.colBuf;
        reach += r.outer() + r.bufLength();
        rmax = std::max(rmax, e.getRSearch());
    }
    c.require(rmax * (1 + 1e-12) >= reach, msg("contacts are possible up to centre distance ", reach, ", the search stops at ", rmax));
}

int main(int argc, char **argv) {
    MPI_Init(&argc, &argv);
    spdlog::set_level(spdlog::level::off);
    int r = pbt::run(argc, argv);
    MPI_Finalize();
    return r;
}
