/** reference model of the boundary shapes */
#pragma once
#include "gen_geom.hpp"
#include "Boundary/Boundary.hpp"
#include <memory>

struct RefBoundary {
    int type = 0; // 0 wall, 1 tube, 2 sphere
    gen::A3 center{0, 0, 0}, dir{0, 0, 1}; // dir: wall normal or tube axis as given (not normalised)
    double radius = 0;
    bool inside = true;

    const char *name() const { return type == 0 ? "wall" : type == 1 ? "tube" : "sphere"; }
    std::string show() const {
        return pbt::msg(name(), " center ", gen::show(center), type == 2 ? "" : " dir " + gen::show(dir),
                        type ? pbt::msg(" radius ", radius, inside ? " inside" : " outside") : "");
    }
    static RefBoundary generate(pbt::Case &c, double scale) {
        RefBoundary b;
        b.type = c.below(3);
        b.center = gen::vec(c, -3 * scale, 3 * scale);
        b.dir = gen::scale(gen::dir(c), c.chance(1, 2) ? 1.0 : c.logReal(0.01, 100));
        if (b.type)
            b.radius = c.chance(1, 3) ? scale : c.logReal(0.05 * scale, 20 * scale);
        b.inside = !c.chance(1, 2);
        return b;
    }
    ref::V3 axis() const { return ref::V3(dir.data()).unit(); }
    /// from the centre (sphere) or the axis (tube)
    ref::V3 radial(const ref::V3 &q) const {
        ref::V3 r = q - ref::V3(center.data());
        if (type == 1) {
            const ref::V3 a = axis();
            r = r - a * r.dot(a);
        }
        return r;
    }
    /// signed distance to the boundary, positive on the allowed side
    ref::R clearance(const ref::V3 &q) const {
        if (type == 0)
            return (q - ref::V3(center.data())).dot(axis());
        const ref::R d = ref::R(radius) - radial(q).norm();
        return inside ? d : -d;
    }
    /// unit normal towards the allowed side at a boundary point
    ref::V3 normalAt(const ref::V3 &p) const {
        if (type == 0)
            return axis();
        const ref::V3 n = radial(p).unit();
        return inside ? n * -1 : n;
    }
    /// a query point: generic, close to the surface on either side, far, or at / near the singular set
    gen::A3 query(pbt::Case &c, double scale) const {
        using namespace gen;
        const int k = c.below(8);
        if (type == 0) {
            if (k < 4) {
                A3 u = normalized(dir);
                A3 t1 = perp(u), t2 = cross(u, t1);
                double h = k == 0 ? c.real(-0.1, 0.1) * scale : c.real(-3, 3) * scale;
                return add(add(add(center, u, h), t1, c.real(-5, 5) * scale), t2, c.real(-5, 5) * scale);
            }
            return vec(c, -10 * scale, 10 * scale);
        }
        if (k == 7)
            return vec(c, -10 * scale, 10 * scale);
        A3 d = gen::dir(c);
        A3 base = center;
        if (type == 1) {
            A3 u = normalized(dir);
            A3 t1 = perp(u), t2 = cross(u, t1);
            double phi = c.real(0, 2 * M_PI);
            d = add(scale3(t1, std::cos(phi)), t2, std::sin(phi));
            base = add(center, u, c.real(-5, 5) * scale);
        }
        double r = 0;
        if (k == 0)
            r = radius * c.pick({0.0, 1e-14, 1e-10, 1e-5});
        else if (k < 3)
            r = radius * (1 + c.pick({1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 0.05, -0.05}));
        else if (k < 5)
            r = radius * c.real(0, 1);
        else
            r = radius * c.real(1, 4);
        return add(base, d, r);
    }
    static gen::A3 scale3(const gen::A3 &a, double s) { return gen::scale(a, s); }

    std::unique_ptr<Boundary> makeCtor() const {
        double ce[3] = {center[0], center[1], center[2]}, d[3] = {dir[0], dir[1], dir[2]};
        if (type == 0)
            return std::unique_ptr<Boundary>(new Wall(ce, d));
        if (type == 1)
            return std::unique_ptr<Boundary>(new Tube(ce, d, radius, inside));
        return std::unique_ptr<Boundary>(new SphereShell(ce, radius, inside));
    }
    static std::string list(const gen::A3 &a) {
        char b[128];
        snprintf(b, sizeof b, "[%.17g, %.17g, %.17g]", a[0], a[1], a[2]);
        return b;
    }
    std::vector<std::string> yamlLines(pbt::Case &c) const {
        char rb[64];
        snprintf(rb, sizeof rb, "%.17g", radius);
        std::vector<std::string> l;
        l.push_back(std::string("type: ") + name());
        l.push_back("center: " + list(center));
        if (type == 0)
            l.push_back("norm: " + list(dir));
        if (type == 1)
            l.push_back("axis: " + list(dir));
        if (type) {
            l.push_back(std::string("radius: ") + rb);
            l.push_back(std::string("inside: ") + (inside ? "true" : "false"));
        }
        for (size_t i = l.size(); i > 1; i--)
            std::swap(l[i - 1], l[i - 1 - c.below(i)]);
        return l;
    }
    std::string yamlItem(pbt::Case &c, const std::string &indent) const {
        std::string s;
        bool first = true;
        for (auto &l : yamlLines(c)) {
            s += indent + (first ? "- " : "  ") + l + "\n";
            first = false;
        }
        return s;
    }
    std::unique_ptr<Boundary> makeYaml(pbt::Case &c) const {
        std::string s;
        for (auto &l : yamlLines(c))
            s += l + "\n";
        YAML::Node n = YAML::Load(s);
        if (type == 0)
            return std::unique_ptr<Boundary>(new Wall(n));
        if (type == 1)
            return std::unique_ptr<Boundary>(new Tube(n));
        return std::unique_ptr<Boundary>(new SphereShell(n));
    }
    /// as the configuration holds it
    std::shared_ptr<Boundary> makeShared() const { return std::shared_ptr<Boundary>(makeCtor().release()); }
};
