// Stand-in for the part of TRNG (Tina's RNG library, not installable here) that SimToolbox uses.
// mrg5: the five-term multiple recursive generator of TRNG (modulus 2^31-1, LEcuyer1 coefficients) with
// leapfrogging: split(s, n) turns the engine into the one that yields elements n, n+s, n+2s... of its sequence.
// The decimated sequence is produced by stepping the base generator, which is slower than TRNG's recomputed
// coefficients but gives the same numbers.
#ifndef VERIF_TRNG_ENGINE
#define VERIF_TRNG_ENGINE
#include <cstdint>
#include <cmath>
#include <iostream>
namespace trng {
class mrg5 {
    static constexpr std::int64_t M = 2147483647;
    std::int64_t a[5] = {107374182, 0, 0, 0, 104480};
    std::int64_t r[5] = {0, 1, 1, 1, 1};
    std::uint64_t stride = 1; // base steps per number
    std::uint64_t skip = 0;   // base steps still to do before the first number's step
    void step() {
        std::int64_t t = 0;
        for (int i = 0; i < 5; i++)
            t = (t + a[i] * r[i]) % M;
        for (int i = 4; i > 0; i--)
            r[i] = r[i - 1];
        r[0] = t;
    }
    bool first = true; // sequence element 0 of the current stream not yet emitted

  public:
    using result_type = std::int64_t;
    static constexpr result_type min() { return 0; }
    static constexpr result_type max() { return M - 1; }
    mrg5() = default;
    void seed() { *this = mrg5(); }
    void seed(unsigned long s) {
        *this = mrg5();
        std::int64_t t = static_cast<std::int64_t>(s % M);
        if (t < 0)
            t += M;
        r[0] = t;
    }
    // element index within the present stream: first number is base element `skip+1`
    void split(unsigned int s, unsigned int n) {
        skip += static_cast<std::uint64_t>(n) * stride;
        stride *= s;
    }
    result_type operator()() {
        if (first) {
            for (std::uint64_t i = 0; i < skip + 1; i++)
                step();
            first = false;
        } else {
            for (std::uint64_t i = 0; i < stride; i++)
                step();
        }
        return r[0];
    }
    static const char *name() { return "mrg5"; }
};
class lcg64_shift {
  public:
    lcg64_shift() = default;
};
namespace verif {
template <class R>
double u01co(R &r) { // [0,1): two draws give 53+ bits
    const double d = static_cast<double>(R::max()) + 1.0;
    double u = (static_cast<double>(r()) + static_cast<double>(r()) / d) / d;
    return u < 1.0 ? u : 0.99999999999999988898;
}
template <class R>
double n01(R &r) { // Box-Muller without a cached second value: three... two uniforms per number
    double u = u01co(r), v = u01co(r);
    return std::sqrt(-2.0 * std::log(1.0 - u)) * std::cos(6.283185307179586476925 * v);
}
} // namespace verif
template <class T = double>
class uniform01_dist {
  public:
    template <class R>
    T operator()(R &r) { return verif::u01co(r); }
};
template <class T = double>
class normal_dist {
    T mu, sigma;

  public:
    normal_dist(T m, T s) : mu(m), sigma(s) {}
    template <class R>
    T operator()(R &r) { return mu + sigma * verif::n01(r); }
};
template <class T = double>
class lognormal_dist {
    T mu, sigma;

  public:
    lognormal_dist(T m, T s) : mu(m), sigma(s) {}
    template <class R>
    T operator()(R &r) { return std::exp(mu + sigma * verif::n01(r)); }
};
} // namespace trng
#endif
