// C23: next_dirichlet on a grid of parameter vectors.
#include "common.h"
#include "fast_random.h"

using namespace vt;

typedef std::vector<double> Doubles;

static std::string text(const Doubles &p) {
    std::string r = "(";
    for (size_t i = 0; i < p.size() && i < 20; i++) r += (i ? " " : "") + str(p[i]);
    return r + (p.size() > 20 ? " ...)" : ")");
}

static Doubles sample(const Doubles &p) {
    Doubles out(p.size(), -7);
    next_dirichlet(p, &out);
    return out;
}

static void check(Run &R, const Doubles &p) {
    Doubles x = sample(p);
    R.transition();
    R.log([&] { return text(p) + " -> " + text(x); });
    CHECK_THAT(x.size() == p.size(), "the sample for " + text(p) + " has " + str(x.size()) + " components");
    double total = 0, sum = 0;
    for (double v : x) {
        CHECK_THAT(v >= 0 && v <= 1 + 1e-12, "the sample for " + text(p) + " has a component " + str(v));
        sum += v;
    }
    for (double a : p) total += a;
    CHECK_THAT(std::fabs(sum - 1) < 1e-9, "the sample for " + text(p) + " sums up to " + str(sum));
    for (size_t i = 0; i < p.size(); i++) {
        // exponential bounds of the beta distribution for 1e-14
        double mean = p[i] / total, sd = std::sqrt(mean * (1 - mean) / (total + 1));
        double slack = 8 * sd + 34 / (total + 1);
        CHECK_THAT(std::fabs(x[i] - mean) <= slack, "component " + str(i) + " of the sample for " + text(p) + " is " + str(x[i]) + ", the mean " +
                   str(mean) + ", the standard deviation " + str(sd));
    }
    uint64_t h = 5;
    for (double v : x) {
        uint64_t b;
        memcpy(&b, &v, 8);
        h = mix(h, b);
    }
    R.state(h);
}

static void explore(Run &R) {
    const Doubles grid{1, 2, 5, 40, 1000, 30000, 1e7};
    const int longest = R.thorough ? 7 : 5;
    std::vector<Doubles> level{{}};
    for (int len = 1; len <= longest; len++) {
        std::vector<Doubles> next;
        for (const Doubles &p : level)
            for (double a : grid) {
                next.push_back(p);
                next.back().push_back(a);
            }
        level = next;
        const size_t group = 49;
        for (size_t from = 0; from < level.size(); from += group)
            R.kase([&] { return "parameter vectors of length " + str(len) + " from " + text(level[from]); }, [&] {
                std::vector<Doubles> first;
                for (size_t i = from; i < std::min(level.size(), from + group); i++) {
                    check(R, level[i]);
                    first.push_back(sample(level[i]));
                }
                // nothing but the parameters matters
                for (size_t i = std::min(level.size(), from + group); i-- > from;) {
                    Doubles again(level[i].size(), 0.5);
                    next_dirichlet(level[i], &again);
                    CHECK_THAT(again == first[i - from], "two samples for " + text(level[i]) + " differ: " + text(first[i - from]) + " and " + text(again));
                }
                R.trace();
            });
    }
    // long vectors
    for (size_t n : {10, 100, 1000, 20000, 200000})
        for (double a : grid)
            for (size_t hot : {size_t(0), n / 2, n - 1})
                for (double b : {1., 1000., 1e7})
                    R.kase([&] { return str(n) + " parameters " + str(a) + ", the one at " + str(hot) + " is " + str(b); }, [&] {
                        Doubles p(n, a);
                        p[hot] = b;
                        check(R, p);
                        CHECK_THAT(sample(p) == sample(p), "two samples differ");
                        R.trace();
                    });
    // samples for different vectors are not a function of the length alone and mean over many vectors is right
    R.kase([&] { return std::string("components of a long vector scatter as they should"); }, [&] {
        const size_t n = 20000;
        for (double a : {1., 5., 40.}) {
            Doubles x = sample(Doubles(n, a));
            // n * component is about gamma(a)/a: mean 1, variance 1/a
            double var = 0;
            for (double v : x) var += (v * n - 1) * (v * n - 1);
            var /= double(n);
            CHECK_THAT(std::fabs(var - 1 / a) < 0.15 / a, "the variance of the components for parameter " + str(a) + " is " + str(var) +
                       " relative to the mean instead of " + str(1 / a));
            R.transition();
        }
        R.trace();
    });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
