// C20: fit of batch models for all outcomes of the random choices.
#include "batch.h"

using namespace vt;

extern "C" int rand() noexcept {
    RandScript &s = rand_script();
    size_t i = s.calls++;
    return s.values.empty() ? 0 : s.values[i % s.values.size()];
}

static const Seqs &probes() {
    static const Seqs p{{}, {10}, {77}, {10, 20, 10, 20, 30}, {77, 10, 99, 20, 20}, {0, 1, 2}, {30, 30, 20, 10, 40}, {-1, 10}};
    return p;
}

static void one(Run &R, int size, int iters, const Seqs &train, const std::vector<int> &choices, const Seqs &other) {
    const int n = int(train.size());
    IntVGram m(size, iters, (size + iters) & 1);      // verbosity does not matter
    script_choices(choices, n);
    IntVGram *res = m.fit(train);
    CHECK_THAT(res == &m, "fit does not return the model");
    // the same texts accepted by a stream model
    IntStreamVGram twin(size, 0);
    for (int i = 0, k = 0; i < iters * n; i++) twin.accept(train[choices[k++ % choices.size()]]);
    twin.update_dict();
    for (const IntSeq &s : train) twin.get_coder()->encode(s);
    twin.update_dict();
    Seqs alpha = m.alphabet();
    R.log([&] { return "fitted: " + show_all(alpha, m.freqs()); });
    CHECK_THAT(alpha == twin.alphabet(), "after fit the alphabet is " + str(alpha) + ", that of a model that accepted the chosen texts " + str(twin.alphabet()));
    check_fitted(m, train, "after fit");
    IntSeq counts(alpha.size(), 0);
    for (const IntSeq &s : train)
        for (int id : twin.parse(s)) counts[id]++;
    CHECK_THAT(m.freqs() == counts, "after fit the frequencies are " + show_all(alpha, m.freqs()) + ", counted on the texts " + show_all(alpha, counts));
    check_transform(m, train, "after fit");
    check_transform(m, probes(), "after fit");
    // fitting again changes nothing
    IntSeq freqs = m.freqs();
    Seqs coded = m.transform(probes());
    for (const Seqs *again : {&train, &other}) {
        rand_script().values = {3, 1, 4, 1, 5};
        CHECK_THAT(m.fit(*again) == &m, "fit of a fitted model does not return it");
        CHECK_THAT(m.alphabet() == alpha && m.freqs() == freqs && m.transform(probes()) == coded, "fitting again changes the model to " +
                   show_all(m.alphabet(), m.freqs()) + " from " + show_all(alpha, freqs));
    }
    // no other text was accepted: the two models go on alike
    for (const IntSeq &s : {IntSeq{}, IntSeq{10, 20, 77}}) {
        m.accept(s);
        twin.accept(s);
        m.update_dict();
        twin.update_dict();
        CHECK_THAT(m.alphabet() == twin.alphabet() && m.freqs() == twin.freqs(), "going on after fit gives " + show_all(m.alphabet(), m.freqs()) +
                   ", a model that accepted the chosen texts goes on with " + show_all(twin.alphabet(), twin.freqs()));
    }
    R.transition(uint64_t(iters * n + 2));
    R.trace();
    R.state(hash_str(show_all(alpha, freqs)));
}

static IntSeq repeat(const IntSeq &s, size_t n) {
    IntSeq r;
    while (!s.empty() && r.size() < n) r.push_back(s[r.size() % s.size()]);
    return r;
}

// all outcomes of the first draws, then a cycle
static void all_choices(Run &R, int size, int iters, const Seqs &train, int max_draws, const std::string &name) {
    const int n = int(train.size());
    const Seqs other{{77, 77, 10}, {10, 10, 20, 20}};
    int draws = std::max(1, std::min(n * iters, max_draws));
    for_all(std::max(1, n), draws, [&](const std::vector<int> &c) {
        R.kase([&] { return "size " + str(size) + ", " + str(iters) + " iterations, " + name + ", chosen " + str(IntSeq(c)); },
               [&] { one(R, size, iters, train, c, other); });
    });
}

static void explore(Run &R) {
    // all training sets of up to 3 short texts
    const Seqs pool{{10, 20}, {}, {20, 20, 10}, {30, 10, 30}, {40}};
    for (int n = 0; n <= 3; n++)
        for_all(int(pool.size()), n, [&](const std::vector<int> &pick) {
            Seqs train;
            for (int i : pick) train.push_back(pool[i]);
            for (int size : {0, 5})
                for (int iters : {0, 1, 2})
                    all_choices(R, size, iters, train, R.thorough ? 6 : 4, "texts " + str(train));
        });
    // long texts, the dictionary is rebuilt; the lengths move the moments of the rebuilds over the texts
    const Seqs base{{10, 20, 10, 20, 30}, {20, 10, 10, 30}, {30, 40, 30, 10, 20, 20}};
    std::vector<size_t> lengths;
    for (size_t l = 100; l <= 2400; l += R.thorough ? 100 : 300) lengths.push_back(l);
    for (int n = 1; n <= 3; n++)
        for (size_t len : lengths)
            for (int size : {0, 3, 6, 20})
                for (int iters : {1, 2, 3}) {
                    Seqs train;
                    for (int i = 0; i < n; i++) train.push_back(repeat(base[i], len + 37 * i));
                    all_choices(R, size, iters, train, R.thorough ? (n == 3 ? 4 : 6) : (n == 3 ? 2 : 3),
                                str(n) + " texts of about " + str(len) + " symbols");
                }
    // the number of accepted texts: the last of them leads to the rebuild
    for (int n = 1; n <= 4; n++)
        for (int iters = 1; iters <= 4; iters++)
            for (int each = 1; each <= 3; each++)
                R.kase([&] { return "rebuild at the last of " + str(n) + " texts x " + str(iters) + ", kind " + str(each); }, [&] {
                    // least length at which the last text changes the dictionary
                    auto make = [&](size_t len) {
                        Seqs t;
                        for (int i = 0; i < n; i++) t.push_back(repeat(base[(i + each) % 3], len));
                        return t;
                    };
                    auto longest = [&](const Seqs &t, int skip) {
                        IntStreamVGram s(6, 0);
                        for (int i = 0; i < n * iters - skip; i++) s.accept(t[i % n]);
                        s.update_dict();
                        size_t r = 0;
                        for (const IntSeq &e : s.alphabet()) r = std::max(r, e.size());
                        return r;
                    };
                    std::vector<int> choices;
                    for (int i = 0; i < n; i++) choices.push_back(i);
                    for (size_t len = 40; len < 4000; len += 1 + len / 10) {
                        Seqs t = make(len);
                        if (longest(t, 0) > 1) {
                            one(R, 6, iters, t, choices, {{10}});
                            if (longest(t, 1) > 1) break;
                        }
                    }
                });
    // large training sets of short texts, which change in the course of the set
    for (int n : {300, 1100, 5000, R.thorough ? 140000 : 70000})
        for (int iters : {1, 2})
            for (int size : {4, 12})
                for (int pat = 0; pat < 4; pat++)
                    for (int len : {1, 7}) {
                        if (!R.thorough && n > 5000 && (iters > 1 || pat > 1 || size > 4)) continue;
                        R.kase([&] { return str(n) + " texts of about " + str(len) + " symbols, size " + str(size) + ", " +
                                            str(iters) + " iterations, chosen in order " + str(pat); }, [&] {
                            Seqs train;
                            std::vector<int> choices;
                            for (int i = 0; i < n; i++) {
                                int era = int(int64_t(i) * 8 / n) * 10;
                                IntSeq t;
                                for (int k = 0; k < len + i % 3 - (len > 1); k++) t.push_back(era + (k + i) % 3);
                                train.push_back(t);
                                choices.push_back(pat == 0 ? i : pat == 1 ? n - 1 - i : pat == 2 ? int(int64_t(i) * 7919 % n) : n - 1);
                            }
                            one(R, size, iters, train, choices, {{10}});
                        });
                    }
    // every text can be chosen
    for (int n = 1; n <= 6; n++)
        R.kase([&] { return "which of " + str(n) + " texts is chosen first"; }, [&] {
            Seqs train;
            for (int i = 0; i < n; i++) train.push_back({100 + i});
            std::set<int> firsts;
            std::vector<int> values;
            for (int k = 0; k < n; k++) values.push_back(rand_value(k, n));
            for (int v : {0, 1, 2, 3, 5, 7, RAND_MAX, RAND_MAX - 1, RAND_MAX - 2, RAND_MAX / 2, RAND_MAX / 3, 1 << 16, 1 << 20, 12345678}) values.push_back(v);
            for (int v : values) {
                IntVGram m(10, 1, 0);
                rand_script().values = {v};
                rand_script().calls = 0;
                CHECK_THAT(m.fit(train) == &m, "fit does not return the model");
                int first = m.get_coder()->decode({0})[0];
                CHECK_THAT(first >= 100 && first < 100 + n, "a text that does not exist is accepted");
                firsts.insert(first);
                check_fitted(m, train, "random value " + str(v));
                R.transition();
            }
            CHECK_THAT(int(firsts.size()) == n, "some of the " + str(n) + " texts are never chosen first");
            R.trace();
            R.state(uint64_t(n));
        });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
