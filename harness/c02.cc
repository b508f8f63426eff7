// C02: the weighted parse is a most probable segmentation.
#include "ref.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"

using namespace vt;

template<typename D>
static void compare(Run &R, const D &dict, const IntSeq &in, const IntSeq &out, const IntSeq &freqs, double total,
                    const char *what) {
    R.transition();
    IntSeq joined;
    for (int id : out) {
        CHECK_THAT(id >= 0 && id < dict.size(), std::string(what) + ": id " + str(id) + " does not exist");
        joined.insert(joined.end(), dict.get(id).begin(), dict.get(id).end());
    }
    CHECK_THAT(joined == in, std::string(what) + " of " + str(in) + " is not a segmentation of it: " + str(joined));
    double got = ref_score(out, freqs, total, dict.size());
    double best = ref_best(dict.alphabet(), freqs, total, in);
    CHECK_THAT(not_worse(got, best), std::string(what) + " of " + str(in) + " gives " + str(out) + " with log probability " +
               str(got) + ", but " + str(best) + " is possible; dictionary " + str(dict.alphabet()) + " frequencies " +
               str(freqs) + " total " + str(total));
}

// all frequency vectors from the menu
static void each_freqs(size_t n, const IntSeq &menu, const std::function<void(const IntSeq &)> &f) {
    IntSeq v(n, 0);
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i == n) { f(v); return; }
        for (int x : menu) { v[i] = x; rec(i + 1); }
    };
    rec(0);
}

static void int_dict_case(Run &R, const Seqs &entries, const Seqs &inputs, const IntSeq &menu) {
    IntDictImpl dict(entries);
    Seqs ref = sorted(entries);
    int n = int(entries.size());
    each_freqs(entries.size(), menu, [&](const IntSeq &full) {
        R.alive();
        double sum = std::accumulate(full.begin(), full.end(), 0.0);
        for (int var = 0; var < 4; var++) {
            IntSeq fr = full;
            double total = var == 1 ? sum + 10 : var == 2 ? 0 : sum;
            if (var == 3) fr.resize(n / 2);
            for (const IntSeq &in : inputs) {
                IntSeq out;
                R.log([&] { return "weighted parse of " + str(in) + " freqs " + str(fr) + " total " + str(total); });
                dict.parse(in, fr, total, &out);
                compare(R, dict, in, out, fr, total, "weighted parse");
            }
        }
        R.state(hash_seqs(ref, hash_seq(full)));
    });
    R.trace();
}

// A statistics dictionary: init frequencies are given in the order of seqs, history of parses and explicit updates.
static void stat_history(Run &R, const Seqs &given, const IntSeq *init, const std::vector<IntSeq> &hist,
                         const std::vector<std::pair<int, int>> &updates) {
    IntSeq init_copy;
    if (init) init_copy = *init;
    StatDictImpl stat(given, 0.002, init ? &init_copy : nullptr);
    std::map<IntSeq, int> weight;
    double total = 0;
    if (init)
        for (size_t i = 0; i < init->size() && i < given.size(); i++) {
            weight[given[i]] += (*init)[i];
            total += (*init)[i];
        }
    for (size_t step = 0; step < hist.size(); step++) {
        IntSeq fr;
        for (const IntSeq &e : stat.alphabet()) fr.push_back(weight[e]);
        IntSeq out;
        R.log([&] { return "parse of " + str(hist[step]) + " with weights " + str(fr) + " total " + str(total); });
        stat.parse(hist[step], &out);
        fr.resize(stat.size(), 0);
        compare(R, stat, hist[step], out, fr, total, "statistics dictionary parse");
        for (int id : out) {
            weight[stat.get(id)]++;
            total++;
        }
        if (step < updates.size() && updates[step].second > 0) {
            int id = updates[step].first % stat.size();
            stat.update_symbol(id, updates[step].second);
            weight[stat.get(id)] += updates[step].second;
            total += updates[step].second;
        }
        uint64_t h = hash_seqs(stat.alphabet());
        for (const IntSeq &e : stat.alphabet()) h = mix(h, weight[e]);
        R.state(h);
    }
    R.trace();
}

static void explore(Run &R) {
    Seqs S = all_seqs({0, 1}, 2, 3);
    Seqs in2 = all_seqs({0, 1}, 0, R.thorough ? 7 : 5);
    auto subs = small_subsets(int(S.size()), R.thorough ? 4 : 3);
    for (const auto &ids : subs) {
        Seqs d{{0}, {1}};
        for (int i : ids) d.push_back(S[i]);
        R.kase([&] { return "dictionary " + str(d) + ", all frequencies from {0,1,4}, all inputs"; },
               [&] { int_dict_case(R, d, in2, ids.size() >= 4 ? IntSeq{0, 3} : IntSeq{0, 1, 4}); });
    }
    // longer entries and inputs, three symbols, larger frequencies, unusual symbol values
    Seqs T = all_seqs({0, 1, 2}, 2, 2);
    Seqs more{{0, 0, 0, 0}, {0, 1, 0, 1}, {0, 1, 2}, {0, 1, 2, 0}, {1, 2, 0}, {2, 0, 1, 2, 0}, {1, 1, 1}, {0, 1, 2, 0, 1, 2}};
    T.insert(T.end(), more.begin(), more.end());
    auto subs3 = small_subsets(int(T.size()), R.thorough ? 4 : 3);
    Seqs in3 = all_seqs({0, 1, 2}, 3, 4);
    for (const IntSeq &s : Seqs{{0, 1, 2, 0, 1, 2, 0, 1}, {0, 0, 0, 0, 0, 0, 0, 0, 0}, {0, 1, 0, 1, 2, 0, 1, 0, 1},
                                {2, 0, 1, 2, 0, 1, 1, 1, 0}, {1, 2, 0, 0, 1, 2, 0, 1, 2, 0, 1, 2}})
        in3.push_back(s);
    int name = 0;
    for (const auto &ids : subs3) {
        Seqs d{{0}, {1}, {2}};
        for (int i : ids) d.push_back(T[i]);
        const IntSeq names = namings()[name++ % 4];
        Seqs dn = rename_symbols(d, names);
        R.kase([&] { return "dictionary " + str(dn) + ", frequencies by several patterns, many inputs"; }, [&] {
            IntDictImpl dict(dn);
            Seqs ins = rename_symbols(in3, names);
            for (int pat = 0; pat < 12; pat++) {
                R.alive();
                if (!R.thorough && ids.size() == 3 && (pat + ids[0] + ids[1] + ids[2]) % 3) continue;
                IntSeq fr;
                for (size_t i = 0; i < dn.size(); i++)
                    fr.push_back(pat < 4 ? int(i * (7 + pat) % 5) : pat < 6 ? int(i == size_t(pat)) * 1000000
                                 : pat < 8 ? 1000000000 : pat == 8 ? int(dn[i].size()) * 10
                                 : pat == 9 ? 2147483647 : pat == 10 ? int(100 / dn[i].size()) : 0);
                double total = std::accumulate(fr.begin(), fr.end(), 0.0);
                R.state(hash_seqs(dict.alphabet(), hash_seq(fr)));
                for (const IntSeq &in : ins) {
                    IntSeq out;
                    dict.parse(in, fr, total, &out);
                    compare(R, dict, in, out, fr, total, "weighted parse");
                }
            }
            R.trace();
        });
    }
    // long inputs: every word of a family repeated, totals that make log probabilities of thousands
    Seqs words = all_seqs({0, 1}, 1, R.thorough ? 6 : 4);
    auto subs_long = small_subsets(int(S.size()), R.thorough ? 3 : 2);
    for (const auto &ids : subs_long) {
        Seqs d{{0}, {1}};
        for (int i : ids) d.push_back(S[i]);
        R.kase([&] { return "dictionary " + str(d) + ", every word repeated to long inputs"; }, [&] {
            IntDictImpl dict(d);
            for (const IntSeq &w : words)
                for (size_t len : {150u, 1200u}) {
                    if (len > 1000 && !R.thorough && w.size() != 3) continue;
                    R.alive();
                    IntSeq in;
                    while (in.size() < len) in.insert(in.end(), w.begin(), w.end());
                    for (int pat = 0; pat < 3; pat++) {
                        IntSeq fr;
                        for (size_t i = 0; i < d.size(); i++) fr.push_back(pat == 0 ? 0 : pat == 1 ? int(i * 3 % 5) : 7);
                        double total = pat == 0 ? 2e9 : pat == 1 ? 1e6 : std::accumulate(fr.begin(), fr.end(), 0.0);
                        IntSeq out;
                        dict.parse(in, fr, total, &out);
                        compare(R, dict, in, out, fr, total, "weighted parse");
                    }
                }
            R.trace();
        });
    }
    // entries much longer than the usual ones, each in turn by far the most frequent
    for (int unit : {10, 17, 33, 70, 130, 300})
    for (bool every : {false, true}) {
        if (every && unit > 70) continue;
        R.kase([&] { return (every ? "all prefixes of a word of length " : "prefixes of a word of length ") + str(unit) +
                            ", each in turn the most frequent"; }, [&] {
            for (int kind = 0; kind < 3; kind++) {
                IntSeq word;
                for (int i = 0; i < unit; i++) word.push_back(kind == 0 ? 0 : kind == 1 ? i % 3 : i * i % 7 % 3);
                Seqs d{{0}, {1}, {2}};
                for (int k = 2; k <= unit; k = every ? k + 1 : k < 10 ? k + 3 : k * 5 / 3) d.push_back(IntSeq(word.begin(), word.begin() + k));
                d.push_back(word);
                d = sorted(d);
                d.erase(std::unique(d.begin(), d.end()), d.end());
                IntSeq in;
                for (int i = 0; i < 3; i++) {
                    in.insert(in.end(), word.begin(), word.end() - i);
                    in.push_back(i);
                }
                IntDictImpl dict(d);
                for (size_t top = 0; top < d.size(); top++) {
                    R.alive();
                    IntSeq fr(d.size(), 3);
                    fr[top] = 1000;
                    double total = std::accumulate(fr.begin(), fr.end(), 0.0);
                    IntSeq out;
                    dict.parse(in, fr, total, &out);
                    compare(R, dict, in, out, fr, total, "weighted parse");
                    StatDictImpl stat(d, 0.002, &fr);
                    out.clear();
                    stat.parse(in, &out);
                    compare(R, stat, in, out, fr, total, "statistics dictionary parse");
                }
            }
            R.trace();
        });
    }
    // an entry that is a little better or a little worse than its two symbols, many times
    for (int f : {0, 100, 44720})
        R.kase([&] { return "nearly equal probabilities, frequency " + str(f); }, [&] {
            for (double delta : {-1e-3, -1e-5, -1e-7, 1e-7, 1e-5, 1e-3})
                for (int len : {2, 20, 1200})
                    for (int odd = 0; odd < 2; odd++) {
                        R.alive();
                        Seqs d{{0}, {0, 1}, {1}};
                        IntSeq fr{f, 0, f}, in, out;
                        double total = (f + 1.0) * (f + 1.0) * (1 + delta) - 3;
                        if (total < 0) continue;
                        for (int i = 0; i < len + odd; i++) in.push_back(i % 2);
                        IntDictImpl dict(d);
                        dict.parse(in, fr, total, &out);
                        compare(R, dict, in, out, fr, total, "weighted parse");
                    }
            R.trace();
        });
    // statistics dictionaries: every order of the given sequences up to a size, init frequencies, histories
    Seqs hist_in = all_seqs({0, 1}, 1, 3);
    hist_in.push_back({0, 1, 0, 1, 0});
    hist_in.push_back({1, 1, 0, 0, 1, 1});
    auto subs2 = small_subsets(int(S.size()), 2);
    for (const auto &ids : subs2)
        for (int order = 0; order < 3; order++)
            for (int initm = 0; initm < 5; initm++) {
                Seqs d{{0}, {1}};
                for (int i : ids) d.push_back(S[i]);
                if (order == 1) std::reverse(d.begin(), d.end());
                if (order == 2) std::rotate(d.begin(), d.begin() + d.size() / 2, d.end());
                IntSeq init;
                for (size_t i = 0; i < d.size() && initm; i++)
                    init.push_back(initm == 1 ? int(i) * 3 : initm == 2 ? int(d.size() - i) : initm == 3 ? int(i == 1) * 50
                                   : int(d[i].size() > 1) * 20);
                if (initm == 4 && init.size() > 2) init.resize(init.size() - 1);
                R.kase([&] { return "statistics dictionary given " + str(d) + " with initial frequencies " + str(init) +
                                    ", all histories of parses"; }, [&] {
                    for (const IntSeq &a : hist_in)
                        for (const IntSeq &b : hist_in) {
                            R.alive();
                            for (size_t c = 0; c < hist_in.size(); c++) {
                                if (!R.thorough && (c + a.size() + b.size()) % 8 != size_t(initm) % 8) continue;
                                stat_history(R, d, initm ? &init : nullptr, {a, b, hist_in[c], {0, 1, 0, 1, 1, 0, 0}},
                                             {{int(c), int(c) % 3 * 7}, {int(a.size()), 0}, {1, int(b.size()) - 1}});
                            }
                        }
                });
            }
    // frequencies whose sum needs more than 32 bits
    for (const auto &ids : small_subsets(int(S.size()), 2)) {
        Seqs d{{0}, {1}};
        for (int i : ids) d.push_back(S[i]);
        R.kase([&] { return "statistics dictionary " + str(d) + " with very large initial frequencies"; }, [&] {
            for (int pat = 0; pat < 3; pat++)
                for (const IntSeq &a : hist_in) {
                    R.alive();
                    IntSeq init;
                    for (size_t i = 0; i < d.size(); i++) init.push_back(pat == 0 ? 2000000000 : i % 2 == size_t(pat - 1) ? 2147483000 : 2147483000 / int(i + 2));
                    stat_history(R, d, &init, {a, {0, 1, 0, 1, 1, 0, 0}}, {{0, 1}, {1, 0}});
                }
        });
    }
    // symbols registered while parsing become ordinary weighted entries
    for (int initm = 0; initm < 3; initm++)
        for (const auto &ids : small_subsets(int(S.size()), 2)) {
            Seqs d{{1}};
            for (int i : ids) d.push_back(S[i]);
            // singles of all entries' symbols first seen alone, then whole inputs
            R.kase([&] { return "statistics dictionary " + str(d) + ", symbols registered by parses, variant " + str(initm); },
                   [&] {
                       StatDictImpl stat(d);
                       std::map<IntSeq, int> weight;
                       double total = 0;
                       bool known0 = std::find(d.begin(), d.end(), IntSeq{0}) != d.end();
                       bool blocked = false;
                       for (const IntSeq &e : d) if (e.size() > 1 && e[0] == 0) blocked = true;
                       if (!known0 && blocked) { R.vacuous(); return; }
                       std::vector<IntSeq> h{{1}, {0}, {3, 0}, {0, 3, 1}, {1, 1, 0}, {0, 1, 0, 1}, {3, 3}};
                       std::rotate(h.begin(), h.begin() + initm, h.end());
                       for (const IntSeq &in : h) {
                           bool all_known = true;
                           for (int c : in)
                               all_known = all_known && std::find(stat.alphabet().begin(), stat.alphabet().end(),
                                                                  IntSeq{c}) != stat.alphabet().end();
                           IntSeq out, fr;
                           for (const IntSeq &e : stat.alphabet()) fr.push_back(weight[e]);
                           stat.parse(in, &out);
                           fr.resize(stat.size(), 0);
                           if (all_known) compare(R, stat, in, out, fr, total, "statistics dictionary parse");
                           for (int id : out) { weight[stat.get(id)]++; total++; }
                       }
                       R.trace();
                   });
        }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
