// C12: snapshots of a stream model.  All histories of accept and update_dict up to a depth; after every operation
// everything that can be read is compared with a builder that was fed the coded sequences.
#include "iface.h"

using namespace vt;

struct Twin {
    std::unique_ptr<IntVGramBuilderImpl> b;
    IntSeq symbols;                     // by code
    std::map<int, int> code;
    std::map<IntSeq, int> restored;     // frequencies at the restoration, while they count
    bool is_restored = false;
    // published
    std::map<IntSeq, int> pub;
    std::set<int> pub_symbols;
    mutable bool backward = false;      // order of the probes of the next comparison

    IntSeq encode(const IntSeq &s) {
        IntSeq r;
        for (int x : s) {
            if (!code.count(x)) {
                code[x] = int(symbols.size());
                symbols.push_back(x);
            }
            r.push_back(code[x]);
        }
        return r;
    }
    IntSeq decode(const IntSeq &s) const {
        IntSeq r;
        for (int c : s) {
            CHECK_THAT(c >= 0 && c < int(symbols.size()), "internal: unknown code");
            r.push_back(symbols[c]);
        }
        return r;
    }
    void accept(const IntSeq &s) {
        IntSeq c = encode(s);
        Obs before = observe(*b);
        b->accept(c);
        if (!is_restored) return;
        Obs after = observe(*b);
        // is it still the statistics of the restored dictionary?
        bool rebuilt = total_of(after) < total_of(before) || !near(before.min_prob, after.min_prob, 1e-14);
        std::set<IntSeq> x(before.alphabet.begin(), before.alphabet.end()), y(after.alphabet.begin(), after.alphabet.end());
        for (const IntSeq &e : x) rebuilt |= !y.count(e);
        for (const IntSeq &e : y) rebuilt |= e.size() > 1 && !x.count(e);
        if (rebuilt) is_restored = false;
    }
    void update() {
        Obs o = observe(*b);
        pub.clear();
        pub_symbols.clear();
        for (size_t i = 0; i < o.alphabet.size(); i++) {
            int f = i < o.freqs.size() ? o.freqs[i] : 0;
            if (is_restored && restored.count(o.alphabet[i])) f += restored[o.alphabet[i]];
            pub[decode(o.alphabet[i])] = f;
        }
        for (int x : symbols) {
            pub.insert({IntSeq{x}, 0});
            pub_symbols.insert(x);
        }
    }
};

static const Seqs &probes() {
    static const Seqs p = [] {
        Seqs r{{10, 20, 10, 20, 30, 10, 20}};
        for (const IntSeq &s : all_seqs({10, 20, 30}, 0, 3)) r.push_back(s);
        r.push_back({10, 20, 10, 20, 10, 20, 10, 10});
        r.push_back({77, 10, 77, 20, 99, 77});
        r.push_back({40, 10, 40, 40, -1, std::numeric_limits<int>::max(), 10});
        r.push_back({0, 1, 2, 3});
        r.push_back({30, 10, 20, 10, 20, 10, 20, 10});
        return r;
    }();
    return p;
}

static void compare(Run &R, IntStreamVGram &m, const Twin &t, const std::string &when) {
    Seqs alpha = m.alphabet();
    IntSeq freqs = m.freqs();
    R.log([&] { return when + " -> " + show_all(alpha, freqs); });
    CHECK_THAT(freqs.size() == alpha.size(), when + " there are " + str(freqs.size()) + " frequencies for " + str(alpha));
    std::map<IntSeq, int> have;
    int64_t total = 0;
    for (size_t i = 0; i < alpha.size(); i++) {
        CHECK_THAT(have.insert({alpha[i], freqs[i]}).second, when + " " + str(alpha[i]) + " is twice in " + str(alpha));
        total += freqs[i];
    }
    for (const auto &p : t.pub) {
        auto it = have.find(p.first);
        CHECK_THAT(it != have.end(), when + " " + str(p.first) + " is missing in " + str(alpha));
        CHECK_THAT(it->second == p.second, when + " the frequency of " + str(p.first) + " is " + str(it->second) +
                   " instead of " + str(p.second) + " in " + show_all(alpha, freqs));
    }
    CHECK_THAT(have.size() == t.pub.size(), when + " there are unexpected entries in " + str(alpha));
    // in turn from the first to the last and back: an answer remembered from the time before an operation would show
    const int n = int(probes().size());
    for (int i = 0; i < n; i++) {
        const IntSeq &q = probes()[t.backward ? n - 1 - i : i];
        IntSeq known;
        for (int x : q) if (t.pub_symbols.count(x)) known.push_back(x);
        IntSeq ids = m.parse(q), text;
        for (int id : ids) {
            CHECK_THAT(id >= 0 && id < int(alpha.size()), when + " parse of " + str(q) + " gives id " + str(id));
            text.insert(text.end(), alpha[id].begin(), alpha[id].end());
        }
        CHECK_THAT(text == known, when + " parse of " + str(q) + " is coded as " + str(text) + " instead of " + str(known));
        double got = ref_score(ids, freqs, double(total), alpha.size());
        double best = ref_best(alpha, freqs, double(total), known);
        CHECK_THAT(not_worse(got, best), when + " parse of " + str(q) + " is " + str(ids) + " with log probability " +
                   str(got) + ", the best is " + str(best) + " in " + show_all(alpha, freqs));
    }
    t.backward = !t.backward;
}

struct Begin {
    bool quick;             // restored with a large minimal probability
    int size;
    Seqs dict;              // codes
    IntSeq freqs, symbols;
    double min_prob;
    std::string text() const {
        if (!quick) return "stream model of size " + str(size);
        return "stream model of size " + str(size) + " restored with symbols " + str(symbols) + " dictionary " + str(dict) +
               " freqs " + str(freqs) + " minimal probability " + str(min_prob);
    }
};

static void run_ops(Run &R, const Begin &g, const Seqs &menu, const std::vector<int> &ops) {
    std::shared_ptr<IntStreamVGram> m;
    Twin t;
    if (!g.quick) {
        m = std::make_shared<IntStreamVGram>(g.size, 0);
        t.b.reset(new IntVGramBuilderImpl(g.size, 0));
    } else {
        m = quick_stream(g.symbols, g.dict, g.freqs, g.min_prob, g.size);
        Seqs sorted_dict = g.dict;
        IntDictImpl d(g.dict);
        IntSeq f;
        t.encode(g.symbols);
        for (const IntSeq &e : d.alphabet())
            f.push_back(g.freqs[std::find(g.dict.begin(), g.dict.end(), e) - g.dict.begin()]);
        t.b.reset(new IntVGramBuilderImpl(d, f, g.dict, g.min_prob, 0, g.size));
        t.is_restored = true;
        for (size_t i = 0; i < g.dict.size(); i++) {
            t.restored[g.dict[i]] = g.freqs[i];
            t.pub[t.decode(g.dict[i])] = g.freqs[i];
            if (g.dict[i].size() == 1) t.pub_symbols.insert(t.decode(g.dict[i])[0]);
        }
    }
    compare(R, *m, t, "after creation");
    std::string history;
    for (int op : ops) {
        R.transition();
        if (op == 0) {
            m->update_dict();
            t.update();
            history += " update_dict";
        } else {
            m->accept(menu[op - 1]);
            t.accept(menu[op - 1]);
            history += " accept" + str(menu[op - 1]);
        }
        compare(R, *m, t, "after" + history);
        R.state(hash_str(show_all(m->alphabet(), m->freqs()), hash_seqs(t.b->result()->alphabet())));
        if (op == 0) {
            m->update_dict();
            compare(R, *m, t, "after" + history + " (called twice)");
        }
    }
    R.trace();
}

static void histories(Run &R, const Begin &g, const Seqs &menu, int depth) {
    for_all(int(menu.size()) + 1, depth, [&](const std::vector<int> &ops) {
        R.kase([&] {
            std::string t = g.text() + ":";
            for (int op : ops) t += op ? " accept" + str(menu[op - 1]) : std::string(" update_dict");
            return t;
        }, [&] { run_ops(R, g, menu, ops); });
    });
}

static void explore(Run &R) {
    int d = R.thorough ? 1 : 0;
    const Seqs menu{{10, 20, 10, 20}, {20, 10, 10}, {30, 10, 20, 30}, {}};
    const Seqs dict1{{0}, {1}}, dict2{{1}, {0, 1}, {0}, {1, 0, 1}}, dict3{{2}, {0}, {1}, {1, 2}, {0, 0}};
    for (int size : {0, 3, 6}) {
        histories(R, {true, size, dict1, {3, 2}, {10, 20}, 0.6}, menu, 5 + d);
        histories(R, {true, size, dict2, {4, 9, 2, 1}, {10, 20}, 0.4}, menu, 5 + d);
        histories(R, {true, size, dict3, {1, 0, 5, 6, 2}, {20, 10, 40}, 0.3}, menu, 4 + d);
        histories(R, {true, size, dict2, {2000000000, 1500000000, 1900000000, 3}, {10, 20}, 0.4}, menu, 3 + d);  // sum beyond an int
        histories(R, {false, size, {}, {}, {}, 0}, menu, 4 + d);
        // default minimal probability, long sequences
        Seqs big;
        for (const IntSeq &s : menu) {
            IntSeq r;
            while (r.size() < 700 && !s.empty()) r.insert(r.end(), s.begin(), s.end());
            if (s.empty()) r = {50, 50};
            big.push_back(r);
        }
        histories(R, {false, size, {}, {}, {}, 0}, big, 4 + d);
    }
    // very many symbols
    for (int n : {300, 2500})
        for (int half = 0; half < 2; half++) {
            IntSeq all;
            for (int i = 0; i < n; i++) all.push_back(i * 7 - 100);
            IntSeq even, mixed;
            for (int i = 0; i < n; i++) if (i % 2 == 0) even.push_back(all[i]); 
            for (int i = 0; i < 90; i++) mixed.push_back(all[(i * i * 31 + i / 3) % n]);
            Seqs wide{half ? even : all, mixed, {all[n - 1], all[0], all[n - 1], all[0]}};
            for_all(4, n > 300 ? 3 : 4, [&](const std::vector<int> &ops) {
                if (ops.back() != 0) return;        // ends with update_dict
                R.kase([&] {
                    std::string t = "new model, " + std::to_string(n) + " symbols" + (half ? " in two parts" : "") + ":";
                    for (int op : ops) t += op ? " accept" + str(op) : std::string(" update_dict");
                    return t;
                }, [&] { run_ops(R, {false, 10, {}, {}, {}, 0}, wide, ops); });
            });
            if (half == 0) {
                // the builder is in the middle of a long growth phase, its published dictionary is old
                IntSeq rare;
                for (int i = 0; i < 9000; i++) {
                    if (i % 1000 == 500) for (int c : {100000 + i, 200000 + i}) rare.push_back(c);
                    rare.push_back(i % 2 ? 20 : 10);
                }
                Seqs old{rare, all, mixed};
                for_all(4, 3, [&](const std::vector<int> &ops) {
                    Begin g{true, 30, dict1, {3, 2}, {10, 20}, 0.6};
                    R.kase([&] {
                        std::string t = g.text() + ", rare pairs and " + std::to_string(n) + " new symbols:";
                        for (int op : ops) t += op ? " accept" + str(op) : std::string(" update_dict");
                        return t;
                    }, [&] { run_ops(R, g, old, ops); });
                });
            }
            if (half == 0)
                for_all(4, 3, [&](const std::vector<int> &ops) {
                    Begin g{true, 10, dict1, {3, 2}, {10, 20}, 0.6};
                    R.kase([&] {
                        std::string t = g.text() + ", then " + std::to_string(n) + " new symbols:";
                        for (int op : ops) t += op ? " accept" + str(op) : std::string(" update_dict");
                        return t;
                    }, [&] { run_ops(R, g, wide, ops); });
                });
        }
    // many cycles
    for (int size : {2, 4, 7, 20})
        for (int every : {1, 2, 5, 13})
            for_all(3, 3, [&](const std::vector<int> &p) {
                std::vector<int> ops;
                for (int i = 0; i < (R.thorough ? 150 : 60); i++) {
                    ops.push_back(1 + p[i % 3]);
                    if (i % every == every - 1) ops.push_back(0);
                }
                Begin g{true, size, dict2, {4, 9, 2, 1}, {10, 20}, 0.4};
                R.kase([&] {
                    return g.text() + ": " + str(int(ops.size())) + " operations, accept in turn " + str(menu[p[0]]) + str(menu[p[1]]) +
                           str(menu[p[2]]) + " and update_dict after every " + str(every);
                }, [&] { run_ops(R, g, menu, ops); });
            });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
