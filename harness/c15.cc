// C15: a loaded model goes on learning.  Histories before saving and after loading; after loading, everything that can
// be read is compared with the reference model of the learning procedure started from what was saved.
#include "iface.h"

using namespace vt;

struct Follow {
    Run &R;
    Model m;
    IntSeq symbols;             // by code
    std::map<int, int> code;
    std::map<IntSeq, int> saved;        // by codes
    std::string why;

    Follow(Run &run, const Model &model) : R(run), m(model) {}

    IntSeq encode(const IntSeq &s) {
        IntSeq r;
        for (int x : s) {
            if (!code.count(x)) {
                code[x] = int(symbols.size());
                symbols.push_back(x);
            }
            r.push_back(code[x]);
        }
        return r;
    }
    IntSeq decode(const IntSeq &s) const {
        IntSeq r;
        for (int c : s) r.push_back(symbols[c]);
        return r;
    }

    void accept(const IntSeq &s) {
        IntSeq c = encode(s);
        m.accept(c);
        // the statistics of the loaded dictionary are those that were loaded until the first pruning
        R.transition();
    }

    // what a state of the model publishes, by symbols
    std::map<IntSeq, int> publishes(const MBuilder &b) const {
        std::map<IntSeq, int> r;
        const MStat &s = b.published();
        for (size_t i = 0; i < s.dict.size(); i++) {
            int f = int(s.f[i]);
            if (!b.pruned && saved.count(s.dict[i])) f += saved.at(s.dict[i]);
            r[decode(s.dict[i])] = f;
        }
        for (int x : symbols) r.insert({IntSeq{x}, 0});
        return r;
    }

    void published(const Seqs &alpha, const IntSeq &freqs, const std::string &when) {
        CHECK_THAT(alpha.size() == freqs.size(), when + " the numbers of entries and frequencies differ");
        std::map<IntSeq, int> have;
        for (size_t i = 0; i < alpha.size(); i++)
            CHECK_THAT(have.insert({alpha[i], freqs[i]}).second, when + " " + str(alpha[i]) + " is twice in the alphabet");
        std::vector<MBuilder> kept;
        std::string expected;
        for (MBuilder &b : m.states) {
            auto p = publishes(b);
            if (p == have) kept.push_back(b);
            else if (expected.empty()) {
                Seqs a;
                IntSeq f;
                for (const auto &x : p) { a.push_back(x.first); f.push_back(x.second); }
                expected = show_all(a, f);
            }
        }
        CHECK_THAT(!kept.empty(), when + " the alphabet is " + show_all(alpha, freqs) + ", expected " + expected +
                   (m.states.size() > 1 ? " or one of " + str(m.states.size() - 1) + " others" : ""));
        m.states.swap(kept);
    }
};

static std::map<IntSeq, int> as_map(const Seqs &a, const IntSeq &f) {
    std::map<IntSeq, int> r;
    for (size_t i = 0; i < a.size(); i++) r[a[i]] = i < f.size() ? f[i] : -1;
    return r;
}

struct Plan {
    bool quick;
    int size;
    double min_prob;
    Seqs dict;
    IntSeq freqs, symbols;
    Seqs menu;
    std::string text() const {
        return quick ? "stream model of size " + str(size) + " with dictionary " + str(dict) + " freqs " + str(freqs) +
                       " minimal probability " + str(min_prob) : "stream model of size " + str(size);
    }
};

// kind 0: stream model, 1: batch model, both driven by accept and update_dict
static void run_plan(Run &R, const Plan &p, int kind, const std::vector<int> &before, const std::vector<int> &after, int update_every) {
    const std::string path = R.scratch + "/m.json";
    std::shared_ptr<IntStreamVGram> m;
    if (p.quick && kind == 0) m = quick_stream(p.symbols, p.dict, p.freqs, p.min_prob, p.size);
    else if (p.quick) m = std::make_shared<IntVGram>(make_coder(p.symbols), p.freqs, p.dict, p.size, p.min_prob, false, false);
    else if (kind == 0) m = std::make_shared<IntStreamVGram>(p.size, 0);
    else m = std::make_shared<IntVGram>(p.size, 1, 0);
    // codes are given in order of first appearance
    IntSeq symbols = p.symbols;
    auto note = [&](const IntSeq &s) {
        for (int x : s) if (std::find(symbols.begin(), symbols.end(), x) == symbols.end()) symbols.push_back(x);
    };
    // a builder with the same history, for the minimal probability at the last update_dict
    std::unique_ptr<IntVGramBuilderImpl> twin;
    if (p.quick) {
        IntDictImpl d(p.dict);
        IntSeq f(d.size(), 0);
        for (size_t i = 0; i < p.freqs.size(); i++) f[d.search(p.dict[i], nullptr)] += p.freqs[i];
        twin.reset(new IntVGramBuilderImpl(d, f, p.dict, p.min_prob, 0, p.size));
    } else {
        twin.reset(new IntVGramBuilderImpl(p.size, 0));
    }
    double published_min_prob = twin->get_min_probability();
    if (p.quick) published_min_prob = p.min_prob;
    for (int op : before)
        if (op == 0) {
            m->update_dict();
            published_min_prob = twin->get_min_probability();
        } else {
            m->accept(p.menu[op - 1]);
            note(p.menu[op - 1]);
            IntSeq coded;
            for (int x : p.menu[op - 1]) coded.push_back(int(std::find(symbols.begin(), symbols.end(), x) - symbols.begin()));
            twin->accept(coded);
        }
    m->save(path);
    Seqs alpha = m->alphabet();
    IntSeq freqs = m->freqs();
    json j;
    {
        std::ifstream f(path);
        f >> j;
    }
    double min_prob = j["min_prob"];
    CHECK_THAT(std::fabs(min_prob - published_min_prob) <= 1e-9 * std::fabs(published_min_prob), "the saved minimal probability is " + str(min_prob) +
               " instead of " + str(published_min_prob));
    if (kind == 0) m = Loader::load_int_stream_vgram(path);
    else m.reset(Loader::load_int_vgram(path));

    std::map<int, int> code;
    for (size_t i = 0; i < symbols.size(); i++) code[symbols[i]] = int(i);
    Seqs coded;
    for (const IntSeq &e : alpha) {
        IntSeq c;
        for (int x : e) c.push_back(code.at(x));
        coded.push_back(c);
    }
    Model model(Model::restored(coded, freqs, min_prob, p.size));
    Follow f(R, model);
    f.encode(symbols);
    for (size_t i = 0; i < coded.size(); i++) f.saved[coded[i]] = freqs[i];
    R.log([&] { return "saved " + show_all(alpha, freqs) + " minimal probability " + str(min_prob); });
    CHECK_THAT(as_map(alpha, freqs) == as_map(m->alphabet(), m->freqs()), "the loaded model has " + show_all(m->alphabet(), m->freqs()) +
               " instead of " + show_all(alpha, freqs));
    std::string history = "after loading";
    int step = 0;
    for (int op : after) {
        if (op == 0) {
            m->update_dict();
            history += " update_dict";
            R.log([&] { return history + " -> " + show_all(m->alphabet(), m->freqs()); });
            f.published(m->alphabet(), m->freqs(), history);
        } else {
            const IntSeq &s = p.menu[op - 1];
            f.accept(s);
            m->accept(s);
            history += " accept" + str(s);
            if (f.m.capped) { R.capped(); return; }
            if (update_every && ++step % update_every == 0) {
                m->update_dict();
                R.log([&] { return history + " update_dict -> " + show_all(m->alphabet(), m->freqs()); });
                f.published(m->alphabet(), m->freqs(), history + " update_dict");
            }
            if (history.size() > 600) history = "after loading ..." + history.substr(history.size() - 300);
        }
        R.state(mix(f.m.hash(), hash_seqs(m->alphabet())));
    }
    m->update_dict();
    f.published(m->alphabet(), m->freqs(), history + " update_dict");
    // new symbols have new codes, everything is coded losslessly
    IntSeq all = f.symbols, text;
    all.insert(all.end(), {10, 20, 10, 20, 20});
    IntSeq known;
    for (int x : all) if (f.code.count(x)) known.push_back(x);
    Seqs a = m->alphabet();
    for (int id : m->parse(all)) text.insert(text.end(), a.at(id).begin(), a.at(id).end());
    CHECK_THAT(text == known, history + " update_dict, parse of " + str(all) + " is coded as " + str(text));
    auto codes = m->get_coder()->code_map();
    CHECK_THAT(codes.size() == f.symbols.size(), "the coder has " + str(codes.size()) + " symbols instead of " + str(f.symbols.size()));
    for (size_t i = 0; i < f.symbols.size(); i++)
        CHECK_THAT(codes.count(f.symbols[i]) && codes[f.symbols[i]] == int(i), "symbol " + str(f.symbols[i]) + " does not have code " + str(i));
    R.trace();
}

static std::string ops_text(const Plan &p, const std::vector<int> &ops) {
    std::string r;
    size_t shown = 0;
    for (int o : ops) {
        if (++shown > 12) { r += " ...(" + str(ops.size()) + ")"; break; }
        r += o ? " accept" + str(p.menu[o - 1]) : std::string(" update_dict");
    }
    return r;
}

static void plan(Run &R, const Plan &p, int kind, const std::vector<int> &before, const std::vector<int> &after, int update_every = 0) {
    R.kase([&] {
        return std::string(kind ? "batch " : "") + p.text() + ":" + ops_text(p, before) + "; saved, loaded;" + ops_text(p, after) +
               (update_every ? " update_dict after every " + str(update_every) : std::string());
    }, [&] { run_plan(R, p, kind, before, after, update_every); });
}

// text models: the same history of tokens as integers
static void text_model(Run &R, bool words, int size, const std::vector<int> &before, const std::vector<int> &after) {
    auto text = [&](int i, int step) {
        std::string t;
        for (int k = 0; k < 260; k++) {
            int x = (k * k + k * i + step) % 11 % (i + 2);
            t += words ? std::vector<std::string>{"to", "be", "or", "not"}[x] + " " : std::string(1, "abcd"[x]);
        }
        return t;
    };
    auto coded = [&](int i, int step) {
        IntSeq t;
        for (int k = 0; k < 260; k++) t.push_back((k * k + k * i + step) % 11 % (i + 2));
        return t;
    };
    R.kase([&] {
        return std::string("text model") + (words ? " of words" : "") + " of size " + str(size) + ", texts " + str(IntSeq(before)) +
               " saved, loaded, texts " + str(IntSeq(after));
    }, [&] {
        const std::string p1 = R.scratch + "/t.json", p2 = R.scratch + "/i.json";
        auto t = std::make_shared<StringStreamVGram>(size, 0, false, words);
        auto m = std::make_shared<IntStreamVGram>(size, 0);
        std::vector<std::string> names = words ? std::vector<std::string>{"to", "be", "or", "not"}
                                               : std::vector<std::string>{"a", "b", "c", "d"};
        int step = 0;
        auto feed = [&](int i) {
            if (i == 3) {
                t->update_dict();
                m->update_dict();
                return;
            }
            for (int n = 0; n < 3; n++) {
                step++;
                t->accept(text(i, step));
                m->accept(coded(i, step));
                R.transition();
            }
        };
        auto compare = [&](const std::string &when) {
            std::vector<std::string> expected;
            for (const IntSeq &e : m->alphabet()) {
                std::string s;
                for (int x : e) s += names[x];
                expected.push_back(s);
            }
            auto pairs = [](const std::vector<std::string> &a, const IntSeq &f) {
                std::vector<std::pair<std::string, int>> r;
                for (size_t i = 0; i < a.size() && i < f.size(); i++) r.emplace_back(a[i], f[i]);
                std::sort(r.begin(), r.end());
                return r;
            };
            CHECK_THAT(t->alphabet().size() == t->freqs().size() && pairs(expected, m->freqs()) == pairs(t->alphabet(), t->freqs()),
                       when + " the text model has " + show_all(t->alphabet(), t->freqs()) + ", the integer model " +
                       show_all(expected, m->freqs()));
            R.state(hash_str(show_all(expected, m->freqs())));
        };
        for (int i : before) feed(i);
        compare("before saving");
        t->save(p1);
        m->save(p2);
        t = Loader::load_string_stream_vgram(p1);
        m = Loader::load_int_stream_vgram(p2);
        compare("after loading");
        for (int i : after) {
            feed(i);
            compare("after loading and more texts");
        }
        t->update_dict();
        m->update_dict();
        compare("at the end");
        R.log([&] { return show_all(t->alphabet(), t->freqs()); });
        R.trace();
    });
}

static void explore(Run &R) {
    const int more = R.thorough ? 1 : 0;
    const Seqs menu{{10, 20, 10, 20}, {20, 10, 10}, {30, 10, 20, 30}};
    const Seqs dict1{{0}, {1}}, dict2{{1}, {0, 1}, {0}, {1, 0, 1}};
    for (int size : {0, 4, 7}) {
        Plan a{true, size, 0.6, dict1, {3, 2}, {10, 20}, menu};
        Plan b{true, size, 0.4, dict2, {4, 9, 2, 1}, {20, 10}, menu};
        for (int kind = 0; kind < 2; kind++)
            for (const Plan *p : {&a, &b})
                for (int n = 0; n <= 2; n++)
                    for_all(4, n, [&](const std::vector<int> &before) {
                        for_all(4, 4 + more, [&](const std::vector<int> &after) {
                            if (kind == 1 && after[0] > 1) return;
                            plan(R, *p, kind, before, after);
                        });
                    });
    }
    // through rebuilds before and after
    for (int size : {0, 3, 6, 20})
        for (int n : {5, 17, 30})
            for (int every : {0, 1, 4})
                for_all(3, 3, [&](const std::vector<int> &h) {
                    for (double mp : {0.6, 0.3}) {
                        Plan p{true, size, mp, dict2, {4, 9, 2, 1}, {20, 10}, menu};
                        std::vector<int> before, after;
                        for (int i = 0; i < n; i++) before.push_back(1 + h[i % 3]);
                        before.push_back(0);
                        for (int i = 0; i < (R.thorough ? 80 : 35); i++) after.push_back(1 + h[(i * 2 + 1) % 3]);
                        plan(R, p, 0, before, after, every);
                    }
                });
    // at one and the same dictionary the minimal probability changes
    for (int size : {2, 3, 5})
        for (int n = 1; n <= 12; n++)
            for (int pat = 0; pat < 8; pat++) {
                Plan p{true, size, 0.6, dict1, {3, 2}, {10, 20}, {{10}, {20}, {10, 10, 20}}};
                std::vector<int> before, after;
                for (int i = 0; i < n; i++) {
                    before.push_back(1 + (pat >> i % 3 & 1) + (i % 5 == 4));
                    if (i % 2) before.push_back(0);
                }
                for (int i = 0; i < 12; i++) after.push_back(1 + (pat >> i % 3 & 1));
                plan(R, p, 0, before, after, 3);
            }
    // small minimal probabilities
    for (double mp : {1e-3, 4e-6, 1e-7, 1e-12})
        for (int kind = 0; kind < 2; kind++)
            for_all(3, 3, [&](const std::vector<int> &h) {
                Plan p{true, 7, mp, dict2, {4, 9, 2, 1}, {20, 10}, menu};
                plan(R, p, kind, {h[0], h[1]}, {h[2], 0, h[1], 0});
            });
    // many symbols
    for (int n : {60, 130, 300, 1000})
        for (int size : {0, n + 10, 10 * n})
            for (int pat = 0; pat < 3; pat++) {
                if (n > 130 && size && !R.thorough) continue;
                Plan p{true, size, 0.9 / n, {}, {}, {}, {}};
                IntSeq all;
                for (int i = 0; i < n; i++) {
                    p.dict.push_back({i});
                    p.freqs.push_back(pat == 0 ? i : pat == 1 ? 5 : n - i);
                    p.symbols.push_back(10 + i * 3);
                    all.push_back(10 + i * 3);
                }
                IntSeq back(all.rbegin(), all.rend());
                p.menu = {all, back, {10, 13, 10, 13, 10, 7, 1}};
                plan(R, p, 0, {1, 0}, {1, 0, 3, 0, 2}, 0);
                plan(R, p, 0, {}, {0, 2, 0, 3, 0, 3, 0, 1, 1}, 0);
            }
    // models that were created empty
    for (int size : {0, 5, 30})
        for (int n : {1, 6, 12, 25})
            for_all(3, 2, [&](const std::vector<int> &h) {
                Seqs big;
                for (const IntSeq &s : menu) {
                    IntSeq r;
                    while (r.size() < 300) r.insert(r.end(), s.begin(), s.end());
                    big.push_back(r);
                }
                Plan p{false, size, 0, {}, {}, {}, big};
                std::vector<int> before, after;
                for (int i = 0; i < n; i++) before.push_back(1 + h[i % 2]);
                before.push_back(0);
                for (int i = 0; i < 30; i++) after.push_back(1 + h[(i / 2) % 2]);
                plan(R, p, 0, before, after, 3);
            });
    for (bool words : {false, true})
        for (int size : {0, 6, 30})
            for (int n = 1; n <= 3; n++)
                for_all(4, n, [&](const std::vector<int> &before) {
                    for_all(4, 2 + more, [&](const std::vector<int> &after) {
                        if (!R.thorough && (before[0] + after[0] + after[1]) % 3) return;
                        text_model(R, words, size, before, after);
                    });
                });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
