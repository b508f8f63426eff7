// C14: a saved model loads back as the same model.  All histories of the four kinds of models up to a depth.
#include "subjects.h"

using namespace vt;

static void same(const std::string &a, const std::string &b, const std::string &when) {
    if (a == b) return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    i = i > 60 ? i - 60 : 0;
    fail(when + ": ..." + b.substr(i, 300) + " instead of ..." + a.substr(i, 300));
}

static json parse_file(const std::string &path) {
    std::ifstream f(path);
    json j;
    f >> j;
    return j;
}

static std::string seqs_text(const Seqs &v) {
    std::string r;
    for (const IntSeq &s : v) r += str(s);
    return r;
}
static std::string strings_text(const std::vector<std::string> &v) {
    std::string r;
    for (const std::string &s : v) r += "<" + s + ">";
    return r;
}

// everything that can be asked of a model
static const Seqs &int_probes() {
    static const Seqs p = [] {
        Seqs r = all_seqs({10, 20, 30, 77}, 0, 4);
        r.push_back({10, 20, 10, 20, 10, 20, 30, 30, 10, 10, 20});
        r.push_back({std::numeric_limits<int>::min(), -1, 0, 1, 2, 3, std::numeric_limits<int>::max()});
        return r;
    }();
    return p;
}
static std::string answers(const IntStreamVGram &m) {
    std::string r = show_all(m.alphabet(), m.freqs());
    for (const IntSeq &p : int_probes()) r += str(m.parse(p));
    return r;
}
static std::string answers(const IntVGram &m) {
    std::string r = show_all(m.alphabet(), m.freqs());
    r += seqs_text(m.transform(int_probes())) + strings_text(m.transform_to_string(int_probes()));
    return r;
}
static std::vector<std::string> text_probes(bool words) {
    std::vector<std::string> r;
    const std::vector<std::string> w = words ? std::vector<std::string>{"to", "be", "or", "not", ""}
                                             : std::vector<std::string>{"a", "B", "c", "z", "-"};
    for (int len = 0; len <= 4; len++)
        for_all(5, len, [&](const std::vector<int> &h) {
            std::string t;
            for (size_t i = 0; i < h.size(); i++) t += (i && words ? " " : "") + w[h[i]];
            r.push_back(t);
        });
    r.push_back(words ? "to be or to be to be or or not" : "abab cab babacc aba");
    return r;
}
static std::string answers(StringStreamVGram &m, const std::vector<std::string> &probes) {
    std::string r = show_all(m.alphabet(), m.freqs());
    for (const std::string &p : probes) r += strings_text(m.parse(p)) + ";";
    return r;
}
static std::string answers(StringVGram &m, const std::vector<std::string> &probes) {
    return show_all(m.alphabet(), m.freqs()) + strings_text(m.transform(probes));
}

static void same_file(const std::string &a, const std::string &b) {
    json x = parse_file(a), y = parse_file(b);
    if (x != y) same(x.dump(), y.dump(), "the file of the loaded model");
}

static void round_trip(Run &R, const IntStreamVGram &m) {
    const std::string f = R.scratch + "/f.json", g = R.scratch + "/g.json";
    std::string before = answers(m);
    m.save(f);
    auto l = Loader::load_int_stream_vgram(f);
    same(before, answers(*l), "the loaded model");
    l->save(g);
    same_file(f, g);
    R.state(hash_str(read_file(f)));
}
static void round_trip(Run &R, const IntVGram &m, bool fitted) {
    const std::string f = R.scratch + "/f.json", g = R.scratch + "/g.json";
    std::string before = answers(m);
    m.save(f);
    std::shared_ptr<IntVGram> l(Loader::load_int_vgram(f));
    same(before, answers(*l), "the loaded model");
    l->save(g);
    same_file(f, g);
    R.state(hash_str(read_file(f)));
    if (!fitted) return;
    for (const Seqs &texts : {Seqs{{10, 20, 20}, {50, 10}}, Seqs{}}) {
        CHECK_THAT(l->fit(texts) == l.get(), "fit of the loaded model does not return it");
        same(before, answers(*l), "the loaded model after fitting it again with " + str(texts));
    }
    l->save(g);
    same_file(f, g);
}
static void round_trip(Run &R, StringStreamVGram &m, const std::vector<std::string> &probes) {
    const std::string f = R.scratch + "/f.json", g = R.scratch + "/g.json";
    m.save(f);
    std::string before = answers(m, probes);
    auto l = Loader::load_string_stream_vgram(f);
    same(before, answers(*l, probes), "the loaded model");
    l->save(g);
    same_file(f, g);
    R.state(hash_str(read_file(f)));
}
static void round_trip(Run &R, StringVGram &m, const std::vector<std::string> &probes, bool fitted) {
    const std::string f = R.scratch + "/f.json", g = R.scratch + "/g.json";
    m.save(f);
    std::string before = answers(m, probes);
    std::shared_ptr<StringVGram> l(Loader::load_string_vgram(f));
    same(before, answers(*l, probes), "the loaded model");
    l->save(g);
    same_file(f, g);
    R.state(hash_str(read_file(f)));
    if (!fitted) return;
    l->fit({"abba", "q-q-q"});
    same(before, answers(*l, probes), "the loaded model after fitting it again");
    l->save(g);
    same_file(f, g);
}

// histories of the subjects
static void history(Run &R, int kind, const std::vector<int> &ops) {
    R.kase([&] {
        auto s = make_subject(kind, R.scratch, "a");
        std::string r = kind_name(kind) + ":";
        for (int o : ops) r += " " + s->op_name(o);
        return r + ", saved and loaded";
    }, [&] {
        auto s = make_subject(kind, R.scratch, "a");
        for (int o : ops) s->op(o);
        R.transition(ops.size() + 1);
        R.trace();
        bool fitted = false;
        if (auto *b = dynamic_cast<BatchSubject *>(s.get())) {
            for (size_t i = 0; i < ops.size(); i++) fitted |= ops[i] == 3;
            round_trip(R, *b->m, fitted);
        } else if (auto *st = dynamic_cast<StreamSubject *>(s.get())) {
            round_trip(R, *st->m);
        } else if (auto *t = dynamic_cast<TextStreamSubject *>(s.get())) {
            round_trip(R, *t->m, text_probes(t->words));
        } else if (auto *tb = dynamic_cast<TextBatchSubject *>(s.get())) {
            round_trip(R, *tb->m, text_probes(false), !ops.empty());
        }
    });
}

// dictionaries restored from outside: many values of size, minimal probability, frequencies and symbols
static void values(Run &R) {
    const int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
    for (const IntSeq &symbols : {IntSeq{10, 20, 30}, IntSeq{lo, hi, -1}, IntSeq{2, 1, 0}, IntSeq{1000000, 0, -1000000}})
        for (int size : {0, 1, 7, 1000000, hi})
            for (double mp : {0.002, 1.0 / 3, 1e-300, 0.1 + 0.2, 1.0, 2.2250738585072014e-308, 5e-9})
                for (const IntSeq &freqs : {IntSeq{0, 0, 0, 0}, IntSeq{1, 2, 3, 4}, IntSeq{700000000, 5, 0, 9}})
                    for (uint64_t mask = 0; mask < 8; mask++)
                        R.kase([&] {
                            return "symbols " + str(symbols) + " size " + str(size) + " minimal probability " + str(mp) +
                                   " freqs " + str(freqs) + " long entries " + str(int(mask));
                        }, [&] {
                            Seqs d{{0}, {1}, {2}};
                            const Seqs longer{{0, 1}, {1, 0, 2, 1}, {2, 2}};
                            IntSeq f(freqs.begin(), freqs.begin() + 3);
                            for (int i = 0; i < 3; i++)
                                if (mask >> i & 1) {
                                    d.push_back(longer[i]);
                                    f.push_back(freqs[3] + i);
                                }
                            R.trace();
                            IntStreamVGram a(make_coder(symbols), f, d, size, mp);
                            round_trip(R, a);
                            for (bool fitted : {false, true}) {
                                IntVGram b(make_coder(symbols), f, d, size, mp, fitted, fitted);
                                round_trip(R, b, fitted);
                            }
                        });
}

// models that have learned, from long texts
static void learned(Run &R) {
    const Seqs words{{10}, {10, 20}, {20, 10, 10}, {30, 10, 20}, {10, 20, 10, 20, 30}};
    for (int size : {0, 3, 6, 30})
        for_all(5, 2, [&](const std::vector<int> &h) {
            for (int n : {2, 7, 16, 40})
                R.kase([&] {
                    return "stream and batch models of size " + str(size) + " that accepted " + str(n) + " long sequences of " +
                           str(words[h[0]]) + " and " + str(words[h[1]]);
                }, [&] {
                    R.trace();
                    IntStreamVGram m(size, 0);
                    IntSeq all;
                    Seqs texts;
                    for (int i = 0; i < n; i++) {
                        IntSeq s;
                        while (s.size() < 250) {
                            const IntSeq &w = words[h[(s.size() + i) % 3 == 0]];
                            s.insert(s.end(), w.begin(), w.end());
                        }
                        m.accept(s);
                        texts.push_back(s);
                        if (i == n / 2) {
                            m.update_dict();
                            round_trip(R, m);
                        }
                    }
                    round_trip(R, m);
                    m.update_dict();
                    round_trip(R, m);
                    R.log([&] { return show_all(m.alphabet(), m.freqs()); });
                    srand(n);
                    IntVGram b(size, 2, 0);
                    round_trip(R, b, false);
                    b.fit(texts);
                    round_trip(R, b, true);
                });
        });
    for (bool words_mode : {false, true})
        for (int size : {0, 4, 30})
            for (int n : {3, 9, 25})
                for (int pattern = 0; pattern < 6; pattern++)
                    R.kase([&] {
                        return std::string("text models") + (words_mode ? " of words" : "") + " of size " + str(size) + " that accepted " +
                               str(n) + " long texts of pattern " + str(pattern);
                    }, [&] {
                        R.trace();
                        std::vector<std::string> texts;
                        for (int i = 0; i < n; i++) {
                            std::string t;
                            for (int k = 0; k < 250; k++) {
                                int x = (k * k + k * pattern + i) % 7 % (pattern + 2);
                                t += words_mode ? std::vector<std::string>{"to", "be", "or", "not", "\"q\"", "a\\b", "\xc3\xa9"}[x] + " "
                                                : std::string(1, "aBc1Z9b"[x]);
                            }
                            texts.push_back(t);
                        }
                        auto probes = text_probes(words_mode);
                        probes.push_back(texts[0]);
                        StringStreamVGram m(size, 0, false, words_mode);
                        for (int i = 0; i < n; i++) {
                            m.accept(texts[i]);
                            if (i == n / 2) {
                                m.update_dict();
                                round_trip(R, m, probes);
                            }
                        }
                        m.update_dict();
                        round_trip(R, m, probes);
                        if (words_mode) return;
                        srand(n);
                        StringVGram b(size, 2, 0);
                        round_trip(R, b, probes, false);
                        b.fit(texts);
                        round_trip(R, b, probes, true);
                    });
}

// every token a word text can have: all one-byte words, and words with the bytes JSON has to escape
static void tokens(Run &R) {
    std::vector<std::string> w;
    for (int c = 0; c < 128; c++) if (c != ' ') w.push_back(std::string(1, char(c)));
    for (const char *t : {"null", "{}", "\\u0041", "\"\"", "\xc3\xa9", "\xe2\x96\x81", "\xf0\x9f\x98\x80", "\t\n", "a\nb", "\\", "\\\\\""})
        w.push_back(t);
    for (size_t i = 0; i < w.size(); i++)
        R.kase([&] { return "text model of words, token number " + str(int(i)); }, [&] {
            R.trace();
            StringStreamVGram m(5, 0, false, true);
            const std::string other = w[(i * 7 + 3) % w.size()];
            m.accept(w[i] + " " + other + " " + w[i]);
            m.update_dict();
            std::vector<std::string> probes{w[i], other, w[i] + " " + other, other + " x " + w[i], ""};
            round_trip(R, m, probes);
            // learned pieces of such tokens
            std::string t;
            for (int k = 0; k < 500; k++) t += w[i] + " " + (k % 3 ? other : w[i]) + " ";
            for (int k = 0; k < 8; k++) m.accept(t);
            m.update_dict();
            round_trip(R, m, probes);
            R.log([&] { return show_all(m.alphabet(), m.freqs()); });
        });
}

// many symbols, tokens and words, long words and long entries; the loaded model also goes on as the saved one
static void large(Run &R) {
    std::vector<int> counts{70, 300, 1500};
    if (R.thorough) counts.push_back(70000);
    for (int n : counts)
        for (int when = 0; when < 3; when++) {
            R.kase([&] { return "models over " + str(n) + " symbols, " + std::vector<std::string>{"published", "published in part", "not published"}[when]; }, [&] {
                R.trace();
                const std::string f = R.scratch + "/f.json";
                IntSeq all;
                for (int i = 0; i < n; i++) all.push_back((i % 2 ? 1 : -1) * (i * 7919 % 100003));
                std::set<int> distinct(all.begin(), all.end());
                all.assign(distinct.begin(), distinct.end());
                const IntSeq head(all.begin(), all.begin() + all.size() / 2), tail(all.begin() + all.size() / 2, all.end());
                IntStreamVGram m(5, 0);
                m.accept(head);
                if (when == 1) m.update_dict();
                m.accept(tail);
                if (when == 0) m.update_dict();
                round_trip(R, m);
                m.save(f);
                auto l = Loader::load_int_stream_vgram(f);
                CHECK_THAT(m.parse(all) == l->parse(all), "the loaded model parses all symbols differently");
                // symbols that were accepted and not published are still in the model's coder: publish them now
                m.update_dict();
                round_trip(R, m);
                CHECK_THAT(m.alphabet().size() >= all.size(), "not every symbol is in the alphabet");
                m.save(f);
                CHECK_THAT(Loader::load_int_stream_vgram(f)->parse(all) == m.parse(all), "the loaded model parses all symbols differently");
                IntVGram b(5, 2, 0);
                b.accept(head);
                if (when == 1) b.update_dict();
                b.accept(tail);
                if (when == 0) b.update_dict();
                round_trip(R, b, false);
                srand(3);
                b.fit({head, tail});
                round_trip(R, b, true);
                b.save(f);
                std::unique_ptr<IntVGram> lb(Loader::load_int_vgram(f));
                CHECK_THAT(lb->transform({all}) == b.transform({all}), "the loaded model codes all symbols differently");
            });
            for (size_t length : {size_t(1), size_t(500), size_t(3)}) R.kase([&] {
                return "text models over " + str(n) + " words of about " + str(length) + " letters, " +
                       std::vector<std::string>{"published", "published in part", "not published"}[when];
            }, [&] {
                R.trace();
                std::vector<std::string> halves(2), probes;
                for (int i = 0; i < n; i++) {
                    const std::string w = std::string(length, char('a' + i % 26)) + str(i);
                    halves[i >= n / 2] += w + " ";
                    if (i % (n / 50) == 0) probes.push_back(w);
                }
                probes.push_back(halves[1] + halves[0]);
                StringStreamVGram m(5, 0, false, true);
                m.accept(halves[0]);
                if (when == 1) m.update_dict();
                m.accept(halves[1]);
                if (when == 0) m.update_dict();
                round_trip(R, m, probes);
                // the words that are not published yet are saved too
                const std::string f = R.scratch + "/f.json";
                m.save(f);
                auto l = Loader::load_string_stream_vgram(f);
                l->update_dict();
                m.update_dict();
                for (const auto &model : {&m, l.get()}) {
                    const std::vector<std::string> alpha = model->alphabet();
                    const std::set<std::string> have(alpha.begin(), alpha.end());
                    for (const std::string &half : halves) {
                        std::istringstream in(half);
                        std::string w;
                        while (in >> w) CHECK_THAT(have.count(w), (model == &m ? "the word \"" : "after loading and update_dict the word \"") + w + "\" is not in the alphabet");
                    }
                }
                round_trip(R, m, probes);
                CHECK_THAT(m.alphabet().size() >= size_t(n), "not every word is in the alphabet");
            });
        }
    for (size_t length : {100, 2000, 30000})
        R.kase([&] { return "an entry of " + str(length) + " symbols"; }, [&] {
            R.trace();
            IntSeq entry;
            while (entry.size() < length) entry.push_back(int(entry.size() * entry.size() / 3 % 7) % 3);
            const Seqs dict{{0}, {1}, {2}, entry};
            IntStreamVGram m(make_coder({10, 20, 30}), {5, 7, 9, 50}, dict, 6, 0.01);
            round_trip(R, m);
            IntVGram b(make_coder({10, 20, 30}), {5, 7, 9, 50}, dict, 6, 0.01, false, false);
            round_trip(R, b, false);
            IntSeq text;
            for (int x : entry) text.push_back(10 * x + 10);
            const std::string f = R.scratch + "/f.json";
            m.save(f);
            CHECK_THAT(m.parse(text).size() == 1 && Loader::load_int_stream_vgram(f)->parse(text) == m.parse(text), "the long entry is not used after loading");
        });
}

static void explore(Run &R) {
    for (int kind = 1; kind < kKinds; kind++) {
        int n = make_subject(kind, R.scratch, "a")->nops();
        int depth = 4 + (R.thorough ? 1 : 0);
        for (int len = 0; len <= depth; len++)
            for_all(n, len, [&](const std::vector<int> &ops) { history(R, kind, ops); });
        for_all(n, 3, [&](const std::vector<int> &p) {
            std::vector<int> ops;
            for (int i = 0; i < 30; i++) ops.push_back(p[i % 3]);
            history(R, kind, ops);
        });
    }
    values(R);
    learned(R);
    tokens(R);
    large(R);
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
