// C19: text models.  All training texts / histories and all probe texts up to a length, compared with the integer model
// fed with token ids and with the tokens found by the reference.
#include "iface.h"

using namespace vt;

typedef std::vector<std::string> Strings;

// the outcomes of rand() during fit
static std::vector<int> script;
static size_t script_pos = 0;
extern "C" int rand() noexcept { return script.empty() ? 0 : script[script_pos++ % script.size()]; }

static Strings ref_tokens(bool words, const std::string &s) {
    Strings r;
    if (words) {
        std::string cur;
        for (char c : s + " ") {
            if (c != ' ') cur += c;
            else if (!cur.empty()) { r.push_back(cur); cur.clear(); }
        }
        return r;
    }
    for (char c : s) {
        if (c >= 'A' && c <= 'Z') r.push_back(std::string(1, char(c - 'A' + 'a')));
        else if ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) r.push_back(std::string(1, c));
    }
    return r;
}

// token ids of our own
struct Ids {
    Strings tokens;
    IntSeq of(const Strings &t) {
        IntSeq r;
        for (const std::string &x : t) {
            size_t i = std::find(tokens.begin(), tokens.end(), x) - tokens.begin();
            if (i == tokens.size()) tokens.push_back(x);
            r.push_back(int(i));
        }
        return r;
    }
    std::string text(const IntSeq &s) const {
        std::string r;
        for (int i : s) r += tokens.at(i);
        return r;
    }
};

struct TextModel {
    bool words = false;
    std::unique_ptr<StringStreamVGram> m;
    std::shared_ptr<IntStreamVGram> twin;
    Ids ids;
    std::set<std::string> accepted, learned;
    bool backward = false;              // order of the next probes

    Strings known(const std::string &s) const {
        Strings r;
        for (const std::string &t : ref_tokens(words, s)) if (learned.count(t)) r.push_back(t);
        return r;
    }
    void accept(const std::string &s) {
        m->accept(s);
        Strings t = ref_tokens(words, s);
        twin->accept(ids.of(t));
        accepted.insert(t.begin(), t.end());
    }
    void update() {
        m->update_dict();
        twin->update_dict();
        learned = accepted;
    }
};

static void probe(Run &R, TextModel &t, const std::string &s, const std::string &when, const Seqs &twin_alpha,
                  const std::set<std::string> &alpha) {
    Strings got = t.m->parse(s);
    std::string expected;
    for (const std::string &x : t.known(s)) expected += x;
    CHECK_THAT(join(got) == expected, when + " the pieces of \"" + s + "\" are " + str(got) + ", joined \"" + join(got) +
               "\" instead of \"" + expected + "\"");
    for (const std::string &p : got)
        CHECK_THAT(alpha.count(p) && !p.empty(), when + " piece \"" + p + "\" of \"" + s + "\" is not in the alphabet");
    Strings pieces;
    Ids copy = t.ids;
    for (int id : t.twin->parse(copy.of(ref_tokens(t.words, s)))) pieces.push_back(t.ids.text(twin_alpha.at(id)));
    CHECK_THAT(got == pieces, when + " the pieces of \"" + s + "\" are " + str(got) + ", those of the integer model " + str(pieces));
    R.transition();
}

static void probes(Run &R, TextModel &t, const Strings &texts, const std::string &when) {
    Strings alpha = t.m->alphabet(), expected;
    Seqs twin_alpha = t.twin->alphabet();
    for (const IntSeq &s : twin_alpha) expected.push_back(t.ids.text(s));
    R.log([&] { return when + " -> " + show_all(alpha, t.m->freqs()); });
    CHECK_THAT(alpha == expected, when + " the alphabet is " + str(alpha) + " instead of " + str(expected));
    CHECK_THAT(t.m->freqs() == t.twin->freqs(), when + " the frequencies are " + str(t.m->freqs()) + " instead of " + str(t.twin->freqs()));
    std::set<std::string> set(alpha.begin(), alpha.end());
    for (const std::string &x : t.learned) CHECK_THAT(set.count(x), when + " the learned token \"" + x + "\" is not in the alphabet");
    // in turn from the first to the last and back: an answer remembered from the time before an operation would show
    for (size_t i = 0; i < texts.size(); i++) probe(R, t, texts[t.backward ? texts.size() - 1 - i : i], when, twin_alpha, set);
    t.backward = !t.backward;
    R.state(hash_str(show_all(alpha, t.m->freqs()), t.words));
}

struct Begin {
    bool words, quick;
    int size;
    std::string text() const {
        return std::string(words ? "words, " : "characters, ") + (quick ? "restored model" : "model") + " of size " + str(size);
    }
    TextModel make() const {
        TextModel t;
        t.words = words;
        if (!quick) {
            t.m.reset(new StringStreamVGram(size, 0, false, words));
            t.twin = std::make_shared<IntStreamVGram>(size, 0);
            return t;
        }
        const Seqs dict{{1}, {0, 1}, {0}, {1, 0, 1}};
        const IntSeq freqs{4, 9, 2, 1};
        t.ids.tokens = words ? Strings{"to", "be"} : Strings{"a", "b"};
        std::unordered_map<std::string, int> ids;
        for (size_t i = 0; i < t.ids.tokens.size(); i++) ids[t.ids.tokens[i]] = int(i);
        std::shared_ptr<BaseTokenizer> tok;
        if (words) tok = std::make_shared<WordTokenizer>(ids);
        else tok = std::make_shared<CharTokenizer>(ids);
        t.m.reset(new StringStreamVGram(quick_stream({0, 1}, dict, freqs, 0.5, size), tok, false, words));
        t.twin = quick_stream({0, 1}, dict, freqs, 0.5, size);
        t.accepted.insert(t.ids.tokens.begin(), t.ids.tokens.end());
        t.learned = t.accepted;
        return t;
    }
};

static Strings strings(const std::string &bytes, int lo, int hi) {
    Strings r;
    for (int len = lo; len <= hi; len++)
        for_all(int(bytes.size()), len, [&](const std::vector<int> &h) {
            std::string s;
            for (int i : h) s += bytes[i];
            r.push_back(s);
        });
    return r;
}

static Strings word_texts(const Strings &w, int lo, int hi) {
    Strings r;
    for (int len = lo; len <= hi; len++)
        for_all(int(w.size()), len, [&](const std::vector<int> &h) {
            std::string s;
            for (int i : h) s += (s.empty() ? "" : " ") + w[i];
            r.push_back(s);
        });
    return r;
}

static void stream(Run &R) {
    const Strings few[2] = {{"bab a", "", "ab", "Ba b!A", "abcabc", "zb1a", "c", "a\xc3\xa4" "b", "bbaab c?aB"},
                            {"to be or to", "", "to be", " be  to", "or to be or not to be", "TO be", "b to", "be be to to be"}};
    const Strings menu[2] = {{"aBab", "b-a c", "cc1", ""}, {"to be to be", "be  to or", "or Or ", " "}};
    for (bool words : {false, true})
        for (bool quick : {false, true})
            for (int size : {0, 3, 6}) {
                Begin g{words, quick, size};
                // histories
                for_all(int(menu[words].size()) + 1, R.thorough ? 5 : 4, [&](const std::vector<int> &ops) {
                    std::string name = g.text() + ":";
                    for (int o : ops) name += o ? " accept \"" + menu[words][o - 1] + "\"" : std::string(" update_dict");
                    R.kase([&] { return name; }, [&] {
                        TextModel t = g.make();
                        std::string when = "after";
                        probes(R, t, few[words], "after creation");
                        for (int o : ops) {
                            if (o) t.accept(menu[words][o - 1]); else t.update();
                            when += o ? " accept \"" + menu[words][o - 1] + "\"" : std::string(" update_dict");
                            probes(R, t, few[words], when);
                        }
                        R.trace();
                    });
                });
                // all texts as training, all texts as probes
                Strings all = words ? word_texts({"to", "be", "or", ""}, 0, 3) : strings("aB -1", 0, 3);
                Strings all_probes = words ? word_texts({"to", "be", "no", ""}, 0, 4 + R.thorough) : strings("abA x1", 0, 4);
                for (const std::string &a : all)
                    R.kase([&] { return g.text() + ": \"" + a + "\" learned, all texts parsed"; }, [&] {
                        TextModel t = g.make();
                        for (int i = 0; i < 1 + 12 * quick; i++) t.accept(a);
                        t.update();
                        probes(R, t, all_probes, "after learning \"" + a + "\"");
                        R.trace();
                    });
                // many cycles
                for (int every : {1, 3, 7})
                    for_all(3, 3, [&](const std::vector<int> &p) {
                        R.kase([&] {
                            return g.text() + ": accept in turn \"" + menu[words][p[0]] + "\" \"" + menu[words][p[1]] + "\" \"" +
                                   menu[words][p[2]] + "\", update_dict after every " + str(every);
                        }, [&] {
                            TextModel t = g.make();
                            for (int i = 0; i < (quick ? 60 : 12); i++) {
                                std::string s;
                                for (int k = 0; k < (quick ? 1 : 150); k++) s += menu[words][p[i % 3]] + " ";
                                t.accept(s);
                                if (i % every == every - 1) {
                                    t.update();
                                    probes(R, t, few[words], "after " + str(i + 1) + " texts");
                                }
                            }
                            R.trace();
                        });
                    });
            }
}

static void one_fit(Run &R, bool words, int size, int iters, const Strings &train, const std::vector<int> &choices,
                    const Strings &texts) {
    std::unique_ptr<StringVGram> m;
    if (words) m.reset(new StringVGram(size, iters, new WordTokenizer(), 0));
    else m.reset(new StringVGram(size, iters, 0));
    IntVGram twin(size, iters, 0);
    Ids ids;
    Seqs seqs;
    std::set<std::string> learned;
    for (const std::string &s : train) {
        Strings t = ref_tokens(words, s);
        learned.insert(t.begin(), t.end());
        seqs.push_back(ids.of(t));
    }
    script = choices;
    script_pos = 0;
    StringVGram *res = m->fit(train);
    CHECK_THAT(res == m.get(), "fit returns another model");
    script_pos = 0;
    twin.fit(seqs);
    Strings alpha = m->alphabet();
    Seqs twin_alpha = twin.alphabet();
    Strings expected;
    for (const IntSeq &s : twin_alpha) expected.push_back(ids.text(s));
    CHECK_THAT(alpha == expected, "the alphabet is " + str(alpha) + " instead of " + str(expected));
    CHECK_THAT(m->freqs() == twin.freqs(), "the frequencies are " + str(m->freqs()) + " instead of " + str(twin.freqs()));
    std::set<std::string> set(alpha.begin(), alpha.end());
    R.log([&] { return "fitted: " + show_all(alpha, m->freqs()); });
    for (int pass = 0; pass < 2; pass++) {
        // all at once, then one by one
        Strings lines;
        if (pass == 0) lines = m->transform(texts);
        else for (const std::string &s : texts) {
            Strings one = m->transform(Strings{s});
            CHECK_THAT(one.size() == 1, "one text is transformed to " + str(one.size()) + " lines");
            lines.push_back(one[0]);
        }
        CHECK_THAT(lines.size() == texts.size(), str(texts.size()) + " texts are transformed to " + str(lines.size()) + " lines");
        for (size_t i = 0; i < texts.size(); i++) {
            std::string expected_text;
            Strings tokens = ref_tokens(words, texts[i]);
            for (const std::string &t : tokens) if (learned.count(t)) expected_text += t;
            Strings pieces;
            Ids copy = ids;
            Seqs coded = twin.transform(Seqs{copy.of(tokens)});
            for (int id : coded.at(0)) pieces.push_back(ids.text(twin_alpha.at(id)));
            for (const std::string &p : pieces) CHECK_THAT(set.count(p), "piece \"" + p + "\" is not in the alphabet");
            CHECK_THAT(lines[i] == join(pieces, " "), "\"" + texts[i] + "\" is transformed to \"" + lines[i] + "\" instead of \"" + join(pieces, " ") + "\"");
            CHECK_THAT(join(pieces) == expected_text, "\"" + texts[i] + "\" is coded as \"" + join(pieces) + "\"");
            R.transition();
        }
    }
    R.state(hash_str(show_all(alpha, m->freqs()), words));
    R.trace();
}

static void batch(Run &R) {
    const Strings texts[2] = {{"", "ab", "Ba b!A", "abcabc", "zb1a", "c", "bbaab c?aB", " ", "?"},
                              {"to be or to", "", "to be", " be  to", "or to be or not to be", "TO be", "b to", " ", "be be to to be"}};
    const Strings pool[2] = {{"aBab", "b-a c", "cc1", ""}, {"to be to be", "be  to or", "or Or ", " "}};
    for (bool words : {false, true})
        for (int size : {0, 3, 6})
            for (int iters : {0, 1, 2, 3})
                for (int n = 0; n <= 3; n++)
                    for_all(int(pool[words].size()), n, [&](const std::vector<int> &pick) {
                        int draws = std::min(n * iters, 3);
                        for_all(n ? n : 1, draws, [&](const std::vector<int> &choices) {
                            std::string name = std::string("text batch model of ") + (words ? "words" : "characters") + ", size " + str(size) +
                                               ", " + str(iters) + " iterations, texts";
                            for (int i : pick) name += " \"" + pool[words][i] + "\"";
                            R.kase([&] { return name + ", chosen " + str(IntSeq(choices)); }, [&] {
                                Strings train;
                                for (int i : pick) train.push_back(pool[words][i]);
                                one_fit(R, words, size, iters, train, choices, texts[words]);
                            });
                        });
                    });
    // all single training texts
    for (bool words : {false, true}) {
        Strings all = words ? word_texts({"to", "be", ""}, 0, 4) : strings("aB -1", 0, 4);
        Strings all_probes = words ? word_texts({"to", "be", "no", ""}, 0, 3) : strings("abA x1", 0, 3);
        for (const std::string &a : all)
            R.kase([&] { return "fitted on \"" + a + "\", all texts transformed"; }, [&] { one_fit(R, words, 4, 1, {a}, {0}, all_probes); });
        // long texts: rebuilds
        for (int size : {0, 3, 20})
            for (int k : {150, 400, 1500})
                for_all(3, 3, [&](const std::vector<int> &p) {
                    R.kase([&] { return std::string(words ? "words" : "characters") + ", size " + str(size) + ", long texts, " + str(k) + " repetitions of " +
                                        str(IntSeq(p)); }, [&] {
                        Strings train;
                        for (int i : p) {
                            std::string s;
                            for (int j = 0; j < k; j++) s += pool[words][i] + (j % 7 == 3 ? " " + pool[words][p[0]] + " " : " ");
                            train.push_back(s);
                        }
                        Strings probes = texts[words];
                        probes.insert(probes.end(), train.begin(), train.end());
                        one_fit(R, words, size, 3, train, {0, 1, 2, 1, 0}, probes);
                    });
                });
    }
}

// very many words, very many texts
static void large(Run &R) {
    for (int n : {300, 3000})
        for (int size : {0, 50})
            R.kase([&] { return str(n) + " words, batch model of size " + str(size) + ", " + str(n) + " texts transformed"; }, [&] {
                Strings train, probes;
                for (int k = 0; k < 3; k++) {
                    std::string s;
                    for (int i = 0; i < n; i++) s += "w" + str(k == 0 ? i : i * i * 7 % n % 90) + (i % 3 ? " " : "  ");
                    train.push_back(s);
                }
                for (int i = 0; i < n; i++) probes.push_back("w" + str(i) + " w" + str(i * 31 % n) + " w" + str(i * i % n % 90) + " unknown" + str(i));
                probes.push_back(train[0]);
                one_fit(R, true, size, 2, train, {1, 2, 1, 2, 1, 2}, probes);
            });
    for (int n : {300, 3000})
        R.kase([&] { return str(n) + " words, stream model"; }, [&] {
            Begin g{true, false, 40};
            TextModel t = g.make();
            Strings texts;
            for (int k = 0; k < 6; k++) {
                std::string s;
                for (int i = 0; i < n / 2; i++) s += "w" + str(k % 2 ? i * i * 7 % n % 60 : i + k * n / 8) + " ";
                texts.push_back(s);
            }
            for (size_t k = 0; k < texts.size(); k++) {
                t.accept(texts[k]);
                if (k % 2) t.update();
                probes(R, t, texts, "after " + str(int(k) + 1) + " texts");
            }
            R.trace();
        });
}

static void modes(Run &R) {
    for (int size : {0, 1, 10, 30000})
        for (int verbose : {0, 1})
            for (int m = 0; m < 4; m++)
                for (bool given : {false, true})
                    R.kase([&] { return "word modes " + str(m) + " size " + str(size) + (given ? " with parts given" : ""); }, [&] {
                        bool inner = m & 1, words = m & 2, thrown = false;
                        try {
                            if (!given) {
                                StringStreamVGram x(size, verbose, inner, words);
                            } else {
                                std::shared_ptr<BaseTokenizer> tok;
                                if (words) tok = std::make_shared<WordTokenizer>(); else tok = std::make_shared<CharTokenizer>();
                                StringStreamVGram x(std::make_shared<IntStreamVGram>(size, verbose), tok, inner, words);
                            }
                        } catch (const std::invalid_argument &) {
                            thrown = true;
                        }
                        CHECK_THAT(thrown == (inner && words), thrown ? "a valid combination of modes is rejected" : "both word modes at once are accepted");
                        R.trace();
                        R.state(mix(m, size * 4 + verbose * 2 + given));
                    });
}

static void explore(Run &R) {
    modes(R);
    stream(R);
    batch(R);
    large(R);
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
