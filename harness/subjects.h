// The kinds of models as one interface: a few operations that change a model, observers, and everything that can be read.
#ifndef VERIF_SUBJECTS_H
#define VERIF_SUBJECTS_H

#include "iface.h"

namespace vt {

struct Subject {
    std::string file;                           // scratch file to save to
    virtual ~Subject() = default;
    virtual int nops() const = 0;
    virtual std::string op_name(int op) const = 0;
    virtual void op(int op) = 0;
    virtual int nobservers() const = 0;
    virtual std::string observer_name(int o) const = 0;
    virtual void observe(int o) = 0;
    // a long observation: `len` symbols, one in `rare` of them unknown
    virtual void observe_long(int, int) {}
    static IntSeq long_seq(int len, int rare) {
        IntSeq r;
        for (int i = 0; i < len; i++) r.push_back(i % rare == rare - 1 ? 100000 - i : i % 3 ? 10 : 20);
        return r;
    }
    static std::string long_text(int len, int rare, bool words) {
        std::string r;
        for (int i = 0; i < len; i++) {
            if (i % rare == rare - 1) r += words ? "new" + std::to_string(i) : std::string(1, char('c' + i % 20));
            else r += words ? (i % 3 ? "to" : "be") : i % 3 ? "a" : "b";
            if (words || i % 60 == 0) r += " ";
        }
        return r;
    }
    // by observers only; backward: the sequences are asked for in the opposite order, which must not matter
    virtual std::string snapshot(bool backward = false) = 0;

    template <class F> static std::string each(int n, bool backward, F f) {
        std::vector<std::string> r(n);
        for (int i = 0; i < n; i++) {
            int k = backward ? n - 1 - i : i;
            r[k] = f(k);
        }
        std::string all;
        for (const auto &x : r) all += " " + x;
        return all;
    }
};

static const Seqs kMenu{{10, 20, 10, 20, 10, 20}, {20, 10, 10, 30}, {30, 10, 20, 30, 30}};
// the first and the last one are also asked for by the observers: an answer remembered from there would show
static const Seqs kProbes{{10, 20, 10, 20, 20, 10, 30, 10}, {20, 10}, {10}, {}, {30, 30, 10}, {10, 20, 10, 20, 10}, {0, 1, 0}, {-7},
                          {77, 10, 77, 20, 0, 1, -7, 10, 20}};

// the builder itself
struct BuilderSubject : Subject {
    std::unique_ptr<IntVGramBuilderImpl> b;
    int times;                                  // the sequences are repeated, a fresh builder rebuilds late
    explicit BuilderSubject(const Start &s) : b(s.real()), times(1) {}
    BuilderSubject(int size, int repeat, int verbose = 0) : b(new IntVGramBuilderImpl(size, verbose)), times(repeat) {}
    IntSeq accepted(int op) const {
        IntSeq r;
        for (int i = 0; i < times; i++) r.insert(r.end(), kMenu[op].begin(), kMenu[op].end());
        return r;
    }
    int nops() const override { return 4; }
    std::string op_name(int op) const override {
        return op == 3 ? "register 99 in the published dictionary"
                       : "accept" + str(kMenu[op]) + (times > 1 ? " " + str(times) + " times in one" : "");
    }
    void op(int op) override { if (op == 3) b->result()->search({99}, nullptr); else b->accept(accepted(op)); }
    int nobservers() const override { return 5; }
    std::string observer_name(int o) const override {
        return std::vector<std::string>{"result", "alpha", "result_freqs", "code_length", "get_min_probability"}[o];
    }
    void observe(int o) override {
        IntSeq f;
        switch (o) {
            case 0: b->result()->alphabet(); break;
            case 1: {
                auto a = b->alpha();            // a copy, the caller may do with it what he wants
                a->search({12345}, nullptr);
                break;
            }
            case 2: b->result_freqs(&f); break;
            case 3: b->code_length(); break;
            case 4: b->get_min_probability(); break;
        }
    }
    std::string snapshot(bool backward = false) override {
        IntSeq f;
        b->result_freqs(&f);
        std::string r = show_all(b->result()->alphabet(), f);
        r += " alpha " + show_all(b->alpha()->alphabet(), {});
        return r + " minimal probability " + str(b->get_min_probability()) + " code length " + str(b->code_length());
    }
};

struct StreamSubject : Subject {
    std::shared_ptr<IntStreamVGram> m;
    explicit StreamSubject(std::shared_ptr<IntStreamVGram> model) : m(model) {}
    int nops() const override { return 4; }
    std::string op_name(int op) const override { return op == 3 ? "update_dict" : "accept" + str(kMenu[op]); }
    void op(int op) override { if (op == 3) m->update_dict(); else m->accept(kMenu[op]); }
    int nobservers() const override { return 6; }
    std::string observer_name(int o) const override {
        return std::vector<std::string>{"parse", "parse of unknown symbols", "alphabet", "freqs", "save", "get_coder and get_dict"}[o];
    }
    void observe(int o) override {
        switch (o) {
            case 0: m->parse(kProbes.front()); break;
            case 1: m->parse(kProbes.back()); break;
            case 2: m->alphabet(); break;
            case 3: m->freqs(); break;
            case 4: m->save(file); break;
            case 5: {
                m->get_coder()->encode_immutable({99, 10});
                m->get_dict()->alphabet();
                break;
            }
        }
    }
    void observe_long(int len, int rare) override { m->parse(long_seq(len, rare)); }
    std::string snapshot(bool backward = false) override {
        std::string r = show_all(m->alphabet(), m->freqs()) + " parses";
        r += each(int(kProbes.size()), backward, [&](int i) { return str(m->parse(kProbes[i])); });
        m->save(file);
        return r + " file " + read_file(file);
    }
};

struct BatchSubject : Subject {
    std::shared_ptr<IntVGram> m;
    unsigned seed;
    explicit BatchSubject(std::shared_ptr<IntVGram> model, unsigned random_seed = 5) : m(model), seed(random_seed) {}
    int nops() const override { return 4; }
    std::string op_name(int op) const override {
        return op == 3 ? "fit" : op == 2 ? "update_dict" : "accept" + str(kMenu[op]);
    }
    void op(int op) override {
        if (op == 3) {
            srand(seed);
            m->fit(kMenu);
        } else if (op == 2) {
            m->update_dict();
        } else {
            m->accept(kMenu[op]);
        }
    }
    int nobservers() const override { return 7; }
    std::string observer_name(int o) const override {
        return std::vector<std::string>{"parse", "parse of unknown symbols", "alphabet", "freqs", "save", "transform",
                                        "transform_to_string"}[o];
    }
    void observe(int o) override {
        switch (o) {
            case 0: m->parse(kProbes.front()); break;
            case 1: m->parse(kProbes.back()); break;
            case 2: m->alphabet(); break;
            case 3: m->freqs(); break;
            case 4: m->save(file); break;
            case 5: m->transform({{10, 20}, {}, {55, 66, 10}}); break;
            case 6: m->transform_to_string({{10, 20}, {}, {55, 66, 10}}); break;
        }
    }
    void observe_long(int len, int rare) override {
        m->transform({long_seq(len, rare), {10}});
        m->transform_to_string({long_seq(len, rare), {}});
        m->transform(Seqs(std::max(1, len / 10), IntSeq{10, 20, 7}));
    }
    std::string snapshot(bool backward = false) override {
        std::string r = show_all(m->alphabet(), m->freqs()) + " parses";
        const Seqs probes = backward ? Seqs(kProbes.rbegin(), kProbes.rend()) : kProbes;
        const Seqs got = m->transform(probes);
        CHECK_THAT(got.size() == probes.size(), str(int(got.size())) + " results for " + str(probes));
        r += each(int(got.size()), backward, [&](int i) { return str(got[backward ? got.size() - 1 - i : i]); });
        m->save(file);
        return r + " file " + read_file(file);
    }
};

// the ids of text tokens may differ, the text may not
inline std::string text_file(const std::string &file) {
    std::ifstream f(file);
    json j;
    f >> j;
    if (j["coder"].is_array()) j["coder"] = j["coder"].size();
    return j.dump();
}

struct TextStreamSubject : Subject {
    std::shared_ptr<StringStreamVGram> m;
    bool words;
    TextStreamSubject(std::shared_ptr<StringStreamVGram> model, bool words_mode) : m(model), words(words_mode) {}
    static std::string text(bool words, int i) {
        return words ? std::vector<std::string>{"to be to be  to be", "be to to or", "or to be or or "}[i]
                     : std::vector<std::string>{"Aba bab", "b-a-a c", "cAb cc"}[i];
    }
    int nops() const override { return 4; }
    std::string op_name(int op) const override { return op == 3 ? "update_dict" : "accept \"" + text(words, op) + "\""; }
    void op(int op) override { if (op == 3) m->update_dict(); else m->accept(text(words, op)); }
    int nobservers() const override { return 5; }
    std::string observer_name(int o) const override {
        return std::vector<std::string>{"parse", "parse of unknown tokens", "alphabet", "freqs", "save"}[o];
    }
    void observe(int o) override {
        switch (o) {
            case 0: m->parse(words ? "to be or" : "abcab"); break;
            case 1: m->parse(words ? "not to QUESTION be that" : "x1a2y c"); break;
            case 2: m->alphabet(); break;
            case 3: m->freqs(); break;
            case 4: m->save(file); break;
        }
    }
    void observe_long(int len, int rare) override { m->parse(long_text(len, rare, words)); }
    std::string snapshot(bool backward = false) override {
        std::string r = show_all(m->alphabet(), m->freqs()) + " parses";
        const std::vector<std::string> texts{words ? "to be or" : "abcab", text(words, 0), text(words, 1), "",
                                             text(words, 2), words ? "not to QUESTION be that" : "x1a2y c"};
        r += each(int(texts.size()), backward, [&](int i) { return str(m->parse(texts[i])); });
        m->save(file);
        return r + " file " + text_file(file);
    }
};

struct TextBatchSubject : Subject {
    std::shared_ptr<StringVGram> m;
    explicit TextBatchSubject(std::shared_ptr<StringVGram> model) : m(model) {}
    int nops() const override { return 2; }
    std::string op_name(int op) const override { return op ? "fit on other texts" : "fit"; }
    void op(int op) override {
        srand(5);
        m->fit(op ? std::vector<std::string>{"zab", "aabb z"} : std::vector<std::string>{"Aba bab", "b-a-a c", "cAb cc"});
    }
    int nobservers() const override { return 5; }
    std::string observer_name(int o) const override {
        return std::vector<std::string>{"transform", "transform of unknown tokens", "alphabet", "freqs", "save"}[o];
    }
    void observe(int o) override {
        switch (o) {
            case 0: m->transform({"cab", "", "abab"}); break;
            case 1: m->transform({"?", "x1a2y c"}); break;
            case 2: m->alphabet(); break;
            case 3: m->freqs(); break;
            case 4: m->save(file); break;
        }
    }
    void observe_long(int len, int rare) override {
        m->transform({long_text(len, rare, false), "ab"});
        m->transform(std::vector<std::string>(std::max(1, len / 10), "abx"));
    }
    std::string snapshot(bool backward = false) override {
        std::string r = show_all(m->alphabet(), m->freqs()) + " transformed";
        std::vector<std::string> texts{"abab", "Aba bab", "b-a-a c", "", "zzzab", "x1a2y c"};
        if (backward) std::reverse(texts.begin(), texts.end());
        const auto got = m->transform(texts);
        CHECK_THAT(got.size() == texts.size(), str(int(got.size())) + " results for " + str(int(texts.size())) + " texts");
        r += each(int(got.size()), backward, [&](int i) { return got[backward ? got.size() - 1 - i : i]; });
        m->save(file);
        return r + " file " + text_file(file);
    }
};

static const int kKinds = 10, kAllKinds = 11;     // the last one has no file

// the kinds whose verbosity can be chosen
inline bool has_verbosity(int kind) { return kind == 0 || kind == 2 || (kind >= 4 && kind <= 7) || kind == 10; }

inline std::unique_ptr<Subject> make_subject(int kind, const std::string &scratch, const std::string &name, int verbose = 0) {
    std::unique_ptr<Subject> s;
    const std::string path = scratch + "/make_" + name + ".json";
    const Seqs dict{{1}, {0, 1}, {0}, {1, 0, 1}};
    switch (kind) {
        case 0: {
            auto *b = new BuilderSubject(restored_start({{10}, {20}}, {3, 2}, 0.6, 5));
            s.reset(b);
            if (verbose) b->b.reset(new IntVGramBuilderImpl(IntDictImpl(Seqs{{10}, {20}}), {3, 2}, Seqs{{10}, {20}}, 0.6, verbose, 5));
            break;
        }
        case 1: s.reset(new StreamSubject(quick_stream({10, 20}, dict, {4, 9, 2, 1}, 0.5, 6))); break;
        case 2: s.reset(new TextStreamSubject(std::make_shared<StringStreamVGram>(5, verbose), false)); break;
        case 3: s.reset(new BatchSubject(std::make_shared<IntVGram>(make_coder({10, 20}), IntSeq{4, 9, 2, 1}, dict, 6, 0.4,
                                                                   false, false))); break;
        case 4: s.reset(new TextBatchSubject(std::make_shared<StringVGram>(5, 2, verbose))); break;
        case 5: s.reset(new StreamSubject(std::make_shared<IntStreamVGram>(4, verbose))); break;
        case 6: s.reset(new TextStreamSubject(std::make_shared<StringStreamVGram>(5, verbose, false, true), true)); break;
        case 7: s.reset(new BatchSubject(std::make_shared<IntVGram>(5, 2, verbose))); break;
        case 8: {       // loaded
            quick_stream({20, 10}, dict, {4, 9, 2, 1}, 0.5, 6)->save(path);
            s.reset(new StreamSubject(Loader::load_int_stream_vgram(path)));
            break;
        }
        case 10: s.reset(new BuilderSubject(5, 90, verbose)); break;
        case 9: {       // text model that rebuilds after a few tokens
            auto t = std::make_shared<WordTokenizer>(std::unordered_map<std::string, int>{{"to", 0}, {"be", 1}});
            s.reset(new TextStreamSubject(std::make_shared<StringStreamVGram>(
                    quick_stream({0, 1}, dict, {4, 9, 2, 1}, 0.5, 6), t, false, true), true));
            break;
        }
    }
    s->file = scratch + "/" + name + ".json";
    return s;
}

inline std::string kind_name(int kind) {
    return std::vector<std::string>{"builder", "stream model (restored)", "text stream model", "batch model (restored)",
                                    "text batch model", "stream model", "text stream model of words", "batch model",
                                    "loaded stream model", "text stream model of words (restored)",
                                    "fresh builder"}[kind];
}

}

#endif
