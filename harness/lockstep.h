// Drives the real builder and the reference model through the same history.
#ifndef VERIF_LOCKSTEP_H
#define VERIF_LOCKSTEP_H

#include "model.h"

namespace vt {

// how a builder comes into being
struct Start {
    enum Kind { Empty, Symbols, Dict, Restored } kind = Empty;
    int size = 0;
    Seqs dict;
    IntSeq freqs;
    double min_prob = 0;

    std::string text() const {
        switch (kind) {
            case Empty: return "builder of size " + std::to_string(size);
            case Symbols: return "builder of symbols " + str(dict) + " size " + std::to_string(size);
            case Dict: return "builder of dictionary " + str(dict) + " size " + std::to_string(size);
            default: return "builder restored from " + str(dict) + " freqs " + str(freqs) + " minimal probability " +
                            str(min_prob) + " size " + std::to_string(size);
        }
    }
    // odd sizes go with a builder that tells what it does, which must not matter
    int verbose() const { return size & 1; }
    std::unique_ptr<IntVGramBuilderImpl> real() const {
        switch (kind) {
            case Empty: return std::unique_ptr<IntVGramBuilderImpl>(new IntVGramBuilderImpl(size, verbose()));
            case Symbols: {
                IntSeq s;
                for (const IntSeq &e : dict) s.push_back(e[0]);
                return std::unique_ptr<IntVGramBuilderImpl>(new IntVGramBuilderImpl(s, size, verbose()));
            }
            case Dict: {
                IntDictImpl d(dict);
                return std::unique_ptr<IntVGramBuilderImpl>(new IntVGramBuilderImpl(d, size, verbose()));
            }
            default: {
                IntDictImpl d(dict);
                return std::unique_ptr<IntVGramBuilderImpl>(
                        new IntVGramBuilderImpl(d, freqs, dict, min_prob, verbose(), size));
            }
        }
    }
    MBuilder model() const {
        switch (kind) {
            case Empty: return Model::fresh({}, size);
            case Symbols: case Dict: return Model::fresh(dict, size);
            default: return Model::restored(dict, freqs, min_prob, size);
        }
    }
};

inline Start empty_start(int size) { Start s; s.size = size; return s; }
inline Start symbol_start(const IntSeq &symbols, int size) {
    Start s;
    s.kind = Start::Symbols;
    s.size = size;
    for (int x : symbols) s.dict.push_back({x});
    return s;
}
inline Start dict_start(const Seqs &dict, int size) {
    Start s;
    s.kind = Start::Dict;
    s.size = size;
    s.dict = dict;
    return s;
}
inline Start restored_start(const Seqs &dict, const IntSeq &freqs, double min_prob, int size) {
    Start s;
    s.kind = Start::Restored;
    s.size = size;
    s.dict = dict;
    s.freqs = freqs;
    s.min_prob = min_prob;
    return s;
}

struct Lock {
    Run &R;
    std::unique_ptr<IntVGramBuilderImpl> b;
    Model m;
    size_t step = 0;
    bool gave_up = false;
    int growths = 0, prunings = 0;
    std::string why;
    Obs last;

    Lock(Run &run, const Start &s) : R(run), b(s.real()), m(s.model()) {
        last = observe(*b);
        if (!m.filter(last, &why)) fail("at the start: " + why + ", got " + str(last));
        R.state(m.hash());
    }

    // false: no state of the model explains what was observed
    bool accept_ok(const IntSeq &seq, Obs *got = nullptr) {
        if (gave_up) return true;
        step++;
        b->accept(seq);
        Obs o = observe(*b);
        std::set<IntSeq> published(o.alphabet.begin(), o.alphabet.end());
        m.hint = &published;
        std::map<IntSeq, int> uses;
        if (!replaced(last, o, seq)) {
            uses = uses_between(last, o);
            m.uses = &uses;
        }
        m.accept(seq);
        m.hint = nullptr;
        m.uses = nullptr;
        last = o;
        R.transition();
        if (m.capped) {
            R.capped();
            gave_up = true;
            return true;
        }
        growths += m.any(1);
        prunings += m.any(2);
        R.log([&] { return "accept " + str(seq) + " -> " + str(o) + (m.any(1) ? " GROWN" : "") + (m.any(2) ? " PRUNED" : "") +
                    " (" + std::to_string(m.states.size()) + " model states)"; });
        if (got) *got = o;
        if (!m.filter(o, &why)) return false;
        R.state(m.hash());
        return true;
    }

    void accept(const IntSeq &seq) {
        Obs o;
        if (!accept_ok(seq, &o))
            fail("after sequence " + std::to_string(step) + ": " + why + "; got " + str(o));
    }
};

}

#endif
