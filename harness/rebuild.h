// First growth and first pruning of a builder, both of which can be observed completely when the builder starts
// without a published dictionary.  The moment of the rebuild is taken from the builder (C09 decides whether it is
// right), everything else about it has to be explained by the model.
#ifndef VERIF_REBUILD_H
#define VERIF_REBUILD_H

#include "lockstep.h"

namespace vt {

struct Text {
    std::string name;
    std::function<IntSeq(int)> at;      // the sequence of a step
};

// which: 1 - the growth and the counting after it are checked, 2 - the pruning and the counting after it
inline void rebuild_case(Run &R, const Start &s, const Text &text, int which, size_t max_symbols) {
    R.kase([&] { return s.text() + ", " + text.name; }, [&] {
        auto b = s.real();
        Model m(s.model());
        m.any_time = true;
        Obs before = observe(*b);
        std::string why;
        if (!m.filter(before, &why)) { R.vacuous(); return; }
        R.state(m.hash());
        int rebuilds = 0;
        size_t symbols = 0, after_rebuild = 0;
        const int phase = which;            // number of rebuilds after which mismatches count
        for (int step = 0; symbols < max_symbols; step++) {
            IntSeq seq = text.at(step);
            symbols += seq.size();
            R.alive();
            b->accept(seq);
            Obs o = observe(*b);
            bool now = replaced(before, o, seq);
            // the statistics do not move any more: the next rebuild is hidden
            bool frozen = !now && !seq.empty() && total_of(o) == total_of(before);
            rebuilds += now;
            if (rebuilds > phase || frozen) break;
            std::set<IntSeq> published(o.alphabet.begin(), o.alphabet.end());
            m.hint = &published;
            std::map<IntSeq, int> uses;
            if (!now) {
                uses = uses_between(before, o);
                m.uses = &uses;
            }
            m.accept(seq);
            m.hint = nullptr;
            m.uses = nullptr;
            R.transition();
            if (m.capped) {
                R.log([&] { return "given up after " + str(seq) + " -> " + str(o) + (now ? " REBUILT" : ""); }); R.capped(); return; }
            R.log([&] { return "accept " + str(seq) + " -> " + str(o) + (now ? " REBUILT" : ""); });
            // only states that agree on whether there was a rebuild
            std::vector<MBuilder> kept;
            const bool any = !m.states.empty();
            for (MBuilder &x : m.states) if ((x.event != 0) == now) kept.push_back(std::move(x));
            m.states.swap(kept);
            if (m.states.empty() && any) { R.vacuous(); return; }
            if (!m.filter(o, &why)) {
                if (rebuilds < phase) { R.vacuous(); return; }
                fail("after " + std::to_string(symbols) + " symbols, " + (now ? "when the dictionary was rebuilt from " +
                     str(before) + ": " : "counting with the rebuilt dictionary: ") + why + "; got " + str(o));
            }
            if (rebuilds == phase) {
                m.no_pairs = true;
                for (MBuilder &x : m.states) x.cur.pairs.clear();
                R.state(m.hash());
                if (!now) after_rebuild += seq.size();
                if (now) R.trace();
                if (after_rebuild > 700) break;
            } else if (now) {
                R.state(m.hash());
            }
            before = o;
        }
        if (rebuilds < phase) R.vacuous();
    });
}

inline IntSeq repeat(const IntSeq &w, size_t len) {
    IntSeq r;
    while (!w.empty() && r.size() < len) r.insert(r.end(), w.begin(), w.end());
    return r;
}

// text of a quadratic rule: pairs of many different frequencies over up to `symbols` symbols
inline IntSeq quadratic(int a, int b, int mod, int symbols, int from, int len) {
    IntSeq r;
    for (int i = from; i < from + len; i++) {
        int64_t x = (int64_t(a) * i * i + int64_t(b) * i) % mod;
        r.push_back(int(x * x * symbols / (int64_t(mod) * mod)));
    }
    return r;
}

inline void rebuild_cases(Run &R, int which) {
    const size_t limit = which == 1 ? 6000 : 20000;
    const Seqs longer{{0}, {0, 1}, {0, 1, 0}, {1}, {1, 1}};
    auto words = all_seqs({0, 1, 2}, 1, R.thorough ? 6 : 4);
    // ids that need more than 16 bits
    IntSeq many(70000);
    std::iota(many.begin(), many.end(), -5);
    for (int size : {0, 80000}) {
        Text t{"pairs of the last and the first symbols", [=](int i) {
            return repeat({69994 - i % 3, -5 + i % 2, 69994, 69993}, 100);
        }};
        rebuild_case(R, symbol_start(many, size), t, which, limit);
    }
    // one long sequence, its last pairs as important as its first ones; and very many different pairs
    for (int len : {3000, 9000})
        for (int symbols : {3, 80, 400})
            for (int part : {1, 2, 5})
                for (int size : {0, 300}) {
                    Text t{"sequences of " + std::to_string(len) + " over " + std::to_string(symbols) + " symbols, the last of " +
                           std::to_string(part) + " parts different", [=](int i) {
                        IntSeq r = quadratic(7, 5 + i, 1009, symbols - 1, 0, len);
                        for (int k = len - len / part; k < len; k += 2) r[k] = symbols - 1;
                        return r;
                    }};
                    rebuild_case(R, size ? symbol_start({0, 1, symbols - 1}, size) : empty_start(symbols + 9), t, which, limit);
                }
    // counts beyond 32767 at the pruning
    for (const IntSeq &w : {IntSeq{0, 1}, IntSeq{0, 0, 1}})
        for (int size : {2, 4}) {
            Text t{"repeating " + str(w) + ", at last 70000 symbols at once", [=](int i) { return repeat(w, i < 60 ? 24 : 70000); }};
            rebuild_case(R, empty_start(size), t, which, limit);
        }
    // entries of many symbols
    for (int len : {5, 16, 33, 60})
        for (int kind : {0, 1, 2})
            for (int size : {4, 9}) {
                IntSeq word(len), other(len - 1);
                for (int i = 0; i < len; i++) word[i] = kind == 0 ? i * i % 3 : kind == 1 ? i % 2 : i == len - 1;
                for (int i = 0; i < len - 1; i++) other[i] = kind == 0 ? (i + 1) * i % 3 : kind == 1 ? (i + 1) % 2 : 1;
                Text t{"repeating words of about " + std::to_string(len) + " symbols", [=](int i) {
                    IntSeq r;
                    for (int k = 0; k < 20; k++) {
                        const IntSeq &w = k * (i % 3 + 1) % 4 == 1 ? other : word;
                        r.insert(r.end(), w.begin(), w.end());
                        if ((k + i) % 7 == 0) r.push_back(2);
                    }
                    return r;
                }};
                rebuild_case(R, dict_start({{0}, {1}, {2}, word, other}, size), t, which, limit + 2000 * len);
                rebuild_case(R, dict_start({word, {0}}, size), t, which, limit + 2000 * len);
            }
    // entries that are parts of other entries and not used themselves
    for (int len : {2, 3, 8, 20})
        for (int times : {2, 3})
            for (int mix = 0; mix < 14; mix++)
                for (int size : {3, 4, 5}) {
                    IntSeq part(len), word;
                    for (int i = 0; i < len; i++) part[i] = i % 2 + (mix == 5 && i % 3 == 2);
                    for (int i = 0; i < times; i++) word.insert(word.end(), part.begin(), part.end());
                    Text t{"repeating " + std::to_string(times) + " times " + str(part) + ", mixture " + std::to_string(mix), [=](int i) {
                        IntSeq r;
                        for (int k = 0; k < 20; k++) {
                            r.insert(r.end(), word.begin(), word.end());
                            if (mix == 1 || (mix == 2 && k % 3 == 0) || (mix > 3 && (k * k + i) % 7 < 3)) r.push_back(2);
                            if (mix == 3 && k % 5 == 0) r.insert(r.end(), {2, 2, 1});
                            // an entry that competes for the room
                            if (mix > 5 && (mix < 9 || k % 2)) for (int j = 5; j < mix; j += 2) r.insert(r.end(), {2, 2, 1});
                        }
                        return r;
                    }};
                    rebuild_case(R, dict_start({{0}, {1}, {2}, part, word}, size), t, which, limit + 4000 * len);
                    IntSeq longer = word;
                    longer.push_back(0);
                    rebuild_case(R, dict_start({{0}, {1}, {2}, {2, 2, 1}, part, word, longer}, size), t, which, limit + 4000 * len);
                }
    // one word again and again, in pieces of several lengths
    for (const IntSeq &w : words)
        for (size_t piece : {size_t(1), size_t(20), size_t(400)})
            for (int size : {0, 2, 3, 4, 6, 10}) {
                if (w.size() == 1 && piece == 1) continue;
                Text t{"repeating " + str(w) + " in pieces of about " + str(piece), [=](int i) { return i < 8 ? w : repeat(w, piece); }};
                rebuild_case(R, empty_start(size), t, which, limit);
                rebuild_case(R, dict_start(longer, size), t, which, limit);
            }
    // two words in several proportions
    auto shorter = all_seqs({0, 1}, 1, R.thorough ? 5 : 3);
    for (const IntSeq &v : shorter)
        for (const IntSeq &w : all_seqs({0, 1, 2}, 2, R.thorough ? 4 : 3))
            for (int every : {2, 7, 60})
                for (int size : {2, 4, 7, 30}) {
                    Text t{"repeating " + str(v) + " in pieces of 24, after each " + std::to_string(every) + " a " + str(w),
                           [=](int i) {
                               IntSeq r = repeat(v, i < 8 ? 1 : 24);
                               if (i % every == 0) r.insert(r.end(), w.begin(), w.end());
                               return r;
                           }};
                    rebuild_case(R, every == 7 ? symbol_start({0, 1, 2}, size) : empty_start(size), t, which, limit);
                }
    // alphabets around the size where the number of added entries is computed differently
    for (int symbols : {2, 5, 6, 7, 8, 9, 12, 25})
        for (int a : {1, 3, 7, 11})
            for (int b : {1, 5, 13})
                for (int mod : {97, 211, 1009})
                    for (int size : {0, symbols + 2, 60}) {
                        IntSeq all(symbols);
                        std::iota(all.begin(), all.end(), 0);
                        Text t{"pieces of 50 of the quadratic text " + std::to_string(a) + " " + std::to_string(b) + " mod " +
                               std::to_string(mod) + " over " + std::to_string(symbols) + " symbols",
                               [=](int i) { return quadratic(a, b, mod, symbols, i * 50, 50); }};
                        rebuild_case(R, b == 5 ? symbol_start(all, size) : empty_start(size), t, which, limit);
                    }
    // dictionaries of the user: every small set of longer entries, also without the entries of their symbols
    auto pool = all_seqs({0, 1}, 2, 3);
    for (uint64_t mask = 1; mask < (1ull << pool.size()); mask++) {
        if (!R.thorough && __builtin_popcountll(mask) > 4) continue;
        for (const Seqs &base : {Seqs{{0}, {1}}, Seqs{}, Seqs{{1}}})
        for (int size : {3, 5, 12})
            for (const IntSeq &w : {IntSeq{0, 1, 1, 0, 0, 1, 0, 1, 1, 1, 0, 0, 0}, IntSeq{0, 0, 1, 0, 0, 0, 1, 1, 0, 1, 0}}) {
                Text t{"repeating " + str(w), [=](int i) { return i < 8 ? repeat({0, 1, 1, i % 2}, 1) : repeat(w, 40 + i % 7); }};
                if (base.size() < 2 && __builtin_popcountll(mask) > (R.thorough ? 4 : 2)) continue;
                Seqs d = base;
                for (size_t i = 0; i < pool.size(); i++) if (mask >> i & 1) d.push_back(pool[i]);
                rebuild_case(R, dict_start(d, size), t, which, limit);
            }
    }
}

}

#endif
