// C09: the builder follows the learning procedure.  Lock step of the real builder and the non-deterministic reference
// model over all histories up to a depth and all periodic histories over many rebuild cycles.
#include "lockstep.h"

using namespace vt;

static void histories(Run &R, const Start &s, const Seqs &menu, int depth) {
    std::vector<size_t> h(depth, 0);
    while (true) {
        R.kase([&] {
            std::string t;
            for (size_t i : h) t += str(menu[i]);
            return s.text() + " accepts " + t;
        }, [&] {
            Lock l(R, s);
            for (size_t i : h) l.accept(menu[i]);
            R.trace();
        });
        int i = depth - 1;
        while (i >= 0 && h[i] + 1 == menu.size()) h[i--] = 0;
        if (i < 0) break;
        h[i]++;
    }
}

static void periodic(Run &R, const Start &s, const Seqs &menu, int period, int steps, int min_cycles = 0) {
    std::vector<size_t> h(period, 0);
    while (true) {
        R.kase([&] {
            std::string t;
            for (size_t i : h) t += str(menu[i]);
            return s.text() + " accepts " + std::to_string(steps) + " sequences, repeating " + t;
        }, [&] {
            Lock l(R, s);
            for (int i = 0; i < steps && !l.gave_up; i++) {
                l.accept(menu[h[i % period]]);
                if (i % 64 == 0) R.alive();
            }
            R.trace();
            R.log([&] { return "growths " + str(l.growths) + " prunings " + str(l.prunings); });
        });
        int i = period - 1;
        while (i >= 0 && h[i] + 1 == menu.size()) h[i--] = 0;
        if (i < 0) break;
        h[i]++;
    }
}

// text of a quadratic rule: pairs of many different frequencies over up to `symbols` symbols
static IntSeq rule(int a, int b, int mod, int symbols, int from, int len) {
    IntSeq r;
    for (int i = from; i < from + len; i++) {
        int64_t x = (int64_t(a) * i * i + int64_t(b) * i) % mod;
        r.push_back(int(x * x * symbols / (int64_t(mod) * mod)));
    }
    return r;
}

static void rules(Run &R, const Start &s, int a, int b, int mod, int symbols, int chunk, int steps) {
    R.kase([&] {
        return s.text() + " accepts " + std::to_string(steps) + " sequences of length " + std::to_string(chunk) +
               " of the quadratic text " + std::to_string(a) + " " + std::to_string(b) + " mod " + std::to_string(mod) +
               " over " + std::to_string(symbols) + " symbols";
    }, [&] {
        Lock l(R, s);
        for (int i = 0; i < steps && !l.gave_up; i++) {
            l.accept(rule(a, b, mod, symbols, i * chunk, chunk));
            R.alive();
        }
        R.trace();
        R.log([&] { return "growths " + str(l.growths) + " prunings " + str(l.prunings); });
    });
}

// the fixed maximum of counted symbols
static void maximum(Run &R, int chunk) {
    R.kase([&] {
        return "rebuild as soon as more than 20000000 symbols are counted, sequences of " + std::to_string(chunk);
    }, [&] {
        Start s = restored_start({{0}, {1}}, {0, 0}, 1e-9, 4);
        auto b = s.real();
        IntSeq seq;
        for (int i = 0; i < chunk; i++) seq.push_back(i % 2);
        int64_t counted = 0;
        int k = 0;
        while (counted <= 20000000) {
            b->accept(seq);
            counted += chunk;
            if (++k % 4096 == 0 || counted + chunk > 20000000) {
                IntSeq f;
                b->result_freqs(&f);
                CHECK_THAT(std::accumulate(f.begin(), f.end(), int64_t(0)) == counted,
                           "after " + std::to_string(counted) + " symbols the frequencies are " + str(f));
                R.alive();
                R.transition();
            }
        }
        IntSeq f, g;
        b->result_freqs(&f);
        for (int i = 0; i < 3; i++) b->accept(seq);
        b->result_freqs(&g);
        CHECK_THAT(f == g, "no rebuild after " + std::to_string(counted) + " symbols: frequencies go on from " + str(f) +
                           " to " + str(g));
        R.trace();
    });
}

static void explore(Run &R) {
    const Seqs menu{{0, 1}, {1, 0, 0}, {0, 0, 1, 1}, {2, 0, 1, 2}};
    const Seqs singles{{0}, {1}}, longer{{0}, {0, 1}, {0, 1, 0}, {1}, {1, 1}};
    maximum(R, 16);
    if (R.thorough) maximum(R, 7);

    // single sequences far longer than a rebuild needs, dictionaries of thousands of symbols
    for (int len : {33000, R.thorough ? 140000 : 101000})
        R.kase([&] { return "sequences of " + str(len) + " symbols"; }, [&] {
            Lock l(R, restored_start(singles, {3, 2}, 0.5, 6));
            for (int i = 0; i < (len < 50000 ? 4 : 1); i++) {
                IntSeq seq;
                for (int k = 0; k < len; k++) seq.push_back(k % 4 == 2 ? 1 : 0);
                l.accept(seq);
                R.alive();
                l.accept({0, 1, 0});
            }
            R.log([&] { return "growths " + str(l.growths) + " prunings " + str(l.prunings); });
            R.trace();
        });
    for (int symbols : {1000, 6000, R.thorough ? 140000 : 70000})
        for (int size : {0, symbols + 3})
            R.kase([&] { return "alphabet of " + str(symbols) + " symbols, size " + str(size); }, [&] {
                Seqs d;
                for (int i = 0; i < symbols; i++) d.push_back({i});
                Lock l(R, restored_start(d, IntSeq(symbols, 1), 0.9, size));
                for (int i = 0; i < 8 && !l.gave_up; i++) {
                    IntSeq seq;
                    for (int k = 0; k < 40; k++)
                        seq.push_back(i % 8 < 4 ? symbols - 1 - k % 2 : (k * 7 + i) % 4 * ((symbols - 2) / 3) + k / 20);
                    l.accept(seq);
                    R.alive();
                }
                R.trace();
                R.log([&] { return "growths " + str(l.growths) + " prunings " + str(l.prunings); });
            });

    // all histories
    int depth = R.thorough ? 9 : 7;
    for (int size : {0, 2, 3, 4, 6})
        for (double mp : {0.9, 0.5})
            histories(R, restored_start(singles, {3, 2}, mp, size), menu, depth);
    for (int size : {0, 4, 5, 8})
        for (const IntSeq &f : {IntSeq{1, 9, 4, 0, 2}, IntSeq{0, 0, 0, 0, 0}, IntSeq{7}})
            histories(R, restored_start(longer, f, 0.3, size), menu, depth - 1);
    // symbols of longer entries are no entries themselves
    const std::vector<Seqs> bare{{{0, 1}}, {{0}, {0, 1, 2}}, {{0, 1}, {1, 0}}, {{3}, {0, 1}, {0, 1, 5}}};
    for (int size : {0, 2, 4, 6})
        for (const Seqs &d : bare)
            histories(R, restored_start(d, IntSeq(d.size(), 1), 0.4, size), menu, depth - 2);

    // periodic histories, many cycles
    const Seqs words{{0, 1, 0, 1, 0, 1}, {0, 0, 1, 0, 0, 1, 1}, {2, 0, 1, 2, 0, 1}, {1}, {0, 1, 2, 3, 0, 1, 2, 3}, {}};
    for (int size : {0, 3, 5, 8, 20})
        for (int period = 1; period <= (R.thorough ? 4 : 3); period++) {
            periodic(R, restored_start(singles, {3, 2}, 0.5, size), words, period, R.thorough ? 600 : 200);
            if (period < 4) periodic(R, restored_start(longer, {1, 9, 4, 0, 2}, 0.4, size), words, period, 200);
            if (period < 3)
                for (const Seqs &d : bare) periodic(R, restored_start(d, IntSeq(d.size(), 2), 0.4, size), words, period, 200);
        }

    // very many rebuilds without a better rate
    for (int size : {0, 3, 5})
        for (int period = 1; period <= 2; period++)
            periodic(R, restored_start(singles, {3, 2}, 0.9, size), words, period, R.thorough ? 12000 : 4000);

    // larger alphabets, longer texts
    for (int a : {1, 3, 7})
        for (int b : {0, 1, 5})
            for (int mod : {97, 211, 1009})
                for (int symbols : {3, 7, 8, 12, 30})
                    for (int size : {0, symbols, symbols + 5, 60}) {
                        rules(R, restored_start({}, {}, 0.05, size), a, b, mod, symbols, 13, R.thorough ? 600 : 120);
                        if (b) rules(R, empty_start(size), a, b, mod, symbols, 150, R.thorough ? 200 : 60);
                    }
    // constructors with an alphabet, first cycles at the default minimal probability
    for (int size : {0, 2, 5, 30})
        for (const Start &s : {symbol_start({5, 0, -3}, size), symbol_start({}, size), dict_start(longer, size),
                               dict_start({{0}, {2}}, size), dict_start({{0, 1}}, size), dict_start({{1}, {0, 1, 2}}, size), dict_start({{0}, {1}, {2}, {0, 1, 2, 0}, {3}}, size)})
            for (int p = 1; p <= (R.thorough ? 3 : 2); p++) {
                Seqs big;
                for (const IntSeq &w : words) {
                    IntSeq t;
                    while (t.size() < 240 && !w.empty()) t.insert(t.end(), w.begin(), w.end());
                    big.push_back(t);
                }
                periodic(R, s, big, p, R.thorough ? 200 : 80);
            }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
