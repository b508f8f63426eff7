// C10: soundness and capacity of the published dictionary, observed after every accepted sequence of all histories up to
// a depth, of periodic histories over many rebuilds and of histories in which new symbols keep coming.
#include "rebuild.h"

using namespace vt;

struct Watch {
    Run &R;
    Start s;
    std::unique_ptr<IntVGramBuilderImpl> b;
    Obs last;
    std::set<int> seen, required, asked;   // accepted symbols; those that have to be in the dictionary
    std::set<IntSeq> allowed;           // longer entries that may be there: initial ones, then those found in the history
    std::vector<IntSeq> history;
    std::set<IntSeq> distinct;
    int rebuilds = 0;
    bool queried = false;               // the published dictionary is searched before every sequence

    Watch(Run &run, const Start &start) : R(run), s(start), b(start.real()) {
        for (const IntSeq &e : s.dict)
            if (e.size() == 1) required.insert(e[0]); else allowed.insert(e);
        for (const IntSeq &e : s.dict) seen.insert(e.begin(), e.end());
        last = observe(*b);
        check("at the start");
    }

    bool occurs(const IntSeq &e) {
        if (allowed.count(e)) return true;
        for (const IntSeq &h : history)
            if (std::search(h.begin(), h.end(), e.begin(), e.end()) != h.end()) {
                allowed.insert(e);
                return true;
            }
        return false;
    }

    void check(const std::string &when) {
        std::set<IntSeq> have;
        for (const IntSeq &e : last.alphabet) {
            CHECK_THAT(!e.empty(), when + " the dictionary has an empty entry");
            CHECK_THAT(have.insert(e).second, when + " the dictionary has " + str(e) + " twice");
            if (e.size() > 1)
                CHECK_THAT(occurs(e), when + " the dictionary has " + str(e) + ", which occurs in no accepted sequence");
        }
        for (int x : required)
            CHECK_THAT(have.count({x}), when + " symbol " + str(x) + " is not in the dictionary " + str(last.alphabet));
        CHECK_THAT(last.freqs.size() == last.alphabet.size(), when + " there are " + str(last.freqs.size()) +
                   " frequencies for " + str(last.alphabet.size()) + " entries");
        for (int f : last.freqs) CHECK_THAT(f >= 0, when + " there is a negative frequency");
    }

    void accept(const IntSeq &seq) {
        if (queried)
            for (int x : {int(history.size()) % 5, 7}) {
                IntSeq q{x, 1};
                q.insert(q.end(), seq.begin(), seq.end());
                int id = b->result()->search(q);
                asked.insert(x);
                CHECK_THAT(id >= 0 && id < b->result()->size(), "search of " + str(q) + " gives " + str(id));
                last = observe(*b);
            }
        b->accept(seq);
        Obs o = observe(*b);
        R.transition();
        R.log([&] { return "accept " + str(seq) + " -> " + str(o); });
        seen.insert(seq.begin(), seq.end());
        if (distinct.insert(seq).second) history.push_back(seq);
        bool rebuilt = total_of(o) < total_of(last) || !near(o.min_prob, last.min_prob, 1e-14);
        {
            std::set<IntSeq> a(last.alphabet.begin(), last.alphabet.end()), z(o.alphabet.begin(), o.alphabet.end());
            for (const IntSeq &e : a) rebuilt |= !z.count(e);
            for (const IntSeq &e : z) rebuilt |= e.size() > 1 && !a.count(e);
        }
        last = o;
        std::string when = "after sequence " + str(int(history.size())) + " " + str(seq);
        if (rebuilt) {
            rebuilds++;
            required = seen;
            // without a published dictionary the first rebuild that is seen is a growth
            if (s.kind == Start::Restored || rebuilds > 1)
                {
                    std::set<int> all = seen;
                    all.insert(asked.begin(), asked.end());
                    CHECK_THAT(o.alphabet.size() <= std::max<size_t>(size_t(std::max(0, s.size)), all.size()),
                               when + " a pruned dictionary has " + str(o.alphabet.size()) + " entries, size is " +
                               str(s.size) + " and there were " + str(all.size()) + " symbols: " + str(o.alphabet));
                }
            R.state(hash_seqs(o.alphabet));
        }
        check(when);
    }
};

static void histories(Run &R, const Start &s, const Seqs &menu, int depth, bool queried = false) {
    std::vector<size_t> h(depth, 0);
    while (true) {
        R.kase([&] {
            std::string t;
            for (size_t i : h) t += str(menu[i]);
            return s.text() + " accepts " + t + (queried ? ", searching its dictionary in between" : "");
        }, [&] {
            Watch w(R, s);
            w.queried = queried;
            for (size_t i : h) w.accept(menu[i]);
            R.trace();
        });
        int i = depth - 1;
        while (i >= 0 && h[i] + 1 == menu.size()) h[i--] = 0;
        if (i < 0) break;
        h[i]++;
    }
}

static void steps(Run &R, const Start &s, const Text &t, int n) {
    R.kase([&] { return s.text() + " accepts " + std::to_string(n) + " sequences, " + t.name; }, [&] {
        Watch w(R, s);
        for (int i = 0; i < n; i++) {
            w.accept(t.at(i));
            if (i % 16 == 0) R.alive();
        }
        R.trace();
        R.log([&] { return "rebuilds " + str(w.rebuilds); });
    });
}

static void explore(Run &R) {
    const int far = std::numeric_limits<int>::max(), low = std::numeric_limits<int>::min();
    const Seqs singles{{0}, {1}}, longer{{0}, {0, 1}, {0, 1, 0}, {1}, {1, 1}};
    const Seqs menu{{0, 1}, {1, 0, 0}, {0, 0, 1, 1}, {far, 0, low, far}, {0, 1, 0, 1, 0, 1}};
    for (int size : {0, 1, 3, 4, 6})
        for (double mp : {0.9, 0.4}) {
            histories(R, restored_start(singles, {3, 2}, mp, size), menu, R.thorough ? 8 : 6);
            histories(R, restored_start({}, {}, mp, size), menu, R.thorough ? 8 : 6);
        }
    for (int size : {0, 4, 8})
        for (const IntSeq &f : {IntSeq{1, 9, 4, 0, 2}, IntSeq{}})
            histories(R, restored_start(longer, f, 0.3, size), menu, R.thorough ? 8 : 6);
    // starts in which symbols of longer entries are no entries themselves
    const std::vector<Seqs> bare{{{0, 1}}, {{0}, {0, 1, 2}}, {{0, 1}, {1, 0}}, {{3}, {0, 1}, {0, 1, far}}};
    for (int size : {0, 2, 4, 6})
        for (const Seqs &d : bare)
            histories(R, restored_start(d, IntSeq(d.size(), 1), 0.4, size), menu, R.thorough ? 7 : 5);

    for (int size : {0, 4, 6})
        for (const Start &s : {restored_start(singles, {3, 2}, 0.4, size), restored_start(longer, {1, 9, 4, 0, 2}, 0.3, size),
                               restored_start({}, {}, 0.4, size), empty_start(size), dict_start({{0}, {0, 1, 2}}, size)})
            histories(R, s, menu, R.thorough ? 6 : 4, true);

    const Seqs words{{0, 1, 0, 1, 0, 1}, {0, 0, 1, 0, 0, 1, 1}, {2, 0, 1, 2, 0, 1}, {low}, {0, 1, 2, far, 0, 1, 2, far}, {}};
    auto pick = all_seqs({0, 1, 2, 3, 4, 5}, 1, R.thorough ? 4 : 3);
    for (int size : {0, 3, 5, 8, 20})
        for (const IntSeq &p : pick) {
            std::string n = "repeating";
            for (int i : p) n += " " + str(words[i]);
            Text t{n, [&, p](int i) { return words[p[i % p.size()]]; }};
            steps(R, restored_start(singles, {3, 2}, 0.5, size), t, R.thorough ? 1000 : 200);
            steps(R, restored_start(longer, {1, 9, 4, 0, 2}, 0.4, size), t, 200);
            for (const Seqs &d : bare)
                if (p.size() < 3) steps(R, restored_start(d, IntSeq(d.size(), 2), 0.3, size), t, 300);
            if (p.size() > 2) continue;
            Text big{n + " in pieces of 240", [&, p](int i) { return repeat(words[p[i % p.size()]], 240); }};
            for (const Start &s : {empty_start(size), symbol_start({5, 0, -3}, size), dict_start(longer, size)})
                steps(R, s, big, 100);
            if (p.size() > 1) continue;
            for (const Seqs &d : bare) steps(R, dict_start(d, size), big, 100);
        }
    for (int a : {1, 3, 7, 11})
        for (int b : {0, 1, 5})
            for (int mod : {97, 211, 1009})
                for (int symbols : {3, 7, 8, 12, 30, 100})
                    for (int size : {0, symbols, symbols + 5, 60, 300}) {
                        Text t{"pieces of the quadratic text " + std::to_string(a) + " " + std::to_string(b) + " mod " +
                               std::to_string(mod) + " over " + std::to_string(symbols) + " symbols",
                               [=](int i) { return quadratic(a, b, mod, symbols, i * 31, 31); }};
                        steps(R, restored_start({}, {}, 0.05, size), t, R.thorough ? 1000 : 150);
                        if (b == 5) steps(R, empty_start(size), t, 400);
                    }
    // new symbols keep coming
    for (int size : {0, 2, 10, 50})
        for (int every : {1, 3, 10})
            for (int len : {2, 7}) {
                Text t{"with a new symbol in every " + std::to_string(every) + " sequences of length " + std::to_string(len),
                       [=](int i) {
                           IntSeq r = repeat({0, 1, 0}, len);
                           if (i % every == 0) r[len / 2] = i + 2;
                           return r;
                       }};
                steps(R, restored_start({}, {}, 0.1, size), t, 400);
                steps(R, empty_start(size), t, 1500);
            }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
