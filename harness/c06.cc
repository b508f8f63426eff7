// C06: frequencies, code length and sufficiency of a statistics dictionary after every history of parses and updates.
#include "ref.h"
#include "stat_dict_p.h"

using namespace vt;

struct Op {
    int id, add;        // explicit update when add > 0
    IntSeq q;           // else a parse
};

static std::string show(const Op &o) {
    return o.add > 0 ? "add(" + str(o.id) + "," + str(o.add) + ")" : "parse" + str(o.q);
}

static void check_stats(Run &R, const StatDictImpl &s, const std::vector<double> &f, double chars, double min_prob,
                        const std::string &h) {
    R.transition();
    double n = 0, sum = 0;
    for (int i = 0; i < s.size() + 3; i++) {
        double want = i < int(f.size()) ? f[i] : 0;
        CHECK_THAT(s.freq(i) == want, "frequency of entry " + str(i) + " is " + str(s.freq(i)) + ", expected " + str(want) +
                                      " after " + h);
        n += want;
        if (want > 0) sum += want * std::log(want);
    }
    double cl = s.code_length_per_char();
    if (n > 0 && chars > 0) {
        double want = (n * std::log(n) - sum) / chars;
        CHECK_THAT(near(cl, want), "code length is " + str(cl) + ", expected " + str(want) + " after " + h);
    }
    for (double p : {0.9, 0.5, 0.1, 0.01, 1e-6, 1.0}) {
        double need = -std::log(p) / min_prob;
        if (std::fabs(n - need) < 1e-6 * std::max(1.0, need) && p != 1.0) continue;
        bool want = p == 1.0 ? n > 0 : n > need;
        CHECK_THAT(s.enough(p) == want, "enough(" + str(p) + ") is " + str(int(s.enough(p))) + " with " + str(n) +
                                        " symbols counted, " + str(need) + " needed, after " + h);
    }
}

static void run(Run &R, const Seqs &given, const IntSeq *init, double min_prob, const std::vector<Op> &ops, bool dflt = false,
                bool one_output = false) {
    IntSeq copy;
    if (init) copy = *init;
    StatDictImpl s = dflt ? StatDictImpl(min_prob) : StatDictImpl(given, min_prob, init ? &copy : nullptr);
    if (init) CHECK_THAT(copy == *init, "the given frequencies were changed");
    std::vector<double> f;
    double chars = 0;
    std::string h = str(given) + (init ? " init " + str(*init) : "") + " min " + str(min_prob);
    if (one_output) h += " (all parses into one output)";
    check_stats(R, s, f, chars, min_prob, h);
    IntSeq out;
    for (const Op &o : ops) {
        if (o.add > 0 && o.id >= s.size()) continue;    // not an entry
        h += " " + show(o);
        R.log([&] { return show(o); });
        if (o.add > 0) {
            s.update_symbol(o.id, o.add);
            if (int(f.size()) <= o.id) f.resize(o.id + 1, 0);
            f[o.id] += o.add;
        } else {
            if (!one_output) out.clear();
            const IntSeq before = out;
            s.parse(o.q, &out);
            CHECK_THAT(is_prefix(before, out), "the output loses what it held after " + h);
            chars += double(o.q.size());
            for (size_t i = before.size(); i < out.size(); i++) {
                int id = out[i];
                CHECK_THAT(id >= 0 && id < s.size(), "id " + str(id) + " does not exist after " + h);
                if (int(f.size()) <= id) f.resize(id + 1, 0);
                f[id]++;
            }
        }
        check_stats(R, s, f, chars, min_prob, h);
        uint64_t st = hash_seqs(s.alphabet());
        for (double x : f) st = mix(st, uint64_t(x));
        R.state(mix(st, uint64_t(chars)));
    }
    R.trace();
}

static void explore(Run &R) {
    std::vector<Seqs> dicts{{}, {{0}}, {{0}, {1}}, {{1}, {0}, {1, 0}}, {{1, 0}, {0, 1}, {0}, {1}}, {{0, 0, 0}, {0}, {0, 0}},
                            {{2}, {1}, {1, 2}, {1, 2, 1}}, {{-5}, {kMax}, {kMin, kMax}}, {{0, 1}}};
    std::vector<Op> menu;
    for (const IntSeq &q : all_seqs({0, 1}, 0, 2)) menu.push_back({0, 0, q});
    for (const IntSeq &q : Seqs{{0, 0, 0, 0}, {1, 2, 1, 2}, {2, 0}, {7, 7}, {kMin, kMax, -5}, {1, 0, 1, 0, 1}})
        menu.push_back({0, 0, q});
    for (int id : {0, 1, 3}) for (int add : {1, 5}) menu.push_back({id, add, {}});
    menu.push_back({2, 100000, {}});
    int depth = R.thorough ? 4 : 3;
    for (const Seqs &d : dicts)
        for (int im = 0; im < 4; im++)
            for (double mp : {0.002, 0.3, 1.0}) {
                if (!R.thorough && mp == 1.0 && im > 1) continue;
                for (size_t first = 0; first < menu.size(); first++)
                    R.kase([&] { return "dictionary " + str(d) + " initial frequencies variant " + str(im) + " minimal probability " +
                                        str(mp) + ", all histories of length " + str(depth) + " that begin with " + show(menu[first]); },
                           [&] {
                               IntSeq init;
                               for (size_t i = 0; i < d.size(); i++) init.push_back(im == 1 ? 0 : im == 2 ? int(i) + 1 : 40);
                               if (im == 3 && init.size() > 1) init.pop_back();
                               std::vector<Op> ops{menu[first]};
                               std::function<void()> rec = [&]() {
                                   R.alive();
                                   if (int(ops.size()) == depth) {
                                       run(R, d, im ? &init : nullptr, mp, ops);
                                       run(R, d, im ? &init : nullptr, mp, ops, false, true);
                                       return;
                                   }
                                   for (const Op &o : menu) {
                                       ops.push_back(o);
                                       rec();
                                       ops.pop_back();
                                   }
                               };
                               rec();
                           });
            }
    // created without sequences; long histories; many entries
    for (int len : {1, 10, 300})
        for (int syms : {1, 3, 40, 400})
            R.kase([&] { return "long history: " + str(len) + " parses over " + str(syms) + " symbols"; }, [&] {
                for (int kind = 0; kind < 3; kind++) {
                    std::vector<Op> ops;
                    for (int i = 0; i < len; i++) {
                        IntSeq q;
                        for (int k = 0; k < 1 + i % 7; k++) q.push_back((i * 31 + k * k) % syms * (kind == 1 ? -1 : 1));
                        ops.push_back({0, 0, q});
                        if (i % 5 == 4 && kind == 2) ops.push_back({i % 3, i, {}});
                    }
                    Seqs d;
                    if (kind == 2) for (int i = 0; i + 1 < syms; i++) { d.push_back({i}); d.push_back({i, i + 1}); }
                    run(R, d, nullptr, 0.01, ops, kind == 1);
                }
            });
    // one very long sequence
    for (int len : {40000, 70000})
        R.kase([&] { return "a sequence of " + str(len); }, [&] {
            IntSeq q;
            for (int i = 0; i < len; i++) q.push_back(i % 3 % 2);
            run(R, {{0}, {1}, {0, 1, 0}}, nullptr, 0.01, {{0, 0, q}, {0, 0, {1, 0}}});
        });
    // frequencies up to the range of int
    R.kase([] { return std::string("large explicit updates"); }, [&] {
        run(R, {{0}, {1}, {0, 1}}, nullptr, 1e-9,
            {{0, 2000000000, {}}, {1, 2147483640, {}}, {0, 0, {0, 1, 0, 1}}, {2, 1000000, {}}, {0, 0, {1, 1}}});
    });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
