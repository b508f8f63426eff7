// C04: a dictionary is the sorted set of its sequences, parents are the longest proper prefixes, copies are independent.
#include "ref.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"

using namespace vt;

template<typename D>
static void check_content(Run &R, const D &dict, const Seqs &want, const char *what) {
    R.transition();
    CHECK_THAT(dict.size() == int(want.size()), std::string(what) + " has size " + str(dict.size()) + ", expected " +
                                                str(want.size()));
    CHECK_THAT(dict.alphabet() == want, std::string(what) + " lists " + str(dict.alphabet()) + ", expected " + str(want));
    for (int i = 0; i < int(want.size()); i++) {
        CHECK_THAT(dict.get(i) == want[i], std::string(what) + ": entry " + str(i) + " is " + str(dict.get(i)) +
                                           ", expected " + str(want[i]));
        int p = ref_parent(want, i);
        CHECK_THAT(dict.parent(i) == p, std::string(what) + ": parent of " + str(want[i]) + " is " + str(dict.parent(i)) +
                                        ", expected " + str(p) + " in " + str(want));
    }
}

static void check_build(Run &R, const Seqs &given, const Seqs &want) {
    R.log([&] { return "build from " + str(given); });
    Seqs keep = given;
    IntDictImpl d(given);
    check_content(R, d, want, "dictionary");
    StatDictImpl s(given);
    check_content(R, s, want, "statistics dictionary");
    IntSeq init(given.size(), 1);
    StatDictImpl s2(given, 0.01, &init);
    check_content(R, s2, want, "statistics dictionary with frequencies");
    CHECK_THAT(keep == given, "building a dictionary changed the given list");
    R.state(hash_seqs(given));
}

static void check_copies(Run &R, const Seqs &given, const Seqs &want) {
    IntDictImpl d(given);
    int fresh = 12345, fresh2 = -54321;
    {
        IntDictImpl c(d);
        check_content(R, c, want, "copy");
        c.search({fresh}, nullptr);
        check_content(R, d, want, "original after a registration in the copy");
        Seqs plus = want;
        plus.push_back({fresh});
        CHECK_THAT(c.alphabet() == plus, "copy after registration lists " + str(c.alphabet()));
        d.search({fresh2}, nullptr);
        CHECK_THAT(c.alphabet() == plus, "registration in the original is seen in the copy");
        IntDictImpl c2(c);      // a copy with registered symbols
        CHECK_THAT(c2.alphabet() == plus, "copy of a dictionary with registered symbols lists " + str(c2.alphabet()));
        CHECK_THAT(c2.search({fresh}, nullptr) == int(want.size()) && c2.size() == int(plus.size()),
                   "a registered symbol is not found in the copy");
        std::unordered_set<int> none;
        CHECK_THAT(d.search({fresh}, &none) == -1, "a symbol registered in the copy is found in the original");
        for (int i = 0; i < int(plus.size()); i++)
            CHECK_THAT(c2.parent(i) == c.parent(i), "parents differ in the copy");
        IntDictImpl c3;
        c3 = c2;
        CHECK_THAT(c3.alphabet() == plus, "assigned dictionary lists " + str(c3.alphabet()));
        c3.search({fresh2 + 1}, nullptr);
        CHECK_THAT(c2.alphabet() == plus, "registration in an assigned dictionary is seen in the source");
    }
    // the copies are gone
    Seqs plus = want;
    plus.push_back({fresh2});
    CHECK_THAT(d.alphabet() == plus, "original lists " + str(d.alphabet()));
}

static void explore(Run &R) {
    Seqs S = all_seqs({0, 1}, 1, 3);
    for (uint64_t m = 0; m < 1ull << S.size(); m++)
        R.kase([&] { return "entries " + str(subset(S, m)) + " in several orders"; }, [&] {
            Seqs d = subset(S, m), want = sorted(d);
            if (d.size() <= (R.thorough ? 5 : 4)) {
                Seqs p = want;
                do check_build(R, p, want); while (std::next_permutation(p.begin(), p.end()));
            } else {
                check_build(R, want, want);
                Seqs r = want;
                std::reverse(r.begin(), r.end());
                check_build(R, r, want);
                for (size_t k = 1; k < d.size(); k += R.thorough ? 1 : 3) {
                    Seqs t = d;     // shortest first, rotated
                    std::rotate(t.begin(), t.begin() + k, t.end());
                    check_build(R, t, want);
                    std::swap(t[0], t[t.size() / 2]);
                    check_build(R, t, want);
                }
            }
            check_copies(R, d, want);
            R.trace();
        });
    Seqs T = all_seqs({0, 1, 2}, 1, 4);
    auto subs = small_subsets(int(T.size()), 2);
    auto subs3 = small_subsets(39, 3);
    auto subs4 = small_subsets(39, R.thorough ? 4 : 0);
    subs.insert(subs.end(), subs3.begin(), subs3.end());
    subs.insert(subs.end(), subs4.begin(), subs4.end());
    int k = 0;
    for (const auto &ids : subs)
        for (size_t n = 0; n < 4; n++) {
            if (ids.size() >= 3 && n != size_t(k++ % 4)) continue;
            if (!R.thorough && ids.size() >= 3 && (ids[0] + ids[1] + ids[2]) % 3) continue;
            Seqs d;
            for (int i : ids) d.push_back(rename_symbols(T[i], namings()[n]));
            R.kase([&] { return "entries " + str(d) + " in all orders"; }, [&] {
                Seqs want = sorted(d), p = want;
                do check_build(R, p, want); while (std::next_permutation(p.begin(), p.end()));
                check_copies(R, d, want);
                R.trace();
            });
        }
    // lists of symbols
    IntSeq vals{kMin, -7, -1, 0, 1, 255, 256, kMax};
    for (int m = 0; m < 256; m++)
        R.kase([&] { return "symbol list with mask " + str(m); }, [&] {
            IntSeq v;
            for (int i = 0; i < 8; i++) if (m >> i & 1) v.push_back(vals[i]);
            for (int rot = 0; rot < 3; rot++) {
                Seqs want;
                for (int c : v) want.push_back({c});
                want = sorted(want);
                IntSeq given = v;
                IntDictImpl d(given);
                check_content(R, d, want, "dictionary of symbols");
                CHECK_THAT(given == v, "building changed the list");
                if (rot == 0) std::reverse(v.begin(), v.end());
                else if (v.size() > 1) std::rotate(v.begin(), v.begin() + 1, v.end());
            }
            R.trace();
        });
    // large: every prefix of long sequences, many siblings
    for (int mode = 0; mode < 5; mode++)
        for (int n : {20, 300, 700})
            R.kase([&] { return "large dictionary, mode " + str(mode) + " size " + str(n); }, [&] {
                Seqs d;
                for (int i = 0; i < n; i++) {
                    IntSeq s;
                    if (mode == 0) s = IntSeq(i % 60 + 1, i / 60);
                    else if (mode == 1) { for (int x = i + 1; x; x /= 2) s.push_back(x % 2); }
                    else if (mode == 2) s = {i * 13 % n - 100, i % 7};
                    else if (mode == 3) { s = IntSeq(1 + i % 3, 5); s.push_back(i * 37 % n); }
                    else { s = IntSeq(i / 2 % 150 + 1, 1); s.back() += i % 2 * (i / 300 + 1); }   // a chain with siblings at every depth
                    d.push_back(s);
                }
                Seqs want = sorted(d);
                want.erase(std::unique(want.begin(), want.end()), want.end());
                Seqs given = want;
                for (size_t i = 0; i < given.size(); i++) std::swap(given[i], given[i * 7919 % given.size()]);
                check_build(R, given, want);
                check_copies(R, given, want);
                R.trace();
            });
    R.kase([] { return std::string("empty dictionaries"); }, [&] {
        IntDictImpl d;
        check_content(R, d, {}, "empty dictionary");
        IntDictImpl e{Seqs()};
        check_content(R, e, {}, "dictionary of an empty list");
        IntDictImpl f{IntSeq()};
        check_content(R, f, {}, "dictionary of no symbols");
        StatDictImpl s;
        check_content(R, s, {}, "empty statistics dictionary");
        IntDictImpl c(d);
        c.search({3}, nullptr);
        check_content(R, d, {}, "empty dictionary after registration in its copy");
        R.trace();
    });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
