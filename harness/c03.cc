// C03: search returns the longest allowed prefix entry and changes nothing except registering an unknown symbol.
#include "ref.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"

using namespace vt;

static std::string show(const std::unordered_set<int> *ex) {
    if (!ex) return "none";
    IntSeq v(ex->begin(), ex->end());
    std::sort(v.begin(), v.end());
    return str(v);
}

template<typename D>
static void check_excl(Run &R, D &dict, const Seqs &content, const IntSeq &q, std::unordered_set<int> &ex) {
    R.transition();
    std::unordered_set<int> given = ex;
    int got = dict.search(q, &ex);
    int want = ref_longest(content, q, 0, &given);
    CHECK_THAT(got == want, "search of " + str(q) + " excluding " + show(&given) + " gives " + str(got) + ", expected " +
                            str(want) + " in " + str(content));
    CHECK_THAT(ex == given, "search changed the exclusion set");
    CHECK_THAT(dict.size() == int(content.size()), "search with exclusions changed the dictionary, query " + str(q));
}

template<typename D>
static void check_all(Run &R, D &dict, const Seqs &queries, const std::function<int(D &, const IntSeq &)> &plain,
                      bool many_excl) {
    Seqs content = dict.alphabet();
    for (const IntSeq &q : queries) {
        if (q.empty()) continue;
        R.log([&] { return "search " + str(q) + " in " + str(content); });
        // every subset of the matching entries (at most 5), plus ids that do not match
        std::vector<int> match;
        for (int i = 0; i < int(content.size()); i++)
            if (is_prefix(content[i], q)) match.push_back(i);
        size_t m = std::min<size_t>(match.size(), many_excl ? 5 : 2);
        // the longest ones are the interesting ones
        std::sort(match.begin(), match.end(), [&](int a, int b) { return content[a].size() > content[b].size(); });
        for (int mask = 0; mask < 1 << m; mask++)
            for (int other = 0; other < 3; other++) {
                std::unordered_set<int> ex;
                for (size_t k = 0; k < m; k++) if (mask >> k & 1) ex.insert(match[k]);
                if (other == 1)
                    for (int i = 0; i < int(content.size()); i++)
                        if (!is_prefix(content[i], q)) ex.insert(i);
                if (other == 2) ex.insert(int(content.size()) + 3);
                check_excl(R, dict, content, q, ex);
            }
        // long chains: the longest k excluded, and all but one of them
        for (size_t k = m + 1; k < match.size(); k++) {
            std::unordered_set<int> ex(match.begin(), match.begin() + k);
            check_excl(R, dict, content, q, ex);
            ex.insert(match.begin(), match.end());
            ex.erase(match[k]);
            check_excl(R, dict, content, q, ex);
        }
        std::unordered_set<int> all;
        for (int i = 0; i < int(content.size()); i++) all.insert(i);
        check_excl(R, dict, content, q, all);
        int want = ref_longest(content, q);
        R.transition();
        int got = plain(dict, q);
        if (want >= 0) {
            CHECK_THAT(got == want, "search of " + str(q) + " gives " + str(got) + ", expected " + str(want) + " in " +
                                    str(content));
            CHECK_THAT(dict.alphabet() == content, "search of a known sequence changed the dictionary: " + str(q));
        } else {
            Seqs now = content;
            now.push_back({q[0]});
            CHECK_THAT(got == int(content.size()) && dict.alphabet() == now && dict.parent(got) == -1,
                       "search of " + str(q) + " in " + str(content) + " gives " + str(got) + " and the dictionary becomes " +
                       str(dict.alphabet()));
            content = now;
        }
    }
    CHECK_THAT(dict.alphabet() == content, "searches changed the dictionary: " + str(dict.alphabet()));
}

static void run_dict(Run &R, const Seqs &d, const Seqs &queries, bool many) {
    IntDictImpl dict(d);
    std::function<int(IntDictImpl &, const IntSeq &)> ps = [](IntDictImpl &x, const IntSeq &q) { return x.search(q, nullptr); };
    check_all(R, dict, queries, ps, many);
    R.state(hash_seqs(dict.alphabet()));
    check_all(R, dict, queries, ps, false);     // everything is known now
    StatDictImpl stat(d);
    std::function<int(StatDictImpl &, const IntSeq &)> s1 = [](StatDictImpl &x, const IntSeq &q) { return x.search(q); };
    std::function<int(StatDictImpl &, const IntSeq &)> s2 = [](StatDictImpl &x, const IntSeq &q) { return x.search(q, nullptr); };
    check_all(R, stat, queries, s1, false);
    check_all(R, stat, queries, s2, false);
    R.trace();
}

static void explore(Run &R) {
    Seqs S = all_seqs({0, 1}, 1, 3);
    Seqs q = all_seqs({0, 1}, 1, R.thorough ? 5 : 4);
    // unknown symbols before, between and after the known ones
    for (const IntSeq &s : all_seqs({-1, 0, 1, 2}, 1, 2)) if (std::count_if(s.begin(), s.end(), [](int c) { return c < 0 || c > 1; })) q.push_back(s);
    for (uint64_t m = 0; m < 1ull << S.size(); m++)
        R.kase([&] { return "dictionary " + str(subset(S, m)) + ", all queries up to length 4, all exclusions"; },
               [&] {
                   Seqs qs = q;
                   std::rotate(qs.begin(), qs.begin() + m % qs.size(), qs.end());   // registrations in different orders
                   run_dict(R, subset(S, m), qs, true);
               });
    Seqs T = all_seqs({0, 1, 2}, 1, 3);
    for (const IntSeq &names : namings())
        for (const auto &ids : small_subsets(int(T.size()), R.thorough ? 3 : 2)) {
            Seqs d;
            for (int i : ids) d.push_back(rename_symbols(T[i], names));
            R.kase([&] { return "dictionary " + str(d) + " under naming " + str(names); },
                   [&] { run_dict(R, d, rename_symbols(all_seqs({0, 1, 2, 3}, 1, 3), names), true); });
        }
    // deep prefix chains
    for (int depth : {5, 12, 40, 64})
        for (int gap = 1; gap <= 4; gap++)
            R.kase([&] { return "prefix chain of depth " + str(depth) + " with every " + str(gap) + "-th entry"; }, [&] {
                Seqs d;
                for (int k = 1; k <= depth; k += gap) {
                    IntSeq s;
                    for (int i = 0; i < k; i++) s.push_back(i % 3);
                    d.push_back(s);
                    s.back() += 1;
                    d.push_back(s);
                }
                d = sorted(d);
                d.erase(std::unique(d.begin(), d.end()), d.end());
                Seqs qs;
                for (int k = 1; k <= depth + 2; k++)
                    for (int last = 0; last < 4; last++) {
                        IntSeq s;
                        for (int i = 0; i < k; i++) s.push_back(i % 3);
                        s.push_back(last);
                        qs.push_back(s);
                    }
                run_dict(R, d, qs, true);
            });
    // many symbols, most of them registered by the searches
    for (int known : {0, 1, 130, 300})
        for (int dir = 0; dir < 3; dir++)
            R.kase([&] { return "300 symbols searched in order " + str(dir) + ", " + str(known) + " known at first"; }, [&] {
                Seqs d, qs;
                for (int i = 0; i < known; i++) d.push_back({i * 2});
                for (int i = 0; i < 300; i++) {
                    int c = dir == 0 ? i : dir == 1 ? 299 - i : i * 77 % 300;
                    qs.push_back({c * 2 - 20});
                    qs.push_back({c * 2 - 20, 5});
                }
                run_dict(R, d, qs, false);
            });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
