// C05: ids are stable, symbols are registered once.  Breadth-first search over histories of searches and parses,
// a state is the content of the dictionary (ids in order); every transition replays its history on a fresh object.
#include "ref.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"

#include <deque>

using namespace vt;

struct Op {
    int kind;   // 0 search, 1 search with exclusions, 2 weighted, 3 greedy, 4 greedy with exclusions
    IntSeq q;
};

static std::string show(const Op &o) {
    const char *n[] = {"search", "search-ex", "weighted", "greedy", "greedy-ex"};
    return std::string(n[o.kind]) + str(o.q);
}

template<typename D> struct Api;
template<> struct Api<IntDictImpl> {
    static void weighted(IntDictImpl &d, const IntSeq &q, IntSeq *o) { d.parse(q, IntSeq(), 0, o); }
    static void greedy(IntDictImpl &d, const IntSeq &q, IntSeq *o, std::unordered_set<int> *ex) { d.parse(q, o, ex); }
};
template<> struct Api<StatDictImpl> {
    static void weighted(StatDictImpl &d, const IntSeq &q, IntSeq *o) { d.parse(q, o); }
    static void greedy(StatDictImpl &d, const IntSeq &q, IntSeq *o, std::unordered_set<int> *ex) {
        if (ex) return;
        d.parse(q, o);
    }
};

template<typename D>
static void apply(D &d, const Op &o, IntSeq *ids) {
    std::unordered_set<int> ex;
    if (o.kind == 1 || o.kind == 4)
        for (int i = 0; i < d.size(); i += 2) ex.insert(i);
    switch (o.kind) {
        case 0: ids->push_back(d.search(o.q, nullptr)); break;
        case 1: { int r = d.search(o.q, &ex); if (r >= 0) ids->push_back(r); break; }
        case 2: Api<D>::weighted(d, o.q, ids); break;
        case 3: Api<D>::greedy(d, o.q, ids, nullptr); break;
        case 4: Api<D>::greedy(d, o.q, ids, &ex); break;
    }
}

template<typename D>
static void step_check(Run &R, D &d, const Op &o, Seqs &content, IntSeq &parents, const std::string &history) {
    R.transition();
    IntSeq ids;
    apply(d, o, &ids);
    R.log([&] { return show(o) + " -> " + str(ids) + " in " + str(d.alphabet()); });
    Seqs now = d.alphabet();
    CHECK_THAT(d.size() == int(now.size()), "size and alphabet differ after " + history);
    CHECK_THAT(now.size() >= content.size(), "entries disappeared after " + history);
    std::set<int> syms(o.q.begin(), o.q.end());
    for (size_t i = 0; i < now.size(); i++) {
        CHECK_THAT(d.get(int(i)) == now[i], "get and alphabet differ after " + history);
        if (i < content.size()) {
            CHECK_THAT(now[i] == content[i], "id " + str(i) + " changed from " + str(content[i]) + " to " + str(now[i]) +
                                             " after " + history);
            CHECK_THAT(d.parent(int(i)) == parents[i], "parent of " + str(now[i]) + " changed after " + history);
        } else {
            CHECK_THAT(now[i].size() == 1 && syms.count(now[i][0]), "entry " + str(now[i]) + " appeared after " + history);
            CHECK_THAT(d.parent(int(i)) == -1, "registered symbol " + str(now[i]) + " has a parent after " + history);
            CHECK_THAT(o.kind != 1 && o.kind != 4, "an operation with exclusions registered a symbol: " + history);
        }
    }
    Seqs s = sorted(now);
    for (size_t i = 1; i < s.size(); i++)
        CHECK_THAT(s[i] != s[i - 1], str(s[i]) + " is there twice after " + history + ": " + str(now));
    for (int id : ids) CHECK_THAT(id >= 0 && id < int(now.size()), "id " + str(id) + " does not exist after " + history);
    for (size_t i = content.size(); i < now.size(); i++) parents.push_back(-1);
    content = now;
}

template<typename D>
static void bfs(Run &R, const Seqs &init, const std::vector<Op> &ops, int depth, size_t max_states) {
    struct Node { std::vector<int> hist; };
    std::set<Seqs> seen;
    std::deque<Node> frontier{{{}}};
    {
        D d(init);
        seen.insert(d.alphabet());
        R.state(hash_seqs(d.alphabet()));
    }
    while (!frontier.empty()) {
        Node n = frontier.front();
        frontier.pop_front();
        R.alive();
        for (int oi = 0; oi < int(ops.size()); oi++) {
            D d(init);
            Seqs content = d.alphabet();
            IntSeq parents;
            for (int i = 0; i < d.size(); i++) parents.push_back(d.parent(i));
            std::string h = str(init);
            for (int p : n.hist) {
                h += " " + show(ops[p]);
                step_check(R, d, ops[p], content, parents, h);
            }
            h += " " + show(ops[oi]);
            step_check(R, d, ops[oi], content, parents, h);
            // everything registered is found again, in every order of symbols
            for (size_t i = 0; i < content.size(); i++)
                if (content[i].size() == 1) {
                    std::unordered_set<int> none;
                    CHECK_THAT(d.search(content[i], &none) == int(i) && d.search(content[i], nullptr) == int(i),
                               str(content[i]) + " is not found as entry " + str(i) + " after " + h + ": " + str(content));
                }
            CHECK_THAT(d.alphabet() == content, "looking up known symbols changed the dictionary after " + h);
            R.trace();
            if (seen.insert(content).second) {
                R.state(hash_seqs(content));
                if (int(n.hist.size()) + 1 < depth && seen.size() < max_states) {
                    Node m = n;
                    m.hist.push_back(oi);
                    frontier.push_back(m);
                }
            }
        }
    }
}

static void explore(Run &R) {
    Seqs pool{{1}, {2}, {3}, {1, 2}, {2, 1}, {2, 2}, {1, 2, 3}, {3, 1}};
    Seqs queries = all_seqs({0, 1, 2, 3, 4}, 1, 2);
    queries.push_back({4, 3, 2, 1, 0});
    queries.push_back({0, 1, 2, 3, 4});
    queries.push_back({2, 0, 2, 4, 0});
    queries.push_back({});
    size_t ninit = 0;
    for (const auto &ids : small_subsets(int(pool.size()), R.thorough ? 4 : 3))
        for (size_t n = 0; n < 4; n++) {
            if (n && (ninit % 4 != n)) continue;
            if (!R.thorough && ids.size() == 3 && (ids[0] + ids[1] + ids[2]) % 2) continue;
            const IntSeq names = namings()[n];
            Seqs init;
            for (int i : ids) init.push_back(rename_symbols(pool[i], names));
            for (int stat = 0; stat < 2; stat++) {
                ninit++;
                R.kase([&] { return std::string(stat ? "statistics " : "") + "dictionary " + str(init) + ", symbols " + str(names) +
                                    ": breadth-first search over histories"; }, [&] {
                    std::vector<Op> ops;
                    for (const IntSeq &q : queries)
                        for (int k = 0; k < 5; k++) {
                            if (q.empty() && k < 2) continue;
                            if (stat && k == 4) continue;
                            ops.push_back({k, rename_symbols(q, names)});
                        }
                    if (stat) bfs<StatDictImpl>(R, init, ops, 4, R.thorough ? 400 : 25);
                    else bfs<IntDictImpl>(R, init, ops, 5, R.thorough ? 800 : 100);
                });
            }
        }
    // all orders of first appearance of six symbols, by each kind of operation
    IntSeq perm{-3, -1, 0, 2, 5, 9};
    do {
        for (int kind : {0, 2, 3})
            for (int chunk : {1, 2, 3, 6}) {
                R.kase([&] { return "symbols appear in order " + str(perm) + " by operation " + str(kind) + ", " + str(chunk) +
                                    " at a time"; }, [&] {
                    for (const Seqs &init : {Seqs{}, Seqs{{0}}, Seqs{{0}, {5}, {0, 5}, {5, 0, 0}}}) {
                        IntDictImpl d(init);
                        Seqs content = d.alphabet();
                        IntSeq parents;
                        for (int i = 0; i < d.size(); i++) parents.push_back(d.parent(i));
                        std::string h = str(init);
                        for (int rep = 0; rep < 3; rep++)
                            for (int i = 0; i < 6; i += chunk) {
                                Op o{kind, IntSeq(perm.begin() + i, perm.begin() + std::min(6, i + chunk))};
                                if (rep == 1) std::reverse(o.q.begin(), o.q.end());
                                h += " " + show(o);
                                step_check(R, d, o, content, parents, h);
                            }
                        for (int c : perm) {
                            Op o{0, {c}};
                            h += " " + show(o);
                            step_check(R, d, o, content, parents, h);
                        }
                        std::set<int> have;
                        for (const IntSeq &e : content) if (e.size() == 1) have.insert(e[0]);
                        CHECK_THAT(have.size() == 6, "after " + h + " the dictionary is " + str(content));
                        R.state(hash_seqs(content));
                        R.trace();
                    }
                });
            }
    } while (std::next_permutation(perm.begin(), perm.end()));
    // several hundred symbols
    for (int n : {12, 300, 3000, 9000, R.thorough ? 70000 : 34000})
        for (int dir = 0; dir < 3; dir++)
            for (int kind : {0, 2, 3})
                R.kase([&] { return str(n) + " symbols in order " + str(dir) + " by operation " + str(kind); }, [&] {
                    IntDictImpl d(Seqs{{5}, {5, 6}, {100}});
                    std::map<int, int> id{{5, 0}, {100, 2}};
                    for (int rep = 0; rep < 2; rep++)
                        for (int i = 0; i < n; i++) {
                            int c = dir == 0 ? i : dir == 1 ? n - i : int(int64_t(i) * 7919 % n);
                            IntSeq out;
                            apply(d, Op{kind, {c}}, &out);
                            R.transition();
                            CHECK_THAT(out.size() == 1 && d.get(out[0]) == IntSeq{c}, "symbol " + str(c) + " is given as " +
                                       str(out));
                            if (id.count(c)) CHECK_THAT(id[c] == out[0], "id of symbol " + str(c) + " changed");
                            id[c] = out[0];
                        }
                    CHECK_THAT(d.size() == int(id.size()) + 1, "duplicate entries: " + str(d.size()) + " for " + str(id.size()));
                    R.trace();
                });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
