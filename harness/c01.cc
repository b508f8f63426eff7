// C01: parses are lossless.  Exhaustive over dictionaries x inputs x exclusions, parses accumulate on one dictionary.
#include "ref.h"
#include "int_dict_p.h"
#include "stat_dict_p.h"

using namespace vt;

static const int kPre = 77;

// checks one parse result; dict is read after the parse
template<typename D>
void check_out(Run &R, const D &dict, const IntSeq &in, const IntSeq &out, int ret, bool pre, const char *what) {
    R.transition();
    CHECK_THAT(ret == int(out.size()), std::string(what) + " returned " + str(ret) + " for an output of length " +
                                       str(out.size()) + ", input " + str(in));
    size_t from = 0;
    if (pre) {
        CHECK_THAT(out.size() >= 2 && out[0] == kPre && out[1] == -kPre,
                   std::string(what) + " changed what the output held before, input " + str(in));
        from = 2;
    }
    IntSeq joined;
    for (size_t i = from; i < out.size(); i++) {
        CHECK_THAT(out[i] >= 0 && out[i] < dict.size(), std::string(what) + " returned id " + str(out[i]) +
                                                        " that does not exist, input " + str(in));
        const IntSeq &e = dict.get(out[i]);
        joined.insert(joined.end(), e.begin(), e.end());
    }
    CHECK_THAT(joined == in, std::string(what) + " of " + str(in) + " gives " + str(joined) + " via ids " + str(out) +
                             " of " + str(dict.alphabet()));
}

// greedy parse against the reference
static void check_greedy(Run &R, IntDictImpl &dict, const IntSeq &in, std::unordered_set<int> *ex, const char *what) {
    IntSeq want{kPre, -kPre};
    Seqs before = dict.alphabet();
    IntSeq left;
    if (ex) {
        for (size_t pos = 0; pos < in.size();) {
            int id = ref_longest(before, in, pos, ex);
            if (id < 0) { pos++; continue; }
            want.push_back(id);
            pos += before[id].size();
        }
    } else {
        Seqs now = before;
        for (size_t pos = 0; pos < in.size();) {
            int id = ref_longest(now, in, pos);
            if (id < 0) { now.push_back({in[pos]}); id = int(now.size()) - 1; }
            want.push_back(id);
            pos += now[id].size();
        }
    }
    IntSeq out{kPre, -kPre};
    int ret = dict.parse(in, &out, ex);
    if (ex) R.transition(); else check_out(R, dict, in, out, ret, true, what);
    CHECK_THAT(ret == int(out.size()), std::string(what) + ": wrong returned length for " + str(in));
    // ids of registered symbols may differ from the reference, the sequences may not
    CHECK_THAT(out.size() == want.size(), std::string(what) + " of " + str(in) + " gives ids " + str(out) + ", expected " +
                                          str(want) + " with dictionary " + str(before) + (ex ? " and exclusions" : ""));
    Seqs after = dict.alphabet();
    if (ex) {
        CHECK_THAT(out == want, std::string(what) + " of " + str(in) + " gives ids " + str(out) + ", expected " +
                                str(want) + " with dictionary " + str(before));
        CHECK_THAT(after == before, std::string(what) + " with exclusions changed the dictionary, input " + str(in));
    } else {
        for (size_t i = 2, pos = 0; i < out.size(); i++) {
            size_t len = want[i] < int(before.size()) ? before[want[i]].size() : 1;
            CHECK_THAT(after[out[i]].size() == len, std::string(what) + " of " + str(in) + " takes " + str(after[out[i]]) +
                       " at position " + str(pos) + ", the longest entry has length " + str(len));
            pos += len;
        }
    }
}

static void run_dict(Run &R, const Seqs &entries, const Seqs &inputs, int freq_mode, bool excl) {
    IntSeq freqs;
    double total = 0;
    for (size_t i = 0; i < entries.size() && freq_mode > 0; i++) {
        int f = freq_mode == 1 ? 0 : freq_mode == 2 ? int((i * 7) % 5) : freq_mode == 3 ? (i % 3 == 1 ? 100000 : 1)
                                 : int(entries.size() - i);
        freqs.push_back(f);
        total += f;
    }
    if (freq_mode == 4 && !freqs.empty()) freqs.resize(freqs.size() / 2);   // fewer frequencies than entries
    IntDictImpl dict(entries);
    StatDictImpl stat(entries, 0.002, freq_mode == 1 ? nullptr : &freqs);
    for (const IntSeq &in : inputs) {
        R.alive();
        R.log([&] { return "weighted/greedy/stat parse of " + str(in); });
        IntSeq out{kPre, -kPre};
        int ret = dict.parse(in, freqs, total, &out);
        check_out(R, dict, in, out, ret, true, "weighted parse");
        check_greedy(R, dict, in, nullptr, "greedy parse");
        IntSeq sout;
        ret = stat.parse(in, &sout);
        check_out(R, stat, in, sout, ret, false, "statistics dictionary parse");
        if (excl && in.size() <= 4) {
            // every subset of the entries that match somewhere in the input (at most 6 of them)
            std::vector<int> ids;
            const Seqs &a = dict.alphabet();
            for (int i = 0; i < int(a.size()) && ids.size() < 6; i++)
                for (size_t pos = 0; pos < in.size(); pos++)
                    if (is_prefix(a[i], in, pos)) { ids.push_back(i); break; }
            for (int m = 0; m < 1 << ids.size(); m++) {
                std::unordered_set<int> ex;
                for (size_t k = 0; k < ids.size(); k++) if (m >> k & 1) ex.insert(ids[k]);
                check_greedy(R, dict, in, &ex, "greedy parse with exclusions");
            }
        }
    }
    R.trace();
    R.state(hash_seqs(dict.alphabet(), hash_seq(freqs)));
}

static void explore(Run &R) {
    Seqs S = all_seqs({0, 1}, 1, 3);
    Seqs in4 = all_seqs({0, 1, 2}, 0, R.thorough ? 5 : 4), in6 = all_seqs({0, 1}, 5, R.thorough ? 9 : 7);
    Seqs inputs = in4;
    inputs.insert(inputs.end(), in6.begin(), in6.end());
    for (uint64_t m = 0; m < 1ull << S.size(); m++)
        for (int fm = 0; fm < 5; fm++) {
            if (!R.thorough && fm != int(m % 5)) continue;
            R.kase([&] { return "dictionary " + str(subset(S, m)) + ", frequencies " + str(fm) + ", all inputs"; },
                   [&] { run_dict(R, subset(S, m), inputs, fm, m % 16 == 0 || __builtin_popcountll(m) <= 4); });
        }
    // small dictionaries over three symbols with unusual values; symbols first seen in every order
    Seqs T = all_seqs({0, 1, 2}, 1, 3);
    auto subs = small_subsets(int(T.size()), R.thorough ? 3 : 2);
    for (const IntSeq &names : namings())
        for (const auto &ids : subs) {
            Seqs d;
            for (int i : ids) d.push_back(rename_symbols(T[i], names));
            R.kase([&] { return "dictionary " + str(d) + ", symbols named " + str(names); }, [&] {
                run_dict(R, d, rename_symbols(all_seqs({0, 1, 2, 3}, 0, R.thorough ? 4 : 3), names), int(ids.size()) + 1,
                         ids.size() <= 2);
            });
        }
    // wide and long: many symbols, long entries, long inputs
    for (int n : {9, 10, 11, 300, 1000, 70000})
        for (int mode = 0; mode < 4; mode++)
            R.kase([&] { return "wide dictionary of " + str(n) + " symbols, mode " + str(mode); }, [&] {
                Seqs d;
                if (mode != 3)
                    for (int i = 0; i < n; i++) d.push_back({i * (mode == 1 ? -3 : 1)});
                if (mode == 2)
                    for (int i = 0; i + 1 < n && i < 1000; i++) d.push_back({i, i + 1});
                Seqs ins;
                for (int step : {1, 7, n - 1}) {
                    IntSeq s;
                    for (int i = 0; i < 600; i++) s.push_back(int((int64_t(i) * step) % n) * (mode == 1 ? -3 : 1));
                    ins.push_back(s);
                }
                IntDictImpl dict(d);
                StatDictImpl stat(d);
                for (int rep = 0; rep < 2; rep++)
                    for (const IntSeq &in : ins) {
                        IntSeq out{kPre, -kPre}, o2, o3{kPre, -kPre};
                        int r = dict.parse(in, IntSeq(), 0, &out);
                        check_out(R, dict, in, out, r, true, "weighted parse");
                        r = stat.parse(in, &o2);
                        check_out(R, stat, in, o2, r, false, "statistics dictionary parse");
                        r = dict.parse(in, &o3, nullptr);
                        check_out(R, dict, in, o3, r, true, "greedy parse");
                    }
                R.trace();
                R.state(hash_seqs(dict.alphabet()));
            });
    // inputs beyond 16 bits, by each kind of parse
    for (int kind = 0; kind < 3; kind++)
        for (int len : {30000, 33000, 66000})
            R.kase([&] { return "input of " + str(len) + " symbols, parse " + str(kind); }, [&] {
                const Seqs d{{1}, {1, 1}, {2}, {2, 1, 1, 2}};
                IntSeq in;
                for (int i = 0; i < len; i++) in.push_back(i % 11 == 7 ? 3 + i / 1000 : i % 5 < 2 ? 2 : 1);
                IntDictImpl dict(d);
                StatDictImpl stat(d);
                IntSeq out{kPre, -kPre}, plain;
                if (kind == 0) check_out(R, dict, in, out, dict.parse(in, IntSeq(), 0, &out), true, "weighted parse");
                if (kind == 1) check_out(R, dict, in, out, dict.parse(in, &out, nullptr), true, "greedy parse");
                if (kind == 2) check_out(R, stat, in, plain, stat.parse(in, &plain), false, "statistics dictionary parse");
                R.trace();
            });
    for (int len : {1, 2, 255, 256, 257, 1000, R.thorough ? 9000 : 3000})
        for (int unit : {1, 2, 3, 64, 300})
            R.kase([&] { return "long entries: unit " + str(unit) + ", input length " + str(len); }, [&] {
                Seqs d{{1}};
                for (int k = 2; k <= unit; k = k < 8 ? k + 1 : k * 2) d.push_back(IntSeq(k, 1));
                IntSeq odd(unit, 1);
                odd.back() = 2;
                d.push_back(odd);
                std::sort(d.begin(), d.end());
                d.erase(std::unique(d.begin(), d.end()), d.end());
                IntDictImpl dict(d);
                StatDictImpl stat(d);
                for (int var = 0; var < 3; var++) {
                    IntSeq in(len, 1);
                    if (var) for (int i = unit - 1; i < len; i += unit + var - 1) in[i] = 2;
                    IntSeq fr;
                    for (size_t i = 0; i < d.size(); i++) fr.push_back(int(i * 31 % 17));
                    IntSeq out{kPre, -kPre}, o2;
                    int r = dict.parse(in, fr, 100, &out);
                    check_out(R, dict, in, out, r, true, "weighted parse");
                    r = stat.parse(in, &o2);
                    check_out(R, stat, in, o2, r, false, "statistics dictionary parse");
                    check_greedy(R, dict, in, nullptr, "greedy parse");
                    std::unordered_set<int> ex{0, int(d.size()) - 1};
                    check_greedy(R, dict, in, &ex, "greedy parse with exclusions");
                }
                R.trace();
            });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
