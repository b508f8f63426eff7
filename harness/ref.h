// Reference answers, written independently of the code under test.
#ifndef VERIF_REF_H
#define VERIF_REF_H

#include "common.h"

namespace vt {

typedef std::vector<IntSeq> Seqs;

// id of the longest entry that is a prefix of seq[from..] and not excluded, -1 if none
inline int ref_longest(const Seqs &dict, const IntSeq &seq, size_t from = 0,
                       const std::unordered_set<int> *excludes = nullptr) {
    int best = -1;
    for (int i = 0; i < int(dict.size()); i++) {
        if (excludes && excludes->count(i)) continue;
        if (dict[i].empty() || !is_prefix(dict[i], seq, from)) continue;
        if (best < 0 || dict[i].size() > dict[best].size()) best = i;
    }
    return best;
}

inline int ref_parent(const Seqs &dict, int id) {
    int best = -1;
    for (int i = 0; i < int(dict.size()); i++)
        if (i != id && dict[i].size() < dict[id].size() && is_prefix(dict[i], dict[id]))
            if (best < 0 || dict[i].size() > dict[best].size()) best = i;
    return best;
}

inline double ref_weight(const IntSeq &freqs, int id, double total, size_t size) {
    double f = id < int(freqs.size()) ? freqs[id] : 0;
    return std::log((f + 1) / (total + double(size)));
}

// maximal log probability of a segmentation of seq, -inf if there is none
inline double ref_best(const Seqs &dict, const IntSeq &freqs, double total, const IntSeq &seq) {
    const double none = -std::numeric_limits<double>::infinity();
    std::vector<double> best(seq.size() + 1, none);
    best[seq.size()] = 0;
    for (int pos = int(seq.size()) - 1; pos >= 0; pos--)
        for (int id = 0; id < int(dict.size()); id++)
            if (is_prefix(dict[id], seq, pos)) {
                double s = best[pos + dict[id].size()] + ref_weight(freqs, id, total, dict.size());
                if (s > best[pos]) best[pos] = s;
            }
    return best[0];
}

inline double ref_score(const IntSeq &ids, const IntSeq &freqs, double total, size_t size) {
    double s = 0;
    for (int id : ids) s += ref_weight(freqs, id, total, size);
    return s;
}

inline bool not_worse(double got, double best) {
    return got >= best - 1e-9 * std::max(1.0, std::fabs(best));
}

inline Seqs subset(const Seqs &all, uint64_t mask) {
    Seqs r;
    for (size_t i = 0; i < all.size(); i++)
        if (mask >> i & 1) r.push_back(all[i]);
    return r;
}

// all index subsets of size <= k of {0..n-1}, smallest first
inline std::vector<std::vector<int>> small_subsets(int n, int k) {
    std::vector<std::vector<int>> out{{}};
    size_t begin = 0;
    for (int size = 1; size <= k; size++) {
        size_t end = out.size();
        for (size_t i = begin; i < end; i++)
            for (int x = out[i].empty() ? 0 : out[i].back() + 1; x < n; x++) {
                auto t = out[i];
                t.push_back(x);
                out.push_back(t);
            }
        begin = end;
    }
    return out;
}

inline IntSeq rename_symbols(const IntSeq &s, const IntSeq &names) {
    IntSeq r;
    for (int c : s) r.push_back(names[c]);
    return r;
}
inline Seqs rename_symbols(const Seqs &v, const IntSeq &names) {
    Seqs r;
    for (const IntSeq &s : v) r.push_back(rename_symbols(s, names));
    return r;
}

inline Seqs sorted(Seqs v) {
    std::sort(v.begin(), v.end());
    return v;
}

const int kMin = std::numeric_limits<int>::min();
const int kMax = std::numeric_limits<int>::max();

// symbol values the small alphabets are mapped to
inline std::vector<IntSeq> namings() {
    return {{0, 1, 2, 3, 4}, {7, -1, 1000000007, -30, 65536}, {kMax, kMin, 0, -1, 255}, {256, 255, 127, 128, 1 << 24}};
}

}

#endif
