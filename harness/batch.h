// Shared by C20 and C21: training of batch models with the outcomes of rand() given.
#ifndef VERIF_BATCH_H
#define VERIF_BATCH_H

#include "iface.h"

namespace vt {

struct RandScript {
    std::vector<int> values;
    size_t calls = 0;
};
inline RandScript &rand_script() {
    static RandScript s;
    return s;
}

// a value of rand() from which both the low and the high digits choose k out of n
inline int rand_value(int k, int n) {
    if (n <= 0) return 0;
    int64_t v = int64_t((k + 0.5) / n * RAND_MAX);
    int64_t r = v - v % n + k;
    return int(r > RAND_MAX ? r - n : r);
}

inline void script_choices(const std::vector<int> &choices, int n) {
    rand_script().values.clear();
    for (int c : choices) rand_script().values.push_back(rand_value(c, n));
    rand_script().calls = 0;
}

inline size_t total_size(const Seqs &seqs) {
    size_t n = 0;
    for (const IntSeq &s : seqs) n += s.size();
    return n;
}

// alphabet and frequencies of a model that was fitted to the end
inline void check_fitted(IntVGram &m, const Seqs &train, const std::string &when) {
    Seqs alpha = m.alphabet();
    IntSeq freqs = m.freqs();
    CHECK_THAT(alpha.size() == freqs.size(), when + " there are " + str(freqs.size()) + " frequencies for " + str(alpha.size()) + " entries");
    std::set<IntSeq> set(alpha.begin(), alpha.end());
    CHECK_THAT(set.size() == alpha.size(), when + " the alphabet has duplicates: " + str(alpha));
    std::map<int, int64_t> have, expected;
    int64_t total = 0;
    for (size_t i = 0; i < alpha.size(); i++) {
        CHECK_THAT(freqs[i] >= 0, when + " a frequency is negative");
        total += int64_t(freqs[i]) * int64_t(alpha[i].size());
        for (int x : alpha[i]) have[x] += freqs[i];
    }
    for (const IntSeq &s : train)
        for (int x : s) {
            CHECK_THAT(set.count(IntSeq{x}), when + " symbol " + str(x) + " of the texts is not in the alphabet");
            expected[x]++;
        }
    CHECK_THAT(total == int64_t(total_size(train)), when + " the frequencies weighted by lengths sum up to " + std::to_string(total) +
               " instead of " + str(total_size(train)) + ": " + show_all(alpha, freqs));
    for (const auto &p : have)
        CHECK_THAT(p.second == (expected.count(p.first) ? expected[p.first] : 0), when + " symbol " + str(p.first) + " is counted " +
                   std::to_string(p.second) + " times: " + show_all(alpha, freqs));
}

// every sequence is coded losslessly but for the symbols that are not in the alphabet
inline void check_transform(IntVGram &m, const Seqs &seqs, const std::string &when) {
    Seqs alpha = m.alphabet();
    IntSeq freqs = m.freqs();
    std::set<int> singles;
    for (const IntSeq &s : alpha) if (s.size() == 1) singles.insert(s[0]);
    const double sum = std::accumulate(freqs.begin(), freqs.end(), 0.0);
    Seqs out = m.transform(seqs);
    CHECK_THAT(out.size() == seqs.size(), when + " transform returns " + str(out.size()) + " sequences for " + str(seqs.size()));
    for (size_t i = 0; i < seqs.size(); i++) {
        IntSeq known, text;
        for (int x : seqs[i]) if (singles.count(x)) known.push_back(x);
        for (int id : out[i]) {
            CHECK_THAT(id >= 0 && id < int(alpha.size()), when + " " + str(seqs[i]) + " is coded with id " + str(id));
            text.insert(text.end(), alpha[id].begin(), alpha[id].end());
        }
        CHECK_THAT(text == known, when + " " + str(seqs[i]) + " is coded as " + str(text) + " instead of " + str(known));
        const double got = ref_score(out[i], freqs, sum, alpha.size()), best = ref_best(alpha, freqs, sum, known);
        CHECK_THAT(not_worse(got, best), when + " " + str(seqs[i]) + " is coded as " + str(out[i]) + " with log probability " + str(got) +
                   ", but " + str(best) + " is possible: " + show_all(alpha, freqs));
        CHECK_THAT(m.parse(seqs[i]) == out[i], when + " parse of " + str(seqs[i]) + " differs from transform");
    }
    std::vector<std::string> lines = m.transform_to_string(seqs);
    CHECK_THAT(lines.size() == seqs.size(), when + " transform_to_string returns " + str(lines.size()) + " lines");
    for (size_t i = 0; i < seqs.size(); i++) {
        // the ids of the line, whatever stands between them
        std::istringstream in(lines[i]);
        IntSeq ids;
        std::string word;
        while (in >> word) ids.push_back(atoi(word.c_str()));
        CHECK_THAT(ids == (out[i].empty() ? IntSeq{-1} : out[i]), when + " the textual form of " + str(out[i]) + " is \"" + lines[i] + "\"");
    }
    CHECK_THAT(m.alphabet() == alpha && m.freqs() == freqs, when + " transform changes the model");
}

}

#endif
