// Reference model of the learning procedure (IntVGramBuilder), non-deterministic where the procedure leaves a choice
// (segmentations of equal probability, candidates of equal score): a model is the set of states the builder may be in.
// An observation of the real builder removes the states that contradict it; no state left = no execution of the model
// explains what the builder did.
#ifndef VERIF_MODEL_H
#define VERIF_MODEL_H

#include "ref.h"
#include "fast_random.h"
#include "int_vgram_builder_p.h"
#include "int_dict_p.h"

namespace vt {

const double kTie = 1e-9;

inline double xlogx(double x) { return x > 0 ? x * std::log(x) : 0; }

// statistics of one dictionary
struct MStat {
    Seqs dict;
    std::vector<double> w;      // weights of the parse: given frequency + counted
    double w_total = 0;
    std::vector<double> f;      // counted
    double power = 0, chars = 0;
    std::map<std::pair<int, int>, int> pairs;
    double min_prob = 0.002;
    std::map<IntSeq, int> ids;
    size_t max_len = 0;
    size_t given = 0;           // the entries it was created with

    void init(const std::vector<std::pair<IntSeq, double>> &entries, double mp) {
        auto e = entries;
        std::sort(e.begin(), e.end(), [](const std::pair<IntSeq, double> &a, const std::pair<IntSeq, double> &b) {
            return a.first < b.first;
        });
        *this = MStat();
        min_prob = mp;
        for (const auto &p : e) add(p.first, p.second);
        given = dict.size();
        // the symbols of all entries are entries
        for (const auto &p : e)
            for (int x : p.first)
                if (find(IntSeq{x}) < 0) add(IntSeq{x}, 0);
    }
    void add(const IntSeq &s, double weight) {
        ids[s] = int(dict.size());
        dict.push_back(s);
        w.push_back(weight);
        f.push_back(0);
        w_total += weight;
        max_len = std::max(max_len, s.size());
    }
    int find(const IntSeq &s) const {
        auto it = ids.find(s);
        return it == ids.end() ? -1 : it->second;
    }
    // prefix links between the entries it was created with
    std::vector<int> parents() const {
        std::vector<int> r(dict.size(), -1);
        for (size_t i = 0; i < dict.size(); i++)
            for (size_t len = dict[i].size(); len-- > 1 && r[i] < 0;) {
                int k = find(IntSeq(dict[i].begin(), dict[i].begin() + len));
                if (k < int(given)) r[i] = k;
            }
        return r;
    }
    int roots() const {
        int n = 0;
        for (int p : parents()) n += p < 0;
        return n;
    }
    double code_length() const {
        double s = xlogx(power);
        for (double x : f) s -= xlogx(x);
        return s;
    }
    double code_length_per_char() const {
        return chars > 0 ? code_length() / chars : std::numeric_limits<double>::quiet_NaN();
    }
};

// all segmentations whose score is maximal up to kTie.  options[pos] lists (id, length, score).
struct Opt { int id; size_t len; double score; };

// target: only the segmentations with these numbers of uses; any_order: one segmentation per multiset of entries is enough
inline bool best_paths(const std::vector<std::vector<Opt>> &options, size_t n, std::set<IntSeq> *out, size_t cap,
                       const std::map<int, int> *target = nullptr, bool any_order = false) {
    const double none = -std::numeric_limits<double>::infinity();
    std::vector<double> best(n + 1, none);
    best[n] = 0;
    for (size_t pos = n; pos-- > 0;)
        for (const Opt &o : options[pos])
            if (pos + o.len <= n) best[pos] = std::max(best[pos], o.score + best[pos + o.len]);
    double limit = best[0] - kTie * std::max(1.0, std::fabs(best[0]));
    IntSeq cur;
    bool full = false;
    std::map<int, int> left;
    if (target) left = *target;
    size_t nodes = 0;
    bool done = false;
    auto fits = [&](const Opt &o, size_t pos, double score) {
        if (pos + o.len > n || score + o.score + best[pos + o.len] < limit) return false;
        if (!target) return true;
        auto it = left.find(o.id);
        return it != left.end() && it->second != 0;
    };
    std::function<void(size_t, double)> rec = [&](size_t pos, double score) {
        if (done) return;
        if (out->size() >= cap || ++nodes > 50000) { full = true; return; }
        const size_t from = cur.size();
        std::vector<const Opt *> next;
        while (pos < n) {                   // no recursion where there is no choice
            next.clear();
            for (const Opt &o : options[pos]) if (fits(o, pos, score)) next.push_back(&o);
            if (next.size() != 1) break;
            cur.push_back(next[0]->id);
            if (target) left[next[0]->id]--;
            score += next[0]->score;
            pos += next[0]->len;
        }
        if (pos == n) {
            bool used = true;
            for (const auto &p : left) used = used && p.second == 0;
            if (!used) {
            } else if (any_order && !target) {
                IntSeq sorted = cur;
                std::sort(sorted.begin(), sorted.end());
                out->insert(sorted);
            } else {
                out->insert(cur);
                done = any_order;
            }
        } else {
            for (const Opt *o : next) {
                cur.push_back(o->id);
                if (target) left[o->id]--;
                rec(pos + o->len, score + o->score);
                if (target) left[o->id]++;
                cur.pop_back();
            }
        }
        if (target) for (size_t i = from; i < cur.size(); i++) left[cur[i]]++;
        cur.resize(from);
    };
    rec(0, 0);
    return !full;
}

struct MBuilder {
    MStat cur, res;
    bool has_res = false, same = false;     // same: the published dictionary is the working one
    bool populate = true, pruned = false;
    double prob_found = 0.1, best_rate = 1.0;
    int no_inc = 0;
    int size = 0;
    int event = 0;                          // of the last accept: 0 none, 1 grown, 2 pruned

    const MStat &published() const { return has_res && !same ? res : cur; }
    bool hidden() const { return has_res && !same; }

    std::string key() const {
        std::ostringstream o;
        auto stat = [&](const MStat &s) {
            for (size_t i = 0; i < s.dict.size(); i++) o << str(s.dict[i]) << s.w[i] << "/" << s.f[i] << ";";
            o << s.power << "," << s.chars << ",";
            o.precision(9);
            o << s.min_prob << "|";
            o.precision(12);
            for (const auto &p : s.pairs) o << p.first.first << "-" << p.first.second << ":" << p.second << ",";
        };
        o.precision(12);
        stat(cur);
        if (hidden()) stat(res);
        o << has_res << same << populate << pruned << "," << prob_found << "," << no_inc << "," << size << ",";
        o.precision(8);
        o << best_rate;
        return o.str();
    }
};

struct Obs {
    Seqs alphabet;
    IntSeq freqs;
    double min_prob, code_length;
};

template<typename B>
inline Obs observe(B &b) {
    Obs o;
    o.alphabet = b.result()->alphabet();
    b.result_freqs(&o.freqs);
    o.min_prob = b.get_min_probability();
    o.code_length = b.code_length();
    return o;
}

inline std::string str(const Obs &o) {
    std::string r = "{";
    for (size_t i = 0; i < o.alphabet.size() && i < 60; i++)
        r += (i ? " " : "") + str(o.alphabet[i]) + ":" + (i < o.freqs.size() ? str(o.freqs[i]) : std::string("-"));
    return r + "} minimal probability " + str(o.min_prob) + " code length " + str(o.code_length);
}

inline int64_t total_of(const Obs &o) {
    int64_t n = 0;
    for (int f : o.freqs) n += f;
    return n;
}

// did the builder replace its statistics while it accepted a sequence?
inline bool replaced(const Obs &before, const Obs &after, const IntSeq &seq) {
    if (!seq.empty() && total_of(after) <= total_of(before)) return true;
    if (!near(before.min_prob, after.min_prob, 1e-14)) return true;
    std::set<IntSeq> a(before.alphabet.begin(), before.alphabet.end()), b(after.alphabet.begin(), after.alphabet.end());
    for (const IntSeq &s : a) if (!b.count(s)) return true;
    for (const IntSeq &s : b) if (s.size() > 1 && !a.count(s)) return true;
    return false;
}

inline std::map<IntSeq, int> uses_between(const Obs &before, const Obs &after) {
    std::map<IntSeq, int> r;
    for (size_t i = 0; i < after.alphabet.size() && i < after.freqs.size(); i++) r[after.alphabet[i]] += after.freqs[i];
    for (size_t i = 0; i < before.alphabet.size() && i < before.freqs.size(); i++) r[before.alphabet[i]] -= before.freqs[i];
    for (auto it = r.begin(); it != r.end();) it = it->second ? std::next(it) : r.erase(it);
    return r;
}

class Model {
public:
    std::vector<MBuilder> states;
    bool capped = false;
    size_t cap = 128;
    // what was published after the sequence; when the outcome of a rebuild is visible, only the choices between equal
    // candidates that lead to it are followed
    const std::set<IntSeq> *hint = nullptr;
    // how often every entry was used by the accepted sequence, where that is visible
    const std::map<IntSeq, int> *uses = nullptr;
    bool no_pairs = false;      // growth is not looked at any more
    bool any_time = false;      // a rebuild is possible after every sequence, whatever the statistics

    explicit Model(const MBuilder &b) : states(1, b) {}

    static MBuilder fresh(const Seqs &alphabet, int size) {
        MBuilder b;
        std::vector<std::pair<IntSeq, double>> e;
        for (const IntSeq &s : alphabet) e.emplace_back(s, 0);
        b.cur.init(e, 0.002);
        b.size = size;
        return b;
    }
    static MBuilder restored(const Seqs &dict, const IntSeq &freqs, double min_prob, int size) {
        MBuilder b;
        std::vector<std::pair<IntSeq, double>> e;
        for (size_t i = 0; i < dict.size(); i++) e.emplace_back(dict[i], i < freqs.size() ? freqs[i] : 0);
        b.cur.init(e, min_prob);
        b.has_res = b.same = true;
        b.size = size;
        return b;
    }

    void accept(const IntSeq &seq) {
        std::vector<MBuilder> next;
        for (MBuilder &b : states) {
            std::set<IntSeq> segs;
            Seqs added;
            if (!segmentations(b, seq, &segs, &added)) capped = true;
            size_t k = 0;
            for (const IntSeq &ids : segs) {
                MBuilder c;
                if (++k == segs.size()) c = std::move(b); else c = b;
                c.event = 0;
                for (const IntSeq &s : added) c.cur.add(s, 0);
                c.cur.chars += double(seq.size());
                int prev = -1;
                for (int id : ids) {
                    c.cur.f[id]++;
                    c.cur.w[id]++;
                    c.cur.w_total++;
                    c.cur.power++;
                    // pairs are used by growth only
                    if (prev >= 0 && c.populate && !no_pairs) c.cur.pairs[{prev, id}]++;
                    prev = id;
                }
                rebuild(std::move(c), &next);
                if (next.size() > 8 * cap) { capped = true; break; }
            }
        }
        dedupe(next);
        states.swap(next);
        if (states.size() > cap) capped = true;
    }

    static bool matches(const MBuilder &b, const Obs &o, std::string *why = nullptr) {
        const MStat &s = b.published();
        auto no = [&](const std::string &m) { if (why) *why = m; return false; };
        if (o.alphabet.size() != s.dict.size() || o.freqs.size() != s.dict.size()) return no("other number of entries");
        for (size_t i = 0; i < o.alphabet.size(); i++) {
            int id = s.find(o.alphabet[i]);
            if (id < 0) return no(str(o.alphabet[i]) + " is unexpected");
            if (double(o.freqs[i]) != s.f[id])
                return no("frequency of " + str(o.alphabet[i]) + " expected to be " + str(s.f[id]));
        }
        if (!near(o.min_prob, s.min_prob)) return no("minimal probability expected to be " + str(s.min_prob));
        if (s.chars > 0 && s.power > 0 && !near(o.code_length, s.code_length_per_char()))
            return no("code length expected to be " + str(s.code_length_per_char()));
        return true;
    }

    // keeps the states that explain the observation
    bool filter(const Obs &o, std::string *why) {
        if (states.empty()) {
            *why = "no segmentation that is optimal uses the entries that often";
            return false;
        }
        std::vector<MBuilder> kept;
        std::string first;
        for (MBuilder &b : states) {
            std::string w;
            if (matches(b, o, &w)) kept.push_back(std::move(b));
            else if (first.empty()) first = w + "; expected " + describe(b);
        }
        if (kept.empty()) {
            *why = first + (states.size() > 1 ? " (or one of " + str(states.size() - 1) + " other states)" : "");
            return false;
        }
        states.swap(kept);
        return true;
    }

    static std::string describe(const MBuilder &b) {
        const MStat &s = b.published();
        std::string r = "{";
        for (size_t i = 0; i < s.dict.size() && i < 60; i++)
            r += (i ? " " : "") + str(s.dict[i]) + ":" + std::to_string(int64_t(s.f[i]));
        return r + "} minimal probability " + str(s.min_prob);
    }

    bool all(int event) const {
        for (const MBuilder &b : states) if (b.event != event) return false;
        return !states.empty();
    }
    bool any(int event) const {
        for (const MBuilder &b : states) if (b.event == event) return true;
        return false;
    }

    uint64_t hash() const {
        uint64_t h = states.size();
        for (const MBuilder &b : states) h ^= hash_str(b.key());
        return h;
    }

private:
    static void dedupe(std::vector<MBuilder> &v) {
        if (v.size() < 2) return;
        std::set<std::string> seen;
        std::vector<MBuilder> r;
        for (MBuilder &b : v)
            if (seen.insert(b.key()).second) r.push_back(std::move(b));
        v.swap(r);
    }

    // what the parse may return; added lists the symbols it registers
    bool segmentations(const MBuilder &b, const IntSeq &seq, std::set<IntSeq> *out, Seqs *added) const {
        const MStat &s = b.cur;
        std::vector<std::vector<std::pair<int, size_t>>> opts(seq.size());
        std::vector<size_t> size_at(seq.size());
        std::map<IntSeq, int> fresh;
        for (size_t pos = 0; pos < seq.size(); pos++) {
            IntSeq part;
            for (size_t len = 1; len <= s.max_len && pos + len <= seq.size(); len++) {
                part.push_back(seq[pos + len - 1]);
                int id = s.find(part);
                if (id >= 0) opts[pos].emplace_back(id, len);
            }
            if (opts[pos].empty()) {
                IntSeq one{seq[pos]};
                if (!fresh.count(one)) {
                    fresh[one] = int(s.dict.size() + added->size());
                    added->push_back(one);
                }
                opts[pos].emplace_back(fresh[one], 1);
            }
            size_at[pos] = s.dict.size() + added->size();
        }
        size_t final_size = s.dict.size() + added->size();
        bool ok = true;
        std::map<int, int> target;
        const bool visible = uses && !b.hidden();
        if (visible)
            for (const auto &p : *uses) {
                int id = s.find(p.first);
                if (id < 0)
                    for (const auto &a : fresh) if (a.first == p.first) id = a.second;
                target[id] = p.second;      // -1: an entry that cannot be there
            }
        // while symbols are being registered the dictionary size used in the weights is not determined
        for (int var = 0; var < (added->empty() ? 1 : 3); var++) {
            std::vector<std::vector<Opt>> o(seq.size());
            for (size_t pos = 0; pos < seq.size(); pos++) {
                size_t n = var == 0 ? size_at[pos] : var == 1 ? final_size : s.dict.size();
                double norm = std::log(s.w_total + double(std::max<size_t>(n, 1)));
                for (const auto &p : opts[pos])
                    o[pos].push_back({p.first, p.second,
                                      (p.first < int(s.w.size()) ? std::log(s.w[p.first] + 1) : 0) - norm});
            }
            ok = best_paths(o, seq.size(), out, 64, visible ? &target : nullptr, !b.populate || no_pairs) && ok;
        }
        return ok;
    }

    void rebuild(MBuilder b, std::vector<MBuilder> *out) {
        double need = -std::log(b.prob_found) / b.cur.min_prob;
        bool over = b.cur.power > 20000000;
        bool maybe = std::fabs(b.cur.power - need) <= kTie * need;
        if (any_time) {
            if (b.cur.power == 0) { out->push_back(std::move(b)); return; }
            out->push_back(b);
        } else if (!over && (b.cur.power <= need || maybe)) {
            if (maybe) out->push_back(b);
            else { out->push_back(std::move(b)); return; }
        }
        // compression rate
        double len = 0;
        for (size_t i = 0; i < b.cur.dict.size(); i++) len += double(b.cur.dict[i].size()) * b.cur.f[i];
        double rate = b.cur.code_length() / std::log(2) / 8 / len;
        std::vector<MBuilder> v;
        bool tie = std::fabs(rate - b.best_rate) <= 1e-12 * std::max(1e-3, std::fabs(rate)) || std::isnan(rate);
        if (rate < b.best_rate || tie) {
            MBuilder c = b;
            c.best_rate = tie ? b.best_rate : rate;
            c.no_inc = 0;
            v.push_back(std::move(c));
        }
        if (!(rate < b.best_rate) || tie) {
            if (++b.no_inc > 3) b.prob_found *= 0.8;
            v.push_back(std::move(b));
        }
        for (MBuilder &c : v) {
            int free = std::max(0, c.size - c.cur.roots());
            if (c.populate) grow(c, free, out); else prune(c, free, out);
        }
    }

    struct Cand { IntSeq text; double score; double count; bool sure; };

    // the sets of at most `slots` candidates that can be chosen by score (ties and near-zero scores are open)
    void choose(std::vector<Cand> v, size_t slots, bool visible, std::vector<std::vector<Cand>> *out) {
        std::vector<Cand> open;         // score too close to zero to know
        std::vector<Cand> sure;
        const std::set<IntSeq> *h = visible ? hint : nullptr;
        for (const Cand &c : v) {
            if (c.sure || (h && h->count(c.text))) sure.push_back(c);
            else if (!h) open.push_back(c);
        }
        if (open.size() > 6) { capped = true; open.resize(6); }
        std::set<std::string> seen;
        for (int mask = 0; mask < 1 << open.size(); mask++) {
            std::vector<Cand> all = sure;
            for (size_t i = 0; i < open.size(); i++) if (mask >> i & 1) all.push_back(open[i]);
            std::sort(all.begin(), all.end(), [](const Cand &a, const Cand &b) { return a.score > b.score; });
            std::vector<std::vector<Cand>> res;
            if (all.size() <= slots) res.push_back(all);
            else if (slots == 0) res.push_back({});
            else {
                double b = all[slots - 1].score, eps = kTie * std::max(1.0, std::fabs(b));
                std::vector<Cand> top, tied;
                for (const Cand &c : all)
                    if (c.score > b + eps) top.push_back(c);
                    else if (c.score >= b - eps) tied.push_back(c);
                size_t want = slots - top.size();
                if (h) {
                    std::vector<Cand> t;
                    for (const Cand &c : tied) if (h->count(c.text)) t.push_back(c);
                    if (t.size() == want) tied.swap(t);
                    else tied.resize(want);         // contradicts the observation anyway
                }
                // combinations of `want` of the tied ones
                std::vector<size_t> pick;
                std::function<void(size_t)> rec = [&](size_t from) {
                    if (res.size() > 80) { capped = true; return; }
                    if (pick.size() == want) {
                        std::vector<Cand> r = top;
                        for (size_t i : pick) r.push_back(tied[i]);
                        res.push_back(r);
                        return;
                    }
                    for (size_t i = from; i < tied.size(); i++) {
                        pick.push_back(i);
                        rec(i + 1);
                        pick.pop_back();
                    }
                };
                rec(0);
            }
            for (auto &r : res) {
                std::string k;
                std::sort(r.begin(), r.end(), [](const Cand &a, const Cand &b) { return a.text < b.text; });
                for (const Cand &c : r) k += str(c.text) + ":" + str(c.count) + ";";
                if (seen.insert(k).second) out->push_back(r);
            }
        }
    }

    void grow(const MBuilder &b, int free, std::vector<MBuilder> *out) {
        const MStat &s = b.cur;
        int slots = double(s.dict.size()) * 1.3 < 10 ? free : int(double(s.dict.size()) * 1.3);
        std::vector<double> starts(s.dict.size()), ends(s.dict.size());
        double total = 0;
        for (const auto &p : s.pairs) {
            starts[p.first.first] += p.second;
            ends[p.first.second] += p.second;
            total += p.second;
        }
        std::map<IntSeq, std::vector<std::pair<double, double>>> cands;
        for (const auto &p : s.pairs) {
            IntSeq text = s.dict[p.first.first];
            const IntSeq &second = s.dict[p.first.second];
            text.insert(text.end(), second.begin(), second.end());
            if (s.find(text) >= 0) continue;
            double ab = p.second, xb = ends[p.first.second] - ab, ay = starts[p.first.first] - ab;
            double xy = total - ay - xb - ab;
            std::vector<double> params{ab + 1, ay + 1, xb + 1, xy + 1}, x(4);
            double score = 0;
            for (int i = 0; i < 10; i++) {
                next_dirichlet(params, &x);
                double cond = x[0] / (x[1] + x[0]);
                score += ab * cond * std::log(cond / (x[2] + x[0])) / 10;
            }
            cands[text].emplace_back(score, ab);
        }
        // texts that several pairs give: which pair counts is open
        std::vector<std::vector<Cand>> lists(1);
        for (const auto &c : cands) {
            std::vector<std::vector<Cand>> next;
            for (auto &l : lists)
                for (const auto &o : c.second) {
                    next.push_back(l);
                    double scale = kTie * std::max(1.0, o.second);
                    if (o.first >= -scale) next.back().push_back({c.first, o.first, o.second, o.first > scale});
                }
            lists.swap(next);
            if (lists.size() > 64) { capped = true; lists.resize(64); }
        }
        for (const auto &l : lists) {
            std::vector<std::vector<Cand>> sets;
            choose(l, size_t(std::max(0, slots)), !b.has_res, &sets);
            for (const auto &set : sets) {
                MBuilder c;
                copy_flags(b, &c);
                std::vector<std::pair<IntSeq, double>> e;
                for (size_t i = 0; i < s.dict.size(); i++) e.emplace_back(s.dict[i], s.f[i]);
                double mp = s.min_prob;
                for (const Cand &x : set) {
                    e.emplace_back(x.text, x.count);
                    mp = std::min(mp, x.count / total);
                }
                c.cur.init(e, mp);
                if (b.has_res) c.res = b.published();
                c.has_res = b.has_res;
                c.same = false;
                c.populate = false;
                c.event = 1;
                out->push_back(std::move(c));
                if (out->size() > 8 * cap) { capped = true; return; }
            }
        }
    }

    // scores an entry can have in pruning (segmentations of equal probability are open)
    std::set<double> prune_scores(const MStat &s, int id, const std::set<int> &excluded) {
        const IntSeq &seq = s.dict[id];
        double n = s.power, count = s.f[id];
        std::set<IntSeq> segs;
        for (int var = 0; var < 2; var++) {
            std::vector<std::vector<Opt>> o(seq.size());
            for (size_t pos = 0; pos < seq.size(); pos++) {
                IntSeq part;
                std::vector<std::pair<int, size_t>> found;
                size_t longest = 0;
                for (size_t len = 1; len <= s.max_len && pos + len <= seq.size(); len++) {
                    part.push_back(seq[pos + len - 1]);
                    int e = s.find(part);
                    if (e < 0 || e == id) continue;
                    found.emplace_back(e, len);
                    if (!excluded.count(e)) longest = len;
                }
                // unused entries are excluded as such, but they may or may not serve as shorter alternatives
                for (const auto &p : found)
                    if (p.second <= longest && (var == 0 || !excluded.count(p.first)))
                        o[pos].push_back({p.first, p.second,
                                          std::log(s.f[p.first] + 1) - std::log(n + double(s.dict.size()))});
            }
            if (!best_paths(o, seq.size(), &segs, 64)) capped = true;
        }
        std::set<double> res;
        for (const IntSeq &g : segs) {
            double nn = n + (double(g.size()) - 1) * count;
            double score = xlogx(count) - xlogx(n) + xlogx(nn);
            for (int e : g) score -= xlogx(s.f[e] + count) - xlogx(s.f[e]);
            res.insert(score);
        }
        return res;
    }

    void prune(const MBuilder &b, int free, std::vector<MBuilder> *out) {
        const MStat &s = b.cur;
        std::vector<int> parent = s.parents();
        std::set<int> excluded;
        int roots = 0;
        for (size_t i = 0; i < s.dict.size(); i++) {
            if (parent[i] >= 0 && s.f[i] == 0) excluded.insert(int(i));
            roots += parent[i] < 0;
        }
        std::vector<Cand> singles;
        std::vector<std::vector<Cand>> lists(1);
        for (size_t i = 0; i < s.dict.size(); i++) {
            if (excluded.count(int(i))) continue;
            if (s.dict[i].size() == 1) {
                singles.push_back({s.dict[i], 0, s.f[i], true});
                continue;
            }
            double scale = 1e-9 * std::max(1.0, xlogx(s.power));
            std::vector<double> opts;
            for (double x : prune_scores(s, int(i), excluded))
                if (opts.empty() || std::fabs(opts.back() - x) > scale) opts.push_back(x);
            std::vector<std::vector<Cand>> next;
            for (auto &l : lists)
                for (double x : opts) {
                    next.push_back(l);
                    if (x >= -scale) next.back().push_back({s.dict[i], x, s.f[i], x > scale});
                }
            lists.swap(next);
            if (lists.size() > 64) { capped = true; lists.resize(64); }
        }
        int slots = std::max(0, free + roots - int(singles.size()));
        for (const auto &l : lists) {
            std::vector<std::vector<Cand>> sets;
            choose(l, size_t(slots), true, &sets);
            for (const auto &set : sets) {
                MBuilder c;
                copy_flags(b, &c);
                std::vector<std::pair<IntSeq, double>> e;
                double power = 0, mp = std::min(1. / double(s.dict.size()), s.min_prob);
                for (const Cand &x : singles) { e.emplace_back(x.text, x.count); power += x.count; }
                for (const Cand &x : set) { e.emplace_back(x.text, x.count); power += x.count; }
                for (const Cand &x : set)
                    if (parent[s.find(x.text)] >= 0)
                        mp = std::min(mp, (x.count + 1) / (power + double(s.dict.size())));
                c.cur.init(e, mp);
                c.has_res = c.same = true;
                c.pruned = true;
                c.populate = true;
                c.event = 2;
                out->push_back(std::move(c));
                if (out->size() > 8 * cap) { capped = true; return; }
            }
        }
    }

    static void copy_flags(const MBuilder &b, MBuilder *c) {
        c->prob_found = b.prob_found;
        c->best_rate = b.best_rate;
        c->no_inc = b.no_inc;
        c->size = b.size;
        c->pruned = b.pruned;
    }
};

}

#endif
