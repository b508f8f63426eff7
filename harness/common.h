// Common runner of the explicit enumeration harnesses (see DESIGN.md).
//
// A harness enumerates numbered cases in a fixed order.  The parent process forks worker processes, worker s of n
// takes the cases with index % n == s.  Every worker notes in shared memory which case it is in, so that a crash, a
// sanitizer report or a hang is attributed to a case.  Before anything is reported the case is run again alone.
#ifndef VERIF_COMMON_H
#define VERIF_COMMON_H

#include <algorithm>
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <set>
#include <sstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

typedef std::vector<int> IntSeq;

namespace vt {

struct Failure {
    std::string message;
};

struct WorkerShared {
    std::atomic<uint64_t> current;      // case being run + 1, 0 = none
    std::atomic<uint64_t> since_ns;     // when it was started
    std::atomic<uint64_t> evaluations, distinct_hint, transitions, traces, truncated, capped, vacuous;
    std::atomic<int> failed;            // the current case failed, text holds the message
    std::atomic<int> finished;
    uint64_t fail_case;
    char text[4096];
};

struct Shared {
    std::atomic<int> stop;
    std::atomic<uint64_t> states;
    std::atomic<uint64_t> dropped_states;
    std::atomic<uint64_t> cases_total;
    std::atomic<int> nsamples;
    char samples[16][1500];
    WorkerShared w[64];
};

const uint64_t kTable = 1ull << 23;

inline uint64_t now_ns() {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return uint64_t(t.tv_sec) * 1000000000ull + uint64_t(t.tv_nsec);
}

inline uint64_t mix(uint64_t h, uint64_t v) {
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}

inline uint64_t hash_str(const std::string &s, uint64_t h = 1469598103934665603ull) {
    for (unsigned char c : s) {
        h ^= c;
        h *= 1099511628211ull;
    }
    return mix(h, s.size());
}

inline uint64_t hash_seq(const IntSeq &s, uint64_t h = 77) {
    for (int c : s) h = mix(h, uint64_t(uint32_t(c)));
    return mix(h, s.size() + 1000003);
}

inline uint64_t hash_seqs(const std::vector<IntSeq> &v, uint64_t h = 99) {
    for (const IntSeq &s : v) h = mix(h, hash_seq(s));
    return mix(h, v.size());
}

inline std::string str(const IntSeq &s) {
    std::string r = "[";
    size_t shown = std::min<size_t>(s.size(), 60);
    for (size_t i = 0; i < shown; i++) {
        if (i) r += " ";
        r += std::to_string(s[i]);
    }
    if (shown < s.size()) r += " ...(" + std::to_string(s.size()) + ")";
    return r + "]";
}

inline std::string str(const std::vector<IntSeq> &v) {
    std::string r = "{";
    size_t shown = std::min<size_t>(v.size(), 40);
    for (size_t i = 0; i < shown; i++) {
        if (i) r += " ";
        r += str(v[i]);
    }
    if (shown < v.size()) r += " ...(" + std::to_string(v.size()) + ")";
    return r + "}";
}

inline std::string str(const std::vector<std::string> &v) {
    std::string r = "{";
    for (size_t i = 0; i < v.size(); i++) r += (i ? "|" : "") + v[i];
    return r + "}";
}

inline std::string str(double d) {
    char b[64];
    snprintf(b, sizeof b, "%.17g", d);
    return b;
}
inline std::string str(int i) { return std::to_string(i); }
inline std::string str(size_t i) { return std::to_string(i); }
inline std::string str(const std::string &s) { return "\"" + s + "\""; }

class Run {
public:
    bool thorough = false;
    bool tracing = false;       // single case: operations are printed
    std::string scratch;        // directory of this process for files

    unsigned owner(uint64_t idx) const { return unsigned(mix(17, idx) % nshards_); }

    // one enumerated case
    template<typename D, typename B>
    void kase(D describe, B body) {
        uint64_t idx = counter_++;
        if (only_ >= 0) {
            if (int64_t(idx) < from_ || int64_t(idx) > only_) return;
            if (int64_t(idx) != only_ && owner(idx) != shard_) return;
        } else if (owner(idx) != shard_) {
            return;
        }
        if (sh_->stop.load(std::memory_order_relaxed)) return;
        if (only_ < 0 && now_ns() > deadline_) {
            me_->truncated++;
            return;
        }
        uint64_t t_case = now_ns();
        me_->since_ns = t_case;
        me_->current = idx + 1;
        tracing = int64_t(idx) == only_;
        if (tracing) fprintf(stderr, "CASE %llu: %s\n", (unsigned long long) idx, std::string(describe()).c_str());
        me_->evaluations++;
        if (only_ < 0 && shard_ == 0 && (nsampled_ < 6 || (nsampled_ < 12 && me_->evaluations % 997 == 5))) {
            nsampled_++;
            int k = sh_->nsamples.fetch_add(1);
            if (k < 16) snprintf(sh_->samples[k], sizeof sh_->samples[k], "case %llu: %s", (unsigned long long) idx,
                                 std::string(describe()).c_str());
        }
        try {
            body();
        } catch (const Failure &f) {
            report(idx, f.message + " | case: " + std::string(describe()));
        } catch (const std::exception &e) {
            report(idx, std::string("unexpected exception: ") + e.what() + " | case: " + std::string(describe()));
        }
        if (slow_ns_ && now_ns() - t_case > slow_ns_)
            fprintf(stderr, "slow case %llu: %.1f s: %s\n", (unsigned long long) idx, double(now_ns() - t_case) / 1e9,
                    std::string(describe()).c_str());
        me_->current = 0;
    }

    void state(uint64_t h) {
        if (h == 0) h = 1;
        uint64_t i = h & (kTable - 1);
        for (int probes = 0; probes < 64; probes++, i = (i + 1) & (kTable - 1)) {
            uint64_t v = table_[i].load(std::memory_order_relaxed);
            if (v == h) return;
            if (v == 0) {
                uint64_t zero = 0;
                if (table_[i].compare_exchange_strong(zero, h)) {
                    sh_->states++;
                    return;
                }
                if (zero == h) return;
            }
        }
        sh_->dropped_states++;
    }
    void transition(uint64_t n = 1) { me_->transitions += n; }
    void trace(uint64_t n = 1) { me_->traces += n; }
    void capped() { me_->capped++; }
    void vacuous() { me_->vacuous++; }
    void alive() { me_->since_ns = now_ns(); }

    template<typename F>
    void log(F f) {
        if (tracing) fprintf(stderr, "  %s\n", std::string(f()).c_str());
    }

    // internals, set by harness_main
    uint64_t counter_ = 0;
    int64_t only_ = -1, from_ = 0;
    uint64_t slow_ns_ = 0;      // cases that take longer are printed (--slow SECONDS)
    unsigned shard_ = 0, nshards_ = 1;
    uint64_t deadline_ = 0;
    int nsampled_ = 0;
    Shared *sh_ = nullptr;
    WorkerShared *me_ = nullptr;
    std::atomic<uint64_t> *table_ = nullptr;

    void report(uint64_t idx, const std::string &msg) {
        me_->fail_case = idx;
        snprintf(me_->text, sizeof me_->text, "%s", msg.c_str());
        me_->failed = 1;
        sh_->stop = 1;
        fprintf(stderr, "FAILED case %llu: %s\n", (unsigned long long) idx, msg.c_str());
        fflush(stderr);
        _exit(1);
    }
};

[[noreturn]] inline void fail(const std::string &m) { throw Failure{m}; }

#define CHECK_THAT(cond, msg) do { if (!(cond)) ::vt::fail(std::string(msg)); } while (0)

// all sequences over the alphabet with lo <= length <= hi, shortest first
inline std::vector<IntSeq> all_seqs(const IntSeq &alphabet, int lo, int hi) {
    std::vector<IntSeq> out, level{{}};
    if (lo <= 0) out.push_back({});
    for (int len = 1; len <= hi; len++) {
        std::vector<IntSeq> next;
        for (const IntSeq &s : level)
            for (int a : alphabet) {
                IntSeq t = s;
                t.push_back(a);
                next.push_back(t);
            }
        level = next;
        if (len >= lo) out.insert(out.end(), level.begin(), level.end());
    }
    return out;
}

inline IntSeq concat(const std::vector<IntSeq> &parts) {
    IntSeq r;
    for (const IntSeq &p : parts) r.insert(r.end(), p.begin(), p.end());
    return r;
}

inline bool is_prefix(const IntSeq &p, const IntSeq &s, size_t from = 0) {
    return p.size() + from <= s.size() && std::equal(p.begin(), p.end(), s.begin() + from);
}

// relative comparison of doubles, NaN equals NaN
inline bool near(double a, double b, double eps = 1e-9) {
    if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
    if (a == b) return true;
    return std::fabs(a - b) <= eps * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}

int harness_main(int argc, char **argv, void (*explore)(Run &));

}

#endif
