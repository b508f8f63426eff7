#include <new>
#include <malloc.h>
#include "common.h"

#include <cerrno>
#include <dirent.h>

// library code under test prints progress, the null buffer swallows it
namespace {
struct NullBuf : std::streambuf {
    int overflow(int c) override { return c; }
} null_buf;
}

// Every statistics dictionary has a hash table of 100000 buckets.  Recycling these blocks saves most of the run time,
// in particular under the address sanitizer; all other allocations are left alone.
namespace {
const size_t kPoolLow = 700000, kPoolHigh = 900000, kBlock = 1 << 20, kArena = size_t(4) << 30;
char *arena = nullptr;
size_t arena_used = 0;
void *free_blocks[8192];
size_t free_count = 0;

void *pool_new(size_t n) {
    if (n >= kPoolLow && n <= kPoolHigh) {
        if (free_count) return free_blocks[--free_count];
        if (!arena) {
            void *p = mmap(nullptr, kArena, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            arena = p == MAP_FAILED ? reinterpret_cast<char *>(1) : static_cast<char *>(p);
        }
        if (arena != reinterpret_cast<char *>(1) && arena_used + kBlock <= kArena) {
            void *p = arena + arena_used;
            arena_used += kBlock;
            return p;
        }
    }
    void *p = malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}

void pool_delete(void *p) {
    char *c = static_cast<char *>(p);
    if (arena > reinterpret_cast<char *>(1) && c >= arena && c < arena + kArena) {
        if (free_count < 8192) free_blocks[free_count++] = p;
        return;
    }
    free(p);
}
}

void *operator new(size_t n) { return pool_new(n); }
void *operator new[](size_t n) { return pool_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return pool_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return pool_new(n); }
void operator delete(void *p, const std::nothrow_t &) noexcept { pool_delete(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { pool_delete(p); }
void operator delete(void *p) noexcept { pool_delete(p); }
void operator delete[](void *p) noexcept { pool_delete(p); }
void operator delete(void *p, size_t) noexcept { pool_delete(p); }
void operator delete[](void *p, size_t) noexcept { pool_delete(p); }

namespace vt {

static std::string json_str(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

static void remove_flat_dir(const std::string &dir) {
    if (dir.size() < 8 || dir.find("/vt_scratch_") == std::string::npos) return;
    if (DIR *d = opendir(dir.c_str())) {
        while (dirent *e = readdir(d)) {
            std::string n = e->d_name;
            if (n != "." && n != "..") unlink((dir + "/" + n).c_str());
        }
        closedir(d);
    }
    rmdir(dir.c_str());
}

int harness_main(int argc, char **argv, void (*explore)(Run &)) {
    mallopt(M_MMAP_THRESHOLD, 64 << 20);
    mallopt(M_TRIM_THRESHOLD, 256 << 20);
    Run proto;
    int workers = 8;
    double budget = 400, hang = 30;
    std::string out, scratch_base = "/tmp";
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--thorough") proto.thorough = true;
        else if (a == "--workers") workers = std::stoi(val());
        else if (a == "--budget") budget = std::stod(val());
        else if (a == "--hang") hang = std::stod(val());
        else if (a == "--only") proto.only_ = std::stoll(val());
        else if (a == "--from") proto.from_ = std::stoll(val());
        else if (a == "--nshards") proto.nshards_ = std::stoi(val());
        else if (a == "--shard") proto.shard_ = std::stoi(val());
        else if (a == "--slow") proto.slow_ns_ = uint64_t(std::stod(val()) * 1e9);
        else if (a == "--out") out = val();
        else if (a == "--scratch") scratch_base = val();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    workers = std::max(1, std::min(workers, 64));
    auto *sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto *table = (std::atomic<uint64_t> *) mmap(nullptr, kTable * 8, PROT_READ | PROT_WRITE,
                                                MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (sh == MAP_FAILED || table == MAP_FAILED) { perror("mmap"); return 2; }
    uint64_t t0 = now_ns();

    auto run_worker = [&](Run run, int slot) {
        std::cout.rdbuf(&null_buf);
        run.sh_ = sh;
        run.me_ = &sh->w[slot];
        run.table_ = table;
        run.deadline_ = t0 + uint64_t(budget * 1e9);
        char dir[512];
        snprintf(dir, sizeof dir, "%s/vt_scratch_%d_%d", scratch_base.c_str(), int(getpid()), slot);
        mkdir(dir, 0700);
        run.scratch = dir;
        explore(run);
        if (slot == 0) sh->cases_total = run.counter_;
        run.me_->finished = 1;
        remove_flat_dir(dir);
        fflush(stderr);
        _exit(0);
    };

    if (proto.only_ >= 0) {
        // replay: one process, one case (plus the earlier ones of its shard when --from is given)
        if (proto.from_ == 0 && argc > 0) {
            bool given = false;
            for (int i = 1; i < argc; i++) given = given || std::string(argv[i]) == "--from";
            if (!given) proto.from_ = proto.only_;
        }
        pid_t p = fork();
        if (p == 0) run_worker(proto, 0);
        uint64_t start = now_ns();
        int st = 0;
        std::string why;
        while (true) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            uint64_t cur = sh->w[0].current;
            if (now_ns() - start > uint64_t((hang + budget) * 1e9) ||
                (cur && now_ns() - sh->w[0].since_ns > uint64_t(hang * 1e9))) {
                kill(p, SIGKILL);
                waitpid(p, &st, 0);
                why = "no end after " + std::to_string(int(hang)) + " s";
                break;
            }
            usleep(2000);
        }
        char dir[512];
        snprintf(dir, sizeof dir, "%s/vt_scratch_%d_%d", scratch_base.c_str(), int(p), 0);
        remove_flat_dir(dir);
        if (why.empty() && WIFEXITED(st) && WEXITSTATUS(st) == 0) {
            fprintf(stderr, "case %lld: held\n", (long long) proto.only_);
            return 0;
        }
        if (why.empty() && sh->w[0].failed) why = sh->w[0].text;
        if (why.empty()) why = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st))
                                                : "crash: exit status " + std::to_string(WEXITSTATUS(st)) +
                                                  " (sanitizer report above)";
        fprintf(stderr, "case %lld: BROKEN: %s\n", (long long) proto.only_, why.c_str());
        return 1;
    }

    std::vector<pid_t> pids(workers);
    for (int s = 0; s < workers; s++) {
        Run run = proto;
        run.shard_ = unsigned(s);
        run.nshards_ = unsigned(workers);
        pid_t p = fork();
        if (p < 0) { perror("fork"); return 2; }
        if (p == 0) run_worker(run, s);
        pids[s] = p;
    }
    struct Bad { uint64_t idx; int shard; std::string why; };
    std::vector<Bad> bad;
    std::string internal_error;
    int left = workers;
    while (left > 0) {
        for (int s = 0; s < workers; s++) {
            if (pids[s] < 0) continue;
            int st = 0;
            pid_t r = waitpid(pids[s], &st, WNOHANG);
            WorkerShared &w = sh->w[s];
            bool over = false;
            if (r == pids[s]) {
                over = true;
                if (w.failed) bad.push_back({w.fail_case, s, w.text});
                else if (!(WIFEXITED(st) && WEXITSTATUS(st) == 0 && w.finished)) {
                    std::string why = WIFSIGNALED(st) ? "crash: signal " + std::to_string(WTERMSIG(st))
                                                       : "crash: exit status " + std::to_string(WEXITSTATUS(st));
                    if (w.current) bad.push_back({w.current - 1, s, why});
                    else internal_error = why + " outside of any case";
                    sh->stop = 1;
                }
            } else if (uint64_t cur = w.current) {
                uint64_t since = w.since_ns;
                if (now_ns() > since && now_ns() - since > uint64_t(hang * 1e9)) {
                    kill(pids[s], SIGKILL);
                    waitpid(pids[s], &st, 0);
                    over = true;
                    bad.push_back({cur - 1, s, "no end after " + std::to_string(int(hang)) + " s"});
                    sh->stop = 1;
                }
            }
            if (over) {
                char dir[512];
                snprintf(dir, sizeof dir, "%s/vt_scratch_%d_%d", scratch_base.c_str(), int(pids[s]), s);
                remove_flat_dir(dir);
                pids[s] = -1;
                left--;
            }
        }
        usleep(3000);
    }
    uint64_t ev = 0, tr = 0, traces = 0, trunc = 0, capped = 0, vac = 0;
    for (int s = 0; s < workers; s++) {
        ev += sh->w[s].evaluations;
        tr += sh->w[s].transitions;
        traces += sh->w[s].traces;
        trunc += sh->w[s].truncated;
        capped += sh->w[s].capped;
        vac += sh->w[s].vacuous;
    }
    std::sort(bad.begin(), bad.end(), [](const Bad &a, const Bad &b) { return a.idx < b.idx; });
    std::ostringstream o;
    o << "{\"evaluations\": " << ev << ", \"states\": " << sh->states << ", \"transitions\": " << tr
      << ", \"traces\": " << traces << ", \"cases_not_run_time\": " << trunc << ", \"histories_capped\": " << capped
      << ", \"vacuous\": " << vac << ", \"cases_total\": " << sh->cases_total
      << ", \"states_not_counted\": " << sh->dropped_states << ", \"workers\": " << workers
      << ", \"wall_s\": " << double(now_ns() - t0) / 1e9;
    o << ", \"samples\": [";
    for (int i = 0; i < std::min(16, sh->nsamples.load()); i++) o << (i ? ", " : "") << json_str(sh->samples[i]);
    o << "], \"bad\": [";
    for (size_t i = 0; i < bad.size(); i++)
        o << (i ? ", " : "") << "{\"case\": " << bad[i].idx << ", \"shard\": " << bad[i].shard << ", \"why\": "
          << json_str(bad[i].why) << "}";
    o << "], \"internal_error\": " << json_str(internal_error) << "}";
    if (!out.empty()) {
        std::ofstream f(out);
        f << o.str() << "\n";
    } else {
        fprintf(stdout, "%s\n", o.str().c_str());
    }
    if (!bad.empty()) return 1;
    return internal_error.empty() ? 0 : 2;
}

}
