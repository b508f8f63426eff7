// C11: the same history gives the same model, whatever happens to other models before and in between.
#include "subjects.h"

#include <sys/prctl.h>

using namespace vt;

static std::string ops_text(const Subject &s, const std::vector<int> &ops) {
    std::string r;
    for (int o : ops) r += (r.empty() ? "" : ", ") + s.op_name(o);
    return r;
}

static std::vector<std::string> alone(int kind, const std::vector<int> &ops, const std::string &scratch, int verbose = 0) {
    auto s = make_subject(kind, scratch, "a", verbose);
    std::vector<std::string> r{s->snapshot()};
    for (int o : ops) {
        s->op(o);
        r.push_back(s->snapshot());
    }
    return r;
}

static void same(const std::string &a, const std::string &b, const std::string &when) {
    if (a == b) return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    i = i > 60 ? i - 60 : 0;
    fail(when + ": ..." + b.substr(i, 300) + " instead of ..." + a.substr(i, 300));
}

// The expected results come from processes of their own: a process that has not made any model yet forks one child per
// request, so nothing that models leave behind in a process can be in them.
typedef std::vector<std::string> Results;

static std::string encode(const std::vector<std::vector<int>> &v) {
    std::string r;
    for (const auto &x : v) {
        r += std::to_string(x.size());
        for (int i : x) r += " " + std::to_string(i);
        r += "\n";
    }
    return r;
}
static std::vector<std::vector<int>> decode(const std::string &s) {
    std::istringstream in(s);
    std::vector<std::vector<int>> r;
    size_t n;
    while (in >> n) {
        r.emplace_back(n);
        for (int &i : r.back()) in >> i;
    }
    return r;
}

static bool send(int fd, const void *p, size_t n) {
    const char *c = static_cast<const char *>(p);
    while (n) {
        ssize_t k = write(fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= size_t(k);
    }
    return true;
}
static bool receive(int fd, void *p, size_t n) {
    char *c = static_cast<char *>(p);
    while (n) {
        ssize_t k = read(fd, c, n);
        if (k <= 0) return false;
        c += k;
        n -= size_t(k);
    }
    return true;
}
static bool send(int fd, const std::string &s) {
    uint64_t n = s.size();
    return send(fd, &n, sizeof n) && send(fd, s.data(), s.size());
}
static bool receive(int fd, std::string *s) {
    uint64_t n;
    if (!receive(fd, &n, sizeof n)) return false;
    s->resize(n);
    return receive(fd, &(*s)[0], n);
}

class Fresh {
public:
    void start(const std::string &scratch, Results (*answer)(const std::vector<std::vector<int>> &, const std::string &)) {
        int in[2], out[2];
        if (pipe(in) || pipe(out)) abort();
        signal(SIGPIPE, SIG_IGN);
        if (fork() == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(in[1]);
            close(out[0]);
            std::string request;
            while (receive(in[0], &request)) {
                pid_t child = fork();
                if (child == 0) {
                    prctl(PR_SET_PDEATHSIG, SIGKILL);
                    std::string text;
                    bool ok = true;
                    try {
                        for (const std::string &r : answer(decode(request), scratch)) text += std::to_string(r.size()) + " " + r;
                    } catch (const Failure &f) {
                        ok = false;
                        text = f.message;
                    } catch (const std::exception &e) {
                        ok = false;
                        text = std::string("unexpected exception: ") + e.what();
                    }
                    _exit(send(out[1], (ok ? "+" : "-") + text) ? 0 : 1);
                }
                int status = 1;
                waitpid(child, &status, 0);
                if (status != 0) send(out[1], std::string("-the process ended with status ") + std::to_string(status));
            }
            _exit(0);
        }
        close(in[0]);
        close(out[1]);
        to_ = in[1];
        from_ = out[0];
    }
    const Results &ask(const std::vector<std::vector<int>> &request) {
        const std::string key = encode(request);
        auto it = known_.find(key);
        if (it != known_.end()) return it->second;
        std::string text;
        if (!send(to_, key) || !receive(from_, &text)) fail("internal: no answer from the other process");
        if (text[0] != '+') fail("in a process of its own: " + text.substr(1));
        Results r;
        for (size_t i = 1; i < text.size();) {
            size_t space = text.find(' ', i), n = std::stoul(text.substr(i, space - i));
            r.push_back(text.substr(space + 1, n));
            i = space + 1 + n;
        }
        if (known_.size() > 20000) known_.clear();
        return known_[key] = r;
    }
private:
    int to_ = -1, from_ = -1;
    std::map<std::string, Results> known_;
};
static Fresh fresh;

// all interleavings of the operations of two models
static void interleavings(Run &R, int k1, const std::vector<int> &o1, int k2, const std::vector<int> &o2) {
    R.kase([&] {
        auto a = make_subject(k1, R.scratch, "a"), b = make_subject(k2, R.scratch, "b");
        return kind_name(k1) + ": " + ops_text(*a, o1) + " interleaved with " + kind_name(k2) + ": " + ops_text(*b, o2);
    }, [&] {
        const Results ra = fresh.ask({{0, k1}, o1}), rb = fresh.ask({{0, k2}, o2});
        CHECK_THAT(ra.size() == o1.size() + 1 && rb.size() == o2.size() + 1, "internal: number of answers");
        size_t n = o1.size() + o2.size();
        for (unsigned mask = 0; mask < 1u << n; mask++) {
            if (size_t(__builtin_popcount(mask)) != o1.size()) continue;
            auto a = make_subject(k1, R.scratch, "a"), b = make_subject(k2, R.scratch, "b");
            size_t i = 0, j = 0;
            std::string history;
            for (size_t step = 0; step < n; step++) {
                std::string name = "first: ";
                if (mask >> step & 1) {
                    history += " 1:" + a->op_name(o1[i]);
                    a->op(o1[i++]);
                } else {
                    history += " 2:" + b->op_name(o2[j]);
                    b->op(o2[j++]);
                }
                R.transition();
                R.log([&] { return history; });
            }
            same(ra[i], a->snapshot(), "the first model after" + history);
            same(rb[j], b->snapshot(true), "the second model after" + history);
            same(ra[i], a->snapshot(), "the first model after" + history + ", asked again");
            R.trace();
        }
        // the same alone again, in a process that has done more
        auto rc = alone(k1, o1, R.scratch);
        for (size_t i = 0; i < ra.size(); i++) {
            same(ra[i], rc[i], kind_name(k1) + " run again, after " + str(int(i)) + " operations");
            R.state(hash_str(ra[i]));
        }
    });
}

// a model that tells what it does learns the same as a silent one
static void verbosity(Run &R, int kind, const std::vector<int> &ops, int verbose) {
    R.kase([&] {
        return kind_name(kind) + " with verbosity " + str(verbose) + ": " + ops_text(*make_subject(kind, R.scratch, "a"), ops);
    }, [&] {
        const Results silent = fresh.ask({{0, kind}, ops});
        const auto got = alone(kind, ops, R.scratch, verbose);
        for (size_t i = 0; i < got.size(); i++) {
            same(silent.at(i), got[i], kind_name(kind) + " with verbosity " + str(verbose) + " after " + str(int(i)) + " operations");
            R.state(hash_str(got[i]));
            R.transition();
        }
        R.trace();
    });
}

// a model made from another one: the first goes on as without it, the second as one made in the same way from a first
// model that does not go on
struct Pair {
    std::unique_ptr<Subject> a, b;
};

static Pair derive(int how, const std::vector<int> &before, const std::string &scratch) {
    Pair p;
    const int kinds[] = {0, 1, 5, 2, 9, 3, 4, 0};
    p.a = make_subject(kinds[how], scratch, "a");
    for (int o : before) p.a->op(o);
    const std::string path = scratch + "/derive.json";
    switch (how) {
        case 0: {
            auto &m = *static_cast<BuilderSubject &>(*p.a).b;
            auto *s = new BuilderSubject(restored_start({}, {}, 0.5, 6));
            s->b.reset(new IntVGramBuilderImpl(*m.result(), 6, 0));
            p.b.reset(s);
            break;
        }
        case 7: {
            auto &m = *static_cast<BuilderSubject &>(*p.a).b;
            auto *s = new BuilderSubject(restored_start({}, {}, 0.5, 6));
            IntSeq f;
            m.result_freqs(&f);
            s->b.reset(new IntVGramBuilderImpl(*m.result(), f, m.result()->alphabet(), 0.5, 0, 6));
            p.b.reset(s);
            break;
        }
        case 1: case 2: {
            static_cast<StreamSubject &>(*p.a).m->save(path);
            p.b.reset(new StreamSubject(Loader::load_int_stream_vgram(path)));
            break;
        }
        case 3: case 4: {
            static_cast<TextStreamSubject &>(*p.a).m->save(path);
            p.b.reset(new TextStreamSubject(Loader::load_string_stream_vgram(path), how == 4));
            break;
        }
        case 5: {
            static_cast<BatchSubject &>(*p.a).m->save(path);
            p.b.reset(new BatchSubject(std::shared_ptr<IntVGram>(Loader::load_int_vgram(path))));
            break;
        }
        case 6: {
            static_cast<TextBatchSubject &>(*p.a).m->save(path);
            p.b.reset(new TextBatchSubject(std::shared_ptr<StringVGram>(Loader::load_string_vgram(path))));
            break;
        }
    }
    p.b->file = scratch + "/b.json";
    return p;
}

static void derived(Run &R, int how, const std::vector<int> &before, const std::vector<int> &o1, const std::vector<int> &o2) {
    auto describe = [&](const Pair &p) {
        return std::string("a model made from ") + (how == 0 ? "the dictionary of a builder" : how == 7 ? "the results of a builder" :
               "a saved file") + " after " + ops_text(*p.a, before) + "; then " + ops_text(*p.a, o1) + " interleaved with " +
               ops_text(*p.b, o2) + " on the new one";
    };
    R.kase([&] { return describe(derive(how, before, R.scratch)); }, [&] {
        const std::string ra = fresh.ask({{1, how}, before, o1}).at(0), rb = fresh.ask({{2, how}, before, o2}).at(0);
        R.state(hash_str(ra + rb));
        size_t n = o1.size() + o2.size();
        for (unsigned mask = 0; mask < 1u << n; mask++) {
            if (size_t(__builtin_popcount(mask)) != o1.size()) continue;
            Pair t = derive(how, before, R.scratch);
            size_t i = 0, j = 0;
            for (size_t step = 0; step < n; step++) {
                R.transition();
                if (mask >> step & 1) t.a->op(o1[i++]); else t.b->op(o2[j++]);
            }
            same(ra, t.a->snapshot(), "the first model in interleaving " + str(int(mask)) + " of " + describe(t));
            same(rb, t.b->snapshot(true), "the second model in interleaving " + str(int(mask)) + " of " + describe(t));
            R.trace();
        }
    });
}

static Results answer(const std::vector<std::vector<int>> &q, const std::string &scratch) {
    if (q[0][0] == 0) return alone(q[0][1], q[1], scratch);
    Pair p = derive(q[0][1], q[1], scratch);
    Subject &s = q[0][0] == 1 ? *p.a : *p.b;
    for (int o : q[2]) s.op(o);
    return {s.snapshot()};
}

static void explore(Run &R) {
    const std::string other = R.scratch + "/other";
    mkdir(other.c_str(), 0700);
    fresh.start(other, answer);
    int la = R.thorough ? 4 : 3;
    for (int k1 = 0; k1 < kAllKinds; k1++)
        for (int k2 = 0; k2 < kAllKinds; k2++) {
            if (!R.thorough && (k1 >= kKinds || k2 >= kKinds) && k1 != 0 && k2 != 0) continue;
            int n1 = make_subject(k1, R.scratch, "a")->nops(), n2 = make_subject(k2, R.scratch, "b")->nops();
            // the second model always does the same in turn, from every starting point
            for_all(n1, la, [&](const std::vector<int> &o1) {
                for (int from = 0; from < (R.thorough ? n2 : 1); from++) {
                    std::vector<int> o2{(from + o1[0]) % n2, (from + o1[0] + 1) % n2};
                    interleavings(R, k1, o1, k2, o2);
                }
            });
        }
    for (int kind = 0; kind < kAllKinds; kind++)
        if (has_verbosity(kind))
            for_all(make_subject(kind, R.scratch, "a")->nops(), R.thorough ? 6 : 4, [&](const std::vector<int> &ops) {
                for (int verbose : {1, 2}) verbosity(R, kind, ops, verbose);
                // the same again and again, through many rebuilds
                if (ops[3] || (ops[2] && kind != 0 && !R.thorough)) return;
                std::vector<int> many;
                for (int i = 0; i < (kind == 0 ? 240 : 24); i++) many.push_back(ops[i % 3]);
                verbosity(R, kind, many, 1);
            });
    for (int how = 0; how < 8; how++) {
        Pair p = derive(how, {}, R.scratch);
        int na = p.a->nops(), nb = p.b->nops();
        for (int len = 0; len <= (R.thorough ? 4 : 3); len++)
            for_all(na, len, [&](const std::vector<int> &before) {
                for_all(na, 2, [&](const std::vector<int> &o1) {
                    std::vector<int> o2{(o1[0] + 1) % nb, (o1[1] + 2) % nb, 0};
                    derived(R, how, before, o1, o2);
                });
            });
    }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
