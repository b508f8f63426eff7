// C13: reading does not change a model.  Every history up to a depth is run without any observation and with observers
// inserted at every point, one kind at a time, all kinds, and each at a single point; what the model answers in the end
// and learns afterwards has to be the same.
#include "subjects.h"

using namespace vt;

static void same(const std::string &a, const std::string &b, const std::string &when) {
    if (a == b) return;
    size_t i = 0;
    while (i < a.size() && i < b.size() && a[i] == b[i]) i++;
    i = i > 60 ? i - 60 : 0;
    fail(when + ": ..." + b.substr(i, 300) + " instead of ..." + a.substr(i, 300));
}

static void history(Run &R, int kind, const std::vector<int> &ops) {
    R.kase([&] {
        auto s = make_subject(kind, R.scratch, "a");
        std::string r = kind_name(kind) + ":";
        for (int o : ops) r += " " + s->op_name(o);
        return r;
    }, [&] {
        auto base = make_subject(kind, R.scratch, "a");
        for (int o : ops) base->op(o);
        const std::string expected = base->snapshot();
        R.state(hash_str(expected));
        same(expected, base->snapshot(), "read again");
        const int n = base->nobservers(), points = int(ops.size()) + 1;
        // which: an observer, or all of them; at: a point, or all points
        for (int which = 0; which <= n; which++)
            for (int at = 0; at <= points; at++) {
                if (which == n && at < points) continue;
                if (ops.size() > 6 && at < points && at % 6) continue;
                auto s = make_subject(kind, R.scratch, "a");
                std::string when;
                for (int p = 0; p < points; p++) {
                    if (at == points || at == p)
                        for (int o = 0; o < n; o++)
                            if (which == n || which == o)
                                for (int twice = 0; twice < 2; twice++) s->observe(o);
                    if (p < int(ops.size())) s->op(ops[p]);
                    R.transition();
                }
                when = (which == n ? std::string("all observers") : s->observer_name(which)) + " called " +
                       (at == points ? std::string("after every operation") : "after operation " + str(at));
                R.log([&] { return when; });
                same(expected, s->snapshot(which == 1), when);
                R.trace();
            }
    });
}

// observations of long sequences, and very many of them, at a point of the history
static void large(Run &R, int kind, const std::vector<int> &ops, int len, int rare) {
    R.kase([&] {
        auto s = make_subject(kind, R.scratch, "a");
        std::string r = kind_name(kind) + ":";
        for (int o : ops) r += " " + s->op_name(o);
        return r + (len ? ", sequences of " + str(len) + " symbols read, unknown ones every " + str(rare)
                        : ", every observer called " + str(rare) + " times");
    }, [&] {
        auto base = make_subject(kind, R.scratch, "a");
        for (int o : ops) base->op(o);
        const std::string expected = base->snapshot();
        const int n = base->nobservers();
        for (int at = 0; at <= int(ops.size()); at++) {
            auto s = make_subject(kind, R.scratch, "a");
            for (int p = 0; p <= int(ops.size()); p++) {
                if (p == at) {
                    if (len) s->observe_long(len, rare);
                    else for (int i = 0; i < rare; i++) for (int o = 0; o < n; o++) s->observe(o);
                }
                if (p < int(ops.size())) s->op(ops[p]);
                R.transition();
            }
            R.alive();
            same(expected, s->snapshot(), "read after operation " + str(at));
            R.trace();
        }
    });
}

static void explore(Run &R) {
    for (int kind = 0; kind < kAllKinds; kind++) {
        const int n = make_subject(kind, R.scratch, "a")->nops();
        for (const std::vector<int> &ops : {std::vector<int>{0, 1}, std::vector<int>{n - 1, 0, n - 1}}) {
            if (kind && kind != 10)
                for (int len : {500, 5000, R.thorough ? 70000 : 20000})
                    for (int rare : {2, 3000, 1 << 30}) large(R, kind, ops, len, rare);
            for (int times : {200, R.thorough ? 5000 : 1100}) large(R, kind, ops, 0, times);
        }
    }
    for (int kind = 0; kind < kAllKinds; kind++) {
        int n = make_subject(kind, R.scratch, "a")->nops();
        int depth = (kind == 4 ? 4 : n == 3 ? 5 : 4) + (R.thorough ? 2 : 0);
        for (int len = 0; len <= depth; len++)
            for_all(n, len, [&](const std::vector<int> &ops) { history(R, kind, ops); });
        // longer ones, several rebuilds: two operations alternating; one operation once, at every point
        for_all(n, 2, [&](const std::vector<int> &p) {
            std::vector<int> ops;
            for (int i = 0; i < 24; i++) ops.push_back(p[i % 2]);
            history(R, kind, ops);
            if (p[0] != p[1])
                for (int at = 0; at < 16; at += R.thorough ? 1 : 3) {
                    std::vector<int> once(16, p[0]);
                    once[at] = p[1];
                    history(R, kind, once);
                }
        });
    }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
