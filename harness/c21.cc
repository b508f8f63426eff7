// C21: interruption of fit and transform at every poll of the interruption hook, followed by every continuation.
#include "batch.h"

using namespace vt;

extern "C" int rand() noexcept {
    RandScript &s = rand_script();
    size_t i = s.calls++;
    return s.values.empty() ? 0 : s.values[i % s.values.size()];
}

class Interrupted : public IntVGram {
public:
    using IntVGram::IntVGram;
    mutable int64_t polls = 0;
    mutable bool fired = false;
    int64_t at = -1;            // the poll that reports the interruption
    bool sticky = false;        // and all later ones
    void arm(int64_t k, bool stay) {
        polls = 0;
        fired = false;
        at = k;
        sticky = stay;
    }
protected:
    bool isTerminated() const override {
        int64_t i = polls++;
        bool stop = at >= 0 && (i == at || (sticky && i > at));
        fired |= stop;
        return stop;
    }
};

// usable: listed, parsed, saved; returns the listing
static std::string usable(Run &R, Interrupted &m, const std::string &when) {
    m.arm(-1, false);
    Seqs alpha = m.alphabet();
    IntSeq freqs = m.freqs();
    CHECK_THAT(alpha.size() == freqs.size(), when + " there are " + str(freqs.size()) + " frequencies for " + str(alpha));
    Seqs probes{{}, {10, 20, 10, 20, 20}, {77, 30, 10}, {30, 40, 20, 30}};
    for (const IntSeq &e : alpha) if (e.size() > 1 && probes.size() < 30) probes.push_back(e);
    check_transform(m, probes, when);
    std::string path = R.scratch + "/interrupted.json";
    m.save(path);
    std::unique_ptr<IntVGram> l(Loader::load_int_vgram(path));
    CHECK_THAT(l->alphabet() == alpha && l->freqs() == freqs, when + " the model is not saved faithfully");
    CHECK_THAT(l->transform(probes) == m.transform(probes), when + " the saved model codes differently");
    return show_all(alpha, freqs);
}

struct Job {
    int size, iters;
    Seqs train;
    std::vector<int> choices;
    std::string name() const {
        return "size " + str(size) + ", " + str(iters) + " iterations, texts " + (total_size(train) < 60 ? str(train) : str(train.size()) + " of about " +
               str(train[0].size()) + " symbols") + ", chosen " + str(IntSeq(choices));
    }
};

static void fit_to_end(Interrupted &m, const Seqs &train, const std::string &when) {
    m.arm(-1, false);
    CHECK_THAT(m.fit(train) == &m, when + ", then an uninterrupted fit does not return the model");
    check_fitted(m, train, when + ", then an uninterrupted fit:");
    std::string now = show_all(m.alphabet(), m.freqs());
    m.fit({{10, 10}});
    CHECK_THAT(show_all(m.alphabet(), m.freqs()) == now, when + ", then an uninterrupted fit: fitting again changes the model");
}

static void interrupted_fit(Run &R, Interrupted &m, const Job &j, int64_t k, bool sticky, std::string *when, bool *fired) {
    script_choices(j.choices, int(j.train.size()));
    m.arm(k, sticky);
    IntVGram *res = m.fit(j.train);
    R.transition();
    *fired = m.fired;
    int64_t polls = m.polls;
    *when += "fit interrupted at poll " + str(int(k));
    CHECK_THAT((res == nullptr) == m.fired, *when + (m.fired ? " returns a model" : " returns null without an interruption"));
    if (!m.fired) return;
    (void) polls;
    usable(R, m, *when);
    // a saved model does not claim more than it has
    std::unique_ptr<IntVGram> l(Loader::load_int_vgram(R.scratch + "/interrupted.json"));
    CHECK_THAT(l->fit(j.train) == l.get(), *when + ", saved and loaded: fit does not return the model");
    check_fitted(*l, j.train, *when + ", saved, loaded and fitted:");
}

static void fit_jobs(Run &R, const Job &j, int stride) {
    // an uninterrupted fit polls this often
    Interrupted probe(j.size, j.iters, 0);
    script_choices(j.choices, int(j.train.size()));
    probe.arm(-1, false);
    probe.fit(j.train);
    int64_t polls = probe.polls;
    R.kase([&] { return j.name() + ": the hook is polled"; }, [&] {
        // sampled and counted texts: at least one poll per pass
        int64_t passes = j.train.empty() ? 0 : j.iters + 1;
        CHECK_THAT(polls >= passes, "fit polls the interruption hook only " + std::to_string(polls) + " times");
        R.trace();
    });
    for (int64_t k = 0; k < polls; k += stride)
        for (int menu = 0; menu < 7; menu++)
            for (bool sticky : {false, true})
                R.kase([&] { return j.name() + ": interrupted at poll " + std::to_string(k) + " of " + std::to_string(polls) + (sticky ? " and later," : ",") +
                                    " continuation " + str(menu); }, [&] {
                    Interrupted m(j.size, j.iters, 0);
                    std::string when;
                    bool fired;
                    interrupted_fit(R, m, j, k, sticky, &when, &fired);
                    CHECK_THAT(fired, "internal: the hook was not polled often enough");
                    std::string shown = usable(R, m, when);
                    R.log([&] { return when + " -> " + shown; });
                    switch (menu) {
                        case 0: fit_to_end(m, j.train, when); break;
                        case 1: {                       // interrupted again, everywhere
                            for (int64_t q = 0; q < polls + 2; q += stride) {
                                Interrupted again(j.size, j.iters, 0);
                                std::string w;
                                bool f1, f2;
                                interrupted_fit(R, again, j, k, sticky, &w, &f1);
                                w += ", then ";
                                interrupted_fit(R, again, j, q, sticky, &w, &f2);
                                fit_to_end(again, j.train, w);
                            }
                            break;
                        }
                        case 2: m.update_dict(); usable(R, m, when + ", then update_dict"); fit_to_end(m, j.train, when + ", then update_dict"); break;
                        case 3:
                            m.accept({20, 10, 20, 50});
                            usable(R, m, when + ", then accept");
                            fit_to_end(m, j.train, when + ", then accept");
                            break;
                        case 4: fit_to_end(m, {{20, 20, 60}, {10, 30, 10}}, when + ", then other texts"); break;
                        case 5: {                       // as a part of a text model
                            auto sub = std::make_shared<Interrupted>(j.size, j.iters, 0);
                            StringVGram t(sub, std::make_shared<CharTokenizer>());
                            std::vector<std::string> texts;
                            for (const IntSeq &s : j.train) {
                                std::string x;
                                for (int c : s) x += char('a' + c / 10);
                                texts.push_back(x);
                            }
                            script_choices(j.choices, int(j.train.size()));
                            sub->arm(k, sticky);
                            t.fit(texts);
                            sub->arm(-1, false);
                            CHECK_THAT(t.alphabet().size() == t.freqs().size(), when + " (text model): frequencies and alphabet differ");
                            CHECK_THAT(t.transform({"abc", ""}).size() == 2, when + " (text model): transform");
                            t.save(R.scratch + "/text.json");
                            delete Loader::load_string_vgram(R.scratch + "/text.json");
                            t.fit(texts);
                            int64_t total = 0;
                            std::vector<std::string> alpha = t.alphabet();
                            IntSeq freqs = t.freqs();
                            for (size_t i = 0; i < alpha.size(); i++) total += int64_t(alpha[i].size()) * freqs[i];
                            CHECK_THAT(total == int64_t(total_size(j.train)), when + " (text model), then fitted: the frequencies weighted by lengths sum up to " +
                                       std::to_string(total));
                            break;
                        }
                        case 6: {                       // saved, loaded, interrupted, loaded
                            const std::string path = R.scratch + "/again.json";
                            m.save(path);
                            std::unique_ptr<IntVGram> l(Loader::load_int_vgram(path));
                            l->save(R.scratch + "/interrupted.json");
                            std::unique_ptr<IntVGram> l2(Loader::load_int_vgram(R.scratch + "/interrupted.json"));
                            CHECK_THAT(l2->fit(j.train) == l2.get(), when + ", saved twice: fit does not return the model");
                            check_fitted(*l2, j.train, when + ", saved and loaded twice, then fitted:");
                            break;
                        }
                    }
                    R.trace();
                    R.state(hash_str(shown, mix(hash_str(j.name()), uint64_t(k) * 20 + menu * 2 + sticky)));
                });
}

static void transforms(Run &R, int size, int iters, const Seqs &train, const Seqs &texts) {
    for (int64_t k = -1; k <= int64_t(3 * texts.size()) + 1; k++)
        for (bool sticky : {false, true})
            R.kase([&] { return "size " + str(size) + ", transform of " + str(texts) + " interrupted at poll " + std::to_string(k) + (sticky ? " and later" : ""); }, [&] {
                Interrupted m(size, iters, 0);
                script_choices({0, 1}, int(train.size()));
                m.arm(-1, false);
                m.fit(train);
                Seqs full = m.transform(texts);
                std::vector<std::string> full_lines = m.transform_to_string(texts);
                CHECK_THAT(full.size() == texts.size() && full_lines.size() == texts.size(), "an uninterrupted transform is not complete");
                std::string before = show_all(m.alphabet(), m.freqs());
                m.arm(k, sticky);
                Seqs part = m.transform(texts);
                bool fired = m.fired;
                m.arm(k, sticky);
                std::vector<std::string> lines = m.transform_to_string(texts);
                bool fired_lines = m.fired;
                m.arm(-1, false);
                R.transition(2);
                R.log([&] { return "transformed " + str(part.size()) + " and " + str(lines.size()) + " of " + str(texts.size()); });
                CHECK_THAT(part.size() <= full.size() && std::equal(part.begin(), part.end(), full.begin()),
                           "an interrupted transform returns " + str(part) + ", no prefix of " + str(full));
                CHECK_THAT(lines.size() <= full_lines.size() && std::equal(lines.begin(), lines.end(), full_lines.begin()),
                           "an interrupted transform_to_string returns " + str(lines) + ", no prefix of " + str(full_lines));
                CHECK_THAT(fired || part == full, "a transform that was not interrupted is not complete");
                CHECK_THAT(fired_lines || lines == full_lines, "a transform_to_string that was not interrupted is not complete");
                CHECK_THAT(show_all(m.alphabet(), m.freqs()) == before, "an interrupted transform changes the model");
                CHECK_THAT(m.transform(texts) == full && m.transform_to_string(texts) == full_lines, "after an interruption transform gives another result");
                check_fitted(m, train, "after an interrupted transform");
                R.trace();
                R.state(hash_str(str(part) + str(lines)));
            });
}

static IntSeq repeat(const IntSeq &s, size_t n) {
    IntSeq r;
    while (!s.empty() && r.size() < n) r.push_back(s[r.size() % s.size()]);
    return r;
}

static void explore(Run &R) {
    const Seqs pool{{10, 20}, {}, {20, 20, 10}, {30, 10, 30}};
    for (int n = 0; n <= 3; n++)
        for_all(int(pool.size()), n, [&](const std::vector<int> &pick) {
            Seqs train;
            for (int i : pick) train.push_back(pool[i]);
            for (int iters : {0, 1, 2}) {
                int draws = std::max(1, std::min(n * iters, R.thorough ? 3 : n == 3 ? 1 : 2));
                for_all(std::max(1, n), draws, [&](const std::vector<int> &c) { fit_jobs(R, {4, iters, train, c}, 1); });
            }
        });
    const Seqs base{{10, 20, 10, 20, 30}, {20, 10, 10, 30}, {30, 10, 30, 10, 20, 20}};
    for (int n : {1, 2, 3})
        for (size_t len : {500, 200, 1300})
            for (int size : {4, 0, 10})
                for (int iters : {1, 2, 3}) {
                    if (!R.thorough && (len != 500 || size != 4)) continue;
                    Seqs train;
                    for (int i = 0; i < n; i++) train.push_back(repeat(base[i], len + 37 * i));
                    for (const std::vector<int> &c : {std::vector<int>{0}, std::vector<int>{n - 1, 0, n / 2}}) fit_jobs(R, {size, iters, train, c}, 1);
                }
    // many texts
    for (int n : {4, 5, 9, 40})
        for (size_t len : {2, 60, 400}) {
            if (n == 40 && len == 400 && !R.thorough) continue;
            Seqs train;
            for (int i = 0; i < n; i++) train.push_back(repeat(base[i % 3], i % 4 == 3 ? 0 : len + i));
            const int stride = R.thorough || n < 10 ? 1 : 7;
            for (int size : {0, 6}) fit_jobs(R, {size, 2, train, {n - 1, 0, n / 2}}, stride);
        }
    for (int size : {0, 4, 10})
        for (size_t len : {3, 700}) {
            Seqs train;
            for (int i = 0; i < 3; i++) train.push_back(repeat(base[i], len));
            for (int n = 0; n <= 3; n++)
                for_all(4, n, [&](const std::vector<int> &pick) {
                    Seqs texts;
                    for (int i : pick) texts.push_back(Seqs{{10, 20, 10, 20}, {}, {77}, {30, 30, 10}}[i]);
                    transforms(R, size, 2, train, texts);
                });
        }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
