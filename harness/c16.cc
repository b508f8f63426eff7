// C16: every truncation point of saved files, every point at which writing a file fails.
#include "subjects.h"

#include <sys/resource.h>

using namespace vt;

struct Saved {
    std::string name;
    std::function<void(const std::string &)> save;
    int loader;                 // 0 stream, 1 batch, 2 text stream, 3 text batch
    std::shared_ptr<void> keep;
};

static std::vector<Saved> models(const std::string &scratch, bool thorough) {
    std::vector<Saved> r;
    auto add = [&](int kind, const std::vector<int> &ops) {
        std::shared_ptr<Subject> s = make_subject(kind, scratch, "m" + std::to_string(r.size()));
        std::string n = kind_name(kind) + " after";
        for (int o : ops) {
            n += " " + s->op_name(o);
            s->op(o);
        }
        Subject *p = s.get();
        Saved e;
        e.name = n;
        e.keep = s;
        if (auto *x = dynamic_cast<BatchSubject *>(p)) {
            auto m = x->m;
            e.loader = 1;
            e.save = [m](const std::string &f) { m->save(f); };
        } else if (auto *x = dynamic_cast<StreamSubject *>(p)) {
            auto m = x->m;
            e.loader = 0;
            e.save = [m](const std::string &f) { m->save(f); };
        } else if (auto *x = dynamic_cast<TextStreamSubject *>(p)) {
            auto m = x->m;
            e.loader = 2;
            e.save = [m](const std::string &f) { m->save(f); };
        } else if (auto *x = dynamic_cast<TextBatchSubject *>(p)) {
            auto m = x->m;
            e.loader = 3;
            e.save = [m](const std::string &f) { m->save(f); };
        }
        r.push_back(e);
    };
    for (int kind = 1; kind < kKinds; kind++) {
        int n = make_subject(kind, scratch, "x")->nops();
        add(kind, {});
        add(kind, {n - 1});
        add(kind, {0, 1, n - 1});
        add(kind, {0, 1, 0, 1, 0, 1, 0, 1, n - 1, 0});
    }
    // more than one buffer of the stream
    auto big = std::make_shared<IntStreamVGram>(400, 0);
    IntSeq all;
    for (int i = 0; i < (thorough ? 600 : 250); i++) all.push_back(i * 1000003);
    big->accept(all);
    big->update_dict();
    Saved e;
    e.name = "stream model with many symbols";
    e.loader = 0;
    e.save = [big](const std::string &f) { big->save(f); };
    r.push_back(e);
    return r;
}

static void load(int loader, const std::string &path) {
    switch (loader) {
        case 0: Loader::load_int_stream_vgram(path); break;
        case 1: delete Loader::load_int_vgram(path); break;
        case 2: Loader::load_string_stream_vgram(path); break;
        case 3: delete Loader::load_string_vgram(path); break;
    }
}

static bool throws(const std::function<void()> &f) {
    try {
        f();
    } catch (const std::exception &) {
        return true;
    }
    return false;
}

struct FileLimit {
    rlimit old;
    explicit FileLimit(rlim_t n) {
        getrlimit(RLIMIT_FSIZE, &old);
        signal(SIGXFSZ, SIG_IGN);
        rlimit l = old;
        l.rlim_cur = n;
        setrlimit(RLIMIT_FSIZE, &l);
    }
    ~FileLimit() { setrlimit(RLIMIT_FSIZE, &old); }
};

static void explore(Run &R) {
    auto all = models(R.scratch, R.thorough);
    const std::string good = R.scratch + "/good.json", bad = R.scratch + "/bad.json";
    for (size_t k = 0; k < all.size(); k++) {
        const Saved &m = all[k];
        m.save(good);
        const std::string text = read_file(good);
        const size_t end = text.find_last_not_of(" \n\r\t") + 1;
        R.kase([&] { return m.name + ": whole file of " + str(text.size()) + " bytes"; }, [&] {
            m.save(good);
            CHECK_THAT(!throws([&] { load(m.loader, good); }), "the saved file cannot be loaded");
            R.state(hash_str(text));
            R.trace();
        });
        const size_t piece = 64;
        for (size_t from = 0; from < end; from += piece)
            R.kase([&] { return m.name + ": file cut off after " + str(from) + " to " + str(std::min(end, from + piece) - 1) + " bytes"; }, [&] {
                for (size_t n = from; n < std::min(end, from + piece); n++) {
                    write_file(bad, text.substr(0, n));
                    R.transition();
                    R.state(hash_str(text.substr(0, n)));
                    CHECK_THAT(throws([&] { load(m.loader, bad); }), "a file cut off after " + str(n) + " of " + str(text.size()) +
                               " bytes is loaded: ..." + text.substr(n > 60 ? n - 60 : 0, std::min<size_t>(n, 60)));
                }
                R.trace();
            });
        for (size_t from = 0; from < text.size(); from += piece)
            R.kase([&] { return m.name + ": writing fails after " + str(from) + " to " + str(std::min(text.size(), from + piece) - 1) + " bytes"; }, [&] {
                for (size_t n = from; n < std::min(text.size(), from + piece); n++) {
                    bool thrown;
                    unlink(bad.c_str());
                    {
                        FileLimit limit(n);
                        thrown = throws([&] { m.save(bad); });
                    }
                    R.transition();
                    R.state(mix(hash_str(m.name), n + 7));
                    size_t written = read_file(bad).size();
                    R.log([&] { return "room for " + str(n) + " bytes, written " + str(written) + (thrown ? " exception" : ""); });
                    CHECK_THAT(written <= n, "internal: more written than possible");
                    CHECK_THAT(thrown, "save returns though only " + str(written) + " of " + str(text.size()) + " bytes could be written");
                }
                m.save(bad);
                CHECK_THAT(read_file(bad) == text, "a save after failed ones writes another file");
                R.trace();
            });
        R.kase([&] { return m.name + ": files that cannot be opened"; }, [&] {
            mkdir((R.scratch + "/dir").c_str(), 0700);
            for (const std::string &p : {R.scratch + "/none/f.json", R.scratch + "/dir", std::string(), std::string("/dev/full")}) {
                CHECK_THAT(throws([&] { m.save(p); }), "save to \"" + p + "\" returns");
                R.transition();
            }
            for (int loader = 0; loader < 4; loader++)
                for (const std::string &p : {R.scratch + "/none.json", R.scratch + "/dir", std::string(), std::string("/dev/null")}) {
                    CHECK_THAT(throws([&] { load(loader, p); }), "load from \"" + p + "\" returns a model");
                    R.transition();
                }
            rmdir((R.scratch + "/dir").c_str());
            R.trace();
        });
    }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
