// C24: the Python module.  The binding is compiled as it is with a stand-in for pybind11 (pymodule/) that keeps it as a
// table of classes and calls it as Python would.  All histories of calls up to a depth run in lock step with the C++
// classes; what is returned, saved, printed and thrown has to be the same.
#include "iface.h"
#include "bind_vgram.cc"

using namespace vt;
using pybind11::Val;
using pybind11::Vals;
using pybind11::Kwargs;

// the keyboard interrupt
static int64_t g_polls, g_interrupt_at = -1;
extern "C" int PyErr_CheckSignals() {
    if (g_polls++ != g_interrupt_at) return 0;
    verif_python_error() = true;
    return -1;
}

static int64_t g_rands;
static unsigned g_rand_state;
extern "C" int rand() noexcept {
    g_rands++;
    g_rand_state = g_rand_state * 1103515245u + 12345u;
    return int((g_rand_state >> 16) & RAND_MAX);
}
extern "C" void srand(unsigned seed) noexcept { g_rand_state = seed; }

static pybind11::module_ &the_module() {
    static pybind11::module_ *m = [] {
        auto *r = new pybind11::module_();
        verif_init_module(*r);
        return r;
    }();
    return *m;
}

// one side of the comparison: what it returned or threw, and what it printed
struct Reply {
    std::string text, printed;
    bool threw = false;
};

template<class F> static Reply reply(F f) {
    std::ostringstream buf;
    Reply r;
    auto *old = std::cout.rdbuf(buf.rdbuf());
    try {
        r.text = f();
    } catch (const pybind11::TypeError &e) {
        std::cout.rdbuf(old);
        fail(std::string("the module refuses the call: ") + e.what());
    } catch (const std::exception &) {
        r.threw = true;
    } catch (...) {
        std::cout.rdbuf(old);
        throw;
    }
    std::cout.rdbuf(old);
    r.printed = buf.str();
    return r;
}

static std::string show(const Val &v) {
    switch (v.kind) {
        case Val::None: return "None";
        case Val::Bool: return v.i ? "True" : "False";
        case Val::Int: return std::to_string(v.i);
        case Val::Float: return str(v.d);
        case Val::Str: return str(v.s);
        case Val::List: {
            std::string r = "[";
            for (size_t i = 0; i < v.l.size(); i++) r += (i ? ", " : "") + show(v.l[i]);
            return r + "]";
        }
        default: return "an object";
    }
}

struct Py {
    const pybind11::detail::ClassRec *c;
    std::string cls;
    Val self;
    explicit Py(const std::string &name) : cls(name) {
        auto it = the_module().classes.find(name);
        if (it == the_module().classes.end()) fail("the module has no class " + name);
        c = &it->second;
    }
    static Py make(const std::string &name, const Vals &pos, const Kwargs &named = {}) {
        Py p(name);
        p.self = pybind11::detail::invoke(name, p.c->constructors, nullptr, pos, named);
        return p;
    }
    static Py load(const std::string &name, const std::string &file) {
        Py p(name);
        auto it = p.c->statics.find("load");
        if (it == p.c->statics.end()) fail(name + " has no static method load");
        p.self = pybind11::detail::invoke(name + ".load", it->second, nullptr, {Val(file)}, {});
        CHECK_THAT(p.self.kind == Val::Obj && p.self.type == p.c->type, name + ".load returns " + show(p.self));
        return p;
    }
    Val call(const std::string &method, const Vals &pos = {}, const Kwargs &named = {}) const {
        auto it = c->methods.find(method);
        if (it == c->methods.end()) fail(cls + " has no method " + method);
        return pybind11::detail::invoke(cls + "." + method, it->second, &self, pos, named);
    }
    bool is_self(const Val &v) const { return v.kind == Val::Obj && v.p.get() == self.p.get(); }
};

// an integer batch model that can be interrupted
class Twin : public IntVGram {
public:
    using IntVGram::IntVGram;
    mutable int64_t polls = 0;
    int64_t at = -1;
protected:
    bool isTerminated() const override { return polls++ == at; }
};

static const std::vector<std::string> kTexts{"Aba bab", "b-a-a c", "", "cAb cc"};
static const Seqs kSeqs{{10, 20, 10, 20, 10, 20}, {20, 10, 10, 30}, {}, {30, 10, 20, 30, 30}};

struct Config {
    std::string cls;
    Vals pos;
    Kwargs named;
    int size, iters, verbose;
    bool split, words, iters_given;
    std::string text() const {
        std::string r = cls + "(";
        for (const Val &v : pos) r += show(v) + ", ";
        for (const auto &p : named) r += p.first + "=" + show(p.second) + ", ";
        return r + ")";
    }
    bool text_model() const { return cls == "StreamVGram" || cls == "VGram"; }
    bool batch() const { return cls == "VGram" || cls == "IntVGram"; }
};

// the C++ objects
struct Cpp {
    std::shared_ptr<IntStreamVGram> is;
    std::shared_ptr<StringStreamVGram> ss;
    std::shared_ptr<Twin> iv;
    std::shared_ptr<IntVGram> ivl;              // loaded
    std::shared_ptr<StringVGram> sv;
    explicit Cpp(const Config &c, int iters) {
        if (c.cls == "IntStreamVGram") is = std::make_shared<IntStreamVGram>(c.size, c.verbose);
        else if (c.cls == "StreamVGram") ss = std::make_shared<StringStreamVGram>(c.size, c.verbose, c.split, c.words);
        else if (c.cls == "IntVGram") iv = std::make_shared<Twin>(c.size, iters, c.verbose);
        else sv = std::make_shared<StringVGram>(c.size, iters, c.verbose);
    }
    Cpp(const std::string &cls, const std::string &file) {
        if (cls == "IntStreamVGram") is = Loader::load_int_stream_vgram(file);
        else if (cls == "StreamVGram") ss = Loader::load_string_stream_vgram(file);
        else if (cls == "IntVGram") ivl.reset(Loader::load_int_vgram(file));
        else sv.reset(Loader::load_string_vgram(file));
    }
    IntVGram *batch() const { return iv ? static_cast<IntVGram *>(iv.get()) : ivl.get(); }
};

struct Pair {
    Run &R;
    const Config &cfg;
    Py py;
    Cpp cpp;
    std::string when;
    bool quiet;

    Pair(Run &r, const Config &c, Py p, Cpp x, bool silent) : R(r), cfg(c), py(std::move(p)), cpp(std::move(x)), quiet(silent) {}

    template<class F, class G> void both(const std::string &what, F f, G g, bool may_throw = false) {
        when += " " + what;
        R.transition();
        g_rand_state = 7;
        Reply a = reply(f);
        g_rand_state = 7;
        Reply b = reply(g);
        R.log([&] { return what + " -> " + (a.threw ? std::string("exception") : a.text); });
        CHECK_THAT(a.threw == b.threw, cfg.text() + when + (a.threw ? " throws" : " does not throw") + ", the C++ model " +
                   (b.threw ? "does" : "does not"));
        CHECK_THAT(may_throw || !b.threw, cfg.text() + when + " throws");
        CHECK_THAT(a.text == b.text, cfg.text() + when + " gives " + a.text + ", the C++ model " + b.text);
        CHECK_THAT(a.printed == b.printed, cfg.text() + when + " prints " + str(a.printed) + ", the C++ model " + str(b.printed));
        CHECK_THAT(!quiet || a.printed.empty(), cfg.text() + when + " prints " + str(a.printed));
    }
    void learn(int op, bool extra, int64_t interrupt = -1) {
        if (!cfg.batch()) {
            if (op == 3) {
                both("update()", [&] { return show(py.call("update")); },
                     [&] { if (cpp.is) cpp.is->update_dict(); else cpp.ss->update_dict(); return std::string("None"); });
            } else if (cpp.is) {
                IntSeq s;
                for (int i = 0; i < 60; i++) s.insert(s.end(), kSeqs[op == 2 ? 3 : op].begin(), kSeqs[op == 2 ? 3 : op].end());
                both("accept" + str(op), [&] { return show(py.call("accept", {Val(s)})); },
                     [&] { cpp.is->accept(s); return std::string("None"); });
            } else {
                std::string s;
                for (int i = 0; i < 60; i++) s += kTexts[op == 2 ? 3 : op] + " ";
                both("accept" + str(op), [&] { return show(py.call("accept", {Val(s)})); },
                     [&] { cpp.ss->accept(s); return std::string("None"); });
            }
            return;
        }
        Vals more;
        if (extra) more = {Val(), Val(IntSeq{1, 0})};
        if (cfg.cls == "VGram") {
            std::vector<std::string> x(op == 2 ? std::vector<std::string>() : kTexts);
            if (op == 1) {
                x.assign(3, "");
                for (int i = 0; i < 200; i++) x[0] += "zab ", x[1] += "aab zab", x[2] += "zab bc";
            }
            Vals a{Val(x)};
            a.insert(a.end(), more.begin(), more.end());
            both("fit" + str(op), [&] { return py.is_self(py.call("fit", a)) ? std::string("self") : std::string("something else"); },
                 [&] { return cpp.sv->fit(x) == cpp.sv.get() ? std::string("self") : std::string("something else"); });
        } else {
            Seqs x(op == 2 ? Seqs() : kSeqs);
            if (op == 1) {
                x.assign(2, IntSeq());
                for (int i = 0; i < 150; i++)
                    for (int k = 0; k < 5; k++) x[0].push_back(k ? k % 2 ? 10 : 20 : 50), x[1].push_back(k < 3 ? 20 : 50 - 40 * (i % 2));
            }
            Vals a{Val(x)};
            a.insert(a.end(), more.begin(), more.end());
            g_polls = 0;
            g_interrupt_at = interrupt;
            if (cpp.iv) cpp.iv->polls = 0, cpp.iv->at = interrupt;
            both("fit" + str(op), [&] {
                Val v;
                // with the error set, Python gets an exception also where None is returned
                try { v = py.call("fit", a); } catch (const pybind11::error_already_set &) { if (g_polls <= interrupt) throw; }
                PyErr_Clear();
                return py.is_self(v) ? std::string("self") : show(v);
            }, [&] {
                IntVGram *r = cpp.batch()->fit(x);
                return r == nullptr ? std::string("None") : r == cpp.batch() ? std::string("self") : std::string("an object");
            });
            if (cpp.iv) CHECK_THAT(g_polls == cpp.iv->polls || interrupt >= 0, cfg.text() + when + ": keyboard interrupts are asked for " +
                                   std::to_string(g_polls) + " times, the C++ model asks " + std::to_string(cpp.iv->polls) + " times");
            g_interrupt_at = -1;
            if (cpp.iv) cpp.iv->at = -1;
        }
    }
    void read(const std::string &file, bool extra) {
        Vals more;
        if (extra) more = {Val("ignored")};
        both("freqs()", [&] { return show(py.call("freqs")); },
             [&] { return show(Val(cpp.is ? cpp.is->freqs() : cpp.ss ? cpp.ss->freqs() : cpp.sv ? cpp.sv->freqs() : cpp.batch()->freqs())); });
        if (cpp.is || cpp.batch())
            both("alphabet()", [&] { return show(py.call("alphabet")); },
                 [&] { return show(Val(cpp.is ? cpp.is->alphabet() : cpp.batch()->alphabet())); });
        else
            both("alphabet()", [&] { return show(py.call("alphabet")); },
                 [&] { return show(Val(cpp.ss ? cpp.ss->alphabet() : cpp.sv->alphabet())); });
        if (cpp.is)
            for (const IntSeq &s : Seqs{{10, 20, 10, 20, 30, 7}, {}, {20, 10, 10, 30, 30, 10, 20, 30}})
                both("parse" + str(s), [&] { return show(py.call("parse", {Val(s)})); }, [&] { return show(Val(cpp.is->parse(s))); });
        if (cpp.ss)
            for (const std::string &s : {std::string("Abab c"), std::string(), std::string("aba bab b-a-a cab")})
                both("parse " + str(s), [&] { return show(py.call("parse", {Val(s)})); }, [&] { return show(Val(cpp.ss->parse(s))); });
        if (cpp.batch()) {
            const Seqs x{{10, 20, 10, 20, 30, 7}, {}, {20, 10, 10, 30, 30, 10, 20, 30}};
            Vals a{Val(x)};
            a.insert(a.end(), more.begin(), more.end());
            both("transform", [&] { return show(py.call("transform", a)); }, [&] { return show(Val(cpp.batch()->transform_to_string(x))); });
        }
        if (cpp.sv) {
            const std::vector<std::string> x{"Abab c", "", "aba bab b-a-a cab"};
            Vals a{Val(x)};
            a.insert(a.end(), more.begin(), more.end());
            both("transform", [&] { return show(py.call("transform", a)); }, [&] { return show(Val(cpp.sv->transform(x))); });
        }
        save(file, extra);
    }
    void cpp_save(const std::string &file) {
        if (cpp.is) cpp.is->save(file);
        else if (cpp.ss) cpp.ss->save(file);
        else if (cpp.sv) cpp.sv->save(file);
        else cpp.batch()->save(file);
    }
    void save(const std::string &file, bool named) {
        auto content = [&](const std::string &f) {
            std::ifstream in(f);
            json j;
            in >> j;
            return j.dump();
        };
        both("save", [&] {
            if (named) py.call("save", {}, {{"filename", Val(file)}});
            else py.call("save", {Val(file)});
            std::string r = content(file);
            remove(file.c_str());
            return r;
        }, [&] {
            cpp_save(file);
            return content(file);
        });
        const std::string bad = R.scratch + "/missing/x.json";
        both("save to a missing folder", [&] { return show(py.call("save", {Val(bad)})); },
             [&] { cpp_save(bad); return std::string("None"); }, true);
    }
};

// how often the module's model without given iterations goes over the texts
static int iterations(const Config &c) {
    if (!c.batch() || c.iters_given) return c.iters;
    Py p = Py::make(c.cls, c.pos, c.named);
    g_rands = 0;
    reply([&] { return show(p.call("fit", {c.cls == "VGram" ? Val(std::vector<std::string>{"ab"}) : Val(Seqs{{1, 2}})})); });
    CHECK_THAT(g_rands > 0, c.text() + " does not go over the texts");
    return int(g_rands);
}

static void history(Run &R, const Config &c, const std::vector<int> &ops, int64_t interrupt, bool long_way) {
    R.kase([&] {
        std::string r = c.text() + (c.batch() ? " fits" : " learns");
        for (int o : ops) r += " " + str(o);
        return r + (interrupt >= 0 ? ", interrupted at poll " + std::to_string(interrupt) : std::string());
    }, [&] {
        g_interrupt_at = -1;
        const std::string file = R.scratch + "/py.json";
        Pair p(R, c, Py::make(c.cls, c.pos, c.named), Cpp(c, iterations(c)), c.verbose == 0);
        R.alive();
        if (!long_way) p.read(file, false);
        for (size_t i = 0; i < ops.size(); i++) {
            p.learn(ops[i], (i + ops.size()) % 2 == 0, i ? -1 : interrupt);
            if (!long_way || i % 8 == 0) p.read(file, i % 2 == 0);
        }
        p.read(file, true);
        R.state(hash_str(p.py.cls + show(p.py.call("freqs")) + show(p.py.call("alphabet"))));
        // loaded
        p.cpp_save(file);
        Pair q(R, c, Py::load(c.cls, file), Cpp(c.cls, file), false);
        q.when = p.when + " loaded:";
        q.read(file + "2", false);
        for (int o : ops) q.learn(o, o % 2 == 0);
        q.read(file + "2", true);
        R.trace();
    });
}

static void explore(Run &R) {
    std::vector<Config> cs;
    for (const std::string &cls : {"IntStreamVGram", "StreamVGram", "IntVGram", "VGram"}) {
        const bool batch = cls == "IntVGram" || cls == "VGram", text = cls == "StreamVGram";
        cs.push_back({cls, {}, {}, 10000, 1, 0, false, false, false});
        cs.push_back({cls, {Val(7)}, {}, 7, 1, 0, false, false, false});
        for (int size : {0, 5, 30})
            for (int verbose : {0, 1}) {
                if (batch)
                    for (int iters : {0, 1, 3}) {
                        cs.push_back({cls, {Val(size), Val(iters), Val(verbose)}, {}, size, iters, verbose, false, false, true});
                        cs.push_back({cls, {}, {{"verbose", Val(verbose)}, {"iter_num", Val(iters)}, {"size", Val(size)}}, size, iters, verbose,
                                      false, false, true});
                        if (verbose == 0) cs.push_back({cls, {Val(size)}, {{"iter_num", Val(iters)}}, size, iters, 0, false, false, true});
                        if (verbose == 0) cs.push_back({cls, {Val(size), Val(iters)}, {}, size, iters, 0, false, false, true});
                    }
                else {
                    cs.push_back({cls, {Val(size), Val(verbose)}, {}, size, 0, verbose, false, false, true});
                    cs.push_back({cls, {}, {{"verbose", Val(verbose)}, {"size", Val(size)}}, size, 0, verbose, false, false, true});
                    if (text)
                        for (int mode = 0; mode < 3; mode++) {
                            cs.push_back({cls, {Val(size), Val(verbose), Val(mode == 1), Val(mode == 2)}, {}, size, 0, verbose, mode == 1, mode == 2, true});
                            cs.push_back({cls, {Val(size)}, {{"verbose", Val(verbose)}, {"inner_words_split", Val(mode == 1)}, {"words_are_tokens", Val(mode == 2)}},
                                          size, 0, verbose, mode == 1, mode == 2, true});
                        }
                }
            }
    }
    for (const Config &c : cs) {
        const int n = c.batch() ? 3 : 4, depth = (c.batch() ? 2 : 3) + (R.thorough ? 1 : 0);
        for (int len = 0; len <= depth; len++)
            for_all(n, len, [&](const std::vector<int> &ops) { history(R, c, ops, -1, false); });
        if (!c.batch())
            for_all(n, 3, [&](const std::vector<int> &p) {
                std::vector<int> ops;
                for (int i = 0; i < 30; i++) ops.push_back(p[i % 3]);
                history(R, c, ops, -1, true);
            });
        // a keyboard interrupt at any poll of the first fit, then everything else
        if (c.cls == "IntVGram" && c.iters_given)
            for (int64_t at = 0; at < (c.iters + 1) * int64_t(kSeqs.size()) + 1; at++)
                for (int next = 0; next < 3; next++) history(R, c, {0, next}, at, false);
    }
    // both word modes at once are refused, as are missing and damaged files
    R.kase([&] { return "both word modes at once"; }, [&] {
        bool threw = false;
        try { Py::make("StreamVGram", {Val(5), Val(0), Val(true), Val(true)}); }
        catch (const pybind11::TypeError &e) { fail(e.what()); }
        catch (const std::invalid_argument &) { threw = true; }
        CHECK_THAT(threw, "StreamVGram(5, 0, True, True) is accepted");
    });
    for (const std::string &cls : {"IntStreamVGram", "StreamVGram", "IntVGram", "VGram"})
        for (const std::string &text : {"", "{", "{\"size\": 5}", "[1, 2"})
            R.kase([&] { return cls + ".load of " + (text.empty() ? std::string("a missing file") : text); }, [&] {
                const std::string file = R.scratch + "/bad.json";
                remove(file.c_str());
                if (!text.empty()) write_file(file, text);
                bool threw = false, expected = text.empty();
                try { Cpp(cls, file); }
                catch (const std::exception &) { expected = true; }
                try { Py::load(cls, file); }
                catch (const pybind11::TypeError &e) { fail(e.what()); }
                catch (const std::exception &) { threw = true; }
                CHECK_THAT(threw == expected, cls + ".load " + (threw ? "throws" : "returns a model"));
            });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
