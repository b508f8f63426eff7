// C17: SeqCoder.  All histories of encode / encode_immutable / decode up to a depth against a list of symbols.
#include "iface.h"
#include "seq_coder.h"

using namespace vt;

static void check_all(const SeqCoder &c, const IntSeq &ref, const IntSeq &universe, const std::string &when) {
    auto m = c.code_map();
    CHECK_THAT(m.size() == ref.size(), when + " there are " + str(m.size()) + " codes instead of " + str(ref.size()));
    for (size_t i = 0; i < ref.size(); i++) {
        auto it = m.find(ref[i]);
        CHECK_THAT(it != m.end() && it->second == int(i), when + " symbol " + str(ref[i]) + " does not have code " + str(int(i)));
        CHECK_THAT(c.decode({int(i)}) == IntSeq{ref[i]}, when + " code " + str(int(i)) + " is not decoded to " + str(ref[i]));
    }
    for (int bad : {int(ref.size()), -1, int(ref.size()) + 1, 1 << 30, std::numeric_limits<int>::min()}) {
        bool thrown = false;
        try {
            c.decode(ref.empty() ? IntSeq{bad} : IntSeq{0, bad, 0});
        } catch (const std::exception &) {
            thrown = true;
        }
        CHECK_THAT(thrown, when + " decoding the unknown code " + str(bad) + " does not throw");
    }
    IntSeq known, codes;
    for (int x : universe) {
        auto it = std::find(ref.begin(), ref.end(), x);
        if (it == ref.end()) continue;
        known.push_back(x);
        codes.push_back(int(it - ref.begin()));
    }
    CHECK_THAT(c.encode_immutable(universe) == codes, when + " encode_immutable of " + str(universe) + " gives " +
               str(c.encode_immutable(universe)) + " instead of " + str(codes));
    CHECK_THAT(c.decode(codes) == known, when + " decode of " + str(codes) + " is wrong");
}

static void histories(Run &R, const IntSeq &universe, const Seqs &menu, int depth) {
    for_all(int(menu.size()) * 2, depth, [&](const std::vector<int> &ops) {
        R.kase([&] {
            std::string t = "coder:";
            for (int o : ops) t += (o % 2 ? " encode_immutable" : " encode") + str(menu[o / 2]);
            return t;
        }, [&] {
            SeqCoder c;
            IntSeq ref;
            check_all(c, ref, universe, "at the start");
            std::string when = "after";
            for (int o : ops) {
                const IntSeq &s = menu[o / 2];
                R.transition();
                IntSeq expected, got;
                if (o % 2 == 0) {
                    for (int x : s) {
                        auto it = std::find(ref.begin(), ref.end(), x);
                        expected.push_back(int(it - ref.begin()));
                        if (it == ref.end()) ref.push_back(x);
                    }
                    got = c.encode(s);
                    when += " encode" + str(s);
                    CHECK_THAT(c.decode(got) == s, when + " decoding gives " + str(c.decode(got)));
                } else {
                    for (int x : s) {
                        auto it = std::find(ref.begin(), ref.end(), x);
                        if (it != ref.end()) expected.push_back(int(it - ref.begin()));
                    }
                    got = c.encode_immutable(s);
                    when += " encode_immutable" + str(s);
                }
                R.log([&] { return when + " -> " + str(got); });
                CHECK_THAT(got == expected, when + " gives " + str(got) + " instead of " + str(expected));
                check_all(c, ref, universe, when);
                SeqCoder copy(c);
                IntSeq before = ref;
                copy.encode({123456, 7});
                check_all(c, before, universe, when + " and encoding with a copy");
                R.state(hash_seq(ref));
            }
            R.trace();
        });
    });
}

static void explore(Run &R) {
    const int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
    // all sequences up to length 3 as operations
    histories(R, {0, 1, -1, 5}, all_seqs({0, 1, -1}, 0, 3), 2);
    histories(R, {7, 0, 7, 99}, all_seqs({7, 0}, 0, 3), R.thorough ? 4 : 3);
    histories(R, {0, 1, 2, 3, 4, 5, 9}, {{0}, {1, 0}, {3, 3, 2}, {5, 4, 1}, {}}, R.thorough ? 6 : 4);
    histories(R, {lo, hi, 0, -1, 65536}, {{lo}, {hi, lo}, {0, -1}, {65536, 65537, 131072}, {hi - 1, lo + 1}}, R.thorough ? 6 : 4);
    // many symbols
    for (int step : {1, -1, 65536, 7919, -1000003})
        R.kase([&] { return "300000 symbols with step " + str(step); }, [&] {
            SeqCoder c;
            IntSeq s;
            unsigned x = 3;
            for (int i = 0; i < 300000; i++) {
                s.push_back(int(x));
                x += unsigned(step);
            }
            IntSeq firsts, codes = c.encode(s);
            std::unordered_map<int, int> ref;
            for (size_t i = 0; i < s.size(); i++) {
                int expected = ref.insert({s[i], int(ref.size())}).first->second;
                CHECK_THAT(codes[i] == expected, "the code of symbol " + str(s[i]) + " is " + str(codes[i]) + " instead of " + str(expected));
            }
            CHECK_THAT(c.encode(s) == codes, "codes change");
            CHECK_THAT(c.encode_immutable(s) == codes, "codes change");
            CHECK_THAT(c.decode(codes) == s, "decoding is wrong");
            CHECK_THAT(c.code_map().size() == ref.size(), "number of codes");
            R.trace();
        });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
