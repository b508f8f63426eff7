// C22: printing of sequences and the generic encoder.
#include "common.h"
#include "int_dict.h"
#include "list_dict.h"

using namespace vt;

static std::string expected_text(const IntSeq &s) {
    std::string r = "(";
    for (size_t i = 0; i < s.size(); i++) {
        char b[32];
        snprintf(b, sizeof b, "%d", s[i]);
        if (i) r += " ";
        r += b;
    }
    return r + ")";
}

static void check_text(Run &R, const IntSeq &s) {
    std::string e = expected_text(s);
    CHECK_THAT(to_string(s) == e, "to_string of " + str(s) + " is \"" + to_string(s) + "\"");
    std::ostringstream o;
    o << s;
    CHECK_THAT(o.str() == e, str(s) + " is printed as \"" + o.str() + "\"");
    std::ostringstream two;
    two << "x" << s << "|" << s << 5;
    CHECK_THAT(two.str() == "x" + e + "|" + e + "5", "two sequences are printed as \"" + two.str() + "\"");
    R.transition();
    R.state(hash_seq(s));
}

template<typename T>
static void encoder(Run &R, const std::string &type, const std::vector<T> &values, int depth, int longest) {
    // the menu: all inputs up to a length over the values, by index
    IntSeq idx;
    for (size_t i = 0; i < values.size(); i++) idx.push_back(int(i));
    std::vector<IntSeq> menu = all_seqs(idx, 0, longest);
    std::vector<int> h(depth, 0);
    while (true) {
        R.kase([&] {
            std::string r = "encoder of " + type + ":";
            for (int i : h) r += " " + str(menu[i]);
            return r;
        }, [&] {
            Encoder<T> e;
            std::vector<int> order;         // indices of values in order of appearance
            IntSeq out{42}, expected{42};   // appended to one output
            CHECK_THAT(e.size() == 0, "a new encoder has size " + str(e.size()));
            for (int i : h) {
                std::vector<T> in;
                IntSeq own;
                for (int k : menu[i]) {
                    in.push_back(values[k]);
                    auto it = std::find(order.begin(), order.end(), k);
                    own.push_back(int(it - order.begin()));
                    if (it == order.end()) order.push_back(k);
                }
                e.encode(in, &out);
                expected.insert(expected.end(), own.begin(), own.end());
                CHECK_THAT(out == expected, "the codes are " + str(out) + " instead of " + str(expected));
                CHECK_THAT(e.size() == int(order.size()), "the size is " + str(e.size()) + " instead of " + str(order.size()));
                IntSeq again;
                e.encode(in, &again);
                CHECK_THAT(again == own, "the codes of the same input are " + str(again) + " instead of " + str(own));
                Encoder<T> copy = e;
                IntSeq dummy;
                copy.encode(values, &dummy);
                CHECK_THAT(e.size() == int(order.size()), "encoding with a copy changes the encoder");
                R.transition();
                R.state(mix(hash_seq(IntSeq(order)), hash_str(type)));
            }
            R.trace();
        });
        int i = depth - 1;
        while (i >= 0 && h[i] + 1 == int(menu.size())) h[i--] = 0;
        if (i < 0) break;
        h[i]++;
    }
}

static void explore(Run &R) {
    const int lo = std::numeric_limits<int>::min(), hi = std::numeric_limits<int>::max();
    // sequences grouped by their first symbols
    const IntSeq symbols{0, 1, -1, 9, 10, -10, 1000000, lo, hi, 32, 40};
    const int longest = R.thorough ? 6 : 4;
    R.kase([&] { return std::string("short sequences"); }, [&] {
        for (const IntSeq &s : all_seqs(symbols, 0, 2)) check_text(R, s);
        R.trace();
    });
    for (const IntSeq &head : all_seqs(symbols, 2, 2))
        R.kase([&] { return "all sequences up to " + str(longest) + " numbers that start with " + str(head); }, [&] {
            for (const IntSeq &tail : all_seqs(symbols, 1, longest - 2)) {
                IntSeq s = head;
                s.insert(s.end(), tail.begin(), tail.end());
                check_text(R, s);
            }
            R.trace();
        });
    for (int base : {-70000, -1100, -50, 0, 990, 99990, hi - 200, lo})
        R.kase([&] { return "numbers from " + str(base); }, [&] {
            IntSeq all;
            for (int i = 0; i < 200; i++) {
                check_text(R, {base + i});
                check_text(R, {base + i, i});
                all.push_back(base + i);
                check_text(R, all);
            }
            R.trace();
        });
    R.kase([&] { return std::string("long sequence"); }, [&] {
        IntSeq s;
        for (int i = 0; i < 100000; i++) s.push_back(i * 7919 - 300000000);
        check_text(R, s);
        R.trace();
    });
    const int deeper = R.thorough ? 1 : 0;
    encoder<int>(R, "int", {0, 7, -1}, 2 + deeper, 3);
    encoder<int>(R, "int", {lo, hi, 0, 5}, 4 + deeper, 1);
    encoder<std::string>(R, "string", {"", "a", "ab"}, 2 + deeper, 3);
    encoder<char>(R, "char", {'a', '\0', '\xff'}, 2 + deeper, 3);
    encoder<long long>(R, "long long", {0, 1ll << 40, (1ll << 40) + 1}, 2 + deeper, 3);
    encoder<double>(R, "double", {0.5, 0.25, 1e300}, 2 + deeper, 3);
    encoder<bool>(R, "bool", {false, true}, 3, 3);
    for (int step : {1, -1, 65536})
        R.kase([&] { return "100000 elements, step " + str(step); }, [&] {
            Encoder<int> e;
            std::vector<int> in;
            IntSeq out, expected;
            std::unordered_map<int, int> ref;
            unsigned x = 0;
            for (int i = 0; i < 100000; i++) {
                in.push_back(int(x));
                expected.push_back(ref.insert({int(x), int(ref.size())}).first->second);
                x += unsigned(step);
                if (i % 3 == 2) x -= unsigned(step);
            }
            e.encode(in, &out);
            CHECK_THAT(out == expected, "wrong codes");
            CHECK_THAT(e.size() == int(ref.size()), "size " + str(e.size()));
            R.trace();
        });
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
