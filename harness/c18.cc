// C18: tokenizers.  All byte strings up to a length over representative bytes, all bytes, all histories of texts and all
// small token maps to restore from.
#include "iface.h"
#include "tokenizers/char_tokenizer.h"
#include "tokenizers/word_tokenizer.h"

using namespace vt;

typedef std::vector<std::string> Strings;
typedef std::unordered_map<std::string, int> TokenMap;

static Strings ref_tokens(bool words, const std::string &s) {
    Strings r;
    if (words) {
        std::string cur;
        for (char c : s + " ") {
            if (c != ' ') cur += c;
            else if (!cur.empty()) { r.push_back(cur); cur.clear(); }
        }
        return r;
    }
    for (char c : s) {
        if (c >= 'A' && c <= 'Z') r.push_back(std::string(1, char(c - 'A' + 'a')));
        else if ((c >= 'a' && c <= 'z') || (c >= '0' && c <= '9')) r.push_back(std::string(1, c));
    }
    return r;
}

static std::string printable(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c >= 32 && c < 127 && c != '"' && c != '\\') r += char(c);
        else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
    }
    return r + "\"";
}

struct Ref {
    std::map<std::string, int> ids;     // as far as known
    bool restored = false;
};

// one text: tokens, ids, decoding
static void text(Run &R, BaseTokenizer &t, Ref &ref, bool words, const std::string &s, const std::string &when) {
    R.transition();
    Strings expected = ref_tokens(words, s), got = t.tokenize(t.normalize(s));
    R.log([&] { return when + " tokens of " + printable(s) + " -> " + str(got); });
    CHECK_THAT(got == expected, when + " the tokens of " + printable(s) + " are " + str(got) + " instead of " + str(expected));
    IntSeq ids = t.transform(s);
    CHECK_THAT(ids.size() == expected.size(), when + " " + printable(s) + " has " + str(ids.size()) + " ids");
    for (size_t i = 0; i < ids.size(); i++) {
        auto it = ref.ids.find(expected[i]);
        if (it != ref.ids.end()) {
            CHECK_THAT(it->second == ids[i], when + " token " + printable(expected[i]) + " has id " + str(ids[i]) + " instead of " + str(it->second));
            continue;
        }
        for (const auto &p : ref.ids)
            CHECK_THAT(p.second != ids[i], when + " tokens " + printable(p.first) + " and " + printable(expected[i]) + " have the same id " + str(ids[i]));
        if (!ref.restored)
            CHECK_THAT(ids[i] == int(ref.ids.size()), when + " the new token " + printable(expected[i]) + " has id " + str(ids[i]));
        ref.ids[expected[i]] = ids[i];
    }
    std::string joined;
    for (const std::string &x : expected) joined += x;
    CHECK_THAT(t.decode(ids) == joined, when + " " + printable(s) + " is decoded as " + printable(t.decode(ids)));
    // unknown ids are skipped
    int unknown = 1 << 20;
    for (const auto &p : ref.ids) if (p.second >= unknown) unknown = p.second + 1;
    IntSeq with{unknown};
    for (int i : ids) { with.push_back(i); with.push_back(unknown + 1); }
    with.push_back(std::numeric_limits<int>::min());
    CHECK_THAT(t.decode(with) == joined, when + " unknown ids are not skipped: " + printable(t.decode(with)));
    // known tokens keep their ids
    for (const auto &p : ref.ids)
        CHECK_THAT(t.decode(IntSeq{p.second}) == p.first, when + " id " + str(p.second) + " is decoded as " + printable(t.decode(IntSeq{p.second})) +
                   " instead of " + printable(p.first));
}

static void several(Run &R, BaseTokenizer &t, Ref &ref, bool words, const Strings &texts, const std::string &when) {
    std::vector<IntSeq> ids = t.transform(texts);
    CHECK_THAT(ids.size() == texts.size(), when + " number of transformed texts");
    Strings d = t.decode(ids);
    for (size_t i = 0; i < texts.size(); i++) {
        std::string joined;
        for (const std::string &x : ref_tokens(words, texts[i])) joined += x;
        CHECK_THAT(d.size() == texts.size() && d[i] == joined, when + " " + printable(texts[i]) + " in a list of texts is decoded wrongly");
    }
    for (const std::string &s : texts) text(R, t, ref, words, s, when + " (in a list)");
}

static std::unique_ptr<BaseTokenizer> make(bool words) {
    if (words) return std::unique_ptr<BaseTokenizer>(new WordTokenizer());
    return std::unique_ptr<BaseTokenizer>(new CharTokenizer());
}
static std::unique_ptr<BaseTokenizer> make(bool words, const TokenMap &m) {
    if (words) return std::unique_ptr<BaseTokenizer>(new WordTokenizer(m));
    return std::unique_ptr<BaseTokenizer>(new CharTokenizer(m));
}

static void explore(Run &R) {
    for (bool words : {false, true}) {
        const std::string name = words ? "word tokenizer" : "character tokenizer";
        // all strings over representative bytes
        const std::string bytes = words ? std::string("aA \n\xc3\0", 6) : std::string("aZ9 \xe9\0@[`{/:", 12);
        const int longest = words ? 6 + R.thorough * 2 : 4 + R.thorough;
        for (int len = 0; len <= longest; len++) {
            // grouped by the first half
            int head = len / 2;
            for_all(int(bytes.size()), head, [&](const std::vector<int> &h) {
                R.kase([&] {
                    std::string s;
                    for (int i : h) s += bytes[i];
                    return name + ": all strings of " + str(len) + " bytes that start with " + printable(s);
                }, [&] {
                    for_all(int(bytes.size()), len - head, [&](const std::vector<int> &tail) {
                        std::string s;
                        for (int i : h) s += bytes[i];
                        for (int i : tail) s += bytes[i];
                        auto t = make(words);
                        Ref ref;
                        text(R, *t, ref, words, s, "first text");
                        text(R, *t, ref, words, s, "the same text again");
                        R.state(hash_str(s, words));
                    });
                    R.trace();
                });
            });
        }
        // every byte, alone and between letters
        for (int c = 0; c < 256; c++)
            R.kase([&] { return name + ": byte " + str(c); }, [&] {
                auto t = make(words);
                Ref ref;
                for (int d = 0; d < 256; d++) {
                    text(R, *t, ref, words, std::string{char(c), char(d)}, "pairs of bytes");
                    text(R, *t, ref, words, std::string{'x', char(c), 'Y', char(d), char(c)}, "bytes between letters");
                }
                R.trace();
            });
        // histories of texts
        const Strings menu = words ? Strings{"to be", "be", "  or  to not", "", "BE be", " "} : Strings{"ab", "B-a", "", "c1a", "1Z", "?"};
        for_all(int(menu.size()), R.thorough ? 6 : 5, [&](const std::vector<int> &h) {
            R.kase([&] {
                std::string r = name + ":";
                for (int i : h) r += " " + printable(menu[i]);
                return r;
            }, [&] {
                auto t = make(words);
                Ref ref;
                Strings all;
                std::string when = "after";
                for (int i : h) {
                    text(R, *t, ref, words, menu[i], when);
                    when += " " + printable(menu[i]);
                    all.push_back(menu[i]);
                }
                several(R, *t, ref, words, all, when);
                auto fresh = make(words);
                Ref none;
                for (const IntSeq &ids : fresh->transform(all)) for (int id : ids) (void) id;
                several(R, *fresh, ref, words, all, "a tokenizer that gets the texts as a list");
                R.trace();
                R.state(hash_str(str(all), words));
            });
        });
        // restored from any map of up to three tokens to ids
        const Strings keys = words ? Strings{"to", "be", "or"} : Strings{"a", "b", "c"};
        const IntSeq ids{0, 1, 2, 3, 5, 100, -1};
        for (int n = 0; n <= 3; n++)
            for_all(int(ids.size()), n, [&](const std::vector<int> &h) {
                for (size_t i = 0; i < h.size(); i++)
                    for (size_t j = 0; j < i; j++)
                        if (h[i] == h[j]) return;
                for_all(4, 3, [&](const std::vector<int> &q) {
                    const Strings texts = words ? Strings{"not that be question", "or to", "x y z w v u", "to"}
                                                : Strings{"zbx", "ca", "uvwxyz", "a"};
                    R.kase([&] {
                        std::string r = name + " restored from";
                        for (size_t i = 0; i < h.size(); i++) r += " " + keys[i] + "=" + str(ids[h[i]]);
                        for (int i : q) r += ", " + printable(texts[i]);
                        return r;
                    }, [&] {
                        TokenMap m;
                        Ref ref;
                        ref.restored = true;
                        for (size_t i = 0; i < h.size(); i++) ref.ids[keys[i]] = m[keys[i]] = ids[h[i]];
                        auto t = make(words, m);
                        for (int i : q) text(R, *t, ref, words, texts[i], "restored tokenizer,");
                        R.trace();
                        R.state(hash_str(str(IntSeq(h)) + str(IntSeq(q)), words));
                    });
                });
            });
        // many tokens
        R.kase([&] { return name + ": long text"; }, [&] {
            auto t = make(words);
            Ref ref;
            std::string s;
            for (int i = 0; i < 3000; i++) s += words ? "w" + str(i % 500) + std::string(1 + i % 3, ' ') : std::string(1, char(i * 7));
            text(R, *t, ref, words, s, "long text");
            R.trace();
        });
        // long words and long texts
        for (int len : {127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4096, 4097, 70000})
            R.kase([&] { return name + ": words of " + str(len) + " letters"; }, [&] {
                auto t = make(words);
                Ref ref;
                const std::string a(len, 'a'), b = std::string(len - 1, 'a') + "b", spaces(len, ' ');
                text(R, *t, ref, words, a + " " + b + spaces + a + " x", "long words");
                text(R, *t, ref, words, spaces + b, "long words");
                R.trace();
            });
        // a restored tokenizer whose free numbers lie far apart
        for (int blocked : {1, 99, 100, 101, 300, 1000, 40000, 70000})
            for (int first : {-5, 0, 1, 40, blocked / 2, blocked, blocked + 1, blocked + 2})
                R.kase([&] { return name + " restored from " + str(blocked) + " tokens with ids from " + str(first); }, [&] {
                    TokenMap m;
                    Ref ref;
                    ref.restored = true;
                    for (int i = 0; i < blocked; i++) m["k" + str(i)] = first + i;
                    const Strings all = words ? Strings{"n", "k0", "o", "n2", "k7"} : Strings{"n", "0", "o", "p", "7"};
                    if (!words) m["7"] = first + blocked;
                    auto t = make(words, m);
                    std::set<int> taken;
                    for (const auto &p : m) taken.insert(p.second);
                    std::map<std::string, int> got;
                    for (int round = 0; round < 2; round++)
                        for (const std::string &w : all) {
                            IntSeq ids = t->transform(w);
                            CHECK_THAT(ids.size() == 1, "the token " + w + " has " + str(ids.size()) + " ids");
                            if (m.count(w)) CHECK_THAT(ids[0] == m[w], "the known token " + w + " has id " + str(ids[0]) + " instead of " + str(m[w]));
                            else if (got.count(w)) CHECK_THAT(ids[0] == got[w], "the token " + w + " has another id the second time");
                            else {
                                CHECK_THAT(taken.insert(ids[0]).second, "the new token " + w + " has id " + str(ids[0]) + " of another token");
                                got[w] = ids[0];
                            }
                            R.transition();
                            CHECK_THAT(t->decode(ids) == w, w + " is decoded as " + t->decode(ids));
                        }
                    for (const auto &p : m)
                        CHECK_THAT(t->decode(IntSeq{p.second}) == p.first, "id " + str(p.second) + " of " + p.first + " is decoded as " + t->decode(IntSeq{p.second}));
                    R.trace();
                    R.state(hash_str(str(int(blocked)) + " " + str(first), words));
                });
        if (words)
            for (int n : {300, 33000, 70000})
                R.kase([&] { return name + ": " + str(n) + " different words"; }, [&] {
                    auto t = make(words);
                    std::string s;
                    for (int i = 0; i < n; i++) s += "w" + str(i) + " ";
                    for (int round = 0; round < 2; round++) {
                        IntSeq ids = t->transform(s);
                        CHECK_THAT(int(ids.size()) == n, str(n) + " words have " + str(ids.size()) + " ids");
                        for (int i = 0; i < n; i++) {
                            CHECK_THAT(ids[i] == i, "word " + str(i) + " has id " + str(ids[i]));
                            CHECK_THAT(t->decode(IntSeq{i}) == "w" + str(i), "id " + str(i) + " is decoded as " + t->decode(IntSeq{i}));
                        }
                    }
                    R.transition(2 * n);
                    R.trace();
                });
    }
}

int main(int argc, char **argv) { return harness_main(argc, argv, explore); }
