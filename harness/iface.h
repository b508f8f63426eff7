// Helpers for the harnesses of the models (integer and text, stream and batch).
#ifndef VERIF_IFACE_H
#define VERIF_IFACE_H

#include "ref.h"
#include "lockstep.h"
#include "vgram_builders/string_vgram.h"
#include "vgram_builders/string_stream_vgram.h"
#include "saver.h"
#include "loader.h"

namespace vt {

using namespace vgram_core;

inline std::string read_file(const std::string &path) {
    std::ifstream f(path, std::ios::binary);
    std::stringstream s;
    s << f.rdbuf();
    return s.str();
}

inline void write_file(const std::string &path, const std::string &text) {
    std::ofstream f(path, std::ios::binary);
    f << text;
}

inline std::shared_ptr<SeqCoder> make_coder(const IntSeq &symbols) {
    auto c = std::make_shared<SeqCoder>();
    c->encode(symbols);
    return c;
}

// a stream model whose builder rebuilds after a few symbols
inline std::shared_ptr<IntStreamVGram> quick_stream(const IntSeq &symbols, const Seqs &dict, const IntSeq &freqs,
                                                    double min_prob, int size) {
    return std::make_shared<IntStreamVGram>(make_coder(symbols), freqs, dict, size, min_prob);
}

// textual form of everything that can be read from a model
inline std::string show_all(const Seqs &alphabet, const IntSeq &freqs) {
    std::string r = str(alphabet.size()) + " entries:";
    for (size_t i = 0; i < alphabet.size(); i++)
        r += " " + str(alphabet[i]) + "=" + (i < freqs.size() ? str(freqs[i]) : "?");
    if (freqs.size() > alphabet.size()) r += " and " + str(freqs.size() - alphabet.size()) + " more frequencies";
    return r;
}
inline std::string show_all(const std::vector<std::string> &alphabet, const IntSeq &freqs) {
    std::string r = str(alphabet.size()) + " entries:";
    for (size_t i = 0; i < alphabet.size(); i++)
        r += " " + alphabet[i] + "=" + (i < freqs.size() ? str(freqs[i]) : "?");
    if (freqs.size() > alphabet.size()) r += " and " + str(freqs.size() - alphabet.size()) + " more frequencies";
    return r;
}

inline std::string join(const std::vector<std::string> &v, const std::string &sep = "") {
    std::string r;
    for (size_t i = 0; i < v.size(); i++) r += (i ? sep : "") + v[i];
    return r;
}

// numbers 0..n^len-1 as sequences of digits
template<typename F>
inline void for_all(int n, int len, F f) {
    std::vector<int> h(len, 0);
    while (true) {
        f(h);
        int i = len - 1;
        while (i >= 0 && h[i] + 1 == n) h[i--] = 0;
        if (i < 0) break;
        h[i]++;
    }
}

}

#endif
