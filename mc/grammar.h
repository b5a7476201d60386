// Exhaustive enumeration of the finite language of a non-recursive grammar.
#ifndef MC_GRAMMAR_H
#define MC_GRAMMAR_H
#include <cstdint>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>

namespace mc {

// A text with $x placeholders, x a nonterminal (one character). Placeholders expand independently.
class Grammar {
public:
    Grammar& rule(char nt, std::vector<std::string> alts)
    {
        for (auto& a : alts) { rules[nt].push_back({a, size(a)}); }
        return *this;
    }
    std::uint64_t size(std::string const& text) const
    {
        std::uint64_t r = 1;
        for (std::size_t i = 0; i + 1 < text.size(); ++i)
        {
            if (text[i] == '$') { r *= nt_size(text[++i]); }
        }
        return r;
    }
    std::string make(std::string const& text, std::uint64_t idx) const
    {
        std::string out;
        for (std::size_t i = 0; i < text.size(); ++i)
        {
            if (text[i] != '$') { out += text[i]; continue; }
            char nt = text[++i];
            auto n = nt_size(nt);
            auto k = idx % n;
            idx /= n;
            for (auto& [alt, sz] : rules.at(nt))
            {
                if (k < sz) { out += make(alt, k); break; }
                k -= sz;
            }
        }
        return out;
    }
private:
    std::map<char, std::vector<std::pair<std::string, std::uint64_t>>> rules;
    std::uint64_t nt_size(char nt) const
    {
        std::uint64_t r = 0;
        auto it = rules.find(nt);
        if (it == rules.end()) { throw std::logic_error(std::string("grammar: no rule for ") + nt); }
        for (auto& [a, s] : it->second) { r += s; }
        return r;
    }
};

} // namespace mc
#endif
