// S-expressions: own reader, independent of the code under test.
#ifndef MC_SEXP_H
#define MC_SEXP_H
#include <stdexcept>
#include <string>
#include <vector>

namespace ref {

struct S {
    bool list = false;
    std::string a;       // atom (quotes of |symbols| are kept off, see quoted)
    bool quoted = false;
    std::vector<S> k;
    S() {}
    S(char const* atom) : a(atom) {}
    S(std::string atom) : a(std::move(atom)) {}
    S(std::initializer_list<S> kids) : list(true), k(kids) {}
    static S make_list(std::vector<S> kids) { S s; s.list = true; s.k = std::move(kids); return s; }
    bool is(char const* x) const { return !list && a == x; }
    std::string str() const
    {
        if (!list) { return quoted ? "|" + a + "|" : a; }
        std::string r = "(";
        for (std::size_t i = 0; i < k.size(); ++i) { r += (i ? " " : "") + k[i].str(); }
        return r + ")";
    }
};

struct Parse_error : std::runtime_error { using std::runtime_error::runtime_error; };

inline S read_one(std::string const& t, std::size_t& p);

inline void skip_ws(std::string const& t, std::size_t& p)
{
    while (p < t.size())
    {
        if (t[p] == ' ' || t[p] == '\t' || t[p] == '\n' || t[p] == '\r') { ++p; }
        else if (t[p] == ';') { while (p < t.size() && t[p] != '\n') { ++p; } }
        else { break; }
    }
}

inline S read_one(std::string const& t, std::size_t& p)
{
    skip_ws(t, p);
    if (p >= t.size()) { throw Parse_error("unexpected end"); }
    if (t[p] == '(')
    {
        S s;
        s.list = true;
        ++p;
        for (;;)
        {
            skip_ws(t, p);
            if (p >= t.size()) { throw Parse_error("unbalanced ("); }
            if (t[p] == ')') { ++p; return s; }
            s.k.push_back(read_one(t, p));
        }
    }
    if (t[p] == ')') { throw Parse_error("unexpected )"); }
    if (t[p] == '|')
    {
        auto e = t.find('|', p + 1);
        if (e == std::string::npos) { throw Parse_error("unterminated |"); }
        S s(t.substr(p + 1, e - p - 1));
        s.quoted = true;
        p = e + 1;
        return s;
    }
    if (t[p] == '"')
    {
        auto q = p++;
        for (; p < t.size(); ++p)
        {
            if (t[p] == '"') { if (p + 1 < t.size() && t[p + 1] == '"') { ++p; } else { break; } }
        }
        if (p >= t.size()) { throw Parse_error("unterminated string"); }
        ++p;
        return S(t.substr(q, p - q));
    }
    auto q = p;
    while (p < t.size() && t[p] != '(' && t[p] != ')' && t[p] != ' ' && t[p] != '\n' && t[p] != '\t' && t[p] != '\r' &&
           t[p] != ';' && t[p] != '|' && t[p] != '"')
    {
        ++p;
    }
    return S(t.substr(q, p - q));
}

inline std::vector<S> read_all(std::string const& t)
{
    std::vector<S> r;
    std::size_t p = 0;
    for (;;)
    {
        skip_ws(t, p);
        if (p >= t.size()) { return r; }
        r.push_back(read_one(t, p));
    }
}

} // namespace ref
#endif
