// C32: spelling and layout. All bounded character sequences through the real tokenizer against the lexical grammar of
// SMT-LIB, and scripts in all layouts and spellings of their symbols.
#include "e2e.h"
#include "grammar.h"
#include "sexp.h"
#include "smt2_lexer.h"
#include "wf.h"
#include <memory>
#include <set>

using namespace mc;
using yaga::parser::Token;

namespace {

//------------------------------------------------------------------------------------------------ reference tokenizer

enum Kind { word, lparen, rparen, numeral, decimal, hex, binary, string_lit, keyword, quoted, symbol, lex_error };
struct Tok { Kind kind; std::string text; bool operator==(Tok const&) const = default; };

bool digit(char c) { return '0' <= c && c <= '9'; }
bool letter(char c) { return ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z'); }
bool sym_char(char c) { return digit(c) || letter(c) || (c && std::string_view("~!@$%^&*_-+=<>.?/").find(c) != std::string_view::npos); }

// the reserved words this reader knows
std::set<std::string> const words = {"assert", "as", "!", "check-sat", "declare-const", "declare-fun", "declare-sort", "define-const", "define-fun",
    "define-sort", "echo", "exit", "get-assertions", "get-assignment", "get-info", "get-model", "get-option", "get-unsat-core", "get-value", "_", "let",
    "match", "par", "pop", "push", "reset", "set-info", "set-logic", "set-option"};
// reserved in SMT-LIB or defined by extensions, treated as symbols here or not
std::set<std::string> const open_words = {"exists", "forall", "BINARY", "DECIMAL", "HEXADECIMAL", "NUMERAL", "STRING", "lambda", "check-sat-assuming",
    "declare-datatype", "declare-datatypes", "define-fun-rec", "define-funs-rec", "get-proof", "get-unsat-assumptions", "reset-assertions"};

std::vector<Tok> tokens(std::string const& t)
{
    std::vector<Tok> r;
    std::size_t p = 0, n = t.size();
    while (p < n)
    {
        char c = t[p];
        if (c == ' ' || c == '\t' || c == '\n' || c == '\r' || c == '\f') { ++p; continue; }
        if (c == ';') { while (p < n && t[p] != '\n') { ++p; } continue; }
        std::size_t q = p + 1;
        auto take = [&](Kind k) { r.push_back({k, t.substr(p, q - p)}); p = q; };
        if (c == '(') { take(lparen); continue; }
        if (c == ')') { take(rparen); continue; }
        if (digit(c))
        {
            while (q < n && digit(t[q])) { ++q; }
            if (q + 1 < n && t[q] == '.' && digit(t[q + 1]))
            {
                ++q;
                while (q < n && digit(t[q])) { ++q; }
                take(decimal);
            }
            else { take(numeral); }
            continue;
        }
        if (c == '#' && p + 2 < n && (t[p + 1] == 'b' || t[p + 1] == 'x'))
        {
            bool x = t[p + 1] == 'x';
            auto ok = [&](char d) { return x ? digit(d) || ('a' <= d && d <= 'f') || ('A' <= d && d <= 'F') : d == '0' || d == '1'; };
            if (ok(t[p + 2]))
            {
                q = p + 3;
                while (q < n && ok(t[q])) { ++q; }
                take(x ? hex : binary);
                continue;
            }
        }
        if (c == '"')
        {
            bool closed = false;
            for (; q < n; ++q)
            {
                if (t[q] != '"') { continue; }
                if (q + 1 < n && t[q + 1] == '"') { ++q; continue; }
                ++q;
                closed = true;
                break;
            }
            if (closed) { take(string_lit); continue; }
            // not closed: the longest literal at this place, if any, ends at an inner pair of quotes
            q = n;
            std::size_t last = std::string::npos;
            for (std::size_t i = p + 1; i < n; ++i)
            {
                if (t[i] == '"' && i + 1 < n && t[i + 1] == '"') { last = i; ++i; }
            }
            if (last != std::string::npos) { q = last + 1; take(string_lit); continue; }
        }
        if (c == '|')
        {
            auto e = t.find_first_of("|\\", p + 1);
            if (e != std::string::npos && t[e] == '|') { q = e + 1; take(quoted); continue; }
        }
        if (c == ':' && p + 1 < n && sym_char(t[p + 1]) && !digit(t[p + 1]))
        {
            while (q < n && sym_char(t[q])) { ++q; }
            take(keyword);
            continue;
        }
        if (sym_char(c))
        {
            while (q < n && sym_char(t[q])) { ++q; }
            take(words.count(t.substr(p, q - p)) ? word : symbol);
            continue;
        }
        r.push_back({lex_error, ""});
        return r;
    }
    return r;
}

Kind kind_of(Token t)
{
    switch (t)
    {
    case Token::LPAREN_TOK: return lparen;
    case Token::RPAREN_TOK: return rparen;
    case Token::INTEGER_LITERAL: return numeral;
    case Token::DECIMAL_LITERAL: return decimal;
    case Token::HEX_LITERAL: return hex;
    case Token::BINARY_LITERAL: return binary;
    case Token::STRING_LITERAL: return string_lit;
    case Token::KEYWORD: return keyword;
    case Token::QUOTED_SYMBOL: return quoted;
    case Token::SYMBOL: return symbol;
    default: return word;
    }
}
std::map<std::string, Token> const word_token = {{"assert", Token::ASSERT_TOK}, {"as", Token::AS_TOK}, {"!", Token::ATTRIBUTE_TOK}, {"check-sat", Token::CHECK_SAT_TOK},
    {"declare-const", Token::DECLARE_CONST_TOK}, {"declare-fun", Token::DECLARE_FUN_TOK}, {"declare-sort", Token::DECLARE_SORT_TOK}, {"define-const", Token::DEFINE_CONST_TOK},
    {"define-fun", Token::DEFINE_FUN_TOK}, {"define-sort", Token::DEFINE_SORT_TOK}, {"echo", Token::ECHO_TOK}, {"exit", Token::EXIT_TOK}, {"get-assertions", Token::GET_ASSERTIONS_TOK},
    {"get-assignment", Token::GET_ASSIGNMENT_TOK}, {"get-info", Token::GET_INFO_TOK}, {"get-model", Token::GET_MODEL_TOK}, {"get-option", Token::GET_OPTION_TOK},
    {"get-unsat-core", Token::GET_UNSAT_CORE_TOK}, {"get-value", Token::GET_VALUE_TOK}, {"_", Token::INDEX_TOK}, {"let", Token::LET_TOK}, {"match", Token::MATCH_TOK}, {"par", Token::PAR_TOK},
    {"pop", Token::POP_TOK}, {"push", Token::PUSH_TOK}, {"reset", Token::RESET_TOK}, {"set-info", Token::SET_INFO_TOK}, {"set-logic", Token::SET_LOGIC_TOK}, {"set-option", Token::SET_OPTION_TOK}};

std::string visible(std::string const& s)
{
    std::string r;
    char buf[8];
    for (unsigned char c : s)
    {
        if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { snprintf(buf, sizeof buf, "\\x%02x", c); r += buf; }
        else { r += c; }
    }
    return r;
}
std::string list(std::vector<Tok> const& v)
{
    static char const* names[] = {"word", "(", ")", "numeral", "decimal", "hexadecimal", "binary", "string", "keyword", "quoted", "symbol", "error"};
    std::string r;
    for (auto& t : v) { r += std::string(" ") + names[t.kind] + "<" + visible(t.text) + ">"; }
    return r;
}

void check_tokens(std::string const& text)
{
    static auto lexer = std::make_unique<yaga::parser::smt2_lexer>();
    static int uses = 0;
    if (++uses % 4096 == 0) { lexer = std::make_unique<yaga::parser::smt2_lexer>(); }
    auto want = tokens(text);
    std::vector<Tok> got;
    std::istringstream in(text);
    lexer->yyrestart(in);
    std::string bad_word;
    try
    {
        for (;;)
        {
            auto t = lexer->lex_scan();
            if (t == Token::EOF_TOK) { break; }
            got.push_back({kind_of(t), lexer->token_string()});
            if (got.back().kind == word)
            {
                auto it = word_token.find(got.back().text);
                if (it == word_token.end() || it->second != t) { bad_word = got.back().text; }
            }
            if (got.size() > text.size()) { break; }
        }
    }
    catch (std::logic_error const&) { got.push_back({lex_error, ""}); }
    transitions(got.size() + 1);
    if (open_words.count(text)) { return; }
    if (got != want || !bad_word.empty()) { fail("characters <" + visible(text) + "> are read as" + list(got) + (bad_word.empty() ? "" : " (wrong word)") + "\nexpected" + list(want)); }
    outcome(!want.empty() && want.back().kind == lex_error);
}

std::string nth(std::string const& alphabet, std::uint64_t i, int len)
{
    std::string s;
    for (int k = 0; k < len; ++k) { s += alphabet[i % alphabet.size()]; i /= alphabet.size(); }
    return s;
}
std::uint64_t power(std::uint64_t b, int e) { std::uint64_t r = 1; while (e--) { r *= b; } return r; }

void add_strings(std::string const& name, std::string alphabet, int max_len)
{
    for (int len = 0; len <= max_len; ++len)
    {
        // a block of strings per item: all strings with a common end
        int low = std::min(len, 3);
        auto block = power(alphabet.size(), low);
        add({name + "-" + std::to_string(len), power(alphabet.size(), len - low), [=](std::uint64_t i) {
                 auto tail = nth(alphabet, i, len - low);
                 for (std::uint64_t k = 0; k < block; ++k) { check_tokens(nth(alphabet, k, low) + tail); }
                 traces(block);
                 state(mix(hash(name), hash(tail) + len));
             },
             [=](std::uint64_t i) { return "all strings of length " + std::to_string(len) + " that end in <" + visible(nth(alphabet, i, len - low)) + ">"; }});
    }
}

//------------------------------------------------------------------------------------------------ scripts

std::vector<std::string> const corpus = {
    "( set-logic QF_LRA ) ( declare-const x Real ) ( declare-fun y ( ) Real ) ( assert ( and ( < x y ) ( not ( = x 1.5 ) ) ) ) ( check-sat ) ( get-model )",
    "( set-info :status unsat ) ( set-option :produce-models true ) ( set-logic QF_LRA ) ( declare-fun p ( ) Bool ) ( assert p ) ( check-sat ) ( assert ( not p ) ) ( check-sat ) ( get-model ) ( exit )",
    "( set-logic QF_UFLRA ) ( declare-fun f ( Real Bool ) Real ) ( declare-const x Real ) ( assert ( = ( f x true ) 2 ) ) ( assert ( distinct ( f 1 true ) ( f x false ) ) ) ( check-sat ) ( get-model )",
    "( set-logic QF_LRA ) ( declare-const x Real ) ( define-fun g ( ( a Real ) ( b Real ) ) Bool ( < ( + a 1 ) ( * 2 b ) ) ) ( assert ( g x 0 ) ) ( assert ( let ( ( z ( - x ) ) ( w 3 ) ) ( and ( < z w ) ( g w z ) ) ) ) ( check-sat ) ( get-model )",
    "( set-logic QF_LRA ) ( declare-const x Real ) ( assert ( = x undeclared ) ) ( assert ( < x 0.25 ) ) ( check-sat ) ( get-model )",
    "( set-logic QF_LRA ) ( declare-const x Real ) ( assert ( => ( > x 0 ) ( xor ( >= x 2 ) ( <= x 3 ) true ) ) ) ( assert ( ite ( = x 0 ) false ( > ( / x 2 ) 1 ) ) ) ( check-sat ) ( get-model )",
    "( set-info :notes ( a ( b \"c (\" ) |d )| ) ) ( set-logic QF_UFLRA ) ( declare-fun q ( Bool ) Bool ) ( assert ( or ( q true ) ( q false ) ) ) ( assert ( not ( q ( q true ) ) ) ) ( check-sat ) ( get-model )",
    "( set-logic QF_LRA ) ( declare-const x Real ) ( check-sat ) ( declare-const x Bool ) ( check-sat )",
    "( set-logic QF_LRA ) ( declare-const x Real ) ( assert ( < x ) ) ( assert ( < x \"a\" ) ) ( check-sat ) ( get-model ) ( push 1 )",
};

std::vector<std::string> split(std::string const& s)
{
    std::vector<std::string> r;
    for (auto& t : tokens(s)) { r.push_back(t.text); }
    return r;
}

std::vector<std::string> const gaps = {" ", "\n", "\t", "\r\n", "\f", ";\n", " ; it's (a |comment \"\n", ";;\r\n\n", "  \n \t ", ""};

bool may_touch(std::string const& a, std::string const& b)
{
    auto sep = [](std::string const& x) { return x == "(" || x == ")"; };
    return a.empty() || b.empty() || sep(a) || sep(b);
}

struct Script {
    std::vector<std::string> toks;
    mc::Run base;
    std::string build(std::vector<int> const& gap) const // gap k is before token k, the last is at the end
    {
        std::string s;
        for (std::size_t k = 0; k <= toks.size(); ++k)
        {
            auto a = k ? toks[k - 1] : "", b = k < toks.size() ? toks[k] : "";
            auto g = gaps[gap[k]];
            s += g.empty() && !may_touch(a, b) ? " " : g;
            s += b;
        }
        return s;
    }
    void same(std::string const& text) const
    {
        auto r = run_smt(text);
        transitions();
        traces();
        state(hash(text));
        if (r.out != base.out || r.error != base.error)
        {
            fail("another layout or spelling changes the outcome\nscript: " + visible(text) + "\noutput: " + r.out + r.error + "\noutput in the plain layout: " + base.out + base.error);
        }
    }
};

void readable(std::string const& out)
{
    try { ref::read_all(out); }
    catch (ref::Parse_error const& e) { fail(std::string("the output cannot be read: ") + e.what() + "\noutput: " + out); }
    for (auto& t : tokens(out)) { if (t.kind == lex_error) { fail("the output is not made of tokens: " + out); } }
    for (auto& s : ref::read_all(out))
    {
        if (s.list && !s.k.empty() && s.k[0].is("error") && (s.k.size() != 2 || s.k[1].a.size() < 2 || s.k[1].a[0] != '"')) { fail("an error response is not (error <string>): " + out); }
        if (s.list && !s.k.empty() && s.k[0].is("error") && tokens(s.k[1].a).size() != 1) { fail("an error response is not (error <string>): " + out); }
    }
}

void add_layouts(bool thorough)
{
    for (std::size_t c = 0; c < corpus.size(); ++c)
    {
        auto s = std::make_shared<Script>();
        s->toks = split(corpus[c]);
        s->base = run_smt(corpus[c]);
        int places = s->toks.size() + 1, kinds = gaps.size();
        auto id = std::to_string(c);
        add({"layout-all-" + id, (std::uint64_t)kinds * kinds, [=](std::uint64_t i) {
                 std::vector<int> g(places);
                 for (int k = 0; k < places; ++k) { g[k] = k % 2 ? i % kinds : i / kinds; }
                 s->same(s->build(g));
             }, [=](std::uint64_t i) { return "gaps " + visible(gaps[i / kinds]) + " and " + visible(gaps[i % kinds]) + " in script " + id; }});
        add({"layout-one-" + id, (std::uint64_t)places * kinds, [=](std::uint64_t i) {
                 for (int other : {0, kinds - 1})
                 {
                     std::vector<int> g(places, other);
                     g[i / kinds] = i % kinds;
                     s->same(s->build(g));
                 }
             }, [=](std::uint64_t i) { return "gap " + visible(gaps[i % kinds]) + " before token " + std::to_string(i / kinds) + " of script " + id; }});
        if (thorough)
        {
            add({"layout-two-" + id, (std::uint64_t)places * places, [=](std::uint64_t i) {
                     int a = i / places, b = i % places;
                     if (a >= b) { return; }
                     for (int x = 1; x < kinds; ++x)
                     {
                         for (int y = 1; y < kinds; ++y) { std::vector<int> g(places); g[a] = x; g[b] = y; s->same(s->build(g)); }
                     }
                 }, [=](std::uint64_t i) { return "gaps before tokens " + std::to_string(i / places) + " and " + std::to_string(i % places) + " of script " + id; }});
        }
        // |symbol| for symbol, at one, two or all places
        std::vector<int> syms;
        auto toks = tokens(corpus[c]);
        for (std::size_t k = 0; k < toks.size(); ++k) { if (toks[k].kind == symbol) { syms.push_back(k); } }
        std::uint64_t n = syms.size();
        add({"quoted-" + id, n * n + 1, [=](std::uint64_t i) {
                 Script q = *s;
                 for (std::uint64_t k = 0; k < n; ++k) { if (i == n * n || k == i / n || k == i % n) { q.toks[syms[k]] = "|" + q.toks[syms[k]] + "|"; } }
                 q.same(q.build(std::vector<int>(places)));
             }, [=](std::uint64_t i) { return i == n * n ? "all symbols quoted in script " + id : "symbols " + std::to_string(i / n) + " and " + std::to_string(i % n) + " quoted in script " + id; }});
    }
}

// a name in all roles, read back from the printed model
void check_name(std::string const& name, std::string const& spelled, int role)
{
    std::string s;
    if (role == 0) { s = "(set-logic QF_LRA)\n(declare-const " + spelled + " Real)\n(assert (= " + spelled + " 7))\n(check-sat)\n(get-model)\n"; }
    else if (role == 1) { s = "(set-logic QF_UFLRA)\n(declare-fun " + spelled + " (Real) Bool)\n(assert (" + spelled + " 7))\n(check-sat)\n(get-model)\n"; }
    else if (role == 2) { s = "(set-logic QF_LRA)\n(declare-const other! Real)\n(define-fun " + spelled + " () Real 7)\n(assert (= " + spelled + " other!))\n(check-sat)\n(get-model)\n"; }
    else { s = "(set-logic QF_LRA)\n(declare-const other! Real)\n(define-fun other? ((" + spelled + " Real)) Real (+ " + spelled + " 1))\n(assert (let ((" + spelled + " (other? 6))) (= " + spelled + " other!)))\n(check-sat)\n(get-model)\n"; }
    auto r = run_smt(s);
    transitions();
    traces();
    auto shown = "\nscript: " + visible(s) + "\noutput: " + visible(r.out) + r.error;
    if (!r.error.empty()) { fail("error on a legal symbol" + shown); }
    readable(r.out);
    auto v = ref::read_all(r.out);
    bool ok = v.size() == 2 && v[0].is("sat") && v[1].list;
    int count = 0;
    auto want = role <= 1 ? name : "other!";
    for (auto& d : ok ? v[1].k : std::vector<ref::S>{})
    {
        if (d.list && d.k.size() == 5 && d.k[1].a == want && !d.k[1].list)
        {
            ++count;
            if (!d.k[1].quoted && (!wf::simple_symbol(d.k[1].a) || wf::reserved.count(d.k[1].a))) { fail("a symbol is printed without the quotes it needs" + shown); }
            if (role == 1 ? d.k[4].str().find("true") == std::string::npos : d.k[4].str() != "7") { fail("wrong value" + shown); }
        }
        else { ok = false; }
    }
    if (!ok || count != 1) { fail("the model does not name the declared symbol" + shown); }
    state(hash(name) + role);
    outcome(role);
}

} // namespace

void mc::setup(Config const& c)
{
    bool t = c.thorough();
    if (c.property == "C25") { t = false; }
    // every class of characters the rules distinguish
    add_strings("chars", std::string("ae05.-#bx:|\\\"; ()!_\n\r{\xc3"), c.property == "C25" ? 3 : t ? 5 : 4);
    add_strings("numbers", "0179.a#bxF- ", c.property == "C25" ? 4 : t ? 7 : 6);
    add_strings("strings", "\"|\\a \n;", c.property == "C25" ? 5 : t ? 9 : 7);
    add_strings("marks", "~!@$%^&*+=<>?/-_:'`,", c.property == "C25" ? 2 : t ? 5 : 4);
    // all reserved words, their parts and neighbours
    {
        std::set<std::string> set;
        std::string const marks = std::string("atz-_.0:|\" \n();") ;
        std::vector<std::string> ws(words.begin(), words.end());
        for (auto& w : ws)
        {
            for (std::size_t i = 0; i <= w.size(); ++i)
            {
                set.insert(w.substr(0, i));
                set.insert(w.substr(i));
                for (char m : marks) { auto x = w; x.insert(i, 1, m); set.insert(x); if (i < w.size()) { x = w; x[i] = m; set.insert(x); } }
                if (i < w.size()) { auto x = w; x.erase(i, 1); set.insert(x); x = w; x[i] = x[i] ^ 32; set.insert(x); }
            }
            for (auto& v : ws) { set.insert(w + v); set.insert(w + " " + v); set.insert(w + "-" + v); set.insert("(" + w + ")" + v); set.insert(":" + w + " " + v); }
        }
        auto list = std::make_shared<std::vector<std::string>>(set.begin(), set.end());
        add({"words", list->size(), [=](std::uint64_t i) { check_tokens((*list)[i]); traces(); state(hash((*list)[i])); }, [=](std::uint64_t i) { return visible((*list)[i]); }});
    }
    // tokens around the borders of the tokenizer's input blocks
    {
        std::vector<std::string> const toks = {"abcdefghij", "0123456.789", "|abc def|", "\"ab\"\"cd\"", ":keyword", "#xabcdef", ";comment\nx", "check-sat", "(((())))"};
        int sizes[] = {8192, 16384, 32768};
        auto n = toks.size() * 3 * 24;
        add({"blocks", n, [=](std::uint64_t i) {
                 int size = sizes[i % 3], off = (int)(i / 3 % 24) - 12;
                 auto t = toks[i / 72];
                 std::string fill;
                 int until = size + off;
                 while ((int)fill.size() + 8 <= until) { fill += "( a b )\n"; }
                 fill.resize(until, ' ');
                 check_tokens(fill + t + " b");
                 int run = i % 3 ? 1024 + off : 2048 + off;
                 check_tokens(std::string(run, ' ') + t + " b");
                 check_tokens("|" + std::string(run, 'q') + "|" + t);
                 check_tokens(";" + std::string(run, 'q') + "\n" + t);
                 traces(4);
                 state(i);
             }, [=](std::uint64_t i) { return toks[i / 72] + " near byte " + std::to_string(sizes[i % 3] + (int)(i / 3 % 24) - 12); }});
    }
    add_layouts(t);
    // names
    {
        std::string const chars = "aZ0.-_!:# \";(\n,\xc3";
        for (int len = 0; len <= (c.property == "C25" ? 1 : t ? 4 : 3); ++len)
        {
            auto n = power(chars.size(), len);
            add({"names-" + std::to_string(len), n * 4, [=](std::uint64_t i) { auto x = nth(chars, i / 4, len); check_name(x, "|" + x + "|", i % 4); }, [=](std::uint64_t i) { return "name " + visible(nth(chars, i / 4, len)) + " role " + std::to_string(i % 4); }});
        }
        std::string const simple = "aZ0.-_!~@$%^&*+=<>?/";
        for (int len = 1; len <= (c.property == "C25" ? 1 : t ? 3 : 2); ++len)
        {
            auto n = power(simple.size(), len);
            add({"simple-names-" + std::to_string(len), n * 4, [=](std::uint64_t i) {
                     auto x = nth(simple, i / 4, len);
                     if (digit(x[0]) || words.count(x) || wf::builtin.count(x)) { return; }
                     check_name(x, x, i % 4);
                     check_name(x, "|" + x + "|", i % 4);
                 }, [=](std::uint64_t i) { return "name " + visible(nth(simple, i / 4, len)) + " role " + std::to_string(i % 4); }});
        }
        auto ws = std::make_shared<std::vector<std::string>>(words.begin(), words.end());
        add({"reserved-names", ws->size() * 4, [=](std::uint64_t i) { check_name((*ws)[i / 4], "|" + (*ws)[i / 4] + "|", i % 4); }, [=](std::uint64_t i) { return "name |" + (*ws)[i / 4] + "| role " + std::to_string(i % 4); }});
    }
    // whatever is rejected, the response can be read
    {
        Grammar g;
        g.rule('t', {"\"a\"", "\"\"", "\"a\"\"b\"", "|a\"b|", "|\"|", ":k", "#b1", "!", "(", ")", "(|\"\"| 1)", "(f \"x\")", "(! p :named |\"|)", "(let ((|\"| 1)) |\"c|)", "(|\"f| |\"g|)", "(as |\"| Real)"})
         .rule('c', {"(assert $t)", "(assert (= $t $t))", "(assert (and true $t $t))", "(declare-const x $t)", "(define-fun h ((a $t)) Real a)"});
        auto gp = std::make_shared<Grammar>(g);
        add({"responses", gp->size("$c"), [=](std::uint64_t i) {
                 auto s = "(set-logic QF_UFLRA)\n" + gp->make("$c", i) + "\n(check-sat)\n";
                 auto r = run_smt(s);
                 transitions();
                 traces();
                 state(hash(s));
                 readable(r.out);
             }, [=](std::uint64_t i) { return gp->make("$c", i); }});
    }
}
