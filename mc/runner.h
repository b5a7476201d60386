// Bounded exhaustive exploration runner.
//
// A check is a list of families. A family is a finite, indexed set of items (instances, histories,
// schedules...). Every item is executed; forked worker processes execute disjoint index ranges, so a crash
// or a hang of the code under test is confined to the worker and attributed to one item.
#ifndef MC_RUNNER_H
#define MC_RUNNER_H

#include <atomic>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <string>
#include <vector>

namespace mc {

// thrown by fail(); not derived from std::exception so that the code under test cannot swallow it by type
struct Violation {
    std::string msg;
};

struct Family {
    std::string name;      // stable identifier
    std::uint64_t size;    // number of items
    std::function<void(std::uint64_t)> run;           // execute one item, fail() on a violation
    std::function<std::string(std::uint64_t)> show;   // human-readable form of an item
    double limit = 20.0;   // seconds after which one item counts as stuck (re-run alone with 4x before reporting)
};

struct Config {
    std::string property;
    std::string tier = "quick";
    bool thorough() const { return tier == "thorough"; }
    long seed = 1;
};

Config const& config();

[[noreturn]] void fail(std::string const& msg);

// measured coverage
void transitions(std::uint64_t n = 1); // operations / steps executed on the implementation
void traces(std::uint64_t n = 1);      // complete executions of the implementation judged by the oracle
void state(std::uint64_t hash);        // a distinct observed state (global set)
void outcome(int which);               // histogram of observed outcomes (0..31)

inline std::uint64_t mix(std::uint64_t h, std::uint64_t v)
{
    h ^= v + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2);
    h *= 0xff51afd7ed558ccdull;
    h ^= h >> 32;
    return h;
}
std::uint64_t hash(std::string const& s);

// Other contents of fresh memory and of the stack, other relative addresses of blocks (C28). Blocks of one size are handed out
// from high to low addresses in the first round and from low to high ones in the second.
extern int new_fill;
extern int new_order; // 0: as malloc does; 1: falling addresses; 2: rising addresses
void drop_blocks();
struct Other_memory {
    std::vector<void*> kept;
    Other_memory(int round)
    {
        unsigned char volatile stack[60000];
        for (std::size_t i = 0; i < sizeof stack; ++i) { stack[i] = round * 0x5b + 0xa7; }
        std::vector<void*> gone;
        for (std::size_t size = 16; size <= 1024; size += 16)
        {
            for (int k = 0; k < 24; ++k) { (k % (round + 2) == 0 ? kept : gone).push_back(malloc(size - 8)); }
        }
        if (round % 2) { for (auto it = gone.rbegin(); it != gone.rend(); ++it) { free(*it); } }
        else { for (auto p : gone) { free(p); } }
        new_fill = (round * 0x5b + 0xa7) & 0xff;
        new_order = round % 2 ? 1 : 2;
    }
    ~Other_memory()
    {
        new_fill = -1;
        new_order = 0;
        drop_blocks();
        for (auto p : kept) { free(p); }
    }
};

// Stateless exploration of all choice sequences.
class Chooser {
public:
    int choose(int n); // 0 <= result < n
    std::vector<std::pair<int, int>> path; // (choice, number of alternatives)
    std::vector<int> prefix;
    std::string str() const;
};

struct Explored {
    std::uint64_t runs = 0;
    bool complete = true; // false iff a cap on the number of runs was hit
};

// Run f for all choice sequences with at most max_dev non-zero choices (max_dev < 0: no limit)
Explored explore(std::function<void(Chooser&)> const& f, int max_dev = -1, std::uint64_t max_runs = UINT64_MAX);

// record in the evidence that a cap was reached in `what`
void capped(std::string const& what);

void add(Family f);
// defined by each check: add families for this tier
void setup(Config const&);

} // namespace mc
#endif
