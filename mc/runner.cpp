#include "runner.h"
#include <regex>

#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fcntl.h>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <fstream>
#include <sstream>

namespace mc {

namespace {

#if defined(__SANITIZE_ADDRESS__)
constexpr bool sanitized = true;
#else
constexpr bool sanitized = false;
#endif

double now()
{
    timespec ts;
    clock_gettime(CLOCK_MONOTONIC, &ts);
    return ts.tv_sec + ts.tv_nsec * 1e-9;
}

constexpr int max_workers = 64;
constexpr std::uint64_t table_size = 1ull << 24;

struct Slot {
    std::atomic<std::uint64_t> current; // item being executed
    std::atomic<double> start;          // its start time (0: idle)
    std::atomic<std::uint64_t> finished;
};

struct Record {
    int family;
    std::uint64_t index, chunk_start;
    char msg[6000];
};

struct Shared {
    std::atomic<std::uint64_t> transitions, traces, states, saturated;
    std::atomic<std::uint64_t> outcomes[32];
    Slot slots[max_workers];
    std::atomic<int> num_records;
    Record records[64];
    std::atomic<int> num_caps;
    char caps[64][200];
};

Shared* sh = nullptr;
std::atomic<std::uint64_t>* table = nullptr;
std::vector<Family> fams;
Config cfg;

// local counters flushed after every item
std::uint64_t l_trans = 0, l_traces = 0;

void flush()
{
    if (l_trans) { sh->transitions += l_trans; l_trans = 0; }
    if (l_traces) { sh->traces += l_traces; l_traces = 0; }
}

void set_limits()
{
    rlimit core{0, 0};
    setrlimit(RLIMIT_CORE, &core);
    if (!sanitized)
    {
        rlimit as{3ull << 30, 3ull << 30};
        setrlimit(RLIMIT_AS, &as);
    }
}

void record(int fam, std::uint64_t idx, std::uint64_t chunk_start, std::string const& msg)
{
    int i = sh->num_records++;
    if (i >= 64) { return; }
    auto& r = sh->records[i];
    r.family = fam;
    r.index = idx;
    r.chunk_start = chunk_start;
    snprintf(r.msg, sizeof r.msg, "%s", msg.c_str());
}

// execute one item, return the message of the violation if there is one
bool run_item(Family& f, std::uint64_t idx, std::string& msg)
{
    try
    {
        f.run(idx);
    }
    catch (Violation const& v)
    {
        msg = v.msg;
        flush();
        // C28 is about the difference between two runs only
        if (cfg.property == "C28") { return msg.find("two runs of the same input differ") != 0; }
        // C25 is about crashes, sanitizer reports and failed assertions only; what the monitors say belongs to other properties
        return cfg.property == "C25" && msg.find("uncaught exception: ") != 0 && msg.find("the program crashed") != 0;
    }
    catch (std::exception const& e)
    {
        msg = std::string("uncaught exception: ") + e.what();
        flush();
        return false;
    }
    flush();
    return true;
}

struct Job {
    int fam;
    std::uint64_t begin, end;
};

[[noreturn]] void child(int slot_id, Job job)
{
    set_limits();
    signal(SIGINT, SIG_DFL);
    int null = open("/dev/null", O_RDWR);
    dup2(null, 1);
    dup2(null, 2);
    auto& slot = sh->slots[slot_id];
    for (std::uint64_t i = job.begin; i < job.end; ++i)
    {
        slot.current = i;
        slot.start = now();
        std::string msg;
        if (!run_item(fams[job.fam], i, msg))
        {
            record(job.fam, i, job.begin, msg);
        }
        slot.start = 0;
        slot.finished = i + 1;
        if (sh->num_records >= 8) { break; }
    }
    _exit(0);
}

std::string tail(std::string const& path)
{
    std::ifstream in(path);
    std::stringstream ss;
    ss << in.rdbuf();
    auto s = ss.str();
    if (s.size() > 4000) { s = s.substr(0, 4000); }
    return s;
}

// Execute items [chunk_start, index] of a family in a fresh process; return a message iff the last one fails
// (or the process dies).
bool confirm(int fam, std::uint64_t first, std::uint64_t index, double limit, std::string& msg)
{
    int fds[2];
    if (pipe(fds)) { return false; }
    char err_path[] = "/tmp/mc_err_XXXXXX";
    int err = mkstemp(err_path);
    fflush(nullptr);
    pid_t pid = fork();
    if (pid == 0)
    {
        set_limits();
        close(fds[0]);
        int null = open("/dev/null", O_RDWR);
        dup2(null, 1);
        dup2(err, 2);
        std::string m;
        bool ok = true;
        for (auto i = first; i <= index; ++i)
        {
            m.clear();
            ok = run_item(fams[fam], i, m);
        }
        if (!ok)
        {
            auto k = write(fds[1], m.data(), std::min<std::size_t>(m.size(), 60000));
            (void)k;
        }
        _exit(ok ? 0 : 1);
    }
    close(fds[1]);
    close(err);
    std::string text;
    double t0 = now();
    bool timeout = false;
    int status = 0;
    fcntl(fds[0], F_SETFL, O_NONBLOCK);
    for (;;)
    {
        char buf[4096];
        ssize_t k;
        while ((k = read(fds[0], buf, sizeof buf)) > 0) { text.append(buf, k); }
        if (waitpid(pid, &status, WNOHANG) == pid)
        {
            while ((k = read(fds[0], buf, sizeof buf)) > 0) { text.append(buf, k); }
            break;
        }
        if (now() - t0 > limit)
        {
            kill(pid, SIGKILL);
            waitpid(pid, &status, 0);
            timeout = true;
            break;
        }
        usleep(2000);
    }
    close(fds[0]);
    auto errtext = tail(err_path);
    unlink(err_path);
    if (timeout)
    {
        std::stringstream ss;
        ss << "does not terminate: no answer within " << limit << " s when run alone";
        msg = ss.str();
        return true;
    }
    if (WIFSIGNALED(status))
    {
        msg = std::string("crash: killed by signal ") + strsignal(WTERMSIG(status)) + "\n" + errtext;
        return true;
    }
    int code = WEXITSTATUS(status);
    if (code == 0) { return false; }
    msg = code == 1 ? text : "crash: exit status " + std::to_string(code) + "\n" + errtext;
    if (code == 1 && text.empty()) { msg = "crash: exit status 1\n" + errtext; }
    return true;
}

std::string jstr(std::string const& s)
{
    std::string r = "\"";
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') { r += "\\n"; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else { r += c; }
    }
    return r + "\"";
}

std::string show(Family& f, std::uint64_t idx)
{
    // in a child: a description may run the code under test
    int fds[2];
    if (pipe(fds)) { return ""; }
    pid_t pid = fork();
    if (pid == 0)
    {
        int null = open("/dev/null", O_RDWR);
        dup2(null, 2);
        std::string s;
        try { s = f.show ? f.show(idx) : ""; } catch (...) { s = "?"; }
        if (s.size() > 20000) { s.resize(20000); }
        auto k = write(fds[1], s.data(), s.size());
        (void)k;
        _exit(0);
    }
    close(fds[1]);
    std::string text;
    char buf[4096];
    ssize_t k;
    while ((k = read(fds[0], buf, sizeof buf)) > 0) { text.append(buf, k); }
    close(fds[0]);
    int st;
    waitpid(pid, &st, 0);
    return text;
}

} // namespace

Config const& config() { return cfg; }
void fail(std::string const& msg) { throw Violation{msg}; }
void transitions(std::uint64_t n) { l_trans += n; }
void traces(std::uint64_t n) { l_traces += n; }
void outcome(int which) { sh->outcomes[which & 31]++; }

void state(std::uint64_t h)
{
    if (h == 0) { h = 1; }
    auto pos = mix(h, 0x1234567) & (table_size - 1);
    for (int i = 0; i < 64; ++i, pos = (pos + 1) & (table_size - 1))
    {
        auto cur = table[pos].load(std::memory_order_relaxed);
        if (cur == h) { return; }
        if (cur == 0)
        {
            std::uint64_t expected = 0;
            if (table[pos].compare_exchange_strong(expected, h)) { sh->states++; return; }
            if (expected == h) { return; }
        }
    }
    sh->saturated++;
}

std::uint64_t hash(std::string const& s)
{
    std::uint64_t h = 1469598103934665603ull;
    for (unsigned char c : s) { h = (h ^ c) * 1099511628211ull; }
    return mix(h, s.size());
}

int Chooser::choose(int n)
{
    if (n <= 0) { fail("harness: choice without alternatives"); }
    int c = path.size() < prefix.size() ? prefix[path.size()] : 0;
    if (c >= n)
    {
        fail("harness: replay diverged (choice " + std::to_string(c) + " of " + std::to_string(n) + ")");
    }
    path.emplace_back(c, n);
    return c;
}

std::string Chooser::str() const
{
    std::string s;
    for (auto [c, n] : path) { s += std::to_string(c) + "/" + std::to_string(n) + " "; }
    return s;
}

Explored explore(std::function<void(Chooser&)> const& f, int max_dev, std::uint64_t max_runs)
{
    Explored result;
    std::vector<std::pair<int, int>> path;
    std::vector<int> prefix;
    for (;;)
    {
        Chooser ch;
        ch.prefix = prefix;
        try
        {
            f(ch);
        }
        catch (Violation const& v)
        {
            throw Violation{v.msg + "\n[choices: " + ch.str() + "]"};
        }
        catch (std::exception const& e)
        {
            throw Violation{std::string("uncaught exception: ") + e.what() + "\n[choices: " + ch.str() + "]"};
        }
        ++result.runs;
        if (ch.path.size() < prefix.size()) { fail("harness: replay diverged (run ended early)\n[choices: " + ch.str() + "]"); }
        // next sequence in depth-first order
        auto p = ch.path;
        int dev = 0;
        for (auto [c, n] : p) { dev += c != 0; }
        bool next = false;
        while (!p.empty())
        {
            auto [c, n] = p.back();
            p.pop_back();
            dev -= c != 0;
            if (c + 1 < n && (max_dev < 0 || dev + 1 <= max_dev))
            {
                p.emplace_back(c + 1, n);
                next = true;
                break;
            }
        }
        if (!next) { return result; }
        if (result.runs >= max_runs) { result.complete = false; return result; }
        prefix.clear();
        for (auto [c, n] : p) { prefix.push_back(c); }
    }
}

void capped(std::string const& what)
{
    for (int i = 0; i < std::min<int>(sh->num_caps, 64); ++i)
    {
        if (what == sh->caps[i]) { return; }
    }
    int i = sh->num_caps++;
    if (i < 64) { snprintf(sh->caps[i], sizeof sh->caps[i], "%s", what.c_str()); }
}

void add(Family f)
{
    if (f.size > 0) { fams.push_back(std::move(f)); }
}

} // namespace mc

using namespace mc;

int main(int argc, char** argv)
{
    std::string out, replay, only, match;
    double budget = 600;
    int workers = 8;
    if (auto w = getenv("MC_WORKERS")) { workers = std::max(1, atoi(w)); }
    for (int i = 1; i < argc; ++i)
    {
        std::string a = argv[i];
        auto val = [&] { return i + 1 < argc ? std::string(argv[++i]) : std::string(); };
        if (a == "--out") { out = val(); }
        else if (a == "--property") { cfg.property = val(); }
        else if (a == "--tier") { cfg.tier = val(); }
        else if (a == "--seed") { cfg.seed = atol(val().c_str()); }
        else if (a == "--budget") { budget = atof(val().c_str()); }
        else if (a == "--replay") { replay = val(); }
        else if (a == "--family") { only = val(); }
        else if (a == "--match") { match = val(); }
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 2; }
    }
    workers = std::min(workers, max_workers);
    sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    table = static_cast<std::atomic<std::uint64_t>*>(
        mmap(nullptr, table_size * 8, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    signal(SIGPIPE, SIG_IGN);
    setup(cfg);
    if (!match.empty())
    {
        std::regex re(match);
        std::erase_if(fams, [&](auto& f) { return !std::regex_search(f.name, re); });
    }

    if (!replay.empty())
    {
        std::ifstream in(replay);
        std::string line, fam;
        std::uint64_t idx = 0, first = 0;
        while (std::getline(in, line))
        {
            if (line.rfind("family=", 0) == 0) { fam = line.substr(7); }
            else if (line.rfind("index=", 0) == 0) { idx = strtoull(line.c_str() + 6, nullptr, 10); }
            else if (line.rfind("first=", 0) == 0) { first = strtoull(line.c_str() + 6, nullptr, 10); }
            else if (line == "---") { break; }
        }
        for (int f = 0; f < (int)fams.size(); ++f)
        {
            if (fams[f].name == fam)
            {
                printf("%s[%llu]\n%s\n", fam.c_str(), (unsigned long long)idx, show(fams[f], idx).c_str());
                std::string msg;
                bool bad = confirm(f, first, idx, fams[f].limit * 4, msg);
                printf("%s\n", bad ? msg.c_str() : "no violation");
                return bad ? 1 : 0;
            }
        }
        printf("no such family: %s\n", fam.c_str());
        return 2;
    }

    if (!only.empty())
    {
        std::erase_if(fams, [&](auto const& f) { return f.name != only; });
    }

    double t0 = now();
    struct Running { pid_t pid = 0; Job job; double started = 0; };
    std::vector<Running> run(workers);
    std::deque<Job> pending;                    // remainders of crashed chunks
    std::vector<std::uint64_t> next(fams.size(), 0), done(fams.size(), 0);
    std::vector<double> cost(fams.size(), 0);   // seconds per item
    std::vector<double> fam_time(fams.size(), 0);
    std::size_t cur = 0;
    bool stop = false, out_of_time = false;
    double first_violation = 0;
    struct Cand { int fam; std::uint64_t idx, first; std::string msg; bool hang; };
    std::vector<Cand> cands;
    struct Rep { std::string fam; std::uint64_t idx, first; std::string msg, item; };
    std::vector<Rep> reps;
    std::vector<std::string> unconfirmed;
    int rounds = 0;

    auto get_job = [&](Job& job) {
        if (!pending.empty()) { job = pending.front(); pending.pop_front(); return true; }
        while (cur < fams.size() && next[cur] >= fams[cur].size) { ++cur; }
        if (cur >= fams.size()) { return false; }
        auto& f = fams[cur];
        std::uint64_t n;
        if (cost[cur] <= 0) { n = 1 + next[cur] / 8; n = std::min<std::uint64_t>(n, 64); }
        else { n = std::max<std::uint64_t>(1, std::min<double>(0.25 / cost[cur], 200000)); }
        // keep the end of the family balanced
        n = std::max<std::uint64_t>(1, std::min<std::uint64_t>(n, (f.size - next[cur]) / (2 * workers) + 1));
        job = {static_cast<int>(cur), next[cur], std::min(f.size, next[cur] + n)};
        next[cur] = job.end;
        return true;
    };

explore_again:
    for (;;)
    {
        if (!stop && now() - t0 > budget) { stop = out_of_time = true; }
        if (!stop && first_violation > 0 && (now() - first_violation > 8 || cands.size() + sh->num_records >= 4)) { stop = true; }
        bool active = false, progressed = false;
        for (int w = 0; w < workers; ++w)
        {
            auto& r = run[w];
            auto& slot = sh->slots[w];
            if (r.pid != 0)
            {
                int status;
                pid_t k = waitpid(r.pid, &status, WNOHANG);
                if (k == r.pid)
                {
                    progressed = true;
                    double dt = now() - r.started;
                    std::uint64_t fin = slot.finished;
                    if (fin < r.job.begin) { fin = r.job.begin; }
                    bool ok = WIFEXITED(status) && WEXITSTATUS(status) == 0;
                    if (!ok)
                    {
                        cands.push_back({r.job.fam, fin, r.job.begin, "crash", false});
                        if (first_violation == 0) { first_violation = now(); }
                        ++fin;
                        if (fin < r.job.end) { pending.push_back({r.job.fam, fin, r.job.end}); }
                    }
                    auto n = fin - r.job.begin;
                    done[r.job.fam] += n;
                    fam_time[r.job.fam] += dt;
                    if (n > 0)
                    {
                        double c = std::max(dt / n, 1e-7);
                        cost[r.job.fam] = cost[r.job.fam] <= 0 ? c : 0.7 * cost[r.job.fam] + 0.3 * c;
                    }
                    r.pid = 0;
                }
                else
                {
                    active = true;
                    double st = slot.start;
                    auto& f = fams[r.job.fam];
                    if (st > 0 && now() - st > f.limit)
                    {
                        kill(r.pid, SIGKILL);
                        waitpid(r.pid, &status, 0);
                        std::uint64_t idx = slot.current;
                        cands.push_back({r.job.fam, idx, r.job.begin, "timeout", true});
                        if (first_violation == 0) { first_violation = now(); }
                        done[r.job.fam] += idx + 1 - r.job.begin;
                        if (idx + 1 < r.job.end) { pending.push_back({r.job.fam, idx + 1, r.job.end}); }
                        r.pid = 0;
                    }
                }
            }
            if (sh->num_records > 0 && first_violation == 0) { first_violation = now(); }
            if (r.pid == 0 && !stop)
            {
                Job job;
                if (get_job(job))
                {
                    slot.current = job.begin;
                    slot.finished = job.begin;
                    slot.start = 0;
                    r.job = job;
                    r.started = now();
                    fflush(nullptr);
                    r.pid = fork();
                    if (r.pid == 0) { child(w, job); }
                    active = true;
                    progressed = true;
                }
            }
        }
        if (!active && (stop || (pending.empty() && cur >= fams.size()))) { break; }
        if (stop && !out_of_time && now() - first_violation > 12)
        {
            for (int w = 0; w < workers; ++w)
            {
                auto& r = run[w];
                if (!r.pid) { continue; }
                kill(r.pid, SIGKILL);
                int st;
                waitpid(r.pid, &st, 0);
                r.pid = 0;
                // the rest of the chunk is explored if the candidates turn out not to be violations
                std::uint64_t fin = sh->slots[w].finished;
                fin = std::clamp<std::uint64_t>(fin, r.job.begin, r.job.end);
                done[r.job.fam] += fin - r.job.begin;
                if (fin < r.job.end) { pending.push_back({r.job.fam, fin, r.job.end}); }
            }
            break;
        }
        if (stop && out_of_time && now() - t0 > budget + 30)
        {
            for (auto& r : run)
            {
                if (r.pid) { kill(r.pid, SIGKILL); int st; waitpid(r.pid, &st, 0); r.pid = 0; }
            }
            break;
        }
        if (!progressed) { usleep(500); }
    }

    for (int i = 0; i < std::min<int>(sh->num_records, 64); ++i)
    {
        auto& r = sh->records[i];
        cands.push_back({r.family, r.index, r.chunk_start, r.msg, false});
    }
    // simplest first: ordinary violations, then crashes, then hangs; small indices first
    std::stable_sort(cands.begin(), cands.end(), [](auto const& a, auto const& b) {
        return std::tuple(a.hang, a.fam, a.idx) < std::tuple(b.hang, b.fam, b.idx);
    });

    int hangs_tried = 0;
    for (auto& c : cands)
    {
        if (reps.size() >= 4) { break; }
        if (c.hang && (++hangs_tried > 3 || !reps.empty())) { continue; }
        std::string msg;
        bool bad = confirm(c.fam, c.idx, c.idx, fams[c.fam].limit * 4, msg);
        std::uint64_t first = c.idx;
        if (!bad && !c.hang)
        {
            first = c.first;
            bad = confirm(c.fam, c.first, c.idx, fams[c.fam].limit * 4 + 60, msg);
        }
        if (bad) { reps.push_back({fams[c.fam].name, c.idx, first, msg, show(fams[c.fam], c.idx)}); }
        else { unconfirmed.push_back(fams[c.fam].name + "[" + std::to_string(c.idx) + "]: " + c.msg); }
    }

    // nothing confirmed: carry on with what is left
    if (reps.empty() && !out_of_time && ++rounds < 12 && (!pending.empty() || cur < fams.size()))
    {
        cands.clear();
        sh->num_records = 0;
        first_violation = 0;
        stop = false;
        goto explore_again;
    }

    std::stringstream js;
    js << "{\n\"states\": " << sh->states << ",\n\"transitions\": " << sh->transitions << ",\n\"traces\": " << sh->traces
       << ",\n\"state_table_overflow\": " << sh->saturated << ",\n\"wall\": " << now() - t0
       << ",\n\"out_of_time\": " << (out_of_time ? "true" : "false") << ",\n\"outcomes\": [";
    for (int i = 0; i < 32; ++i) { js << (i ? "," : "") << sh->outcomes[i]; }
    js << "],\n\"caps\": [";
    for (int i = 0; i < std::min<int>(sh->num_caps, 64); ++i) { js << (i ? "," : "") << jstr(sh->caps[i]); }
    js << "],\n\"families\": [";
    for (std::size_t i = 0; i < fams.size(); ++i)
    {
        js << (i ? ",\n " : "\n ") << "{\"name\": " << jstr(fams[i].name) << ", \"size\": " << fams[i].size
           << ", \"executed\": " << done[i] << ", \"cpu_s\": " << fam_time[i] << "}";
    }
    js << "],\n\"samples\": [";
    for (std::size_t i = 0, n = 0; i < fams.size() && n < 12; ++i)
    {
        if (done[i] == 0) { continue; }
        auto s = show(fams[i], done[i] / 2);
        if (s.size() > 600) { s.resize(600); s += "..."; }
        js << (n++ ? ",\n " : "\n ") << jstr(fams[i].name + "[" + std::to_string(done[i] / 2) + "]: " + s);
    }
    js << "],\n\"unconfirmed\": [";
    for (std::size_t i = 0; i < unconfirmed.size(); ++i) { js << (i ? "," : "") << jstr(unconfirmed[i]); }
    js << "],\n\"violations\": [";
    for (std::size_t i = 0; i < reps.size(); ++i)
    {
        auto& r = reps[i];
        js << (i ? ",\n " : "\n ") << "{\"family\": " << jstr(r.fam) << ", \"index\": " << r.idx << ", \"first\": " << r.first
           << ", \"message\": " << jstr(r.msg) << ", \"item\": " << jstr(r.item) << "}";
    }
    js << "]\n}\n";
    if (!out.empty())
    {
        std::ofstream f(out);
        f << js.str();
    }
    else
    {
        printf("%s", js.str().c_str());
    }
    return reps.empty() ? 0 : 1;
}


// C28: memory from operator new is filled with a pattern of the run and has other addresses
namespace mc { int new_fill = -1; int new_order = 0; }
#ifndef __SANITIZE_ADDRESS__
#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <new>
namespace {
struct Stock { int left = 0; void* block[32]; };
Stock stock[65]; // by size / 16
}
void mc::drop_blocks()
{
    for (auto& s : stock) { while (s.left > 0) { free(s.block[--s.left]); } }
}
void* operator new(std::size_t n)
{
    void* p = nullptr;
    std::size_t k = (n + 15) / 16;
    if (mc::new_order && k <= 64)
    {
        auto& s = stock[k];
        if (s.left == 0)
        {
            for (; s.left < 32; ++s.left)
            {
                if (!(s.block[s.left] = malloc(k ? k * 16 : 1))) { throw std::bad_alloc(); }
            }
            std::sort(s.block, s.block + 32);
            if (mc::new_order == 2) { std::reverse(s.block, s.block + 32); }
        }
        p = s.block[--s.left];
    }
    else { p = malloc(n ? n : 1); }
    if (!p) { throw std::bad_alloc(); }
    if (mc::new_fill >= 0) { memset(p, mc::new_fill, n); }
    return p;
}
void operator delete(void* p) noexcept
{
    free(p);
}
void operator delete(void* p, std::size_t) noexcept
{
    free(p);
}
#else
void mc::drop_blocks() { }
#endif
