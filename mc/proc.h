// Run the main function of one of the programs in a child process and collect what it printed.
#ifndef MC_PROC_H
#define MC_PROC_H
#include "runner.h"
#include <cerrno>
#include <csignal>
#include <cstdlib>
#include <fcntl.h>
#include <functional>
#include <iostream>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>

namespace mc {

struct Ended { int status = 0; bool signaled = false; std::string out, err; };

inline int memory_file()
{
    int fd = memfd_create("mc", 0);
    if (fd < 0) { perror("memfd_create"); abort(); }
    return fd;
}
inline std::string contents(int fd)
{
    std::string r;
    char buf[4096];
    lseek(fd, 0, SEEK_SET);
    for (ssize_t n; (n = read(fd, buf, sizeof buf)) > 0; ) { r.append(buf, n); }
    return r;
}

// run `body` in a child whose standard output and error go to files in memory
inline Ended in_child(std::function<int()> const& body)
{
    static int out = memory_file(), err = memory_file();
    for (int fd : {out, err}) { if (ftruncate(fd, 0)) { abort(); } lseek(fd, 0, SEEK_SET); }
    std::cout.flush();
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); abort(); }
    if (pid == 0)
    {
        prctl(PR_SET_PDEATHSIG, SIGKILL);
        alarm(60);
        dup2(out, 1);
        dup2(err, 2);
        int rc = body();
        std::cout.flush();
        std::cerr.flush();
        fflush(nullptr);
        _exit(rc & 255);
    }
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) { }
    Ended r;
    r.signaled = WIFSIGNALED(st);
    r.status = r.signaled ? WTERMSIG(st) : WEXITSTATUS(st);
    r.out = contents(out);
    r.err = contents(err);
    return r;
}

inline Ended run_main(int (*entry)(int, char**), std::vector<std::string> args)
{
    return in_child([&] {
        std::vector<char*> argv;
        for (auto& a : args) { argv.push_back(a.data()); }
        argv.push_back(nullptr);
        return entry((int)args.size(), argv.data());
    });
}
inline Ended run_program(std::string const& path, std::vector<std::string> args)
{
    return in_child([&] {
        std::vector<char*> argv;
        for (auto& a : args) { argv.push_back(a.data()); }
        argv.push_back(nullptr);
        execv(path.c_str(), argv.data());
        perror("execv");
        return 127;
    });
}

// a file in memory which can be named by a path
struct Memory_file {
    int fd = memory_file();
    ~Memory_file() { close(fd); }
    std::string path() const { return "/proc/self/fd/" + std::to_string(fd); }
    void write(std::string const& s)
    {
        if (ftruncate(fd, 0)) { abort(); }
        lseek(fd, 0, SEEK_SET);
        for (std::size_t i = 0; i < s.size(); )
        {
            auto n = ::write(fd, s.data() + i, s.size() - i);
            if (n <= 0) { perror("write"); abort(); }
            i += n;
        }
    }
};

inline std::vector<std::string> lines(std::string const& s)
{
    std::vector<std::string> r;
    std::string cur;
    for (char c : s) { if (c == '\n') { r.push_back(cur); cur.clear(); } else { cur += c; } }
    if (!cur.empty()) { r.push_back(cur); }
    return r;
}
inline std::string visible(std::string const& s)
{
    std::string r;
    for (char c : s) { if (c == '\n') { r += "\\n"; } else if (c == '\t') { r += "\\t"; } else if (c == '\r') { r += "\\r"; } else { r += c; } }
    return r;
}

} // namespace mc
#endif
