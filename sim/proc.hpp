// Process restarts: the simulator executes itself again, so that start-up code of the library really runs again.
#pragma once
#include "core.hpp"
#include <unistd.h>
#include <sys/wait.h>
#include <fcntl.h>

namespace sim
{
// runs `simulator incarnation PLAN` with the given entropy and clock; returns the lines it printed
inline std::vector<std::string> launch(const std::string& plan, u64 entropy, u64 clock)
{
    char path[4096];
    ssize_t n = readlink("/proc/self/exe", path, sizeof path - 1);
    if (n <= 0) throw Violation{"harness:exec", "cannot find the simulator"};
    path[n] = 0;
    int p[2];
    if (pipe(p)) throw Violation{"harness:exec", "pipe"};
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        dup2(p[1], 1);
        close(p[0]);
        setenv("SIM_ENTROPY", fmt("%llu", (unsigned long long)entropy).c_str(), 1);
        setenv("SIM_CLOCK", fmt("%llu", (unsigned long long)clock).c_str(), 1);
        execl(path, path, "incarnation", plan.c_str(), (char*)0);
        _exit(99);
    }
    close(p[1]);
    std::string out;
    char buf[65536];
    while ((n = read(p[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(p[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) throw Violation{"incarnation-died", fmt("a fresh process ended with status %d", st)};
    std::vector<std::string> v;
    size_t a = 0, e;
    while ((e = out.find('\n', a)) != std::string::npos) { v.push_back(out.substr(a, e - a)); a = e + 1; }
    return v;
}
// entropy and clock of two consecutive lives; both have the same process number, as in a container
struct Lives { u64 e1, e2, c1, c2; };
inline Lives two_lives(Run& r)
{
    Lives l;
    l.e1 = r.seed();
    l.c1 = 1000000000000ull + r.pick(1000000000);
    l.c2 = l.c1;
    l.e2 = r.seed() ^ 0x5555555555ull;
    if (l.e2 == l.e1) l.e2++;
    unsigned how = r.pick(4);
    if (how == 1) { l.c2 += 1 + r.pick(999999); r.fault("quick_restart"); }
    else if (how == 2) l.c2 += 1000000 + r.pick(1000000000);
    else if (how == 3) { l.c2 -= 1 + r.pick(2000000000); r.fault("clock_set_back"); }
    else r.fault("clock_stood_still");
    r.fault("process_restart");
    return l;
}
} // namespace sim
