// Parties in processes of their own. A node is the simulator executed again; it serves one command per line. Everything that
// goes between nodes goes through the simulator as text, so a node can be killed and started again at any point.
#pragma once
#include "proc.hpp"
#include "refec.hpp"
#include <signal.h>
#include <sstream>

namespace sim
{
class Peer
{
    pid_t pid;
    int in;
    FILE* out;
    Peer(const Peer&);
public:
    Peer(u64 entropy, u64 clock) : pid(-1), in(-1), out(0)
    {
        char path[4096];
        ssize_t n = readlink("/proc/self/exe", path, sizeof path - 1);
        if (n <= 0) throw Violation{"harness:exec", "cannot find the simulator"};
        path[n] = 0;
        int p[2], q[2];
        if (pipe2(p, O_CLOEXEC) || pipe2(q, O_CLOEXEC)) throw Violation{"harness:exec", "pipe"};
        signal(SIGPIPE, SIG_IGN);
        fflush(stdout);
        pid = fork();
        if (pid == 0)
        {
            dup2(p[0], 0);
            dup2(q[1], 1);
            setenv("SIM_ENTROPY", fmt("%llu", (unsigned long long)entropy).c_str(), 1);
            setenv("SIM_CLOCK", fmt("%llu", (unsigned long long)clock).c_str(), 1);
            execl(path, path, "incarnation", "node", (char*)0);
            _exit(99);
        }
        if (pid < 0) throw Violation{"harness:exec", "fork"};
        close(p[0]);
        close(q[1]);
        in = p[1];
        out = fdopen(q[0], "r");
    }
    ~Peer() { kill(); }
    void kill()
    {
        if (pid < 0) return;
        ::kill(pid, SIGKILL);
        int st;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        pid = -1;
        close(in);
        fclose(out);
    }
    // the answer's words; throws std::runtime_error when the node refuses
    std::vector<std::string> call(const std::string& cmd)
    {
        std::string l = cmd + "\n";
        size_t done = 0;
        while (done < l.size())
        {
            ssize_t n = write(in, l.data() + done, l.size() - done);
            if (n < 0 && errno == EINTR) continue;
            if (n <= 0) died(cmd);
            done += n;
        }
        std::string ans;
        int c;
        while ((c = getc(out)) != EOF && c != '\n') ans += c;
        if (c == EOF) died(cmd);
        if (ans.substr(0, 2) == "! ") throw std::runtime_error(ans.substr(2));
        std::stringstream ss(ans);
        std::vector<std::string> v;
        std::string w;
        while (ss >> w) v.push_back(w);
        return v;
    }
private:
    void died(const std::string& cmd)
    {
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        pid = -1;
        close(in);
        fclose(out);
        std::string how = WIFSIGNALED(st) ? fmt("signal%d", WTERMSIG(st)) : WEXITSTATUS(st) == 77 ? std::string("memory") : fmt("exit%d", WEXITSTATUS(st));
        throw Violation{"node-died:" + how, "a process ended while it served: " + cmd.substr(0, cmd.find(' '))};
    }
};
} // namespace sim
