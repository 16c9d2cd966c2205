#include "core.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <unistd.h>
#include <fcntl.h>
#include <signal.h>
#include <time.h>
#include <errno.h>
#include <fstream>
#include <sstream>
#include <exception>
#include <sys/personality.h>

extern "C" int __real_clock_gettime(clockid_t, struct timespec*);
namespace ref { void init(); }
namespace sim { void special(int, char**); }

namespace sim
{
static std::map<std::string, std::pair<scenario_fn, unsigned>>& registry()
{
    static std::map<std::string, std::pair<scenario_fn, unsigned>> m;
    return m;
}
Reg::Reg(const char* id, scenario_fn f, unsigned cpu_s) { registry()[id] = std::make_pair(f, cpu_s); }

void mix(u64& h, const void* p, size_t n)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; i++) h = (h ^ c[i]) * 0x100000001b3ull;
}
std::string hex(const mpz_class& v) { return v.get_str(16); }
std::string fmt(const char* f, ...)
{
    char b[2000];
    va_list ap;
    va_start(ap, f);
    vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    return b;
}
void Run::log(const char* f, ...)
{
    char b[2000];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    mix(sh->loghash, b, n);
    mix(sh->loghash, "\n", 1);
    if (trace) { fprintf(trace, "[%llu] %s\n", (unsigned long long)Sim::clock(), b); fflush(trace); }
}
void Run::sched(const char* f, ...)
{
    char b[2000];
    va_list ap;
    va_start(ap, f);
    int n = vsnprintf(b, sizeof b, f, ap);
    va_end(ap);
    if (n > (int)sizeof b - 1) n = sizeof b - 1;
    mix(sh->sig, b, n);
    log("%s", b);
}
void Run::count(const std::string& name, u64 by)
{
    for (uint32_t i = 0; i < sh->nctr; i++)
        if (name == sh->ctrname[i]) { sh->ctr[i] += by; return; }
    if (sh->nctr < MAXCTR)
    {
        strncpy(sh->ctrname[sh->nctr], name.c_str(), 55);
        sh->ctr[sh->nctr++] = by;
    }
}

static double wall()
{
    struct timespec t;
    __real_clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec + t.tv_nsec * 1e-9;
}

static std::string jesc(const std::string& s)
{
    std::string o;
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o;
}

struct Outcome { std::string verdict, cls, msg; };

static Shared* shared_new()
{
    void* p = mmap(0, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); exit(2); }
    return (Shared*)p;
}

// every run happens in a child forked from a process in which the library has not been used yet
static Outcome run_once(Shared* sh, const std::string& id, u64 seed, const std::vector<u64>* given, const std::set<std::string>& known, const char* tracefile)
{
    auto& sc = registry().at(id);
    memset((void*)sh, 0, offsetof(Shared, choices));
    sh->loghash = sh->sig = 0xcbf29ce484222325ull;
    int cap = memfd_create("simout", 0);
    fflush(stdout);
    fflush(stderr);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); exit(2); }
    if (pid == 0)
    {
        dup2(cap, 1);
        dup2(cap, 2);
        struct rlimit rl = {sc.second, sc.second + 2};
        setrlimit(RLIMIT_CPU, &rl);
        struct rlimit core = {0, 0};
        setrlimit(RLIMIT_CORE, &core);
#ifndef SIM_ASAN
        struct rlimit as = {6ull << 30, 6ull << 30};
        setrlimit(RLIMIT_AS, &as);
#endif
        Run r(sh, seed);
        if (given) { r.replay = true; r.given = given->data(); r.ngiven = given->size(); }
        r.known = known;
        if (tracefile) r.trace = fopen(tracefile, "w");
        const char* tier = getenv("VERIF_TIER");
        r.thorough = tier && !strcmp(tier, "thorough");
        int st = 1;
        try
        {
            sc.first(r);
            sh->simdone = 1;
        }
        catch (const Violation& v)
        {
            strncpy(sh->cls, v.cls.c_str(), sizeof sh->cls - 1);
            strncpy(sh->msg, v.msg.c_str(), sizeof sh->msg - 1);
            r.log("VIOLATION %s: %s", v.cls.c_str(), v.msg.c_str());
            st = 2;
        }
        catch (const std::exception& e)
        {
            strcpy(sh->cls, "uncaught-exception");
            strncpy(sh->msg, e.what(), sizeof sh->msg - 1);
            r.log("uncaught exception");
            st = 2;
        }
        sh->state = st;
        fflush(stdout);
        _exit(0);
    }
    int status = 0;
    while (waitpid(pid, &status, 0) < 0 && errno == EINTR) {}
    Outcome o;
    std::string out;
    char b[4096];
    lseek(cap, 0, SEEK_SET);
    ssize_t n;
    while (out.size() < 20000 && (n = read(cap, b, sizeof b)) > 0) out.append(b, n);
    close(cap);
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->state == 1) { o.verdict = "ok"; return o; }
    o.verdict = "violation";
    if (WIFEXITED(status) && WEXITSTATUS(status) == 0 && sh->state == 2)
    {
        o.cls = sh->cls;
        o.msg = sh->msg;
        if (o.cls.compare(0, 8, "harness:") == 0) o.verdict = "error";
        return o;
    }
    if (WIFSIGNALED(status))
    {
        int s = WTERMSIG(status);
        if (s == SIGXCPU || s == SIGKILL) { o.cls = "hang"; o.msg = "no progress within the CPU bound of a run"; }
        else { o.cls = fmt("crash:signal%d", s); o.msg = "process died"; }
    }
    else if (WIFEXITED(status) && WEXITSTATUS(status) == 77)
    {
        size_t p = out.find("ERROR: AddressSanitizer: ");
        o.cls = "memory";
        if (p != std::string::npos)
        {
            p += 25;
            o.cls = "memory:" + out.substr(p, out.find_first_of(" \n", p) - p);
            o.msg = out.substr(p, std::min<size_t>(out.find("\n\n", p) == std::string::npos ? 1500 : out.find("\n\n", p) - p, 1500));
            // addresses differ between processes; keep the text readable but do not compare it
        }
    }
    else
    {
        o.cls = fmt("exit:%d", WIFEXITED(status) ? WEXITSTATUS(status) : -1);
        o.msg = "process ended unexpectedly: " + out.substr(0, 300);
    }
    return o;
}

static void print_result(const Shared* sh, const Outcome& o, u64 run, bool with_choices)
{
    printf("{\"run\":%llu,\"verdict\":\"%s\",\"cls\":\"%s\",\"msg\":\"%s\",\"hash\":\"%016llx\",\"sig\":\"%016llx\",\"n\":%llu,\"steps\":%llu,\"simtime\":%llu,\"evals\":%llu",
           (unsigned long long)run, o.verdict.c_str(), jesc(o.cls).c_str(), jesc(o.msg).c_str(), (unsigned long long)sh->loghash,
           (unsigned long long)sh->sig, (unsigned long long)sh->nchoices, (unsigned long long)sh->steps, (unsigned long long)sh->simtime,
           (unsigned long long)sh->evals);
    printf(",\"ctr\":{");
    for (uint32_t i = 0; i < sh->nctr; i++)
        printf("%s\"%s\":%llu", i ? "," : "", jesc(sh->ctrname[i]).c_str(), (unsigned long long)sh->ctr[i]);
    printf("}");
    if (with_choices)
    {
        printf(",\"choices\":[");
        for (u64 i = 0; i < sh->nchoices; i++) printf("%s%llu", i ? "," : "", (unsigned long long)sh->choices[i]);
        printf("]");
    }
    printf("}\n");
    fflush(stdout);
}
} // namespace sim

using namespace sim;

// sim batch ID SEED FIRST STEP COUNT WALLCAP [--known a,b]      one JSON line per run
// sim exec ID FILE [--trace F] [--known a,b]                    FILE: whitespace separated choices
// sim seedrun ID SEED RUN [--trace F]
namespace sim { __attribute__((weak)) void special(int, char**) {} }
static u64 runseed(u64 seed, u64 run) { Rng g(seed * 1000003ull + run * 7919ull + 17); g.next(); return g.next(); }

int main(int argc, char** argv)
{
    // fixed address layout, so that even a wild pointer behaves the same in every execution
    int per = personality(0xffffffff);
    if (per >= 0 && !(per & ADDR_NO_RANDOMIZE) && !getenv("SIM_LAYOUT"))
    {
        setenv("SIM_LAYOUT", "1", 1);
        if (personality(per | ADDR_NO_RANDOMIZE) >= 0) execv("/proc/self/exe", argv);
    }
    setenv("SIM_LAYOUT", "1", 1);
    if (argc > 1 && std::string(argv[1]) == "incarnation") { ref::init(); sim::special(argc, argv); return 2; }
    setvbuf(stdout, 0, _IOFBF, 1 << 16);
    std::vector<std::string> a(argv + 1, argv + argc);
    std::set<std::string> known;
    const char* trace = 0;
    for (size_t i = 0; i + 1 < a.size(); i++)
    {
        if (a[i] == "--known")
        {
            std::stringstream ss(a[i + 1]);
            std::string x;
            while (std::getline(ss, x, ',')) known.insert(x);
        }
        if (a[i] == "--trace") trace = argv[i + 2];
    }
    if (a.size() < 3 || !registry().count(a[1])) { fprintf(stderr, "usage\n"); return 2; }
    ref::init();
    Shared* sh = shared_new();
    if (a[0] == "batch")
    {
        u64 seed = strtoull(a[2].c_str(), 0, 10), first = strtoull(a[3].c_str(), 0, 10), step = strtoull(a[4].c_str(), 0, 10),
            count = strtoull(a[5].c_str(), 0, 10);
        double end = wall() + atof(a[6].c_str());
        for (u64 i = first; i < count && wall() < end; i += step)
        {
            Outcome o = run_once(sh, a[1], runseed(seed, i), 0, known, 0);
            print_result(sh, o, i, o.verdict != "ok");
        }
        printf("{\"end\":1}\n");
    }
    else if (a[0] == "seedrun")
    {
        Outcome o = run_once(sh, a[1], runseed(strtoull(a[2].c_str(), 0, 10), strtoull(a[3].c_str(), 0, 10)), 0, known, trace);
        print_result(sh, o, strtoull(a[3].c_str(), 0, 10), true);
    }
    else if (a[0] == "exec")
    {
        std::vector<u64> ch;
        std::ifstream f(a[2]);
        std::string w;
        while (f >> w) ch.push_back(strtoull(w.c_str(), 0, 10));
        Outcome o = run_once(sh, a[1], 0, &ch, known, trace);
        print_result(sh, o, 0, true);
    }
    else
        return 2;
    return 0;
}
