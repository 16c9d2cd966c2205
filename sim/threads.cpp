#include "threads.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <errno.h>
#include <stdlib.h>

namespace sim { namespace threads {
bool on = false;
long left = 0;
static Run* R = 0;
static int current = -1, nthreads = 0, live = 0;
static unsigned switches = 0, stuck = 0;
static sem_t sems[16], all_done;
static bool ended[16];
static bool ranked;                                    // a thread that is switched away from waits until the others are through
static int rank[16], lowest;
static const std::vector<std::function<void()>>* todo = 0;
static __thread int me = -1;

bool active() { return me >= 0; }

static void budget()
{
    if (ranked)
    {
        unsigned bits = 4 + R->pick(19);
        left = switches < 200 ? 1 + R->pick(1u << bits) : 1 << 30;
        return;
    }
    // mostly long turns, sometimes very short ones
    switch (switches < 3000 ? R->pick(4) : 0)
    {
    case 0: left = 400000; break;
    case 1: left = 1 + R->pick(60000); break;
    case 2: left = 1 + R->pick(1500); break;
    default: left = 1 + R->pick(25);
    }
}
static int choose(bool other)
{
    std::vector<int> c;
    for (int i = 0; i < nthreads; i++) if (!ended[i] && !(other && i == me)) c.push_back(i);
    if (c.empty()) return -1;
    if (!ranked) return c[R->pick(c.size())];
    int best = c[0];
    for (int i : c) if (rank[i] > rank[best]) best = i;
    return best;
}
static void to(int next)
{
    switches++;
    if (ranked) rank[me] = --lowest;
    R->sched("switch %d -> %d", me, next);
    current = next;
    int self = me;
    budget();
    on = true;
    sem_post(&sems[next]);
    while (sem_wait(&sems[self]) && errno == EINTR) {}
}
void reschedule(bool rare)
{
    if (me < 0) { left = 1 << 30; return; }
    on = false;
    stuck = 0;
    if (rare)
    {
        if (switches >= 3000 || R->pick(6) != 5) { on = true; return; }
        R->count("probe.switched_at_draw_or_cipher");
    }
    int next = choose(true);
    if (next < 0) { left = 1 << 30; on = true; return; }
    to(next);
}
void wait_for_others()
{
    if (me < 0) throw Violation{"deadlock", "a lock is never released"};
    on = false;
    if (++stuck > 20000) throw Violation{"deadlock", "threads wait for each other"};
    int next = choose(true);
    if (next < 0) throw Violation{"deadlock", "a thread waits for a lock that no other thread will release"};
    to(next);
}
static void* body(void* p)
{
    int i = (int)(long)p;
    while (sem_wait(&sems[i]) && errno == EINTR) {}
    me = i;
    (*todo)[i]();
    on = false;
    R->sched("thread %d ended", i);
    ended[i] = true;
    if (--live == 0) sem_post(&all_done);
    else
    {
        int next = choose(true);
        current = next;
        budget();
        on = true;
        sem_post(&sems[next]);
    }
    me = -1;
    return 0;
}
void run(Run& r, const std::vector<std::function<void()>>& bodies)
{
    R = &r;
    todo = &bodies;
    nthreads = live = bodies.size();
    switches = stuck = 0;
    ranked = r.pick(3) == 2;
    lowest = 0;
    for (int i = 0; i < nthreads; i++) rank[i] = nthreads - i;
    if (ranked) r.count("runs_with_long_stalls");
    sem_init(&all_done, 0, 0);
    std::vector<pthread_t> t(nthreads);
    for (int i = 0; i < nthreads; i++)
    {
        ended[i] = false;
        sem_init(&sems[i], 0, 0);
        if (pthread_create(&t[i], 0, body, (void*)(long)i)) throw Violation{"harness:threads", "cannot create a thread"};
    }
    int first = choose(false);
    budget();
    on = true;
    sem_post(&sems[first]);
    while (sem_wait(&all_done) && errno == EINTR) {}
    on = false;
    for (auto x : t) pthread_join(x, 0);
    r.count("switches", switches);
    r.sh->steps += switches;
}
}} // namespace

using namespace sim::threads;
// locks and guards that code might use: a simulated thread that would block lets the others go on
struct Held                                            // what is being initialised; no static locals in here
{
    const void* p[64];
    bool count(const void* x) { for (auto q : p) if (q == x) return true; return false; }
    void insert(const void* x) { for (auto& q : p) if (!q) { q = x; return; } abort(); }
    void erase(const void* x) { for (auto& q : p) if (q == x) q = 0; }
};
static Held held_guards, held_onces;
static Held& guards() { return held_guards; }
static Held& onces() { return held_onces; }
extern "C" {
int __real_pthread_mutex_lock(pthread_mutex_t*);
int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!active()) return __real_pthread_mutex_lock(m);
    rare_point();
    int e;
    while ((e = pthread_mutex_trylock(m)) == EBUSY) wait_for_others();
    return e;
}
int __real_pthread_rwlock_wrlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_wrlock(pthread_rwlock_t* m)
{
    if (!active()) return __real_pthread_rwlock_wrlock(m);
    rare_point();
    int e;
    while ((e = pthread_rwlock_trywrlock(m)) == EBUSY) wait_for_others();
    return e;
}
int __real_pthread_rwlock_rdlock(pthread_rwlock_t*);
int __wrap_pthread_rwlock_rdlock(pthread_rwlock_t* m)
{
    if (!active()) return __real_pthread_rwlock_rdlock(m);
    int e;
    while ((e = pthread_rwlock_tryrdlock(m)) == EBUSY) wait_for_others();
    return e;
}
// std::call_once
int __real_pthread_once(pthread_once_t*, void (*)(void));
int __wrap_pthread_once(pthread_once_t* o, void (*f)(void))
{
    while (active() && onces().count(o)) wait_for_others();
    struct In { const void* o; In(const void* x) : o(x) { Quiet q; onces().insert(o); } ~In() { Quiet q; onces().erase(o); } } in(o);
    return __real_pthread_once(o, f);
}
// initialisation of static locals
int __real___cxa_guard_acquire(unsigned char*);
int __wrap___cxa_guard_acquire(unsigned char* g)
{
    if (!active()) return __real___cxa_guard_acquire(g);
    if (__atomic_load_n(g, __ATOMIC_ACQUIRE) & 1) return 0;
    rare_point();
    while (true)
    {
        bool busy;
        { Quiet q; busy = guards().count(g); }
        if (!busy) break;
        wait_for_others();
    }
    if (*g & 1) return 0;
    Quiet q;
    guards().insert(g);
    return 1;
}
void __real___cxa_guard_release(unsigned char*);
void __wrap___cxa_guard_release(unsigned char* g)
{
    if (!active()) return __real___cxa_guard_release(g);
    Quiet q;
    guards().erase(g);
    __atomic_store_n(g, 1, __ATOMIC_RELEASE);
}
void __real___cxa_guard_abort(unsigned char*);
void __wrap___cxa_guard_abort(unsigned char* g)
{
    if (!active()) return __real___cxa_guard_abort(g);
    Quiet q;
    guards().erase(g);
}
}
