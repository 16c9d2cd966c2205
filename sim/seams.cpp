// Link-time seams (-Wl,--wrap): randomness, cipher library, allocator, clock. Nothing in /repo is changed for them.
#include "core.hpp"
#include "threads.hpp"
#include <gmp.h>
#include <openssl/evp.h>
#include <malloc.h>
#include <new>
#include <time.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <sys/types.h>
#include <openssl/rand.h>
#include <errno.h>
#include <stdexcept>

namespace sim { namespace seam {
static bool on = false;
static u64 rseed = 0;
static unsigned shape = 0;
static Rng shaper(1);
static u64 ndraws = 0, nshaped = 0;
static std::set<const void*>* seen = 0;
static long evp_left = -1, evp_n = 0;
static bool evp_hit = false;
static const char* evp_name = "";
static bool evp_keep = false;
static long new_left = -1;
static bool new_hit = false;
static u64 fake_entropy = 0;
static int process = 7;
static long ent_left = -1, ent_more = 0;
static u64 ent_failed = 0;

void rng_setup(u64 seed, unsigned permille)
{
    on = true;
    rseed = seed;
    shape = permille;
    shaper = Rng(seed ^ 0x5a5a);
    if (!seen) seen = new std::set<const void*>;
    srand((unsigned)(seed * 2654435761u >> 7));
    fake_entropy = seed * 31 + 7;
}
static std::vector<mpz_class>* drawn_v = 0;
void record(std::vector<mpz_class>* v) { drawn_v = v; }
static const std::vector<mpz_class>* script_v = 0;
static size_t script_at = 0;
void script(const std::vector<mpz_class>* v) { script_v = v; script_at = 0; }
void rng_off() { on = false; shape = 0; }
u64 draws() { return ndraws; }
u64 shaped() { return nshaped; }
void evp_fail_at(long k) { evp_left = k; evp_hit = false; evp_n = 0; evp_name = ""; }
void evp_reset() { evp_left = -1; evp_hit = false; evp_n = 0; evp_keep = false; }
void evp_persistent(bool on) { evp_keep = on; }
long evp_calls() { return evp_n; }
bool evp_fired() { return evp_hit; }
const char* evp_last() { return evp_name; }
void new_fail_at(long k) { new_left = k; new_hit = false; }
bool new_fired() { return new_hit; }
void entropy_fail(long after, long times) { ent_left = after; ent_more = times; }
u64 entropy_failures() { return ent_failed; }
void other_process(int number, u64 entropy) { process = number; fake_entropy ^= entropy * 0x9e3779b97f4a7c15ull + number; }
u64 heap_in_use() { struct mallinfo2 m = mallinfo2(); return m.uordblks + m.hblkhd; }

static bool alloc_fails()
{
    sim::threads::point();
    if (new_left >= 0 && new_left-- == 0) { new_hit = true; return true; }
    return false;
}
static bool entropy_fails()
{
    if (ent_left < 0) return false;
    if (ent_left > 0) { ent_left--; return false; }
    if (ent_more <= 0) { ent_left = -1; return false; }
    ent_more--;
    ent_failed++;
    return true;
}
static bool evp_fails(const char* name)
{
    sim::threads::rare_point();
    evp_n++;
    if (evp_keep && evp_hit) return true;
    if (evp_left < 0) return false;
    if (evp_left-- == 0) { evp_hit = true; evp_name = name; return true; }
    return false;
}
static void before(gmp_randstate_ptr st)
{
    threads::Quiet quiet;
    ndraws++;
    if (on && seen->insert(st).second)
        gmp_randseed_ui(st, (unsigned long)(rseed + 1009 * seen->size()));
}
// a legal but unusual draw: leading bytes happen to be zero
static void after(mpz_ptr z, unsigned bits)
{
    threads::Quiet quiet;
    if (!on || !shape || bits < 100) return;
    if (shaper.below(1000) >= shape) return;
    unsigned k = 8 * (1 + (unsigned)shaper.below(2));
    unsigned keep = bits - k;
    if (mpz_sizeinbase(z, 2) > keep) { mpz_fdiv_r_2exp(z, z, keep); nshaped++; }
}
// re-execution: the draws of a recorded execution, one of them perhaps altered
static bool scripted(mpz_ptr z, mpz_srcptr n, unsigned bits)
{
    threads::Quiet quiet;
    if (!script_v || script_at >= script_v->size()) return false;
    mpz_set(z, (*script_v)[script_at++].get_mpz_t());
    if (n) mpz_fdiv_r(z, z, n); else mpz_fdiv_r_2exp(z, z, bits);
    return true;
}
// between reading and writing back a generator's state another thread may get its turn: an update without a lock can be lost
template <class F> static void drawn(gmp_randstate_ptr s, F f)
{
    if (!threads::on) { f(s); return; }
    gmp_randstate_t copy;
    { threads::Quiet q; gmp_randinit_set(copy, s); }
    threads::rare_point();
    f(copy);
    threads::rare_point();
    threads::Quiet q;
    gmp_randclear(s);
    *s = *copy;
}
static void noted(mpz_ptr z) { threads::Quiet quiet; if (drawn_v) drawn_v->push_back(mpz_class(z)); }
}} // namespace

using namespace sim::seam;

extern "C" {
void __real___gmpz_urandomm(mpz_ptr, gmp_randstate_ptr, mpz_srcptr);
void __wrap___gmpz_urandomm(mpz_ptr z, gmp_randstate_ptr s, mpz_srcptr n)
{
    before(s);
    unsigned b = mpz_sizeinbase(n, 2);
    if (!scripted(z, n, 0)) { drawn(s, [&](gmp_randstate_ptr t) { __real___gmpz_urandomm(z, t, n); }); after(z, b); }
    noted(z);
}
void __real___gmpz_urandomb(mpz_ptr, gmp_randstate_ptr, mp_bitcnt_t);
void __wrap___gmpz_urandomb(mpz_ptr z, gmp_randstate_ptr s, mp_bitcnt_t b)
{
    before(s);
    if (!scripted(z, 0, b)) { drawn(s, [&](gmp_randstate_ptr t) { __real___gmpz_urandomb(z, t, b); }); after(z, b); }
    noted(z);
}
void __real___gmpz_rrandomb(mpz_ptr, gmp_randstate_ptr, mp_bitcnt_t);
void __wrap___gmpz_rrandomb(mpz_ptr z, gmp_randstate_ptr s, mp_bitcnt_t b)
{
    before(s);
    drawn(s, [&](gmp_randstate_ptr t) { __real___gmpz_rrandomb(z, t, b); });
}
unsigned long __real___gmp_urandomb_ui(gmp_randstate_ptr, unsigned long);
unsigned long __wrap___gmp_urandomb_ui(gmp_randstate_ptr s, unsigned long n) { before(s); unsigned long v; drawn(s, [&](gmp_randstate_ptr t) { v = __real___gmp_urandomb_ui(t, n); }); return v; }
unsigned long __real___gmp_urandomm_ui(gmp_randstate_ptr, unsigned long);
unsigned long __wrap___gmp_urandomm_ui(gmp_randstate_ptr s, unsigned long n) { before(s); unsigned long v; drawn(s, [&](gmp_randstate_ptr t) { v = __real___gmp_urandomm_ui(t, n); }); return v; }

// pure memo of an expensive constant parse (the field constructors read their modulus from text on every operation)
int __real___gmpz_init_set_str(mpz_ptr, const char*, int);
int __wrap___gmpz_init_set_str(mpz_ptr z, const char* s, int base)
{
    sim::threads::point();
    sim::threads::Quiet quiet;
    static struct { char s[96]; int base; bool used; mpz_t v; } T[64];
    size_t l = strlen(s);
    if (l < 32 || l > 90) return __real___gmpz_init_set_str(z, s, base);
    unsigned h = (l * 31 + (unsigned char)s[8] * 7 + (unsigned char)s[l - 1] + (unsigned char)s[l - 20] * 13) % 64;
    if (T[h].used && T[h].base == base && !strcmp(T[h].s, s)) { mpz_init_set(z, T[h].v); return 0; }
    int r = __real___gmpz_init_set_str(z, s, base);
    if (r == 0)
    {
        if (!T[h].used) mpz_init_set(T[h].v, z); else mpz_set(T[h].v, z);
        strcpy(T[h].s, s);
        T[h].base = base;
        T[h].used = true;
    }
    return r;
}

// places at which another thread may get its turn
#define POINTSEAM(ret, name, params, args) ret __real_##name params; ret __wrap_##name params { sim::threads::point(); return __real_##name args; }
POINTSEAM(void, __gmpz_mul, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(void, __gmpz_add, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(void, __gmpz_sub, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(void, __gmpz_mod, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(void, __gmpz_tdiv_r, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(void, __gmpz_fdiv_r, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(int, __gmpz_invert, (mpz_ptr z, mpz_srcptr a, mpz_srcptr b), (z, a, b))
POINTSEAM(void, __gmpz_powm, (mpz_ptr z, mpz_srcptr a, mpz_srcptr e, mpz_srcptr m), (z, a, e, m))
POINTSEAM(void, __gmpz_set, (mpz_ptr z, mpz_srcptr a), (z, a))
POINTSEAM(void, __gmpz_init_set, (mpz_ptr z, mpz_srcptr a), (z, a))
POINTSEAM(void, __gmpz_clear, (mpz_ptr z), (z))
POINTSEAM(void*, __gmpz_export, (void* p, size_t* n, int o, size_t s, int e, size_t nails, mpz_srcptr z), (p, n, o, s, e, nails, z))
POINTSEAM(void, __gmpz_import, (mpz_ptr z, size_t n, int o, size_t s, int e, size_t nails, const void* p), (z, n, o, s, e, nails, p))

static unsigned char ent_byte()
{
    static bool first = true;
    if (first) { first = false; if (const char* e = getenv("SIM_ENTROPY")) fake_entropy ^= strtoull(e, 0, 10); }
    fake_entropy = fake_entropy * 6364136223846793005ull + 1442695040888963407ull;
    return fake_entropy >> 56;
}
static unsigned long long now_us()
{
    static unsigned long long base = ~0ull;
    if (base == ~0ull) { const char* e = getenv("SIM_CLOCK"); base = e ? strtoull(e, 0, 10) : 0; }
    return base + sim::Sim::clock();
}
// entropy and clocks that code might start to use: simulated
static void fill(void* p, size_t n) { for (size_t i = 0; i < n; i++) ((unsigned char*)p)[i] = ent_byte(); }
int __wrap_getentropy(void* p, size_t n) { if (entropy_fails()) { errno = EIO; return -1; } fill(p, n); return 0; }
unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*)
{
    if (entropy_fails()) throw std::runtime_error("random_device could not be read");
    unsigned v;
    fill(&v, sizeof v);
    return v;
}
int __wrap_RAND_bytes(unsigned char* p, int n) { if (entropy_fails()) return 0; fill(p, n); return 1; }
int __wrap_RAND_priv_bytes(unsigned char* p, int n) { if (entropy_fails()) return 0; fill(p, n); return 1; }
uint32_t __wrap_arc4random() { uint32_t v; fill(&v, 4); return v; }
ssize_t __wrap_getrandom(void* p, size_t n, unsigned) { if (entropy_fails()) { errno = EIO; return -1; } fill(p, n); return n; }
static const long EPOCH = 1700000000;
time_t __wrap_time(time_t* t) { time_t v = EPOCH + now_us() / 1000000; if (t) *t = v; return v; }
int __wrap_clock_gettime(clockid_t, struct timespec* t) { t->tv_sec = EPOCH + now_us() / 1000000; t->tv_nsec = now_us() % 1000000 * 1000; return 0; }
int __wrap_gettimeofday(struct timeval* t, void*) { t->tv_sec = EPOCH + now_us() / 1000000; t->tv_usec = now_us() % 1000000; return 0; }
long long __wrap__ZNSt6chrono3_V212system_clock3nowEv() { return (EPOCH * 1000000ll + (long long)now_us()) * 1000; }
long long __wrap__ZNSt6chrono3_V212steady_clock3nowEv() { return (long long)now_us() * 1000; }
clock_t __wrap_clock() { return now_us(); }
pid_t __wrap_getpid() { return process; }
pid_t __wrap_getppid() { return 1; }
pid_t __wrap_gettid() { return process; }

// what the library allocates by itself (GMP's and OpenSSL's own allocations are not reached)
void* __real_malloc(size_t);
void* __real_realloc(void*, size_t);
void* __real_calloc(size_t, size_t);
void* __wrap_malloc(size_t n) { return alloc_fails() ? NULL : __real_malloc(n); }
void* __wrap_realloc(void* p, size_t n) { return alloc_fails() ? NULL : __real_realloc(p, n); }
void* __wrap_calloc(size_t a, size_t b) { return alloc_fails() ? NULL : __real_calloc(a, b); }

#define EVPSEAM(ret, name, params, args, failval) \
    ret __real_##name params;                     \
    ret __wrap_##name params { if (evp_fails(#name)) return failval; return __real_##name args; }
EVPSEAM(EVP_CIPHER_CTX*, EVP_CIPHER_CTX_new, (void), (), NULL)
EVPSEAM(int, EVP_EncryptInit_ex, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i), (c, t, e, k, i), 0)
EVPSEAM(int, EVP_DecryptInit_ex, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i), (c, t, e, k, i), 0)
EVPSEAM(int, EVP_CipherInit_ex, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, ENGINE* e, const unsigned char* k, const unsigned char* i, int enc), (c, t, e, k, i, enc), 0)
EVPSEAM(int, EVP_EncryptInit, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* i), (c, t, k, i), 0)
EVPSEAM(int, EVP_DecryptInit, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* i), (c, t, k, i), 0)
EVPSEAM(int, EVP_EncryptInit_ex2, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* i, const OSSL_PARAM* p), (c, t, k, i, p), 0)
EVPSEAM(int, EVP_DecryptInit_ex2, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* i, const OSSL_PARAM* p), (c, t, k, i, p), 0)
EVPSEAM(int, EVP_EncryptUpdate, (EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* in, int n), (c, o, l, in, n), 0)
EVPSEAM(int, EVP_DecryptUpdate, (EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* in, int n), (c, o, l, in, n), 0)
EVPSEAM(int, EVP_CipherUpdate, (EVP_CIPHER_CTX* c, unsigned char* o, int* l, const unsigned char* in, int n), (c, o, l, in, n), 0)
EVPSEAM(int, EVP_EncryptFinal_ex, (EVP_CIPHER_CTX* c, unsigned char* o, int* l), (c, o, l), 0)
EVPSEAM(int, EVP_DecryptFinal_ex, (EVP_CIPHER_CTX* c, unsigned char* o, int* l), (c, o, l), 0)
EVPSEAM(int, EVP_CipherFinal_ex, (EVP_CIPHER_CTX* c, unsigned char* o, int* l), (c, o, l), 0)
EVPSEAM(int, EVP_CipherInit, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* i, int e), (c, t, k, i, e), 0)
EVPSEAM(int, EVP_CipherInit_ex2, (EVP_CIPHER_CTX* c, const EVP_CIPHER* t, const unsigned char* k, const unsigned char* i, int e, const OSSL_PARAM* p), (c, t, k, i, e, p), 0)
EVPSEAM(int, EVP_CipherFinal, (EVP_CIPHER_CTX* c, unsigned char* o, int* l), (c, o, l), 0)
EVPSEAM(int, EVP_CIPHER_CTX_set_padding, (EVP_CIPHER_CTX* c, int p), (c, p), 0)
EVPSEAM(int, EVP_EncryptFinal, (EVP_CIPHER_CTX* c, unsigned char* o, int* l), (c, o, l), 0)
EVPSEAM(int, EVP_DecryptFinal, (EVP_CIPHER_CTX* c, unsigned char* o, int* l), (c, o, l), 0)
}

void* operator new(size_t n)
{
    if (alloc_fails()) throw std::bad_alloc();
    void* p = __real_malloc(n ? n : 1);
    if (!p) throw std::bad_alloc();
    return p;
}
void* operator new[](size_t n) { return operator new(n); }
void operator delete(void* p) noexcept { sim::threads::point(); free(p); }
void operator delete[](void* p) noexcept { free(p); }
void operator delete(void* p, size_t) noexcept { free(p); }
void operator delete[](void* p, size_t) noexcept { free(p); }
