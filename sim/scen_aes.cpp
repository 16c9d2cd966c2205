// C08 (checked encryption under storage faults and changing keys/vectors), C09 (failing cipher library)
#include "core.hpp"
#include "refec.hpp"
#include "aes.hpp"
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <signal.h>

using namespace sim;

namespace
{
mpz_class pick_key(Run& r)
{
    switch (r.pick(8))
    {
    case 0: return r.pick(3);
    case 1: return (mpz_class(1) << 128) - 1 - (long)r.pick(3);
    case 2: return mpz_class(1) << (unsigned)r.pick(128);
    case 3: { Rng g(r.seed()); return g.bits(8 * r.pick(17)); }          // shorter keys: leading bytes are zero
    case 4: { Rng g(r.seed()); return g.bits(128) & ~(mpz_class(255) << (unsigned)(8 * r.pick(16))); }
    default: { Rng g(r.seed()); return g.bits(128); }
    }
}
mpz_class pick_msg(Run& r, unsigned maxbytes)
{
    switch (r.pick(8))
    {
    case 0: return r.pick(4);
    case 1: return mpz_class(1) << (unsigned)r.pick(8 * maxbytes - 1);
    case 2: return (mpz_class(1) << (unsigned)(1 + r.pick(8 * maxbytes - 1))) - 1;
    case 3: { Rng g(r.seed()); return g.bits(8 * (1 + r.pick(8))); }
    case 4: { Rng g(r.seed()); return g.bits(128); }
    case 5: { Rng g(r.seed()); mpz_class m = g.bits(8 * (1 + r.pick(40))); return m << (unsigned)(8 * (1 + r.pick(5))); }
    default: { Rng g(r.seed()); return g.bits(8 * (1 + r.pick(maxbytes))); }
    }
}
std::string pick_iv(Run& r)
{
    std::string s(16, '\0');
    switch (r.pick(4))
    {
    case 0: for (auto& c : s) c = 0x41 + r.pick(20); break;
    case 1: s[r.pick(16)] = (char)(1 + r.pick(255)); break;
    default: { Rng g(r.seed()); for (auto& c : s) c = (char)g.next(); }
    }
    return s;
}

// A node keeps sealed records on storage that decays; it rotates keys and vectors and restarts.
void c08(Run& r)
{
    Sim::clock() = 0;
    seam::rng_setup(r.seed(), 0);
    struct Rec { int key, iv; mpz_class msg, ct; };
    std::vector<mpz_class> keys;
    std::vector<std::string> ivs;          // index 0: the default vector
    std::vector<Rec> store;
    ivs.push_back("");
    unsigned nk = 1 + r.pick(4), ni = r.pick(3), maxb = r.of(std::vector<unsigned>{40, 120, 128, 300, 600});
    bool lengthy = r.pick(400) == 399;                // many keys and records, for a long time
    if (lengthy) { nk = r.pick(2) ? nk : 10 + r.pick(290); maxb = 40; r.probe("long_service"); }
    bool bulky = !lengthy && r.pick(200) == 199;      // records of many pages
    if (bulky) { maxb = (1u << (10 + r.pick(12))) + r.pick(5000); r.probe("bulky_records"); }
    for (unsigned i = 0; i < nk; i++)
    {
        if (i && r.pick(3) == 2)             // almost a key that is in use already
        {
            mpz_class k = r.of(keys);
            switch (r.pick(3))
            {
            case 0: mpz_combit(k.get_mpz_t(), r.pick(128)); break;
            case 1: mpz_combit(k.get_mpz_t(), 64 + r.pick(60)); break;
            default: k ^= mpz_class((unsigned long)(1 + r.pick(255))) << (unsigned)(8 * r.pick(16));
            }
            keys.push_back(k);
            r.probe("related_keys");
        }
        else keys.push_back(pick_key(r));
    }
    for (unsigned i = 0; i < ni; i++)
    {
        ivs.push_back(pick_iv(r));
        if (i && r.pick(3) == 2) { ivs.back() = ivs[i]; ivs.back()[r.pick(16)] ^= (char)(1 + r.pick(255)); r.probe("related_vectors"); }
    }
    std::vector<std::shared_ptr<aes::AES>> node;
    for (unsigned i = 0, n = 1 + r.pick(3); i < n; i++) node.push_back(std::make_shared<aes::AES>());
    int curiv = 0;
    bool started = false;
    auto use = [&](int i) {
        if (i) aes::AES::init(ivs[i]);
        else aes::AES::init();
        curiv = i;
        started = true;
    };
    if (r.pick(4)) use(r.pick(ivs.size()));
    else r.probe("used_before_init");
    auto same = [&](int a, int b) { return keys[a] == keys[b]; };
    auto sameiv = [&](int a, int b) { std::string z(16, '\0'); return (a ? ivs[a] : z) == (b ? ivs[b] : z); };
    unsigned nops = lengthy ? 300 + r.pick(900) : bulky ? 6 + r.pick(8) : 8 + r.pick(40);
    for (unsigned op = 0; op < nops; op++)
    {
        Sim::clock() += 1 + r.pick(1000);
        r.sh->simtime = Sim::clock();
        r.sh->steps++;
        aes::AES& A = *node[r.pick(node.size())];
        unsigned what = r.pick(10);
        if (what < 3 || store.empty())
        {
            Rec e;
            e.key = r.pick(keys.size());
            e.iv = curiv;
            e.msg = !store.empty() && r.pick(6) == 5 ? r.of(store).msg : bulky ? Rng(r.seed()).bits(8 * (maxb - r.pick(64))) : pick_msg(r, maxb);
            e.ct = A.encryptCRC(keys[e.key], e.msg);
            r.sched("seal key%d iv%d len%zu", e.key, e.iv, mpz_sizeinbase(e.msg.get_mpz_t(), 256));
            r.check(e.msg == 0 || e.ct != 0, "empty-ciphertext", fmt("message %s sealed to nothing", hex(e.msg).substr(0, 40).c_str()));
            store.push_back(e);
            r.count("op.seal");
        }
        else if (what < 6)
        {
            const Rec& e = r.of(store);
            if (curiv != e.iv) use(e.iv);
            mpz_class m = A.decryptCRC(keys[e.key], e.ct);
            r.sched("open key%d iv%d", e.key, e.iv);
            r.count("op.open");
            r.check(m == e.msg, "message-lost", fmt("key %s message %s opened as %s", hex(keys[e.key]).c_str(), hex(e.msg).substr(0, 200).c_str(), hex(m).substr(0, 200).c_str()));
        }
        else if (what < 8)
        {
            // storage decay: up to five flipped bits (at most three beyond the reach of the checksum's distance)
            const Rec& e = r.of(store);
            if (curiv != e.iv) use(e.iv);
            mpz_class ct = e.ct;
            unsigned len = mpz_sizeinbase(ct.get_mpz_t(), 2), n = 1 + r.pick(len > 4800 ? 3 : 5);
            std::set<unsigned> bits;
            unsigned base = r.pick(len + 8);
            bool burst = r.pick(2);
            for (unsigned k = 0; k < n; k++) bits.insert(burst ? base + k * (1 + r.pick(7)) : r.pick(3) ? r.pick(len) : len - 1 - r.pick(std::min(len, 40u)));
            for (unsigned b : bits) mpz_combit(ct.get_mpz_t(), b);
            r.sched("decay %zu bits", bits.size());
            r.fault("storage_bit_flips");
            mpz_class m = A.decryptCRC(keys[e.key], ct);
            r.check(m == 0 || m == e.msg, "wrong-message", fmt("decayed record of %s opened as %s", hex(e.msg).substr(0, 200).c_str(), hex(m).substr(0, 200).c_str()));
            r.check(m == 0, "damage-accepted", fmt("%zu flipped bits of the record of %s went unnoticed", bits.size(), hex(e.msg).substr(0, 200).c_str()));
        }
        else if (what == 8)
        {
            // a record is opened under a key or vector it was not made with
            const Rec& e = r.of(store);
            int k = r.pick(keys.size()), i = r.pick(ivs.size());
            bool match = same(k, e.key) && sameiv(i, e.iv);
            if (i != curiv) use(i);
            mpz_class m = A.decryptCRC(keys[k], e.ct);
            r.sched("mixup key%d iv%d for key%d iv%d", k, i, e.key, e.iv);
            if (match) r.check(m == e.msg, "message-lost", "equal key and vector do not open the record");
            else
            {
                r.fault("record_mixup");
                r.check(m == 0, e.msg == m ? "wrong-key-opens" : "wrong-message", fmt("record of %s made under another key or vector opened as %s", hex(e.msg).substr(0, 200).c_str(), hex(m).substr(0, 200).c_str()));
            }
        }
        else
        {
            if (r.pick(2)) { use(r.pick(ivs.size())); r.sched("vector %d", curiv); }
            else
            {
                unsigned i = r.pick(node.size());
                node[i] = std::make_shared<aes::AES>();
                r.sched("node %u restarts", i);
                r.fault("node_restart");
            }
        }
    }
    for (auto& e : store)
    {
        if (curiv != e.iv) use(e.iv);
        mpz_class m = node[0]->decryptCRC(keys[e.key], e.ct);
        r.check(m == e.msg, "message-lost", fmt("key %s message %s opened as %s at the end", hex(keys[e.key]).c_str(), hex(e.msg).substr(0, 200).c_str(), hex(m).substr(0, 200).c_str()));
    }
    (void)started;
}
SCENARIO(C08, c08, 30);

// ------------------------------------------------------------------ C09
struct Box { int state; long calls; int fired; char name[40]; char value[4096]; char again[4096]; };

// run an operation in a process of its own with the k-th library call failing
Box* box() { static Box* b = (Box*)mmap(0, sizeof(Box), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0); return b; }

int isolated(std::function<mpz_class()> f, long k, bool persistent)
{
    Box* b = box();
    memset(b, 0, sizeof *b);
    fflush(stdout);
    pid_t p = fork();
    if (p == 0)
    {
        try
        {
            seam::evp_fail_at(k);
            seam::evp_persistent(persistent);
            mpz_class v = f();
            b->calls = seam::evp_calls();
            b->fired = seam::evp_fired();
            strncpy(b->name, seam::evp_last(), 39);
            seam::evp_reset();
            gmp_snprintf(b->value, sizeof b->value, "%Zx", v.get_mpz_t());
            b->state = 1;
        }
        catch (const std::exception&) { b->state = 2; b->fired = seam::evp_fired(); strncpy(b->name, seam::evp_last(), 39); seam::evp_reset(); }
        try
        {
            mpz_class v = f();             // the library works again
            gmp_snprintf(b->again, sizeof b->again, "%Zx", v.get_mpz_t());
        }
        catch (const std::exception&) { strcpy(b->again, "error"); }
        _exit(0);
    }
    int st = 0;
    while (waitpid(p, &st, 0) < 0 && errno == EINTR) {}
    return st;
}

void c09(Run& r)
{
    Sim::clock() = 0;
    if (r.pick(4)) aes::AES::init();
    else aes::AES::init(pick_iv(r));
    aes::AES A;
    unsigned nops = 2 + r.pick(4);
    if (r.pick(60) == 59)                    // the failure comes late
    {
        mpz_class key = pick_key(r);
        for (unsigned k = 0, n = 30 + r.pick(400); k < n; k++) { if (r.pick(8) == 7) key = pick_key(r); A.decryptCRC(key, A.encryptCRC(key, 1 + k)); }
        r.probe("long_service");
    }
    for (unsigned op = 0; op < nops; op++)
    {
        r.sh->steps++;
        mpz_class key = pick_key(r), msg = pick_msg(r, r.of(std::vector<unsigned>{20, 100, 400}));
        if (msg == 0) msg = 1;
        bool enc = r.pick(2), persistent = r.pick(4) == 3;
        mpz_class ct = A.encryptCRC(key, msg);
        if (A.decryptCRC(key, ct) != msg) { r.probe("roundtrip_failed_without_fault"); continue; }    // C08 judges this
        std::function<mpz_class()> f;
        if (enc) f = [&] { return A.encryptCRC(key, msg); };
        else f = [&] { return A.decryptCRC(key, ct); };
        if (r.pick(2))                       // the operation before was about something else
        {
            mpz_class other = pick_key(r), m2 = pick_msg(r, 40);
            if (r.pick(2)) A.encryptCRC(other, m2);
            else A.decryptCRC(other, ct);
            r.probe("other_key_before");
        }
        isolated(f, -1, false);
        long calls = box()->calls;
        r.count("calls_seen", calls);
        for (long k = 0; k < calls; k++)
        {
            int st = isolated(f, k, persistent);
            Box* b = box();
            std::string what = fmt("%s with library call %ld of %ld (%s) failing", enc ? "encryption" : "decryption", k, calls, b->name);
            r.sched("%s%s", what.c_str(), persistent ? " from then on" : "");
            r.fault(std::string("cipher_call_fails"));
            if (WIFSIGNALED(st))
            {
                int s = WTERMSIG(st);
                r.check(s == SIGABRT, "crash-after-failure", fmt("%s: process killed by signal %d", what.c_str(), s));
                r.probe("stopped_by_abort");
                continue;
            }
            r.check(WEXITSTATUS(st) == 0 || WEXITSTATUS(st) != 77, "memory-after-failure", what + ": invalid memory access");
            if (WEXITSTATUS(st) != 0) { r.probe("stopped_by_exit"); continue; }
            if (b->state == 2) r.probe("stopped_by_exception");
            else
            {
                mpz_class v(b->value, 16);
                if (enc)
                    r.check(v == 0 || A.decryptCRC(key, v) == msg, "wrong-ciphertext", what + ": returned a ciphertext that does not open to the message");
                else
                    r.check(v == 0 || v == msg, "wrong-message", what + ": returned another message");
                r.probe(v == 0 ? "rejected" : "unharmed");
            }
            mpz_class again;
            if (again.set_str(b->again, 16) != 0) again = -1;
            if (enc) r.check(again > 0 && A.decryptCRC(key, again) == msg, "no-recovery", what + ": the next encryption without a failure is wrong");
            else r.check(again == msg, "no-recovery", what + ": the next decryption without a failure is wrong");
        }
    }
}
SCENARIO(C09, c09, 30);
} // namespace
