// C19: live heap bytes of a process that serves the same mix of work for ever. Exact accounting of every allocation.
#include "net.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"
#include "ecc_bn254.hpp"
#include <malloc.h>

#ifndef SIM_ASAN
static long live_bytes = 0;
extern "C" {
void* __libc_malloc(size_t);
void __libc_free(void*);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void* __libc_memalign(size_t, size_t);
void* malloc(size_t n) { void* p = __libc_malloc(n); if (p) live_bytes += malloc_usable_size(p); return p; }
void free(void* p) { if (p) live_bytes -= malloc_usable_size(p); __libc_free(p); }
void* calloc(size_t a, size_t b) { void* p = __libc_calloc(a, b); if (p) live_bytes += malloc_usable_size(p); return p; }
void* realloc(void* o, size_t n)
{
    size_t was = o ? malloc_usable_size(o) : 0;
    void* p = __libc_realloc(o, n);
    if (p || !n) live_bytes += (p ? (long)malloc_usable_size(p) : 0) - (long)was;
    return p;
}
void* memalign(size_t a, size_t n) { void* p = __libc_memalign(a, n); if (p) live_bytes += malloc_usable_size(p); return p; }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** o, size_t a, size_t n) { void* p = memalign(a, n); if (!p) return ENOMEM; *o = p; return 0; }
}
#else
static long live_bytes = 0;
#endif

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

struct Host                                   // one process and its long-lived parties
{
    Run& r;
    CURVE common;
    ecc::Curve_bn254 bn;
    dme::DME_DDH dealer;
    std::unique_ptr<ot::OTrecv> rx;
    std::unique_ptr<ot::OTsndr> tx;
    std::unique_ptr<ot::DOTprxy> px;
    std::unique_ptr<opprf::OPPRFserver> sv;
    std::unique_ptr<opprf::OPPRFclient> cl;
    std::unique_ptr<puda::Puda> pu;
    sss::ShamirSS ss;
    aes::AES A;
    POINT ga;
    explicit Host(Run& run) : r(run)
    {
        aes::AES::init();
        Pt a = E().mul(E().g, 31337);
        ga = POINT(a.x, a.y, &common);
        rx.reset(new ot::OTrecv(dealer.crs));
        tx.reset(new ot::OTsndr(dealer.crs));
        px.reset(new ot::DOTprxy(dealer.crs));
        sv.reset(new opprf::OPPRFserver(40000, dealer.crs));
        sv->setSecret(ga);
        cl.reset(new opprf::OPPRFclient(dealer.crs));
        pu.reset(new puda::Puda);
    }
    // one unit of work; every random input comes from g, whose stream is a function of the cycle number
    void op(unsigned what, Rng& g)
    {
        switch (what)
        {
        case 0:                               // checked encryption, accepted
        {
            mpz_class k = g.bits(128), m = g.bits(8 * (1 + g.below(60)));
            mpz_class c = A.encryptCRC(k, m);
            if (A.decryptCRC(k, c) != m) throw Violation{"wrong-result", "decryption during the load"};
            break;
        }
        case 1:                               // refused: damaged, other key, no ciphertext at all
        {
            mpz_class k = g.bits(128), c = A.encryptCRC(k, g.bits(8 * (5 + g.below(60))));
            mpz_combit(c.get_mpz_t(), g.below(32));
            A.decryptCRC(k, c);
            A.decryptCRC(k + 1, c);
            A.decryptCRC(k, g.bits(8 * (1 + g.below(4))));
            A.decryptCRC(k, g.bits(200));
            A.decryptCRC(k, 0);
            break;
        }
        case 2: { mpz_class k = g.bits(8 * g.below(17)); A.decrypt(A.encrypt(g.bits(300), k), k); break; }
        case 3:                               // a transfer
        {
            dme::branch_t b = dme::branch_t(g.below(2));
            dme::pkey_t pk = rx->selectMsg(b);
            Pt m = E().mul(E().g, 1 + g.below(1000));
            rx->decryptMsg(tx->encMsgs(pk, POINT(m.x, m.y, &common), POINT(m.x, m.y, &common)));
            rx->decryptMsgDecode(tx->encMsgs(pk, g.bits(128), g.bits(200)));
            break;
        }
        case 4: rx->selectMsg(dme::branch_t(g.below(2))); break;           // abandoned before the answer
        case 5:                               // refused: the answer lacks the selected part
        {
            dme::pkey_t pk = rx->selectMsg(dme::branch_t(g.below(2)));
            tx->encMsgs(pk, g.bits(100), g.bits(100));
            try { rx->decryptMsg(ot::ctxt_v_t()); } catch (const std::exception&) {}
            try { rx->decryptMsgDecode(ot::ctxt_v_t()); } catch (const std::exception&) {}
            break;
        }
        case 6:                               // aggregation of several answers
        {
            dme::pkey_t pk = rx->selectMsg(dme::branch_t(g.below(2)));
            POINT m(E().g.x, E().g.y, &common);
            std::vector<ot::ctxt_v_t> v;
            for (unsigned i = 0; i < 3; i++) v.push_back(tx->encMsgs(pk, m, m));
            ot::ctxt_v_t c = px->aggregate(v);
            rx->decryptMsg(c);
            px->aggregate(std::vector<ot::ctxt_v_t>(1, c));
            break;
        }
        case 7:                               // damaged answer
        {
            dme::pkey_t pk = rx->selectMsg(dme::branch_t(g.below(2)));
            auto v = tx->encMsgs(pk, g.bits(100), g.bits(100));
            std::swap(v[0], v[1]);
            v[0].u = v[0].u + v[0].mv;
            v[1].mv = POINT();
            rx->decryptMsg(v);
            rx->decryptMsgDecode(v);
            break;
        }
        case 8:                               // dealings and reconstructions, with repeated shares
        {
            unsigned t = 1 + g.below(6), n = t + g.below(4);
            auto sh = ss.getShares(t, n, sss::FIELD(g.bits(256)));
            ss.reconSecret(sh);
            sh.push_back(sh[0]);
            ss.reconSecret(sh);
            break;
        }
        case 9:                               // PUDA
        {
            auto s = pu->Setup(1 + g.below(4));
            int t = 1 + g.below(1000);
            puda::ctxt_v_t c;
            puda::tag_v_t ts;
            puda::msg_t sum = 0;
            for (size_t i = 0; i < std::get<0>(s).size(); i++)
            {
                unsigned m = g.below(10);
                sum += m;
                c.push_back(pu->Enc(std::get<0>(s)[i], m, t));
                ts.push_back(pu->Tag(std::get<1>(s)[i], m, t));
            }
            auto res = pu->Agg(std::get<2>(s), c, ts, t);
            pu->Verify(std::get<3>(s), res.first, res.second, t);
            break;
        }
        case 10:                              // wire decoding, good and bad, both curves
        {
            POINT p = common.getDefaultGen();
            for (int i = 0; i < 3; i++) { p.setEncodedX(g.bits(257)); p.setEncodedX(common.getRandomPoint().getEncodedX()); }
            ecc::Point_bn254 q = bn.getDefaultGen();
            for (int i = 0; i < 3; i++) q.setEncodedX(g.bits(255));
            p.isValid();
            break;
        }
        case 11:                              // parties come and go, copied and assigned
        {
            ot::OTrecv a(dealer.crs), b(a);
            b.selectMsg(dme::branch_t(1));
            a = b;
            ot::OTsndr c(dealer.crs), d(c);
            c = d;
            dme::DME_DDH e(dme::mode_t::messy), f(dme::mode_t::dec);
            dme::DME_DDH h(e);
            h = f;
            break;
        }
        case 12: { puda::Puda a, b(a); a.Setup(2); ot::DOTprxy p(dealer.crs), q(p); p = q; break; }
        case 13: rx.reset(); rx.reset(new ot::OTrecv(dealer.crs)); tx.reset(); tx.reset(new ot::OTsndr(dealer.crs)); r.fault("party_restart"); break;
        case 14:                              // group operations
        {
            POINT p = common.getRandomPoint(), q = common.getRandomPoint();
            p += q; p -= q; p = p.pointDouble(); p = p * common.getRandomScalar();
            q = POINT() - p + p; q = q - q;
            break;
        }
        case 21:                              // requests that a server refuses, and what a client refuses
        {
            dme::pkey_t pk = dealer.KeyGen(dme::branch_t(g.below(2))).pk;
            sv->clean();
            for (int i = 0; i < 4; i++)
            {
                try { sv->runOTRound(1 + g.below(16), pk); throw Violation{"wrong-result", "a server that is not prepared answers"}; } catch (const std::exception&) {}
                try { sv->sendEncryptedMasks(); throw Violation{"wrong-result", "a server that is not prepared sends masks"}; } catch (const std::exception&) {}
                try { sv->runOTRound(17 + g.below(100), pk); } catch (const std::exception&) {}
            }
            try { px->aggregate(std::vector<ot::ctxt_v_t>()); } catch (const std::exception&) {}
            try { px->aggregate(std::vector<ot::ctxt_v_t>(1 + g.below(2))); } catch (const std::exception&) {}
            cl->clean();
            cl->runOTRound_start(15);
            opprf::ot_ctxts_t o;
            for (auto& v : o.ctxt) v = tx->encMsgs(pk, g.bits(168), g.bits(168));
            o.cprf = o.ctxt[0];
            try { cl->runOTRound_end(15, o); } catch (const std::exception&) {}
            for (auto& v : o.ctxt) v.clear();
            try { cl->runOTRound_end(15, o); } catch (const std::exception&) {}
            opprf::symctxt_t m;
            for (auto& v : m) v = g.bits(300);
            try { cl->unmaskResult(m); } catch (const std::exception&) {}
            cl->clean();
            break;
        }
        case 15: utils::getRandom(128); dealer.decode(dealer.encode(g.bits(150))); break;
        // heavy: OPPRF
        case 16:                              // a session with some rounds, then abandoned and reset
        case 17:                              // a refused session
        case 18:                              // masks from the wrong moment: refused at the end
        {
            sv->clean();
            sv->prepareKeysAndInputs();
            cl->clean();
            cl->setMessage(g.below(65536));
            dme::pkey_t pk = cl->runOTRound_start(16);
            cl->runOTRound_end(16, sv->runOTRound(16, pk));
            try
            {
                if (what == 17)
                {
                    pk = cl->runOTRound_start(15);
                    auto c = sv->runOTRound(15, pk);
                    for (auto& k : c.ctxt) std::swap(k[0], k[1]);
                    cl->runOTRound_end(15, c);
                }
                else if (what == 18) cl->unmaskResult(sv->sendEncryptedMasks());
                else cl->runOTRound_end(15, sv->runOTRound(15, cl->runOTRound_start(15)));
            }
            catch (const std::exception&) {}
            sv->clean();
            cl->clean();
            break;
        }
        case 19: { sv->clean(); sv->prepareKeysAndInputs(); opprf::OPPRFserver c(*sv); c.clean(); sv->clean(); break; }
        default:                              // restart of both ends
        {
            sv.reset(new opprf::OPPRFserver(12345, dealer.crs));
            sv->setSecret(ga);
            cl.reset(new opprf::OPPRFclient(dealer.crs));
            opprf::OPPRFclient d(*cl);
            d.clean();
            r.fault("party_restart");
        }
        }
    }
};
const unsigned LIGHT = 16, ALL = 21;

void c19(Run& r)
{
#ifdef SIM_ASAN
    (void)r;
    return;
#else
    Sim::clock() = 0;
    seam::rng_setup(r.seed(), 0);
    Host h(r);
    bool heavy = r.pick(5) == 4;
    std::vector<unsigned> mix;
    for (unsigned i = 0, n = 1 + r.pick(heavy ? 2 : 3); i < n; i++) { unsigned o = r.pick(heavy ? ALL - LIGHT : LIGHT + 1); mix.push_back(heavy ? LIGHT + o : o == LIGHT ? ALL : o); }
    bool cheap = true;
    for (unsigned m : mix) if (!(m <= 2 || m == 8 || m == 15)) cheap = false;
    unsigned K = heavy ? 3 : cheap ? 16 + r.pick(16) : 5 + r.pick(4);
    u64 base = r.seed();
    std::string name;
    for (unsigned m : mix) name += fmt("%u ", m);
    r.sched("mix %scycles %u", name.c_str(), K);
    r.count(heavy ? "kind.opprf" : "kind.light");
    u64 cyc = 0;
    auto window = [&] {
        for (unsigned k = 0; k < K; k++, cyc++)
        {
            Rng g(base + cyc * 7919);
            for (unsigned m : mix) { h.op(m, g); r.sh->steps++; }
            Sim::clock() += 1000000;
        }
        r.sh->simtime = Sim::clock();
        r.count("cycles", K);
        return live_bytes;
    };
    window();
    if (!heavy) window();
    long a = window();
    // a leak shows in every window; anything that settles is not one
    unsigned grown = 0, seen = 0;
    long first = a, b = a;
    for (; seen < 3 || (grown == seen && seen < (heavy ? 5 : 10)); seen++)
    {
        b = window();
        if (b - a >= 12l * K) grown++;
        a = b;
        if (grown != seen + 1 && seen >= 2) { seen++; break; }
    }
    r.count("windows", seen);
    r.log("windows %u grown %u", seen, grown);
    r.check(grown != seen, "memory-grows", fmt("operations %sleave more and more live bytes, %u repetitions after %u repetitions", name.c_str(), K, K));
#endif
}
SCENARIO(C19, c19, 240);
} // namespace
