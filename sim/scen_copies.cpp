// C17: parties are copied, assigned over, swapped, snapshotted, restored and destroyed at any moment of what they are doing
#include "net.hpp"
#include <list>
#include <type_traits>
#include "ot.hpp"
#include "dot.hpp"
#include "dmhe.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "shamirss.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

// Everything between parties travels in encoded form, so no party ever holds memory of another one by agreement.
struct Ct { WP u, mv; };
Ct pack(const dme::ctxt_t& c) { Ct t; t.u = put(true, c.u); t.mv = put(true, c.mv); return t; }
dme::ctxt_t unpack(const Ct& t, CURVE* c) { return dme::ctxt_t(get(t.u, c), get(t.mv, c)); }
struct Pk { WP g, h; };
Pk pack(const dme::pkey_t& k) { Pk t; t.g = put(true, k.g); t.h = put(true, k.h); return t; }
dme::pkey_t unpack(const Pk& t, CURVE* c) { return dme::pkey_t(get(t.g, c), get(t.h, c)); }
struct Crs
{
    WP w[4];
    dme::crs_ddh_t make(CURVE* c) const { return dme::crs_ddh_t(get(w[0], c), get(w[1], c), get(w[2], c), get(w[3], c)); }
};
Crs publish(const dme::crs_ddh_t& c)
{
    Crs s;
    s.w[0] = put(true, c.g0);
    s.w[1] = put(true, c.g1);
    s.w[2] = put(true, c.h0);
    s.w[3] = put(true, c.h1);
    return s;
}
bool same(const Crs& s, const dme::crs_ddh_t& c)
{
    Crs o = publish(c);
    for (int i = 0; i < 4; i++)
        if (s.w[i].inf != o.w[i].inf || s.w[i].ex != o.w[i].ex) return false;
    return true;
}
POINT at(const Pt& p, CURVE* c) { return p.inf ? POINT() : POINT(p.x, p.y, c); }
Pt anypoint(Run& r) { Rng g(r.seed()); return E().mul(E().g, 1 + g.bits(200)); }

// ---- a population of live party objects and the state each is supposed to be in
template <class P, class M> struct Slot { std::unique_ptr<P> o; M m; };
// a type without assignment can still be copied: its holder replaces the object
template <class P> void assign(std::unique_ptr<P>& to, const P& from)
{
    if constexpr (std::is_copy_assignable<P>::value) *to = from;
    else if (to.get() != &from) to.reset(new P(from));
}
template <class P, class M> struct Pool
{
    Run& r;
    const char* kind;
    std::vector<Slot<P, M>> s;
    std::list<std::pair<P, M>> vault;              // copies held by value inside a container
    explicit Pool(Run& run, const char* k) : r(run), kind(k) {}
    void add(std::unique_ptr<P> p, const M& m)
    {
        Slot<P, M> x;
        x.o = std::move(p);
        x.m = m;
        s.push_back(std::move(x));
    }
    static P byvalue(P p) { return p; }
    void churn()
    {
        unsigned a = r.pick(s.size()), b = r.pick(s.size());
        switch (r.pick(9))
        {
        case 0:
        case 1:
            if (s.size() > 5) break;
            r.sched("%s copy %u", kind, a);
            r.fault("party_copied");
            add(std::unique_ptr<P>(new P(*s[a].o)), s[a].m);
            break;
        case 2:
        case 3:
            r.sched("%s assign %u=%u", kind, a, b);
            r.fault(a == b ? "party_self_assigned" : "party_assigned");
            assign(s[a].o, *s[b].o);
            s[a].m = s[b].m;
            break;
        case 4:
            if (s.size() < 2) break;
            r.sched("%s destroy %u", kind, a);
            r.fault("party_destroyed");
            s.erase(s.begin() + a);
            break;
        case 5:
            if (a == b) break;
            r.sched("%s swap %u %u", kind, a, b);
            r.fault("parties_swapped");
            { P t(*s[a].o); assign(s[a].o, *s[b].o); assign(s[b].o, t); }
            std::swap(s[a].m, s[b].m);
            break;
        case 6:
            r.sched("%s snapshot %u", kind, a);
            r.fault("snapshot_taken");
            vault.push_back(std::make_pair(*s[a].o, s[a].m));
            if (vault.size() > 4) vault.erase(std::next(vault.begin(), r.pick(vault.size())));
            break;
        case 7:
        {
            if (vault.empty()) break;
            unsigned k = r.pick(vault.size());
            bool crash = r.pick(2);
            r.sched("%s restore %u from %u%s", kind, a, k, crash ? " after crash" : "");
            r.fault(crash ? "crash_and_restore_from_snapshot" : "snapshot_restored");
            if (crash) { s[a].o.reset(); s[a].o.reset(new P(std::next(vault.begin(), k)->first)); }
            else assign(s[a].o, std::next(vault.begin(), k)->first);
            s[a].m = std::next(vault.begin(), k)->second;
            break;
        }
        default:
        {
            r.sched("%s pass by value %u", kind, a);
            r.fault("party_copied_by_value");
            P p = byvalue(*s[a].o);
            assign(s[b].o, p);
            s[b].m = s[a].m;
        }
        }
    }
};

struct Ctx
{
    Run& r;
    CURVE common;
    std::vector<std::unique_ptr<dme::DME_DDH>> dealer;
    std::vector<Crs> crs;
    explicit Ctx(Run& run) : r(run)
    {
        for (unsigned i = 0, n = 1 + r.pick(2); i < n; i++)
        {
            unsigned k = r.pick(3);
            dealer.push_back(std::unique_ptr<dme::DME_DDH>(k == 0 ? new dme::DME_DDH(dme::mode_t::messy) : k == 1 ? new dme::DME_DDH(dme::mode_t::dec) : new dme::DME_DDH()));
            crs.push_back(publish(dealer.back()->crs));
        }
    }
    unsigned pickcrs() { return r.pick(crs.size()); }
    // a correspondent nobody copies
    ot::OTsndr sender(unsigned c) { return ot::OTsndr(crs[c].make(&common)); }
};

// ---- receivers with an open selection
struct RecvM { unsigned crs; bool open; dme::branch_t b; Pk pk; };
void receivers(Run& r, Ctx& x)
{
    Pool<ot::OTrecv, RecvM> p(r, "recv");
    for (unsigned i = 0, n = 1 + r.pick(3); i < n; i++)
    {
        RecvM m;
        m.crs = x.pickcrs();
        m.open = false;
        p.add(std::unique_ptr<ot::OTrecv>(new ot::OTrecv(x.crs[m.crs].make(&x.common))), m);
    }
    for (unsigned step = 0, n = 10 + r.pick(30); step < n; step++)
    {
        r.sh->steps++;
        if (r.pick(2)) { p.churn(); continue; }
        unsigned i = r.pick(p.s.size());
        RecvM& m = p.s[i].m;
        ot::OTrecv& o = *p.s[i].o;
        if (!m.open || r.pick(4) == 3)
        {
            m.b = dme::branch_t(r.pick(2));
            m.pk = pack(o.selectMsg(m.b));
            m.open = true;
            r.sched("select %u %d", i, (int)m.b);
            continue;
        }
        r.sched("finish %u", i);
        r.count("op.finish");
        ot::OTsndr t = x.sender(m.crs);
        r.check(o.getBranch() == m.b, "wrong-branch-after-copy", fmt("receiver %u reports the branch of another party", i));
        dme::pkey_t pk = unpack(m.pk, t.getCurve());
        if (r.pick(2))
        {
            Pt a = anypoint(r), b = anypoint(r);
            std::vector<Ct> w;
            for (auto& c : t.encMsgs(pk, at(a, t.getCurve()), at(b, t.getCurve()))) w.push_back(pack(c));
            ot::ctxt_v_t v;
            for (auto& c : w) v.push_back(unpack(c, o.getCurve()));
            Pt got = ref::of(o.decryptMsg(v));
            r.check(got == (m.b ? b : a), "transfer-lost-after-copy", fmt("receiver %u opened %s instead of message %d", i, got.brief().c_str(), (int)m.b));
        }
        else
        {
            Rng g(r.seed());
            mpz_class a = g.bits(200), b = g.bits(128);
            ot::ctxt_v_t v;
            for (auto& c : t.encMsgs(pk, a, b)) v.push_back(unpack(pack(c), o.getCurve()));
            mpz_class got = o.decryptMsgDecode(v);
            r.check(got == (m.b ? b : a), "transfer-lost-after-copy", fmt("receiver %u opened %s instead of message %d", i, hex(got).c_str(), (int)m.b));
        }
    }
}

// ---- senders, proxies
struct SendM { unsigned crs; };
void senders(Run& r, Ctx& x)
{
    Pool<ot::OTsndr, SendM> p(r, "sndr");
    Pool<ot::DOTprxy, SendM> q(r, "prxy");
    for (unsigned i = 0, n = 1 + r.pick(3); i < n; i++)
    {
        SendM m;
        m.crs = x.pickcrs();
        p.add(std::unique_ptr<ot::OTsndr>(new ot::OTsndr(x.crs[m.crs].make(&x.common))), m);
        m.crs = x.pickcrs();
        q.add(std::unique_ptr<ot::DOTprxy>(new ot::DOTprxy(x.crs[m.crs].make(&x.common))), m);
    }
    for (unsigned step = 0, n = 8 + r.pick(20); step < n; step++)
    {
        r.sh->steps++;
        unsigned w = r.pick(4);
        if (w == 0) { p.churn(); continue; }
        if (w == 1) { q.churn(); continue; }
        unsigned i = r.pick(p.s.size()), k = r.pick(q.s.size());
        unsigned c = p.s[i].m.crs;
        ot::OTrecv o(x.crs[c].make(&x.common));
        dme::branch_t b = dme::branch_t(r.pick(2));
        Pk pk = pack(o.selectMsg(b));
        std::vector<std::vector<Ct>> ans;
        Pt sum;
        for (unsigned j = 0, e = 1 + (w == 3 ? r.pick(3) : 0); j < e; j++)
        {
            if (j) for (unsigned z = 0; z < p.s.size(); z++) if (p.s[(i + z + 1) % p.s.size()].m.crs == c) { i = (i + z + 1) % p.s.size(); break; }
            ot::OTsndr& t = *p.s[i].o;
            Pt m0 = anypoint(r), m1 = anypoint(r);
            std::vector<Ct> a;
            for (auto& ct : t.encMsgs(unpack(pk, t.getCurve()), at(m0, t.getCurve()), at(m1, t.getCurve()))) a.push_back(pack(ct));
            ans.push_back(a);
            sum = E().add(sum, b ? m1 : m0);
            Pt rm = ref::of(t.getRandomMsg());
            r.check(E().on(rm) && !rm.inf, "sender-broken-after-copy", fmt("sender %u draws an invalid message", i));
        }
        r.sched("answer %u proxy %u of %zu", i, k, ans.size());
        r.count("op.finish");
        std::vector<Ct> fin = ans[0];
        if (w == 3)
        {
            std::vector<ot::ctxt_v_t> in;
            for (auto& a : ans) { ot::ctxt_v_t v; for (auto& ct : a) v.push_back(unpack(ct, &x.common)); in.push_back(v); }
            fin.clear();
            for (auto& ct : q.s[k].o->aggregate(in)) fin.push_back(pack(ct));
        }
        ot::ctxt_v_t v;
        for (auto& ct : fin) v.push_back(unpack(ct, o.getCurve()));
        Pt got = ref::of(o.decryptMsg(v));
        r.check(got == sum, "transfer-lost-after-copy", fmt("answers of sender %u through proxy %u open to %s", i, k, got.brief().c_str()));
    }
}

// ---- dual-mode schemes with their trapdoors
struct DmeM { unsigned mode, crs; };
template <class D> void duals(Run& r)
{
    Pool<D, DmeM> p(r, "dme");
    std::vector<Crs> crs;
    CURVE common;
    for (unsigned i = 0, n = 1 + r.pick(3); i < n; i++)
    {
        DmeM m;
        m.mode = r.pick(2);
        m.crs = crs.size();
        std::unique_ptr<D> d(new D(m.mode ? dme::mode_t::dec : dme::mode_t::messy));
        crs.push_back(publish(d->crs));
        p.add(std::move(d), m);
    }
    for (unsigned step = 0, n = 8 + r.pick(24); step < n; step++)
    {
        r.sh->steps++;
        if (r.pick(2)) { p.churn(); continue; }
        unsigned i = r.pick(p.s.size());
        D& d = *p.s[i].o;
        DmeM m = p.s[i].m;
        r.sched("use %u mode%u", i, m.mode);
        r.count("op.finish");
        r.check(same(crs[m.crs], d.crs), "state-lost-after-copy", fmt("scheme %u has another reference string", i));
        dme::DME_DDH far(crs[m.crs].make(&common));                  // a party that only knows the published string
        dme::branch_t b = dme::branch_t(r.pick(2)), nb = dme::branch_t(!b);
        Pt msg = anypoint(r);
        dme::keypair_t k = d.KeyGen(b);
        Ct c = pack(far.Enc(unpack(pack(k.pk), far.getCurve()), b, at(msg, far.getCurve())));
        Pt got = ref::of(d.Dec(k.sk, unpack(c, d.getCurve())));
        r.check(got == msg, "scheme-broken-after-copy", fmt("scheme %u does not open an encryption to its key", i));
        dme::keypair_t fk = far.KeyGen(b);
        c = pack(d.Enc(unpack(pack(fk.pk), d.getCurve()), b, at(msg, d.getCurve())));
        got = ref::of(far.Dec(fk.sk, unpack(c, far.getCurve())));
        r.check(got == msg, "scheme-broken-after-copy", fmt("an encryption by scheme %u does not open", i));
        if (m.mode == 0)
            r.check(d.FindMessy(unpack(pack(fk.pk), d.getCurve())) == nb, "trapdoor-lost-after-copy", fmt("scheme %u names the wrong messy branch", i));
        else
        {
            auto t = d.TrapKeyGen();
            for (int br = 0; br < 2; br++)
            {
                c = pack(far.Enc(unpack(pack(std::get<0>(t)), far.getCurve()), dme::branch_t(br), at(msg, far.getCurve())));
                got = ref::of(d.Dec(br ? std::get<2>(t) : std::get<1>(t), unpack(c, d.getCurve())));
                r.check(got == msg, "trapdoor-lost-after-copy", fmt("trapdoor key of scheme %u does not open branch %d", i, br));
            }
        }
        mpz_class iv = 1 + r.pick(0);
        r.check(d.decode(d.encode(iv)) == iv, "scheme-broken-after-copy", fmt("scheme %u does not decode its embedding", i));
    }
}

// ---- aggregation: every holder of a copy encrypts, tags and aggregates for the same setup
struct PudaM { int setup; };
void aggregators(Run& r)
{
    struct Setup { puda::ek_v_t ek; puda::sk_v_t sk; puda::ak_t ak; puda::vk_t vk; Pt h; };
    std::vector<Setup> su;
    Pool<puda::Puda, PudaM> p(r, "puda");
    PudaM none;
    none.setup = -1;
    for (unsigned i = 0, n = 1 + r.pick(3); i < n; i++) p.add(std::unique_ptr<puda::Puda>(new puda::Puda), none);
    CURVE common;
    for (unsigned step = 0, n = 8 + r.pick(24); step < n; step++)
    {
        r.sh->steps++;
        if (r.pick(2)) { p.churn(); continue; }
        unsigned i = r.pick(p.s.size());
        puda::Puda& o = *p.s[i].o;
        if (p.s[i].m.setup < 0 || r.pick(6) == 5)
        {
            unsigned users = 1 + r.pick(4);
            auto s = o.Setup(users);
            Setup z;
            z.ek = std::get<0>(s);
            z.sk = std::get<1>(s);
            z.ak = std::get<2>(s);
            z.h = ref::of(o.Enc(puda::ek_t(mpz_class(1)), 0, 1));
            p.s[i].m.setup = su.size();
            su.push_back(z);
            r.sched("setup %u users %u", i, users);
            continue;
        }
        int si = p.s[i].m.setup;
        Setup& z = su[si];
        r.sched("aggregate %u setup %d", i, si);
        r.count("op.finish");
        int t = 1 + r.pick(1000);
        std::vector<WP> cs, ts;
        unsigned sum = 0;
        Pt tagsum;
        for (unsigned u = 0; u < z.ek.size(); u++)
        {
            // any copy of this setup may act for the user
            unsigned j = i;
            for (unsigned k = 0, off = r.pick(p.s.size()); k < p.s.size(); k++)
                if (p.s[(k + off) % p.s.size()].m.setup == si) { j = (k + off) % p.s.size(); break; }
            unsigned m = r.pick(60);
            sum += m;
            POINT c = p.s[j].o->Enc(z.ek[u], m, t);
            Pt want = E().add(E().mul(E().mul(z.h, t), z.ek[u].getRawValue()), E().mul(E().g, m));
            r.check(ref::of(c) == want, "setup-lost-after-copy", fmt("copy %u encrypts for another setup", j));
            POINT g = p.s[j].o->Tag(z.sk[u], m, t);
            auto sk = z.sk[u];
            Pt wtag = E().add(E().mul(E().mul(z.h, t), sk.tk.getRawValue()), E().mul(E().mul(E().g, sk.a), m));
            r.check(ref::of(g) == wtag, "setup-lost-after-copy", fmt("copy %u tags for another setup", j));
            tagsum = E().add(tagsum, wtag);
            cs.push_back(put(true, c));
            ts.push_back(put(true, g));
        }
        puda::ctxt_v_t cv;
        puda::tag_v_t tv;
        for (auto& c : cs) cv.push_back(get(c, &common));
        for (auto& g : ts) tv.push_back(get(g, &common));
        auto res = o.Agg(z.ak, cv, tv, t);
        r.check(res.first == sum, "sum-lost-after-copy", fmt("copy %u aggregates %u instead of %u", i, (unsigned)res.first, sum));
        r.check(ref::of(res.second) == tagsum, "sum-lost-after-copy", fmt("copy %u aggregates another tag", i));
    }
}

// ---- OPPRF: both ends copied in the middle of a session
struct SrvM { int sess; unsigned theta; };
struct CliM { int sess, round; unsigned x; bool pending; Pk pk; };
struct OAns { std::vector<Ct> key[3], prf; };
void sessions(Run& r, Ctx& x)
{
    struct Sess { unsigned theta; Pt K, A; };
    std::vector<Sess> ss;
    std::vector<Pt> secret;
    Pool<opprf::OPPRFserver, SrvM> sv(r, "server");
    Pool<opprf::OPPRFclient, CliM> cl(r, "client");
    Pt A = anypoint(r);
    std::vector<std::unique_ptr<POINT>> keep;
    auto mksrv = [&] {
        SrvM m;
        m.sess = -1;
        m.theta = r.pick(3) ? r.pick(65536) : 65535;
        std::unique_ptr<opprf::OPPRFserver> s(new opprf::OPPRFserver(m.theta, x.crs[0].make(&x.common)));
        keep.push_back(std::unique_ptr<POINT>(new POINT(A.x, A.y, &x.common)));
        s->setSecret(*keep.back());
        sv.add(std::move(s), m);
    };
    auto idle = [&] { CliM m; m.sess = -1; m.round = 0; m.pending = false; m.x = 0; return m; };
    for (unsigned i = 0, n = 1 + r.pick(2); i < n; i++) mksrv();
    for (unsigned i = 0, n = 1 + r.pick(2); i < n; i++) cl.add(std::unique_ptr<opprf::OPPRFclient>(new opprf::OPPRFclient(x.crs[0].make(&x.common))), idle());
    CURVE wirecurve;
    auto begin = [&](unsigned c) {
        unsigned s = r.pick(sv.s.size());
        sv.s[s].o->clean();
        sv.s[s].o->prepareKeysAndInputs();
        Sess z;
        z.theta = sv.s[s].m.theta;
        z.A = A;
        z.K = ref::of(sv.s[s].o->getKOPPRF());
        sv.s[s].m.sess = ss.size();
        CliM m = idle();
        m.sess = ss.size();
        m.round = 16;
        m.x = r.pick(5) == 4 ? r.pick(65536) : r.pick(z.theta + 1);
        ss.push_back(z);
        cl.s[c].o->clean();
        cl.s[c].o->setMessage(m.x);
        cl.s[c].m = m;
        r.sched("begin client %u server %u", c, s);
    };
    // one step of a client's session; false when no live server knows that session any more
    auto step = [&](unsigned c) {
        CliM& m = cl.s[c].m;
        opprf::OPPRFclient& o = *cl.s[c].o;
        if (m.round > 0 && !m.pending)
        {
            m.pk = pack(o.runOTRound_start(m.round));
            m.pending = true;
            return true;
        }
        std::vector<unsigned> who;
        for (unsigned i = 0; i < sv.s.size(); i++) if (sv.s[i].m.sess == m.sess) who.push_back(i);
        if (who.empty()) return false;
        unsigned s = r.of(who);
        if (who.size() > 1) r.probe("session_served_by_several_copies");
        opprf::OPPRFserver& t = *sv.s[s].o;
        if (m.round > 0)
        {
            opprf::ot_ctxts_t a = t.runOTRound(m.round, unpack(m.pk, &wirecurve)), b;
            for (int k = 0; k < 3; k++) for (auto& ct : a.ctxt[k]) b.ctxt[k].push_back(unpack(pack(ct), &wirecurve));
            for (auto& ct : a.cprf) b.cprf.push_back(unpack(pack(ct), &wirecurve));
            try { o.runOTRound_end(m.round, b); }
            catch (const std::exception& e) { throw Violation{"session-failed-after-copy", fmt("round %d of client %u with server %u: %s", m.round, c, s, e.what())}; }
            m.pending = false;
            m.round--;
            return true;
        }
        try { o.unmaskResult(t.sendEncryptedMasks()); }
        catch (const std::exception& e) { throw Violation{"session-failed-after-copy", fmt("masks of client %u with server %u: %s", c, s, e.what())}; }
        const Sess& z = ss[m.sess];
        Pt got = ref::of(o.getResult()), want = E().add(z.K, E().mul(z.A, m.x));
        r.count("op.finish");
        r.sched("done client %u", c);
        r.check((got == want) == (m.x <= z.theta), "wrong-outcome-after-copy", fmt("client %u x=%u theta=%u ends with %s", c, m.x, z.theta, got.brief().c_str()));
        m = idle();
        return true;
    };
    unsigned budget = 60 + r.pick(60);
    begin(0);
    for (unsigned k = r.pick(33); k > 0; k--) step(0);
    while (budget--)
    {
        r.sh->steps++;
        switch (r.pick(8))
        {
        case 0: sv.churn(); break;
        case 1: cl.churn(); break;
        default:
        {
            unsigned c = r.pick(cl.s.size());
            if (cl.s[c].m.sess < 0)
            {
                if (ss.size() < 3) begin(c);
                else if (r.pick(4) == 3) { cl.s[c].o->clean(); unsigned s = r.pick(sv.s.size()); if (r.pick(3) == 2) { sv.s[s].o->clean(); sv.s[s].m.sess = -1; r.fault("server_reset"); } }
            }
            else if (!step(c)) { r.sched("abandon %u", c); r.fault("session_abandoned"); cl.s[c].o->clean(); cl.s[c].m = idle(); }
        }
        }
    }
    for (unsigned c = 0, spent = 0; c < cl.s.size() && spent < 80; c++)
        while (cl.s[c].m.sess >= 0 && spent++ < 80)
            if (!step(c)) { cl.s[c].o->clean(); cl.s[c].m = idle(); }
}

void c17(Run& r)
{
    Sim::clock() = 0;
    seam::rng_setup(r.seed(), 0);
    switch (r.pick(12))
    {
    case 0: case 1: case 2: { Ctx x(r); r.count("kind.receiver"); receivers(r, x); break; }
    case 3: case 4: { Ctx x(r); r.count("kind.sender_proxy"); senders(r, x); break; }
    case 5: case 6: r.count("kind.dual_mode"); duals<dme::DME_DDH>(r); break;
    case 7: r.count("kind.homomorphic"); duals<dme::DMHE_DDH>(r); break;
    case 8: case 9: r.count("kind.aggregator"); aggregators(r); break;
    default: { Ctx x(r); r.count("kind.opprf"); sessions(r, x); break; }
    }
}
SCENARIO(C17, c17, 240);
} // namespace
