// C01 (oblivious transfer), C02 (sender privacy), C03 (dual-mode trapdoors), C04 (distributed OT)
#include "net.hpp"
#include "separate.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "dmhe.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

// integer messages whose embedding needs at least `tries` candidates before one lies on the curve
mpz_class hard_message(Run& r, unsigned tries)
{
    Rng g(r.seed());
    mpz_class best = 0;
    unsigned bestn = 0;
    for (int k = 0; k < 400000; k++)
    {
        mpz_class m = (mpz_class(1) << 128) + g.bits(64), x = m << 10;
        Pt q;
        unsigned n = 0;
        while (n < 1000 && !E().lift(x + n, q, false)) n++;
        if (n > bestn) { bestn = n; best = m; }
        if (n >= tries) break;
    }
    return best;
}

mpz_class int_message(Run& r)
{
    switch (r.pick(9))
    {
    case 0: return r.pick(4);
    case 1: return (mpz_class(1) << (unsigned)(1 + r.pick(245))) - 1;
    case 2: return mpz_class(1) << (unsigned)r.pick(245);
    case 3: return (E().p >> 10) - 2 - (long)r.pick(3);
    case 4:
        // found by an offline search: 34, 25, 25, 23, 21, 20 and 19 candidates fail
        if (r.pick(3) == 2) return r.of(std::vector<unsigned long>{8940290, 7309281, 14664110, 10704161, 3383580, 429449, 175122});
        return hard_message(r, 4 + r.pick(9));
    case 5: return r.pick(0) % 65536;
    default: { Rng g(r.seed()); return g.bits(8 * (1 + r.pick(30))); }
    }
}

Pt point_message(Run& r, const std::vector<Pt>& earlier)
{
    switch (r.pick(9))
    {
    case 0: return E().mul(E().g, 1 + r.pick(5));
    case 1: return earlier.empty() ? E().g : r.of(earlier);
    case 2: return earlier.empty() ? E().neg(E().g) : E().neg(r.of(earlier));
    case 3: return Pt();                                        // identity
    case 4: { Pt q; u64 x = r.pick(1000); while (!E().lift(x, q, r.pick(2))) x++; return q; }
    case 5: { Pt q; mpz_class x = E().p - 1 - (long)r.pick(1000); while (!E().lift(x, q, r.pick(2))) x -= 1; return q; }
    default: { Rng g(r.seed()); return E().mul(E().g, 1 + g.bits(250)); }
    }
}

struct Crs                                  // the only durable thing: the published reference string
{
    bool wire;
    WP w[4];
    dme::crs_ddh_t make(CURVE* c) const
    {
        return dme::crs_ddh_t(get(w[0], c), get(w[1], c), get(w[2], c), get(w[3], c));
    }
};
Crs publish(bool wire, const dme::crs_ddh_t& c)
{
    Crs s;
    s.wire = wire;
    s.w[0] = put(wire, c.g0);
    s.w[1] = put(wire, c.g1);
    s.w[2] = put(wire, c.h0);
    s.w[3] = put(wire, c.h1);
    return s;
}

struct Pair { bool ints; Pt p[2]; mpz_class m[2]; };
typedef std::vector<Pair> Load;             // what a sender puts into one answer: several transfers for one selection
struct Req { int branch; std::vector<Load> sent; bool stable; };

POINT mkpoint(const Pt& p, CURVE* c)
{
    if (p.inf) return POINT();
    return POINT(p.x, p.y, c);
}

std::shared_ptr<dme::DME_DDH> dealer(Run& r)
{
    switch (r.pick(3))
    {
    case 0: return std::make_shared<dme::DME_DDH>(dme::mode_t::messy);
    case 1: return std::make_shared<dme::DME_DDH>(dme::mode_t::dec);
    default: return std::make_shared<dme::DME_DDH>();
    }
}

// ------------------------------------------------------------------ C01
template <class RECV, class SNDR>
struct OTWorld
{
    struct R { std::shared_ptr<RECV> o; int node, sess, att; bool busy; int left; };
    struct S { std::shared_ptr<SNDR> o; int node; };
    Run& r;
    World w;
    bool wire;
    std::vector<std::shared_ptr<dme::DME_DDH>> dealers;
    std::vector<Crs> crs;
    std::shared_ptr<CURVE> common;
    std::vector<R> rx;
    std::vector<S> tx;
    std::vector<std::shared_ptr<void>> graveyard;
    std::vector<Req> reqs;
    std::vector<int> reqrx, reqtx, reqcrs;
    unsigned done;
    u64 retry;
    OTWorld(Run& run) : r(run), w(run), done(0) {}

    void mk_rx(int i)
    {
        if (rx[i].o) { if (wire) rx[i].o.reset(); else graveyard.push_back(rx[i].o); }
        CURVE tmp;
        rx[i].o = std::make_shared<RECV>(crs[i % crs.size()].make(common.get()));
    }
    // a sender talks to receivers of several reference strings through one object per string
    std::map<std::pair<int, int>, std::shared_ptr<SNDR>> sobj;
    SNDR& sender(int i, int c)
    {
        auto& p = sobj[std::make_pair(i, c)];
        if (!p) p = std::make_shared<SNDR>(crs[c].make(common.get()));
        return *p;
    }
    void start(int i)
    {
        R& x = rx[i];
        if (!x.left) { x.busy = false; return; }
        x.busy = true;
        x.left--;
        Req q;
        q.branch = r.pick(2);
        q.stable = r.pick(3) != 2;
        q.sent.push_back(load(0));
        x.sess = reqs.size();
        x.att = 0;
        reqs.push_back(q);
        reqrx.push_back(i);
        reqtx.push_back(r.pick(tx.size()));
        reqcrs.push_back(i % crs.size());
        for (auto& p : q.sent[0])
            r.log("session %d receiver %d branch %d %s m0=%s m1=%s", x.sess, i, q.branch, p.ints ? "ints" : "points",
                  p.ints ? hex(p.m[0]).c_str() : p.p[0].brief().c_str(), p.ints ? hex(p.m[1]).c_str() : p.p[1].brief().c_str());
        select(i);
    }
    std::vector<Pt> used;
    std::vector<mpz_class> usedm;
    void draw(Pair& p, int b)
    {
        if (p.ints)
        {
            p.m[b] = usedm.size() && r.pick(6) == 5 ? r.of(usedm) : int_message(r);
            usedm.push_back(p.m[b]);
        }
        else
        {
            p.p[b] = point_message(r, used);
            used.push_back(p.p[b]);
        }
    }
    Load load(const Load* before)
    {
        Load l;
        if (before)                              // the sender has new messages for a repeated request, some of them unchanged
        {
            l = *before;
            bool any = false;
            for (auto& p : l)
                for (int b = 0; b < 2; b++)
                    if (r.pick(2)) { draw(p, b); any = true; }
            if (any) r.probe("repeated_request_other_messages");
            return l;
        }
        unsigned n = r.pick(4) == 3 ? 2 + r.pick(3) : 1;
        for (unsigned k = 0; k < n; k++)
        {
            Pair p;
            p.ints = r.pick(2);
            bool like = k && r.pick(3) == 2;     // shares a message with the transfer before
            if (like) p = l.back();
            unsigned keep = r.pick(2);
            for (unsigned b = 0; b < 2; b++)
                if (!like || b != keep) draw(p, b);
            l.push_back(p);
        }
        if (n > 1) r.probe("several_transfers_per_selection");
        return l;
    }
    Msg pending_pk[8];
    void select(int i)
    {
        R& x = rx[i];
        x.att++;
        dme::pkey_t pk = x.o->selectMsg(dme::branch_t(reqs[x.sess].branch));
        r.check(x.o->getBranch() == reqs[x.sess].branch, "branch-lost", "receiver reports another branch than selected");
        Msg m;
        m.type = 1;
        m.sess = x.sess;
        m.att = x.att;
        m.pts = {put(wire, pk.g), put(wire, pk.h)};
        pending_pk[i] = m;
        r.count("op.select");
        ask(i);
    }
    void ask(int i)
    {
        R& x = rx[i];
        w.send(x.node, tx[reqtx[x.sess]].node, pending_pk[i]);
        int sess = x.sess, att = x.att;
        w.timer(x.node, retry, [this, i, sess, att] {
            R& x = rx[i];
            if (!x.busy || x.sess != sess || x.att != att) return;
            r.count("op.retry");
            if (r.pick(2)) { r.sched("reselect %d", i); select(i); }
            else ask(i);
        });
    }
    std::set<int> asked;
    void on_request(int s, int from, const Msg& m)
    {
        Req& q = reqs[m.sess];
        SNDR& o = sender(s, reqcrs[m.sess]);
        CURVE* c = o.getCurve();
        dme::pkey_t pk(get(m.pts[0], c), get(m.pts[1], c));
        if (asked.insert(m.sess).second == false && !q.stable) q.sent.push_back(load(&q.sent.back()));
        Msg a;
        a.type = 2;
        a.sess = m.sess;
        a.att = m.att;
        a.round = q.sent.size() - 1;
        a.damaged = m.damaged;
        for (auto& p : q.sent.back())
        {
            ot::ctxt_v_t v = p.ints ? o.encMsgs(pk, p.m[0], p.m[1]) : o.encMsgs(pk, mkpoint(p.p[0], c), mkpoint(p.p[1], c));
            r.count("op.encrypt");
            a.nums.push_back(v.size());
            for (auto& e : v) { a.pts.push_back(put(wire, e.u)); a.pts.push_back(put(wire, e.mv)); }
        }
        w.send(tx[s].node, from, a);
    }
    void on_answer(int i, const Msg& m)
    {
        R& x = rx[i];
        if (!x.busy || m.sess != x.sess || m.att != x.att) { r.probe("stale_answer_dropped"); return; }
        CURVE* c = x.o->getCurve();
        const Req& q = reqs[x.sess];
        const Load& sent = q.sent[m.round];
        if (!m.damaged) r.count("op.decrypt");
        size_t at = 0;
        std::vector<unsigned> order;
        std::vector<size_t> begins;
        for (size_t k = 0; k < sent.size(); k++) { order.push_back(k); begins.push_back(at); at += 2 * (k < m.nums.size() ? std::min(2ul, m.nums[k].get_ui()) : 0); }
        if (sent.size() > 1) for (size_t k = sent.size() - 1; k; k--) std::swap(order[k], order[r.pick(k + 1)]);
        for (unsigned k : order)
        {
            const Pair& p = sent[k];
            ot::ctxt_v_t v;
            for (size_t j = begins[k]; j + 1 < m.pts.size() && j < begins[k] + 4; j += 2) v.push_back(dme::ctxt_t(get(m.pts[j], c), get(m.pts[j + 1], c)));
            if (m.damaged)
            {
                // the transport notices only afterwards: the library has already processed the damaged answer
                if (v.size() < 2) continue;
                if (p.ints) x.o->decryptMsgDecode(v); else x.o->decryptMsg(v);
                continue;
            }
            r.check(v.size() == 2, "wrong-answer-size", fmt("session %d: an answer of %zu ciphertexts", x.sess, v.size()));
            if (p.ints)
            {
                mpz_class got = x.o->decryptMsgDecode(v);
                r.check(got == p.m[q.branch], "wrong-message", fmt("session %d branch %d transfer %u: got %s want %s", x.sess, q.branch, k, hex(got).c_str(), hex(p.m[q.branch]).c_str()));
            }
            else
            {
                POINT got = x.o->decryptMsg(v);
                if (r.pick(6) == 5) { r.probe("opened_twice"); got = x.o->decryptMsg(v); }
                r.check(ref::of(got) == p.p[q.branch], "wrong-message", fmt("session %d branch %d transfer %u: got %s want %s", x.sess, q.branch, k, ref::of(got).str().c_str(), p.p[q.branch].str().c_str()));
            }
        }
        if (m.damaged) { r.probe("damaged_answer_processed"); return; }
        r.log("session %d done", x.sess);
        done++;
        x.att = 0;
        x.sess = -1;
        start(i);
    }
    void go()
    {
        seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 0, 60, 400}));
        wire = r.pick(2);
        unsigned nr = 1 + r.pick(3), ns = 1 + r.pick(3), nc = 1 + r.pick(2), total = 0;
        bool lengthy = r.pick(50) == 49;      // the same few objects in service for many transfers
        if (lengthy) { nr = 1; ns = 1 + r.pick(2); nc = 1; r.probe("long_service"); }
        common = std::make_shared<CURVE>();
        for (unsigned i = 0; i < nc; i++)
        {
            dealers.push_back(dealer(r));
            crs.push_back(publish(wire, dealers.back()->crs));
            if (wire && r.pick(2)) dealers.back().reset();       // the dealer is gone
        }
        retry = 30000 + 400000;
        tx.resize(ns);
        rx.resize(nr);
        for (unsigned i = 0; i < ns; i++)
        {
            tx[i].node = w.node(fmt("sender%u", i));
            w.nodes[tx[i].node].on_msg = [this, i](int from, const Msg& m) { on_request(i, from, m); };
            w.nodes[tx[i].node].on_crash = [this, i] {
                for (auto& p : sobj)
                    if (p.first.first == (int)i && p.second) { if (!wire) graveyard.push_back(p.second); p.second.reset(); }
            };
        }
        for (unsigned i = 0; i < nr; i++)
        {
            rx[i].node = w.node(fmt("receiver%u", i));
            rx[i].busy = false;
            rx[i].left = lengthy ? 30 + r.pick(40) : 1 + r.pick(3);
            total += rx[i].left;
            mk_rx(i);
            w.nodes[rx[i].node].on_msg = [this, i](int, const Msg& m) { on_answer(i, m); };
            w.nodes[rx[i].node].on_crash = [this, i] { if (!wire) graveyard.push_back(rx[i].o); rx[i].o.reset(); };
            w.nodes[rx[i].node].on_start = [this, i] { mk_rx(i); if (rx[i].busy) select(i); };
        }
        w.faults(true, true, 500000);
        for (unsigned i = 0; i < nr; i++) start(i);
        w.sim.run([&] { return done == total; }, w.cfg.faultend + (40 + 2 * total) * retry);
        r.check(done == total, "no-progress", fmt("%u of %u transfers completed after faults stopped", done, total));
        r.count("sessions", done);
    }
};

void c01(Run& r)
{
    OTWorld<ot::OTrecv, ot::OTsndr> w(r);
    w.go();
    r.count("rng.draws", seam::draws());
    if (seam::shaped()) r.count("fault.rng_short_draw", seam::shaped());
}
SCENARIO(C01, c01, 60);

// ------------------------------------------------------------------ C02
// The dealer is the simulator: it knows every discrete logarithm, so masks can be opened into their two exponents.
void c02(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    Rng g(r.seed());
    bool wire = r.pick(2);
    World w(r);
    auto common = std::make_shared<CURVE>();
    const mpz_class& n = E().n;
    struct Log { mpz_class a[2], e[2]; bool messy; };
    std::vector<Crs> crs;
    std::vector<Log> logs;
    unsigned nc = 1 + r.pick(2);
    for (unsigned i = 0; i < nc; i++)
    {
        Log l;
        for (int b = 0; b < 2; b++) { l.a[b] = 1 + ref::mod(g.bits(300), n - 1); l.e[b] = 1 + ref::mod(g.bits(300), n - 1); }
        l.messy = r.pick(4) != 3;
        if (!l.messy) l.e[1] = l.e[0];
        Pt g0 = E().mul(E().g, l.a[0]), g1 = E().mul(E().g, l.a[1]);
        POINT P[4] = {mkpoint(g0, common.get()), mkpoint(g1, common.get()), mkpoint(E().mul(g0, l.e[0]), common.get()), mkpoint(E().mul(g1, l.e[1]), common.get())};
        crs.push_back(publish(wire, dme::crs_ddh_t(P[0], P[1], P[2], P[3])));
        logs.push_back(l);
    }
    unsigned ns = 1 + r.pick(2), nr = 1 + r.pick(2), nreq = 2 + r.pick(4), answered = 0;
    struct Rec { int c, b; dme::keypair_t kp; Pt p[2]; mpz_class m[2]; bool ints; unsigned answers; };
    std::vector<Rec> recs;
    std::vector<std::shared_ptr<dme::DME_DDH>> keygen;
    std::vector<std::vector<std::shared_ptr<ot::OTsndr>>> snd(ns, std::vector<std::shared_ptr<ot::OTsndr>>(nc));
    std::vector<std::shared_ptr<void>> graveyard;
    for (unsigned c = 0; c < nc; c++) keygen.push_back(std::make_shared<dme::DME_DDH>(crs[c].make(common.get())));
    std::map<Pt, std::string> masks, exps;
    std::vector<int> sn, rn;
    auto fresh = [&](std::map<Pt, std::string>& m, const Pt& p, const std::string& what, const char* cls) {
        r.check(!p.inf, std::string(cls) + "-zero", what + " is zero");
        auto it = m.find(p);
        r.check(it == m.end(), std::string(cls) + "-reused", what + " repeats " + (it == m.end() ? "" : it->second));
        m[p] = what;
        Pt q = E().neg(p);
        it = m.find(q);
        r.check(it == m.end(), std::string(cls) + "-reused", what + " is the opposite of " + (it == m.end() ? "" : it->second));
    };
    auto opened = [&](int c) -> mpz_class { return 0; };
    (void)opened;
    for (unsigned i = 0; i < ns; i++)
    {
        sn.push_back(w.node(fmt("sender%u", i)));
        w.nodes[sn[i]].on_crash = [&, i] { for (auto& o : snd[i]) { if (o && !wire) graveyard.push_back(o); o.reset(); } };
        w.nodes[sn[i]].on_msg = [&, i](int from, const Msg& m) {
            Rec& k = recs[m.sess];
            auto& o = snd[i][k.c];
            if (!o) o = std::make_shared<ot::OTsndr>(crs[k.c].make(common.get()));
            CURVE* cv = o->getCurve();
            dme::pkey_t pk(get(m.pts[0], cv), get(m.pts[1], cv));
            ot::ctxt_v_t v = k.ints ? o->encMsgs(pk, k.m[0], k.m[1]) : o->encMsgs(pk, mkpoint(k.p[0], cv), mkpoint(k.p[1], cv));
            r.count("op.encrypt");
            Msg a;
            a.type = 2;
            a.sess = m.sess;
            for (auto& e : v) { a.pts.push_back(put(wire, e.u)); a.pts.push_back(put(wire, e.mv)); }
            w.send(sn[i], from, a);
        };
    }
    std::set<std::string> seen_answers;
    for (unsigned i = 0; i < nr; i++)
    {
        rn.push_back(w.node(fmt("receiver%u", i), false));
        w.nodes[rn[i]].on_msg = [&, i](int from, const Msg& m) {
            Rec& k = recs[m.sess];
            const Log& l = logs[k.c];
            CURVE* cv = keygen[k.c]->getCurve();
            std::vector<dme::ctxt_t> v;
            for (size_t j = 0; j + 1 < m.pts.size(); j += 2) v.push_back(dme::ctxt_t(get(m.pts[j], cv), get(m.pts[j + 1], cv)));
            // a network duplicate of an answer is the same bytes, not a new encryption
            std::string id = ref::of(v[0].u).str() + "/" + ref::of(v[0].mv).str() + "/" + ref::of(v[1].u).str() + "/" + ref::of(v[1].mv).str();
            bool again = m.late;
            (void)again;
            if (!seen_answers.insert(id).second) { r.probe("duplicate_answer"); return; }
            answered++;
            k.answers++;
            if (k.answers > 1) r.probe("request_answered_twice");
            Pt M[2];
            for (int b = 0; b < 2; b++)
                M[b] = k.p[b];
            if (k.ints)
                for (int b = 0; b < 2; b++) M[b] = ref::of(keygen[k.c]->encode(k.m[b]));
            r.check(ref::of(keygen[k.c]->Dec(k.kp.sk, v[k.b])) == M[k.b], "selected-not-delivered", "selected branch does not open");
            int o = 1 - k.b;
            r.check(ref::of(keygen[k.c]->Dec(k.kp.sk, v[o])) != M[o], "other-branch-opens", fmt("request %d: own secret opens branch %d", m.sess, o));
            r.check(ref::of(v[o].mv) != M[o] && ref::of(v[k.b].mv) != M[k.b], "message-in-clear", "a message travels unmasked");
            mpz_class sk = k.kp.sk.getRawValue();
            for (int b = 0; b < 2; b++)
            {
                Pt u = ref::of(v[b].u), mask = E().sub(ref::of(v[b].mv), M[b]);
                std::string what = fmt("request %d answer %u branch %d ", m.sess, k.answers, b);
                fresh(masks, mask, what + "mask", "mask");
                fresh(masks, u, what + "u", "mask");
                if (b == o && l.messy)
                {
                    // u = a_b (s + e_b t) G,  mask = a_k sk (s + e_k t) G : solve for sG and tG
                    Pt U = E().mul(u, ref::inv(l.a[b], n)), V = E().mul(mask, ref::inv(ref::mod(l.a[k.b] * sk, n), n));
                    Pt T = E().mul(E().sub(U, V), ref::inv(ref::mod(l.e[b] - l.e[k.b], n), n));
                    Pt S = E().sub(U, E().mul(T, l.e[b]));
                    fresh(exps, S, what + "first exponent", "exponent");
                    fresh(exps, T, what + "second exponent", "exponent");
                    r.probe("mask_opened");
                }
            }
        };
    }
    if (r.pick(60) == 59)
    {
        // a long-lived sender: many answers from one object, reuse shows in the first component already
        r.probe("busy_sender");
        ot::OTsndr o(crs[0].make(common.get()));
        dme::keypair_t kp = keygen[0]->KeyGen(dme::branch_t(r.pick(2)));
        unsigned rounds = 40 + r.pick(240);
        CURVE* cv = o.getCurve();
        POINT m = cv->getDefaultGen();
        for (unsigned k = 0; k < rounds; k++)
        {
            bool ints = r.pick(8) == 7;
            ot::ctxt_v_t v = ints ? o.encMsgs(kp.pk, mpz_class(k), mpz_class(k)) : o.encMsgs(kp.pk, m, m);
            r.sh->steps++;
            for (int b = 0; b < 2; b++)
            {
                std::string what = fmt("busy sender answer %u branch %d ", k, b);
                fresh(masks, ref::of(v[b].u), what + "u", "mask");
                if (!ints) fresh(masks, E().sub(ref::of(v[b].mv), E().g), what + "mask", "mask");
            }
        }
        r.count("op.encrypt", rounds);
        r.count("answers", rounds);
        return;
    }
    if (r.pick(12) == 11)
    {
        // a key that is messy for both branches: every exponent of an answer can be solved for
        r.probe("both_branches_messy");
        const Log& l = logs[0];
        mpz_class kg = 1 + ref::mod(g.bits(300), n - 1), kh = 1 + ref::mod(g.bits(300), n - 1);
        ot::OTsndr o(crs[0].make(common.get()));
        CURVE* cv = o.getCurve();
        Pt pg = E().mul(E().g, kg), ph = E().mul(pg, kh);
        dme::pkey_t pk(mkpoint(pg, cv), mkpoint(ph, cv));
        Pt M = point_message(r, std::vector<Pt>());
        mpz_class mi = int_message(r);
        bool ints = r.pick(3) == 2;
        if (ints) M = ref::of(keygen[0]->encode(mi));
        mpz_class ikg = ref::inv(kg, n), ia[2] = {ref::inv(l.a[0], n), ref::inv(l.a[1], n)}, id[2] = {ref::inv(ref::mod(l.e[0] - kh, n), n), ref::inv(ref::mod(l.e[1] - kh, n), n)};
        auto open = [&](const ot::ctxt_v_t& v) {
            std::vector<Pt> x;
            for (int b = 0; b < 2; b++)
            {
                Pt U = E().mul(ref::of(v[b].u), ia[b]), V = E().mul(E().sub(ref::of(v[b].mv), M), ikg);
                Pt T = E().mul(E().sub(U, V), id[b]);
                x.push_back(E().sub(U, E().mul(T, l.e[b])));
                x.push_back(T);
            }
            return x;
        };
        auto name = [](size_t k) { return fmt("branch %zu %s exponent", k / 2, k % 2 ? "second" : "first"); };
        auto enc = [&](ot::OTsndr& s) { return ints ? s.encMsgs(pk, mi, mi) : s.encMsgs(pk, mkpoint(M, cv), mkpoint(M, cv)); };
        unsigned rounds = 2 + r.pick(r.pick(5) == 4 ? 40 : 5);
        for (unsigned k = 0; k < rounds; k++)
        {
            ot::OTsndr before(o);
            std::vector<mpz_class> drawn;
            seam::record(&drawn);
            std::vector<Pt> x = open(enc(o));
            seam::record(0);
            r.sh->steps++;
            for (size_t i = 0; i < x.size(); i++)
            {
                std::string what = fmt("answer %u ", k) + name(i);
                fresh(exps, x[i], what, "exponent");
                Pt p = E().g;                                   // an exponent the receiver could guess
                for (int j = 1; j <= 256; j++, p = E().add(p, E().g))
                    if (k == 0) r.check(p != x[i] && E().neg(p) != x[i], "exponent-guessable", what + fmt(" is %d", j));
            }
            for (size_t i = 0; i < x.size(); i++)
                for (size_t j = 0; j < i; j++)
                {
                    r.check(E().add(x[i], x[i]) != x[j] && E().add(x[j], x[j]) != x[i], "exponents-related", fmt("answer %u ", k) + name(i) + " doubles " + name(j));
                    Pt d = E().sub(x[i], x[j]);
                    r.check(d != E().g && E().neg(d) != E().g, "exponents-related", fmt("answer %u ", k) + name(i) + " is next to " + name(j));
                }
            if (k == 0)
            {
                Separation<Pt> s;
                s.run(r, drawn, [&] { ot::OTsndr c(before); return open(enc(c)); }, x, 40);
                s.check(r, "exponent", name);
            }
        }
        r.count("op.encrypt", rounds);
        r.count("answers", rounds);
        return;
    }
    w.faults(false, true, 400000);
    std::vector<std::pair<int, Msg>> out;
    for (unsigned i = 0; i < nreq; i++)
    {
        Rec k;
        k.c = r.pick(nc);
        k.b = r.pick(2);
        k.ints = r.pick(2);
        k.answers = 0;
        std::vector<Pt> earlier;
        for (auto& e : recs) { earlier.push_back(e.p[0]); earlier.push_back(e.p[1]); }
        for (int b = 0; b < 2; b++) { k.p[b] = point_message(r, earlier); k.m[b] = int_message(r); }
        if (!k.ints && k.p[0] == k.p[1]) r.probe("equal_messages");
        // a receiver may re-use its key for several requests (re-send), or make a new one
        bool reuse = i && r.pick(4) == 3;
        if (reuse) { k.c = recs[i - 1].c; k.b = recs[i - 1].b; k.kp = recs[i - 1].kp; }
        else k.kp = keygen[k.c]->KeyGen(dme::branch_t(k.b));
        if (reuse) r.probe("key_reused_for_second_request");
        recs.push_back(k);
        Msg m;
        m.type = 1;
        m.sess = i;
        m.pts = {put(wire, k.kp.pk.g), put(wire, k.kp.pk.h)};
        int from = rn[r.pick(nr)], to = sn[r.pick(ns)];
        u64 when = r.pick(200000);
        w.sim.at(when, [&w, from, to, m] { w.send(from, to, m); });
        if (r.pick(3) == 2) { r.probe("request_resent"); int to2 = sn[r.pick(ns)]; w.sim.at(when + 1000 + r.pick(300000), [&w, from, to2, m] { w.send(from, to2, m); }); }
    }
    w.sim.run([] { return false; });
    r.count("answers", answered);
}
SCENARIO(C02, c02, 60);

// ------------------------------------------------------------------ C03
void c03(Run& r)
{
    seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 0, 100}));
    bool wire = r.pick(2);
    World w(r);
    unsigned nd = 1 + r.pick(3), np = 1 + r.pick(3), nk = 2 + r.pick(4);
    if (r.pick(60) == 59) { nk = 30 + r.pick(60); r.probe("long_service"); }
    struct D { std::shared_ptr<dme::DME_DDH> o; bool messy; Crs crs; int node; };
    std::vector<D> ds;
    auto common = std::make_shared<CURVE>();
    std::vector<std::shared_ptr<void>> graveyard;
    struct Job { int d, p, b; dme::keypair_t kp; Pt m; dme::skey_t t[2]; int got; };
    std::vector<Job> jobs;
    std::map<std::pair<int, int>, std::shared_ptr<dme::DMHE_DDH>> party;
    auto at = [&](int p, int d) -> dme::DMHE_DDH& {
        auto& o = party[std::make_pair(p, d)];
        if (!o) o = std::make_shared<dme::DMHE_DDH>(ds[d].crs.make(common.get()));
        return *o;
    };
    unsigned spare = r.pick(4);
    auto deal = [&](D& d) {
        d.messy = r.pick(2) == 0;
        if (r.pick(2)) d.o = std::make_shared<dme::DME_DDH>(d.messy ? dme::mode_t::messy : dme::mode_t::dec);
        else d.o = std::make_shared<dme::DMHE_DDH>(d.messy ? dme::mode_t::messy : dme::mode_t::dec);
        d.crs = publish(wire, d.o->crs);
    };
    for (unsigned i = 0; i < nd + spare; i++)
    {
        D d;
        d.messy = false;
        d.node = w.node(fmt("dealer%u", i), false);
        if (i < nd) deal(d);
        ds.push_back(d);
    }
    unsigned dealt = nd;
    std::vector<int> pn;
    for (unsigned i = 0; i < np; i++)
    {
        pn.push_back(w.node(fmt("party%u", i)));
        w.nodes[pn[i]].on_crash = [&, i] { for (auto& p : party) if (p.first.first == (int)i) { if (p.second && !wire) graveyard.push_back(p.second); p.second.reset(); } };
        // a party encrypts one message for a trapdoor key, both branches
        w.nodes[pn[i]].on_msg = [&, i](int from, const Msg& m) {
            Job& j = jobs[m.sess];
            dme::DMHE_DDH& o = at(i, j.d);
            dme::pkey_t pk(get(m.pts[0], o.getCurve()), get(m.pts[1], o.getCurve()));
            Msg a;
            a.type = 3;
            a.sess = m.sess;
            for (int b = 0; b < 2; b++)
            {
                dme::ctxt_t c = o.Enc(pk, dme::branch_t(b), mkpoint(j.m, o.getCurve()));
                a.pts.push_back(put(wire, c.u));
                a.pts.push_back(put(wire, c.mv));
            }
            w.send(pn[i], from, a);
        };
    }
    for (unsigned d = 0; d < nd + spare; d++)
        w.nodes[ds[d].node].on_msg = [&, d](int from, const Msg& m) {
            Job& j = jobs[m.sess];
            if (!ds[d].o) { r.probe("dealer_retired"); return; }
            dme::DME_DDH& o = *ds[d].o;
            CURVE* c = o.getCurve();
            j.got++;
            if (m.type == 1)                                     // a public key arrives at the messy trapdoor holder
            {
                dme::pkey_t pk(get(m.pts[0], c), get(m.pts[1], c));
                dme::branch_t mb = o.FindMessy(pk);
                r.check((int)mb == 1 - j.b, "messy-branch-wrong", fmt("key for branch %d: trapdoor holder names branch %d", j.b, (int)mb));
                r.probe("messy_branch_named");
                for (int b = 0; b < 2; b++)
                {
                    dme::ctxt_t ct = o.Enc(pk, dme::branch_t(b), mkpoint(j.m, c));
                    bool opens = ref::of(at(j.p, d).Dec(j.kp.sk, ct)) == j.m;
                    r.check(opens == (b == j.b), "branch-decryption", fmt("key for branch %d %s branch %d", j.b, opens ? "opens" : "does not open", b));
                }
            }
            else                                                 // ciphertexts under a trapdoor key come back
            {
                for (int b = 0; b < 2; b++)
                {
                    dme::ctxt_t ct(get(m.pts[2 * b], c), get(m.pts[2 * b + 1], c));
                    r.check(ref::of(o.Dec(j.t[b], ct)) == j.m, "trapdoor-does-not-open", fmt("trapdoor key %d does not open branch %d", b, b));
                }
                r.probe("trapdoor_opened_both");
            }
        };
    w.faults(false, true, 300000);
    for (unsigned i = 0; i < nk; i++)
    {
        u64 when = r.pick(200000);
        Job j;
        j.d = -1;
        j.p = r.pick(np);
        j.b = r.pick(2);
        j.m = point_message(r, std::vector<Pt>());
        j.got = 0;
        jobs.push_back(j);
        w.sim.at(when, [&, i] {
            Job& j = jobs[i];
            std::vector<int> live;
            for (unsigned d = 0; d < ds.size(); d++) if (ds[d].o) live.push_back(d);
            if (live.empty()) return;
            j.d = r.of(live);
            Msg m;
            m.sess = i;
            if (ds[j.d].messy)
            {
                if (!w.nodes[pn[j.p]].up) return;
                j.kp = at(j.p, j.d).KeyGen(dme::branch_t(j.b));
                m.type = 1;
                m.pts = {put(wire, j.kp.pk.g), put(wire, j.kp.pk.h)};
                w.send(pn[j.p], ds[j.d].node, m);
            }
            else
            {
                std::tuple<dme::pkey_t, dme::skey_t, dme::skey_t> t = ds[j.d].o->TrapKeyGen();
                j.t[0] = std::get<1>(t);
                j.t[1] = std::get<2>(t);
                m.type = 2;
                m.pts = {put(wire, std::get<0>(t).g), put(wire, std::get<0>(t).h)};
                w.send(ds[j.d].node, pn[j.p], m);
            }
            r.count("op.key");
        });
    }
    for (unsigned k = 0; k < spare; k++)             // a dealer goes away, another one with a new reference string appears
        w.sim.at(r.pick(300000), [&] {
            if (r.pick(3)) { auto& o = ds[r.pick(dealt)].o; if (o && !wire) graveyard.push_back(o); o.reset(); r.fault("dealer_retired"); r.sched("dealer retired"); }
            deal(ds[dealt++]);
            r.sched("new dealer");
        });
    w.sim.run([] { return false; });
}
SCENARIO(C03, c03, 60);

// ------------------------------------------------------------------ C04
// One proxy in service for a long time: answers come in late, are replaced by re-sent ones and partial aggregates are taken meanwhile
void proxy_history(Run& r, bool wire)
{
    auto common = std::make_shared<CURVE>();
    auto deal = dealer(r);
    Crs crs = publish(wire, deal->crs);
    unsigned ns = 1 + r.pick(5), nx = 1 + r.pick(2), steps = 6 + r.pick(10);
    struct Slot { ot::ctxt_v_t v; Pt m[2]; int sender; };
    struct Sel { std::shared_ptr<ot::DOTrecv> o; dme::pkey_t pk; int b; std::vector<Slot> have; std::vector<std::pair<ot::ctxt_v_t, Pt>> agg; std::vector<size_t> last; };
    std::vector<Sel> sel(nx);
    std::vector<std::shared_ptr<ot::DOTsndr>> sn;
    std::vector<std::shared_ptr<ot::DOTprxy>> px;
    std::vector<std::shared_ptr<void>> graveyard;
    std::vector<Pt> earlier;
    for (unsigned i = 0; i < ns; i++) sn.push_back(std::make_shared<ot::DOTsndr>(crs.make(common.get())));
    for (unsigned i = 0; i < 1 + r.pick(2); i++) px.push_back(std::make_shared<ot::DOTprxy>(crs.make(common.get())));
    auto select = [&](Sel& s) {
        if (!s.o) s.o = std::make_shared<ot::DOTrecv>(crs.make(common.get()));
        s.b = r.pick(2);
        s.pk = s.o->selectMsg(dme::branch_t(s.b));
        s.have.clear();
        s.agg.clear();
        s.last.clear();
    };
    auto answer = [&](Sel& s, Slot& x) {
        for (int b = 0; b < 2; b++) { x.m[b] = point_message(r, earlier); earlier.push_back(x.m[b]); }
        CURVE* c = common.get();
        x.v = sn[x.sender]->encMsgs(s.pk, mkpoint(x.m[0], c), mkpoint(x.m[1], c));
    };
    for (auto& s : sel) select(s);
    r.probe("proxy_history");
    for (unsigned k = 0; k < steps; k++)
    {
        r.sh->steps++;
        Sel& s = sel[r.pick(nx)];
        unsigned what = r.pick(8);
        if (what == 7) { select(s); r.sched("select"); continue; }
        if (what == 6) { auto& p = px[r.pick(px.size())]; graveyard.push_back(p); p = r.pick(2) ? std::make_shared<ot::DOTprxy>(*p) : std::make_shared<ot::DOTprxy>(crs.make(common.get())); r.fault("proxy_restart"); continue; }
        if (what < 3 && s.have.size() < ns) { Slot x; x.sender = s.have.size(); answer(s, x); s.have.push_back(x); r.sched("answer"); }
        else if (what < 5 && !s.have.empty()) { size_t i = r.pick(s.have.size()); answer(s, s.have[i]); r.sched("answer %zu replaced", i); r.probe("answer_replaced"); }
        if (s.have.empty()) continue;
        // which answers, in which order: often almost the list of the time before
        std::vector<size_t> list = s.last;
        switch (r.pick(4))
        {
        case 0: break;
        case 1: if (list.size() > 1) list.pop_back(); break;
        case 2: list.clear(); for (size_t i = 0; i < s.have.size(); i++) list.push_back(i); break;
        default: list.clear(); for (size_t i = 0; i < s.have.size(); i++) if (r.pick(2)) list.push_back(i);
            for (size_t i = list.size(); i > 1; i--) std::swap(list[i - 1], list[r.pick(i)]);
        }
        for (size_t i = 0; i < s.have.size() && list.size() < s.have.size() && r.pick(2); i++)
            if (std::find(list.begin(), list.end(), i) == list.end()) list.push_back(i);
        if (list.empty()) list.push_back(r.pick(s.have.size()));
        s.last = list;
        std::vector<ot::ctxt_v_t> in;
        Pt want;
        for (size_t i : list) { in.push_back(s.have[i].v); want = E().add(want, s.have[i].m[s.b]); }
        bool nested = !s.agg.empty() && r.pick(5) == 4;
        if (nested) { auto& e = r.of(s.agg); in.insert(in.begin() + r.pick(in.size() + 1), e.first); want = E().add(want, e.second); r.probe("nested_aggregate"); }
        ot::ctxt_v_t out = r.of(px)->aggregate(in);
        r.count("op.aggregate");
        Pt got = ref::of(s.o->decryptMsg(out));
        r.sched("aggregate of %zu", in.size());
        r.check(got == want, "wrong-sum", fmt("aggregate %u of %zu answers on branch %d: got %s want %s", k, in.size(), s.b, got.str().c_str(), want.str().c_str()));
        s.agg.push_back(std::make_pair(out, want));
    }
}

void c04(Run& r)
{
    seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 0, 100}));
    bool wire = r.pick(2);
    if (r.pick(5) == 4) { proxy_history(r, wire); return; }
    World w(r);
    auto common = std::make_shared<CURVE>();
    auto deal = dealer(r);
    Crs crs = publish(wire, deal->crs);
    unsigned ns = 1 + r.pick(5), np = 1 + r.pick(3), rounds = 1 + r.pick(3), nrx = 1 + r.pick(2);
    if (r.pick(8) == 7) { ns = 6 + r.pick(r.pick(4) == 3 ? 30 : 8); rounds = 1; r.probe("many_senders"); }
    else if (r.pick(40) == 39) { ns = r.of(std::vector<unsigned>{63, 64, 65, 127, 128, 129, 255, 256, 257, 258 + (unsigned)r.pick(40)}); np = 1 + r.pick(2); rounds = nrx = 1; r.probe("hundreds_of_senders"); }
    std::vector<std::shared_ptr<void>> graveyard;
    struct Round { int rx, branch, att; std::vector<Pt> m[2]; bool done; };
    std::vector<Round> rd;
    struct Rx { std::shared_ptr<ot::DOTrecv> o; int node, cur, att; std::vector<int> todo; Msg pk; };
    struct Px { std::shared_ptr<ot::DOTprxy> o; int node; std::map<std::pair<int, int>, std::map<int, ot::ctxt_v_t>> got; std::map<std::pair<int, int>, std::vector<int>> order; std::set<std::pair<int, int>> sent; };
    std::vector<Rx> rx(nrx);
    std::vector<Px> px(np);
    std::vector<std::shared_ptr<ot::DOTsndr>> sn(ns);
    std::vector<int> snode(ns);
    bool tree = np > 1 && r.pick(2);         // leaf proxies feed proxy 0, or every round uses one proxy
    unsigned finished = 0;
    const u64 retry = 500000;
    auto leaf = [&](int s) { return tree ? 1 + s % (np - 1) : 0; };
    std::function<void(int)> begin;
    std::function<void(int)> select;
    auto unpack = [&](const Msg& m, CURVE* c) {
        ot::ctxt_v_t v;
        for (size_t k = 0; k + 1 < m.pts.size(); k += 2) v.push_back(dme::ctxt_t(get(m.pts[k], c), get(m.pts[k + 1], c)));
        return v;
    };
    auto pack = [&](const ot::ctxt_v_t& v, Msg& a) {
        for (auto& e : v) { a.pts.push_back(put(wire, e.u)); a.pts.push_back(put(wire, e.mv)); }
    };
    std::vector<std::shared_ptr<CURVE>> pcurve;
    for (unsigned i = 0; i < np; i++) pcurve.push_back(std::make_shared<CURVE>());
    for (unsigned i = 0; i < ns; i++)
    {
        snode[i] = w.node(fmt("sender%u", i));
        w.nodes[snode[i]].on_crash = [&, i] { if (sn[i] && !wire) graveyard.push_back(sn[i]); sn[i].reset(); };
        w.nodes[snode[i]].on_msg = [&, i](int from, const Msg& m) {
            if (!sn[i]) sn[i] = std::make_shared<ot::DOTsndr>(crs.make(common.get()));
            CURVE* c = sn[i]->getCurve();
            dme::pkey_t pk(get(m.pts[0], c), get(m.pts[1], c));
            ot::ctxt_v_t v = sn[i]->encMsgs(pk, mkpoint(rd[m.sess].m[0][i], c), mkpoint(rd[m.sess].m[1][i], c));
            Msg a;
            a.type = 2;
            a.sess = m.sess;
            a.att = m.att;
            a.round = i;
            pack(v, a);
            r.count("op.encrypt");
            w.send(snode[i], px[leaf(i)].node, a);
        };
    }
    for (unsigned p = 0; p < np; p++)
    {
        px[p].node = w.node(fmt("proxy%u", p));
        px[p].o = std::make_shared<ot::DOTprxy>(crs.make(common.get()));
        w.nodes[px[p].node].on_crash = [&, p] {
            if (!wire) graveyard.push_back(px[p].o);
            px[p].o.reset();
            px[p].got.clear();
            px[p].order.clear();
            px[p].sent.clear();
        };
        w.nodes[px[p].node].on_start = [&, p] { px[p].o = std::make_shared<ot::DOTprxy>(crs.make(common.get())); };
        w.nodes[px[p].node].on_msg = [&, p](int, const Msg& m) {
            Px& x = px[p];
            auto key = std::make_pair(m.sess, m.att);
            if (!x.got[key].count(m.round)) x.order[key].push_back(m.round);
            else { r.probe("duplicate_contribution"); if (r.pick(2)) return; }
            x.got[key][m.round] = unpack(m, pcurve[p].get());
            unsigned need = 0;
            if (p == 0 && tree) { std::set<int> leaves; for (unsigned s = 0; s < ns; s++) leaves.insert(leaf(s)); need = leaves.size(); }
            else for (unsigned s = 0; s < ns; s++) need += leaf(s) == (int)p;
            if (x.got[key].size() < need) return;
            if (x.sent.count(key) && r.pick(2)) return;
            x.sent.insert(key);
            std::vector<ot::ctxt_v_t> all;
            for (int s : x.order[key]) all.push_back(x.got[key][s]);
            ot::ctxt_v_t agg = x.o->aggregate(all);
            r.count("op.aggregate");
            if (all.size() == 1) r.probe("single_sender");
            Msg a;
            a.sess = m.sess;
            a.att = m.att;
            pack(agg, a);
            if (p != 0 && tree) { a.type = 2; a.round = 1000 + p; w.send(x.node, px[0].node, a); }
            else { a.type = 3; w.send(x.node, rx[rd[m.sess].rx].node, a); }
        };
    }
    auto mkrx = [&](int i) { rx[i].o = std::make_shared<ot::DOTrecv>(crs.make(common.get())); };
    std::function<void(int)> broadcast = [&](int i) {
        Rx& x = rx[i];
        for (unsigned s = 0; s < ns; s++) w.send(x.node, snode[s], x.pk);
        int cur = x.cur, att = x.att;
        w.timer(x.node, retry, [&, i, cur, att] {
            if (rx[i].cur != cur || rx[i].att != att || cur < 0) return;
            r.count("op.retry");
            select(i);
        });
    };
    select = [&](int i) {
        Rx& x = rx[i];
        x.att = ++rd[x.cur].att;
        dme::pkey_t pk = x.o->selectMsg(dme::branch_t(rd[x.cur].branch));
        x.pk = Msg();
        x.pk.type = 1;
        x.pk.sess = x.cur;
        x.pk.att = x.att;
        x.pk.pts = {put(wire, pk.g), put(wire, pk.h)};
        broadcast(i);
    };
    begin = [&](int i) {
        Rx& x = rx[i];
        x.cur = -1;
        if (x.todo.empty()) return;
        x.cur = x.todo.back();
        x.todo.pop_back();
        select(i);
    };
    for (unsigned i = 0; i < nrx; i++)
    {
        rx[i].node = w.node(fmt("receiver%u", i));
        rx[i].cur = -1;
        mkrx(i);
        w.nodes[rx[i].node].on_crash = [&, i] { if (!wire) graveyard.push_back(rx[i].o); rx[i].o.reset(); };
        w.nodes[rx[i].node].on_start = [&, i] { mkrx(i); if (rx[i].cur >= 0) select(i); };
        w.nodes[rx[i].node].on_msg = [&, i](int, const Msg& m) {
            Rx& x = rx[i];
            if (m.sess != x.cur || m.att != x.att) { r.probe("stale_aggregate_dropped"); return; }
            Round& q = rd[m.sess];
            ot::ctxt_v_t v = unpack(m, x.o->getCurve());
            POINT got = x.o->decryptMsg(v);
            Pt want;
            for (unsigned s = 0; s < ns; s++) want = E().add(want, q.m[q.branch][s]);
            if (want.inf) r.probe("sum_is_identity");
            r.check(ref::of(got) == want, "wrong-sum", fmt("round %d branch %d senders %u: got %s want %s", m.sess, q.branch, ns, ref::of(got).str().c_str(), want.str().c_str()));
            if (!q.done) { q.done = true; finished++; }
            begin(i);
        };
    }
    for (unsigned k = 0; k < rounds; k++)
    {
        Round q;
        q.rx = r.pick(nrx);
        q.branch = r.pick(2);
        q.att = 0;
        q.done = false;
        std::vector<Pt> earlier;
        for (int b = 0; b < 2; b++)
            for (unsigned s = 0; s < ns; s++)
            {
                Pt p = point_message(r, earlier);
                q.m[b].push_back(p);
                earlier.push_back(p);
            }
        if (ns > 1 && r.pick(6) == 5)        // make the selected messages cancel
        {
            Pt sum;
            for (unsigned s = 0; s + 1 < ns; s++) sum = E().add(sum, q.m[q.branch][s]);
            q.m[q.branch][ns - 1] = E().neg(sum);
        }
        rd.push_back(q);
        rx[q.rx].todo.push_back(k);
    }
    w.faults(false, true, 500000);
    for (unsigned i = 0; i < nrx; i++) begin(i);
    w.sim.run([&] { return finished == rounds; }, w.cfg.faultend + 60 * retry);
    r.check(finished == rounds, "no-progress", fmt("%u of %u rounds completed", finished, rounds));
    r.count("sessions", finished);
}
SCENARIO(C04, c04, 60);
} // namespace
