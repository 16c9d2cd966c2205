// C05 (x <= theta), C06 (x > theta), C07 (aborted and tampered sessions)
#include "net.hpp"
#include "opprf.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

unsigned pick_theta(Run& r)
{
    switch (r.pick(8))
    {
    case 0: return r.pick(3);
    case 1: return 65535 - r.pick(3);
    case 2: return (1u << r.pick(16)) & 65535;
    case 3: return ((1u << r.pick(17)) - 1) & 65535;
    case 4: return r.pick(2) ? 0xAAAA : 0x5555;
    case 5: return 65535 & ~(1u << r.pick(16));
    default: return r.pick(65536);
    }
}
unsigned pick_x(Run& r, unsigned theta, bool above)
{
    // close to the threshold: agree on a prefix, then differ
    for (int i = 0; i < 40; i++)
    {
        unsigned x;
        switch (r.pick(8))
        {
        case 0: x = theta; break;
        case 1: x = theta + 1; break;
        case 2: x = theta - 1; break;
        case 3: { unsigned b = r.pick(16); x = theta ^ (1u << b); break; }
        case 4: { unsigned b = r.pick(17); x = (theta & ~((1u << b) - 1)) | (r.pick(65536) & ((1u << b) - 1)); break; }
        case 5: { unsigned b = r.pick(16); x = (theta ^ (1u << b)) & ~((1u << b) - 1); if (r.pick(2)) x |= (1u << b) - 1; break; }
        case 6: x = above ? 65535 - r.pick(2) : r.pick(2); break;
        default: x = r.pick(65536);
        }
        x &= 65535;
        if ((x > theta) == above) return x;
    }
    if (above) return theta == 65535 ? theta : theta + 1 + r.pick(65535 - theta);
    return r.pick(theta + 1);
}

bool small_multiple(const Pt& d, const Pt& A)      // is d a 16-bit multiple of A?
{
    std::map<Pt, unsigned> baby;
    Pt p;
    for (unsigned i = 0; i < 256; i++) { baby.insert(std::make_pair(p, i)); p = E().add(p, A); }
    Pt step = E().neg(p), q = d;
    for (unsigned i = 0; i < 256; i++)
    {
        if (baby.count(q)) return true;
        q = E().add(q, step);
    }
    return false;
}

enum { BEGIN = 1, BEGUN, REQ, RESP, MASKREQ, MASKRESP, DONE };

struct OWorld
{
    struct Sess
    {
        unsigned x, theta;
        int client, server;
        Pt K;
        bool begun, done, failed, refused;
        std::string why;
        Sess() : begun(false), done(false), failed(false), refused(false) {}
    };
    struct Srv { int node; std::shared_ptr<opprf::OPPRFserver> o; unsigned theta; mpz_class a; Pt A; int cur; opprf::G_t ga; u64 active; };
    struct Cli { int node; std::shared_ptr<opprf::OPPRFclient> o; std::vector<int> todo; int cur, round, att; bool begun, busy; Msg last; };

    Run& r;
    World w;
    bool wire;
    std::shared_ptr<dme::DME_DDH> dealer;
    std::shared_ptr<CURVE> common;
    WP crsw[4];
    std::vector<Srv> sv;
    std::vector<Cli> cl;
    std::vector<Sess> ss;
    std::vector<std::shared_ptr<void>> graveyard;
    unsigned finished;
    u64 retry;
    // hook: may replace what the client is about to process
    std::function<void(int sess, int round, opprf::ot_ctxts_t&)> on_resp;
    std::function<void(int sess, opprf::symctxt_t&)> on_mask;
    std::function<bool(int client, const std::string&)> on_failure;     // returns true when the failure was expected
    std::function<void(int sess, const Pt&)> on_result;
    std::function<void(int sess, int round, const opprf::ot_ctxts_t&)> saw_resp;
    std::function<bool(int sess, int round)> abandon;
    std::function<void(int sess, int round)> before_answer;             // round 0: the masks

    explicit OWorld(Run& run) : r(run), w(run), finished(0), retry(460000) {}

    dme::crs_ddh_t crs() { return dme::crs_ddh_t(get(crsw[0], common.get()), get(crsw[1], common.get()), get(crsw[2], common.get()), get(crsw[3], common.get())); }
    void mksrv(int i)
    {
        Srv& s = sv[i];
        if (s.o && !wire) graveyard.push_back(s.o);
        s.o = std::make_shared<opprf::OPPRFserver>(s.theta, crs());
        s.cur = -1;
        s.active = 0;
        s.ga = POINT(s.A.x, s.A.y, common.get());
        s.o->setSecret(s.ga);
    }
    void mkcli(int i)
    {
        Cli& c = cl[i];
        if (c.o && !wire) graveyard.push_back(c.o);
        c.o = std::make_shared<opprf::OPPRFclient>(crs());
    }
    void setup(unsigned nserv, unsigned ncli, const std::vector<unsigned>& thetas)
    {
        wire = r.pick(2);
        common = std::make_shared<CURVE>();
        switch (r.pick(3))
        {
        case 0: dealer = std::make_shared<dme::DME_DDH>(dme::mode_t::messy); break;
        case 1: dealer = std::make_shared<dme::DME_DDH>(dme::mode_t::dec); break;
        default: dealer = std::make_shared<dme::DME_DDH>();
        }
        const dme::crs_ddh_t& c = dealer->crs;
        crsw[0] = put(wire, c.g0);
        crsw[1] = put(wire, c.g1);
        crsw[2] = put(wire, c.h0);
        crsw[3] = put(wire, c.h1);
        sv.resize(nserv);
        cl.resize(ncli);
        for (unsigned i = 0; i < nserv; i++)
        {
            Srv& s = sv[i];
            s.theta = thetas[i];
            s.a = biased_scalar(r, E().n);
            s.A = E().mul(E().g, s.a);
            s.node = w.node(fmt("server%u", i));
            mksrv(i);
            w.nodes[s.node].on_msg = [this, i](int from, const Msg& m) { server_msg(i, from, m); };
            w.nodes[s.node].on_crash = [this, i] { if (!wire) graveyard.push_back(sv[i].o); sv[i].o.reset(); sv[i].cur = -1; };
            w.nodes[s.node].on_start = [this, i] { mksrv(i); };
        }
        for (unsigned i = 0; i < ncli; i++)
        {
            Cli& c2 = cl[i];
            c2.node = w.node(fmt("client%u", i));
            c2.cur = -1;
            c2.att = 0;
            c2.busy = false;
            mkcli(i);
            w.nodes[c2.node].on_msg = [this, i](int, const Msg& m) { client_msg(i, m); };
            w.nodes[c2.node].on_crash = [this, i] { if (!wire) graveyard.push_back(cl[i].o); cl[i].o.reset(); };
            w.nodes[c2.node].on_start = [this, i] { mkcli(i); if (cl[i].cur >= 0) restart_session(i, "client restarted"); };
        }
    }
    void add(int client, int server, unsigned x)
    {
        Sess s;
        s.client = client;
        s.server = server;
        s.x = x;
        s.theta = sv[server].theta;
        ss.push_back(s);
        cl[client].todo.push_back(ss.size() - 1);
    }
    // ---------------- server
    void server_msg(int i, int from, const Msg& m)
    {
        Srv& s = sv[i];
        if (s.cur == m.sess) s.active = w.sim.now;
        if (m.type == BEGIN)
        {
            bool idle = w.sim.now > s.active + 4 * retry;      // its client is gone
            if (s.cur >= 0 && s.cur != m.sess && ss[s.cur].client != ss[m.sess].client && !idle) { r.probe("server_busy"); return; }
            if (s.cur >= 0 && s.cur > m.sess && ss[s.cur].client == ss[m.sess].client) { r.probe("stale_begin"); return; }
            if (s.cur != m.sess)
            {
                if (ss[m.sess].begun) { Msg a; a.type = BEGUN; a.sess = m.sess; a.att = -1; w.send(s.node, from, a); return; }   // lost by a server restart
                if (r.pick(4) != 3) s.o->clean(); else r.probe("prepared_without_reset");
                if (r.pick(3) == 2) { s.ga = POINT(s.A.x, s.A.y, common.get()); s.o->setSecret(s.ga); }
                s.o->prepareKeysAndInputs();
                s.cur = m.sess;
                s.active = w.sim.now;
                ss[m.sess].begun = true;
                ss[m.sess].K = ref::of(s.o->getKOPPRF());
                r.log("session %d K=%s", m.sess, ss[m.sess].K.brief().c_str());
                r.count("op.prepare");
            }
            Msg a;
            a.type = BEGUN;
            a.sess = m.sess;
            w.send(s.node, from, a);
            return;
        }
        if (s.cur != m.sess)
        {
            r.probe("request_for_lost_session");
            Msg a;
            a.type = BEGUN;
            a.sess = m.sess;
            a.att = -1;                          // tell the client that the session is gone
            w.send(s.node, from, a);
            return;
        }
        if (m.type == REQ)
        {
            CURVE* c = common.get();
            dme::pkey_t pk(get(m.pts[0], c), get(m.pts[1], c));
            if (before_answer) before_answer(m.sess, m.round);
            opprf::ot_ctxts_t o = s.o->runOTRound(m.round, pk);
            r.count("op.ot_round");
            Msg a;
            a.type = RESP;
            a.sess = m.sess;
            a.att = m.att;
            a.round = m.round;
            a.body = pack(o);
            w.send(s.node, from, a);
        }
        if (m.type == MASKREQ)
        {
            if (before_answer) before_answer(m.sess, 0);
            opprf::symctxt_t o = s.o->sendEncryptedMasks();
            Msg a;
            a.type = MASKRESP;
            a.sess = m.sess;
            a.nums.assign(o.begin(), o.end());
            w.send(s.node, from, a);
        }
        if (m.type == DONE) { s.cur = -1; s.o->clean(); }
    }
    typedef std::vector<std::vector<WP>> Packed;
    Packed pack(const opprf::ot_ctxts_t& o)
    {
        Packed p;
        for (auto& v : o.ctxt) { p.push_back({}); for (auto& c : v) { p.back().push_back(put(wire, c.u)); p.back().push_back(put(wire, c.mv)); } }
        p.push_back({});
        for (auto& c : o.cprf) { p.back().push_back(put(wire, c.u)); p.back().push_back(put(wire, c.mv)); }
        return p;
    }
    opprf::ot_ctxts_t unpack(const Packed& p, CURVE* c)
    {
        opprf::ot_ctxts_t o;
        for (int k = 0; k < 4; k++)
        {
            ot::ctxt_v_t v;
            for (size_t j = 0; j + 1 < p[k].size(); j += 2) v.push_back(dme::ctxt_t(get(p[k][j], c), get(p[k][j + 1], c)));
            if (k < 3) o.ctxt[k] = v; else o.cprf = v;
        }
        return o;
    }
    // ---------------- client
    void next(int i)
    {
        Cli& c = cl[i];
        c.cur = -1;
        c.busy = false;
        if (c.todo.empty()) return;
        c.cur = c.todo.front();
        c.todo.erase(c.todo.begin());
        c.round = 17;
        c.busy = true;
        c.o->clean();
        c.o->setMessage(ss[c.cur].x);
        r.sched("client%d session %d theta %u x %u server%d", i, c.cur, ss[c.cur].theta, ss[c.cur].x, ss[c.cur].server);
        Msg m;
        m.type = BEGIN;
        m.sess = c.cur;
        ask(i, m);
    }
    // the session is lost: run the same request again as a new session
    void restart_session(int i, const std::string& why)
    {
        Cli& c = cl[i];
        r.sched("client%d session %d abandoned: %s", i, c.cur, why.c_str());
        r.probe("session_abandoned");
        ss[c.cur].failed = true;
        finished++;
        Sess s = ss[c.cur];
        int old = c.cur;
        (void)old;
        Sess n;
        n.x = s.x;
        n.theta = s.theta;
        n.client = i;
        n.server = s.server;
        ss.push_back(n);
        c.todo.insert(c.todo.begin(), ss.size() - 1);
        next(i);
    }
    void ask(int i, Msg m)
    {
        Cli& c = cl[i];
        m.att = ++c.att;
        c.last = m;
        resend(i);
    }
    void resend(int i)
    {
        Cli& c = cl[i];
        w.send(c.node, sv[ss[c.cur].server].node, c.last);
        int sess = c.cur, att = c.att;
        w.timer(c.node, retry, [this, i, sess, att] {
            Cli& c = cl[i];
            if (c.cur != sess || c.att != att) return;
            r.count("op.retry");
            if (c.last.type == REQ && r.pick(3) == 2) { r.sched("reselect round %d", c.round); start_round(i); }
            else resend(i);
        });
    }
    void start_round(int i)
    {
        Cli& c = cl[i];
        dme::pkey_t pk = c.o->runOTRound_start(c.round);
        Msg m;
        m.type = REQ;
        m.sess = c.cur;
        m.round = c.round;
        m.pts = {put(wire, pk.g), put(wire, pk.h)};
        ask(i, m);
    }
    void client_msg(int i, const Msg& m)
    {
        Cli& c = cl[i];
        if (c.cur < 0 || m.sess != c.cur) { r.probe("answer_for_other_session"); return; }
        if (m.type == BEGUN && m.att == -1) { restart_session(i, "server lost the session"); return; }
        if (m.type == BEGUN && c.round == 17) { c.round = 16; start_round(i); return; }
        if (m.type == RESP && c.last.type == REQ && m.round == c.round && m.att == c.att)
        {
            opprf::ot_ctxts_t o = unpack(std::any_cast<const Packed&>(m.body), common.get());
            if (saw_resp) saw_resp(c.cur, c.round, o);
            if (on_resp) on_resp(c.cur, c.round, o);
            std::string err;
            if (attempt(i, [&] { c.o->runOTRound_end(c.round, o); }, fmt("round %d", c.round))) return;
            if (abandon && abandon(c.cur, c.round)) { ss[c.cur].refused = true; finished++; w_done(i); return; }
            c.round--;
            if (c.round >= 1) start_round(i);
            else { Msg a; a.type = MASKREQ; a.sess = c.cur; ask(i, a); }
            return;
        }
        if (m.type == MASKRESP && c.last.type == MASKREQ)
        {
            opprf::symctxt_t o;
            for (int k = 0; k < 3; k++) o[k] = m.nums[k];
            if (on_mask) on_mask(c.cur, o);
            int cur = c.cur;
            if (attempt(i, [&] { c.o->unmaskResult(o); }, "unmask")) return;
            Pt got = ref::of(c.o->getResult());
            r.log("session %d result %s", c.cur, got.brief().c_str());
            ss[c.cur].done = true;
            finished++;
            r.count("sessions");
            if (on_result) on_result(cur, got);
            w_done(i);
            return;
        }
        r.probe("stale_answer_dropped");
    }
    void w_done(int i)
    {
        Cli& c = cl[i];
        Msg d;
        d.type = DONE;
        d.sess = c.cur;
        w.send(c.node, sv[ss[c.cur].server].node, d);
        next(i);
    }
    bool attempt(int i, std::function<void()> f, const std::string& what)
    {
        try { f(); return false; }
        catch (const Violation&) { throw; }
        catch (const std::exception& e)
        {
            Cli& c = cl[i];
            r.sched("client%d refused %s", i, what.c_str());
            if (!on_failure || !on_failure(i, what))
                throw Violation{"session-failed", fmt("session %d theta %u x %u: client raised an error at %s (%s) although every message arrived intact", c.cur, ss[c.cur].theta, ss[c.cur].x, what.c_str(), e.what())};
            ss[c.cur].refused = true;
            finished++;
            w_done(i);
            return true;
        }
    }
    void run(const char* cls)
    {
        for (unsigned i = 0; i < cl.size(); i++) next(i);
        w.sim.run([&] { for (auto& c : cl) if (c.busy) return false; return true; }, w.cfg.faultend + (120 + 40 * ss.size()) * retry);
        for (auto& c : cl) r.check(!c.busy, cls, "a session made no progress after faults stopped");
        r.count("rng.draws", seam::draws());
        if (seam::shaped()) r.count("fault.rng_short_draw", seam::shaped());
    }
};

Pt expected(const OWorld::Sess& s, const mpz_class& a) { return E().add(s.K, E().mul(E().g, a * s.x)); }

// objects that have been in service for long: many sessions were prepared and left after a few rounds, many selections made
void wear(Run& r, OWorld& o)
{
    unsigned what = r.pick(16);
    opprf::OPPRFserver& s = *o.sv[0].o;
    opprf::OPPRFclient& c = *o.cl[0].o;
    if (what >= 14)
    {
        unsigned n = r.pick(2) ? 16 + r.pick(20) : 3 + r.pick(9), reset = r.pick(3);
        for (unsigned k = 0; k < n; k++)
        {
            r.sh->steps++;
            s.prepareKeysAndInputs();
            c.clean();
            c.setMessage(r.pick(65536));
            for (unsigned m = r.pick(8) == 7 ? 2 : r.pick(3) == 2, round = 16; m; m--, round--)
            {
                dme::pkey_t pk = c.runOTRound_start(round);
                c.runOTRound_end(round, s.runOTRound(round, pk));
            }
            if (reset != 2 || r.pick(2)) s.clean();
        }
        s.clean();
        c.clean();
        r.probe("worn_server");
    }
    if (what == 13)
    {
        unsigned n = 20 + r.pick(300);
        for (unsigned k = 0; k < n; k++)
        {
            r.sh->steps++;
            if (k % 16 == 0) { c.clean(); c.setMessage(r.pick(65536)); }
            c.runOTRound_start(1 + r.pick(16));
        }
        c.clean();
        r.probe("worn_client");
    }
}

void plan(Run& r, OWorld& o, bool above_focus)
{
    unsigned ns = 1 + (r.pick(4) == 3), nc = 1 + (r.pick(4) == 3);
    std::vector<unsigned> th;
    for (unsigned i = 0; i < ns; i++) { th.push_back(pick_theta(r)); if (above_focus && th.back() == 65535) th.back() = 65534 - r.pick(3); }
    o.setup(ns, nc, th);
    unsigned n = std::max(nc, (unsigned)(1 + r.pick(2)));
    if (above_focus && r.pick(30) == 29) { n = 3 + r.pick(4); r.probe("many_sessions"); }
    wear(r, o);
    for (unsigned k = 0; k < n; k++)
    {
        int c = k < nc ? k : r.pick(nc), s = r.pick(ns);
        bool above = above_focus ? r.pick(5) != 4 : r.pick(5) == 4;
        if (th[s] == 65535) above = false;
        o.add(c, s, pick_x(r, th[s], above));
    }
    o.w.faults(false, true, 250000);
    if (o.w.cfg.crash) o.w.cfg.crash = 4;               // most sessions should get somewhere between crashes
    o.w.cfg.drop /= 2;
    o.w.cfg.part /= 3;
}

void c05(Run& r)
{
    seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 20, 100, 400}));
    OWorld o(r);
    o.on_failure = [&](int c, const std::string&) { OWorld::Sess& s = o.ss[o.cl[c].cur]; return s.x > s.theta; };
    o.on_result = [&](int k, const Pt& got) {
        OWorld::Sess& s = o.ss[k];
        if (s.x > s.theta) { r.probe("above_threshold"); return; }
        if (s.x == s.theta) r.probe("x_equals_theta");
        Pt want = expected(s, o.sv[s.server].a);
        r.check(got == want, "wrong-value", fmt("theta %u x %u: got %s want %s", s.theta, s.x, got.brief().c_str(), want.brief().c_str()));
        r.probe("within_threshold");
    };
    plan(r, o, false);
    o.run("no-progress");
}
SCENARIO(C05, c05, 200);

void c06(Run& r)
{
    seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 20, 100, 400}));
    OWorld o(r);
    std::map<Pt, int> dev;
    o.on_failure = [&](int, const std::string&) { r.probe("failed_session"); return true; };    // C05 and C07 judge failures
    o.on_result = [&](int k, const Pt& got) {
        OWorld::Sess& s = o.ss[k];
        if (s.x <= s.theta) { r.probe("within_threshold"); return; }
        if (s.x == s.theta + 1) r.probe("x_just_above_theta");
        Pt d = E().sub(got, s.K);
        r.check(!small_multiple(d, o.sv[s.server].A), "programmed-value", fmt("theta %u x %u: result is the session value plus a 16-bit multiple of the secret", s.theta, s.x));
        Pt e = E().sub(d, E().mul(o.sv[s.server].A, s.x));
        auto it = dev.find(e);
        if (it == dev.end()) it = dev.find(E().neg(e));
        r.check(it == dev.end(), "deviation-reused", fmt("sessions %d and %d miss the programmed value by the same amount", it == dev.end() ? -1 : it->second, k));
        dev[e] = k;
        r.probe("above_threshold");
    };
    plan(r, o, true);
    o.run("no-progress");
}
SCENARIO(C06, c06, 200);

// ------------------------------------------------------------------ C07
void hurt(Run& r, POINT& p, CURVE* c, unsigned how)
{
    Pt q = ref::of(p);
    switch (how)
    {
    case 0: p = POINT(); return;
    case 1: q = E().add(q, E().mul(E().g, 1 + r.pick(1000))); break;
    case 2: q = E().neg(q); break;
    case 3: { mpz_class ex = q.inf ? mpz_class(0) : mpz_class(q.x * 2); mpz_combit(ex.get_mpz_t(), 1 + r.pick(256)); POINT z = c->getDefaultGen(); z.curve = c; z.setEncodedX(ex); p = z; return; }
    default: q = E().g;
    }
    p = q.inf ? POINT() : POINT(q.x, q.y, c);
}

// requests that arrive before a session is prepared, after it was reset, or for a round that does not exist
void late_requests(Run& r)
{
    r.probe("late_requests");
    OWorld o(r);
    unsigned theta = pick_theta(r);
    o.setup(1, 1, {theta});
    opprf::OPPRFserver* s = o.sv[0].o.get();
    opprf::OPPRFclient* c = o.cl[0].o.get();
    bool ready = false;
    auto request = [&](int round) { c->setMessage(r.pick(65536)); return c->runOTRound_start(round >= 1 && round <= 16 ? round : 16); };
    static const int odd[] = {0, 17, -1, 18, 32, 255, 256, 32767, -32768, -16, 1000};
    unsigned steps = 6 + r.pick(10);
    for (unsigned k = 0; k < steps; k++)
    {
        r.sh->steps++;
        switch (r.pick(6))
        {
        case 0: s->clean(); ready = false; r.sched("reset"); break;
        case 1: s->prepareKeysAndInputs(); ready = true; r.sched("prepare"); break;
        case 2: { o.mksrv(0); s = o.sv[0].o.get(); ready = false; r.sched("restart"); r.fault("server_restart"); break; }
        case 3:
        {
            r.sched("mask request %d", (int)ready);
            bool threw = false;
            try { s->sendEncryptedMasks(); } catch (const std::exception&) { threw = true; }
            if (!ready) r.fault("late_mask_request");
            r.check(threw == !ready, ready ? "session-failed" : "late-request-served", ready ? "a mask request of a prepared session was refused" : "masks were sent although no session is prepared");
            break;
        }
        default:
        {
            int round = r.pick(3) == 2 ? odd[r.pick(sizeof odd / sizeof *odd)] : 1 + r.pick(16);
            bool valid = ready && round >= 1 && round <= 16;
            r.sched("request round %d %d", round, (int)ready);
            dme::pkey_t pk = request(round);
            bool threw = false;
            try { s->runOTRound(round, pk); } catch (const std::exception&) { threw = true; }
            if (!valid) r.fault(ready ? "bad_round_request" : "late_round_request");
            r.check(threw == !valid, valid ? "session-failed" : "late-request-served", valid ? fmt("round %d of a prepared session was refused", round) : fmt("round %d was answered although %s", round, ready ? "it does not exist" : "no session is prepared"));
        }
        }
    }
    // afterwards a session runs as ever
    s->clean();
    c->clean();
    unsigned x = pick_x(r, theta, false);
    c->setMessage(x);
    s->prepareKeysAndInputs();
    Pt K = ref::of(s->getKOPPRF());
    for (int round = 16; round >= 1; round--) { dme::pkey_t pk = c->runOTRound_start(round); c->runOTRound_end(round, s->runOTRound(round, pk)); }
    c->unmaskResult(s->sendEncryptedMasks());
    Pt got = ref::of(c->getResult()), want = E().add(K, E().mul(E().g, o.sv[0].a * x));
    r.check(got == want, "wrong-value", fmt("after late requests: theta %u x %u got %s want %s", theta, x, got.brief().c_str(), want.brief().c_str()));
}

void c07(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    if (r.pick(8) == 7) { late_requests(r); return; }
    OWorld o(r);
    unsigned theta = pick_theta(r);
    o.setup(1, 1, {theta});
    auto anyx = [&] { return pick_x(r, theta, theta == 65535 ? false : (bool)r.pick(2)); };
    enum { WHOLE, SINGLE, REPLAY_ROUND, REPLAY_SESSION, STALE_KEY, MASKS, ABANDON, OOM_CLIENT, OOM_SERVER, SERVER_RESTART, CLIENT_RESTART, SERVER_RESET, NKIND };
    unsigned kind = r.pick(NKIND);
    static const char* names[] = {"damage_whole_key_part", "damage_one_ciphertext", "replay_other_round", "replay_other_session", "replay_other_selection", "damage_masks",
                                  "abandon", "client_out_of_memory", "server_out_of_memory", "server_restart", "client_restart", "server_reset_under_client"};
    unsigned victim = kind == REPLAY_SESSION ? 1 : 0;       // index of the attacked session
    unsigned hit = kind == REPLAY_ROUND ? 1 + r.pick(15) : 1 + r.pick(16);
    if (kind == REPLAY_SESSION || r.pick(3) == 0) hit = 9 + r.pick(8);     // early rounds are cheap to reach
    if (kind == REPLAY_ROUND && hit > 15) hit = 15;
    for (unsigned k = 0; k <= victim + 1; k++) o.add(0, 0, anyx());
    unsigned rec_round = kind == REPLAY_ROUND ? hit + 1 + r.pick(16 - hit) : r.pick(4) == 3 ? 1 + r.pick(16) : hit;
    if (kind == REPLAY_SESSION && rec_round < 9) rec_round = 16;
    r.sched("attack %s session %u round %u from %u", names[kind], victim, hit, rec_round);
    OWorld::Packed recorded;
    bool have = false, struck = false, expect_refusal = false, may_fail = false;
    int struck_round = 0;
    o.saw_resp = [&](int sess, int round, const opprf::ot_ctxts_t& c) {
        if ((kind == REPLAY_ROUND && sess == 0 && round == (int)rec_round) || (kind == REPLAY_SESSION && sess == 0 && round == (int)rec_round))
        {
            recorded = o.pack(c);
            have = true;
        }
    };
    // sessions before the replay victim only need to reach the recorded round
    o.abandon = [&](int sess, int round) {
        if (kind == ABANDON && sess == 0 && round == (int)hit) { r.fault("session_abandoned"); struck = true; return true; }
        return kind == REPLAY_SESSION && sess == 0 && round == (int)std::min(rec_round, hit);
    };
    CURVE* cv = o.common.get();
    o.on_resp = [&](int sess, int round, opprf::ot_ctxts_t& c) {
        if (sess != (int)victim || round != (int)hit) return;
        if (kind == WHOLE)
        {
            unsigned how = r.pick(5);
            for (auto& v : c.ctxt)
                for (auto& e : v)
                {
                    if (r.pick(3) != 2) hurt(r, e.mv, cv, how); else hurt(r, e.u, cv, how);
                }
            struck = expect_refusal = true;
        }
        else if (kind == SINGLE)
        {
            unsigned k = round == 16 ? 0 : r.pick(3), b = r.pick(2);
            if (r.pick(2)) hurt(r, c.ctxt[k][b].mv, cv, r.pick(5)); else hurt(r, c.ctxt[k][b].u, cv, r.pick(5));
            struck = may_fail = true;
        }
        else if ((kind == REPLAY_ROUND || kind == REPLAY_SESSION) && have)
        {
            opprf::ot_ctxts_t old = o.unpack(recorded, cv);
            if (r.pick(2)) c = old;
            else c.ctxt = old.ctxt;
            struck = expect_refusal = true;
        }
        else if (kind == STALE_KEY)
        {
            // the answer belongs to an earlier selection of the same round
            o.cl[0].o->runOTRound_start(round);
            struck = expect_refusal = true;
        }
        if (struck) { struck_round = round; r.fault(names[kind]); }
    };
    // the server starts another session while the client still runs its old one: the answers belong to another session
    if (kind == SERVER_RESET)
    {
        hit = r.pick(3) == 2 ? r.pick(16) : 9 + r.pick(7);
        unsigned before = r.pick(3);
        for (unsigned k = 0; k < before; k++) { o.sv[0].o->prepareKeysAndInputs(); o.sv[0].o->clean(); }
    }
    o.before_answer = [&](int sess, int round) {
        if (kind != SERVER_RESET || sess != (int)victim || round != (int)hit || struck) return;
        unsigned times = 1 + r.pick(2);
        for (unsigned k = 0; k < times; k++) { o.sv[0].o->clean(); o.sv[0].o->prepareKeysAndInputs(); }
        struck = expect_refusal = true;
        struck_round = round;
        r.fault(names[kind]);
    };
    o.on_mask = [&](int sess, opprf::symctxt_t& m) {
        if (kind != MASKS || sess != (int)victim) return;
        unsigned how = r.pick(4);
        for (auto& v : m)
        {
            if (how == 0) v = 0;
            else if (how == 1) v = r.pick(2);
            else if (how == 2) v >>= (unsigned)(8 + r.pick(200));
            else for (unsigned k = 0, n = 1 + r.pick(5); k < n; k++) mpz_combit(v.get_mpz_t(), k * 37 + r.pick(37));
        }
        struck = expect_refusal = true;
        r.fault(names[kind]);
    };
    bool refused = false;
    o.on_failure = [&](int c, const std::string& what) {
        if (o.cl[c].cur != (int)victim || !(expect_refusal || may_fail)) return false;
        if (expect_refusal && struck_round)
        {
            bool soon = what == fmt("round %d", struck_round) || what == fmt("round %d", struck_round - 1) || (struck_round == 1 && what == "unmask");
            r.check(soon, "refused-late", fmt("%s at round %d was only refused at %s", names[kind], struck_round, what.c_str()));
        }
        refused = true;
        r.probe("refused");
        return true;
    };
    o.on_result = [&](int k, const Pt& got) {
        OWorld::Sess& s = o.ss[k];
        if (k == (int)victim && expect_refusal)
            throw Violation{"tampered-session-completed", fmt("%s at round %u: the client completed the session", names[kind], hit)};
        Pt want = expected(s, o.sv[0].a);
        if (s.x <= s.theta) r.check(got == want, "wrong-value", fmt("session %d after %s: theta %u x %u got %s want %s", k, names[kind], s.theta, s.x, got.brief().c_str(), want.brief().c_str()));
        else r.check(!small_multiple(E().sub(got, s.K), o.sv[0].A), "programmed-value", fmt("session %d after %s: theta %u x %u opened", k, names[kind], s.theta, s.x));
        if (k > (int)victim) r.probe("clean_session_after");
    };
    if (kind == OOM_CLIENT || kind == OOM_SERVER || kind == SERVER_RESTART || kind == CLIENT_RESTART)
    {
        // interrupt the victim session at an arbitrary allocation or by a restart
        opprf::OPPRFserver* s = o.sv[0].o.get();
        opprf::OPPRFclient* c = o.cl[0].o.get();
        s->clean();
        c->clean();
        c->setMessage(o.ss[0].x);
        bool oom = false;
        long at = r.pick(4) == 3 ? r.pick(4000) : r.pick(60);
        try
        {
            if (kind == OOM_SERVER && r.pick(2)) { seam::new_fail_at(at); s->prepareKeysAndInputs(); seam::new_fail_at(-1); }
            else s->prepareKeysAndInputs();
            unsigned last = std::max(hit, 10u);
            for (unsigned round = 16; round >= last; round--)
            {
                bool now = round == last;
                if (kind == OOM_CLIENT && now) seam::new_fail_at(at % 8);
                dme::pkey_t pk = c->runOTRound_start(round);
                if (kind == OOM_CLIENT) seam::new_fail_at(-1);
                if (kind == OOM_SERVER && now) seam::new_fail_at(at % 40);
                opprf::ot_ctxts_t a = s->runOTRound(round, pk);
                if (kind == OOM_SERVER) seam::new_fail_at(-1);
                if (kind == OOM_CLIENT && now) seam::new_fail_at(at % 24);
                c->runOTRound_end(round, a);
                seam::new_fail_at(-1);
            }
        }
        catch (const std::bad_alloc&) { seam::new_fail_at(-1); oom = true; r.fault(names[kind]); }
        catch (const std::exception& e) { seam::new_fail_at(-1); r.check(seam::new_fired(), "session-failed", fmt("an intact round was refused (%s)", e.what())); oom = true; r.fault(names[kind]); }
        seam::new_fail_at(-1);
        if (kind == SERVER_RESTART) { r.fault("server_restart"); o.mksrv(0); }
        if (kind == CLIENT_RESTART) { r.fault("client_restart"); o.mkcli(0); }
        r.sched("interrupted oom %d", (int)oom);
        o.cl[0].todo.erase(o.cl[0].todo.begin());
        victim = 1000000;
    }
    o.run("no-progress");
    if (expect_refusal) r.check(refused, "tampered-session-completed", fmt("%s at round %u went unnoticed", names[kind], hit));
}
SCENARIO(C07, c07, 200);
} // namespace
