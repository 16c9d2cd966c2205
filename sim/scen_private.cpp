// C29: what receivers and OPPRF clients send tells nobody what they selected.
// The same history is executed twice from one state, in two children of the run: same draws, same schedule, same faults, other
// selections. What the senders, servers and the network see is compared after dividing out the branch's public base.
#include "net.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "opprf.hpp"
#include "utilities.hpp"
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }
POINT at(const Pt& p, CURVE* c) { return p.inf ? POINT() : POINT(p.x, p.y, c); }

struct Base                                            // a reference string whose logarithms the simulator knows
{
    mpz_class a[2], e[2];
    void draw(Run& r)
    {
        Rng g(r.seed());
        for (int i = 0; i < 2; i++) { a[i] = 1 + ref::mod(g.bits(300), E().n - 1); e[i] = 1 + ref::mod(g.bits(300), E().n - 1); }
        if (r.pick(2)) e[1] = e[0];                    // decryption mode
    }
    dme::crs_ddh_t crs(CURVE* c) const
    {
        Pt g0 = E().mul(E().g, a[0]), g1 = E().mul(E().g, a[1]);
        return dme::crs_ddh_t(at(g0, c), at(g1, c), at(E().mul(g0, e[0]), c), at(E().mul(g1, e[1]), c));
    }
    // a key as it looks once the public base of branch b is divided out
    std::string plain(const dme::pkey_t& k, int b) const
    {
        mpz_class i = ref::inv(a[b], E().n);
        return E().mul(ref::of(k.g), i).str() + " " + E().mul(ref::of(k.h), i * ref::inv(e[b], E().n)).str();
    }
};

enum { SELECT, AGAIN, ANSWER, LATE, COPY, RESTART, JUNK, AGGREGATE, SESSION, NOPS };
const char* opname[] = {"select", "select again", "answer", "late answer", "copy", "restart", "junk", "aggregate", "session"};
struct Op { unsigned what, who, arg, arg2; u64 seed; };
struct Plan
{
    Base base;
    unsigned nrx, theta;
    bool keep;                                         // one OPPRF client for all its sessions
    std::vector<Op> ops;
    std::vector<unsigned> sel[2];                      // the twins' selections: one bit or one 16-bit input per operation
};

struct View
{
    FILE* out;
    void key(const char* who, const std::string& k) { fprintf(out, "K %s %s\n", who, k.c_str()); }
    void note(const std::string& s) { fprintf(out, "N %s\n", s.c_str()); }
};

void session(const Plan& p, const Op& o, unsigned x, View& v, opprf::OPPRFserver& srv, opprf::OPPRFclient& cl)
{
    srv.prepareKeysAndInputs();
    cl.clean();
    cl.setMessage(x);
    Rng g(o.seed);
    unsigned stop = o.arg % 3 == 2 ? 1 + o.arg2 % 16 : 0;         // the session is abandoned before this round
    unsigned junk = o.arg % 3 == 1 ? 1 + o.arg2 % 15 : 0;         // or gets garbage in this one
    for (int round = 16; round >= 1; round--)
    {
        if ((unsigned)round == stop) { v.note("abandoned"); return; }
        try
        {
            dme::pkey_t pk;
            for (unsigned tries = g.below(5) == 0 ? 2 : 1; tries; tries--)   // the first request is lost
            {
                pk = cl.runOTRound_start(round);
                v.key("client", p.base.plain(pk, x >> (round - 1) & 1));
            }
            opprf::ot_ctxts_t c = srv.runOTRound(round, pk);
            if ((unsigned)round == junk)
                for (auto& w : c.ctxt) for (auto& e : w) e = dme::ctxt_t(e.mv, e.u);
            cl.runOTRound_end(round, c);
        }
        catch (const std::exception& e) { v.note(fmt("client stops in round %d", round)); return; }
    }
    try { cl.unmaskResult(srv.sendEncryptedMasks()); v.note("session complete"); }
    catch (const std::exception& e) { v.note("client stops at the masks"); }
}

void play(const Plan& p, int twin, View v)
{
    CURVE curve;
    dme::crs_ddh_t crs = p.base.crs(&curve);
    struct Rx { std::shared_ptr<ot::OTrecv> o; int b; dme::pkey_t pk; std::vector<ot::ctxt_v_t> old; bool open; };
    std::vector<Rx> rx(p.nrx);
    for (auto& x : rx) { x.o = std::make_shared<ot::OTrecv>(crs); x.b = 0; x.open = false; }
    ot::OTsndr tx(crs);
    ot::DOTprxy px(crs);
    std::shared_ptr<opprf::OPPRFserver> srv;
    std::shared_ptr<opprf::OPPRFclient> cl;
    POINT secret = at(E().mul(E().g, 135792468), &curve);
    auto message = [&](Rng& g) { return at(E().mul(E().g, 1 + g.bits(100)), &curve); };
    for (size_t i = 0; i < p.ops.size(); i++)
    {
        const Op& o = p.ops[i];
        Rx& x = rx[o.who % rx.size()];
        Rng g(o.seed);
        try
        {
            switch (o.what)
            {
            case SELECT: x.b = p.sel[twin][i] & 1;     // fall through
            case AGAIN:
                if (o.what == AGAIN && !x.open) break;
                x.pk = x.o->selectMsg(dme::branch_t(x.b));
                x.open = true;
                v.key(fmt("receiver%u", o.who % (unsigned)rx.size()).c_str(), p.base.plain(x.pk, x.b));
                break;
            case ANSWER:
                if (!x.open) break;
                x.old.push_back(tx.encMsgs(x.pk, message(g), message(g)));
                x.o->decryptMsg(x.old.back());
                v.note("answer taken");
                break;
            case LATE:
                if (x.old.empty() || !x.open) break;
                x.o->decryptMsg(x.old[o.arg % x.old.size()]);
                v.note("late answer taken");
                break;
            case COPY: { auto c = std::make_shared<ot::OTrecv>(*x.o); x.o = c; break; }
            case RESTART: x.o = std::make_shared<ot::OTrecv>(crs); x.open = false; x.old.clear(); break;
            case JUNK:
            {
                if (!x.open) break;
                ot::ctxt_v_t c;
                for (unsigned k = o.arg % 3 ? 2 : 0; k; k--) c.push_back(dme::ctxt_t(message(g), message(g)));
                x.o->decryptMsg(c);
                v.note("junk taken");
                break;
            }
            case AGGREGATE:
            {
                ot::DOTrecv d(crs);
                int b = p.sel[twin][i] & 1;
                dme::pkey_t pk = d.selectMsg(dme::branch_t(b));
                v.key("dot", p.base.plain(pk, b));
                std::vector<ot::ctxt_v_t> parts;
                for (unsigned k = 0; k <= o.arg % 3; k++) { ot::DOTsndr s(crs); parts.push_back(s.encMsgs(pk, message(g), message(g))); }
                d.decryptMsg(px.aggregate(parts));
                v.note("aggregate taken");
                break;
            }
            case SESSION:
                if (!srv) { srv = std::make_shared<opprf::OPPRFserver>(p.theta, crs); srv->setSecret(secret); }
                if (!cl || !p.keep) cl = std::make_shared<opprf::OPPRFclient>(crs);
                session(p, o, p.sel[twin][i], v, *srv, *cl);
                break;
            }
        }
        catch (const std::exception& e) { v.note(std::string(opname[o.what]) + " refused"); }
    }
    fflush(v.out);
}

std::vector<std::string> child(const Plan& p, int twin)
{
    int fd[2];
    if (pipe(fd)) throw Violation{"harness:exec", "pipe"};
    fflush(stdout);
    pid_t pid = fork();
    if (pid == 0)
    {
        close(fd[0]);
        View v;
        v.out = fdopen(fd[1], "w");
        int rc = 0;
        try { play(p, twin, v); } catch (...) { rc = 3; }
        fflush(v.out);
        _exit(rc);
    }
    close(fd[1]);
    std::string out;
    char buf[65536];
    ssize_t n;
    while ((n = read(fd[0], buf, sizeof buf)) > 0) out.append(buf, n);
    close(fd[0]);
    int st = 0;
    while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
    if (!WIFEXITED(st) || WEXITSTATUS(st)) throw Violation{"party-crashed", fmt("the process of the parties ended with status %d", st)};
    std::vector<std::string> v;
    size_t a = 0, e;
    while ((e = out.find('\n', a)) != std::string::npos) { v.push_back(out.substr(a, e - a)); a = e + 1; }
    return v;
}

Pt parse(const std::string& s)
{
    size_t c = s.find(',');
    return c == std::string::npos ? Pt() : Pt(mpz_class(s.substr(0, c), 16), mpz_class(s.substr(c + 1), 16));
}

// keys of one history must not show that two of them belong together
void unlinked(Run& r, const std::vector<std::string>& view)
{
    std::vector<Pt> ks;
    for (auto& l : view)
    {
        if (l[0] != 'K') continue;
        size_t s = l.find(' ', 2), m = l.find(' ', s + 1);
        std::string g = l.substr(s + 1, m - s - 1), h = l.substr(m + 1);
        r.check(g == h, "key-off-line", "the two components of a public key do not have the same exponent over the reference string: " + l);
        Pt q = parse(g);
        r.check(!q.inf, "key-identity", "a public key is the identity");
        ks.push_back(q);
    }
    std::map<Pt, size_t> at;
    Pt g = E().g;
    for (size_t i = 0; i < ks.size(); i++)
    {
        // equal, opposite, double, or a small step apart
        Pt step = ks[i];
        auto look = [&](const Pt& q, const char* how) {
            auto f = at.find(q);
            r.check(f == at.end(), "keys-linked", fmt("key %zu of a history is %s key %zu", i, how, f == at.end() ? 0 : f->second));
        };
        look(ks[i], "the same as");
        look(E().neg(ks[i]), "the opposite of");
        look(E().add(ks[i], ks[i]), "half of");
        for (int k = 1; k <= 3; k++) { step = E().add(step, g); look(step, "a small step below"); }
        step = ks[i];
        for (int k = 1; k <= 3; k++) { step = E().sub(step, g); look(step, "a small step above"); }
        for (size_t j = 0; j < i; j++) if (E().add(ks[j], ks[j]) == ks[i]) look(ks[j], "twice");
        at[ks[i]] = i;
    }
    r.count("keys", ks.size());
}

void twins(Run& r)
{
    Plan p;
    p.base.draw(r);
    p.nrx = 1 + r.pick(3);
    switch (r.pick(3)) { case 0: p.theta = r.pick(65536); break; case 1: p.theta = 1u << r.pick(16); break; default: p.theta = r.pick(2) ? 65535 : 0; }
    p.keep = r.pick(2);
    unsigned n = 2 + r.pick(14), sessions = 0;
    bool opprf = r.pick(3) == 2;
    for (unsigned i = 0; i < n; i++)
    {
        Op o;
        static const unsigned mix[] = {SELECT, SELECT, SELECT, ANSWER, ANSWER, AGAIN, LATE, COPY, RESTART, JUNK, AGGREGATE};
        o.what = mix[r.pick(sizeof mix / sizeof *mix)];
        if (opprf && sessions < 2 && r.pick(4) == 3) { o.what = SESSION; sessions++; }
        o.who = r.pick(p.nrx);
        o.arg = r.pick(64);
        o.arg2 = r.pick(64);
        o.seed = r.seed();
        p.ops.push_back(o);
        for (int t = 0; t < 2; t++)
        {
            unsigned x;
            switch (r.pick(4))
            {
            case 0: x = r.pick(65536); break;
            case 1: x = (p.theta + r.pick(5) - 2) & 65535; break;
            case 2: x = r.pick(2) ? 65535 : 0; break;
            default: x = r.pick(p.theta + 1);
            }
            p.sel[t].push_back(o.what == SESSION ? x : r.pick(2));
        }
        r.sched("%s %u %u: %u or %u", opname[o.what], o.who, o.arg, p.sel[0].back(), p.sel[1].back());
        r.sh->steps++;
        if (o.what == RESTART || o.what == COPY || o.what == LATE || o.what == JUNK) r.fault(opname[o.what]);
        if (o.what == SESSION) r.fault(o.arg % 3 == 2 ? "session_abandoned" : o.arg % 3 == 1 ? "session_garbage" : "session_requests_lost");
    }
    seam::rng_setup(r.seed(), r.pick(4) == 3 ? 60 : 0);
    std::vector<std::string> v[2];
    for (int t = 0; t < 2; t++)
    {
        v[t] = child(p, t);
        for (auto& l : v[t]) r.log("%d %s", t, l.c_str());
    }
    auto shape = [](const std::vector<std::string>& w) {
        std::string s;
        for (auto& l : w) s += (l[0] == 'K' ? l.substr(0, l.find(' ', 2)) : l) + "; ";
        return s;
    };
    std::string a = shape(v[0]), b = shape(v[1]);
    if (a != b)
    {
        size_t d = 0;
        while (d < v[0].size() && d < v[1].size() && shape({v[0][d]}) == shape({v[1][d]})) d++;
        r.check(false, "behaviour-depends-on-selection", fmt("two histories that differ in the selections only differ in what the others see, event %zu: '%s' or '%s'", d,
                d < v[0].size() ? v[0][d].substr(0, 60).c_str() : "nothing", d < v[1].size() ? v[1][d].substr(0, 60).c_str() : "nothing"));
    }
    for (size_t i = 0; i < v[0].size(); i++)
        r.check(v[0][i] == v[1][i], "key-depends-on-selection", fmt("event %zu: with the same draws, the exponent of a public key differs with the selections: %.60s or %.60s", i, v[0][i].c_str(), v[1][i].c_str()));
    for (int t = 0; t < 2; t++) unlinked(r, v[t]);
    r.count("twin_histories");
    r.count("events_compared", v[0].size());
}

// many keys of each branch: their coordinates look alike
void crowd(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    Base base;
    base.draw(r);
    CURVE curve;
    dme::crs_ddh_t crs = base.crs(&curve);
    ot::OTrecv rx(crs);
    const unsigned n = 120;
    unsigned ones[2][6];
    memset(ones, 0, sizeof ones);
    unsigned total[2] = {0, 0};
    bool alternate = r.pick(2);
    r.sched("crowd %d", alternate);
    Rng g(r.seed());
    while (total[0] < n || total[1] < n)
    {
        int b = alternate ? total[0] > total[1] : (int)g.below(2);
        if (total[b] >= n) b = !b;
        dme::pkey_t k = rx.selectMsg(dme::branch_t(b));
        total[b]++;
        r.sh->steps++;
        Pt q[2] = {ref::of(k.g), ref::of(k.h)};
        for (int i = 0; i < 2; i++)
        {
            r.check(!q[i].inf, "key-identity", "a public key is the identity");
            ones[b][3 * i] += mpz_odd_p(q[i].x.get_mpz_t()) != 0;
            ones[b][3 * i + 1] += mpz_odd_p(q[i].y.get_mpz_t()) != 0;
            ones[b][3 * i + 2] += mpz_tstbit(q[i].x.get_mpz_t(), 255);
        }
    }
    static const char* what[] = {"g.x odd", "g.y odd", "g.x large", "h.x odd", "h.y odd", "h.x large"};
    for (int i = 0; i < 6; i++)
        r.check(std::abs((int)ones[0][i] - (int)ones[1][i]) <= 50, "keys-of-branches-differ",      // 6.5 standard deviations
                fmt("of %u keys of each branch, %s: %u of branch 0 and %u of branch 1", n, what[i], ones[0][i], ones[1][i]));
    r.count("keys", 2 * n);
}

// the parts of a reference string show no relation that would tell its mode
void strings(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    std::map<Pt, std::string> seen;
    unsigned n = 4 + r.pick(8);
    for (unsigned k = 0; k < n; k++)
    {
        unsigned kind = r.pick(3);
        r.sched("string of kind %u", kind);
        std::shared_ptr<dme::DME_DDH> d = kind == 0 ? std::make_shared<dme::DME_DDH>(dme::mode_t::messy) : kind == 1 ? std::make_shared<dme::DME_DDH>(dme::mode_t::dec) : std::make_shared<dme::DME_DDH>();
        Pt q[4] = {ref::of(d->crs.g0), ref::of(d->crs.g1), ref::of(d->crs.h0), ref::of(d->crs.h1)};
        static const char* nm[] = {"g0", "g1", "h0", "h1"};
        for (int i = 0; i < 4; i++)
        {
            std::string me = fmt("%s of string %u", nm[i], k);
            r.check(!q[i].inf && E().on(q[i]), "reference-string-invalid", me + " is no proper point");
            Pt m, w = q[i];
            auto look = [&](const Pt& x, const std::string& how) {
                auto f = seen.find(x);
                r.check(f == seen.end(), "reference-string-structured", me + " " + how + " is related to " + (f == seen.end() ? "" : f->second));
            };
            for (int c = 1; c <= 5; c++) { m = E().add(m, q[i]); look(m, fmt("times %d", c)); look(E().neg(m), fmt("times -%d", c)); }
            m = Pt();
            for (int c = 1; c <= 5; c++)
            {
                m = E().add(m, q[i]);
                seen[m] = me + fmt(" times %d", c);
            }
            for (int c = 1; c <= 3; c++) { w = E().add(w, E().g); look(w, fmt("plus %d generators", c)); seen[w] = me + fmt(" plus %d generators", c); }
        }
        // what the trapdoor holder hands out looks like any receiver's key
        if (kind == 1 && r.pick(2))
        {
            auto t = d->TrapKeyGen();
            auto u = d->KeyGen(dme::b0);
            for (auto& k : {std::get<0>(t), u.pk}) for (auto& z : {k.g, k.h})
            {
                Pt x = ref::of(z);
                auto f = seen.find(x);
                r.check(!x.inf && f == seen.end(), "trapdoor-key-visible", "a key is related to " + (f == seen.end() ? "" : f->second));
                seen[x] = "a key";
            }
        }
        r.sh->steps++;
    }
    r.count("strings", n);
}

void c29(Run& r)
{
    Sim::clock() = 1 + r.pick(1000000);
    switch (r.pick(24))
    {
    case 23: crowd(r); break;
    case 22: case 21: strings(r); break;
    default: twins(r);
    }
    r.sh->simtime = Sim::clock();
}
SCENARIO(C29, c29, 120);
} // namespace
