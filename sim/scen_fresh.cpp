// C16: everything secret that the parties of a process draw, across resets, copies, destruction and process restarts
#include "net.hpp"
#include "proc.hpp"
#include "poly.hpp"
#include "ot.hpp"
#include "dmhe.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

struct Book                              // every observed secret, by kind
{
    Run* r;
    std::map<mpz_class, std::string> sc, sym;
    std::map<Pt, std::string> pt;
    std::vector<std::string> lines;      // for comparison between processes
    unsigned n;
    Book() : r(0), n(0) {}
    template <class M, class K> void add(M& m, const K& k, const std::string& what, const char* cls)
    {
        auto it = m.find(k);
        if (r) r->check(it == m.end(), cls, what + " repeats " + (it == m.end() ? "" : it->second));
        m[k] = what;
    }
    void scalar(const mpz_class& v, const std::string& what)
    {
        std::string w = what + fmt(" (#%u)", n++);
        lines.push_back("s" + hex(v));
        if (r) r->check(v != 0, "zero-draw", w + " is zero");
        add(sc, v, w, "scalar-reused");
        sc[ref::mod(-v, E().n)] = w + " negated";
        add(pt, E().mul(E().g, v), w + " times the generator", "point-reused");
        // independent draws share no halves
        mpz_class lo, hi = v >> 128;
        mpz_fdiv_r_2exp(lo.get_mpz_t(), v.get_mpz_t(), 128);
        add(sym, lo, w + " low half", "draws-related");
        add(sym, hi, w + " high half", "draws-related");
    }
    void point(const Pt& p, const std::string& what)
    {
        std::string w = what + fmt(" (#%u)", n++);
        lines.push_back("p" + p.str());
        if (r) r->check(!p.inf, "zero-draw", w + " is the identity");
        add(pt, p, w, "point-reused");
    }
    void symmetric(const mpz_class& v, const std::string& what)
    {
        std::string w = what + fmt(" (#%u)", n++);
        lines.push_back("k" + hex(v));
        add(sym, v, w, "symmetric-key-reused");
    }
};

struct Shop                              // parties of one process
{
    Book& b;
    CURVE curve;
    std::vector<std::shared_ptr<dme::DME_DDH>> dmes;
    std::vector<std::shared_ptr<ot::OTrecv>> rx;
    std::vector<std::shared_ptr<ot::OTsndr>> tx;
    std::vector<std::shared_ptr<opprf::OPPRFserver>> srv;
    std::shared_ptr<puda::Puda> pu;
    std::shared_ptr<sss::ShamirSS> ss;
    std::vector<std::shared_ptr<dme::DME_DDH>> kept;
    Pt secret;
    explicit Shop(Book& book) : b(book)
    {
        secret = E().mul(E().g, 424242);
        add_dme(2);
        pu = std::make_shared<puda::Puda>();
        ss = std::make_shared<sss::ShamirSS>();
    }
    dme::crs_ddh_t crs() { return dmes[0]->crs; }
    // The masking scalars of a session never leave the server, only their products with its base do. The simulator knows what
    // was drawn, so it can find the base and the scalars behind two products; when that fails nothing is claimed.
    std::vector<std::vector<mpz_class>> drawn;
    std::map<Pt, mpz_class> drawnpt;
    void open_scalars(const Pt& a, const Pt& c)
    {
        for (auto& v : drawn.back()) if (mpz_sizeinbase(v.get_mpz_t(), 2) > 200) drawnpt[E().mul(E().g, v)] = v;
        for (auto& v : drawn.back())
        {
            if (mpz_sizeinbase(v.get_mpz_t(), 2) <= 200) continue;
            mpz_class i = ref::inv(v, E().n);
            auto x = drawnpt.find(E().mul(a, i));
            if (x == drawnpt.end()) continue;
            auto y = drawnpt.find(E().mul(c, i));
            if (y == drawnpt.end()) continue;
            b.scalar(x->second, "masking scalar");
            b.scalar(y->second, "masking scalar");
            if (b.r) b.r->probe("masking_scalars_opened");
            return;
        }
        if (b.r) b.r->probe("masking_scalars_hidden");
    }
    void add_dme(unsigned kind)
    {
        dmes.push_back(kind == 0 ? std::make_shared<dme::DME_DDH>(dme::mode_t::messy) : kind == 1 ? std::make_shared<dme::DME_DDH>(dme::mode_t::dec) : std::make_shared<dme::DME_DDH>());
        const dme::crs_ddh_t& c = dmes.back()->crs;
        b.point(ref::of(c.g0), "crs g0");
        b.point(ref::of(c.g1), "crs g1");
        b.point(ref::of(c.h0), "crs h0");
        b.point(ref::of(c.h1), "crs h1");
    }
    void op(unsigned what, unsigned arg)
    {
        switch (what)
        {
        case 0: { auto k = dmes[arg % dmes.size()]->KeyGen(dme::branch_t(arg & 1)); b.scalar(k.sk.getRawValue(), "key"); break; }
        case 1:
        {
            dme::DME_DDH& d = *dmes[arg % dmes.size()];
            auto k = d.KeyGen(dme::branch_t(arg & 1));
            b.scalar(k.sk.getRawValue(), "key");
            POINT m = curve.getDefaultGen();
            for (int i = 0; i < 2; i++)
            {
                dme::ctxt_t c = d.Enc(k.pk, dme::branch_t((arg & 1) ^ i), m);
                b.point(ref::of(c.u), "encryption u");
                b.point(E().sub(ref::of(c.mv), ref::of(m)), "encryption mask");
            }
            break;
        }
        case 2: add_dme(arg % 3); if (dmes.size() > 4) dmes.erase(dmes.begin() + 1); break;
        case 3: b.scalar(curve.getRandomScalar().getRawValue(), "scalar"); break;
        case 4: b.point(ref::of(curve.getRandomPoint()), "point"); break;
        case 5: { ot::OTsndr t(crs()); b.point(ref::of(t.getRandomMsg()), "random message"); break; }
        case 6: for (unsigned i = 0; i < 1 + arg % 3; i++) b.symmetric(utils::getRandom(128), "symmetric key"); break;
        case 7:
            rx.push_back(std::make_shared<ot::OTrecv>(crs()));
            for (auto& x : rx) b.point(ref::of(x->selectMsg(dme::branch_t(arg & 1)).g), "selection");
            if (rx.size() > 2) rx.erase(rx.begin());
            break;
        case 8:
        {
            tx.push_back(std::make_shared<ot::OTsndr>(crs()));
            ot::OTrecv own(crs());
            dme::pkey_t pk = own.selectMsg(dme::branch_t(arg & 1));
            b.point(ref::of(pk.g), "selection");
            POINT m = curve.getDefaultGen();
            for (auto& t : tx)
                for (auto& c : t->encMsgs(pk, m, m))
                {
                    b.point(ref::of(c.u), "transfer u");
                    b.point(E().sub(ref::of(c.mv), ref::of(m)), "transfer mask");
                }
            b.point(ref::of(tx[0]->getRandomMsg()), "random message");
            if (tx.size() > 2) tx.erase(tx.begin());
            break;
        }
        case 9:
        {
            puda::Puda& p = *pu;
            auto s = p.Setup(1 + arg % 4);
            for (auto& e : std::get<0>(s)) { auto x = e; b.scalar(x.getRawValue(), "blinding key"); }
            b.scalar(std::get<1>(s)[0].a, "common signing key");
            for (auto& k : std::get<1>(s)) { auto x = k.tk; if (k.a != std::get<1>(s)[0].a) b.scalar(k.a, "common signing key"); b.scalar(x.getRawValue(), "tag key"); }
            b.point(ref::of(p.Tag(puda::sk_t(0, puda::tk_t(mpz_class(1))), 0, 1)), "hash base");
            break;
        }
        case 10:
        {
            unsigned t = 2 + arg % 4;
            std::vector<poly::Sh> v;
            for (auto& s : ss->getShares(t, t, sss::FIELD(mpz_class(arg))))
            {
                auto c = s;
                v.push_back(poly::Sh(c.idx.getRawValue(), c.val.getRawValue()));
            }
            auto c = poly::interpolate(v);
            for (unsigned i = 1; i < t; i++) b.scalar(c[i], "sharing coefficient");
            break;
        }
        case 11:
        {
            // one OPPRF session opened by an honest-but-curious client in its first rounds
            if (srv.empty() || arg % 3 == 0) { srv.push_back(std::make_shared<opprf::OPPRFserver>(arg & 65535, crs())); POINT g(secret.x, secret.y, &curve); srv.back()->setSecret(g); }
            if (srv.size() > 2) srv.erase(srv.begin());
            opprf::OPPRFserver& s = *srv.back();
            if (!(arg & 256)) s.clean();                      // a session may also be prepared right after an abandoned one
            drawn.emplace_back();
            seam::record(&drawn.back());
            s.prepareKeysAndInputs();
            seam::record(0);
            Pt masked[2][2];                                  // what branch 0 carries in two rounds: r times a masking scalar
            b.point(ref::of(s.getKOPPRF()), "session value");
            ot::OTrecv o(crs());
            for (int br = 0; br < 2; br++)
            {
                dme::pkey_t pk = o.selectMsg(dme::branch_t(br));
                b.point(ref::of(pk.g), "selection");
                opprf::ot_ctxts_t c = s.runOTRound(16, pk);
                b.symmetric(o.decryptMsgDecode(c.ctxt[0]), "first round key");
                masked[0][br] = ref::of(o.decryptMsg(c.cprf));
                b.point(masked[0][br], "round value");
                b.point(ref::of(c.ctxt[0][0].u), "transfer u");
                b.point(ref::of(c.cprf[0].u), "transfer u");
            }
            {
                dme::pkey_t pk = o.selectMsg(dme::branch_t(0));
                b.point(ref::of(pk.g), "selection");
                opprf::ot_ctxts_t c = s.runOTRound(2 + arg % 14, pk);
                for (auto& x : c.ctxt) b.symmetric(o.decryptMsgDecode(x), "sealed key");
                masked[1][0] = ref::of(o.decryptMsg(c.cprf));
            }
            open_scalars(masked[0][0], masked[1][0]);
            opprf::symctxt_t m = s.sendEncryptedMasks();
            for (auto& x : m) b.symmetric(x, "sealed mask");
            break;
        }
        // churn: none of this may rewind anything
        case 12: { CURVE c; CURVE d(c); (void)d; break; }
        case 13: { dme::DME_DDH d(crs()); dme::DMHE_DDH e(crs()); (void)e; break; }
        case 14: { opprf::OPPRFclient c(crs()); c.clean(); opprf::OPPRFserver s(arg & 65535, crs()); s.clean(); s.clean(); break; }
        case 15: pu = std::make_shared<puda::Puda>(); break;
        case 16: ss = std::make_shared<sss::ShamirSS>(); break;
        case 17: { aes::AES::init(); aes::AES a; a.decryptCRC(5, a.encryptCRC(5, 77)); break; }
        case 18: if (!srv.empty()) srv.back()->clean(); break;
        case 20:                                              // a party and its copy go on independently
        {
            dme::DME_DDH& d = *dmes[arg % dmes.size()];
            auto k = d.KeyGen(dme::branch_t(arg & 1));
            b.scalar(k.sk.getRawValue(), "key");
            POINT m = curve.getDefaultGen();
            auto enc = [&](const dme::DME_DDH& o, const char* who) {
                dme::ctxt_t c = o.Enc(k.pk, dme::branch_t(arg >> 1 & 1), m);
                b.point(ref::of(c.u), fmt("encryption u by %s", who));
                b.point(E().sub(ref::of(c.mv), ref::of(m)), fmt("encryption mask by %s", who));
                b.scalar(o.KeyGen(dme::branch_t(arg & 1)).sk.getRawValue(), fmt("key by %s", who));
            };
            enc(d, "original");
            auto copy = std::make_shared<dme::DME_DDH>(d);
            for (int i = 0; i < 2; i++) { enc(i == (int)(arg >> 2 & 1) ? *copy : d, i == (int)(arg >> 2 & 1) ? "copy" : "original"); }
            if (arg & 8) { d = *copy; enc(d, "assigned"); enc(*copy, "copy"); }
            kept.push_back(copy);
            break;
        }
        case 21:
        {
            tx.push_back(std::make_shared<ot::OTsndr>(crs()));
            ot::OTrecv own(crs());
            dme::pkey_t pk = own.selectMsg(dme::branch_t(arg & 1));
            b.point(ref::of(pk.g), "selection");
            POINT m = curve.getDefaultGen();
            auto answer = [&](ot::OTsndr& t, const char* who) {
                for (auto& c : t.encMsgs(pk, m, m))
                {
                    b.point(ref::of(c.u), fmt("transfer u by %s", who));
                    b.point(E().sub(ref::of(c.mv), ref::of(m)), fmt("transfer mask by %s", who));
                }
            };
            if (arg & 2) answer(*tx.back(), "original");
            auto t = std::make_shared<ot::OTsndr>(*tx.back());
            answer(*t, "copy");
            answer(*tx.back(), "original");
            ot::OTrecv twin(own);
            b.point(ref::of(twin.selectMsg(dme::branch_t(arg & 1)).g), "selection by copy");
            b.point(ref::of(own.selectMsg(dme::branch_t(arg & 1)).g), "selection by original");
            tx.push_back(t);
            if (tx.size() > 2) tx.erase(tx.begin(), tx.end() - 2);
            break;
        }
        case 22:
        {
            // copies of a sharing object, a PUDA object and an OPPRF server deal on their own
            sss::ShamirSS a(*ss);
            for (int i = 0; i < 2; i++)
            {
                sss::ShamirSS& o = i ? a : *ss;
                auto v = o.getShares(2, 2, sss::FIELD(mpz_class(arg)));
                auto x = v[0], y = v[1];
                b.scalar(ref::mod(y.val.getRawValue() - x.val.getRawValue(), E().n), i ? "sharing coefficient by copy" : "sharing coefficient");
            }
            puda::Puda q(*pu);
            for (int i = 0; i < 2; i++)
            {
                auto s = (i ? q : *pu).Setup(1);
                auto e = std::get<0>(s)[0];
                b.scalar(e.getRawValue(), i ? "blinding key by copy" : "blinding key");
                b.scalar(std::get<1>(s)[0].a, "common signing key");
            }
            break;
        }
        case 23:
        {
            // two servers of one state: their sessions share nothing
            opprf::OPPRFserver a(arg & 65535, crs());
            POINT g(secret.x, secret.y, &curve);
            a.setSecret(g);
            opprf::OPPRFserver c(a);
            for (int i = 0; i < 2; i++)
            {
                opprf::OPPRFserver& o = i ? c : a;
                o.prepareKeysAndInputs();
                b.point(ref::of(o.getKOPPRF()), i ? "session value by copy" : "session value");
                ot::OTrecv v(crs());
                dme::pkey_t pk = v.selectMsg(dme::branch_t(0));
                b.point(ref::of(pk.g), "selection");
                opprf::ot_ctxts_t x = o.runOTRound(16, pk);
                b.symmetric(v.decryptMsgDecode(x.ctxt[0]), i ? "first round key by copy" : "first round key");
                b.point(ref::of(x.ctxt[0][0].u), "transfer u");
            }
            break;
        }
        case 24:
        {
            // many draws in a row
            std::set<mpz_class> seen;
            unsigned n = 200 + arg % 4000, kind = arg / 4096 % 4;
            if (kind >= 2)
            {
                // coefficients of many dealings; keys and encryptions of one party
                n = kind == 2 ? 100 + n / 2 : 40 + arg % 120;
                std::set<Pt> us;
                dme::DME_DDH& d = *dmes[arg % dmes.size()];
                POINT m = curve.getDefaultGen();
                for (unsigned i = 0; i < n; i++)
                {
                    mpz_class v;
                    if (kind == 2)
                    {
                        auto sh = ss->getShares(2, 2, sss::FIELD(mpz_class(arg)));
                        auto x = sh[0], y = sh[1];
                        v = ref::mod((y.val.getRawValue() - x.val.getRawValue()) * ref::inv(ref::mod(y.idx.getRawValue() - x.idx.getRawValue(), E().n), E().n), E().n);
                    }
                    else
                    {
                        auto k = d.KeyGen(dme::branch_t(i & 1));
                        v = k.sk.getRawValue();
                        if (i % 4 == 0 && b.r) b.r->check(us.insert(ref::of(d.Enc(k.pk, dme::branch_t(arg & 1), m).u)).second, "draw-repeats", fmt("encryption %u of one party repeats the mask of an earlier one", i));
                    }
                    if (b.r) b.r->check(seen.insert(v).second, "draw-repeats", fmt("%s %u of %u in a row repeats an earlier one", kind == 2 ? "coefficient" : "key", i, n));
                    if (i < 2) b.scalar(v, kind == 2 ? "sharing coefficient" : "key");
                }
                if (b.r) b.r->probe("bulk_draws");
                break;
            }
            for (unsigned i = 0; i < n; i++)
            {
                mpz_class v = arg & 1 ? curve.getRandomScalar().getRawValue() : utils::getRandom(128);
                if (b.r) b.r->check(seen.insert(v).second, "draw-repeats", fmt("draw %u of %u in a row repeats an earlier one", i, n));
                if (i < 2) { if (arg & 1) b.scalar(v, "scalar"); else b.symmetric(v, "symmetric key"); }
            }
            break;
        }
        case 25:                                              // a curve and its copies are drawn from in turn
        {
            if (arg & 1) b.scalar(curve.getRandomScalar().getRawValue(), "scalar");
            dme::DME_DDH d(dme::mode_t::dec);
            std::vector<CURVE> cs;
            cs.push_back(curve);
            cs.push_back(*d.getCurve());
            cs.push_back(cs[arg >> 1 & 1]);
            CURVE last;
            last = cs[arg >> 2 & 1];
            for (unsigned i = 0, n = 2 + (arg >> 3) % 4; i < n; i++)
            {
                for (auto& c : cs) b.scalar(c.getRandomScalar().getRawValue(), "scalar");
                b.scalar(last.getRandomScalar().getRawValue(), "scalar");
                b.scalar(curve.getRandomScalar().getRawValue(), "scalar");
                b.scalar(d.getCurve()->getRandomScalar().getRawValue(), "scalar");
            }
            break;
        }
        default: rx.clear(); tx.clear(); break;
        }
    }
};
const unsigned NOPS = 26;

// one incarnation of a process: executed for real, so that start-up code runs again
void incarnation(const char* plan)
{
    Book b;
    Shop s(b);
    unsigned what, arg;
    int used;
    while (sscanf(plan, "%u:%u,%n", &what, &arg, &used) == 2) { s.op(what, arg); plan += used; }
    for (auto& l : b.lines) printf("%s\n", l.c_str());
}

void c16(Run& r)
{
    Sim::clock() = 1 + r.pick(1000000);
    bool shipped = r.pick(3) == 2;
    if (shipped) { seam::rng_off(); r.probe("generators_as_shipped"); }
    else seam::rng_setup(r.seed(), 0);
    if (r.pick(4) == 3)
    {
        // the same program is run again later: the second life must not repeat the first
        std::string plan;
        for (unsigned i = 0, n = 2 + r.pick(4); i < n; i++) plan += fmt("%u:%u,", (unsigned)r.pick(12), (unsigned)r.pick(65536));
        r.sched("process restart %s", plan.c_str());
        Lives l = two_lives(r);
        std::vector<std::string> a = launch(plan, l.e1, l.c1), b = launch(plan, l.e2, l.c2);
        std::set<std::string> s(a.begin(), a.end());
        std::set<char> kinds;
        unsigned same = 0;
        for (auto& l : b) if (s.count(l)) { same++; kinds.insert(l[0]); }
        r.check(same == 0, "restart-repeats", fmt("%u of %zu secrets drawn before a process restart are drawn again after it (plan %s)", same, b.size(), plan.c_str()));
        return;
    }
    Book b;
    b.r = &r;
    Shop s(b);
    unsigned n = 6 + r.pick(20), heavy = 0;
    for (unsigned i = 0; i < n; i++)
    {
        Sim::clock() += r.pick(2000000);            // sometimes several operations within one second
        r.sh->simtime = Sim::clock();
        r.sh->steps++;
        unsigned what = r.pick(NOPS), arg = r.pick(65536);
        if ((what == 11 || what == 23) && heavy++ > 2) what = 6;
        if (what >= 12 && what < 20) r.fault("churn");
        if (what >= 20 && what < 24) r.fault("party_copied");
        r.sched("op %u", what);
        s.op(what, arg);
    }
    r.count("secrets_observed", b.n);
}
SCENARIO(C16, c16, 60);
} // namespace
namespace sim { void special(int argc, char** argv) { if (argc == 3 && !strcmp(argv[1], "incarnation")) { incarnation(argv[2]); fflush(stdout); _exit(0); } } }
