// Parties of one process and random operations on them whose outcome is known.
#pragma once
#include "net.hpp"
#include "poly.hpp"
#include "ot.hpp"
#include "dot.hpp"
#include "dmhe.hpp"
#include "opprf.hpp"
#include "puda.hpp"
#include "shamirss.hpp"
#include "utilities.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }
POINT point(const Pt& p, CURVE* c) { return p.inf ? POINT() : POINT(p.x, p.y, c); }

// parties of one process and operations on them whose outcome is known
struct Parties
{
    Run& r;
    CURVE curve;
    std::shared_ptr<dme::DME_DDH> dealer;
    dme::crs_ddh_t crs;
    std::vector<std::shared_ptr<dme::DME_DDH>> dmes;
    std::vector<std::shared_ptr<ot::OTsndr>> tx;
    std::vector<std::shared_ptr<ot::OTrecv>> rx;
    std::vector<std::shared_ptr<ot::DOTprxy>> px;
    std::shared_ptr<opprf::OPPRFserver> srv;
    std::shared_ptr<opprf::OPPRFclient> cli;
    std::shared_ptr<puda::Puda> pu;
    std::shared_ptr<sss::ShamirSS> ss;
    aes::AES aes;
    std::vector<std::shared_ptr<void>> graveyard;       // points refer to the curve of the party that made them
    unsigned theta;
    mpz_class a;
    POINT ga;
    explicit Parties(Run& run, Parties* same = 0) : r(run)
    {
        if (!same) dealer = r.pick(2) ? std::make_shared<dme::DME_DDH>(dme::mode_t::messy) : std::make_shared<dme::DME_DDH>(dme::mode_t::dec);
        else dealer = same->dealer;
        crs = dealer->crs;
        for (int i = 0; i < 2; i++)
        {
            dmes.push_back(std::make_shared<dme::DME_DDH>(crs));
            tx.push_back(std::make_shared<ot::OTsndr>(crs));
            rx.push_back(std::make_shared<ot::OTrecv>(crs));
            px.push_back(std::make_shared<ot::DOTprxy>(crs));
        }
        theta = r.pick(65536);
        a = 12345 + r.pick(100000);
        make_server();
        cli = std::make_shared<opprf::OPPRFclient>(crs);
        pu = std::make_shared<puda::Puda>();
        ss = std::make_shared<sss::ShamirSS>();
    }
    void make_server()
    {
        auto s = std::make_shared<opprf::OPPRFserver>(theta, crs);
        ga = point(E().mul(E().g, a), &curve);
        s->setSecret(ga);
        if (srv) graveyard.push_back(srv);
        srv = s;
    }
    Pt base(int b, bool h) { return ref::of(b ? (h ? crs.h1 : crs.g1) : (h ? crs.h0 : crs.g0)); }
};

struct Op { std::string name; std::function<void()> lib, judge; std::function<void(std::vector<std::string>&)> fresh; };     // lib: library calls only; fresh: values that never repeat

Op make_op(Run& r, Parties& P, unsigned kind)
{
    Op o;
    int i = r.pick(2), b = r.pick(2);
    mpz_class n = 1 + r.pick(65536);
    auto want = [&r](bool ok, const std::string& what) { r.check(ok, "wrong-result", what); };
    struct S
    {
        dme::keypair_t k;
        std::vector<dme::ctxt_t> c;
        std::vector<POINT> p;
        std::vector<mpz_class> v;
        std::vector<ot::ctxt_v_t> a;
        dme::pkey_t pk;
        sss::share_v_t sh;
        unsigned threshold = 1;
        std::vector<mpz_class> keys;
        Pt m[2];
    };
    auto s = std::make_shared<S>();
    o.fresh = [s](std::vector<std::string>& v) {
        auto pt = [&](const POINT& p, const char* what) { Pt x = ref::of(p); if (!x.inf) v.push_back(std::string(what) + " " + hex(x.x)); };
        dme::keypair_t k = s->k;
        mpz_class sk = k.sk.getRawValue();
        if (sk != 0) v.push_back("secret key " + hex(sk));
        pt(s->pk.g, "selection");
        for (auto& c : s->c) { pt(c.u, "ciphertext"); pt(c.mv, "ciphertext"); }
        for (auto& a : s->a) for (auto& c : a) { pt(c.u, "ciphertext"); pt(c.mv, "ciphertext"); }
        for (auto& x : s->keys) if (x != 0) v.push_back("key " + hex(x));
        if (s->sh.size() > 1)
        {
            std::vector<poly::Sh> p;
            for (auto& x : s->sh) { auto c = x; p.push_back(poly::Sh(c.idx.getRawValue(), c.val.getRawValue())); }
            p.resize(s->threshold);
            auto c = poly::interpolate(p);
            for (unsigned i = 1; i < c.size() && i < s->threshold; i++) v.push_back("coefficient " + hex(c[i]));
        }
    };
    CURVE* cv = &P.curve;
    for (int k = 0; k < 2; k++) s->m[k] = E().mul(E().g, 3 + r.pick(100000));
    switch (kind)
    {
    case 0:
        o.name = "KeyGen";
        o.lib = [=, &P] { s->k = P.dmes[i]->KeyGen(dme::branch_t(b)); };
        o.judge = [=, &P] {
            mpz_class sk = s->k.sk.getRawValue();
            want(ref::of(s->k.pk.g) == E().mul(P.base(b, false), sk) && ref::of(s->k.pk.h) == E().mul(P.base(b, true), sk), "KeyGen: the key pair does not match");
        };
        break;
    case 1:
    {
        o.name = "Enc and Dec";
        POINT m = point(s->m[0], cv);
        o.lib = [=, &P] { s->k = P.dmes[i]->KeyGen(dme::branch_t(b)); s->c.assign(1, P.dmes[1 - i]->Enc(s->k.pk, dme::branch_t(b), m)); s->p.assign(1, P.dmes[i]->Dec(s->k.sk, s->c[0])); };
        o.judge = [=] { want(ref::of(s->p.at(0)) == s->m[0], "Dec gives another message"); };
        break;
    }
    case 2:
        o.name = "Enc and DecDecode";
        o.lib = [=, &P] { s->k = P.dmes[i]->KeyGen(dme::branch_t(b)); s->c.assign(1, P.dmes[1 - i]->Enc(s->k.pk, dme::branch_t(b), n)); s->v.assign(1, P.dmes[i]->DecDecode(s->k.sk, s->c[0])); };
        o.judge = [=] { want(s->v.at(0) == n, "DecDecode gives another message"); };
        break;
    case 3:
    {
        o.name = "transfer";
        POINT m0 = point(s->m[0], cv), m1 = point(s->m[1], cv);
        o.lib = [=, &P] { s->pk = P.rx[i]->selectMsg(dme::branch_t(b)); s->a.assign(1, P.tx[1 - i]->encMsgs(s->pk, m0, m1)); s->p.assign(1, P.rx[i]->decryptMsg(s->a[0])); };
        o.judge = [=] { want(ref::of(s->p.at(0)) == s->m[b], "the transfer gives another message"); };
        break;
    }
    case 4:
    {
        o.name = "integer transfer";
        o.lib = [=, &P] { s->pk = P.rx[i]->selectMsg(dme::branch_t(b)); s->a.assign(1, P.tx[i]->encMsgs(s->pk, n, n + 1)); s->v.assign(1, P.rx[i]->decryptMsgDecode(s->a[0])); };
        o.judge = [=] { want(s->v.at(0) == n + b, "the integer transfer gives another message"); };
        break;
    }
    case 5:
    {
        o.name = "aggregate";
        POINT m0 = point(s->m[0], cv), m1 = point(s->m[1], cv);
        unsigned k = 1 + r.pick(3);
        o.lib = [=, &P] {
            s->pk = P.rx[i]->selectMsg(dme::branch_t(b));
            s->a.clear();
            for (unsigned j = 0; j < k; j++) s->a.push_back(P.tx[j & 1]->encMsgs(s->pk, m0, m1));
            ot::ctxt_v_t g = P.px[i]->aggregate(s->a);
            s->p.assign(1, P.rx[i]->decryptMsg(g));
        };
        o.judge = [=] { want(ref::of(s->p.at(0)) == E().mul(s->m[b], k), "the aggregate opens to another sum"); };
        break;
    }
    case 6:
    {
        o.name = "PUDA";
        unsigned k = 1 + r.pick(3), m = r.pick(r.pick(4) == 3 ? 2000 : 50);
        int t = 1 + r.pick(1000);
        o.lib = [=, &P] {
            auto st = P.pu->Setup(k);
            s->keys.clear();
            for (auto x : std::get<0>(st)) s->keys.push_back(x.getRawValue());
            for (auto x : std::get<1>(st)) s->keys.push_back(x.tk.getRawValue());
            puda::ctxt_v_t c;
            puda::tag_v_t g;
            for (unsigned j = 0; j < k; j++) { c.push_back(P.pu->Enc(std::get<0>(st)[j], m, t)); g.push_back(P.pu->Tag(std::get<1>(st)[j], m, t)); }
            s->v.assign(1, mpz_class(P.pu->Agg(std::get<2>(st), c, g, t).first));
        };
        o.judge = [=] { want(s->v.at(0) == m * k, "PUDA gives another sum"); };
        break;
    }
    case 7:
    {
        o.name = "sharing";
        unsigned t = 1 + r.pick(6), k = t + r.pick(5);
        s->threshold = t;
        o.lib = [=, &P] {
            s->sh = P.ss->getShares(t, k, sss::FIELD(n));
            sss::share_v_t some(s->sh.end() - t, s->sh.end());
            sss::FIELD f = P.ss->reconSecret(some);
            s->v.assign(1, f.getRawValue());
        };
        o.judge = [=] { want(s->v.at(0) == n, "reconstruction gives another secret"); };
        break;
    }
    case 8:
    {
        o.name = "cipher";
        mpz_class key = n * n + 5, m = Rng(r.seed()).bits(8 + r.pick(1500));
        o.lib = [=, &P] { mpz_class c = P.aes.encryptCRC(key, m); s->v.assign(1, P.aes.decryptCRC(key, c)); };
        o.judge = [=] { want(s->v.at(0) == m, "the cipher gives another message"); };
        break;
    }
    case 9:
        o.name = "copies";
        o.lib = [=, &P] {
            auto d = std::make_shared<dme::DME_DDH>(*P.dmes[i]);
            auto t = std::make_shared<ot::OTsndr>(*P.tx[i]);
            auto q = std::make_shared<ot::OTrecv>(*P.rx[i]);
            auto x = std::make_shared<opprf::OPPRFserver>(*P.srv);
            auto y = std::make_shared<opprf::OPPRFclient>(*P.cli);
            auto z = std::make_shared<puda::Puda>(*P.pu);
            s->pk = q->selectMsg(dme::branch_t(b));
            s->a.assign(1, t->encMsgs(s->pk, n, n + 1));
            s->v.assign(1, q->decryptMsgDecode(s->a[0]));
        };
        o.judge = [=] { want(s->v.at(0) == n + b, "a transfer between copies gives another message"); };
        break;
    case 10:
        o.name = "new parties";
        o.lib = [=, &P] {
            auto d = std::make_shared<dme::DME_DDH>(P.crs);
            auto t = std::make_shared<ot::OTsndr>(P.crs);
            auto q = std::make_shared<ot::OTrecv>(P.crs);
            auto p = std::make_shared<ot::DOTprxy>(P.crs);
            auto u = std::make_shared<puda::Puda>();
            auto c = std::make_shared<opprf::OPPRFclient>(P.crs);
            for (std::shared_ptr<void> old : {std::shared_ptr<void>(P.dmes[i]), std::shared_ptr<void>(P.tx[i]), std::shared_ptr<void>(P.rx[i]), std::shared_ptr<void>(P.px[i]), std::shared_ptr<void>(P.pu), std::shared_ptr<void>(P.cli)})
                P.graveyard.push_back(old);
            P.dmes[i] = d;
            P.tx[i] = t;
            P.rx[i] = q;
            P.px[i] = p;
            P.pu = u;
            P.cli = c;
            if (b) P.make_server();
        };
        o.judge = [] {};
        break;
    case 11:
        o.name = "vector";
        o.lib = [=] { aes::AES::init(std::string(16, char(1 + b))); aes::AES::init(); };
        o.judge = [] {};
        break;
    case 13:
    {
        o.name = "symmetric keys";
        unsigned k = 1 + r.pick(6);
        o.lib = [=] { s->keys.clear(); for (unsigned j = 0; j < k; j++) s->keys.push_back(utils::getRandom(128)); };
        o.judge = [] {};
        break;
    }
    default:
    {
        o.name = "OPPRF rounds";
        unsigned x = r.pick(65536);
        o.lib = [=, &P] {
            P.srv->clean();
            P.cli->clean();
            P.cli->setMessage(x);
            P.srv->prepareKeysAndInputs();
            s->p.assign(1, P.srv->getKOPPRF());
            for (int round = 16; round >= 14; round--) { dme::pkey_t pk = P.cli->runOTRound_start(round); P.cli->runOTRound_end(round, P.srv->runOTRound(round, pk)); }
        };
        o.judge = [=, &P] { want(true, ""); };
        o.fresh = [=](std::vector<std::string>& v) { if (!s->p.empty()) v.push_back("session value " + hex(ref::of(s->p[0]).x)); };
    }
    }
    return o;
}
const unsigned NOP = 14;

} // namespace
