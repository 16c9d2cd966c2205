// C26: parties in different processes understand one another, across kills and restarts
// C27: a forked process does not repeat its parent's secrets
// C28: without entropy nothing secret is made up
#include "parties.hpp"
#include "node.hpp"
#include <sys/mman.h>

const mpz_class appendCRC(mpz_class n);                   // crc.hpp defines them, and one file may include it
const bool validateCRC(mpz_class n);
const mpz_class removeCRC(mpz_class n);

namespace
{
typedef std::vector<std::string> Words;

// ------------------------------------------------------------------------------------------------ the serving side
struct NodeProcess
{
    CURVE curve;
    bool coords = false;
    std::map<std::string, std::shared_ptr<dme::DME_DDH>> dmes;
    std::map<std::string, std::shared_ptr<ot::OTrecv>> rx;
    std::map<std::string, std::shared_ptr<ot::OTsndr>> tx;
    std::map<std::string, std::shared_ptr<ot::DOTprxy>> px;
    std::map<std::string, std::shared_ptr<opprf::OPPRFserver>> srv;
    std::map<std::string, std::shared_ptr<opprf::OPPRFclient>> cli;
    sss::ShamirSS ss;
    aes::AES aes;
    Words w;
    size_t at = 0;
    std::string reply;
    std::string next() { if (at >= w.size()) throw std::logic_error("harness: words"); return w[at++]; }
    mpz_class num() { return mpz_class(next(), 16); }
    unsigned small() { return strtoul(next().c_str(), 0, 10); }
    POINT pt()
    {
        std::string s = next();
        if (s == "i") return POINT();
        if (s[0] == 'e')
        {
            POINT p = curve.getDefaultGen();
            p.curve = &curve;
            p.setEncodedX(mpz_class(s.substr(1), 16));
            return p;
        }
        size_t c = s.find(',');
        return POINT(mpz_class(s.substr(1, c - 1), 16), mpz_class(s.substr(c + 1), 16), &curve);
    }
    void say(const std::string& s) { if (!reply.empty()) reply += ' '; reply += s; }
    void say(const mpz_class& v) { say(v.get_str(16)); }
    void say(const POINT& p)
    {
        if (p.isInf()) { say(std::string("i")); return; }
        if (coords) say("c" + p.getX().getRawValue().get_str(16) + "," + p.getY().getRawValue().get_str(16));
        else say("e" + p.getEncodedX().get_str(16));
    }
    void say(const dme::ctxt_t& c) { say(c.u); say(c.mv); }
    void say(const ot::ctxt_v_t& v) { for (auto& c : v) say(c); }
    dme::crs_ddh_t crs() { POINT a = pt(), b = pt(), c = pt(), d = pt(); return dme::crs_ddh_t(a, b, c, d); }
    dme::pkey_t pk() { POINT a = pt(), b = pt(); return dme::pkey_t(a, b); }
    dme::ctxt_t ct() { POINT a = pt(), b = pt(); return dme::ctxt_t(a, b); }
    ot::ctxt_v_t pair() { dme::ctxt_t a = ct(), b = ct(); ot::ctxt_v_t v; v.push_back(a); v.push_back(b); return v; }
    void serve()
    {
        std::string op = next();
        if (op == "wire") coords = small();
        else if (op == "crs")                             // a new reference string
        {
            std::string n = next();
            unsigned m = small();
            dmes[n] = m == 0 ? std::make_shared<dme::DME_DDH>(dme::mode_t::messy) : m == 1 ? std::make_shared<dme::DME_DDH>(dme::mode_t::dec) : std::make_shared<dme::DME_DDH>();
            const dme::crs_ddh_t& c = dmes[n]->crs;
            say(c.g0); say(c.g1); say(c.h0); say(c.h1);
        }
        else if (op == "dme") { std::string n = next(); dmes[n] = std::make_shared<dme::DME_DDH>(crs()); }
        else if (op == "keygen")
        {
            dme::DME_DDH& d = *dmes.at(next());
            dme::keypair_t k = d.KeyGen(dme::branch_t(small()));
            say(k.sk.getRawValue()); say(k.pk.g); say(k.pk.h);
        }
        else if (op == "trapkeys")
        {
            auto t = dmes.at(next())->TrapKeyGen();
            dme::skey_t a = std::get<1>(t), b = std::get<2>(t);
            say(a.getRawValue()); say(b.getRawValue()); say(std::get<0>(t).g); say(std::get<0>(t).h);
        }
        else if (op == "messy") { dme::DME_DDH& d = *dmes.at(next()); say(fmt("%d", (int)d.FindMessy(pk()))); }
        else if (op == "enc") { dme::DME_DDH& d = *dmes.at(next()); dme::branch_t b = dme::branch_t(small()); dme::pkey_t k = pk(); say(d.Enc(k, b, pt())); }
        else if (op == "encint") { dme::DME_DDH& d = *dmes.at(next()); dme::branch_t b = dme::branch_t(small()); dme::pkey_t k = pk(); say(d.Enc(k, b, num())); }
        else if (op == "dec") { dme::DME_DDH& d = *dmes.at(next()); dme::skey_t k(num()); say(d.Dec(k, ct())); }
        else if (op == "decint") { dme::DME_DDH& d = *dmes.at(next()); dme::skey_t k(num()); say(d.DecDecode(k, ct())); }
        else if (op == "rx") { std::string n = next(); rx[n] = std::make_shared<ot::OTrecv>(crs()); }
        else if (op == "tx") { std::string n = next(); tx[n] = std::make_shared<ot::OTsndr>(crs()); }
        else if (op == "px") { std::string n = next(); px[n] = std::make_shared<ot::DOTprxy>(crs()); }
        else if (op == "select") { ot::OTrecv& o = *rx.at(next()); dme::pkey_t k = o.selectMsg(dme::branch_t(small())); say(k.g); say(k.h); }
        else if (op == "answer") { ot::OTsndr& o = *tx.at(next()); dme::pkey_t k = pk(); POINT a = pt(), b = pt(); say(o.encMsgs(k, a, b)); }
        else if (op == "answerint") { ot::OTsndr& o = *tx.at(next()); dme::pkey_t k = pk(); mpz_class a = num(), b = num(); say(o.encMsgs(k, a, b)); }
        else if (op == "open") { ot::OTrecv& o = *rx.at(next()); say(o.decryptMsg(pair())); }
        else if (op == "openint") { ot::OTrecv& o = *rx.at(next()); say(o.decryptMsgDecode(pair())); }
        else if (op == "aggregate")
        {
            ot::DOTprxy& o = *px.at(next());
            std::vector<ot::ctxt_v_t> v;
            for (unsigned n = small(); n > 0; n--) v.push_back(pair());
            say(o.aggregate(v));
        }
        else if (op == "server")
        {
            std::string n = next();
            unsigned theta = small();
            mpz_class unused;
            POINT ga = pt();
            srv[n] = std::make_shared<opprf::OPPRFserver>(theta, crs());
            srv[n]->setSecret(ga);
        }
        else if (op == "prepare") { opprf::OPPRFserver& s = *srv.at(next()); s.clean(); s.prepareKeysAndInputs(); say(s.getKOPPRF()); }
        else if (op == "round")
        {
            opprf::OPPRFserver& s = *srv.at(next());
            short i = small();
            opprf::ot_ctxts_t c = s.runOTRound(i, pk());
            for (auto& v : c.ctxt) say(fmt("%zu", v.size())), say(v);
            say(c.cprf);
        }
        else if (op == "masks") for (auto& m : srv.at(next())->sendEncryptedMasks()) say(m);
        else if (op == "client") { std::string n = next(); cli[n] = std::make_shared<opprf::OPPRFclient>(crs()); }
        else if (op == "input") { opprf::OPPRFclient& c = *cli.at(next()); c.clean(); c.setMessage(small()); }
        else if (op == "start") { opprf::OPPRFclient& c = *cli.at(next()); dme::pkey_t k = c.runOTRound_start(small()); say(k.g); say(k.h); }
        else if (op == "end")
        {
            opprf::OPPRFclient& c = *cli.at(next());
            short i = small();
            opprf::ot_ctxts_t o;
            for (auto& v : o.ctxt) for (unsigned n = small(); n > 0; n--) v.push_back(ct());
            o.cprf = pair();
            c.runOTRound_end(i, o);
        }
        else if (op == "unmask")
        {
            opprf::OPPRFclient& c = *cli.at(next());
            opprf::symctxt_t m;
            for (auto& x : m) x = num();
            c.unmaskResult(m);
            say(c.getResult());
        }
        else if (op == "vector")
        {
            std::string v;
            for (unsigned n = small(); n > 0; n--) v += (char)small();
            if (v.empty()) aes::AES::init(); else aes::AES::init(v);
        }
        else if (op == "seal") { mpz_class k = num(); say(aes.encryptCRC(k, num())); }
        else if (op == "unseal") { mpz_class k = num(); say(aes.decryptCRC(k, num())); }
        else if (op == "append") { mpz_class m = num(); say(appendCRC(m)); }
        else if (op == "validate") { mpz_class m = num(); say(std::string(validateCRC(m) ? "1" : "0")); if (validateCRC(m)) say(removeCRC(m)); }
        else if (op == "deal")
        {
            unsigned t = small(), n = small();
            for (auto& s : ss.getShares(t, n, sss::FIELD(num()))) { auto c = s; say(c.idx.getRawValue()); say(c.val.getRawValue()); }
        }
        else if (op == "recon")
        {
            sss::share_v_t v;
            for (unsigned n = small(); n > 0; n--) { sss::share_t s; s.idx = sss::FIELD(num()); s.val = sss::FIELD(num()); v.push_back(s); }
            sss::FIELD f = ss.reconSecret(v);
            say(f.getRawValue());
        }
        else if (op == "sum")                             // PUDA parties share an object, so they stay in one process
        {
            puda::Puda p;
            unsigned n = small(), t = small();
            auto st = p.Setup(n);
            puda::ctxt_v_t c;
            puda::tag_v_t g;
            for (unsigned i = 0; i < n; i++) { unsigned m = small(); c.push_back(p.Enc(std::get<0>(st)[i], m, t)); g.push_back(p.Tag(std::get<1>(st)[i], m, t)); }
            say(mpz_class(p.Agg(std::get<2>(st), c, g, t).first));
        }
        else throw std::logic_error("harness: command " + op);
    }
    void run()
    {
        char* l = 0;
        size_t cap = 0;
        while (getline(&l, &cap, stdin) > 0)
        {
            std::stringstream s(l);
            std::string x;
            w.clear();
            at = 0;
            reply.clear();
            while (s >> x) w.push_back(x);
            try { serve(); }
            catch (const std::exception& e) { reply = std::string("! ") + e.what(); }
            printf("%s\n", reply.c_str());
            fflush(stdout);
        }
    }
};

// ------------------------------------------------------------------------------------------------ C26
struct Host
{
    std::unique_ptr<Peer> p;
    std::set<std::string> has;                           // parties set up in the present life
    std::string vec;
    unsigned lives = 0;
};
struct Cluster
{
    Run& r;
    std::vector<Host> h;
    Words crs;                                           // durable
    Pt base[4];
    unsigned mode;
    int dealer;                                          // its life that holds the trapdoor
    unsigned dealer_life;
    std::map<std::string, std::string> secrets;
    unsigned booted = 0;
    explicit Cluster(Run& run) : r(run)
    {
        h.resize(2 + r.pick(2));
        for (size_t i = 0; i < h.size(); i++) boot(i);
        dealer = r.pick(h.size());
        mode = r.pick(3);
        crs = call(dealer, fmt("crs dealer %u", mode));
        dealer_life = h[dealer].lives;
        for (int i = 0; i < 4; i++) { base[i] = parse(crs[i]); fresh(base[i].str(), "reference string"); }
    }
    void boot(int i)
    {
        if (h[i].lives) { h[i].p->kill(); r.fault("process_killed"); }
        Sim::clock() += r.pick(2) ? r.pick(3000000) : 0;
        // container restarts: the same process number, sometimes within the same clock tick, sometimes with the clock set back
        u64 clock = Sim::clock();
        if (r.pick(5) == 4) { clock = r.pick(1000); r.fault("clock_set_back"); }
        h[i].p.reset(new Peer(r.seed() * 1024 + ++booted, 1000000000000ull + clock));   // entropy is never alike, whatever the choices are
        h[i].has.clear();
        h[i].vec = "0";
        h[i].lives++;
        r.count("processes");
        h[i].p->call(fmt("wire %u", (unsigned)r.pick(2)));
    }
    Words call(int i, const std::string& c)
    {
        r.sh->steps++;
        r.log("node %d: %s", i, c.substr(0, 60).c_str());
        try { return h[i].p->call(c); }
        catch (const std::exception& e) { throw Violation{"refused", fmt("node %d refuses %s: ", i, c.substr(0, c.find(' ')).c_str()) + e.what()}; }
    }
    static std::string join(const Words& v, size_t from = 0, size_t to = ~0ul)
    {
        std::string s;
        for (size_t i = from; i < v.size() && i < to; i++) s += " " + v[i];
        return s;
    }
    Pt parse(const std::string& s)
    {
        if (s == "i") return Pt();
        Pt p;
        if (s[0] == 'e')
        {
            // independent decoding: the encoding shifts the abscissa by one bit, which says whether the ordinate is the one the
            // square root algorithm finds; both signs are tried by the caller's check, so only the abscissa matters here
            NodeProcess* n = reader();
            n->w.assign(1, s);
            n->at = 0;
            return ref::of(n->pt());
        }
        size_t c = s.find(',');
        return Pt(mpz_class(s.substr(1, c - 1), 16), mpz_class(s.substr(c + 1), 16));
    }
    NodeProcess* reader() { static NodeProcess n; return &n; }
    void fresh(const std::string& v, const std::string& what)
    {
        auto at = secrets.insert(std::make_pair(v, what));
        r.check(at.second, "repeated", what + " repeats a value seen before (" + at.first->second + ")");
    }
    // the party of this kind in this process, made from nothing but the reference string
    std::string party(int i, const std::string& kind)
    {
        std::string n = kind + fmt("%u", (unsigned)r.pick(2));
        if (h[i].has.insert(n).second) call(i, kind + " " + n + join(crs));
        return n;
    }
    int any() { return r.pick(h.size()); }
    void maybe_kill(int i) { if (r.pick(3) == 2) boot(i); }
    std::string P(const Pt& p) { return fmt("c%s,%s", p.x.get_str(16).c_str(), p.y.get_str(16).c_str()); }
    Pt message() { return E().mul(E().g, 3 + r.pick(1000000)); }

    void transfer()
    {
        int a = any(), b = any(), br = r.pick(2);
        std::string rx = party(a, "rx"), tx = party(b, "tx");
        Words pk = call(a, fmt("select %s %d", rx.c_str(), br));
        fresh(pk[0], "selection");
        if (b != a) { if (r.pick(3) == 2) { boot(b); tx = party(b, "tx"); } }
        if (r.pick(2))
        {
            Pt m[2] = {message(), message()};
            Words c = call(b, "answer " + tx + join(pk) + " " + P(m[0]) + " " + P(m[1]));
            fresh(c[0], "ciphertext"); fresh(c[2], "ciphertext");
            if (b != a) maybe_kill(b);
            Words g = call(a, "open " + rx + join(c));
            r.check(parse(g[0]) == m[br], "wrong-result", fmt("a transfer between processes %d and %d: the receiver of branch %d gets another message", b, a, br));
        }
        else
        {
            mpz_class m[2] = {1 + Rng(r.seed()).bits(1 + r.pick(200)), 1 + Rng(r.seed()).bits(1 + r.pick(200))};
            Words c = call(b, "answerint " + tx + join(pk) + " " + m[0].get_str(16) + " " + m[1].get_str(16));
            fresh(c[0], "ciphertext"); fresh(c[2], "ciphertext");
            if (b != a) maybe_kill(b);
            Words g = call(a, "openint " + rx + join(c));
            r.check(mpz_class(g[0], 16) == m[br], "wrong-result", fmt("an integer transfer between processes %d and %d: the receiver of branch %d gets another message", b, a, br));
        }
    }
    void stored_key()
    {
        int a = any(), b = any(), c = any(), br = r.pick(2);
        Words k = call(a, fmt("keygen %s %d", party(a, "dme").c_str(), br));
        mpz_class sk(k[0], 16);
        fresh(k[0], "secret key");
        r.check(parse(k[1]) == E().mul(base[br], sk) && parse(k[2]) == E().mul(base[2 + br], sk), "wrong-result", "a key made in another process does not belong to the reference string");
        maybe_kill(a);
        std::string pk = join(k, 1);
        if (r.pick(2))
        {
            Pt m = message();
            Words e = call(b, fmt("enc %s %d", party(b, "dme").c_str(), br) + pk + " " + P(m));
            fresh(e[0], "ciphertext");
            maybe_kill(b);
            maybe_kill(c);
            Words d = call(c, "dec " + party(c, "dme") + " " + k[0] + join(e));
            r.check(parse(d[0]) == m, "wrong-result", fmt("a message sealed by process %d for a key of process %d opens to something else in process %d", b, a, c));
        }
        else
        {
            mpz_class m = 1 + Rng(r.seed()).bits(1 + r.pick(200));
            Words e = call(b, fmt("encint %s %d", party(b, "dme").c_str(), br) + pk + " " + m.get_str(16));
            fresh(e[0], "ciphertext");
            maybe_kill(b);
            maybe_kill(c);
            Words d = call(c, "decint " + party(c, "dme") + " " + k[0] + join(e));
            r.check(mpz_class(d[0], 16) == m, "wrong-result", fmt("an integer sealed by process %d for a key of process %d opens to something else in process %d", b, a, c));
        }
        r.probe("stored_key_used");
    }
    void trapdoor()
    {
        if (h[dealer].lives != dealer_life) { r.probe("trapdoor_lost"); stored_key(); return; }
        int a = any(), br = r.pick(2);
        if (mode == 0)
        {
            Words k = call(a, fmt("keygen %s %d", party(a, "dme").c_str(), br));
            Words m = call(dealer, "messy dealer" + join(k, 1));
            r.check(m[0] == fmt("%d", 1 - br), "wrong-result", "the dealer names the wrong branch of a key made in another process");
            r.probe("messy_across");
        }
        else if (mode == 1)
        {
            Words k = call(dealer, "trapkeys dealer");
            int b = any();
            for (int i = 0; i < 2; i++)
            {
                Pt m = message();
                Words e = call(a, fmt("enc %s %d", party(a, "dme").c_str(), i) + join(k, 2) + " " + P(m));
                Words d = call(b, "dec " + party(b, "dme") + " " + k[i] + join(e));
                r.check(parse(d[0]) == m, "wrong-result", fmt("a trapdoor key does not open branch %d in another process", i));
            }
            r.probe("trapdoor_keys_across");
        }
    }
    void aggregate()
    {
        int a = any(), p = any(), br = r.pick(2);
        std::string rx = party(a, "rx");
        Words pk = call(a, fmt("select %s %d", rx.c_str(), br));
        unsigned n = 1 + r.pick(5);
        Pt sum;
        std::string all;
        for (unsigned i = 0; i < n; i++)
        {
            int b = any();
            Pt m[2] = {message(), message()};
            Words c = call(b, "answer " + party(b, "tx") + join(pk) + " " + P(m[0]) + " " + P(m[1]));
            fresh(c[0], "ciphertext");
            all += join(c);
            sum = E().add(sum, m[br]);
            if (b != a) maybe_kill(b);
        }
        Words g = call(p, "aggregate " + party(p, "px") + fmt(" %u", n) + all);
        if (p != a) maybe_kill(p);
        Words o = call(a, "open " + rx + join(g));
        r.check(parse(o[0]) == sum, "wrong-result", fmt("the aggregate of %u senders in other processes opens to another sum", n));
    }
    void vector(int i, const std::string& v) { if (h[i].vec != v) { call(i, "vector " + v); h[i].vec = v; } }
    void sealed()
    {
        int a = any(), b = any();
        std::string v = "0";
        if (r.pick(2)) { v = "16"; for (int i = 0; i < 16; i++) v += fmt(" %u", (unsigned)r.pick(256)); }
        mpz_class k = Rng(r.seed()).bits(r.pick(129)), m = 1 + Rng(r.seed()).bits(1 + r.pick(2000));
        vector(a, v);
        Words c = call(a, "seal " + k.get_str(16) + " " + m.get_str(16));
        maybe_kill(a);
        maybe_kill(b);
        vector(b, v);
        Words d = call(b, "unseal " + k.get_str(16) + " " + c[0]);
        r.check(mpz_class(d[0], 16) == m, "wrong-result", fmt("what process %d sealed opens to something else in process %d", a, b));
        if (v != "0")
        {
            // a restarted process starts with the all-zero vector
            boot(b);
            Words x = call(b, "unseal " + k.get_str(16) + " " + c[0]);
            r.check(x[0] == "0", "wrong-result", "a process with another vector opens a ciphertext");
            vector(b, v);
            x = call(b, "unseal " + k.get_str(16) + " " + c[0]);
            r.check(mpz_class(x[0], 16) == m, "wrong-result", "a restarted process does not open the ciphertext after its vector is set");
        }
    }
    void checksum()
    {
        int a = any(), b = any();
        mpz_class m = 1 + Rng(r.seed()).bits(1 + r.pick(1000));
        Words c = call(a, "append " + m.get_str(16));
        maybe_kill(b);
        Words d = call(b, "validate " + c[0]);
        r.check(d[0] == "1" && mpz_class(d[1], 16) == m, "wrong-result", "a checksum made in another process does not validate");
    }
    void sharing()
    {
        int a = any(), b = any();
        unsigned t = 1 + r.pick(6), n = t + r.pick(6);
        mpz_class s = Rng(r.seed()).bits(1 + r.pick(256)) % E().n;
        Words v = call(a, fmt("deal %u %u ", t, n) + s.get_str(16));
        maybe_kill(a);
        std::vector<unsigned> idx(n);
        for (unsigned i = 0; i < n; i++) idx[i] = i;
        std::string some;
        std::vector<poly::Sh> all;
        for (unsigned i = 0; i < t; i++)
        {
            unsigned j = i + r.pick(n - i);
            std::swap(idx[i], idx[j]);
            some += " " + v[2 * idx[i]] + " " + v[2 * idx[i] + 1];
            all.push_back(poly::Sh(mpz_class(v[2 * idx[i]], 16), mpz_class(v[2 * idx[i] + 1], 16)));
        }
        auto c = poly::interpolate(all);
        for (unsigned i = 1; i < t; i++) fresh("coef " + hex(c[i]), "sharing coefficient");
        maybe_kill(b);
        Words d = call(b, fmt("recon %u", t) + some);
        r.check(mpz_class(d[0], 16) == s, "wrong-result", fmt("shares dealt by process %d give another secret in process %d", a, b));
    }
    void puda()
    {
        int a = any();
        unsigned n = 1 + r.pick(3), sum = 0;
        std::string c = fmt("sum %u %u", n, 1 + (unsigned)r.pick(1000));
        for (unsigned i = 0; i < n; i++) { unsigned m = r.pick(30); sum += m; c += fmt(" %u", m); }
        Words d = call(a, c);
        r.check(mpz_class(d[0], 16) == sum, "wrong-result", "PUDA gives another sum");
    }
    void session()
    {
        int a = any(), b = any();
        unsigned theta = r.pick(65536), x = r.pick(3) ? r.pick(theta + 1) : r.pick(65536);
        mpz_class secret = 1 + Rng(r.seed()).bits(250);
        Pt ga = E().mul(E().g, secret), K;
        std::string S = "server", C = "client";
        unsigned kill_at = r.pick(3) == 2 ? r.pick(18) : 99, who = r.pick(2);
        auto setup = [&](int i, bool server) {
            if (server) { call(i, fmt("server %s %u ", S.c_str(), theta) + P(ga) + join(crs)); h[i].vec = "0"; K = parse(call(i, "prepare " + S)[0]); fresh(K.str(), "session value"); }
            else { vector(i, "0"); if (h[i].has.insert(C).second) call(i, "client " + C + join(crs)); call(i, "input " + C + fmt(" %u", x)); }
        };
        setup(a, true);
        setup(b, false);
        Pt got;
        for (int attempt = 0; attempt < 2; attempt++)
        {
            bool killed = false;
            for (int i = 16; i >= 1 && !killed; i--)
            {
                Words pk = call(b, fmt("start %s %d", C.c_str(), i));
                fresh(pk[0], "selection");
                Words o = call(a, fmt("round %s %d", S.c_str(), i) + join(pk));
                if (attempt == 0 && kill_at == (unsigned)i)
                {
                    boot(who ? a : b);
                    killed = true;
                    r.probe("killed_in_a_session");
                    break;
                }
                call(b, fmt("end %s %d", C.c_str(), i) + join(o));
            }
            if (killed)
            {
                // the survivor resets, the other one starts from the reference string
                if (who || a == b) setup(a, true); else { K = parse(call(a, "prepare " + S)[0]); fresh(K.str(), "session value"); }
                setup(b, false);
                continue;
            }
            Words m = call(a, "masks " + S);
            Words res = call(b, "unmask " + C + join(m));
            got = parse(res[0]);
            break;
        }
        Pt want = E().add(K, E().mul(ga, x));
        r.check((got == want) == (x <= theta), "wrong-result", fmt("a session between processes %d and %d, theta %u x %u: %s", a, b, theta, x, x <= theta ? "another value" : "the programmed value"));
        r.probe(x <= theta ? "session_within" : "session_above");
    }
};

void c26(Run& r)
{
    seam::rng_off();
    Sim::clock() = 1 + r.pick(1000000);
    Cluster c(r);
    unsigned n = 4 + r.pick(8), sessions = 0;
    for (unsigned i = 0; i < n; i++)
    {
        if (r.pick(6) == 5) c.boot(c.any());
        unsigned k = r.pick(16);
        if (k == 15 && sessions++ > 0) k = 0;
        r.sched("exchange %u", k);
        r.count("exchange." + std::to_string(k));
        switch (k)
        {
        case 1: case 2: c.stored_key(); break;
        case 3: case 4: c.sealed(); break;
        case 5: c.checksum(); break;
        case 6: case 7: c.sharing(); break;
        case 8: c.puda(); break;
        case 9: case 10: c.trapdoor(); break;
        case 11: case 12: c.aggregate(); break;
        case 15: c.session(); break;
        default: c.transfer();
        }
        r.sh->simtime = Sim::clock();
    }
}
SCENARIO(C26, c26, 60);

// ------------------------------------------------------------------------------------------------ C27
// What a family of forked processes draws. Children write into memory that all share; parents wait, so one runs at a time.
struct Board
{
    u64 used;
    char text[1 << 20];
    char cls[64], msg[400];
};
struct Family
{
    Run& r;
    Board* b;
    unsigned members = 1, children = 0;
    explicit Family(Run& run) : r(run)
    {
        b = (Board*)mmap(0, sizeof(Board), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (b == MAP_FAILED) throw Violation{"harness:mmap", "no memory"};
    }
    void add(const std::string& who, const std::vector<std::string>& v)
    {
        for (auto& s : v)
        {
            std::string l = s + "\t" + who + "\n";
            if (b->used + l.size() >= sizeof b->text) throw Violation{"harness:board", "full"};
            memcpy(b->text + b->used, l.data(), l.size());
            b->used += l.size();
        }
    }
    void judge(const char* cls)
    {
        std::map<std::string, std::string> seen;
        std::stringstream s(std::string(b->text, b->used));
        std::string l;
        while (std::getline(s, l))
        {
            size_t t = l.find('\t');
            auto at = seen.insert(std::make_pair(l.substr(0, t), l.substr(t + 1)));
            r.check(at.second, cls, l.substr(0, std::min<size_t>(t, 50)) + " appears twice: " + at.first->second + " and " + l.substr(t + 1));
        }
        r.count("secrets_compared", seen.size());
    }
    // runs f in a forked process and waits for it
    void child(int number, const std::function<void()>& f)
    {
        u64 other = r.seed() * 64 + ++children;          // never alike, whatever the choices are
        u64 gen = r.seed();
        fflush(stdout);
        if (r.trace) fflush(r.trace);
        pid_t pid = fork();
        if (pid < 0) throw Violation{"harness:fork", "fork"};
        if (pid == 0)
        {
            seam::other_process(number, other);
            r.gen = Rng(gen);
            int st = 0;
            try { f(); }
            catch (const Violation& v) { strncpy(b->cls, v.cls.c_str(), sizeof b->cls - 1); strncpy(b->msg, v.msg.c_str(), sizeof b->msg - 1); st = 3; }
            catch (const std::exception& e) { strcpy(b->cls, "uncaught-exception"); strncpy(b->msg, e.what(), sizeof b->msg - 1); st = 3; }
            fflush(stdout);
            if (r.trace) fflush(r.trace);
            _exit(st);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0 && errno == EINTR) {}
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGXCPU) throw Violation{"hang", "a forked process makes no progress"};
        if (WIFSIGNALED(st)) throw Violation{fmt("crash:signal%d", WTERMSIG(st)), "a forked process died"};
        if (WEXITSTATUS(st) == 3) throw Violation{b->cls, b->msg};
        if (WEXITSTATUS(st)) throw Violation{fmt("exit:%d", WEXITSTATUS(st)), "a forked process ended unexpectedly"};
    }
};

void work(Run& r, Family& f, const std::string& who, std::vector<Op>& ops, size_t from, size_t to, bool may_fail)
{
    for (size_t i = from; i < ops.size() && i < to; i++)
    {
        r.log("%s: %s", who.c_str(), ops[i].name.c_str());
        u64 before = seam::entropy_failures();
        try { ops[i].lib(); }
        catch (const std::exception& e)
        {
            r.check(may_fail && seam::entropy_failures() != before, "operation-failed", who + ": " + ops[i].name + ": " + e.what());
            r.probe("refused_without_entropy");
            continue;
        }
        ops[i].judge();
        std::vector<std::string> v;
        ops[i].fresh(v);
        f.add(who + ", " + ops[i].name, v);
        r.sh->steps++;
    }
}

void grow(Run& r, Family& f, Parties& P, const std::string& who, int number, int depth, std::vector<Op> ops)
{
    // some work, then children at a few points, with the rest done by everybody
    size_t at = r.pick(ops.size());
    work(r, f, who, ops, 0, at, false);
    unsigned kids = 1 + (r.pick(4) == 3);
    for (unsigned k = 0; k < kids; k++)
    {
        size_t to = at + r.pick(ops.size() - at + 1), skip = r.pick(3) == 2 ? r.pick(2) : 0;
        bool deeper = depth < 2 && r.pick(3) == 2, reuse = depth == 1 && r.pick(2), dry = r.pick(5) == 4;
        long after = r.pick(20), times = 1 + r.pick(30);
        std::string name = who + fmt(".%u", k + 1);
        int num = reuse ? 7 : 8 + f.members;                 // the process number of an ancestor that has ended may come back
        f.members++;
        r.sched("%s forks %s before %zu%s", who.c_str(), name.c_str(), at, dry ? " dry" : "");
        r.fault("fork");
        if (reuse) r.fault("process_number_reused");
        f.child(num, [&] {
            if (dry)
            {
                r.fault("no_entropy_after_fork");
                seam::entropy_fail(after, times);
                work(r, f, name, ops, at + skip, ops.size(), true);
                seam::entropy_fail(-1, 0);
                work(r, f, name + " later", ops, at + skip, ops.size(), false);
            }
            else if (deeper) grow(r, f, P, name, num, depth + 1, std::vector<Op>(ops.begin() + std::min(at + skip, ops.size() - 1), ops.end()));
            else work(r, f, name, ops, at + skip, ops.size(), false);
        });
        work(r, f, who, ops, at, to, false);
        at = to;
        if (at >= ops.size()) break;
    }
    work(r, f, who, ops, at, ops.size(), false);
}

void c27(Run& r)
{
    seam::rng_off();
    seam::other_process(7, r.seed());
    Sim::clock() = 1 + r.pick(1000000);
    Family f(r);
    Parties P(r);
    unsigned n = 2 + r.pick(7), favourite = r.pick(14), heavy = 0;
    std::vector<Op> ops;
    for (unsigned i = 0; i < n; i++)
    {
        unsigned kind = r.pick(2) ? favourite : r.pick(14);
        if (kind == 11) kind = 7;
        if ((kind == 5 || kind == 6 || kind == 12) && heavy++ > 0) kind = r.pick(5);
        ops.push_back(make_op(r, P, kind));
        r.count("op." + std::to_string(kind));
        r.sched("%s", ops.back().name.c_str());
    }
    grow(r, f, P, "p", 7, 0, ops);
    f.judge("repeated-after-fork");
}
SCENARIO(C27, c27, 60);

// ------------------------------------------------------------------------------------------------ C28
// Two processes start alike, on the same clock, and only entropy distinguishes them. While there is none, nothing may be drawn.
void c28(Run& r)
{
    seam::rng_off();
    Sim::clock() = 1 + r.pick(1000000);
    Family f(r);
    long after = r.pick(3) ? r.pick(30) : 0, times = r.pick(3) == 2 ? 1 + r.pick(3) : 1 + r.pick(60);
    unsigned n = 1 + r.pick(5), favourite = r.pick(14);
    u64 plan = r.seed();
    // the parties may have been made while there was entropy, by the process that the two are forked from
    std::unique_ptr<Parties> P;
    if (r.pick(2)) { P.reset(new Parties(r)); r.probe("parties_made_before"); }
    r.sched("entropy fails %ld times after %ld", times, after);
    for (int twin = 0; twin < 2; twin++)
        f.child(7, [&] {
            // both twins are given the same work
            r.gen = Rng(plan);
            std::string who = twin ? "second process" : "first process";
            seam::entropy_fail(after, times);
            unsigned refusals = 0;
            auto attempt = [&](const std::string& what, const std::function<void()>& g) {
                for (int k = 0;; k++)
                {
                    u64 before = seam::entropy_failures();
                    try { g(); return true; }
                    catch (const std::exception& e)
                    {
                        r.check(seam::entropy_failures() != before, "operation-failed", who + ": " + what + " fails although there is entropy: " + e.what());
                        r.probe("refused_without_entropy");
                        refusals++;
                        if (k > 70) throw Violation{"never-recovers", who + ": " + what + " still fails"};
                    }
                }
            };
            if (!P)
            {
                attempt("starting parties", [&] { P.reset(new Parties(r)); });
                for (int b = 0; b < 4; b++) { Pt p = P->base(b & 1, b >> 1); f.add(who + ", reference string", {"point " + hex(p.x)}); }
            }
            for (unsigned i = 0, heavy = 0; i < n; i++)
            {
                unsigned kind = r.pick(2) ? favourite : r.pick(14);
                if (kind == 11) kind = 7;
                if ((kind == 5 || kind == 6 || kind == 12) && heavy++ > 0) kind = r.pick(5);
                Op o = make_op(r, *P, kind);
                r.sched("%s", o.name.c_str());
                attempt(o.name, o.lib);
                o.judge();
                std::vector<std::string> v;
                o.fresh(v);
                f.add(who + ", " + o.name, v);
            }
            r.count("fault.entropy_failures", seam::entropy_failures());
            r.sched("%s: %u refusals", who.c_str(), refusals);
        });
    f.judge("predictable");
}
SCENARIO(C28, c28, 60);
} // namespace
namespace sim { void special(int argc, char** argv) { if (argc == 3 && !strcmp(argv[1], "incarnation")) { NodeProcess n; n.run(); _exit(0); } } }
