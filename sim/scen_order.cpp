// C22: where the client's key fits in a round of the OPPRF says nothing about the comparison and cannot be predicted
#include "net.hpp"
#include "proc.hpp"
#include "opprf.hpp"
#include "utilities.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

// a client that notes at which position its key fits
struct Peek
{
    ot::OTrecv rx;
    aes::AES aes;
    mpz_class key;
    unsigned x;
    std::vector<mpz_class> seen;              // what the three positions held, the last time
    Peek(const dme::crs_ddh_t& crs, unsigned x) : rx(crs), x(x) {}
    dme::branch_t bit(unsigned round) { return dme::branch_t(x >> (round - 1) & 1); }
    void first(opprf::OPPRFserver& s)
    {
        dme::pkey_t pk = rx.selectMsg(bit(16));
        key = rx.decryptMsgDecode(s.runOTRound(16, pk).ctxt[0]);
    }
    // one answer for this round; -1 when no position fits, -2 when several do
    int round(opprf::OPPRFserver& s, unsigned round, bool advance)
    {
        dme::pkey_t pk = rx.selectMsg(bit(round));
        opprf::ot_ctxts_t c = s.runOTRound(round, pk);
        int at = -1;
        mpz_class next;
        seen.clear();
        for (int i = 0; i < 3; i++)
        {
            seen.push_back(rx.decryptMsgDecode(c.ctxt[i]));
            mpz_class t = aes.decryptCRC(key, seen.back());
            if (t == 0) continue;
            if (at >= 0) return -2;
            at = i;
            next = t;
        }
        if (advance) key = next;
        return at;
    }
    int masks(opprf::OPPRFserver& s)
    {
        opprf::symctxt_t m = s.sendEncryptedMasks();
        int at = -1;
        seen.assign(m.begin(), m.end());
        for (int i = 0; i < 3; i++)
        {
            if (aes.decryptCRC(key, m[i]) == 0) continue;
            if (at >= 0) return -2;
            at = i;
        }
        return at;
    }
};
// the orders in which the same things arrived
struct Orders
{
    std::map<mpz_class, unsigned> times;
    std::vector<std::vector<mpz_class>> all;
    void see(const std::vector<mpz_class>& v) { for (auto& x : v) times[x]++; all.push_back(v); }
    // number of different orders; things that come only once count as one kind. 0: the things cannot be told apart
    unsigned count()
    {
        std::map<mpz_class, int> kind;
        for (auto& t : times) if (t.second > 1) { int n = kind.size(); kind[t.first] = n; }
        if (kind.size() < 2 || kind.size() > 3) return 0;
        std::set<std::string> o;
        for (auto& v : all)
        {
            std::string k;
            for (auto& x : v) k += kind.count(x) ? char('a' + kind[x]) : 'z';
            o.insert(k);
        }
        return o.size();
    }
};
struct Server
{
    CURVE curve;
    opprf::OPPRFserver s;
    POINT g;
    Server(unsigned theta, const dme::crs_ddh_t& crs) : s(theta, crs)
    {
        Pt a = E().mul(E().g, 987654321);
        g = POINT(a.x, a.y, &curve);
        s.setSecret(g);
    }
};

// a life of one server process: the positions of a session and of many masks
void incarnation(const char* plan)
{
    unsigned theta = 0, x = 0, sessions = 1;
    sscanf(plan, "%u:%u:%u", &theta, &x, &sessions);
    dme::DME_DDH d;
    Server sv(theta, d.crs);
    std::string line;
    for (unsigned k = 0; k < sessions; k++)
    {
        sv.s.clean();
        sv.s.prepareKeysAndInputs();
        Peek c(d.crs, x);
        c.first(sv.s);
        for (unsigned i = 15; i >= 1; i--) line += "?012"[1 + std::max(-1, c.round(sv.s, i, true))];
        for (int i = 0; i < 24; i++) line += "?012"[1 + std::max(-1, c.masks(sv.s))];
    }
    printf("%s\n", line.c_str());
}

void c22(Run& r)
{
    Sim::clock() = 1 + r.pick(1000000);
    unsigned theta, x;
    switch (r.pick(5))
    {
    case 0: theta = r.pick(65536); break;
    case 1: theta = 0; break;
    case 2: theta = 65535; break;
    case 3: theta = 1u << r.pick(16); break;
    default: theta = (1u << r.pick(16)) - 1;
    }
    unsigned agree = r.pick(17);                       // this many leading bits agree
    x = agree == 16 ? theta : ((theta ^ (0x8000u >> agree)) & ~((0x8000u >> agree) - 1)) | (r.pick(65536) & ((0x8000u >> agree) - 1));
    bool shipped = r.pick(3) == 2;
    r.sched("theta %u x %u", theta, x);
    if (r.pick(3) == 2)
    {
        Lives l = two_lives(r);
        std::vector<std::string> a = launch(fmt("%u:%u:%u", theta, x, 1 + (unsigned)r.pick(2)), l.e1, l.c1), b = launch(fmt("%u:%u:%u", theta, x, 1 + (unsigned)r.pick(2)), l.e2, l.c2);
        if (a.empty() || b.empty()) throw Violation{"incarnation-died", "a fresh process printed nothing"};
        r.log("before %s after %s", a[0].c_str(), b[0].c_str());
        r.sched("%s %s", a[0].c_str(), b[0].c_str());
        size_t n = std::min(a[0].size(), b[0].size());
        r.check(a[0].substr(0, n) != b[0].substr(0, n), "order-repeats-after-restart", fmt("all %zu positions of a session are the same before and after a process restart: %s", n, b[0].substr(0, n).c_str()));
        return;
    }
    if (shipped) { seam::rng_off(); r.probe("generators_as_shipped"); } else seam::rng_setup(r.seed(), 0);
    dme::DME_DDH d;
    unsigned nsrv = 1 + r.pick(2);
    std::vector<std::shared_ptr<Server>> sv;
    for (unsigned i = 0; i < nsrv; i++) sv.push_back(std::make_shared<Server>(theta, d.crs));
    unsigned sessions = 2 + r.pick(2);
    std::set<unsigned> watch;
    for (unsigned i = 0, m = 2 + r.pick(4); i < m; i++) watch.insert(1 + r.pick(15));
    bool count_masks = r.pick(2);
    std::vector<std::string> seqs;
    std::vector<std::pair<bool, std::string>> flat;    // was the position the same in every round?
    unsigned masks[3] = {0, 0, 0};
    auto see = [&](int at, const char* what, unsigned round) {
        r.check(at >= 0, at == -2 ? "several-fit" : "none-fits", fmt("%s %u: %s of the three ciphertexts opens with the client's key", what, round, at == -2 ? "more than one" : "none"));
        return at;
    };
    bool above = x > theta;
    for (unsigned k = 0; k < sessions; k++)
    {
        opprf::OPPRFserver& s = sv[k % nsrv]->s;
        if (r.pick(2)) { s.clean(); r.fault("server_reset"); }
        s.prepareKeysAndInputs();
        Peek c(d.crs, x);
        c.first(s);
        std::string seq;
        for (unsigned i = 15; i >= 1; i--)
        {
            if (k == 0 && watch.count(i))
            {
                // the same round answered over and over (the request is re-sent): every position and every order
                // occurs. A few answers tell; what looks wrong is looked at longer
                unsigned n[3] = {0, 0, 0}, times = 0, kinds = 0;
                Orders orders;
                for (unsigned upto : {9u, 80u})
                {
                    for (; times < upto; times++) { n[see(c.round(s, i, false), "round", i)]++; orders.see(c.seen); }
                    kinds = orders.count();
                    if (n[0] && n[1] && n[2] && (kinds == 0 || kinds > 3)) break;
                }
                if (times > 9) r.probe("order_looked_at_longer");
                for (int q = 0; q < 3; q++)
                    r.check(n[q] > 0, "position-fixed", fmt("round %u answered %u times: the client's key never fits at position %d (%u %u %u)", i, times, q, n[0], n[1], n[2]));
                r.check(kinds == 0 || kinds > (times > 60 ? 4 : 3), "orders-missing", fmt("round %u answered %u times: its three ciphertexts arrive in %u of six orders only", i, times, kinds));
                if (kinds) r.probe("orders_told_apart");
                r.fault("request_resent");
                r.count("positions", times);
            }
            if (k && !r.pick(4)) { see(c.round(s, i, false), "round", i); r.fault("request_resent"); }
            seq += '0' + see(c.round(s, i, true), "round", i);
            r.count("positions");
        }
        Sim::clock() += r.pick(2000000);
        r.sh->simtime = Sim::clock();
        r.sh->steps++;
        Orders orders;
        for (unsigned j = 0; j < (k == 0 && count_masks ? 160u : 4u); j++)
        {
            // a client above the threshold holds the key of the decoy mask
            int at = see(c.masks(s), "masks", 0);
            if (k == 0) masks[at]++; else seq += '0' + at;
            if (k == 0 && count_masks) orders.see(c.seen);
            r.count("positions");
        }
        unsigned kinds = k == 0 && count_masks ? orders.count() : 0;
        r.check(kinds == 0 || kinds == 6, "orders-missing", fmt("160 mask messages: the three masks arrive in %u of six orders only", kinds));
        r.log("session %u: %s", k, seq.c_str());
        std::string rounds = seq.substr(0, 15);
        for (auto& o : seqs) r.check(o.substr(0, 15) != rounds, "order-repeats", "two sessions have the same position in all 15 rounds: " + rounds);
        flat.push_back(std::make_pair(rounds == std::string(15, rounds[0]), rounds));
        seqs.push_back(seq);
    }
    for (int q = 0; q < 3 && count_masks; q++)
        r.check(masks[q] >= 18 && masks[q] <= 95, "mask-position-biased", fmt("160 mask messages, client %s the threshold: positions %u %u %u", above ? "above" : "not above", masks[0], masks[1], masks[2]));
    r.check(!flat[0].first || !flat[1].first, "position-constant", "the client's key fits at one position in every round of a session: " + flat[0].second + ", " + flat[1].second);
}
SCENARIO(C22, c22, 120);
} // namespace
namespace sim { void special(int argc, char** argv) { if (argc == 3 && !strcmp(argv[1], "incarnation")) { incarnation(argv[2]); fflush(stdout); _exit(0); } } }
