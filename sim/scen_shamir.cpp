// C11 (availability of Shamir shares under crashes and storage loss), C12 (confidentiality below the threshold)
#include "net.hpp"
#include "separate.hpp"
#include "shamirss.hpp"
#include "poly.hpp"

using namespace sim;

namespace
{
const mpz_class& N() { return ref::p256().n; }
mpz_class pick_secret(Run& r)
{
    switch (r.pick(6))
    {
    case 0: return r.pick(3);
    case 1: return N() - 1 - (long)r.pick(2);
    case 2: return mpz_class(1) << (unsigned)r.pick(255);
    default: { Rng g(r.seed()); return ref::mod(g.bits(300), N()); }
    }
}
using poly::Sh;
using poly::interpolate;
Sh raw(const sss::share_t& s) { sss::share_t c = s; return Sh(c.idx.getRawValue(), c.val.getRawValue()); }
sss::share_t lib(const Sh& s) { return sss::share_t(sss::FIELD(s.first), sss::FIELD(s.second)); }

struct Deal { unsigned t, n; mpz_class secret; std::vector<Sh> sh; bool done, lost; std::map<int, std::set<int>> at; };

// a large population of holders of which most are down
void crowd(Run& r)
{
    unsigned n = r.of(std::vector<unsigned>{255, 256, 257, 260, 300, 513, 1100}) + r.pick(5), t = 1 + r.pick(r.pick(3) == 2 ? r.pick(2) ? 130 : 20 : 4);
    if (r.pick(12) == 11) { n = 65530 + r.pick(12); t = 1 + r.pick(3); }
    mpz_class secret = pick_secret(r);
    sss::ShamirSS s;
    sss::share_v_t v = s.getShares(t, n, sss::FIELD(secret));
    r.check(v.size() == n, "wrong-share-count", fmt("asked for %u shares, got %zu", n, v.size()));
    r.sched("crowd t%u n%u", t, n);
    r.probe("hundreds_of_shares");
    std::vector<Sh> all;
    std::set<mpz_class> ids;
    for (auto& x : v) all.push_back(raw(x));
    for (auto& x : all) r.check(x.first != 0 && ids.insert(x.first).second, "bad-index", "two shares share an index, or an index is zero");
    for (unsigned k = 0; k < 12; k++)
    {
        r.sh->steps++;
        r.fault("holders_down");
        std::set<unsigned> up;
        unsigned want = std::min(n, t + (unsigned)r.pick(3));
        unsigned lo = r.pick(3) == 2 ? n - std::min(n, want + 20) : 0;
        while (up.size() < want) up.insert(r.pick(4) == 3 ? std::min(n - 1, n > 60000 && r.pick(2) ? 65533u + (unsigned)r.pick(8) : 255u * (1 + (unsigned)r.pick(4)) + (unsigned)r.pick(3)) : lo + r.pick(n - lo));
        sss::share_v_t some;
        for (unsigned i : up) some.push_back(lib(all[i]));
        for (size_t i = some.size(); i > 1; i--) std::swap(some[i - 1].idx, some[i - 1].idx);
        if (r.pick(2)) std::reverse(some.begin(), some.end());
        mpz_class got = s.reconSecret(some).getRawValue();
        r.count("op.reconstruct");
        r.check(got == secret, "wrong-secret", fmt("t %u n %u from %zu shares of a crowd: got %s want %s", t, n, some.size(), hex(got).c_str(), hex(secret).c_str()));
    }
}

// one dealer and one joiner in service for a long time: dealings of changing sizes, reconstructed now or much later
void service(Run& r)
{
    r.probe("long_service");
    sss::ShamirSS dealer, joiner;
    struct Old { mpz_class secret; unsigned t; std::vector<Sh> sh; };
    std::vector<Old> kept;
    unsigned n = 60 + r.pick(r.pick(3) == 2 ? 1500 : 300), top = 2 + r.pick(5);
    Rng g(r.seed());
    for (unsigned k = 0; k < n; k++)
    {
        r.sh->steps++;
        Old o;
        o.t = 1 + g.below(top);
        o.secret = g.below(5) ? ref::mod(g.bits(300), N()) : kept.size() && g.below(2) ? kept.back().secret : mpz_class((unsigned long)g.below(3));
        sss::share_v_t v = dealer.getShares(o.t, o.t + g.below(4), sss::FIELD(o.secret));
        for (auto& s : v) o.sh.push_back(raw(s));
        std::set<mpz_class> ids;
        for (auto& s : o.sh) r.check(s.first != 0 && ids.insert(s.first).second, "bad-index", fmt("dealing %u: two shares share an index, or an index is zero", k));
        if (kept.size() < 8) kept.push_back(o); else kept[g.below(8)] = o;
        r.count("op.deal");
        for (unsigned j = 0; j < 2; j++)
        {
            Old& e = j ? kept[g.below(kept.size())] : kept.back();
            if (j && g.below(2)) continue;
            std::vector<Sh> p = e.sh;
            for (size_t i = p.size(); i > 1; i--) std::swap(p[i - 1], p[g.below(i)]);
            p.resize(e.t + g.below(p.size() - e.t + 1));
            sss::share_v_t w;
            for (auto& s : p) w.push_back(lib(s));
            mpz_class got = (g.below(4) ? joiner : dealer).reconSecret(w).getRawValue();
            r.count("op.reconstruct");
            r.check(got == e.secret, "wrong-secret", fmt("operation %u of one dealer: t %u from %zu of %zu shares: got %s want %s", k, e.t, p.size(), e.sh.size(), hex(got).c_str(), hex(e.secret).c_str()));
        }
    }
    r.sched("%u dealings", n);
}

void c11(Run& r)
{
    seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 0, 300}));
    unsigned special = r.pick(150);
    if (special == 149) { crowd(r); return; }
    if (special == 148) { service(r); return; }
    World w(r);
    unsigned nh = 3 + r.pick(8), nd = 1 + r.pick(4);
    std::vector<Deal> deals;
    struct Holder { int node; std::map<int, std::vector<Sh>> disk; };        // storage survives crashes
    std::vector<Holder> h(nh);
    std::shared_ptr<sss::ShamirSS> dealer = std::make_shared<sss::ShamirSS>(), joiner = std::make_shared<sss::ShamirSS>();
    int col = w.node("collector", false);
    struct Coll { std::vector<Sh> got; bool asked; };
    std::vector<Coll> coll(nd);
    unsigned finished = 0;
    const u64 retry = 430000;
    for (unsigned i = 0; i < nh; i++)
    {
        h[i].node = w.node(fmt("holder%u", i));
        w.nodes[h[i].node].on_msg = [&, i](int from, const Msg& m) {
            auto it = h[i].disk.find(m.sess);
            if (it == h[i].disk.end()) return;
            for (auto& s : it->second)
            {
                Msg a;
                a.type = 2;
                a.sess = m.sess;
                a.nums = {s.first, s.second};
                w.send(h[i].node, from, a);
            }
        };
        w.nodes[h[i].node].on_crash = [&, i] {
            if (r.pick(4) == 3)
            {
                // the disk is lost as well, unless a dealing could then never be reconstructed
                for (auto& e : h[i].disk)
                {
                    std::set<mpz_class> left;
                    for (unsigned k = 0; k < nh; k++) if (k != i && h[k].disk.count(e.first)) for (auto& s : h[k].disk[e.first]) left.insert(s.first);
                    if (left.size() < deals[e.first].t) return;
                }
                h[i].disk.clear();
                r.fault("disk_lost");
            }
        };
    }
    auto deal = [&](int k) {
        Deal d;
        d.n = 1 + r.pick(nh + 2);
        d.t = r.pick(4) == 3 ? (r.pick(2) ? 1 : d.n) : 1 + r.pick(d.n);
        d.secret = pick_secret(r);
        d.done = d.lost = false;
        if (r.pick(4) == 3) dealer = std::make_shared<sss::ShamirSS>();
        sss::share_v_t v = dealer->getShares(d.t, d.n, sss::FIELD(d.secret));
        r.sched("deal %d t%u n%u", k, d.t, d.n);
        r.check(v.size() == d.n, "wrong-share-count", fmt("asked for %u shares, got %zu", d.n, v.size()));
        for (auto& s : v) d.sh.push_back(raw(s));
        std::set<mpz_class> ids;
        for (auto& s : d.sh) r.check(s.first != 0 && ids.insert(s.first).second, "bad-index", "two shares share an index, or an index is zero");
        deals.push_back(d);
        r.count("op.deal");
        for (unsigned i = 0; i < d.n; i++) h[i % nh].disk[k].push_back(d.sh[i]);
    };
    std::function<void(int)> gather = [&](int k) {
        if (deals[k].done) return;
        std::vector<unsigned> order;
        for (unsigned i = 0; i < nh; i++) order.push_back(i);
        for (unsigned i = nh - 1; i > 0; i--) std::swap(order[i], order[r.pick(i + 1)]);
        for (unsigned i : order) { Msg m; m.type = 1; m.sess = k; w.send(col, h[i].node, m); }
        w.timer(col, retry, [&, k] { gather(k); });
    };
    w.nodes[col].on_msg = [&](int, const Msg& m) {
        Deal& d = deals[m.sess];
        if (d.done) { r.probe("late_share"); return; }
        Coll& c = coll[m.sess];
        Sh s(m.nums[0], m.nums[1]);
        bool dup = false;
        for (auto& e : c.got) dup |= e.first == s.first;
        if (dup && r.pick(2)) return;
        if (dup) r.probe("duplicate_share_kept");
        c.got.push_back(s);
        std::set<mpz_class> ids;
        for (auto& e : c.got) ids.insert(e.first);
        if (ids.size() < d.t) return;
        if (ids.size() < d.n && r.pick(3) == 2) return;                // sometimes wait for more than needed
        sss::share_v_t v;
        for (auto& e : c.got) v.push_back(lib(e));
        if (r.pick(2)) for (size_t i = v.size() - 1; i > 0; i--) { size_t j = r.pick(i + 1); sss::share_t t = v[i]; v[i] = v[j]; v[j] = t; }
        if (r.pick(4) == 3) joiner = std::make_shared<sss::ShamirSS>();
        sss::ShamirSS& who = r.pick(3) == 2 ? *dealer : *joiner;
        mpz_class got = who.reconSecret(v).getRawValue();
        r.count("op.reconstruct");
        r.sched("reconstruct %d from %zu of %u (%zu distinct)", m.sess, v.size(), d.n, ids.size());
        if (ids.size() == d.t) r.probe("exactly_threshold");
        if (ids.size() > d.t) r.probe("more_than_threshold");
        r.check(got == d.secret, ids.size() < v.size() ? "wrong-secret-with-duplicates" : "wrong-secret",
                fmt("t %u n %u from %zu shares (%zu distinct): got %s want %s", d.t, d.n, v.size(), ids.size(), hex(got).c_str(), hex(d.secret).c_str()));
        d.done = true;
        finished++;
        if (r.pick(2) && finished < nd) return;
    };
    w.faults(false, true, 400000);
    if (w.cfg.crash) w.cfg.crash *= 2;
    for (unsigned k = 0; k < nd; k++)
    {
        coll[k].asked = false;
        if (k == 0 || r.pick(2)) { deal(k); gather(k); }
        else
        {
            // dealings in between: run the world for a while first
            u64 until = w.sim.now + r.pick(300000);
            w.sim.run([&] { return false; }, until);
            deal(k);
            gather(k);
        }
    }
    w.sim.run([&] { return finished == nd; }, w.cfg.faultend + 60 * retry);
    // a holder that answered only while faults flowed may have lost its disk, but never below the threshold
    r.check(finished == nd, "no-progress", fmt("%u of %u secrets reconstructed", finished, nd));
}
SCENARIO(C11, c11, 60);

void c12(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    Sim::clock() = 0;
    unsigned nd = 2 + r.pick(6), nodes = 1 + r.pick(3);
    bool lengthy = r.pick(120) == 119;                 // one dealer in service for long
    if (lengthy) { nd = 40 + r.pick(r.pick(3) == 2 ? 400 : 80); nodes = 1; r.probe("long_service"); }
    std::vector<std::shared_ptr<sss::ShamirSS>> d;
    for (unsigned i = 0; i < nodes; i++) d.push_back(std::make_shared<sss::ShamirSS>());
    std::map<mpz_class, std::string> seen;
    unsigned ncoef = 0, high = 0;
    const mpz_class small = mpz_class(1) << 192;
    for (unsigned k = 0; k < nd; k++)
    {
        Sim::clock() += 1 + r.pick(1000000);
        r.sh->simtime = Sim::clock();
        r.sh->steps++;
        unsigned i = r.pick(nodes);
        if (r.pick(lengthy ? 60 : 4) == (lengthy ? 59 : 3)) { d[i] = std::make_shared<sss::ShamirSS>(); r.fault("dealer_restart"); }
        unsigned t = lengthy ? 2 + r.pick(3) : 1 + r.pick(r.pick(3) == 2 ? r.pick(150) == 149 ? 90 : 16 : 6), n = t + r.pick(4);
        mpz_class secret = pick_secret(r);
        sss::ShamirSS before(*d[i]);
        std::vector<mpz_class> drawn;
        seam::record(&drawn);
        sss::share_v_t v = d[i]->getShares(t, n, sss::FIELD(secret));
        seam::record(0);
        r.count("op.deal");
        r.sched("deal node%u t%u n%u", i, t, n);
        std::vector<Sh> all;
        for (auto& s : v) all.push_back(raw(s));
        r.check(all.size() == n, "wrong-share-count", "number of shares");
        std::vector<mpz_class> c = interpolate(all);
        for (unsigned j = t; j < n; j++) r.check(c[j] == 0, "degree-too-high", fmt("t %u: coefficient %u is not zero, so t shares do not suffice", t, j));
        r.check(c[0] == secret, "wrong-constant-term", "the shares do not encode the secret");
        for (unsigned j = 1; j < t; j++)
        {
            std::string name = fmt("dealing %u coefficient %u", k, j);
            r.check(c[j] != 0, "degree-too-low", name + " is zero: fewer than t shares suffice");
            r.check(c[j] >= small && c[j] < N() , "coefficient-guessable", name + " is not a draw from the whole field: " + hex(c[j]));
            r.check(c[j] != secret && c[j] != ref::mod(-secret, N()), "coefficient-reveals-secret", name + " equals the secret");
            auto it = seen.find(c[j]);
            r.check(it == seen.end(), "coefficient-reused", name + " repeats " + (it == seen.end() ? "" : it->second));
            seen[c[j]] = name;
            seen[ref::mod(-c[j], N())] = name;
            for (unsigned m = 1; m < j; m++)
            {
                mpz_class s = ref::mod(c[j] - c[m], N());
                r.check(s >= small && s <= N() - small, "coefficients-related", name + fmt(" is close to coefficient %u", m));
            }
            ncoef++;
            if (mpz_tstbit(c[j].get_mpz_t(), 255)) high++;
        }
        if (t > 1 && t < 8 && r.pick(6) == 5)
        {
            // the coefficients are draws of their own
            std::vector<mpz_class> seen(c.begin() + 1, c.begin() + t);
            Separation<mpz_class> s;
            s.run(r, drawn, [&] {
                sss::ShamirSS x(before);
                std::vector<Sh> q;
                for (auto& e : x.getShares(t, t, sss::FIELD(secret))) q.push_back(raw(e));
                std::vector<mpz_class> y = interpolate(q);
                return std::vector<mpz_class>(y.begin() + 1, y.end());
            }, seen, 60);
            s.check(r, "coefficient", [](size_t k) { return fmt("coefficient %zu", k + 1); });
        }
        // an attacker below the threshold
        if (t > 1)
        {
            unsigned loss = 1 + r.pick(t - 1);
            r.fault("shares_leaked");
            sss::share_v_t some;
            std::vector<unsigned> idx;
            for (unsigned j = 0; j < n; j++) idx.push_back(j);
            for (unsigned j = n - 1; j > 0; j--) std::swap(idx[j], idx[r.pick(j + 1)]);
            for (unsigned j = 0; j < loss; j++) some.push_back(lib(all[idx[j]]));
            mpz_class got = d[i]->reconSecret(some).getRawValue();
            r.check(got != secret, "secret-from-too-few", fmt("t %u: %u shares reconstruct the secret", t, loss));
            for (unsigned j = 0; j < n; j++) r.check(t == 1 || all[j].second != secret, "share-is-secret", "a share equals the secret");
        }
    }
    if (ncoef >= 64) { r.probe("enough_coefficients"); r.check(high > 0, "coefficient-guessable", fmt("none of %u coefficients uses the upper half of the field", ncoef)); }
    r.count("coefficients", ncoef);
}
SCENARIO(C12, c12, 30);
} // namespace
