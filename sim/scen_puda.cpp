// C13 (aggregation), C14 (incomplete and mixed sets), C15 (tags and verification)
#include "net.hpp"
#include "puda.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }
typedef ecc::Curve_secp256r1 CV;

int pick_epoch(Run& r, const std::set<int>& used)
{
    for (;;)
    {
        int t;
        switch (r.pick(6))
        {
        case 0: t = 1 + r.pick(5); break;
        case 1: t = 2147483647 - (int)r.pick(3); break;
        case 2: t = -1 - (int)r.pick(5); break;
        case 3: t = (int)(0x80000000u + (unsigned)r.pick(3)); break;
        default: t = (int)(unsigned)r.pick(0xffffffffull);
        }
        if (t != 0 && !used.count(t)) return t;
    }
}
// what the sum of all values should be: mostly small, because opening a sum takes time proportional to it
unsigned pick_sum(Run& r, unsigned n, unsigned rare)
{
    if (r.pick(rare) == rare - 1) return 65535 - r.pick(2);
    switch (r.pick(8))
    {
    case 0: return 0;
    case 1: return 1 + r.pick(2);
    case 2: return 255 + r.pick(3);
    case 3: return 1u << r.pick(12);
    case 4: return r.pick(6000);
    default: return r.pick(400) + n;
    }
}
std::vector<unsigned> split(Run& r, unsigned sum, unsigned n)
{
    std::vector<unsigned> v(n, 0);
    switch (r.pick(4))
    {
    case 0: v[r.pick(n)] = sum; break;
    case 1: for (unsigned i = 0; i < n; i++) v[i] = sum / n; v[r.pick(n)] += sum % n; break;
    default:
        for (unsigned i = 0; i + 1 < n; i++) { v[i] = r.pick(sum + 1); sum -= v[i]; }
        v[n - 1] = sum;
        if (r.pick(2)) std::reverse(v.begin(), v.end());
    }
    return v;
}
WP packc(const puda::ctxt_t& c) { return put(false, c); }
template <class V> std::vector<V> shuffled(Run& r, std::vector<V> v)
{
    for (size_t i = v.size(); i > 1; i--) { size_t j = r.pick(i); V t = v[i - 1]; v[i - 1] = v[j]; v[j] = t; }
    return v;
}

// the point that blinds everything of one epoch is private: a tag under the unit key reveals it
Pt base(puda::Puda& p, int t) { return ref::of(p.Tag(puda::sk_t(0, puda::tk_t(mpz_class(1))), 0, t)); }
// every epoch has a base of its own
void epochs_differ(Run& r, puda::Puda& p, int t, const Pt& b)
{
    unsigned u = (unsigned)t;
    unsigned o[] = {u ^ (1u << r.pick(32)), u + (1u << r.pick(32)), 0u - u, u ^ 0xffff0000u, u & 0xffffu};
    unsigned k = r.pick(5);
    if (o[k] == u || o[k] == 0) k = 0;
    if (o[k] == 0) return;
    r.check(!b.inf && base(p, (int)o[k]) != b, "epochs-collide", fmt("epochs %d and %d are blinded alike", t, (int)o[k]));
}

struct Set { puda::ek_v_t ek; puda::sk_v_t sk; puda::ak_t ak; puda::vk_t vk; unsigned n; };
Set setup(puda::Puda& p, unsigned n)
{
    auto s = p.Setup(n);
    Set x;
    x.ek = std::get<0>(s);
    x.sk = std::get<1>(s);
    x.ak = std::get<2>(s);
    x.vk = std::get<3>(s);
    x.n = n;
    return x;
}

// ------------------------------------------------------------------ C13 and C15 share the collection protocol
struct Epoch { int set, t; std::vector<unsigned> m; unsigned sum; std::map<int, puda::ctxt_t> c; std::map<int, puda::tag_t> g; std::vector<int> order; bool done; };

void puda_world(Run& r, bool tags, std::function<void(puda::Puda&, const Set&, Epoch&, const puda::ctxt_v_t&, const puda::tag_v_t&)> judge)
{
    seam::rng_setup(r.seed(), r.of(std::vector<unsigned>{0, 0, 200}));
    World w(r);
    bool wire = r.pick(2);
    auto P = std::make_shared<puda::Puda>();
    CV wirecurve;
    unsigned nsets = 1 + r.pick(2), special = r.pick(16);
    bool lengthy = special == 14, resets = special == 13;      // many epochs of one setup, many setups of one object
    if (lengthy) { nsets = 1; r.probe("many_epochs"); }
    if (resets) { nsets = 6 + r.pick(20); r.probe("many_setups"); }
    int agg = w.node("aggregator", false);
    const u64 retry = 420000;
    for (unsigned k = 0; k < nsets; k++)
    {
        // setups of one object follow each other; epochs of one setup interleave freely
        unsigned n = r.pick(5) == 4 ? 1 : 1 + r.pick(6), ne = 1 + r.pick(3), finished = 0;
        if (lengthy || resets) { n = 1 + r.pick(4); ne = lengthy ? 12 + r.pick(30) : 1; }
        if (special == 15) { n = r.of(std::vector<unsigned>{16, 32, 64, 96, 100, 128, 256}) + (r.pick(3) == 2 ? (int)r.pick(3) - 1 : 0); ne = 1; nsets = 1; r.probe("many_users"); }
        Set S = setup(*P, n);
        r.check(S.ek.size() == n && S.sk.size() == n, "wrong-key-count", fmt("setup for %u users gave %zu keys", n, S.ek.size()));
        r.sched("setup %u users %u", k, n);
        std::vector<Epoch> ep(ne);
        std::set<int> used;
        for (unsigned e = 0; e < ne; e++)
        {
            ep[e].set = k;
            ep[e].t = pick_epoch(r, used);
            used.insert(ep[e].t);
            ep[e].sum = lengthy || resets ? (unsigned)r.pick(300) : pick_sum(r, n, tags ? 60 : 40);
            ep[e].m = split(r, ep[e].sum, n);
            ep[e].done = false;
            if (ep[e].sum == 65535) r.probe("sum_65535");
            if (ep[e].sum == 0) r.probe("sum_zero");
        }
        std::vector<int> user(n);
        std::set<std::pair<int, int>> acked;
        std::function<void(int, int)> contribute = [&](int i, int e) {
            if (acked.count(std::make_pair(i, e))) return;
            puda::ctxt_t c = P->Enc(S.ek[i], ep[e].m[i], ep[e].t);
            Msg m;
            m.type = 1;
            m.sess = e;
            m.round = i;
            m.att = k;
            m.pts.push_back(put(wire, c));
            if (tags) m.pts.push_back(put(wire, P->Tag(S.sk[i], ep[e].m[i], ep[e].t)));
            r.count("op.contribute");
            w.send(user[i], agg, m);
            w.timer(user[i], retry, [&, i, e] { r.count("op.retry"); contribute(i, e); });
        };
        for (unsigned i = 0; i < n; i++)
        {
            user[i] = w.node(fmt("user%u.%u", k, i));
            w.nodes[user[i]].on_msg = [&, i](int, const Msg& m) { if (m.att == (int)k) acked.insert(std::make_pair(i, m.sess)); };
            // a restarted user does not know what it already sent
            w.nodes[user[i]].on_start = [&, i] { for (unsigned e = 0; e < ne; e++) acked.erase(std::make_pair(i, e)); for (unsigned e = 0; e < ne; e++) contribute(i, e); };
        }
        w.nodes[agg].on_msg = [&](int from, const Msg& m) {
            if (m.att != (int)k) { r.probe("contribution_of_old_setup"); return; }
            Msg ack;
            ack.type = 2;
            ack.sess = m.sess;
            ack.att = k;
            w.send(agg, from, ack);
            Epoch& e = ep[m.sess];
            if (e.done) { r.probe("late_contribution"); return; }
            if (e.c.count(m.round)) { r.probe("duplicate_contribution"); return; }
            e.c[m.round] = get(m.pts[0], &wirecurve);
            if (tags) e.g[m.round] = get(m.pts[1], &wirecurve);
            e.order.push_back(m.round);
            if (e.order.size() < n) return;
            puda::ctxt_v_t cv;
            puda::tag_v_t tv;
            for (int i : e.order) { cv.push_back(e.c[i]); if (tags) tv.push_back(e.g[i]); }
            r.sched("aggregate setup %u epoch %d sum %u", k, e.t, e.sum);
            r.count("op.aggregate");
            judge(*P, S, e, cv, tv);
            e.done = true;
            finished++;
        };
        w.faults(false, true, 300000);
        w.cfg.faultend += w.sim.now;
        for (unsigned e = 0; e < ne; e++)
            for (unsigned i = 0; i < n; i++)
                w.sim.at(r.pick(100000), [&, i, e] { if (w.nodes[user[i]].up) contribute(i, e); });
        w.sim.run([&] { return finished == ne; }, w.cfg.faultend + 40 * retry);
        r.check(finished == ne, "no-progress", "an epoch was never complete after faults stopped");
        // leftovers of this setup must not reach the next one's variables
        w.sim.q = decltype(w.sim.q)();
        for (auto& nd : w.nodes) { nd.up = true; nd.on_start = nullptr; nd.on_crash = nullptr; nd.stalled = 0; }
    }
}

// how much big-number work something takes: a measure that is the same in every replay
u64 big_allocs = 0;
void* (*big_malloc)(size_t);
u64 work(std::function<void()> f)
{
    void* (*re)(void*, size_t, size_t);
    void (*fr)(void*, size_t);
    mp_get_memory_functions(&big_malloc, &re, &fr);
    big_allocs = 0;
    mp_set_memory_functions([](size_t n) { big_allocs++; return big_malloc(n); }, re, fr);
    try { f(); } catch (...) { mp_set_memory_functions(big_malloc, re, fr); throw; }
    mp_set_memory_functions(big_malloc, re, fr);
    return big_allocs;
}

// many sums of one setup, as many as the cost of opening one allows
void many_sums(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    puda::Puda P;
    Set S = setup(P, 1 + r.pick(3));
    int t = pick_epoch(r, std::set<int>());
    auto one = [&](unsigned sum) {
        puda::ctxt_v_t c;
        for (unsigned i = 0, left = sum; i < S.n; i++) { unsigned m = i + 1 < S.n ? left / 3 : left; left -= m; c.push_back(P.Enc(S.ek[i], m, t)); }
        unsigned got = P.Agg(S.ak, c, puda::tag_v_t(), t).first;
        r.check(got == sum, sum == 65535 ? "largest-sum-lost" : "wrong-sum", fmt("%u users epoch %d: aggregated %u, values sum to %u", S.n, t, got, sum));
        r.sh->steps++;
    };
    one(1);
    u64 cost = work([&] { one(1500); });
    unsigned start = r.pick(65536), step = 1 + 2 * r.pick(32768), n;
    if (cost < 100000) { n = 2000; r.probe("sums_open_quickly"); } else n = 4;
    r.sched("sums from %u step %u", start, step);
    for (unsigned i = 0; i < n; i++) one(n == 4 ? (start + i * step) % 4096 : (start + i * step) % 65536);
    r.count("op.aggregate", n);
}

void c13(Run& r)
{
    if (r.pick(10) == 9) { many_sums(r); return; }
    puda_world(r, false, [&](puda::Puda& P, const Set& S, Epoch& e, const puda::ctxt_v_t& c, const puda::tag_v_t& t) {
        unsigned got = P.Agg(S.ak, c, t, e.t).first;
        r.check(got == e.sum, e.sum == 65535 ? "largest-sum-lost" : "wrong-sum", fmt("%u users epoch %d: aggregated %u, values sum to %u", S.n, e.t, got, e.sum));
    });
}
SCENARIO(C13, c13, 120);

void c15(Run& r)
{
    puda_world(r, true, [&](puda::Puda& P, const Set& S, Epoch& e, const puda::ctxt_v_t& c, const puda::tag_v_t& t) {
        auto res = P.Agg(S.ak, c, t, e.t);
        Pt H = base(P, e.t);
        epochs_differ(r, P, e.t, H);
        mpz_class tk = 0;
        for (auto& k : S.sk) { puda::tk_t x = k.tk; tk = ref::mod(tk + x.getRawValue(), E().n); r.check(k.a == S.sk[0].a, "keys-differ", "users of one setup hold different common keys"); }
        mpz_class a = S.sk[0].a;
        Pt want = E().add(E().mul(H, tk), E().mul(E().g, ref::mod(a * e.sum, E().n)));
        r.check(ref::of(res.second) == want, "wrong-tag", fmt("%u users epoch %d sum %u: aggregate tag is not the tag of the sum", S.n, e.t, e.sum));
        puda::tk_t tks(tk);
        r.check(ref::of(P.Tag(puda::sk_t(a, tks), e.sum, e.t)) == want, "tag-of-sum", "a tag made with the combined key differs");
        r.check(ref::of(S.vk.vk_1) == E().mul(E().g, tk) && ref::of(S.vk.vk_2) == E().mul(E().g, a), "wrong-verification-key", "the verification key does not commit to the combined key");
        r.check(P.Verify(S.vk, res.first, res.second, e.t), "honest-refused", fmt("epoch %d sum %u: honest aggregate refused", e.t, e.sum));
        r.count("op.verify");
        // forgeries
        switch (r.pick(3))
        {
        case 0:
            r.fault("forged_sum");
            r.check(!P.Verify(S.vk, puda::msg_t(e.sum + 1 + r.pick(65000)), res.second, e.t), "forged-sum-accepted", "Verify accepts a sum the tag does not authenticate");
            break;
        case 1:
        {
            r.fault("forged_tag");
            puda::tag_t f = res.second + P.Tag(puda::sk_t(1, puda::tk_t(mpz_class(0))), 1 + r.pick(1000), 1);
            r.check(!P.Verify(S.vk, res.first, f, e.t), "forged-tag-accepted", "Verify accepts an altered tag");
            break;
        }
        default:
            r.fault("forged_epoch");
            r.check(!P.Verify(S.vk, res.first, res.second, e.t ^ (1 << r.pick(20))), "forged-epoch-accepted", "Verify accepts the aggregate of another epoch");
        }
    });
}
SCENARIO(C15, c15, 120);

// ------------------------------------------------------------------ C14
void c14(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    Sim::clock() = 0;
    auto P = std::make_shared<puda::Puda>();
    unsigned n = 2 + r.pick(4);
    // an earlier setup of the same object: its keys are foreign to the current one
    Set old = setup(*P, n);
    Set S = setup(*P, n);
    std::set<int> used;
    int t = pick_epoch(r, used);
    used.insert(t);
    int t2 = pick_epoch(r, used);
    std::map<int, Pt> H;
    H[t] = base(*P, t);
    H[t2] = base(*P, t2);
    epochs_differ(r, *P, t, H[t]);
    r.check(H[t] != H[t2], "epochs-collide", fmt("epochs %d and %d are blinded alike", t, t2));
    std::vector<unsigned> m(n);
    unsigned total = 0;
    for (auto& v : m) { v = 1 + r.pick(r.of(std::vector<unsigned>{3, 100, 1000})); total += v; }
    std::vector<puda::ctxt_t> good, late, foreign;
    for (unsigned i = 0; i < n; i++)
    {
        good.push_back(P->Enc(S.ek[i], m[i], t));
        late.push_back(P->Enc(S.ek[i], m[i], t2));
        foreign.push_back(P->Enc(old.ek[i], m[i], t));
    }
    auto mul = [&](const mpz_class& k) { return E().mul(E().g, k); };
    // what an aggregator that follows the protocol would open
    auto opens = [&](const puda::ctxt_v_t& c, const puda::ak_t& ak, int te, unsigned hand, const std::string& what) {
        r.sh->steps++;
        r.sched("%s", what.c_str());
        Pt s;
        for (auto& x : c) s = E().add(s, ref::of(x));
        puda::ak_t k = ak;
        s = E().add(s, E().mul(H[te], ref::mod(k.getRawValue(), E().n)));
        r.check(s != mul(hand) && s != mul(total), "sum-revealed", fmt("%s: %u users, the sum at hand (%u) or the total (%u) is revealed", what.c_str(), n, hand, total));
        r.count("sets_judged");
    };
    auto lib = [&](const puda::ctxt_v_t& c, const puda::ak_t& ak, int te, unsigned hand, const std::string& what) {
        opens(c, ak, te, hand, what);
        unsigned got = P->Agg(ak, c, puda::tag_v_t(), te).first;
        r.count("op.aggregate");
        r.check(got != hand && got != total, "sum-revealed", fmt("%s: %u users, aggregation gives %u (at hand %u, total %u)", what.c_str(), n, got, hand, total));
    };
    unsigned chosen = r.pick(28);           // opening an unrelated point is slow: the library does it in one run of four
    auto go = [&](unsigned kind, bool full) {
        puda::ctxt_v_t c = good;
        puda::ak_t ak = S.ak;
        int te = t;
        unsigned hand = total, i = r.pick(n), j = r.pick(n - 1);
        if (j >= i) j++;
        std::string what;
        switch (kind)
        {
        case 0: c.erase(c.begin() + i); hand -= m[i]; what = fmt("contribution of user %u missing", i); r.fault("contribution_lost"); break;
        case 1: c.push_back(good[i]); hand += m[i]; what = fmt("user %u counted twice", i); r.fault("contribution_duplicated"); break;
        case 2: c[j] = good[i]; hand += m[i] - m[j]; what = fmt("user %u in place of user %u", i, j); r.fault("contribution_replaced"); break;
        case 3: c[i] = late[i]; what = fmt("user %u sent another epoch", i); r.fault("epoch_mixed"); break;
        case 4: c[i] = foreign[i]; what = fmt("user %u used the key of another setup", i); r.fault("foreign_key"); break;
        case 5: ak = old.ak; what = "aggregator key of another setup"; r.fault("foreign_aggregator_key"); break;
        default: te = t2; what = "aggregated for another epoch"; r.fault("epoch_mixed");
        }
        c = shuffled(r, c);
        if (full) lib(c, ak, te, hand, what);
        else opens(c, ak, te, hand, what);
    };
    for (unsigned k = 0; k < 7; k++) go(k, k == chosen);
    // one ciphertext alone, with and without the aggregator key
    unsigned i = r.pick(n);
    opens({good[i]}, S.ak, t, m[i], "single ciphertext");
    opens({good[i]}, puda::ak_t(mpz_class(0)), t, m[i], "single ciphertext without a key");
    for (unsigned a = 0; a < n; a++)
        for (unsigned b = a + 1; b < n; b++)
            r.check(E().sub(ref::of(good[a]), ref::of(good[b])) != E().sub(mul(m[a]), mul(m[b])), "shared-blinding", fmt("users %u and %u blind with the same key", a, b));
    for (unsigned a = 0; a < n; a++)
        r.check(E().sub(ref::of(good[a]), ref::of(late[a])) != Pt(), "shared-blinding", fmt("user %u blinds two epochs alike", a));
    // one user's ciphertexts of several epochs, combined with small factors, without any key
    {
        r.fault("epochs_combined");
        int k = 2 + r.pick(3), te = 1 + r.pick(1000);
        std::string what;
        Pt c1 = ref::of(P->Enc(S.ek[i], m[i], te)), d;
        mpz_class v;
        if (r.pick(2)) { d = E().sub(ref::of(P->Enc(S.ek[i], m[i], k * te)), E().mul(c1, k)); v = ref::mod(mpz_class(m[i]) - k * m[i], E().n); what = fmt("epochs %d and %d", te, k * te); }
        else
        {
            Pt c2 = ref::of(P->Enc(S.ek[i], m[i], te + k)), c3 = ref::of(P->Enc(S.ek[i], m[i], 2 * te + k));
            d = E().sub(E().add(c1, c2), c3);
            v = m[i];
            what = fmt("epochs %d, %d and %d", te, te + k, 2 * te + k);
        }
        r.check(d != mul(v), "epochs-combine", fmt("user %u: the ciphertexts of %s combine to its value", i, what.c_str()));
    }
    // the complete set still opens
    if (total < 3000 && r.pick(3) == 2)
    {
        unsigned got = P->Agg(S.ak, shuffled(r, good), puda::tag_v_t(), t).first;
        r.check(got == total, "complete-set-lost", fmt("complete set gives %u, not %u", got, total));
        r.probe("complete_set_opened");
    }
}
SCENARIO(C14, c14, 120);
} // namespace
