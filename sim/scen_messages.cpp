// C18: nodes suppress duplicates of protocol messages by comparing them, over a duplicating and damaging network
#include "net.hpp"
#include "dme.hpp"

using namespace sim;
using ref::Pt;

namespace
{
const ref::Curve& E() { return ref::p256(); }

// what a message says, independent of how the library represents it
struct Content
{
    std::vector<Pt> p;
    std::vector<mpz_class> n;
    bool operator==(const Content& o) const { return p == o.p && n == o.n; }
};
const unsigned NK = 7;
const char* KIND[NK] = {"ctxt", "pkey", "keypair", "crs", "td_messy", "td_dec", "point"};
const unsigned NP[NK] = {2, 2, 2, 4, 0, 0, 1}, NN[NK] = {0, 0, 1, 0, 2, 1, 0};

bool computed = false;          // the same content as the result of arithmetic instead of from coordinates
POINT mk(const Pt& p, CURVE* c)
{
    if (computed && (p.inf || E().on(p)))
    {
        Pt q = E().add(p, E().g);
        return (q.inf ? POINT() : POINT(q.x, q.y, c)) - POINT(E().g.x, E().g.y, c);
    }
    return p.inf ? POINT() : POINT(p.x, p.y, c);
}
dme::FIELD_n sc(const mpz_class& v) { return dme::FIELD_n(v); }
dme::ctxt_t mk_ctxt(const Content& x, CURVE* c) { return dme::ctxt_t(mk(x.p[0], c), mk(x.p[1], c)); }
dme::pkey_t mk_pkey(const Content& x, CURVE* c) { return dme::pkey_t(mk(x.p[0], c), mk(x.p[1], c)); }
dme::keypair_t mk_pair(const Content& x, CURVE* c) { return dme::keypair_t(mk_pkey(x, c), sc(x.n[0])); }
dme::crs_ddh_t mk_crs(const Content& x, CURVE* c) { return dme::crs_ddh_t(mk(x.p[0], c), mk(x.p[1], c), mk(x.p[2], c), mk(x.p[3], c)); }
dme::td_messy_ddh_t mk_tdm(const Content& x, CURVE*) { return dme::td_messy_ddh_t(sc(x.n[0]), sc(x.n[1])); }
dme::td_dec_ddh_t mk_tdd(const Content& x, CURVE*) { return dme::td_dec_ddh_t(sc(x.n[0])); }
POINT mk_pt(const Content& x, CURVE* c) { return mk(x.p[0], c); }

Content mutate(Run& r, const Content& a)
{
    Content c = a;
    unsigned k = r.pick(c.p.size() + c.n.size());
    if (k < c.p.size())
    {
        Pt& q = c.p[k];
        switch (r.pick(8))
        {
        case 0: q = E().neg(q); break;                                  // same abscissa
        case 1: q = Pt(); break;
        case 2: q = E().add(q, E().g); break;
        case 3: std::swap(c.p[k], c.p[r.pick(c.p.size())]); break;
        case 4: q = c.p[r.pick(c.p.size())]; break;
        case 5: if (!q.inf) { q.x = ref::mod(E().p - q.x, E().p); } break;   // damaged: another abscissa, same ordinate, off the curve
        case 6: if (!q.inf) mpz_combit((r.pick(2) ? q.x : q.y).get_mpz_t(), r.pick(255)); if (!q.inf) { q.x = ref::mod(q.x, E().p); q.y = ref::mod(q.y, E().p); } break;
        default: q = r.pick(2) ? Pt(0, 0) : E().g;
        }
    }
    else
    {
        mpz_class& v = c.n[k - c.p.size()];
        switch (r.pick(6))
        {
        case 0: v = ref::mod(-v, E().n); break;
        case 1: v = ref::mod(v + 1, E().n); break;
        case 2: v = 0; break;
        case 3: std::swap(v, c.n[r.pick(c.n.size())]); break;
        case 4: mpz_combit(v.get_mpz_t(), r.pick(256)); v = ref::mod(v, E().n); break;
        default: v = E().n - 1;
        }
    }
    return c;
}

struct Inbox                                 // one node's store of accepted messages of one kind
{
    std::vector<Content> truth;
    std::function<int(const Content&, CURVE*)> find;     // index of an equal stored message, or -1
    std::function<void(const Content&, CURVE*)> keep;
    std::function<bool(size_t, const Content&, CURVE*, bool)> eq;
};
template <class T> Inbox inbox(T (*mkf)(const Content&, CURVE*))
{
    Inbox b;
    auto v = std::make_shared<std::vector<T>>();
    b.find = [v, mkf](const Content& c, CURVE* cv) {
        T m = mkf(c, cv);
        auto it = std::find(v->begin(), v->end(), m);
        return it == v->end() ? -1 : int(it - v->begin());
    };
    b.keep = [v, mkf](const Content& c, CURVE* cv) { v->push_back(mkf(c, cv)); };
    b.eq = [v, mkf](size_t i, const Content& c, CURVE* cv, bool flip) {
        T m = mkf(c, cv);
        return flip ? m == (*v)[i] : (*v)[i] == m;
    };
    return b;
}

void c18(Run& r)
{
    World w(r);
    seam::rng_setup(r.seed(), 0);
    w.faults(true, true);
    w.cfg.dup = std::max(w.cfg.dup, 150u);
    unsigned kind = r.pick(NK), nodes = 2 + r.pick(3);
    r.count(fmt("kind.%s", KIND[kind]));
    std::vector<std::shared_ptr<CURVE>> curve;
    std::vector<Inbox> in;
    auto mkbox = [&]() -> Inbox {
        switch (kind)
        {
        case 0: return inbox<dme::ctxt_t>(mk_ctxt);
        case 1: return inbox<dme::pkey_t>(mk_pkey);
        case 2: return inbox<dme::keypair_t>(mk_pair);
        case 3: return inbox<dme::crs_ddh_t>(mk_crs);
        case 4: return inbox<dme::td_messy_ddh_t>(mk_tdm);
        case 5: return inbox<dme::td_dec_ddh_t>(mk_tdd);
        default: return inbox<POINT>(mk_pt);
        }
    };
    std::vector<std::shared_ptr<CURVE>> all;
    for (unsigned i = 0; i < nodes; i++)
    {
        int id = w.node(fmt("n%u", i));
        curve.push_back(std::make_shared<CURVE>());
        all.push_back(curve[i]);
        in.push_back(mkbox());
        w.nodes[id].on_start = [&, i] {
            // a restarted node starts over with an empty store on a new curve object; contents already kept elsewhere stay alive
            curve[i] = std::make_shared<CURVE>();
            all.push_back(curve[i]);
            in[i] = mkbox();
        };
        w.nodes[id].on_msg = [&, i](int, const Msg& m) {
            Content c;
            for (auto& p : m.pts) c.p.push_back(ref::of(p.obj));
            for (auto& v : m.nums) c.n.push_back(ref::mod(v, E().n));
            Inbox& b = in[i];
            CURVE* cv = curve[i].get();
            if (r.pick(3) == 2) { all.push_back(std::make_shared<CURVE>()); cv = all.back().get(); r.probe("rebuilt_on_another_curve_object"); }
            computed = NP[kind] && r.pick(4) == 3;
            if (computed) r.probe("rebuilt_by_arithmetic");
            int want = -1;
            for (size_t k = 0; k < b.truth.size(); k++)
                if (b.truth[k] == c) { want = k; break; }
            int got = b.find(c, cv);
            r.check(got == want, want >= 0 ? (got < 0 ? "redelivery-not-recognised" : "different-message-dropped") : "different-message-dropped",
                    fmt("%s: a %s message compares equal to stored message %d, expected %d", KIND[kind], want >= 0 ? "repeated" : "new", got, want));
            for (int k = 0; k < 2 && !b.truth.empty(); k++)
            {
                size_t j = r.pick(b.truth.size());
                bool flip = r.pick(2), e = b.eq(j, c, cv, flip);
                r.check(e == (b.truth[j] == c), e ? "different-message-dropped" : "redelivery-not-recognised",
                        fmt("%s: comparison%s is wrong for messages that %s", KIND[kind], flip ? " the other way round" : "", e ? "differ" : "agree"));
            }
            r.count("compared");
            if (want >= 0) r.probe("duplicate_suppressed");
            else
            {
                b.keep(c, cv);
                b.truth.push_back(c);
                r.probe(m.damaged ? "damaged_kept" : "new_kept");
            }
        };
    }
    std::vector<Content> said;
    unsigned total = 15 + r.pick(40);
    CURVE source;
    for (unsigned i = 0; i < total; i++)
    {
        Content c;
        if (said.empty() || r.pick(5) == 0)
        {
            for (unsigned k = 0; k < NP[kind]; k++) c.p.push_back(r.pick(10) == 9 ? Pt() : E().mul(E().g, 1 + r.pick(2000)));
            for (unsigned k = 0; k < NN[kind]; k++) c.n.push_back(ref::mod(biased_scalar(r, E().n), E().n));
        }
        else
            c = r.pick(5) < 2 ? r.of(said) : mutate(r, r.of(said));
        said.push_back(c);
        computed = false;
        int from = r.pick(nodes), to = r.pick(nodes);
        if (to == from) to = (to + 1) % nodes;
        Msg m;
        m.type = 1;
        m.sess = i;
        for (auto& p : c.p) m.pts.push_back(put(false, mk(p, &source)));
        m.nums = c.n;
        w.timer(from, 1 + r.pick(300000), [&w, from, to, m] { w.send(from, to, m); });
    }
    w.sim.run([] { return false; });
}
SCENARIO(C18, c18, 60);
} // namespace
