// C10: group elements over a damaging network, decoded into long-lived receive buffers, then combined
#include "core.hpp"
#include "net.hpp"
#include "ecc_bn254.hpp"
#include <sstream>

using namespace sim;
using ref::Pt;

namespace
{
template <class CV, class PT, class FN>
struct Wire
{
    Run& r;
    const ref::Curve& E;
    Wire(Run& run, const ref::Curve& e) : r(run), E(e) {}
    World* w;
    std::vector<std::shared_ptr<CV>> curves;

    Pt pick_point(const std::vector<Pt>& earlier)
    {
        switch (r.pick(9))
        {
        case 0: return E.mul(E.g, 1 + r.pick(6));
        case 1: return E.mul(E.g, E.n - 1 - (long)r.pick(6));
        case 2: return earlier.empty() ? E.g : E.neg(r.of(earlier));
        case 3: { Pt q; u64 x = r.pick(3000); while (!E.lift(x, q, r.pick(2))) x++; return q; }
        case 4: { Pt q; mpz_class x = E.p - 1 - (long)r.pick(3000); while (!E.lift(x, q, r.pick(2))) x -= 1; return q; }
        case 5: { Pt q; Rng g(r.seed()); mpz_class x = g.bits(8 * (1 + r.pick(31))); while (!E.lift(x, q, r.pick(2))) x += 1; return q; }
        case 6: { Pt q; mpz_class x = mpz_class(1) << (unsigned)r.pick(254); while (!E.lift(x, q, r.pick(2))) x += 1; return q; }
        case 7: return earlier.empty() ? E.g : r.of(earlier);
        default: { Rng g(r.seed()); return E.mul(E.g, 1 + g.bits(250)); }
        }
    }
    // a point may also have come as text
    PT lib(const Pt& p)
    {
        if (p.inf) return PT();
        CV* c = curves[r.pick(curves.size())].get();
        switch (r.pick(8))
        {
        case 5: return PT(p.x.get_str(10), p.y.get_str(10), c);
        case 6: return PT(p.x.get_str(16), p.y.get_str(16), c, 16);
        case 7: return PT(p.x.get_str(16).c_str(), p.y.get_str(16).c_str(), c, 16);
        default: return PT(p.x, p.y, c);
        }
    }
    Pt val(const PT& p) { return ref::of(p); }
    void same(const PT& got, const Pt& want, const char* cls, const std::string& what)
    {
        Pt g = val(got);
        r.check(g == want, cls, what + fmt(": got %s want %s", g.str().c_str(), want.str().c_str()));
    }
    void ops(std::vector<std::pair<PT, Pt>>& reg, unsigned n)
    {
        for (unsigned k = 0; k < n; k++)
        {
            auto& a = reg[r.pick(reg.size())];
            auto& b = r.pick(5) == 4 ? a : reg[r.pick(reg.size())];
            unsigned op = r.pick(11);
            r.sched("op%u", op);
            PT z;
            Pt want;
            std::string what = fmt("op%u %s %s", op, a.second.brief().c_str(), b.second.brief().c_str());
            if (a.second.inf || b.second.inf) r.probe("identity_operand");
            if (!a.second.inf && a.second == b.second) r.probe("equal_operands");
            if (!a.second.inf && a.second == E.neg(b.second)) r.probe("opposite_operands");
            switch (op)
            {
            case 0: case 1: z = a.first + b.first; want = E.add(a.second, b.second); break;
            case 2: case 3: z = a.first - b.first; want = E.sub(a.second, b.second); break;
            case 4: z = a.first; z += b.first; want = E.add(a.second, b.second); break;
            case 5: z = a.first; z -= b.first; want = E.sub(a.second, b.second); break;
            case 6: z = a.first.pointDouble(); want = E.add(a.second, a.second); break;
            case 7:
            {
                mpz_class s = r.pick(5) == 4 ? mpz_class(0) : r.pick(4) == 3 ? mpz_class(E.n + (long)r.pick(3)) : biased_scalar(r, E.n);
                switch (r.pick(6))
                {
                case 3: z = a.first * FN(s); break;
                case 4: z = a.first; z *= FN(s); break;
                case 5: s -= E.n * (long)(1 + r.pick(3)); z = a.first * s; break;
                default: z = a.first * s;
                }
                want = E.mul(a.second, ref::mod(s, E.n));
                what += " scalar " + hex(s);
                break;
            }
            case 8:
            {
                bool eq = a.first == b.first, weq = a.second == b.second;
                r.check(eq == weq, "equality", fmt("%s == %s is %d", a.second.str().c_str(), b.second.str().c_str(), (int)eq));
                r.check((b.first == a.first) == eq, "equality", "comparison is not symmetric");
                continue;
            }
            case 9:
            {
                // published as text and read back
                std::stringstream t;
                t << a.first;
                std::string text = t.str();
                size_t comma = text.find(',');
                r.check(text.size() > 3 && text[0] == '(' && text[text.size() - 1] == ')' && comma != std::string::npos, "text-form", "a point is printed as " + text);
                if (a.second.inf) { r.check(text.find("inf") != std::string::npos, "text-form", "the identity is printed as " + text); continue; }
                z = PT(text.substr(1, comma - 1), text.substr(comma + 1, text.size() - comma - 2), curves[r.pick(curves.size())].get());
                want = a.second;
                break;
            }
            default:
                r.check(a.first.isValid(), "valid-point-rejected", a.second.str() + " is reported as invalid");
                continue;
            }
            same(z, want, "group-law", what);
            r.check(z.isValid(), "valid-point-rejected", what + " gives a point reported as invalid");
            r.count("op.group");
            reg[r.pick(reg.size())] = std::make_pair(z, want);
        }
    }
    void go()
    {
        World world(r);
        w = &world;
        for (unsigned i = 0, n = 1 + r.pick(3); i < n; i++) curves.push_back(std::make_shared<CV>());
        std::vector<Pt> earlier;
        unsigned nbuf = 1 + r.pick(3), total = 3 + r.pick(10), delivered = 0;
        if (r.pick(200) == 199) { total = 40 + r.pick(150); r.probe("long_service"); }
        std::vector<PT> buf;                      // receive buffers, decoded into again and again
        for (unsigned i = 0; i < nbuf; i++) { buf.push_back(curves[0]->getDefaultGen()); buf.back().curve = curves[r.pick(curves.size())].get(); }
        std::vector<std::pair<PT, Pt>> reg;
        reg.push_back(std::make_pair(PT(), Pt()));
        reg.push_back(std::make_pair(curves[0]->getDefaultGen(), E.g));
        int a = w->node("sender", false), b = w->node("receiver", true);
        struct Ent { Pt p; mpz_class ex; };
        std::vector<Ent> sent;
        std::set<int> acked;
        w->nodes[a].on_msg = [&](int, const Msg& m) { acked.insert(m.sess); };
        w->nodes[b].on_crash = [&] { reg.resize(2); for (auto& q : buf) { q = curves[0]->getDefaultGen(); q.curve = curves[r.pick(curves.size())].get(); } };
        w->nodes[b].on_msg = [&](int from, const Msg& m) {
            PT& q = buf[r.pick(buf.size())];
            q.setEncodedX(m.nums[0]);
            Pt got = val(q);
            if (m.damaged)
            {
                r.probe(got.inf ? "damaged_to_identity" : "damaged_to_point");
                r.check(E.on(got), "left-the-curve", fmt("encoding %s decoded to %s", hex(m.nums[0]).c_str(), got.str().c_str()));
                r.check(q.isValid(), "valid-point-rejected", "decoded point is reported as invalid");
                if (r.pick(2)) reg.push_back(std::make_pair(q, got));
                ops(reg, r.pick(3));
                return;
            }
            r.check(got == sent[m.sess].p, "round-trip", fmt("encoding %s of %s decoded to %s", hex(m.nums[0]).c_str(), sent[m.sess].p.str().c_str(), got.str().c_str()));
            mpz_class again = q.getEncodedX();
            r.check(again == m.nums[0], "round-trip", "re-encoding gives another value");
            reg.push_back(std::make_pair(q, got));
            if (reg.size() > 8) reg.erase(reg.begin() + 2);
            ops(reg, 1 + r.pick(3));
            delivered++;
            Msg ack;
            ack.sess = m.sess;
            w->send(b, from, ack);
        };
        std::function<void(int)> push = [&](int k) {
            if (acked.count(k)) return;
            Msg m;
            m.type = 1;
            m.sess = k;
            m.nums = {sent[k].ex};
            w->send(a, b, m);
            w->timer(a, 420000, [&, k] { push(k); });
        };
        w->faults(true, true, 300000);
        for (unsigned k = 0; k < total; k++)
        {
            Ent e;
            e.p = pick_point(earlier);
            PT q = lib(e.p);
            r.check(q.isValid(), "valid-point-rejected", e.p.str() + " is reported as invalid");
            e.ex = q.getEncodedX();
            for (auto& o : sent)
                r.check((o.p == e.p) == (o.ex == e.ex), "encoding-ambiguous", fmt("%s and %s share an encoding", o.p.str().c_str(), e.p.str().c_str()));
            earlier.push_back(e.p);
            sent.push_back(e);
            w->sim.at(r.pick(100000), [&, k] { push(k); });
            // affine coordinates that were damaged on the way
            if (r.pick(3) == 2)
            {
                mpz_class x = e.p.x, y = e.p.y;
                switch (r.pick(4))
                {
                case 0: mpz_combit(x.get_mpz_t(), r.pick(250)); break;
                case 1: mpz_combit(y.get_mpz_t(), r.pick(250)); break;
                case 2: std::swap(x, y); break;
                default: y = ref::mod(y + 1, E.p);
                }
                Pt d(ref::mod(x, E.p), ref::mod(y, E.p));
                PT z(x, y, curves[r.pick(curves.size())].get());
                r.fault("coordinates_damaged");
                r.check(z.isValid() == E.on(d), "invalid-point-accepted", fmt("(%s,%s) on the curve: %d, reported valid: %d", hex(d.x).c_str(), hex(d.y).c_str(), (int)E.on(d), (int)z.isValid()));
            }
        }
        w->sim.run([&] { return acked.size() == total; }, w->cfg.faultend + 40 * 420000);
        r.check(acked.size() == total, "no-progress", "an element was never decoded after faults stopped");
        r.count("delivered", delivered);
    }
};

void c10(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    if (r.pick(3) == 2) { r.count("curve.bn254"); Wire<ecc::Curve_bn254, ecc::Point_bn254, field::Field_bn254_n>(r, ref::bn254()).go(); }
    else { r.count("curve.p256"); Wire<CURVE, POINT, field::Field_secp256r1_n>(r, ref::p256()).go(); }
}
SCENARIO(C10, c10, 60);
} // namespace
