// Simulated network and nodes: loss, duplication, delay/reordering, damage, partitions, crashes, restarts, stalls.
#pragma once
#include "core.hpp"
#include "refec.hpp"
#include "dme.hpp"
#include <any>

namespace sim
{
typedef dme::POINT POINT;
typedef dme::CURVE CURVE;

struct WP                              // a group element in transit
{
    bool enc, inf;
    mpz_class ex;
    POINT obj;
    WP() : enc(false), inf(true) {}
};
inline WP put(bool wire, const POINT& p)
{
    WP w;
    w.enc = wire;
    w.inf = p.isInf();
    if (!wire) w.obj = p;
    else if (!w.inf) w.ex = p.getEncodedX();
    return w;
}
inline POINT get(const WP& w, CURVE* c)
{
    if (!w.enc) return w.obj;
    if (w.inf) return POINT();
    POINT p = c->getDefaultGen();
    p.curve = c;
    p.setEncodedX(w.ex);
    return p;
}
inline std::string show(const WP& w)
{
    if (!w.enc) return ref::of(w.obj).brief();
    return w.inf ? "inf" : w.ex.get_str(16).substr(0, 10);
}

struct Msg
{
    int type, sess, att, round;
    std::vector<WP> pts;
    std::vector<mpz_class> nums;
    bool damaged, late;
    std::any body;
    Msg() : type(0), sess(0), att(0), round(0), damaged(false), late(false) {}
};

struct Cfg
{
    unsigned drop, dup, corrupt, crash, stall, part;   // permille
    u64 maxdelay, faultend;
    Cfg() : drop(0), dup(0), corrupt(0), crash(0), stall(0), part(0), maxdelay(1000), faultend(0) {}
};

struct Node
{
    std::string name;
    bool up, mortal;
    int epoch;
    u64 stalled;
    std::function<void()> on_crash, on_start;
    std::function<void(int, const Msg&)> on_msg;
};

class World
{
public:
    Run& r;
    Sim sim;
    Cfg cfg;
    std::vector<Node> nodes;
    std::map<std::pair<int, int>, u64> cut;
    unsigned inflight_faults;
    explicit World(Run& run) : r(run), sim(run), inflight_faults(0) { Sim::clock() = 0; }

    // swarm: every run enables its own subset of fault kinds; profile 0 is fault-free
    void faults(bool allow_corrupt, bool allow_crash, u64 horizon = 400000)
    {
        unsigned profile = r.pick(5);
        cfg.maxdelay = r.of(std::vector<u64>{1000, 1, 20000, 200000});
        if (!profile) { r.count("config.fault_free"); return; }
        r.count("config.faulty");
        cfg.faultend = horizon * (1 + r.pick(3));
        unsigned base = profile == 1 ? 40 : profile == 2 ? 120 : profile == 3 ? 220 : 80;
        if (r.pick(2)) cfg.drop = base;
        if (r.pick(2)) cfg.dup = base;
        if (allow_corrupt && r.pick(2)) cfg.corrupt = base;
        if (allow_crash && r.pick(2)) cfg.crash = base / 3;
        if (r.pick(2)) cfg.stall = base / 2;
        if (r.pick(2)) cfg.part = base / 4;
    }
    bool faulty() const { return sim.now < cfg.faultend; }
    int node(const std::string& name, bool mortal = true)
    {
        Node n;
        n.name = name;
        n.up = true;
        n.mortal = mortal;
        n.epoch = 0;
        n.stalled = 0;
        nodes.push_back(n);
        return nodes.size() - 1;
    }
    void timer(int id, u64 delay, std::function<void()> f)
    {
        int ep = nodes[id].epoch;
        sim.at(delay, [this, id, ep, f] { if (nodes[id].up && nodes[id].epoch == ep) f(); });
    }
    void crash(int id, u64 down)
    {
        Node& n = nodes[id];
        if (!n.up || !n.mortal) return;
        n.up = false;
        n.epoch++;
        r.fault("node_crash");
        r.sched("crash %s", n.name.c_str());
        if (n.on_crash) n.on_crash();
        sim.at(down, [this, id] {
            Node& m = nodes[id];
            m.up = true;
            r.fault("node_restart");
            r.sched("restart %s", m.name.c_str());
            if (m.on_start) m.on_start();
        });
    }
    void send(int from, int to, const Msg& m)
    {
        if (faulty())
        {
            if (r.chance(cfg.part) && !cut.count(std::minmax(from, to)))
            {
                u64 len = 5000 + r.pick(100000);
                cut[std::minmax(from, to)] = sim.now + len;
                r.fault("net_partition");
                r.sched("partition %s|%s", nodes[from].name.c_str(), nodes[to].name.c_str());
            }
            if (r.chance(cfg.drop)) { r.fault("net_drop"); r.sched("drop %s->%s t%d", nodes[from].name.c_str(), nodes[to].name.c_str(), m.type); return; }
        }
        auto c = cut.find(std::minmax(from, to));
        if (c != cut.end())
        {
            if (c->second > sim.now && faulty()) { r.fault("net_partition_drop"); return; }
            cut.erase(c);
            r.fault("net_heal");
        }
        transit(from, to, m, 1 + r.pick(cfg.maxdelay));
        if (faulty() && r.chance(cfg.dup))
        {
            r.fault("net_dup");
            transit(from, to, m, 1 + r.pick(cfg.maxdelay * 3));
        }
    }
    void damage(Msg& m)
    {
        size_t n = m.pts.size() + m.nums.size();
        if (!n) return;
        size_t k = r.pick(n);
        m.damaged = true;
        r.fault("net_corrupt");
        if (k < m.pts.size())
        {
            WP& w = m.pts[k];
            unsigned how = r.pick(4);
            if (how == 3) { w.inf = true; w.obj = POINT(); return; }
            if (!w.enc)
            {
                ref::Pt q = ref::of(w.obj);
                if (q.inf) return;
                if (how == 1) q = ref::p256().add(q, q);
                if (how == 2) q = ref::p256().add(q, ref::p256().g);
                if (how == 0) q = ref::p256().neg(q);
                w.obj = q.inf ? POINT() : POINT(q.x, q.y, w.obj.curve);
                return;
            }
            w.inf = false;
            for (unsigned i = 0; i <= how; i++) mpz_combit(w.ex.get_mpz_t(), r.pick(257));
        }
        else
        {
            mpz_class& v = m.nums[k - m.pts.size()];
            for (unsigned i = 0, e = 1 + r.pick(3); i < e; i++) mpz_combit(v.get_mpz_t(), r.pick(mpz_sizeinbase(v.get_mpz_t(), 2) + 1));
        }
    }

private:
    void transit(int from, int to, Msg m, u64 delay)
    {
        if (faulty() && r.chance(cfg.corrupt))
        {
            Msg good = m;
            damage(m);
            if (r.pick(3))                    // the link notices and sends the same message once more
            {
                r.fault("net_link_resend");
                sim.at(delay + 1 + r.pick(cfg.maxdelay), [this, from, to, good] { arrive(from, to, good); });
            }
        }
        r.count("net.sent");
        sim.at(delay, [this, from, to, m] { arrive(from, to, m); });
    }
    void arrive(int from, int to, const Msg& m)
    {
        Node& n = nodes[to];
        if (!n.up) { r.fault("net_to_down_node"); return; }
        if (n.stalled > sim.now)
        {
            u64 d = n.stalled - sim.now;
            sim.at(d + 1, [this, from, to, m] { arrive(from, to, m); });
            return;
        }
        if (faulty() && r.chance(cfg.stall))
        {
            n.stalled = sim.now + 1000 + r.pick(150000);
            r.fault("node_stall");
        }
        if (faulty() && n.mortal && r.chance(cfg.crash))
        {
            bool before = r.pick(2);
            u64 down = 1000 + r.pick(60000);
            if (before) { r.fault("crash_before_delivery"); crash(to, down); return; }
            r.sched("deliver %s->%s t%d s%d a%d r%d%s", nodes[from].name.c_str(), n.name.c_str(), m.type, m.sess, m.att, m.round, m.damaged ? " damaged" : "");
            n.on_msg(from, m);
            r.fault("crash_after_delivery");
            crash(to, down);
            return;
        }
        r.sched("deliver %s->%s t%d s%d a%d r%d%s", nodes[from].name.c_str(), n.name.c_str(), m.type, m.sess, m.att, m.round, m.damaged ? " damaged" : "");
        n.on_msg(from, m);
    }
};

// ---- shared generators
inline mpz_class biased_scalar(Run& r, const mpz_class& n)
{
    switch (r.pick(8))
    {
    case 0: return 1 + (long)r.pick(4);
    case 1: return n - 1 - (long)r.pick(3);
    case 2: return (mpz_class(1) << (unsigned)r.pick(255)) + (long)r.pick(3) - 1;
    default: { Rng g(r.seed()); mpz_class v = g.bits(300); return ref::mod(v, n); }
    }
}
} // namespace sim
