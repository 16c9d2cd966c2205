// C25: parties on different threads of one process do not disturb each other.
#include "parties.hpp"
#include "threads.hpp"

namespace
{
// hands one message from a thread to another
template <class T> struct Box
{
    std::vector<T> v;
    bool closed = false;
    void put(const T& x) { threads::Quiet q; v.push_back(x); }
    T get()
    {
        while (v.empty())
        {
            if (closed) throw std::runtime_error("the other thread ended");
            threads::wait_for_others();
        }
        threads::Quiet q;
        T x = v.front();
        v.erase(v.begin());
        return x;
    }
};
struct Link                                            // a client and a server on two threads
{
    Box<dme::pkey_t> request;
    Box<ot::ctxt_v_t> answer;
    Box<opprf::ot_ctxts_t> round;
    Box<opprf::symctxt_t> masks;
    void close() { request.closed = answer.closed = round.closed = masks.closed = true; }
};
Parties* copy_of(Run& r, Parties& o)
{
    Parties* p = new Parties(r, &o);
    for (int i = 0; i < 2; i++)
    {
        p->dmes[i] = std::make_shared<dme::DME_DDH>(*o.dmes[i]);
        p->tx[i] = std::make_shared<ot::OTsndr>(*o.tx[i]);
        p->rx[i] = std::make_shared<ot::OTrecv>(*o.rx[i]);
        p->px[i] = std::make_shared<ot::DOTprxy>(*o.px[i]);
    }
    p->srv = std::make_shared<opprf::OPPRFserver>(*o.srv);
    p->theta = o.theta;
    p->a = o.a;
    p->cli = std::make_shared<opprf::OPPRFclient>(*o.cli);
    p->pu = std::make_shared<puda::Puda>(*o.pu);
    p->ss = std::make_shared<sss::ShamirSS>(*o.ss);
    return p;
}

void c25(Run& r)
{
    // half of the runs use the generators as the process would start them
    if (r.pick(2)) seam::rng_setup(r.seed(), 0);
    else { seam::rng_setup(r.seed(), 0); seam::rng_off(); }
    Sim::clock() = 0;
    unsigned n = 2 + r.pick(3);
    std::vector<std::unique_ptr<Parties>> P;
    std::vector<std::vector<Op>> ops(n);
    bool with_link = r.pick(3) == 2, session = with_link && r.pick(8) == 7;
    // often everyone does the same kind of work at the same time
    unsigned favourite = r.pick(14), mostly = r.pick(3);
    for (unsigned i = 0; i < n; i++)
    {
        unsigned how = i ? r.pick(3) : 0;
        if (how == 0) P.emplace_back(new Parties(r));
        else if (how == 1) P.emplace_back(new Parties(r, P[0].get()));
        else P.emplace_back(copy_of(r, *P[0]));
        r.count(how == 0 ? "parties.own" : how == 1 ? "parties.same_crs" : "parties.copied");
        unsigned m = 1 + r.pick(with_link ? 2 : 4), heavy = 0;
        for (unsigned k = 0; k < m; k++)
        {
            unsigned kind = r.pick(3) < mostly ? favourite : r.pick(14);
            if (kind == 11) kind = 12;
            if ((kind == 5 || kind == 6 || kind == 12) && heavy++ > 0) kind = r.pick(5);
            ops[i].push_back(make_op(r, *P[i], kind));
            r.count("op." + std::to_string(kind));
        }
    }
    Link link;
    unsigned x = 0, served = 0;
    Pt got, K;
    std::vector<std::string> fresh;
    std::vector<Pt> sent[2], opened;
    std::vector<int> branch;
    if (with_link)
    {
        unsigned m = 1 + r.pick(3);
        Parties &A = *P[0], &B = *P[1];
        if (session)
        {
            x = r.pick(B.theta + 1);
            // the two have to agree on the reference string
            A.cli = std::make_shared<opprf::OPPRFclient>(B.crs);
        }
        auto rx = std::make_shared<ot::OTrecv>(B.crs);
        A.graveyard.push_back(rx);
        std::vector<POINT> m0, m1;
        for (unsigned k = 0; k < m; k++)
        {
            branch.push_back(r.pick(2));
            for (int b = 0; b < 2; b++) sent[b].push_back(E().mul(E().g, 3 + r.pick(1000000)));
            m0.push_back(point(sent[0].back(), &B.curve));
            m1.push_back(point(sent[1].back(), &B.curve));
        }
        Op c, s;
        c.name = "client";
        s.name = "server";
        if (session)
        {
            c.lib = [&, x] {
                A.cli->clean();
                A.cli->setMessage(x);
                for (int round = 16; round >= 1; round--) { link.request.put(A.cli->runOTRound_start(round)); A.cli->runOTRound_end(round, link.round.get()); }
                A.cli->unmaskResult(link.masks.get());
            };
            s.lib = [&] {
                B.srv->prepareKeysAndInputs();
                for (int round = 16; round >= 1; round--) link.round.put(B.srv->runOTRound(round, link.request.get()));
                link.masks.put(B.srv->sendEncryptedMasks());
            };
            s.judge = [&] {
                r.check(ref::of(A.cli->getResult()) == E().add(ref::of(B.srv->getKOPPRF()), E().mul(E().g, B.a * x)), "wrong-result", fmt("a session between two threads: theta %u x %u gives another value", B.theta, x));
                r.probe("session_between_threads");
            };
            // nothing else may touch the server or the client in between
            ops[0].clear();
            ops[1].clear();
        }
        else
        {
            std::vector<int> bs = branch;
            c.lib = [&, rx, bs] {
                for (int b : bs) { link.request.put(rx->selectMsg(dme::branch_t(b))); Pt p = ref::of(rx->decryptMsg(link.answer.get())); threads::Quiet q; opened.push_back(p); }
            };
            s.lib = [&, m0, m1] { for (size_t k = 0; k < m0.size(); k++) link.answer.put(B.tx[0]->encMsgs(link.request.get(), m0[k], m1[k])); };
            s.judge = [&] {
                for (size_t k = 0; k < branch.size(); k++) r.check(opened.at(k) == sent[branch[k]][k], "wrong-result", "a transfer between two threads gives another message");
                r.probe("transfers_between_threads");
            };
        }
        c.judge = [] {};
        c.fresh = s.fresh = [](std::vector<std::string>&) {};
        ops[0].insert(ops[0].begin() + r.pick(ops[0].size() + 1), c);
        ops[1].insert(ops[1].begin() + r.pick(ops[1].size() + 1), s);
    }
    std::vector<std::string> failed(n);
    std::vector<Violation> bad;
    std::vector<std::function<void()>> bodies;
    for (unsigned i = 0; i < n; i++)
        bodies.push_back([&, i] {
            try
            {
                for (auto& o : ops[i])
                {
                    { threads::Quiet q; r.log("thread %u: %s", i, o.name.c_str()); }
                    try { o.lib(); }
                    catch (const std::exception& e) { threads::Quiet q; failed[i] = o.name + ": " + e.what(); if (with_link && i < 2) link.close(); return; }
                }
            }
            catch (const Violation& v) { threads::Quiet q; bad.push_back(v); if (with_link && i < 2) link.close(); }
        });
    threads::run(r, bodies);
    r.fault("preemptions");
    if (!bad.empty()) throw bad[0];
    for (auto& f : failed) r.check(f.empty(), "operation-failed", "an operation failed while other threads ran: " + f);
    std::map<std::string, std::string> seen;
    for (unsigned i = 0; i < n; i++)
        for (auto& o : ops[i])
        {
            o.judge();
            std::vector<std::string> v;
            o.fresh(v);
            for (auto& s : v)
            {
                std::string who = fmt("thread %u, %s", i, o.name.c_str());
                auto at = seen.insert(std::make_pair(s, who));
                r.check(at.second, "repeated", s.substr(0, 40) + " appears twice: " + at.first->second + " and " + who);
            }
        }
}
SCENARIO(C25, c25, 120);
} // namespace
