// C23: a failed allocation ends one operation and nothing else.  C24: whatever arrives, a party survives it and goes on.
#include "parties.hpp"

namespace
{
void full_session(Run& r, Parties& P, const char* when)
{
    unsigned x = r.pick(P.theta + 1);
    P.srv->clean();
    P.cli->clean();
    P.cli->setMessage(x);
    P.srv->prepareKeysAndInputs();
    Pt K = ref::of(P.srv->getKOPPRF());
    for (int round = 16; round >= 1; round--) { dme::pkey_t pk = P.cli->runOTRound_start(round); P.cli->runOTRound_end(round, P.srv->runOTRound(round, pk)); }
    P.cli->unmaskResult(P.srv->sendEncryptedMasks());
    r.check(ref::of(P.cli->getResult()) == E().add(K, E().mul(E().g, P.a * x)), "wrong-result", fmt("%s: a session with theta %u x %u gives another value", when, P.theta, x));
    r.probe("full_session");
}

// an operation that replaces something fails: what it would have replaced still works
void replaced(Run& r, Parties& P, bool& injected)
{
    int i = r.pick(2), b = r.pick(2), other = r.pick(2);
    auto attempt = [&](const char* what, long at, std::function<void()> f) {
        std::string ended;
        seam::new_fail_at(at);
        try { f(); }
        catch (const std::bad_alloc&) { ended = "bad_alloc"; }
        catch (const std::exception& e) { seam::new_fail_at(-1); ended = e.what(); }
        bool fired = seam::new_fired();
        seam::new_fail_at(-1);
        r.sched("%s over a pending one %ld %s", what, at, ended.c_str());
        if (ended.empty()) return true;
        r.check(fired, "operation-failed", std::string(what) + " ended with an error although no allocation failed: " + ended);
        r.fault("allocation_failed");
        injected = true;
        return false;
    };
    if (r.pick(3))
    {
        // a receiver with an open transfer
        Pt m[2] = {E().mul(E().g, 3 + r.pick(100000)), E().mul(E().g, 100007 + r.pick(100000))};
        dme::pkey_t pk = P.rx[i]->selectMsg(dme::branch_t(b)), pk2;
        ot::ctxt_v_t a = P.tx[1 - i]->encMsgs(pk, point(m[0], &P.curve), point(m[1], &P.curve));
        for (unsigned tries = 1 + r.pick(3); tries; tries--)
        {
            if (attempt("selection", r.pick(8), [&] { pk2 = P.rx[i]->selectMsg(dme::branch_t(other)); }))
            {
                a = P.tx[i]->encMsgs(pk2, point(m[0], &P.curve), point(m[1], &P.curve));
                b = other;
                r.check(ref::of(P.rx[i]->decryptMsg(a)) == m[b], "wrong-result", "a transfer after a selection gives another message");
            }
            else r.check(ref::of(P.rx[i]->decryptMsg(a)) == m[b], "pending-transfer-lost", fmt("a selection of branch %d failed: the open transfer of branch %d does not give its message any more", other, b));
            other = r.pick(2);
        }
        r.probe("selection_over_a_pending_one");
    }
    else
    {
        // a setup in use: contributions were made before and are made after
        unsigned n = 1 + r.pick(3), k = r.pick(n + 1), sum = 0, n2 = 1 + r.pick(5);
        int t = 1 + r.pick(1000);
        auto st = P.pu->Setup(n);
        puda::ctxt_v_t c;
        puda::tag_v_t g;
        auto more = [&](unsigned upto) {
            for (unsigned j = c.size(); j < upto; j++)
            {
                unsigned m = r.pick(30);
                sum += m;
                c.push_back(P.pu->Enc(std::get<0>(st)[j], m, t));
                g.push_back(P.pu->Tag(std::get<1>(st)[j], m, t));
            }
        };
        more(k);
        if (!attempt("setup", r.pick(40), [&] { P.pu->Setup(n2); }))
        {
            more(n);
            unsigned got = P.pu->Agg(std::get<2>(st), c, g, t).first;
            r.check(got == sum, "pending-setup-lost", fmt("a new setup failed: the one in use gives %u instead of %u", got, sum));
        }
        r.probe("setup_over_one_in_use");
    }
}

void c23(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    Sim::clock() = 0;
    Parties P(r);
    unsigned n = 4 + r.pick(8), heavy = 0;
    bool injected = false;
    for (unsigned k = 0; k < n; k++)
    {
        r.sh->steps++;
        if (r.pick(5) == 4) { replaced(r, P, injected); continue; }
        unsigned kind = r.pick(NOP);
        if ((kind == 5 || kind == 6 || kind == 12) && heavy++ > 2) kind = r.pick(5);
        Op o = make_op(r, P, kind);
        long at = r.pick(3) == 2 ? r.pick(120) : r.pick(12);
        r.sched("%s %ld", o.name.c_str(), at);
        std::string ended;
        seam::new_fail_at(at);
        try { o.lib(); }
        catch (const std::bad_alloc&) { ended = "bad_alloc"; }
        catch (const std::exception& e) { seam::new_fail_at(-1); ended = e.what(); }
        bool fired = seam::new_fired();
        seam::new_fail_at(-1);
        r.log("%s: %s", o.name.c_str(), ended.c_str());
        if (!ended.empty())
        {
            r.check(fired, "operation-failed", o.name + " ended with an error although no allocation failed: " + ended);
            r.fault("allocation_failed");
            injected = true;
            // the same again, on the same parties
            try { o.lib(); }
            catch (const std::exception& e) { throw Violation{"unusable-afterwards", o.name + " failed again after an allocation failure was over: " + e.what()}; }
        }
        else if (fired) r.probe("failure_swallowed");
        o.judge();
        r.count("op." + std::to_string(kind));
    }
    if (injected && r.pick(12) == 11) full_session(r, P, "after failed allocations");
}
SCENARIO(C23, c23, 120);

// ------------------------------------------------------------------ C24
POINT junk(Run& r, CURVE* c)
{
    switch (r.pick(8))
    {
    case 0: return POINT();
    case 1: return POINT(mpz_class(0), mpz_class(0), c);
    case 2: return POINT(Rng(r.seed()).bits(256), Rng(r.seed()).bits(256), c);
    case 3: return POINT(E().p - 1, mpz_class(0), c);
    case 4: return POINT(Rng(r.seed()).bits(300), mpz_class(1), c);
    case 5: { Pt g = E().mul(E().g, 1 + r.pick(1000)); return POINT(g.x, ref::mod(g.y + 1, E().p), c); }
    case 6: { POINT p = c->getDefaultGen(); p.curve = c; mpz_class e = Rng(r.seed()).bits(1 + r.pick(600)); p.setEncodedX(r.pick(4) == 3 ? mpz_class(-e) : e); return p; }
    default: return point(E().mul(E().g, 1 + r.pick(100000)), c);
    }
}
ot::ctxt_v_t junk_answer(Run& r, CURVE* c, unsigned n)
{
    ot::ctxt_v_t v;
    for (unsigned i = 0; i < n; i++) v.push_back(dme::ctxt_t(junk(r, c), junk(r, c)));
    return v;
}

void c24(Run& r)
{
    seam::rng_setup(r.seed(), 0);
    Sim::clock() = 0;
    Parties P(r);
    CURVE* c = &P.curve;
    unsigned n = 5 + r.pick(8), heavy = 0;
    auto refused = [&](std::function<void()> f) { try { f(); } catch (const std::exception&) { return true; } return false; };
    bool session = false;
    Pt K;
    unsigned sx = 0, left = 0, slow = 0;
    bool open = r.pick(4) == 3;
    if (open)
    {
        // a session is open while all this arrives
        sx = r.pick(P.theta + 1);
        P.cli->setMessage(sx);
        P.srv->prepareKeysAndInputs();
        K = ref::of(P.srv->getKOPPRF());
        left = 16;
        session = true;
    }
    auto advance = [&](unsigned k) {
        for (; session && left && k; k--, left--) { dme::pkey_t pk = P.cli->runOTRound_start(left); P.cli->runOTRound_end(left, P.srv->runOTRound(left, pk)); }
    };
    for (unsigned k = 0; k < n; k++)
    {
        r.sh->steps++;
        unsigned kind = r.pick(11);
        int i = r.pick(2), b = r.pick(2);
        r.sched("junk %u", kind);
        switch (kind)
        {
        case 0:
        {
            r.fault("junk_public_key");
            dme::pkey_t pk(junk(r, c), junk(r, c));
            refused([&] { P.dmes[i]->Enc(pk, dme::branch_t(b), junk(r, c)); });
            refused([&] { P.tx[i]->encMsgs(pk, junk(r, c), junk(r, c)); });
            break;
        }
        case 1:
        {
            r.fault("junk_ciphertext");
            auto key = P.dmes[i]->KeyGen(dme::branch_t(b));
            dme::ctxt_t x(junk(r, c), junk(r, c));
            refused([&] { P.dmes[i]->Dec(key.sk, x); });
            refused([&] { P.dmes[i]->DecDecode(key.sk, x); });
            break;
        }
        case 2:
        {
            // an answer that is too short for the selected branch is refused, whatever else is wrong with it
            unsigned len = r.pick(4);
            P.rx[i]->selectMsg(dme::branch_t(b));
            ot::ctxt_v_t v = junk_answer(r, c, len);
            r.fault(len < 2 ? "truncated_answer" : "junk_answer");
            bool x = refused([&] { P.rx[i]->decryptMsg(v); }), y = refused([&] { P.rx[i]->decryptMsgDecode(v); });
            if ((int)len <= b) r.check(x && y, "truncated-accepted", fmt("branch %d of an answer with %u ciphertexts was opened", b, len));
            break;
        }
        case 3:
        {
            // a proxy that gets no answer, or one without both branches
            std::vector<ot::ctxt_v_t> a;
            unsigned m = r.pick(4);
            bool shortened = m == 0;
            for (unsigned j = 0; j < m; j++) { unsigned len = r.pick(3) == 2 ? r.pick(2) : 2; if (len < 2) shortened = true; a.push_back(junk_answer(r, c, len)); }
            r.fault(shortened ? "truncated_aggregation" : "junk_aggregation");
            bool x = refused([&] { P.px[i]->aggregate(a); });
            if (shortened) r.check(x, "truncated-accepted", fmt("a proxy aggregated %u answers although one lacks a branch", m));
            break;
        }
        case 4:
        {
            r.fault("junk_shares");
            sss::share_v_t v;
            for (unsigned j = 0, m = r.pick(6); j < m; j++)
            {
                sss::share_t s;
                s.idx = sss::FIELD(mpz_class(r.pick(3) == 2 ? Rng(r.seed()).bits(1 + r.pick(256)) : mpz_class(r.pick(4))));
                s.val = sss::FIELD(Rng(r.seed()).bits(256));
                v.push_back(s);
            }
            refused([&] { P.ss->reconSecret(v); });
            break;
        }
        case 5:
        {
            r.fault("junk_ciphertext");
            for (int j = 0; j < 4; j++)
            {
                mpz_class x = Rng(r.seed()).bits(1 + r.pick(3000)), key = Rng(r.seed()).bits(1 + r.pick(200));
                if (r.pick(5) == 4) x = -x;
                if (r.pick(5) == 4) x = r.pick(3);
                mpz_class got;
                if (!refused([&] { got = P.aes.decryptCRC(key, x); }))
                    r.check(got == 0, "junk-opened", "an arbitrary integer " + hex(x).substr(0, 40) + " opened as a message");
            }
            break;
        }
        case 6:
        {
            if (slow++ > 0 || r.pick(40) != 39) { kind = 7; }
            else
            {
                // opening garbage takes the aggregator long, and it survives
                r.fault("junk_contribution");
                auto st = P.pu->Setup(2);
                puda::ctxt_v_t v;
                puda::tag_v_t g;
                for (unsigned j = 0, m = r.pick(3); j < m; j++) { v.push_back(junk(r, c)); g.push_back(junk(r, c)); }
                refused([&] { P.pu->Agg(std::get<2>(st), v, g, (int)r.pick(5)); });
                break;
            }
        }
        // fall through
        case 7:
        {
            if (!session) P.srv->prepareKeysAndInputs();
            dme::pkey_t pk(junk(r, c), junk(r, c));
            int round = 1 + r.pick(16);
            bool none = r.pick(3) == 2;
            if (none) round = r.of(std::vector<int>{0, -1, 17, 18, 31, 32, 99, 255, 256, 257, 272, -16, -32768, 32767});
            r.fault(none ? "senseless_round_request" : "junk_round_request");
            bool x = refused([&] { P.srv->runOTRound(round, pk); });
            if (none) r.check(x, "junk-accepted", fmt("a request for round %d was answered", round));
            if (!session) P.srv->clean();
            break;
        }
        case 8:
        {
            // a client that processes garbage raises an error or is left with a useless state, and resets
            opprf::OPPRFclient cl(P.crs);
            cl.setMessage(r.pick(65536));
            int round = 1 + r.pick(16);
            cl.runOTRound_start(round);
            opprf::ot_ctxts_t o;
            for (auto& v : o.ctxt) v = junk_answer(r, c, r.pick(4) == 3 ? r.pick(2) : 2);
            o.cprf = junk_answer(r, c, r.pick(4) == 3 ? r.pick(2) : 2);
            r.fault("junk_round_answer");
            bool x = refused([&] { cl.runOTRound_end(round, o); });
            if (round < 16) r.check(x, "junk-accepted", fmt("round %d: a client without the key accepted garbage", round));
            opprf::symctxt_t m;
            for (auto& v : m) v = Rng(r.seed()).bits(1 + r.pick(400));
            r.check(refused([&] { cl.unmaskResult(m); }), "junk-accepted", "a client accepted garbage masks");
            break;
        }
        case 9:
        {
            r.fault("junk_point");
            POINT p = junk(r, c), q = junk(r, c);
            refused([&] { (void)(p + q); });
            refused([&] { (void)(p - q); });
            refused([&] { (void)(p * biased_scalar(r, E().n)); });
            refused([&] { (void)(p == q); });
            refused([&] { (void)p.isValid(); });
            break;
        }
        default:
        {
            // honest work in between
            unsigned kd = r.pick(9);
            if ((kd == 5 || kd == 6) && heavy++ > 1) kd = 4;
            Op o = make_op(r, P, kd);
            o.lib();
            o.judge();
            r.count("op." + std::to_string(kd));
        }
        }
        advance(r.pick(4));
    }
    // every kind of honest exchange still works
    for (unsigned kd : {3u, 5u, 7u, 8u})
    {
        Op o = make_op(r, P, kd);
        try { o.lib(); } catch (const std::exception& e) { throw Violation{"unusable-afterwards", o.name + " fails after junk: " + e.what()}; }
        o.judge();
    }
    if (session)
    {
        try
        {
            advance(16);
            P.cli->unmaskResult(P.srv->sendEncryptedMasks());
        }
        catch (const std::exception& e) { throw Violation{"unusable-afterwards", std::string("the open session fails after junk: ") + e.what()}; }
        r.check(ref::of(P.cli->getResult()) == E().add(K, E().mul(E().g, P.a * sx)), "wrong-result", fmt("the open session gives another value after junk (theta %u x %u)", P.theta, sx));
        r.probe("open_session_finished");
    }
}
SCENARIO(C24, c24, 200);
} // namespace
