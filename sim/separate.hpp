// Independence of secret draws, judged by counterfactual re-execution: the same operation is executed again on the same state
// with one of its recorded draws altered. Two of its secrets that are never told apart by such a change (whenever one changes
// the other does too) come from the same randomness; a secret that never changes is not random at all.
// Nothing is claimed when the unaltered re-execution does not reproduce the recorded one, or when nothing was drawn.
#pragma once
#include "core.hpp"
namespace sim
{
template <class V> struct Separation
{
    std::vector<V> base;
    bool judged;
    std::vector<char> changes;                    // per secret: some alteration changed it
    std::vector<std::vector<char>> apart;         // per pair: some alteration changed exactly one of them
    unsigned reruns;
    Separation() : judged(false), reruns(0) {}
    // op executes the operation on a fresh copy of the state and returns its secrets
    void run(Run& r, const std::vector<mpz_class>& drawn, std::function<std::vector<V>()> op, const std::vector<V>& seen, unsigned limit)
    {
        if (drawn.empty()) { r.probe("separation_no_draws"); return; }
        seam::script(&drawn);
        base = op();
        seam::script(0);
        reruns++;
        if (!(base == seen)) { r.probe("separation_not_repeatable"); return; }
        size_t n = base.size();
        changes.assign(n, 0);
        apart.assign(n, std::vector<char>(n, 0));
        for (int pass = 0; pass < 2; pass++)
            for (size_t i = 0; i < drawn.size() && reruns < limit; i++)
            {
                std::vector<mpz_class> alt = drawn;
                mpz_combit(alt[i].get_mpz_t(), pass ? mpz_sizeinbase(alt[i].get_mpz_t(), 2) / 2 + 1 : 0);
                seam::script(&alt);
                std::vector<V> got = op();
                seam::script(0);
                reruns++;
                r.sh->steps++;
                if (got.size() != n) continue;
                for (size_t a = 0; a < n; a++)
                {
                    bool ca = !(got[a] == base[a]);
                    if (ca) changes[a] = 1;
                    for (size_t b = 0; b < a; b++)
                        if (ca != !(got[b] == base[b])) apart[a][b] = apart[b][a] = 1;
                }
                bool done = true;
                for (size_t a = 0; a < n; a++) for (size_t b = 0; b < a; b++) done &= apart[a][b] && changes[a] && changes[b];
                if (done) { judged = true; return; }
            }
        judged = reruns < limit;                  // with draws left unaltered nothing is claimed
        if (!judged) r.probe("separation_cut_short");
    }
    void check(Run& r, const std::string& cls, std::function<std::string(size_t)> name)
    {
        if (!judged) return;
        r.probe("separation_judged");
        for (size_t a = 0; a < base.size(); a++)
        {
            r.check(changes[a], cls + "-not-random", name(a) + " stays the same whatever is drawn");
            for (size_t b = 0; b < a; b++) r.check(apart[a][b], cls + "-dependent", name(a) + " is determined by " + name(b));
        }
    }
};
}
