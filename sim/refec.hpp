// Reference group arithmetic, independent of /repo: own affine addition, scalar multiplication by OpenSSL's EC code.
#pragma once
#include <gmpxx.h>
#include <string>
namespace ref
{
struct Pt
{
    bool inf;
    mpz_class x, y;
    Pt() : inf(true) {}
    Pt(const mpz_class& a, const mpz_class& b) : inf(false), x(a), y(b) {}
    bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); }
    bool operator!=(const Pt& o) const { return !(*this == o); }
    bool operator<(const Pt& o) const
    {
        if (inf != o.inf) return inf < o.inf;
        if (inf) return false;
        return x != o.x ? x < o.x : y < o.y;
    }
    std::string str() const { return inf ? "inf" : x.get_str(16) + "," + y.get_str(16); }
    std::string brief() const { return inf ? "inf" : x.get_str(16).substr(0, 10) + (mpz_odd_p(y.get_mpz_t()) ? "-" : "+"); }
};
struct Curve
{
    mpz_class p, a, b, n;
    Pt g;
    void* grp;
    Pt neg(const Pt& P) const;
    Pt add(const Pt& P, const Pt& Q) const;
    Pt sub(const Pt& P, const Pt& Q) const { return add(P, neg(Q)); }
    Pt mul(const Pt& P, const mpz_class& k) const;
    bool on(const Pt& P) const;
    bool lift(const mpz_class& x, Pt& out, bool odd) const;   // a point with that abscissa
};
void init();
const Curve& p256();
const Curve& bn254();
template <class P> Pt of(const P& q) { return q.isInf() ? Pt() : Pt(q.getX().getRawValue(), q.getY().getRawValue()); }
mpz_class mod(const mpz_class& v, const mpz_class& m);
mpz_class inv(const mpz_class& v, const mpz_class& m);
}
