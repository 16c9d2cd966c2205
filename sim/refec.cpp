#include "core.hpp"
#include "refec.hpp"
#include <openssl/ec.h>
#include <openssl/obj_mac.h>
#include <openssl/bn.h>
#include <cstdio>
#include <cstdlib>
namespace ref
{
static Curve *P = 0, *B = 0;
static BN_CTX* ctx = 0;
mpz_class mod(const mpz_class& v, const mpz_class& m) { mpz_class r; mpz_mod(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t()); return r; }
mpz_class inv(const mpz_class& v, const mpz_class& m) { mpz_class r; if (!mpz_invert(r.get_mpz_t(), v.get_mpz_t(), m.get_mpz_t())) return 0; return r; }
static BIGNUM* bn(const mpz_class& v) { BIGNUM* b = 0; BN_hex2bn(&b, v.get_str(16).c_str()); return b; }
static mpz_class mp(const BIGNUM* b) { char* s = BN_bn2hex(b); mpz_class r(s, 16); OPENSSL_free(s); return r; }
static Curve* mk(const char* p, const char* a, const char* b, const char* gx, const char* gy, const char* n)
{
    Curve* c = new Curve;
    c->p = mpz_class(p, 16); c->a = mpz_class(a, 16); c->b = mpz_class(b, 16); c->n = mpz_class(n, 16);
    c->g = Pt(mpz_class(gx, 16), mpz_class(gy, 16));
    BIGNUM *bp = bn(c->p), *ba = bn(c->a), *bb = bn(c->b);
    c->grp = EC_GROUP_new_curve_GFp(bp, ba, bb, ctx);
    BN_free(bp); BN_free(ba); BN_free(bb);
    if (!c->grp) { fprintf(stderr, "reference curve\n"); exit(2); }
    return c;
}
void init()
{
    ctx = BN_CTX_new();
    P = mk("ffffffff00000001000000000000000000000000ffffffffffffffffffffffff", "ffffffff00000001000000000000000000000000fffffffffffffffffffffffc",
           "5ac635d8aa3a93e7b3ebbd55769886bc651d06b0cc53b0f63bce3c3e27d2604b", "6b17d1f2e12c4247f8bce6e563a440f277037d812deb33a0f4a13945d898c296",
           "4fe342e2fe1a7f9b8ee7eb4a7c0f9e162bce33576b315ececbb6406837bf51f5", "ffffffff00000000ffffffffffffffffbce6faada7179e84f3b9cac2fc632551");
    B = mk("2523648240000001BA344D80000000086121000000000013A700000000000013", "0", "2",
           "2523648240000001BA344D80000000086121000000000013A700000000000012", "1", "2523648240000001BA344D8000000007FF9F800000000010A10000000000000D");
    // cross-check the two independent implementations and the standard parameters once per process
    EC_GROUP* std256 = EC_GROUP_new_by_curve_name(NID_X9_62_prime256v1);
    EC_POINT* q = EC_POINT_new(std256);
    BIGNUM *k = bn(mpz_class("123456789abcdef0fedcba9876543210", 16)), *x = BN_new(), *y = BN_new();
    EC_POINT_mul(std256, q, k, 0, 0, ctx);
    EC_POINT_get_affine_coordinates(std256, q, x, y, ctx);
    Pt want(mp(x), mp(y)), R = P->mul(P->g, mpz_class("123456789abcdef0fedcba9876543210", 16)), S, D = P->g;
    for (mpz_class e("123456789abcdef0fedcba9876543210", 16); e > 0; e >>= 1) { if (mpz_odd_p(e.get_mpz_t())) S = P->add(S, D); D = P->add(D, D); }
    bool ok = R == want && S == want && B->on(B->g) && B->mul(B->g, B->n - 1) == B->neg(B->g) && P->mul(P->g, P->n - 1) == P->neg(P->g);
    BN_free(k); BN_free(x); BN_free(y); EC_POINT_free(q); EC_GROUP_free(std256);
    if (!ok) { fprintf(stderr, "reference self-test failed\n"); exit(2); }
}
const Curve& p256() { return *P; }
const Curve& bn254() { return *B; }
Pt Curve::neg(const Pt& A) const { return A.inf ? A : Pt(A.x, mod(-A.y, p)); }
bool Curve::on(const Pt& A) const { return A.inf || (A.x >= 0 && A.x < p && A.y >= 0 && A.y < p && mod(A.x * A.x * A.x + a * A.x + b - A.y * A.y, p) == 0); }
Pt Curve::add(const Pt& A, const Pt& C) const
{
    if (A.inf) return C;
    if (C.inf) return A;
    mpz_class l;
    if (A.x == C.x)
    {
        if (mod(A.y + C.y, p) == 0) return Pt();
        l = (3 * A.x * A.x + a) * inv(mod(2 * A.y, p), p);
    }
    else
        l = (C.y - A.y) * inv(mod(C.x - A.x, p), p);
    mpz_class x = mod(l * l - A.x - C.x, p);
    return Pt(x, mod(l * (A.x - x) - A.y, p));
}
Pt Curve::mul(const Pt& A, const mpz_class& k0) const
{
    mpz_class k = mod(k0, n);
    if (A.inf || k == 0) return Pt();
    EC_GROUP* G = (EC_GROUP*)grp;
    EC_POINT *s = EC_POINT_new(G), *t = EC_POINT_new(G);
    BIGNUM *x = bn(A.x), *y = bn(A.y), *e = bn(k);
    Pt R;
    if (!EC_POINT_set_affine_coordinates(G, s, x, y, ctx)) 
        throw sim::Violation{"invalid-point", "the library produced a point that is not on the curve: " + A.str()};
    EC_POINT_mul(G, t, 0, s, e, ctx);
    if (!EC_POINT_is_at_infinity(G, t))
    {
        EC_POINT_get_affine_coordinates(G, t, x, y, ctx);
        R = Pt(mp(x), mp(y));
    }
    BN_free(x); BN_free(y); BN_free(e); EC_POINT_free(s); EC_POINT_free(t);
    return R;
}
bool Curve::lift(const mpz_class& x0, Pt& out, bool odd) const
{
    mpz_class x = mod(x0, p), r = mod(x * x * x + a * x + b, p), y;
    if (mpz_legendre(r.get_mpz_t(), p.get_mpz_t()) < 0) return false;
    mpz_class e = (p + 1) / 4;
    mpz_powm(y.get_mpz_t(), r.get_mpz_t(), e.get_mpz_t(), p.get_mpz_t());
    if ((mpz_odd_p(y.get_mpz_t()) != 0) != odd) y = mod(-y, p);
    out = Pt(x, y);
    return true;
}
}
