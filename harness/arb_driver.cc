// Executes the commands of spec/arb.qnt on the real Arb class.
#define VERIF_NO_YAP_ARF
#include "common.hpp"

#include <e-antic/renfxx.h>

#include "exact-real/cppyy.hpp"

namespace cppyy = exactreal::cppyy;
using Bounds = std::pair<Arf, Arf>;
constexpr int REGS = 5;
static Arb R[REGS];
// Deep copies of the registers that libexactreal does not know about.
static arb_t shadow[REGS];

static long L(const mpz_class& x) { return x.get_si(); }

template <typename F>
void binary(int o, F&& f) {
  if (o == 0) f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b); });
  else if (o == 1) f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b); });
  else if (o == 2) f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) * std::forward<decltype(b)>(b); });
  else f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) / std::forward<decltype(b)>(b); });
}

template <typename F>
void integer(int ty, const mpz_class& i, F&& f) {
  const long s = i.get_si();
  const unsigned long u = i.get_ui();
  if (ty == 0) f(static_cast<short>(s));
  else if (ty == 1) f(static_cast<unsigned short>(s));
  else if (ty == 2) f(static_cast<int>(s));
  else if (ty == 3) f(static_cast<unsigned int>(s));
  else if (ty == 4) f(s);
  else if (ty == 5) f(u);
  else if (ty == 6) f(static_cast<long long>(s));
  else f(static_cast<unsigned long long>(u));
}

static void tri(Report& r, const std::optional<bool>& b) { r << (b ? static_cast<int>(*b) : 2); }

template <typename X, typename Y>
void relations(Report& r, const X& x, const Y& y) {
  tri(r, x < y);
  tri(r, x <= y);
  tri(r, x == y);
  tri(r, x != y);
  tri(r, x > y);
  tri(r, x >= y);
}

static void exactBall(Report& r, const Arb& x) {
  arf_t rad;
  arf_init(rad);
  arf_set_mag(rad, arb_radref(x.arb_t()));
  r.val(arb_midref(x.arb_t()));
  r.val(rad);
  arf_clear(rad);
}

static unsigned changed() {
  unsigned mask = 0;
  for (int i = 0; i < REGS; i++) mask |= static_cast<unsigned>(!arb_equal(shadow[i], R[i].arb_t())) << i;
  return mask;
}

static void synchronize() {
  for (int i = 0; i < REGS; i++) arb_set(shadow[i], R[i].arb_t());
}

static mpz_class toMpz(const fmpz_t x) {
  mpz_class ret;
  fmpz_get_mpz(ret.get_mpz_t(), x);
  return ret;
}

// A point of the ball: 0 lower end, 1 midpoint, 2 upper end; 0 if there is none, or if it is huge
static mpq_class position(const Arb& x, int which) {
  mpq_class ret;
  arf_t y, rad;
  arf_init(y);
  arf_init(rad);
  arf_set(y, arb_midref(x.arb_t()));
  arf_set_mag(rad, arb_radref(x.arb_t()));
  if (arf_is_finite(y) && arf_is_finite(rad)) {
    if (which == 0) arf_sub(y, y, rad, ARF_PREC_EXACT, ARF_RND_DOWN);
    if (which == 2) arf_add(y, y, rad, ARF_PREC_EXACT, ARF_RND_DOWN);
    fmpz_t m, e;
    fmpz_init(m);
    fmpz_init(e);
    arf_get_fmpz_2exp(m, e, y);
    if (fmpz_cmp_si(e, 4000) < 0 && fmpz_cmp_si(e, -4000) > 0) {
      ret = toMpz(m);
      const long s = fmpz_get_si(e);
      if (s >= 0) mpq_mul_2exp(ret.get_mpq_t(), ret.get_mpq_t(), s);
      else mpq_div_2exp(ret.get_mpq_t(), ret.get_mpq_t(), -s);
    }
    fmpz_clear(m);
    fmpz_clear(e);
  }
  arf_clear(y);
  arf_clear(rad);
  return ret;
}

static mpz_class floorOf(const mpq_class& q) {
  mpz_class ret;
  mpz_fdiv_q(ret.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return ret;
}

static const mpz_class LOWER[] = {-32768, 0, mpz_class("-2147483648"), 0, mpz_class("-9223372036854775808"), 0, mpz_class("-9223372036854775808"), 0};
static const mpz_class UPPER[] = {32767, 65535, mpz_class("2147483647"), mpz_class("4294967295"), mpz_class("9223372036854775807"), mpz_class("18446744073709551615"), mpz_class("9223372036854775807"), mpz_class("18446744073709551615")};

static const eantic::renf_class& field() {
  static const auto K = eantic::renf_class::make("a^2 - 2", "a", "1.4142 +/- 0.001", 64);
  return *K;
}

template <typename F>
static void pybinary(int o, F f) {
  if (o == 0) f([](const auto& x, const auto& y) { return cppyy::add(x, y); });
  else if (o == 1) f([](const auto& x, const auto& y) { return cppyy::sub(x, y); });
  else if (o == 2) f([](const auto& x, const auto& y) { return cppyy::mul(x, y); });
  else f([](const auto& x, const auto& y) { return cppyy::truediv(x, y); });
}

static void expression(int shape, int o1, int o2, Arb& D, const Arb& A, const Arb& B, const Arb& C, long p) {
  if (shape == 0) binary(o1, [&](auto f) { D = f(A, B)(p); });
  else if (shape == 1) binary(o1, [&](auto f) { binary(o2, [&](auto g) { D = g(f(A, B), C)(p); }); });
  else if (shape == 2) binary(o1, [&](auto f) { binary(o2, [&](auto g) { D = f(A, g(B, C))(p); }); });
  else if (shape == 3) binary(o1, [&](auto f) { D = (-f(A, B))(p); });
  else if (shape == 4) binary(o1, [&](auto f) { D = f(-A, B)(p); });
  else if (shape == 5) binary(o1, [&](auto f) { binary(o2, [&](auto g) { D = f(A, -g(B, C))(p); }); });
  else if (shape == 6) binary(o1, [&](auto f) { binary(o2, [&](auto g) { D = f(A, g(B, C)(p))(p); }); });
  else if (shape == 7) binary(o1, [&](auto f) {
    Arb t(f(A, B)(p));
    D = t;
  });
  // the functions that Python uses
  else if (shape == 8) pybinary(o1, [&](auto f) { D = cppyy::eval(f(A, B), p); });
  else pybinary(o1, [&](auto f) { pybinary(o2, [&](auto g) { D = cppyy::eval(cppyy::neg(g(f(A, B), C)), p); }); });
}

// A decimal number as an integer with a decimal exponent
static bool decimal(std::string t, mpz_class& mantissa, mpz_class& exponent) {
  exponent = 0;
  const auto e = t.find('e');
  if (e != std::string::npos) {
    std::string x = t.substr(e + 1);
    if (!x.empty() && x[0] == '+') x = x.substr(1);
    if (exponent.set_str(x, 10)) return false;
    t = t.substr(0, e);
  }
  const auto dot = t.find('.');
  if (dot != std::string::npos) {
    exponent -= static_cast<long>(t.size() - dot - 1);
    t.erase(dot, 1);
  }
  return mantissa.set_str(t, 10) == 0;
}

// The text of a ball: [mid +/- rad], [+/- rad], or mid
static void readBall(std::string t, Report& r) {
  if (t.find("nan") != std::string::npos) {
    r << 2 << 0 << 0 << 0 << 0;
    return;
  }
  if (t.find("inf") != std::string::npos) {
    r << 1 << 0 << 0 << 0 << 0;
    return;
  }
  mpz_class m = 0, me = 0, d = 0, de = 0;
  bool ok = true;
  if (t[0] == '[') {
    t = t.substr(1, t.size() - 2);
    const auto pm = t.find("+/- ");
    ok = pm != std::string::npos;
    if (ok && pm > 0) ok = decimal(t.substr(0, pm - 1), m, me);
    if (ok) ok = decimal(t.substr(pm + 4), d, de);
  } else ok = decimal(t, m, me);
  if (!ok) throw std::logic_error("cannot make sense of " + t);
  r << 0 << m << me << d << de;
}

static void exec(const std::string& op, const Words& a, Report& r) {
  if (op == "reset") {
    for (auto& x : R) x = Arb();
    synchronize();
    return;
  }
  const int d = static_cast<int>(L(a[0]));
  Arb& D = R[d];
  if (op == "cmp" || op == "cmpint" || op == "cmpmpq" || op == "flags" || op == "equal" || op == "conv" || op == "text") {
    Report s;
    if (op == "cmp") relations(s, D, R[L(a[1])]);
    else if (op == "cmpint") {
      const int ty = L(a[1]), mode = L(a[2]);
      mpz_class i = a[3];
      if (mode < 3) i += floorOf(position(D, mode));
      if (i < LOWER[ty]) i = LOWER[ty];
      if (i > UPPER[ty]) i = UPPER[ty];
      s << i;
      integer(ty, i, [&](auto n) { relations(s, D, n); });
    } else if (op == "cmpmpq") {
      const int mode = L(a[1]);
      mpq_class q;
      if (mode == 3) {
        q = mpq_class(a[2], a[3]);
        q.canonicalize();
      } else {
        q = position(D, mode);
        // q + small/(2^s*den), with a denominator that is not a power of two
        mpz_class den = a[4];
        mpz_mul_2exp(den.get_mpz_t(), den.get_mpz_t(), L(a[3]));
        mpq_class offset(a[2], den);
        offset.canonicalize();
        q += offset;
      }
      s << q.get_num() << q.get_den();
      relations(s, D, q);
    } else if (op == "flags") s << D.is_exact() << D.is_finite();
    else if (op == "equal") s << D.equal(R[L(a[1])]);
    else if (op == "text") {
      std::ostringstream os;
      os.precision(L(a[1]));
      os << D;
      readBall(os.str(), s);
      Arb back(os.str(), 400);
      s.val(arb_midref(back.arb_t()));
      arf_t rad;
      arf_init_set_mag_shallow(rad, arb_radref(back.arb_t()));
      s.val(rad);
    } else {
      s.val(static_cast<double>(D));
      s.val(static_cast<Arf>(D));
      const auto bounds = static_cast<Bounds>(D);
      s.val(bounds.first);
      s.val(bounds.second);
    }
    r << changed();
    r.os << s.os.str();
    synchronize();
    return;
  }
  if (op == "ball") {
    arf_t rad;
    arf_init(rad);
    fmpz_t m, e;
    fmpz_init(m);
    fmpz_init(e);
    fmpz_set_mpz(m, a[1].get_mpz_t());
    fmpz_set_mpz(e, a[2].get_mpz_t());
    arf_set_fmpz_2exp(arb_midref(D.arb_t()), m, e);
    fmpz_set_mpz(m, a[3].get_mpz_t());
    fmpz_set_mpz(e, a[4].get_mpz_t());
    arf_set_fmpz_2exp(rad, m, e);
    arf_get_mag(arb_radref(D.arb_t()), rad);
    fmpz_clear(m);
    fmpz_clear(e);
    arf_clear(rad);
  } else if (op == "constant") {
    const int k = L(a[1]);
    D = k == 0 ? Arb::zero() : k == 1 ? Arb::one() : k == 2 ? Arb::pos_inf() : k == 3 ? Arb::neg_inf() : k == 4 ? Arb::zero_pm_inf() : k == 5 ? Arb::indeterminate() : k == 6 ? Arb::zero_pm_one() : Arb::unit_interval();
  } else if (op == "int") integer(L(a[1]), a[2], [&](auto n) {
      if (a[3] == 0) D = Arb(n);
      else D = n;
    });
  else if (op == "mpz") {
    if (a[2] == 0) D = Arb(a[1]);
    else D = a[1];
  } else if (op == "arf") D = Arb(Arf(a[1], L(a[2])));
  else if (op == "mpq") {
    mpq_class q(a[1], a[2]);
    q.canonicalize();
    D = a[3] < 0 ? Arb(q) : Arb(q, L(a[3]));
  } else if (op == "str") {
    // digits, decimal exponent, radius, precision, notation
    std::string s = a[1].get_str(), rad = a[3].get_str();
    const long e = L(a[2]);
    if (a[5] == 0) {
      s += "e" + std::to_string(e);
      rad += "e" + std::to_string(e);
    } else if (e >= 0) {
      s += std::string(e, '0') + (a[5] == 1 ? "." : "");
      rad += std::string(e, '0');
    } else {
      const bool negative = s[0] == '-';
      if (negative) s = s.substr(1);
      if (static_cast<long>(s.size()) <= -e) s = std::string(-e + 1 - s.size(), '0') + s;
      s = (negative ? "-" : "") + s.substr(0, s.size() + e) + "." + s.substr(s.size() + e);
      rad += "e" + std::to_string(e);
    }
    D = Arb(a[3] == 0 ? s : "[" + s + " +/- " + rad + "]", L(a[4]));
  } else if (op == "pair") {
    const Bounds bounds{Arf(a[1], L(a[2])), Arf(a[3], L(a[4]))};
    D = a[5] < 0 ? Arb(bounds) : Arb(bounds, L(a[5]));
  } else if (op == "renf") {
    mpq_class p(a[1], a[3]), q(a[2], a[3]);
    p.canonicalize();
    q.canonicalize();
    const eantic::renf_elem_class x(field(), std::vector<mpq_class>{p, q});
    D = a[4] < 0 ? Arb(x) : Arb(x, L(a[4]));
  } else if (op == "copy") {
    Arb t(R[L(a[1])]);
    arb_swap(D.arb_t(), t.arb_t());
  } else if (op == "assign") D = R[L(a[1])];
  else if (op == "selfassign") {
    Arb& alias = D;
    D = alias;
  } else if (op == "selfmove") {
    Arb& alias = D;
    D = std::move(alias);
  } else if (op == "move") {
    Arb t(std::move(R[L(a[1])]));
    R[L(a[1])] = L(a[2]);
    D = t;
  } else if (op == "moveassign") {
    D = std::move(R[L(a[1])]);
    R[L(a[1])] = L(a[2]);
  } else if (op == "swap") swap(D, R[L(a[1])]);
  else if (op == "stdswap") std::swap(D, R[L(a[1])]);
  else if (op == "neg") D = R[L(a[1])].operator-();
  else if (op == "negexpr") D = -R[L(a[1])];
  else if (op == "expr") expression(L(a[1]), L(a[2]), L(a[3]), D, R[L(a[4])], R[L(a[5])], R[L(a[6])], L(a[7]));
  else if (op == "inplace") {
    const int o = L(a[1]);
    const Arb& B = R[L(a[2])];
    const long p = L(a[3]);
    if (o == 0) D += B(p);
    else if (o == 1) D -= B(p);
    else if (o == 2) D *= B(p);
    else D /= B(p);
  } else if (op == "inplaceexpr") {
    const int o = L(a[1]);
    const Arb &B = R[L(a[3])], &C = R[L(a[4])];
    const long p = L(a[5]);
    binary(L(a[2]), [&](auto f) {
      if (o == 0) D += f(B, C)(p);
      else if (o == 1) D -= f(B, C)(p);
      else if (o == 2) D *= f(B, C)(p);
      else D /= f(B, C)(p);
    });
  } else if (op == "mixed") {
    const Arb& A = R[L(a[2])];
    const long p = L(a[6]);
    binary(L(a[1]), [&](auto f) {
      const auto perform = [&](const auto n) {
        if (a[3] == 1) D = f(n, A)(p);
        else D = f(A, n)(p);
      };
      if (a[4] == 2) perform(static_cast<int>(a[5].get_si()));
      else if (a[4] == 4) perform(static_cast<slong>(a[5].get_si()));
      else perform(static_cast<ulong>(a[5].get_ui()));
    });
  } else throw std::logic_error("unknown command " + op);

  r << changed();
  exactBall(r, D);
  if (op == "move" || op == "moveassign" || op == "swap" || op == "stdswap") exactBall(r, R[L(a[1])]);
  synchronize();
}

int main() {
  for (auto& x : shadow) arb_init(x);
  return serve(exec);
}
