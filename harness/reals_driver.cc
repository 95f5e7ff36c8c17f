// Executes the commands of spec/reals.qnt on the real RealNumber class.
#include "common.hpp"

#include <memory>
#include <optional>

#include "exact-real/real_number.hpp"
#include "exact-real/seed.hpp"

using exactreal::RealNumber;
using exactreal::Seed;
using Real = std::shared_ptr<const RealNumber>;

constexpr int SLOTS = 10;
static Real slot[SLOTS];

template <typename X, typename Y>
void relations(Report& r, const X& x, const Y& y) {
  r << (x < y) << (x <= y) << (x == y) << (x != y) << (x > y) << (x >= y);
  r << (y < x) << (y <= x) << (y == x) << (y != x) << (y > x) << (y >= x);
}

static long toLong(const mpz_class& x) { return x.get_si(); }

// 2^e
static Arf pow2(long e) { return Arf(mpz_class(1), e); }

// The exponent e such that 2^(e-1) <= |x| < 2^e
static long magnitude(const Arf& x) { return arf_is_special(x.arf_t()) ? 0 : fmpz_get_si(&x.arf_t()[0].exp); }

static Arf exactSum(const Arf& x, const Arf& y) {
  Arf ret;
  arf_add(ret.arf_t(), x.arf_t(), y.arf_t(), ARF_PREC_EXACT, ARF_RND_DOWN);
  return ret;
}

// An Arf close to x: k units in the last place away from an approximation
static Arf close(const RealNumber& x, long prec, long k) {
  Arf a = x.arf(prec);
  Arf step;
  arf_set_si_2exp_si(step.arf_t(), k, magnitude(a) - std::max(prec, 0l));
  return exactSum(a, step);
}

static mpq_class toRational(const Arf& x) {
  mpq_class q;
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  arf_get_fmpz_2exp(m, e, x.arf_t());
  mpz_class mm;
  fmpz_get_mpz(mm.get_mpz_t(), m);
  long s = fmpz_get_si(e);
  q = mm;
  if (s >= 0) mpq_mul_2exp(q.get_mpq_t(), q.get_mpq_t(), s);
  else mpq_div_2exp(q.get_mpq_t(), q.get_mpq_t(), -s);
  fmpz_clear(m);
  fmpz_clear(e);
  return q;
}

// The floor of an approximation of x, at most 2^200 in absolute value
static mpz_class about(const RealNumber& x) {
  Arf a = x.arf(80);
  if (magnitude(a) > 200) return mpz_class(1) << 200;
  if (magnitude(a) < -200) return 0;
  mpq_class q = toRational(a);
  mpz_class f;
  mpz_fdiv_q(f.get_mpz_t(), q.get_num_mpz_t(), q.get_den_mpz_t());
  return f;
}

template <typename T>
static T clip(const mpz_class& n) {
  // via a string since mpz_class only knows about (unsigned) long
  mpz_class lo, hi;
  std::ostringstream l, h;
  l << +std::numeric_limits<T>::min();
  h << +std::numeric_limits<T>::max();
  lo = l.str();
  hi = h.str();
  mpz_class v = n < lo ? lo : n > hi ? hi : n;
  if constexpr (std::is_signed_v<T>) return static_cast<T>(v.get_si());
  else return static_cast<T>(v.get_ui());
}

template <typename T>
static void compareInteger(const RealNumber& x, const mpz_class& n, Report& r) {
  const T v = clip<T>(n);
  r << +v;
  relations(r, x, v);
}

static int mask(int s) {
  int m = 0;
  for (int t = 0; t < SLOTS; t++)
    if (slot[s] && slot[t] && slot[s].get() == slot[t].get()) m |= 1 << t;
  return m;
}

static Arb interval(const Arf& lo, const Arf& hi) {
  Arb ret;
  arb_set_interval_arf(ret.arb_t(), lo.arf_t(), hi.arf_t(), ARF_PREC_EXACT);
  return ret;
}

// Reads the text of a real: a factor, or a number.
struct Text {
  std::string text;
  size_t at = 0;
  bool accept(const std::string& s) {
    if (text.compare(at, s.size(), s) != 0) return false;
    at += s.size();
    return true;
  }
  bool done() const { return at == text.size(); }
  std::optional<mpz_class> integer() {
    const size_t start = at;
    if (at < text.size() && text[at] == '-') at++;
    while (at < text.size() && std::isdigit(static_cast<unsigned char>(text[at]))) at++;
    if (at == start || text[at - 1] == '-') { at = start; return {}; }
    return mpz_class(text.substr(start, at - start));
  }
  std::optional<double> number() {
    char* end;
    const double d = std::strtod(text.c_str() + at, &end);
    if (end == text.c_str() + at) return {};
    at = end - text.c_str();
    return d;
  }
  // the exact value and whether it is exact, or only its first digits
  std::optional<std::pair<Arf, bool>> arf() {
    const auto d = number();
    if (!d) return {};
    if (!accept("=")) return std::pair{Arf(*d), *d == 0};
    const auto m = integer();
    if (!m || !accept("p")) return {};
    const auto e = integer();
    if (!e) return {};
    // the digits in front must be those of the exact value
    const Arf exact(*m, toLong(*e));
    const double v = arf_get_d(exact.arf_t(), ARF_RND_NEAR);
    if (std::abs(*d - v) > 0x1p-16 * std::abs(v) && std::abs(v) > 1e-300) return {};
    return std::pair{exact, true};
  }
};

static std::string str(const RealNumber& x) {
  std::ostringstream os;
  os << x;
  return os.str();
}

// The random reals that have been created before any other.
static std::vector<Real> family;

static void exec(const std::string& op, const Words& a, Report& r) {
  if (op == "reset") {
    for (auto& s : slot) s = nullptr;
    return;
  }
  const int s = a.empty() ? 0 : toLong(a[0]);
  const auto x = [&]() -> const RealNumber& { return *slot[s]; };
  const auto stored = [&](Real y) {
    slot[s] = y;
    r << 1 << mask(s);
  };
  if (op == "rat") {
    mpq_class q(a[1], a[2]);
    q.canonicalize();
    stored(RealNumber::rational(q));
  } else if (op == "rnd") stored(RealNumber::random(Seed(static_cast<unsigned>(toLong(a[1])))));
  else if (op == "con") stored(RealNumber::random(Arf(a[2], toLong(a[3])), Arf(a[4], toLong(a[5])), Seed(static_cast<unsigned>(toLong(a[1])))));
  else if (op == "dbl") stored(RealNumber::random(std::ldexp(a[2].get_d(), toLong(a[3])), Seed(static_cast<unsigned>(toLong(a[1])))));
  else if (op == "fresh") {
    if (a[1] == 0) stored(RealNumber::random());
    else if (a[1] == 1) stored(RealNumber::random(Arf(a[2], toLong(a[3])), Arf(a[4], toLong(a[5]))));
    else stored(RealNumber::random(std::ldexp(a[2].get_d(), toLong(a[3]))));
  } else if (op == "refuse") {
    static const double values[] = {std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::numeric_limits<double>::quiet_NaN()};
    try {
      if (a[0] == 0) RealNumber::random(Arf(a[3], toLong(a[4])), Arf(a[1], toLong(a[2])), Seed(17));
      else if (a[0] == 1) RealNumber::random(Arf(a[3], toLong(a[4])), Arf(a[1], toLong(a[2])));
      else if (a[0] == 2) RealNumber::random(values[toLong(a[2]) % 3 < 0 ? 0 : toLong(a[2]) % 3], Seed(17));
      else RealNumber::random(values[toLong(a[2]) % 3 < 0 ? 1 : toLong(a[2]) % 3]);
      r << 1;
    } catch (const std::exception&) {
      r << -1;
    }
    return;
  }
  else if (op == "copy") stored(slot[toLong(a[1])]);
  else if (op == "drop") stored(nullptr);
  else if (op == "pow") {
    Real y = slot[toLong(a[1])], base = y;
    for (long n = toLong(a[2]), bit = 62 - __builtin_clzl(n); bit >= 0; bit--) {
      y = *y * *y;
      if (n >> bit & 1) y = bit % 2 ? *y * *base : *base * *y;
    }
    stored(y);
  } else if (op == "mul") stored(*slot[toLong(a[1])] * *slot[toLong(a[2])]);
  else if (op == "div") {
    auto q = *slot[toLong(a[1])] / *slot[toLong(a[2])];
    if (q) stored(*q);
    else r << 0 << 0;
  } else if (op == "refused") {
    // what is not supported must not give a wrong answer
    try {
      const RealNumber& y = *slot[toLong(a[1])];
      Real z;
      if (a[2] == 0) {
        if (auto q = x() / y) z = *q;
      } else z = x() * y;
      if (!z) r << 0;
      else if (auto q = static_cast<std::optional<mpq_class>>(*z)) r << 1 << q->get_num() << q->get_den();
      else r << 2;
    } catch (const std::logic_error&) {
      r << -1;
    }
  } else if (op == "family") {
    // products of the digits of each word, in base 25, the first one possibly to a high power; all of them are alive at the same time
    std::vector<Real> all;
    for (size_t i = 0; i < a.size(); i++) {
      std::vector<Real> factors;
      const long digits = 152587890625;  // 25^8
      for (long w = toLong(a[i]) % digits; w; w /= 25) factors.push_back(family.at(w % 25 - 1));
      // the first factor appears more often: a high power
      if (const long e = toLong(a[i]) / digits) {
        Real y = factors[0];
        for (long bit = 62 - __builtin_clzl(e); bit >= 0; bit--) {
          y = *y * *y;
          if (e >> bit & 1) y = *y * *factors[0];
        }
        factors[0] = y;
      }
      while (factors.size() > 1) {
        // from the left, from the right, or pairwise
        if (i % 4 == 0) {
          factors[1] = *factors[0] * *factors[1];
          factors.erase(factors.begin());
        } else if (i % 4 < 3) {
          const auto& y = *factors[factors.size() - 2];
          const auto& z = *factors[factors.size() - 1];
          factors[factors.size() - 2] = i % 4 == 1 ? z * y : y * z;
          factors.pop_back();
        } else {
          std::vector<Real> half;
          for (size_t j = 0; j + 1 < factors.size(); j += 2) half.push_back(*factors[j] * *factors[j + 1]);
          if (factors.size() % 2) half.push_back(factors.back());
          factors = half;
        }
      }
      all.push_back(factors.at(0));
      size_t j = 0;
      while (all[j].get() != all[i].get()) j++;
      r << j;
    }
  } else if (op == "text") {
    Text text{str(x())};
    if (const auto q = static_cast<std::optional<mpq_class>>(x())) {
      const auto n = text.integer();
      std::optional<mpz_class> d = 1;
      if (n && text.accept("/")) d = text.integer();
      if (n && d && text.done()) r << 1 << *n << *d;
      else r << -1;
    } else {
      // the factors: in which slots are they, how often do they appear?
      std::vector<std::pair<int, mpz_class>> factors;
      while (true) {
        size_t depth = 0, end = text.at;
        for (; end < text.text.size(); end++) {
          const char c = text.text[end];
          if (c == '(' || c == '[') depth++;
          else if (c == ')' || c == ']') depth--;
          else if (depth == 0 && (c == '*' || c == '^')) break;
        }
        const std::string name = text.text.substr(text.at, end - text.at);
        text.at = end;
        int m = 0;
        for (int t = 0; t < SLOTS; t++)
          if (slot[t] && str(*slot[t]) == name) m |= 1 << t;
        std::optional<mpz_class> e = 1;
        if (text.accept("^")) e = text.integer();
        if (!e || name.empty()) { r << -1; return; }
        factors.emplace_back(m, *e);
        if (text.done()) break;
        if (!text.accept("*")) { r << -1; return; }
      }
      r << 2 << factors.size();
      for (const auto& [m, e] : factors) r << m << e;
    }
  } else if (op == "name") {
    Text text{str(x())};
    if (!text.accept("ℝ(")) { r << -1; return; }
    const auto initial = text.arf();
    if (!initial) { r << -1; return; }
    if (text.accept("…)")) {
      if (!text.done()) r << -1;
      else r << 1, r.val(initial->first);
      return;
    }
    if (!text.accept(" + ℝ(")) { r << -1; return; }
    const auto inner = text.number();
    if (!inner || !text.accept("…)p")) { r << -1; return; }
    const auto e = text.integer();
    if (!e || !text.accept(")")) { r << -1; return; }
    std::optional<double> about;
    if (text.accept("[∼")) {
      about = text.number();
      if (!about || !text.accept("]")) { r << -1; return; }
    }
    if (!text.done()) { r << -1; return; }
    r << 2 << initial->second;
    r.val(initial->first).val(*inner) << *e << about.has_value();
    r.val(about ? *about : 0.);
  } else if (op == "same") {
    int eq = 0;
    for (int t = 0; t < SLOTS; t++)
      if (slot[t] && x() == *slot[t]) eq |= 1 << t;
    for (int t = 0; t < SLOTS; t++)
      if (slot[t] && (x() != *slot[t]) == !!(eq & (1 << t))) eq |= 1 << (t + 20);
    r << mask(s) << eq;
  } else if (op == "arf") r.val(x().arf(toLong(a[1])));
  else if (op == "arb") {
    Arb b = x().arb(toLong(a[1]));
    r.ball(b) << arb_rel_accuracy_bits(b.arb_t());
  } else if (op == "refine") {
    const long prec = toLong(a[1]), p = toLong(a[3]);
    Arb b = Arb::zero_pm_inf();
    switch (toLong(a[2])) {
      case 0: break;
      case 1:
      case 2: b = x().arb(p); break;
      case 3: {
        const long e = std::max(magnitude(x().arf(p)), 0l) + 2;
        b = interval(-pow2(e), pow2(e));
        break;
      }
      case 4:
      case 5: b = interval(close(x(), p, -3), close(x(), p, 3)); break;
      case 6: b = interval(close(x(), p, -7), close(x(), 2 * p, 3)); break;
      default: x().refine(b, p);
    }
    x().refine(b, prec);
    r.ball(b) << arb_rel_accuracy_bits(b.arb_t());
  } else if (op == "cmpreal") relations(r, x(), *slot[toLong(a[1])]);
  else if (op == "cmpint") {
    mpz_class n = a[3];
    if (a[2] == 1) n = (n % 3) + about(x());
    switch (toLong(a[1])) {
      case 0: case 1: compareInteger<int>(x(), n, r); break;
      case 2: compareInteger<signed char>(x(), n, r); break;
      case 3: compareInteger<short>(x(), n, r); break;
      case 4: compareInteger<unsigned short>(x(), n, r); break;
      case 5: compareInteger<unsigned char>(x(), n, r); break;
      default: compareInteger<long>(x(), n, r);
    }
  } else if (op == "cmpmpz") {
    mpz_class n = a[2];
    if (a[1] == 1) n = (n % 3) + about(x());
    r << n;
    relations(r, x(), n);
  } else if (op == "cmpmpq") {
    mpq_class q;
    if (a[1] == 1) q = toRational(close(x(), toLong(a[2]), toLong(a[3])));
    else q = mpq_class(a[2], a[3]);
    q.canonicalize();
    r << q.get_num() << q.get_den();
    relations(r, x(), q);
  } else if (op == "cmparf") {
    Arf y;
    if (a[1] == 1) y = close(x(), toLong(a[2]), toLong(a[3]));
    else if (a[1] == 2) arf_pos_inf(y.arf_t());
    else if (a[1] == 3) arf_neg_inf(y.arf_t());
    else y = Arf(a[2], toLong(a[3]));
    r.val(y);
    relations(r, x(), y);
  } else if (op == "cmparb") {
    const long p = toLong(a[2]), k = toLong(a[3]);
    Arb b;
    switch (toLong(a[1])) {
      case 0: b = x().arb(p); break;
      case 1: b = interval(close(x(), p, k), close(x(), p, k + 1)); break;
      case 2: b = interval(close(x(), p, -1), close(x(), p, 0)); break;
      case 3: b = interval(close(x(), p, 0), close(x(), p, 1)); break;
      case 4: b = Arb(close(x(), p, 0)); break;
      case 5: b = Arb::zero_pm_inf(); break;
      case 6: b = Arb(mpz_class(about(x()) + k)); break;
      case 7: {
        mpz_class n = about(x());
        b = interval(Arf(mpz_class(n + k), 0), Arf(mpz_class(n + k + 1), 0));
        break;
      }
      // end points that are equal to the real
      case 10:
      case 11: {
        b = Arb(close(x(), p, a[1] == 10 ? 1 : -1));
        arb_add_error_2exp_si(b.arb_t(), magnitude(x().arf(p)) - p);
        break;
      }
      case 12: arf_nan(arb_midref(b.arb_t())); if (k % 2) mag_inf(arb_radref(b.arb_t())); break;
      case 13: arf_pos_inf(arb_midref(b.arb_t())); break;
      case 14: arf_neg_inf(arb_midref(b.arb_t())); break;
      case 8: b = Arb(close(x(), p, k)); arb_add_error_2exp_si(b.arb_t(), magnitude(x().arf(p)) - p + 1); break;
      default: b = interval(close(x(), p, k), close(x(), p, k)); arb_add_error_2exp_si(b.arb_t(), magnitude(x().arf(p)) - 2 * p);
    }
    r.ball(b) << x().cmp(b);
  } else if (op == "double") r.val(static_cast<double>(x()));
  else if (op == "bool") r << static_cast<bool>(x());
  else if (op == "asrat") {
    auto q = static_cast<std::optional<mpq_class>>(x());
    if (q) r << 1 << q->get_num() << q->get_den();
    else r << 0 << 0 << 0;
  } else if (op == "deglex") {
    const RealNumber& y = *slot[toLong(a[1])];
    r << x().deglex(y) << y.deglex(x());
  } else if (op == "churn") {
    // Push everything out of the caches that can be pushed out.
    const long i = toLong(a[0]);
    if (i % 4 == 0) {
      Real u = RealNumber::random(Seed(700u + static_cast<unsigned>(i)));
      std::vector<Real> powers{u};
      for (int k = 0; k < 36; k++) powers.push_back(RealNumber::random(Seed(800u + k)));
      Real w = u;
      for (auto& p : powers)
        for (auto& q : powers) w = *p * *q;
    } else {
      for (auto& t : slot)
        if (t)
          for (long p = 1; p <= 140; p++) t->arf(3 * i + p);
    }
    r << 0;
  } else throw std::logic_error("unknown command " + op);
}

int main() {
  // before anything else: small identifiers
  for (unsigned i = 0; i < 24; i++) family.push_back(RealNumber::random(Seed(900000u + i)));
  // A different history before anything is observed: other identifiers, other
  // addresses, warm caches.
  static std::vector<Real> old;
  if (std::getenv("VERIF_PREHISTORY")) {
    for (unsigned s = 12; s > 0; s--) {
      old.push_back(RealNumber::random(Seed(s)));
      old.back()->arf(100 + s);
    }
    for (int i = 0; i < 100; i++) RealNumber::random();
    for (int i = 0; i < 8; i++) old.push_back(*old[i] * *old[i + 3]);
    old.resize(6);
  }
  return serve(exec);
}
