// Executes the commands of spec/rings.qnt on IntegerRing, RationalField and NumberField.
#define VERIF_NO_YAP_ARF
#include "common.hpp"

#include <e-antic/renfxx.h>

#include <optional>
#include <variant>

#include "exact-real/integer_ring.hpp"
#include "exact-real/number_field.hpp"
#include "exact-real/rational_field.hpp"

using namespace exactreal;
using K = eantic::renf_elem_class;

constexpr int SLOTS = 6, FIELDS = 8;
static std::variant<std::monostate, mpz_class, mpq_class, K> slot[SLOTS];
static NumberField field[FIELDS];
static const int DEGREE[FIELDS] = {1, 2, 3, 2, 2, 2, 1, 3};

template <typename C>
struct RingOf;
template <> struct RingOf<mpz_class> { using type = IntegerRing; };
template <> struct RingOf<mpq_class> { using type = RationalField; };
template <> struct RingOf<K> { using type = NumberField; };

// The field among the known ones, compared without using libexactreal
static int fieldOf(const eantic::renf_class& k) {
  for (int f = 0; f < FIELDS; f++)
    if (k == *field[f].parameters) return f;
  throw std::logic_error("unknown field");
}

static mpq_class rational(const mpz_class& n, const mpz_class& d) {
  mpq_class q(n, d);
  q.canonicalize();
  return q;
}
// d, a0, a1, a2
static K element(int f, const Words& a, size_t o) {
  if (DEGREE[f] == 1) return K(*field[f].parameters, rational(a[o + 1], a[o]));
  std::vector<mpq_class> c;
  for (int i = 0; i < DEGREE[f]; i++) c.push_back(rational(a[o + 1 + i], a[o]));
  return K(*field[f].parameters, c);
}

static void dump(const mpz_class& c, Report& r) { r << 1 << 0 << 1 << c << 0 << 0; }
static void dump(const mpq_class& c, Report& r) {
  mpq_class q = c;
  q.canonicalize();
  if (q.get_num() != c.get_num() || q.get_den() != c.get_den()) throw std::logic_error("coefficient is not in lowest terms");
  r << 2 << 0 << c.get_den() << c.get_num() << 0 << 0;
}
static void dump(const K& c, Report& r) {
  const int f = fieldOf(c.parent());
  r << 3 << f;
  if (c.is_rational()) {
    auto q = static_cast<mpq_class>(c);
    r << q.get_den() << q.get_num() << 0 << 0;
    return;
  }
  auto num = c.num_vector();
  r << c.den();
  for (size_t i = 0; i < 3; i++) r << (i < num.size() ? num[i] : mpz_class(0));
}

template <typename F>
static void with(int s, F&& f) {
  std::visit([&](auto& x) {
    if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) f(x);
    else throw std::logic_error("empty slot");
  }, slot[s]);
}

template <typename F>
static void scalar(const Words& a, size_t o, F&& f) {
  const mpz_class& v = a[o + 2];
  switch (a[o].get_si()) {
    case 0: f(static_cast<short>(v.get_si())); break;
    case 1: f(static_cast<unsigned short>(v.get_ui())); break;
    case 2: f(static_cast<int>(v.get_si())); break;
    case 3: f(static_cast<unsigned int>(v.get_ui())); break;
    case 4: f(static_cast<long>(v.get_si())); break;
    case 5: f(static_cast<unsigned long>(v.get_ui())); break;
    case 6: f(static_cast<long long>(v.get_si())); break;
    case 7: f(static_cast<unsigned long long>(v.get_ui())); break;
    case 8: f(mpz_class(v)); break;
    case 9: f(rational(v, a[o + 1])); break;
    default: throw std::logic_error("no such scalar");
  }
}

static int fieldOf(const IntegerRing&) { return 0; }
static int fieldOf(const RationalField&) { return 0; }
static int fieldOf(const NumberField& k) { return fieldOf(*k.parameters); }

static void exec(const std::string& op, const Words& a, Report& r) {
  const auto arg = [&](size_t i) { return static_cast<int>(a[i].get_si()); };
  const int d = a.empty() ? 0 : arg(0);
  if (op == "reset") {
    for (auto& s : slot) s = std::monostate();
  } else if (op == "set") {
    if (arg(1) == 1) slot[d] = a[4];
    else if (arg(1) == 2) slot[d] = rational(a[4], a[3]);
    else slot[d] = element(arg(2), a, 3);
    with(d, [&](auto& x) { dump(x, r); });
  } else if (op == "imul" || op == "idiv" || op == "iself") {
    with(d, [&](auto& x) {
      using C = std::decay_t<decltype(x)>;
      using Ring = typename RingOf<C>::type;
      const bool times = op == "imul" || (op == "iself" && arg(1) == 0);
      bool done = false;
      const auto run = [&](const auto& y) {
        try {
          const C& res = times ? Ring::imul(x, y) : Ring::idiv(x, y);
          if (&res != &x) throw std::runtime_error("not the same object");
          done = true;
        } catch (const std::logic_error&) {
        }
      };
      if (op == "iself") run(x);
      else if (arg(1) == 10) {
        if constexpr (std::is_same_v<C, K>) run(element(arg(6), a, 2));
        else throw std::runtime_error("not in this ring");
      } else scalar(a, 1, run);
      r << done;
      dump(x, r);
    });
  } else if (op == "inspect") {
    with(d, [&](auto& x) {
      using Ring = typename RingOf<std::decay_t<decltype(x)>>::type;
      r << Ring::unit(x);
      auto q = Ring::rational(x);
      if (q) r << 1 << q->get_num() << q->get_den();
      else r << 0 << 0 << 0;
      r << Ring::floor(x);
    });
  } else if (op == "arb") {
    with(d, [&](auto& x) {
      using Ring = typename RingOf<std::decay_t<decltype(x)>>::type;
      Arb b = Ring::arb(x, arg(1));
      r.ball(b) << arb_rel_accuracy_bits(b.arb_t());
    });
  } else if (op == "ringof") {
    with(d, [&](auto& x) {
      using Ring = typename RingOf<std::decay_t<decltype(x)>>::type;
      r << fieldOf(Ring(x));
    });
  } else if (op == "rings") {
    with(d, [&](auto& x) {
      using C = std::decay_t<decltype(x)>;
      using Ring = typename RingOf<C>::type;
      const C& y = std::get<C>(slot[arg(1)]);
      Ring X(x), Y(y);
      std::hash<Ring> hash;
      r << (X == Y) << (X != Y) << (hash(X) == hash(Y));
      try {
        r << fieldOf(Ring::compositum(X, Y));
      } catch (const std::logic_error&) {
        r << -1;
      }
      try {
        auto z = X.coerce(y);
        r << 1;
        dump(z, r);
      } catch (const std::logic_error&) {
        r << 0;
      }
    });
  } else throw std::runtime_error("unknown command " + op);
}

int main() {
  field[1] = NumberField(eantic::renf_class::make("x^2 - 2", "x", "1.4 +/- 1"));
  field[2] = NumberField(*eantic::renf_class::make("x^3 - 2", "x", "1.25 +/- 0.5"));
  field[3] = NumberField(eantic::renf_class::make("x^2 - 2", "x", "-1.4 +/- 1"));
  field[4] = NumberField(eantic::renf_class::make("y^2 - 2", "y", "1.4 +/- 1"));
  field[5] = NumberField(eantic::renf_class::make("x^2 - 2", "x", "1.41421 +/- 0.001", 256));
  field[6] = NumberField(eantic::renf_class::make("x - 5", "x", "5 +/- 1"));
  field[7] = NumberField(eantic::renf_class::make("x^3 - 2", "x", "1.26 +/- 0.02"));
  return serve(exec);
}
