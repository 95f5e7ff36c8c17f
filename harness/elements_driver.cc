// Executes the commands of spec/elements.qnt on the real Element and Module classes.
#define VERIF_NO_YAP_ARF
#include "common.hpp"

#include <e-antic/renfxx.h>

#include <algorithm>
#include <memory>
#include <optional>
#include <variant>

#include "exact-real/cppyy.hpp"
#include "exact-real/element.hpp"
#include "exact-real/integer_ring.hpp"
#include "exact-real/module.hpp"
#include "exact-real/number_field.hpp"
#include "exact-real/rational_field.hpp"
#include "exact-real/real_number.hpp"
#include "exact-real/seed.hpp"

using namespace exactreal;
using Real = std::shared_ptr<const RealNumber>;
using EZ = Element<IntegerRing>;
using EQ = Element<RationalField>;
using EK = Element<NumberField>;

constexpr int SLOTS = 8;
static std::variant<std::monostate, EZ, EQ, EK> slot[SLOTS];
static Real atom[4];
static NumberField field[3];

static long toLong(const mpz_class& x) { return x.get_si(); }

template <typename Ring>
constexpr int typeOf = std::is_same_v<Ring, IntegerRing> ? 1 : std::is_same_v<Ring, RationalField> ? 2 : 3;

template <typename T>
struct RingOf;
template <typename R>
struct RingOf<Element<R>> {
  using type = R;
};

static int fieldOf(const NumberField& K) {
  if (K.parameters->degree() == 1) return 0;
  for (int f = 1; f < 3; f++)
    if (K == field[f]) return f;
  throw std::logic_error("unknown field");
}
template <typename Ring>
static int fieldIndex(const Ring& ring) {
  if constexpr (std::is_same_v<Ring, NumberField>) return fieldOf(ring);
  else return 0;
}
template <typename Ring>
static Ring makeRing(int f) {
  if constexpr (std::is_same_v<Ring, NumberField>) return field[f];
  else return Ring();
}

// --- generators ------------------------------------------------------------------
static Real monomial(int code) {
  Real ret = RealNumber::rational(1);
  for (int i = 0; i < 4; i++)
    for (int k = (code >> (3 * i)) & 7; k > 0; k--) ret = *ret * *atom[i];
  return ret;
}
static Real generator(const mpz_class& n, const mpz_class& d, const mpz_class& code) {
  if (code != 0) return monomial(static_cast<int>(toLong(code)));
  mpq_class q(n, d);
  q.canonicalize();
  return RealNumber::rational(q);
}
static void describe(const RealNumber& g, Report& r) {
  auto q = static_cast<std::optional<mpq_class>>(g);
  if (q) {
    r << q->get_num() << q->get_den() << 0;
    return;
  }
  int code = 0;
  Real rest = g.shared_from_this();
  for (int i = 0; i < 4; i++)
    while (!static_cast<std::optional<mpq_class>>(*rest)) {
      auto next = *rest / *atom[i];
      if (!next) break;
      rest = *next;
      code += 1 << (3 * i);
    }
  if (*rest != 1) throw std::logic_error("unknown generator");
  r << 1 << 1 << code;
}

// --- coefficients ------------------------------------------------------------------
template <typename Ring>
static typename Ring::ElementClass coefficient(int f, const Words& a, size_t o) {
  if constexpr (std::is_same_v<Ring, IntegerRing>) {
    return a[o + 1];
  } else if constexpr (std::is_same_v<Ring, RationalField>) {
    mpq_class q(a[o + 1], a[o]);
    q.canonicalize();
    return q;
  } else {
    std::vector<mpq_class> c;
    for (int i = 0; i <= f; i++) {
      mpq_class q(a[o + 1 + i], a[o]);
      q.canonicalize();
      c.push_back(q);
    }
    return eantic::renf_elem_class(*field[f].parameters, c);
  }
}
static void reportCoefficient(const mpz_class& c, int, Report& r) { r << 1 << c; }
static void reportCoefficient(const mpq_class& c, int, Report& r) {
  mpq_class q = c;
  q.canonicalize();
  if (q.get_num() != c.get_num()) throw std::logic_error("coefficient is not in lowest terms");
  r << c.get_den() << c.get_num();
}
static void reportCoefficient(const eantic::renf_elem_class& c, int f, Report& r) {
  auto num = c.num_vector();
  r << c.den();
  for (int i = 0; i <= f; i++) r << (i < static_cast<int>(num.size()) ? num[i] : mpz_class(0));
  for (size_t i = f + 1; i < num.size(); i++)
    if (num[i] != 0) throw std::logic_error("coefficient is not in the ring");
}

template <typename Ring>
static void dump(const Element<Ring>& x, Report& r) {
  const auto& module = x.module();
  const auto& basis = module->basis();
  const int f = fieldIndex(module->ring());
  bool sorted = module->rank() == static_cast<size>(basis.size());
  for (size_t i = 1; i < basis.size(); i++)
    if (!basis[i - 1]->deglex(*basis[i])) sorted = false;
  int mask = 0;
  for (int s = 0; s < SLOTS; s++)
    if (auto y = std::get_if<Element<Ring>>(&slot[s]))
      if (y->module() == module && *y->module() == *module) mask |= 1 << s;
  r << typeOf<Ring> << f << basis.size() << sorted << mask;
  const auto coefficients = x.coefficients();
  for (size_t i = 0; i < basis.size(); i++) {
    describe(*basis[i], r);
    if (coefficients[i] != x[static_cast<size>(i)]) throw std::logic_error("coefficients are not consistent");
    reportCoefficient(coefficients[i], f, r);
  }
}

static void dumpSlot(int d, Report& r) {
  std::visit([&](const auto& x) {
    if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) dump(x, r);
    else throw std::logic_error("empty slot");
  }, slot[d]);
}

template <typename F>
static void with(int s, F&& f) {
  std::visit([&](auto& x) {
    if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) f(x);
    else throw std::logic_error("empty slot");
  }, slot[s]);
}
// with two elements of the same type
template <typename F>
static void with(int s, int t, F&& f) {
  with(s, [&](auto& x) { f(x, std::get<std::decay_t<decltype(x)>>(slot[t])); });
}

template <typename F>
static void dispatch(long t, F&& f) {
  if (t == 1) f(IntegerRing());
  else if (t == 2) f(RationalField());
  else f(NumberField());
}

// n generators from position o on, each w words
static std::vector<Real> gens(const Words& a, size_t o, size_t n, size_t w) {
  std::vector<Real> ret;
  for (size_t i = 0; i < n; i++) ret.push_back(generator(a[o + w * i], a[o + w * i + 1], a[o + w * i + 2]));
  return ret;
}

template <typename Ring>
static Element<Ring> make(const Words& a, size_t o) {
  const int f = static_cast<int>(toLong(a[o + 1]));
  const size_t n = toLong(a[o + 2]);
  auto basis = gens(a, o + 3, n, 7);
  auto module = Module<Ring>::make(basis, makeRing<Ring>(f));
  std::vector<typename Ring::ElementClass> coefficients;
  for (auto& g : module->basis()) {
    const size_t i = std::find_if(begin(basis), end(basis), [&](const auto& h) { return *g == *h; }) - begin(basis);
    coefficients.push_back(coefficient<Ring>(f, a, o + 3 + 7 * i + 3));
  }
  return Element<Ring>(module, coefficients);
}

// Call f with a scalar [kind, d, a0, a1, a2]
template <typename Ring, typename F>
static void scalar(const Ring& ring, const Words& a, size_t o, F&& f) {
  const mpz_class& v = a[o + 2];
  switch (toLong(a[o])) {
    case 0: f(static_cast<short>(v.get_si())); break;
    case 1: f(static_cast<unsigned short>(v.get_ui())); break;
    case 2: f(static_cast<int>(v.get_si())); break;
    case 3: f(static_cast<unsigned int>(v.get_ui())); break;
    case 4: f(static_cast<long>(v.get_si())); break;
    case 5: f(static_cast<unsigned long>(v.get_ui())); break;
    case 6: f(static_cast<long long>(v.get_si())); break;
    case 7: f(static_cast<unsigned long long>(v.get_ui())); break;
    case 8: f(mpz_class(v)); break;
    case 9: {
      mpq_class q(v, a[o + 1]);
      q.canonicalize();
      f(q);
      break;
    }
    default: f(coefficient<Ring>(fieldIndex(ring), a, o + 1));
  }
}

template <typename X, typename Y>
void relations(Report& r, const X& x, const Y& y) {
  r << (x < y) << (x <= y) << (x == y) << (x != y) << (x > y) << (x >= y);
  r << (y < x) << (y <= x) << (y == x) << (y != x) << (y > x) << (y >= x);
}

static Arf pow2(long e) { return Arf(mpz_class(1), e); }

// An integer close to 2^k*x
template <typename Ring>
static mpz_class about(const Element<Ring>& x, long k) {
  if (!x) return 0;
  Arb b = x.arb(64);
  const long magnitude = arf_is_special(arb_midref(b.arb_t())) ? 0 : fmpz_get_si(&arb_midref(b.arb_t())[0].exp);
  b = x.arb(std::max(64l, k + magnitude + 64));
  arf_t scaled;
  arf_init(scaled);
  arf_mul_2exp_si(scaled, arb_midref(b.arb_t()), k);
  fmpz_t n;
  fmpz_init(n);
  arf_get_fmpz(n, scaled, ARF_RND_FLOOR);
  mpz_class ret;
  fmpz_get_mpz(ret.get_mpz_t(), n);
  fmpz_clear(n);
  arf_clear(scaled);
  return ret;
}

// Replay an expression; report 1 and slot d, or a failure
template <typename F>
static void attempt(int, Report& r, F&& f) {
  bool done = false;
  try {
    f();
    done = true;
  } catch (const std::exception&) {
  }
  r << done;
}

// --- text --------------------------------------------------------------------------
template <typename T>
static std::string str(const T& x) {
  std::ostringstream os;
  os << x;
  return os.str();
}

// Reads text from left to right
struct Reader {
  std::string text;
  size_t at = 0;
  bool accept(const std::string& token) {
    if (text.compare(at, token.size(), token) != 0) return false;
    at += token.size();
    return true;
  }
  bool done() const { return at == text.size(); }
  std::optional<mpq_class> rational() {
    size_t end = at;
    if (end < text.size() && text[end] == '-') end++;
    const size_t digits = end;
    while (end < text.size() && std::isdigit(text[end])) end++;
    if (end == digits) return std::nullopt;
    if (end + 1 < text.size() && text[end] == '/' && std::isdigit(text[end + 1])) {
      end++;
      while (end < text.size() && std::isdigit(text[end])) end++;
    }
    mpq_class q(text.substr(at, end - at));
    q.canonicalize();
    at = end;
    return q;
  }
  // A non-rational generator
  const RealNumber* generator(const std::vector<Real>& basis) {
    const RealNumber* best = nullptr;
    size_t length = 0;
    for (auto& g : basis) {
      if (static_cast<std::optional<mpq_class>>(*g)) continue;
      const auto name = str(*g);
      if (text.compare(at, name.size(), name) == 0 && name.size() > length) {
        best = g.get();
        length = name.size();
      }
    }
    at += length;
    return best;
  }
};

template <typename Ring>
static void readElement(const Element<Ring>& x, Report& r) {
  const auto& module = *x.module();
  const auto& basis = module.basis();
  const int f = fieldIndex(module.ring());
  Reader reader{str(x)};
  std::vector<std::string> terms;
  bool ok = true;
  for (bool first = true; ok && !reader.done(); first = false) {
    bool negative = false;
    if (first) negative = reader.accept("-");
    else if (reader.accept(" - ")) negative = true;
    else if (!reader.accept(" + ")) { ok = false; break; }

    bool literal = true;
    bool fraction = false;
    mpq_class factor = 1;
    typename Ring::ElementClass c{};
    if (reader.accept("(")) {
      const size_t close = reader.text.find(')', reader.at);
      if (close == std::string::npos) { ok = false; break; }
      const std::string inner = reader.text.substr(reader.at, close - reader.at);
      reader.at = close + 1;
      if constexpr (std::is_same_v<Ring, NumberField>) c = eantic::renf_elem_class(*module.ring().parameters, inner.substr(0, inner.find('~')));
      else ok = false;
    } else if (auto q = reader.rational()) {
      if constexpr (std::is_same_v<Ring, IntegerRing>) {
        if (q->get_den() != 1) {
          // a rational generator with coefficient ±1
          c = 1;
          factor = *q;
          fraction = true;
        } else c = q->get_num();
      } else if constexpr (std::is_same_v<Ring, RationalField>) c = *q;
      else c = eantic::renf_elem_class(*module.ring().parameters, *q);
    } else {
      literal = false;
      c = 1;
    }
    if (negative) c = -c;

    int code = 0;
    if (!literal || (!fraction && reader.accept("*"))) {
      if (const auto* g = reader.generator(basis)) {
        Report d;
        describe(*g, d);
        int n, dd;
        std::istringstream(d.os.str()) >> n >> dd >> code;
      } else if (literal) {
        auto q = reader.rational();
        if (!q) { ok = false; break; }
        factor = *q;
      } else { ok = false; break; }
    }
    // a term with a rational generator
    Report t;
    t << code;
    if constexpr (std::is_same_v<Ring, NumberField>) {
      c *= factor;
      reportCoefficient(c, f, t);
      for (int i = f + 1; i < 3; i++) t << 0;
    } else {
      mpq_class q = mpq_class(c) * factor;
      q.canonicalize();
      t << q.get_den() << q.get_num() << 0 << 0;
      if (q == 0) ok = ok && reader.text == "0";
    }
    if (c != 0) terms.push_back(t.os.str());
    else if (reader.text != "0") ok = false;
  }
  r << (ok && !reader.text.empty()) << terms.size();
  for (auto& t : terms) r.os << t;
}

template <typename Ring>
static void readModule(const Module<Ring>& module, Report& r) {
  Reader reader{str(module)};
  if (reader.accept("ℤ-Module(")) r << 1;
  else if (reader.accept("ℚ-Module(")) r << 2;
  else if (reader.accept("K-Module(")) r << 3;
  else r << 0;
  for (bool first = true; !reader.accept(")"); first = false) {
    if (!first && !reader.accept(", ")) break;
    if (const auto* g = reader.generator(module.basis())) describe(*g, r);
    else if (auto q = reader.rational()) r << q->get_num() << q->get_den() << 0;
    else break;
  }
  if (!reader.done()) r << 0;
}

static void exec(const std::string& op, const Words& a, Report& r) {
  const int d = a.empty() ? 0 : static_cast<int>(toLong(a[0]));
  const auto arg = [&](size_t i) { return static_cast<int>(toLong(a[i])); };
  if (op == "reset") {
    for (auto& s : slot) s = std::monostate();
    for (auto& x : atom) x = nullptr;
    return;
  }
  if (op == "atoms") {
    const unsigned seed = static_cast<unsigned>(arg(0));
    int order[] = {0, 1, 2, 3};
    for (int k = 0; k < arg(1) % 24; k++) std::next_permutation(order, order + 4);
    // how large the reals are
    const auto kind = arg(1) / 24;
    for (int i : order) {
      if (i < 2) atom[i] = RealNumber::random(Seed(seed + i));
      else if (kind == 1 && i == 2) atom[i] = RealNumber::random(Arf(mpz_class(1), 100), Arf(mpz_class(5), 98), Seed(300000 + seed));
      else if (kind == 1) atom[i] = RealNumber::random(-1e-30, Seed(400000 + seed));
      else if (kind == 2 && i == 2) atom[i] = RealNumber::random(Arf(mpz_class(-3), 0), Arf(mpz_class(5), 0), Seed(500000 + seed));
      // very close to an integer
      else if (kind == 2) atom[i] = RealNumber::random(2., Seed(600000 + seed));
      else if (i == 2) atom[i] = RealNumber::random(Arf(mpz_class(2), 0), Arf(mpz_class(3), 0), Seed(100000 + seed));
      else atom[i] = RealNumber::random(-1.5, Seed(200000 + seed));
    }
    for (auto& x : atom) r.val(x->arf(3500));
  } else if (op == "mk") {
    dispatch(toLong(a[1]), [&](auto ring) { slot[d] = make<decltype(ring)>(a, 1); });
    dumpSlot(d, r);
  } else if (op == "lit") {
    dispatch(toLong(a[1]), [&](auto ring) { slot[d] = Element<decltype(ring)>(coefficient<decltype(ring)>(arg(2), a, 7)); });
    dumpSlot(d, r);
  } else if (op == "bad") {
    dispatch(toLong(a[0]), [&](auto ring) {
      using Ring = decltype(ring);
      auto basis = gens(a, 3, toLong(a[2]), 3);
      try {
        Module<Ring>::make(basis, makeRing<Ring>(arg(1)));
        r << 1;
      } catch (const std::exception&) {
        r << -1;
      }
    });
  } else if (op == "copy") {
    with(arg(1), [&](auto& x) {
      using E = std::decay_t<decltype(x)>;
      E copy(x);
      if (auto* target = std::get_if<E>(&slot[d])) *target = copy;
      else slot[d] = std::move(copy);
    });
    dumpSlot(d, r);
  } else if (op == "move") {
    if (d != arg(1)) {
      with(arg(1), [&](auto& x) {
        using E = std::decay_t<decltype(x)>;
        E y(std::move(x));
        slot[d] = std::move(y);
        // what has been moved from can be assigned to
        x = std::get<E>(slot[d]);
        if (x != std::get<E>(slot[d])) throw std::logic_error("assignment has failed");
      });
      slot[arg(1)] = std::monostate();
    }
    dumpSlot(d, r);
  } else if (op == "movein") {
    if (d != arg(1)) {
      with(arg(1), d, [&](auto& x, auto& y) { y = std::move(x); });
      slot[arg(1)] = std::monostate();
    }
    dumpSlot(d, r);
  } else if (op == "swap") {
    if (slot[d].index() == slot[arg(1)].index()) with(d, arg(1), [&](auto& x, auto& y) {
      using std::swap;
      swap(x, y);
    });
    else std::swap(slot[d], slot[arg(1)]);
    dumpSlot(d, r);
  } else if (op == "neg") {
    with(arg(1), [&](auto& x) {
      auto y = (d + arg(1)) % 2 ? -x : cppyy::neg(x);
      slot[d] = y;
    });
    dumpSlot(d, r);
  } else if (op == "add" || op == "sub" || op == "mul") {
    with(arg(1), arg(2), [&](auto& x, auto& y) {
      using E = std::decay_t<decltype(x)>;
      if (arg(3) % 3 == 2) {
        // in place; x and y may be the same
        E& result = op == "add" ? x += y : op == "sub" ? x -= y : x *= y;
        if (&result != &x) throw std::logic_error("not the same object");
      } else if (arg(3) % 3 == 1) {
        // with a temporary
        E z = op == "add" ? E(x) + y : op == "sub" ? E(x) - y : E(x) * y;
        slot[d] = z;
      } else if (arg(3) % 2 == 1) {
        // as Python does it
        slot[d] = op == "add" ? cppyy::add(x, y) : op == "sub" ? cppyy::sub(x, y) : cppyy::mul(x, y);
      } else {
        E z = op == "add" ? x + y : op == "sub" ? x - y : x * y;
        slot[d] = std::move(z);
      }
    });
    dumpSlot(d, r);
  } else if (op == "mulreal") {
    auto g = generator(a[2], a[3], a[4]);
    with(arg(1), [&](auto& x) {
      using E = std::decay_t<decltype(x)>;
      E z = x;
      if (arg(5) % 3 == 0) z = x * *g;
      else if (arg(5) % 3 == 1) z = *g * x;
      else z *= *g;
      slot[d] = z;
    });
    dumpSlot(d, r);
  } else if (op == "scal") {
    const int how = arg(3) % 3;
    bool done = false;
    if (how == 2 && d != arg(1)) throw std::logic_error("operand must be the target");
    with(arg(1), [&](auto& x) {
      using E = std::decay_t<decltype(x)>;
      scalar(x.module()->ring(), a, 4, [&](const auto& c) {
        try {
          if (arg(2) == 0) {
            if (how == 2) x *= c;
            else {
              E z = how == 0 ? (d % 2 ? E(x * c) : E(cppyy::mul(x, c))) : E(c * x);
              slot[d] = z;
            }
          } else {
            if (how == 2) x /= c;
            else {
              E z = d % 2 ? E(x / c) : E(cppyy::truediv(x, c));
              slot[d] = z;
            }
          }
          done = true;
        } catch (const std::exception&) {
        }
      });
    });
    r << done;
    if (done || how == 2) dumpSlot(d, r);
  } else if (op == "promote") {
    with(arg(1), arg(2), [&](auto& x, auto& y) {
      auto z = x;
      if (&z.promote(y.module()) != &z) throw std::logic_error("not the same object");
      slot[d] = z;
    });
    dumpSlot(d, r);
  } else if (op == "simplify") {
    with(arg(1), [&](auto& x) {
      auto z = x;
      if (&z.simplify() != &z) throw std::logic_error("not the same object");
      slot[d] = z;
    });
    dumpSlot(d, r);
  } else if (op == "convert") {
    const int t = arg(2);
    if (auto x = std::get_if<EZ>(&slot[arg(1)])) {
      if (t == 2) {
        EQ y(*x);
        slot[d] = y;
      } else {
        EK y(*x);
        slot[d] = y;
      }
    } else {
      EK y(std::get<EQ>(slot[arg(1)]));
      slot[d] = y;
    }
    dumpSlot(d, r);
  } else if (op == "zero") {
    with(arg(1), [&](auto& x) { auto z = x.module()->zero(); slot[d] = z; });
    dumpSlot(d, r);
  } else if (op == "one") {
    bool done = false;
    with(arg(1), [&](auto& x) {
      try {
        auto z = x.module()->one();
        done = true;
        slot[d] = z;
      } catch (const std::exception&) {
      }
    });
    r << (done ? 1 : -1);
    if (done) dumpSlot(d, r);
  } else if (op == "gen") {
    auto g = generator(a[2], a[3], a[4]);
    with(arg(1), [&](auto& x) {
      auto module = x.module();
      const auto& basis = module->basis();
      auto z = module->gen(std::find_if(begin(basis), end(basis), [&](const auto& h) { return *g == *h; }) - begin(basis));
      slot[d] = z;
    });
    dumpSlot(d, r);
  } else if (op == "span") {
    with(arg(1), arg(2), [&](auto& x, auto& y) {
      using Ring = typename RingOf<std::decay_t<decltype(x)>>::type;
      auto z = Module<Ring>::span(x.module(), y.module())->zero();
      slot[d] = z;
    });
    dumpSlot(d, r);
  } else if (op == "drop") {
    slot[d] = std::monostate();
    r << 0;
  } else if (op == "submod") {
    with(d, arg(1), [&](auto& x, auto& y) {
      const auto m = x.module(), n = y.module();
      r << m->submodule(*n) << n->submodule(*m) << (*m == *n) << (*m != *n);
    });
  } else if (op == "truediv") {
    bool thrown = false, done = false;
    with(arg(1), arg(2), [&](auto& x, auto& y) {
      using Ring = typename RingOf<std::decay_t<decltype(x)>>::type;
      try {
        auto q = (d + arg(1) + arg(2)) % 3 ? x.truediv(y) : cppyy::truediv(x, y);
        if (!q) return;
        done = true;
        auto ring = Ring::compositum(x.module()->ring(), y.module()->ring());
        q->simplify();
        q->promote(Module<Ring>::make(q->module()->basis(), ring));
        auto z = *q;
        slot[d] = z;
      } catch (const std::invalid_argument&) {
        thrown = true;
      }
    });
    r << (thrown ? -1 : done ? 1 : 0);
    if (done) dumpSlot(d, r);
  } else if (op == "floordiv") {
    with(d, arg(1), [&](auto& x, auto& y) {
      try {
        auto q = x.floordiv(y);
        r << 1 << q;
      } catch (const std::invalid_argument&) {
        r << -1;
      }
    });
  } else if (op == "unit") {
    with(d, [&](auto& x) { r << x.unit(); });
  } else if (op == "cmp") {
    with(d, arg(1), [&](auto& x, auto& y) {
      relations(r, x, y);
      std::hash<std::decay_t<decltype(x)>> hash;
      r << (hash(x) == hash(y));
    });
  } else if (op == "cmpscal") {
    with(d, [&](auto& x) {
      Words b = a;
      // close to the element
      if (arg(6) < 2 && arg(1) <= 9) {
        mpz_class n = about(x, 0) + b[3] % 3;
        if (arg(1) == 9 && arg(6) == 1) {
          mpq_class q(about(x, 40) + b[3] % 3, mpz_class(1) << 40);
          q.canonicalize();
          b[3] = q.get_num();
          b[2] = q.get_den();
        } else {
          static const char* limits[8][2] = {{"-32768", "32767"}, {"0", "65535"}, {"-2147483648", "2147483647"}, {"0", "4294967295"}, {"-9223372036854775808", "9223372036854775807"}, {"0", "18446744073709551615"}, {"-9223372036854775808", "9223372036854775807"}, {"0", "18446744073709551615"}};
          if (arg(1) < 8) n = std::min(std::max(n, mpz_class(limits[arg(1)][0])), mpz_class(limits[arg(1)][1]));
          b[3] = n;
          b[2] = 1;
          b[4] = b[5] = 0;
        }
      }
      r << b[2] << b[3] << b[4] << b[5];
      scalar(x.module()->ring(), b, 1, [&](const auto& c) {
        using C = std::decay_t<decltype(c)>;
        if constexpr (std::is_same_v<C, eantic::renf_elem_class>) {
          // there is no comparison with elements of a number field
          relations(r, x, EK(c));
        } else relations(r, x, c);
      });
    });
  } else if (op == "cmpreal") {
    auto g = generator(a[1], a[2], a[3]);
    with(d, [&](auto& x) { relations(r, x, *g); });
  } else if (op == "floor") {
    with(d, [&](auto& x) { r << x.floor() << x.ceil(); r.val(static_cast<double>(x)); });
  } else if (op == "arb") {
    with(d, [&](auto& x) {
      Arb b = x.arb(toLong(a[1]));
      r.ball(b) << arb_rel_accuracy_bits(b.arb_t());
    });
  } else if (op == "hard") {
    const long k = toLong(a[1]);
    with(d, [&](auto& x) {
      using E = std::decay_t<decltype(x)>;
      const mpz_class m = about(x, k) + a[2];
      const mpz_class power = mpz_class(1) << k;
      mpq_class q(m, power);
      q.canonicalize();
      E scaled = x, t = x;
      E other;
      if constexpr (std::is_same_v<E, EZ>) {
        scaled = power * x;
        other = E(m);
        t = scaled - other;
      } else {
        other = E(typename RingOf<E>::type::ElementClass(q));
        t = x - other;
      }
      r << m << t.floor() << t.ceil();
      r.val(static_cast<double>(t));
      relations(r, t, 0);
      relations(r, x, q);
      r << (m == 0 ? mpz_class(0) : scaled.floordiv(other));
    });
  } else if (op == "edge") {
    const long k = toLong(a[1]);
    const slong accuracy = toLong(a[5]);
    with(d, [&](auto& x) {
      using E = std::decay_t<decltype(x)>;
      const mpz_class m = about(x, k) + a[2];
      const mpz_class power = mpz_class(1) << k;
      mpz_class edge = ((mpz_class(1) << 53) + 1 + 2 * (a[3] % (mpz_class(1) << 50))) << toLong(a[4]);
      if (a[3] % 3 == 0) edge = -edge;
      E t = x, other, big;
      if constexpr (std::is_same_v<E, EZ>) {
        t = power * x;
        other = E(m);
        big = E(edge);
      } else {
        mpq_class q(m, power);
        q.canonicalize();
        other = E(typename RingOf<E>::type::ElementClass(q));
        big = E(typename RingOf<E>::type::ElementClass(edge));
      }
      t -= other;
      const E sum = t + big;
      r << m;
      r.val(static_cast<double>(sum));
      Arb ball = t.arb(accuracy);
      r.ball(ball);
      r << arb_rel_accuracy_bits(ball.arb_t()) << sum.floor() << sum.ceil();
      relations(r, sum, edge);
      relations(r, big, sum);
    });
  } else if (op == "asrat") {
    with(d, [&](auto& x) {
      auto n = static_cast<std::optional<mpz_class>>(x);
      auto q = static_cast<std::optional<mpq_class>>(x);
      if (cppyy::optional_integer(x) != n || cppyy::optional_rational(x) != q) throw std::logic_error("the conversions for Python differ");
      r << static_cast<bool>(x);
      if (n) r << 1 << *n;
      else r << 0 << 0;
      if (q) r << 1 << q->get_num() << q->get_den();
      else r << 0 << 0 << 0;
    });
  } else if (op == "coeffs") {
    with(d, [&](auto& x) {
      for (auto& g : x.module()->basis()) describe(*g, r);
      for (auto& q : x.rationalCoefficients()) r << q.get_num() << q.get_den();
    });
  } else if (op == "text") {
    with(d, [&](auto& x) { readElement(x, r); });
  } else if (op == "modtext") {
    with(d, [&](auto& x) { readModule(*x.module(), r); });
  } else if (op == "look") {
    dumpSlot(d, r);
  } else if (op == "churn") {
    if (arg(0) < 2) {
      std::vector<Real> reals;
      for (unsigned i = 0; i < 50; i++) reals.push_back(RealNumber::random(Seed(300000 + i)));
      for (auto& x : reals)
        for (auto& y : reals)
          if (x != y) {
            if (arg(0) == 0) Module<IntegerRing>::make({x, y});
            else Module<NumberField>::make({x, y}, field[1]);
          }
    } else {
      Real x = RealNumber::random();
      for (int i = 0; i < 20; i++) EZ(Module<IntegerRing>::make({x, atom[i % 4]}), {1, i}) *= *atom[(i + 1) % 4];
    }
    r << 0;
  } else throw std::logic_error("unknown command " + op);
}

int main() {
  field[1] = NumberField(eantic::renf_class::make("x^2 - 2", "x", "1.4 +/- 1"));
  field[2] = NumberField(eantic::renf_class::make("x^3 - 2", "x", "1.25 +/- 0.5"));
  return serve(exec);
}
