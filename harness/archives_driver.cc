// Executes the commands of spec/archives.qnt: objects are written with cereal and read
// back by this process or by another one.
#define VERIF_NO_YAP_ARF
#include "common.hpp"

#include <e-antic/renfxx.h>
#include <sys/wait.h>

#include <algorithm>
#include <cereal/archives/binary.hpp>
#include <cereal/archives/json.hpp>
#include <cereal/archives/portable_binary.hpp>
#include <cereal/archives/xml.hpp>
#include <cereal/types/vector.hpp>
#include <memory>
#include <optional>
#include <variant>

#include "exact-real/cereal.hpp"
#include "exact-real/cppyy.hpp"
#include "exact-real/element.hpp"
#include "exact-real/integer_ring.hpp"
#include "exact-real/module.hpp"
#include "exact-real/number_field.hpp"
#include "exact-real/rational_field.hpp"
#include "exact-real/real_number.hpp"
#include "exact-real/seed.hpp"

using namespace exactreal;
using Real = std::shared_ptr<const RealNumber>;
template <typename R>
using Mod = std::shared_ptr<const Module<R>>;
// in an archive, each object is identified by its index here
using Object = std::variant<std::monostate, Arf, Arb, Real, std::vector<Real>, Mod<IntegerRing>, Mod<RationalField>, Mod<NumberField>,
                            Element<IntegerRing>, Element<RationalField>, Element<NumberField>>;

struct Saved {
  int format = 0;
  std::vector<size_t> kinds;
  std::string data;
};

constexpr int SLOTS = 8;
static Object slot[SLOTS];
static Saved archive_[4];
static Real atom[4];
static NumberField field[3];
static unsigned seed_ = 0;
static int order_ = 0;
static int shape_ = 0;

static long toLong(const mpz_class& x) { return x.get_si(); }

static int fieldOf(const NumberField& K) {
  if (K.parameters->degree() == 1) return 0;
  for (int f = 1; f < 3; f++)
    if (K == field[f]) return f;
  throw std::logic_error("unknown field");
}
template <typename Ring>
static int fieldIndex(const Ring& ring) {
  if constexpr (std::is_same_v<Ring, NumberField>) return fieldOf(ring);
  else return 0;
}
template <typename Ring>
static Ring makeRing(int f) {
  if constexpr (std::is_same_v<Ring, NumberField>) return field[f];
  else return Ring();
}
template <typename Ring>
constexpr int typeOf = std::is_same_v<Ring, IntegerRing> ? 1 : std::is_same_v<Ring, RationalField> ? 2 : 3;

// --- generators ------------------------------------------------------------------
static void atoms();
static Real monomial(int code) {
  atoms();
  Real ret = RealNumber::rational(1);
  for (int i = 0; i < 4; i++)
    for (int k = (code >> (3 * i)) & 7; k > 0; k--) ret = *ret * *atom[i];
  return ret;
}
static Real generator(const mpz_class& n, const mpz_class& d, const mpz_class& code) {
  if (code != 0) return monomial(static_cast<int>(toLong(code)));
  mpq_class q(n, d);
  q.canonicalize();
  return RealNumber::rational(q);
}
static void describeReal(const RealNumber& g, Report& r) {
  atoms();
  auto q = static_cast<std::optional<mpq_class>>(g);
  if (q) {
    r << q->get_num() << q->get_den() << 0;
    return;
  }
  int code = 0;
  Real rest = g.shared_from_this();
  for (int i = 0; i < 4; i++)
    while (!static_cast<std::optional<mpq_class>>(*rest)) {
      auto next = *rest / *atom[i];
      if (!next) break;
      rest = *next;
      code += 1 << (3 * i);
    }
  if (*rest != 1) throw std::logic_error("unknown generator");
  r << 1 << 1 << code;
}

// --- coefficients ------------------------------------------------------------------
template <typename Ring>
static typename Ring::ElementClass coefficient(int f, const Words& a, size_t o) {
  if constexpr (std::is_same_v<Ring, IntegerRing>) {
    return a[o + 1];
  } else if constexpr (std::is_same_v<Ring, RationalField>) {
    mpq_class q(a[o + 1], a[o]);
    q.canonicalize();
    return q;
  } else {
    std::vector<mpq_class> c;
    for (int i = 0; i <= f; i++) {
      mpq_class q(a[o + 1 + i], a[o]);
      q.canonicalize();
      c.push_back(q);
    }
    return eantic::renf_elem_class(*field[f].parameters, c);
  }
}
static void reportCoefficient(const mpz_class& c, int, Report& r) { r << 1 << c; }
static void reportCoefficient(const mpq_class& c, int, Report& r) {
  mpq_class q = c;
  q.canonicalize();
  if (q.get_num() != c.get_num()) throw std::logic_error("coefficient is not in lowest terms");
  r << c.get_den() << c.get_num();
}
static void reportCoefficient(const eantic::renf_elem_class& c, int f, Report& r) {
  auto num = c.num_vector();
  r << c.den();
  for (int i = 0; i <= f; i++) r << (i < static_cast<int>(num.size()) ? num[i] : mpz_class(0));
  for (size_t i = f + 1; i < num.size(); i++)
    if (num[i] != 0) throw std::logic_error("coefficient is not in the ring");
}


static void atoms() {
  if (atom[0]) return;
  int order[] = {0, 1, 2, 3};
  for (int k = 0; k < order_; k++) std::next_permutation(order, order + 4);
  for (int i : order) {
    // a random real, one of an interval and one close to a floating point number,
    // with many kinds of bounds
    static const double doubles[] = {-1.5, 0, 1, -0.1, 1e300, -1e-300, 4.9406564584124654e-324, 2.2250738585072014e-308, 1.7976931348623157e308, 3.1415926535897931};
    static const long mantissas[] = {2, 0, -3, 7, -1, 12345678901, -1234567890123, 1, -4503599627370497, 5};
    static const long exponents[] = {0, 0, 3, -5, 64, -70, 200, -1074, 1, -1};
    if (i < 2) atom[i] = RealNumber::random(Seed(seed_ + i));
    else if (i == 2) {
      const long e = exponents[shape_ / 10 % 10];
      Arf lower(mpz_class(mantissas[shape_ % 10]), e), upper(mpz_class(mantissas[shape_ % 10] + 1 + shape_ / 100 % 10 * (shape_ / 10 % 10)), e);
      atom[i] = lower == 0 && upper == 1 ? RealNumber::random(Seed(100000 + seed_)) : RealNumber::random(lower, upper, Seed(100000 + seed_));
    } else atom[i] = RealNumber::random(doubles[shape_ / 1000 % 10], Seed(200000 + seed_));
  }
}

// --- descriptions ------------------------------------------------------------------
template <typename T>
struct RingOf {};
template <typename R>
struct RingOf<Element<R>> {
  using type = R;
};
template <typename R>
struct RingOf<Mod<R>> {
  using type = R;
};
template <typename T>
constexpr bool isElement = false;
template <typename R>
constexpr bool isElement<Element<R>> = true;
template <typename T>
constexpr bool isModule = false;
template <typename R>
constexpr bool isModule<Mod<R>> = true;

template <typename Ring>
static void describeModule(int kind, const Module<Ring>& module, Report& r) {
  const auto& basis = module.basis();
  if (module.rank() != static_cast<size>(basis.size())) throw std::logic_error("rank is not the number of generators");
  for (size_t i = 1; i < basis.size(); i++)
    if (!basis[i - 1]->deglex(*basis[i])) throw std::logic_error("generators are not sorted");
  r << kind << typeOf<Ring> << fieldIndex(module.ring()) << basis.size();
}

static void describe(const Object& object, Report& r) {
  std::visit([&](const auto& x) {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, Arf>) {
      r << 1;
      r.val(x);
    } else if constexpr (std::is_same_v<T, Arb>) {
      arf_t rad;
      arf_init_set_mag_shallow(rad, arb_radref(x.arb_t()));
      r << 2;
      r.val(arb_midref(x.arb_t()));
      r.val(rad);
    } else if constexpr (std::is_same_v<T, Real>) {
      r << 3;
      describeReal(*x, r);
    } else if constexpr (std::is_same_v<T, std::vector<Real>>) {
      r << 6 << x.size();
      for (auto& y : x) describeReal(*y, r);
    } else if constexpr (isModule<T>) {
      describeModule(4, *x, r);
      for (auto& g : x->basis()) describeReal(*g, r);
    } else if constexpr (isElement<T>) {
      const auto& module = x.module();
      describeModule(5, *module, r);
      const int f = fieldIndex(module->ring());
      const auto coefficients = x.coefficients();
      for (size_t i = 0; i < coefficients.size(); i++) {
        describeReal(*module->basis()[i], r);
        Report c;
        reportCoefficient(coefficients[i], f, c);
        const std::string s = c.os.str();
        r.os << s;
        for (auto n = std::count(begin(s), end(s), ' '); n < 4; n++) r << 0;
      }
    } else throw std::logic_error("no such object");
  }, object);
}

template <typename Ring>
static const Module<Ring>* moduleOf(const Object& x) {
  if (auto m = std::get_if<Mod<Ring>>(&x)) return m->get();
  if (auto e = std::get_if<Element<Ring>>(&x)) return e->module().get();
  return nullptr;
}
template <typename Ring>
static bool sameModule(const Object& x, const Object& y) {
  auto a = moduleOf<Ring>(x), b = moduleOf<Ring>(y);
  if (!a || !b) return false;
  if ((*a == *b) != (a == b)) throw std::logic_error("equality of modules is not identity");
  return a == b;
}
static int mask(const Object& x) {
  int ret = 0;
  for (int s = 0; s < SLOTS; s++) {
    const Object& y = slot[s];
    bool same = sameModule<IntegerRing>(x, y) || sameModule<RationalField>(x, y) || sameModule<NumberField>(x, y);
    if (auto a = std::get_if<Real>(&x))
      if (auto b = std::get_if<Real>(&y)) {
        if ((**a == **b) != (a->get() == b->get())) throw std::logic_error("equality of reals is not identity");
        same = a->get() == b->get();
      }
    if (same) ret |= 1 << s;
  }
  return ret;
}

// --- construction ------------------------------------------------------------------
static void setFrom(arf_t x, const Words& a, size_t o) {
  if (a[o] == 1) arf_pos_inf(x);
  else if (a[o] == 2) arf_neg_inf(x);
  else if (a[o] == 3) arf_nan(x);
  else {
    fmpz_t m, e;
    fmpz_init(m);
    fmpz_init(e);
    fmpz_set_mpz(m, a[o + 1].get_mpz_t());
    fmpz_set_mpz(e, a[o + 2].get_mpz_t());
    arf_set_fmpz_2exp(x, m, e);
    fmpz_clear(m);
    fmpz_clear(e);
  }
}
template <typename Ring>
static Object makeModule(const Words& a, size_t o, bool element) {
  const int f = static_cast<int>(toLong(a[o + 1]));
  const size_t n = toLong(a[o + 2]);
  const size_t w = element ? 7 : 3;
  std::vector<Real> basis;
  for (size_t i = 0; i < n; i++) basis.push_back(generator(a[o + 3 + w * i], a[o + 4 + w * i], a[o + 5 + w * i]));
  auto module = Module<Ring>::make(basis, makeRing<Ring>(f));
  if (!element) return module;
  std::vector<typename Ring::ElementClass> coefficients;
  for (auto& g : module->basis()) {
    const size_t i = std::find_if(begin(basis), end(basis), [&](const auto& h) { return *g == *h; }) - begin(basis);
    coefficients.push_back(coefficient<Ring>(f, a, o + 3 + 7 * i + 3));
  }
  return Element<Ring>(module, coefficients);
}
static Object make(const Words& a, size_t o) {
  switch (toLong(a[o])) {
    case 1: {
      Arf x;
      setFrom(x.arf_t(), a, o + 1);
      return x;
    }
    case 2: {
      Arb x;
      setFrom(arb_midref(x.arb_t()), a, o + 1);
      auto* rad = arb_radref(x.arb_t());
      if (a[o + 4] != 0) mag_inf(rad);
      else if (a[o + 5] == 0) mag_zero(rad);
      else {
        // exactly; mantissas of radii have 30 bits
        const long shift = 30 - static_cast<long>(mpz_sizeinbase(a[o + 5].get_mpz_t(), 2));
        const mpz_class man = a[o + 5] << shift, exp = a[o + 6] - shift + 30;
        MAG_MAN(rad) = man.get_ui();
        fmpz_set_mpz(MAG_EXPREF(rad), exp.get_mpz_t());
      }
      return x;
    }
    case 3: return generator(a[o + 1], a[o + 2], a[o + 3]);
    case 6: {
      std::vector<Real> ret;
      for (int i = 0; i < toLong(a[o + 1]); i++) ret.push_back(generator(a[o + 2 + 3 * i], a[o + 3 + 3 * i], a[o + 4 + 3 * i]));
      return ret;
    }
    case 4:
    case 5: {
      const bool element = a[o] == 5;
      if (a[o + 1] == 1) return makeModule<IntegerRing>(a, o + 1, element);
      if (a[o + 1] == 2) return makeModule<RationalField>(a, o + 1, element);
      return makeModule<NumberField>(a, o + 1, element);
    }
  }
  throw std::logic_error("unknown description");
}

// --- archives ----------------------------------------------------------------------
template <typename Archive>
static std::string write(const std::vector<Object>& objects) {
  std::ostringstream s;
  {
    Archive archive(s);
    for (auto& object : objects)
      std::visit([&](const auto& x) {
        if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) archive(cereal::make_nvp("object", x));
      }, object);
  }
  return s.str();
}
// Create objects of the n-th type
template <size_t I = 0>
static Object blank(size_t n) {
  if constexpr (I < std::variant_size_v<Object>) return n == I ? Object(std::in_place_index<I>) : blank<I + 1>(n);
  else throw std::logic_error("no such kind of object");
}
template <typename Archive>
static std::vector<Object> read(const Saved& saved) {
  std::istringstream s(saved.data);
  std::vector<Object> ret;
  {
    Archive archive(s);
    for (size_t kind : saved.kinds) {
      ret.push_back(blank(kind));
      std::visit([&](auto& x) {
        if constexpr (!std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) archive(cereal::make_nvp("object", x));
      }, ret.back());
    }
  }
  return ret;
}
// Python writes each object to an archive of its own; archives with a single object are written like that.
static bool python(const Saved& saved) { return saved.kinds.size() == 1 && saved.format % 2 == 0 && saved.kinds[0] != 0; }
template <typename Archive>
static std::string serialize(const Object& object) {
  return std::visit([&](const auto& x) {
    if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::monostate>) return std::string();
    else return cppyy::serialize<std::decay_t<decltype(x)>, Archive>(x);
  }, object);
}
template <typename Archive>
static Object deserialize(const Saved& saved) {
  return std::visit([&](auto&& x) -> Object {
    using T = std::decay_t<decltype(x)>;
    if constexpr (std::is_same_v<T, std::monostate>) return Object();
    else return cppyy::deserialize<T, Archive>(saved.data);
  }, blank(saved.kinds[0]));
}
static void save(Saved& saved, const std::vector<Object>& objects) {
  saved.kinds.clear();
  for (auto& x : objects) saved.kinds.push_back(x.index());
  if (python(saved)) {
    saved.data = saved.format == 0 ? serialize<cereal::JSONOutputArchive>(objects[0]) : serialize<cereal::PortableBinaryOutputArchive>(objects[0]);
    return;
  }
  switch (saved.format) {
    case 0: saved.data = write<cereal::JSONOutputArchive>(objects); break;
    case 1: saved.data = write<cereal::BinaryOutputArchive>(objects); break;
    case 2: saved.data = write<cereal::PortableBinaryOutputArchive>(objects); break;
    default: saved.data = write<cereal::XMLOutputArchive>(objects);
  }
}
static std::vector<Object> load(const Saved& saved) {
  if (python(saved)) return {saved.format == 0 ? deserialize<cereal::JSONInputArchive>(saved) : deserialize<cereal::PortableBinaryInputArchive>(saved)};
  switch (saved.format) {
    case 0: return read<cereal::JSONInputArchive>(saved);
    case 1: return read<cereal::BinaryInputArchive>(saved);
    case 2: return read<cereal::PortableBinaryInputArchive>(saved);
    default: return read<cereal::XMLInputArchive>(saved);
  }
}

// What does this archive contain when it is read by another process?
static std::string foreign(const Saved& saved, int order) {
  std::ostringstream message;
  message << seed_ << ' ' << order << ' ' << shape_ << ' ' << saved.format << ' ' << saved.kinds.size();
  for (auto kind : saved.kinds) message << ' ' << kind;
  message << '\n'
          << saved.data;
  int to[2], from[2];
  if (pipe(to) || pipe(from)) throw std::logic_error("no pipes");
  const pid_t child = fork();
  if (child == 0) {
    dup2(to[0], 0);
    dup2(from[1], 1);
    close(to[0]);
    close(to[1]);
    close(from[0]);
    close(from[1]);
    execl("/proc/self/exe", "archives_driver", "read", nullptr);
    _exit(127);
  }
  close(to[0]);
  close(from[1]);
  const std::string s = message.str();
  for (size_t i = 0; i < s.size();) {
    const ssize_t n = ::write(to[1], s.data() + i, s.size() - i);
    if (n <= 0) break;
    i += n;
  }
  close(to[1]);
  std::string ret;
  char buffer[4096];
  for (ssize_t n; (n = ::read(from[0], buffer, sizeof(buffer))) > 0;) ret.append(buffer, n);
  close(from[0]);
  int status = 0;
  waitpid(child, &status, 0);
  if (status != 0) throw std::logic_error("archive cannot be read by another process: " + ret);
  return ret;
}
static int readForeign() {
  std::string line;
  std::getline(std::cin, line);
  std::istringstream is(line);
  Saved saved;
  size_t n;
  is >> seed_ >> order_ >> shape_ >> saved.format >> n;
  saved.kinds.resize(n);
  for (auto& kind : saved.kinds) is >> kind;
  saved.data.assign(std::istreambuf_iterator<char>(std::cin), {});
  if (order_ % 2) atoms();
  try {
    Report r;
    for (auto& x : load(saved)) describe(x, r);
    std::cout << r.os.str();
    std::cout.flush();
    return 0;
  } catch (const std::exception& e) {
    std::cout << e.what();
    std::cout.flush();
    return 1;
  }
}

static void exec(const std::string& op, const Words& a, Report& r) {
  const auto arg = [&](size_t i) { return static_cast<int>(toLong(a[i])); };
  const auto forget = [&] {
    for (auto& s : slot) s = std::monostate();
    for (auto& x : atom) x = nullptr;
  };
  const auto dump = [&](int d) {
    describe(slot[d], r);
    r << mask(slot[d]);
  };
  if (op == "reset") {
    forget();
    for (auto& s : archive_) s = Saved();
  } else if (op == "atoms") {
    seed_ = static_cast<unsigned>(toLong(a[0]));
    order_ = arg(1);
    shape_ = arg(2);
    atoms();
    r << 0;
  } else if (op == "make") {
    slot[arg(0)] = make(a, 1);
    dump(arg(0));
  } else if (op == "copy") {
    slot[arg(0)] = Object(slot[arg(1)]);
    dump(arg(0));
  } else if (op == "mul") {
    slot[arg(0)] = *std::get<Real>(slot[arg(1)]) * *std::get<Real>(slot[arg(2)]);
    dump(arg(0));
  } else if (op == "div") {
    auto quotient = *std::get<Real>(slot[arg(1)]) / *std::get<Real>(slot[arg(2)]);
    if (!quotient) throw std::logic_error("does not divide");
    slot[arg(0)] = *quotient;
    dump(arg(0));
  } else if (op == "drop") {
    slot[arg(0)] = std::monostate();
    r << 0;
  } else if (op == "look") {
    dump(arg(0));
  } else if (op == "churn") {
    std::vector<Real> reals;
    for (unsigned i = 0; i < 20; i++) reals.push_back(RealNumber::random(Seed(300000u + i)));
    std::vector<Object> modules;
    for (auto& x : reals)
      for (auto& y : reals)
        if (x != y && arg(0) == 0) modules.push_back(Module<IntegerRing>::make({x, y}));
        else if (x != y) modules.push_back(Module<NumberField>::make({*x * *y}, field[1]));
    Saved saved;
    save(saved, modules);
    if (arg(0) == 2) modules.clear();
    load(saved);
    r << 0;
  } else if (op == "forget") {
    forget();
    order_ = arg(0);
    if (arg(1) == 0) atoms();
    r << 0;
  } else if (op == "save") {
    archive_[arg(0)].format = arg(1);
    std::vector<Object> objects;
    for (size_t i = 2; i < a.size(); i++) objects.push_back(slot[arg(i)]);
    save(archive_[arg(0)], objects);
    r << 0;
  } else if (op == "load") {
    auto objects = load(archive_[arg(0)]);
    for (size_t i = 0; i < objects.size(); i++) slot[arg(i + 1)] = std::move(objects[i]);
    for (size_t i = 0; i < objects.size(); i++) describe(slot[arg(i + 1)], r);
    for (size_t i = 0; i < objects.size(); i++) r << mask(slot[arg(i + 1)]);
  } else if (op == "foreign") {
    r.os << foreign(archive_[arg(0)], arg(1));
  } else throw std::logic_error("unknown command " + op);
}

int main(int argc, char**) {
  field[1] = NumberField(eantic::renf_class::make("x^2 - 2", "x", "1.4 +/- 1"));
  field[2] = NumberField(eantic::renf_class::make("x^3 - 2", "x", "1.25 +/- 0.5"));
  if (argc > 1) return readForeign();
  signal(SIGPIPE, SIG_IGN);
  return serve(exec);
}
