// Replays commands of spec/arf.qnt on real Arf objects. Reads one command per
// line, prints the projected state and the reports after each.
#include <cmath>
#include <cstring>
#include <iostream>
#include <unistd.h>

#include <sstream>
#include <vector>

#include "exact-real/arf.hpp"
#include "exact-real/cppyy.hpp"
#include "exact-real/yap/arf.hpp"

using namespace exactreal;
using std::string;
using std::vector;

static string val(const ::arf_t& x) {
  if (arf_is_nan(x)) return "nan 0 0";
  if (arf_is_pos_inf(x)) return "pinf 0 0";
  if (arf_is_neg_inf(x)) return "ninf 0 0";
  fmpz_t m, e;
  fmpz_init(m);
  fmpz_init(e);
  arf_get_fmpz_2exp(m, e, x);
  char* ms = fmpz_get_str(nullptr, 10, m);
  char* es = fmpz_get_str(nullptr, 10, e);
  string ret = string("fin ") + ms + " " + es;
  flint_free(ms);
  flint_free(es);
  fmpz_clear(m);
  fmpz_clear(e);
  return ret;
}
static string integer(mpz_class m) {
  if (m == 0) return "fin 0 0";
  unsigned long e = mpz_scan1(m.get_mpz_t(), 0);
  m >>= e;
  return "fin " + m.get_str() + " " + std::to_string(e);
}
static string number(double d) {
  if (std::isnan(d)) return "nan 0 0";
  if (std::isinf(d)) return d > 0 ? "pinf 0 0" : "ninf 0 0";
  if (d == 0) return "fin 0 0";
  int e;
  double f = std::frexp(d, &e);
  mpz_class m(std::ldexp(f, 60));
  unsigned long s = mpz_scan1(m.get_mpz_t(), 0);
  m >>= s;
  return "fin " + m.get_str() + " " + std::to_string(long(e) - 60 + long(s));
}
static string boolean(bool b) { return integer(b ? 1 : 0); }

static Arf::Round mode(const string& r) {
  if (r == "NEAR") return Arf::Round::NEAR;
  if (r == "DOWN") return Arf::Round::DOWN;
  if (r == "UP") return Arf::Round::UP;
  if (r == "FLOOR") return Arf::Round::FLOOR;
  return Arf::Round::CEIL;
}

template <typename F>
static void op(char o, F f) {
  switch (o) {
    case '+': f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) + std::forward<decltype(b)>(b); }); break;
    case '-': f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) - std::forward<decltype(b)>(b); }); break;
    case '*': f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) * std::forward<decltype(b)>(b); }); break;
    default: f([](auto&& a, auto&& b) -> decltype(auto) { return std::forward<decltype(a)>(a) / std::forward<decltype(b)>(b); }); break;
  }
}
// the same with the functions that Python uses
template <typename F>
static void pyop(char o, F f) {
  switch (o) {
    case '+': f([](const auto& a, const auto& b) { return cppyy::add(a, b); }); break;
    case '-': f([](const auto& a, const auto& b) { return cppyy::sub(a, b); }); break;
    case '*': f([](const auto& a, const auto& b) { return cppyy::mul(a, b); }); break;
    default: f([](const auto& a, const auto& b) { return cppyy::truediv(a, b); }); break;
  }
}
template <typename F>
static void op2(char o, char q, F f) {
  op(o, [&](auto g) { op(q, [&](auto h) { f(g, h); }); });
}
template <typename F>
static void inplace(char o, F f) {
  switch (o) {
    case '+': f([](auto& a, auto&& b) -> decltype(auto) { return a += std::forward<decltype(b)>(b); }); break;
    case '-': f([](auto& a, auto&& b) -> decltype(auto) { return a -= std::forward<decltype(b)>(b); }); break;
    case '*': f([](auto& a, auto&& b) -> decltype(auto) { return a *= std::forward<decltype(b)>(b); }); break;
    default: f([](auto& a, auto&& b) -> decltype(auto) { return a /= std::forward<decltype(b)>(b); }); break;
  }
}

template <typename L, typename R>
static void relations(vector<string>& out, const L& a, const R& b) {
  out.push_back(boolean(a < b));
  out.push_back(boolean(a <= b));
  out.push_back(boolean(a == b));
  out.push_back(boolean(a != b));
  out.push_back(boolean(a > b));
  out.push_back(boolean(a >= b));
}

int main() {
  vector<Arf> R(5);
  string line;
  std::ios::sync_with_stdio(false);
  while (std::getline(std::cin, line)) {
    alarm(60);
    std::istringstream is(line);
    string name, o1s, o2s, o3s, rs, r1s, is_, js_, vk, vm, ve;
    int d, a, b, c, x;
    long p, p1;
    if (!(is >> name >> d >> a >> b >> c >> x >> o1s >> o2s >> o3s >> p >> rs >> p1 >> r1s >> is_ >> js_ >> vk >> vm >> ve)) {
      std::cerr << "bad command: " << line << std::endl;
      return 3;
    }
    const char o1 = o1s[0], o2 = o2s[0], o3 = o3s[0];
    const auto r = mode(rs), r1 = mode(r1s);
    const mpz_class I(is_), J(js_);
    const auto literal = [&]() -> double {
      if (vk == "pinf") return INFINITY;
      if (vk == "ninf") return -INFINITY;
      mpz_class m(vm);
      return std::ldexp(m.get_d(), std::stoi(ve));
    };
    const int i32 = static_cast<int>(I.get_si()), j32 = static_cast<int>(J.get_si());
    const long i64 = I.get_si(), j64 = J.get_si();
    vector<string> out;

    if (name == "reset") {
      // R0 = i*2^j, R1 = v*2^(j + 5)
      R[0] = Arf(I, j64);
      R[1] = Arf(mpz_class(vm) * (mpz_class(1) << std::stoul(ve)), j64 + 5);
      R[2] = Arf();
      R[3] = Arf();
      R[4] = Arf();
    } else if (name == "zero") R[d] = Arf();
    else if (name == "int") R[d] = Arf(i32);
    else if (name == "long") R[d] = Arf(i64);
    else if (name == "setint") R[d] = i32;
    else if (name == "setlong") R[d] = i64;
    else if (name == "double") R[d] = Arf(literal());
    else if (name == "setdouble") R[d] = literal();
    else if (name == "mpz") R[d] = Arf(I, j64);
    else if (name == "str") {
      const int base = 2 + static_cast<int>(mpz_fdiv_ui(I.get_mpz_t(), 35));
      R[d] = Arf(I.get_str(base), base, j64);
    } else if (name == "copy") {
      Arf t(R[a]);
      // the copy is independent
      t <<= 1;
      t = Arf(R[a]);
      swap(R[d], t);
    } else if (name == "assign") R[d] = R[a];
    else if (name == "selfassign") {
      Arf& alias = R[d];
      R[d] = alias;
    } else if (name == "selfmove") {
      Arf& alias = R[d];
      R[d] = std::move(alias);
    } else if (name == "move") {
      Arf t(std::move(R[a]));
      R[a] = i64;
      R[d] = t;
    } else if (name == "moveassign") {
      R[d] = std::move(R[a]);
      R[a] = i64;
    } else if (name == "swap") swap(R[d], R[a]);
    else if (name == "stdswap") std::swap(R[d], R[a]);
    else if (name == "neg") R[d] = R[a].operator-();
    else if (name == "negexpr") R[d] = -R[a];
    else if (name == "abs") R[d] = R[a].abs();
    else if (name == "shl") R[d] <<= i64;
    else if (name == "shr") R[d] >>= i64;
    else if (name == "shlb") R[d] = R[a] << i64;
    else if (name == "shrb") R[d] = R[a] >> i64;
    else if (name == "bin") op(o1, [&](auto f) { R[d] = f(R[a], R[b])(p)(r); });
    else if (name == "pybin") pyop(o1, [&](auto f) { R[d] = cppyy::eval(f(R[a], R[b]), p, r); });
    else if (name == "pyleft") pyop(o1, [&](auto f) { pyop(o2, [&](auto g) { R[d] = cppyy::eval(g(f(R[a], R[b]), R[c]), p, r); }); });
    else if (name == "pyneg") pyop(o1, [&](auto f) { R[d] = cppyy::eval(cppyy::neg(f(R[a], R[b])), p, r); });
    else if (name == "bin2") op(o1, [&](auto f) { R[d] = f(R[a], R[b])(p, r); });
    else if (name == "binrp") op(o1, [&](auto f) { R[d] = f(R[a], R[b])(r)(p); });
    else if (name == "binctor") op(o1, [&](auto f) { Arf t(f(R[a], R[b])(p)(r)); R[d] = t; });
    else if (name == "binconst") op(o1, [&](auto f) { const Arf& A = R[a]; const Arf& B = R[b]; const auto e = f(A, B)(p)(r); R[d] = e; });
    else if (name == "binmove") op(o1, [&](auto f) { R[d] = f(Arf(R[a]), Arf(R[b]))(p)(r); });
    else if (name == "inplace") inplace(o1, [&](auto f) { f(R[d], R[b](p)(r)); });
    else if (name == "inplace2") inplace(o1, [&](auto f) { f(R[d], R[b](r)(p)); });
    else if (name == "inplaceexpr") inplace(o1, [&](auto f) { op(o2, [&](auto g) { f(R[d], g(R[b], R[c])(p)(r)); }); });
    else if (name == "inplaceneg") inplace(o1, [&](auto f) { f(R[d], (-R[b])(p)(r)); });
    else if (name == "left") op2(o1, o2, [&](auto f, auto g) { R[d] = g(f(R[a], R[b]), R[c])(p)(r); });
    else if (name == "right") op2(o1, o2, [&](auto f, auto g) { R[d] = f(R[a], g(R[b], R[c]))(p, r); });
    else if (name == "rightin") op2(o1, o2, [&](auto f, auto g) { R[d] = f(R[a], g(R[b], R[c])(p1, r1))(p, r); });
    else if (name == "rebind") op(o1, [&](auto f) { R[d] = f(R[a], R[b])(p1)(r1)(p)(r); });
    else if (name == "both") op2(o1, o2, [&](auto f, auto g) { op(o3, [&](auto h) { R[d] = h(f(R[a], R[b]), g(R[c], R[x]))(p)(r); }); });
    else if (name == "negbin") op(o1, [&](auto f) { R[d] = (-f(R[a], R[b]))(p)(r); });
    else if (name == "binneg") op(o1, [&](auto f) { R[d] = f(R[a], -R[b])(p)(r); });
    else if (name == "binint") op(o1, [&](auto f) { R[d] = f(R[a], i32)(p)(r); });
    else if (name == "intbin") op(o1, [&](auto f) { R[d] = f(i32, R[a])(p)(r); });
    else if (name == "binlong") op(o1, [&](auto f) { R[d] = f(R[a], i64)(p)(r); });
    else if (name == "longbin") op(o1, [&](auto f) { R[d] = f(i64, R[a])(p)(r); });
    else if (name == "bindouble") op(o1, [&](auto f) { const double v = literal(); R[d] = f(R[a], v)(p)(r); });
    else if (name == "doublebin") op(o1, [&](auto f) { const double v = literal(); R[d] = f(v, R[a])(p)(r); });
    else if (name == "weighted") op2(o1, o2, [&](auto f, auto g) { R[d] = g(f(R[a], std::forward<int>(int(i32)) * R[b]), int(j32))(p, r); });
    else if (name == "floor") out.push_back(integer(R[a].floor()));
    else if (name == "ceil") out.push_back(integer(R[a].ceil()));
    else if (name == "parts") {
      out.push_back(integer(R[a].mantissa()));
      out.push_back(integer(R[a].exponent()));
    } else if (name == "logb") out.push_back(integer(R[a].logb()));
    else if (name == "todouble") out.push_back(number(static_cast<double>(R[a])));
    else if (name == "text") {
      std::ostringstream os;
      os.precision(17);
      os << R[a];
      const string s = os.str();
      const auto eq = s.find('=');
      const string first = s.substr(0, eq);
      char* end = nullptr;
      if (first == "+∞") out.push_back(number(std::numeric_limits<double>::infinity()));
      else if (first == "-∞") out.push_back(number(-std::numeric_limits<double>::infinity()));
      else if (first == "NaN") out.push_back(number(std::numeric_limits<double>::quiet_NaN()));
      else {
        out.push_back(number(std::strtod(first.c_str(), &end)));
        if (first.empty() || *end) out.push_back(integer(-1));
      }
      if (eq == string::npos) out.push_back(integer(0));
      else {
        const auto pos = s.find('p', eq);
        out.push_back(integer(1));
        out.push_back(integer(mpz_class(s.substr(eq + 1, pos - eq - 1))));
        out.push_back(integer(mpz_class(s.substr(pos + 1))));
      }
    } else if (name == "cmp") {
      relations(out, R[a], R[b]);
      relations(out, R[b], R[a]);
    } else if (name == "cmplong") {
      relations(out, R[a], i64);
      relations(out, i64, R[a]);
    } else if (name == "cmpint") {
      relations(out, R[a], i32);
      relations(out, i32, R[a]);
    } else if (name == "hash") {
      const auto h = std::hash<Arf>{};
      bool same = h(R[a]) == h(R[b]);
      // the same value, obtained in other ways
      if (arf_is_finite(R[a].arf_t())) {
        fmpz_t m, e;
        fmpz_init(m);
        fmpz_init(e);
        arf_get_fmpz_2exp(m, e, R[a].arf_t());
        fmpz_clear(m);
        if (fmpz_fits_si(e) && fmpz_get_si(e) > LONG_MIN + 7) {
          const Arf rebuilt(R[a].mantissa() * 128, fmpz_get_si(e) - 7);
          const Arf parsed(mpz_class(R[a].mantissa() * 3).get_str(7), 7, fmpz_get_si(e));
          Arf third;
          third = (parsed / 3)(100000)(Arf::Round::NEAR);
          same = same && rebuilt == R[a] && h(rebuilt) == h(R[a]) && third == R[a] && h(third) == h(R[a]);
        }
        fmpz_clear(e);
        Arf shifted = R[a] << 12345;
        shifted >>= 12345;
        same = same && shifted == R[a] && h(shifted) == h(R[a]);
        same = same && h(R[a].operator-().operator-()) == h(R[a]);
      }
      out.push_back(boolean(same));
    }
    else {
      std::cerr << "unknown command: " << line << std::endl;
      return 3;
    }

    for (const auto& reg : R) std::cout << val(reg.arf_t()) << ";";
    std::cout << "|";
    for (const auto& v : out) std::cout << v << ";";
    std::cout << "\n" << std::flush;
  }
  return 0;
}
