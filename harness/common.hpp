// Shared by the drivers: reading commands, writing reports.
#ifndef VERIF_COMMON_HPP
#define VERIF_COMMON_HPP
#include <flint/flint.h>
#include <flint/arb.h>
#include <flint/arf.h>
#include <flint/fmpz.h>
#include <gmpxx.h>
#include <signal.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include "exact-real/arb.hpp"
#include "exact-real/arf.hpp"
#include "exact-real/yap/arb.hpp"
#ifndef VERIF_NO_YAP_ARF
#include "exact-real/yap/arf.hpp"
#endif

using exactreal::Arb;
using exactreal::Arf;
using Words = std::vector<mpz_class>;

struct Report {
  std::ostringstream os;
  template <typename T>
  Report& operator<<(const T& x) {
    os << ' ' << x;
    return *this;
  }
  // An extended dyadic as three integers: kind, mantissa, exponent
  Report& val(const arf_t x) {
    if (arf_is_nan(x)) return *this << 3 << 0 << 0;
    if (arf_is_pos_inf(x)) return *this << 1 << 0 << 0;
    if (arf_is_neg_inf(x)) return *this << 2 << 0 << 0;
    fmpz_t m, e;
    fmpz_init(m);
    fmpz_init(e);
    arf_get_fmpz_2exp(m, e, x);
    char* ms = fmpz_get_str(nullptr, 10, m);
    char* es = fmpz_get_str(nullptr, 10, e);
    *this << 0 << ms << es;
    flint_free(ms);
    flint_free(es);
    fmpz_clear(m);
    fmpz_clear(e);
    return *this;
  }
  Report& val(const Arf& x) { return val(x.arf_t()); }
  Report& val(double x) {
    arf_t y;
    arf_init(y);
    arf_set_d(y, x);
    val(y);
    arf_clear(y);
    return *this;
  }
  // The exact end points of a ball, computed independently of libexactreal.
  Report& ball(const Arb& x) {
    arf_t lo, hi, rad;
    arf_init(lo);
    arf_init(hi);
    arf_init(rad);
    arf_set_mag(rad, arb_radref(x.arb_t()));
    arf_sub(lo, arb_midref(x.arb_t()), rad, ARF_PREC_EXACT, ARF_RND_DOWN);
    arf_add(hi, arb_midref(x.arb_t()), rad, ARF_PREC_EXACT, ARF_RND_DOWN);
    val(lo);
    val(hi);
    arf_clear(lo);
    arf_clear(hi);
    arf_clear(rad);
    return *this;
  }
};

// Reads "op a0 a1 ..." lines, answers each with one line: "r0 r1 ...", or "! text"
// when the library has thrown.
template <typename Exec>
int serve(Exec&& exec) {
  std::ios::sync_with_stdio(false);
  const char* limit = std::getenv("VERIF_ALARM");
  const unsigned seconds = limit ? std::atoi(limit) : 60;
  std::string line;
  while (std::getline(std::cin, line)) {
    std::istringstream is(line);
    std::string op, w;
    is >> op;
    Words args;
    while (is >> w) args.emplace_back(w);
    alarm(seconds);
    Report r;
    try {
      exec(op, args, r);
      std::cout << r.os.str() << std::endl;
    } catch (const std::exception& e) {
      std::string what = e.what();
      for (auto& c : what)
        if (c == '\n') c = ' ';
      std::cout << "! " << what << std::endl;
    }
    alarm(0);
  }
  return 0;
}
#endif
