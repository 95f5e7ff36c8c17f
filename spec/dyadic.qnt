// Exact dyadic (and rational) arithmetic: the mathematics that all the other
// modules are written in. Everything here is a pure definition over unbounded
// integers; nothing is taken from the implementation.
module dyadic {
  // An extended dyadic number. k = "fin": the number m*2^e with m odd, or m = 0
  // and e = 0; k = "pinf", "ninf", "nan": the non-finite values.
  type Val = { k: str, m: int, e: int }

  pure val ZERO: Val = { k: "fin", m: 0, e: 0 }
  pure val PINF: Val = { k: "pinf", m: 0, e: 0 }
  pure val NINF: Val = { k: "ninf", m: 0, e: 0 }
  pure val NAN: Val = { k: "nan", m: 0, e: 0 }

  pure def absi(x: int): int = if (x < 0) -x else x
  pure def sgn(x: int): int = if (x < 0) -1 else if (x > 0) 1 else 0
  pure def maxi(x: int, y: int): int = if (x < y) y else x
  pure def mini(x: int, y: int): int = if (x < y) x else y
  pure def b2i(b: bool): int = if (b) 1 else 0

  // Floor division for d > 0 (the language leaves the rounding of / open).
  pure def fdiv(n: int, d: int): int =
    if (n >= 0) n / d else -((-n + d - 1) / d)
  pure def cdiv(n: int, d: int): int = -fdiv(-n, d)

  pure val BITSTEPS = [16384, 8192, 4096, 2048, 1024, 512, 256, 128, 64, 32, 16, 8, 4, 2, 1]

  // Number of bits of |x|; 0 for x = 0.
  pure def bits(x: int): int = {
    pure val a = absi(x)
    if (a < 2) a else
    BITSTEPS.foldl((a, 1), (acc, s) =>
      if (acc._1 >= 2^s) (acc._1 / 2^s, acc._2 + s) else acc)._2
  }

  // Strip factors of two: m*2^e with m odd.
  pure def norm(m: int, e: int): Val =
    if (m == 0) ZERO
    else if (m % 2 != 0) { k: "fin", m: m, e: e }
    else {
      pure val r = BITSTEPS.foldl((absi(m), e), (acc, s) =>
        if (acc._1 % 2^s == 0) (acc._1 / 2^s, acc._2 + s) else acc)
      { k: "fin", m: sgn(m) * r._1, e: r._2 }
    }

  pure def fromInt(n: int): Val = norm(n, 0)

  pure def isFin(x: Val): bool = x.k == "fin"
  pure def neg(x: Val): Val =
    if (x.k == "fin") { ...x, m: -x.m }
    else if (x.k == "pinf") NINF else if (x.k == "ninf") PINF else NAN
  pure def abs(x: Val): Val =
    if (x.k == "fin") { ...x, m: absi(x.m) }
    else if (x.k == "nan") NAN else PINF
  pure def shl(x: Val, n: int): Val =
    if (x.k == "fin" and x.m != 0) { ...x, e: x.e + n } else x

  // The sign of a value that is not a NaN.
  pure def vsgn(x: Val): int =
    if (x.k == "fin") sgn(x.m) else if (x.k == "pinf") 1 else -1

  // floor(log2|x|) of a finite non-zero x.
  pure def ilog(x: Val): int = bits(x.m) + x.e - 1

  // Compare two values none of which is a NaN: -1, 0, 1. Works for arbitrarily
  // large exponents.
  pure def vcmp(x: Val, y: Val): int =
    if (x == y) 0
    else if (x.k != "fin" or y.k != "fin") {
      pure val rx = if (x.k == "pinf") 1 else if (x.k == "ninf") -1 else 0
      pure val ry = if (y.k == "pinf") 1 else if (y.k == "ninf") -1 else 0
      sgn(rx - ry)
    }
    else if (sgn(x.m) != sgn(y.m)) sgn(sgn(x.m) - sgn(y.m))
    else {
      pure val s = sgn(x.m)
      pure val lx = ilog(x)
      pure val ly = ilog(y)
      if (lx != ly) s * sgn(lx - ly)
      else if (x.e >= y.e) sgn(x.m * 2^(x.e - y.e) - y.m)
      else sgn(x.m - y.m * 2^(y.e - x.e))
    }

  // --- exact arithmetic on finite values ------------------------------------
  pure def eadd(x: Val, y: Val): Val =
    if (x.e <= y.e) norm(x.m + y.m * 2^(y.e - x.e), x.e)
    else norm(x.m * 2^(x.e - y.e) + y.m, y.e)
  pure def esub(x: Val, y: Val): Val = eadd(x, neg(y))
  pure def emul(x: Val, y: Val): Val = norm(x.m * y.m, x.e + y.e)

  pure def vfloor(x: Val): int =
    if (x.e >= 0) x.m * 2^(x.e)
    else if (bits(x.m) + x.e < 0) (if (x.m < 0) -1 else 0)
    else fdiv(x.m, 2^(-x.e))
  pure def vceil(x: Val): int = -vfloor(neg(x))

  // --- rounding -------------------------------------------------------------
  // Correctly round s*(n/d)*2^e with s = -1, 1; n > 0, d > 0 to p bits.
  pure def rnd(s: int, n: int, d: int, e: int, p: int, mode: str): Val = {
    pure val t0 = p + bits(d) - bits(n)
    pure val N0 = if (t0 >= 0) n * 2^t0 else n
    pure val D0 = if (t0 >= 0) d else d * 2^(-t0)
    // floor(N0/D0) has p or p + 1 bits
    pure val wide = N0 >= D0 * 2^p
    pure val t = if (wide) t0 - 1 else t0
    pure val N = if (t >= 0) n * 2^t else n
    pure val D = if (t >= 0) d else d * 2^(-t)
    pure val q = N / D
    pure val r = N - q * D
    pure val up =
      if (r == 0) false
      else if (mode == "DOWN") false
      else if (mode == "UP") true
      else if (mode == "FLOOR") s < 0
      else if (mode == "CEIL") s > 0
      else 2 * r > D or (2 * r == D and q % 2 == 1)
    norm(s * (q + b2i(up)), e - t)
  }

  pure val EXACT = 2^63 - 1

  pure def rndv(x: Val, p: int, mode: str): Val =
    if (x.k != "fin" or x.m == 0 or p == EXACT) x
    else rnd(sgn(x.m), absi(x.m), 1, x.e, p, mode)

  // --- floating point operations --------------------------------------------
  pure def fadd(x: Val, y: Val, p: int, mode: str): Val =
    if (x.k == "nan" or y.k == "nan") NAN
    else if (x.k != "fin" and y.k != "fin") (if (x.k == y.k) x else NAN)
    else if (x.k != "fin") x
    else if (y.k != "fin") y
    else rndv(eadd(x, y), p, mode)
  pure def fsub(x: Val, y: Val, p: int, mode: str): Val = fadd(x, neg(y), p, mode)
  pure def fmul(x: Val, y: Val, p: int, mode: str): Val =
    if (x.k == "nan" or y.k == "nan") NAN
    else if (x.k != "fin" or y.k != "fin") {
      pure val s = vsgn(x) * vsgn(y)
      if (s == 0) NAN else if (s > 0) PINF else NINF
    }
    else rndv(emul(x, y), p, mode)
  pure def fdvd(x: Val, y: Val, p: int, mode: str): Val =
    if (x.k == "nan" or y.k == "nan") NAN
    else if (x.k != "fin" and y.k != "fin") NAN
    else if (y.k != "fin") ZERO
    else if (y.m == 0) NAN
    else if (x.k != "fin") (if (vsgn(x) * sgn(y.m) > 0) PINF else NINF)
    else if (x.m == 0) ZERO
    else rnd(sgn(x.m) * sgn(y.m), absi(x.m), absi(y.m), x.e - y.e, p, mode)

  pure def fop(op: str, x: Val, y: Val, p: int, mode: str): Val =
    if (op == "+") fadd(x, y, p, mode)
    else if (op == "-") fsub(x, y, p, mode)
    else if (op == "*") fmul(x, y, p, mode)
    else fdvd(x, y, p, mode)

  // --- IEEE doubles ---------------------------------------------------------
  // The double nearest to s*(n/d)*2^e (ties to even), as a value; overflow
  // gives an infinity, underflow a zero.
  pure def nearestDouble(s: int, n: int, d: int, e: int): Val =
    if (n == 0) ZERO
    else {
      // floor(log2(n/d*2^e)) is l or l - 1
      pure val l = bits(n) - bits(d) + e
      if (l > 1026) (if (s > 0) PINF else NINF)
      else if (l < -1078) ZERO
      else {
        pure val r = rnd(s, n, d, e, 53, "NEAR")
        if (ilog(r) >= 1024) (if (s > 0) PINF else NINF)
        else if (l >= -1020) r
        else {
          // the quantum may be 2^-1074: round n/d*2^(e+1074) to an integer
          pure val t = e + 1074
          pure val N = if (t >= 0) n * 2^t else n
          pure val D = if (t >= 0) d else d * 2^(-t)
          pure val q = N / D
          pure val rem = N - q * D
          pure val up = 2 * rem > D or (2 * rem == D and q % 2 == 1)
          // with more than 53 bits above the quantum, r has been right already
          if (bits(q) >= 54) r else norm(s * (q + b2i(up)), -1074)
        }
      }
    }

  pure def toDouble(x: Val): Val =
    if (x.k != "fin") x else nearestDouble(sgn(x.m), absi(x.m), 1, x.e)

  // --- rationals ------------------------------------------------------------
  // A rational n/d with d > 0, not necessarily in lowest terms.
  type Rat = { n: int, d: int }
  pure def rat(n: int, d: int): Rat = if (d < 0) { n: -n, d: -d } else { n: n, d: d }
  pure def radd(x: Rat, y: Rat): Rat = if (x.d == y.d) { n: x.n + y.n, d: x.d } else { n: x.n * y.d + y.n * x.d, d: x.d * y.d }
  pure def rneg(x: Rat): Rat = { n: -x.n, d: x.d }
  pure def rsub(x: Rat, y: Rat): Rat = radd(x, rneg(y))
  pure def rmul(x: Rat, y: Rat): Rat = { n: x.n * y.n, d: x.d * y.d }
  pure def rcmp(x: Rat, y: Rat): int = sgn(x.n * y.d - y.n * x.d)
  pure def req(x: Rat, y: Rat): bool = rcmp(x, y) == 0
  pure def toRat(x: Val): Rat = if (x.e >= 0) { n: x.m * 2^(x.e), d: 1 } else { n: x.m, d: 2^(-x.e) }
  pure def rint(n: int): Rat = { n: n, d: 1 }
  pure def ratDouble(x: Rat): Val = nearestDouble(sgn(x.n), absi(x.n), x.d, 0)
  pure def rfloor(x: Rat): int = fdiv(x.n, x.d)
  pure def rceil(x: Rat): int = cdiv(x.n, x.d)
  // Compare a rational with a value that is not a NaN.
  pure def rvcmp(x: Rat, y: Val): int =
    if (y.k == "pinf") -1 else if (y.k == "ninf") 1 else rcmp(x, toRat(y))

  // Euclid's algorithm; 64 steps at a time until nothing changes any more. Good
  // for operands of up to several hundred bits.
  pure def gcdSteps(p: (int, int)): (int, int) =
    1.to(64).fold(p, (acc, _s) => if (acc._2 == 0) acc else (acc._2, acc._1 % acc._2))
  pure def gcd(a: int, b: int): int = {
    pure val p0 = gcdSteps((absi(a), absi(b)))
    if (p0._2 == 0) p0._1 else {
      pure val p1 = gcdSteps(p0)
      // enough for thousands of bits
      1.to(80).fold(p1, (acc, _t) => if (acc._2 == 0) acc else gcdSteps(acc))._1
    }
  }
  // lowest terms
  pure def rnorm(x: Rat): Rat =
    if (x.n == 0) { n: 0, d: 1 }
    else if (x.d == 1) x
    else {
      pure val g = gcd(x.n, x.d)
      { n: sgn(x.n) * (absi(x.n) / g), d: x.d / g }
    }

  // --- intervals with dyadic end points -----------------------------------------
  type Iv = { lo: Val, hi: Val }
  pure def vmin(x: Val, y: Val): Val = if (vcmp(x, y) <= 0) x else y
  pure def vmax(x: Val, y: Val): Val = if (vcmp(x, y) >= 0) x else y
  pure def ivmul(x: Iv, y: Iv): Iv = {
    pure val a = emul(x.lo, y.lo)
    pure val b = emul(x.lo, y.hi)
    pure val c = emul(x.hi, y.lo)
    pure val d = emul(x.hi, y.hi)
    { lo: vmin(vmin(a, b), vmin(c, d)), hi: vmax(vmax(a, b), vmax(c, d)) }
  }
  pure def ivadd(x: Iv, y: Iv): Iv = { lo: eadd(x.lo, y.lo), hi: eadd(x.hi, y.hi) }
  pure def ivmeet(x: Iv, y: Iv): Iv = { lo: vmax(x.lo, y.lo), hi: vmin(x.hi, y.hi) }
  pure def ivok(x: Iv): bool = vcmp(x.lo, x.hi) <= 0
  pure def ivpoint(x: Val): Iv = { lo: x, hi: x }
  // round outwards to w bits
  pure def ivwiden(x: Iv, w: int): Iv = { lo: rndv(x.lo, w, "FLOOR"), hi: rndv(x.hi, w, "CEIL") }
  // an enclosure of a rational with w bits
  pure def ivrat(q: Rat, w: int): Iv =
    if (q.n == 0) ivpoint(ZERO)
    else { lo: rnd(sgn(q.n), absi(q.n), q.d, 0, w, "FLOOR"), hi: rnd(sgn(q.n), absi(q.n), q.d, 0, w, "CEIL") }

  // --- self checks ------------------------------------------------------------
  run roundingTest = {
    assert(and {
      rnd(1, 1, 3, 0, 3, "NEAR") == { k: "fin", m: 5, e: -4 },
      rnd(1, 1, 3, 0, 64, "NEAR") == { k: "fin", m: 12297829382473034411, e: -65 },
      rnd(1, 7, 1, 0, 2, "NEAR") == { k: "fin", m: 1, e: 3 },
      rnd(1, 5, 1, 0, 2, "NEAR") == { k: "fin", m: 1, e: 2 },
      rnd(-1, 5, 1, 0, 2, "FLOOR") == { k: "fin", m: -3, e: 1 },
      rnd(-1, 5, 1, 0, 2, "CEIL") == { k: "fin", m: -1, e: 2 },
      rnd(-1, 5, 1, 0, 2, "UP") == { k: "fin", m: -3, e: 1 },
      toDouble(norm(1, -1075)) == ZERO,
      toDouble(norm(3, -1075)) == norm(1, -1073),
      toDouble(norm(2^54 - 1, 970)) == PINF,
      toDouble(norm(2^53 - 1, 971)) == norm(2^53 - 1, 971),
      bits(0) == 0, bits(1) == 1, bits(255) == 8, bits(-256) == 9,
      fdiv(-7, 2) == -4, fdiv(7, 2) == 3, fdiv(-8, 2) == -4, cdiv(7, 2) == 4,
      norm(12, 0) == { k: "fin", m: 3, e: 2 },
      vcmp(norm(1, 2^64), norm(-1, 2^64)) == 1,
      gcd(12, -18) == 6, rnorm({ n: -12, d: 18 }) == { n: -2, d: 3 }, gcd(2^200, 6^70) == 2^70,
      vfloor(norm(-1, -8)) == -1, vceil(norm(-1, -8)) == 0, vfloor(norm(-1, -2^70)) == -1,
    })
  }
}
