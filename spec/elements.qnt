// Elements of modules: linear combinations of independent real numbers with
// coefficients in the integers, the rationals, or a real embedded number field.
//
// The state is exact: an element is known by its module (the ring and the
// generators) and by the coefficient of each generator. The generators are
// rationals and monomials in four random reals; the latter are only known up to
// intervals that an initial event reports. All arithmetic is decided exactly on
// polynomials, the order of the reals by the intervals.
module elements {
  import dyadic.* from "./dyadic"
  import coeffs.* from "./coeffs"

  // A generator (n, d, code): the rational n/d (code = 0), or a monomial whose
  // exponents are the octal digits of the code (n = d = 1).
  type Gen = (int, int, int)
  // t: 0 for an empty slot, 1 for the integers, 2 for the rationals, 3 for number
  // fields; f: 0 for the rationals as a number field, 1 and 2 for t^2 = 2 and t^3 = 2.
  type Elem = { t: int, f: int, c: Gen -> Coeff }
  type Poly = int -> Coeff
  type St = { x: int -> Elem, iv: List[Iv] }
  type Res = { st: St, err: str }

  pure val SLOTS = 0.to(7)
  pure val EMPTY: Elem = { t: 0, f: 0, c: Map() }
  pure val start: St = { x: SLOTS.mapBy(s => EMPTY), iv: [] }
  pure val ONE: Gen = (1, 1, 0)
  pure def ring(e: Elem): (int, int) = (e.t, e.f)
  pure def isField(t: int): bool = t != 1

  // --- generators ---------------------------------------------------------------
  pure def digit(code: int, i: int): int = (code / (if (i == 0) 1 else if (i == 1) 8 else if (i == 2) 64 else 512)) % 8
  pure def degree(code: int): int = digit(code, 0) + digit(code, 1) + digit(code, 2) + digit(code, 3)
  pure def genMulOk(g: Gen, h: Gen): bool =
    and { (g._3 == 0 and h._3 == 0) or (g._3 != 0 and h._3 != 0) or g == ONE or h == ONE, degree(g._3) + degree(h._3) <= 6 }
  pure def genMul(g: Gen, h: Gen): Gen = {
    pure val q = rnorm({ n: g._1 * h._1, d: g._2 * h._2 })
    (q.n, q.d, g._3 + h._3)
  }
  pure def divides(h: int, g: int): bool = 0.to(3).forall(i => digit(h, i) <= digit(g, i))

  // --- polynomials: what an element stands for ------------------------------------------
  pure def coef(p: Poly, code: int): Coeff = if (p.keys().contains(code)) p.get(code) else C0
  pure def trim(p: Poly): Poly = p.keys().filter(k => not(czero(p.get(k)))).mapBy(k => p.get(k))
  pure def value(e: Elem): Poly = {
    // there is at most one rational generator
    pure val codes = e.c.keys().map(g => g._3)
    trim(codes.mapBy(k => e.c.keys().filter(g => g._3 == k).fold(C0, (s, g) => if (k == 0) cadd(s, cmul(e.f, e.c.get(g), [g._2, g._1])) else e.c.get(g))))
  }
  pure def padd(p: Poly, q: Poly): Poly =
    trim(p.keys().union(q.keys()).mapBy(k => cadd(coef(p, k), coef(q, k))))
  pure def pneg(p: Poly): Poly = p.keys().mapBy(k => cneg(p.get(k)))
  pure def psub(p: Poly, q: Poly): Poly = padd(p, pneg(q))
  pure def pscale(f: int, p: Poly, c: Coeff): Poly = trim(p.keys().mapBy(k => cmul(f, p.get(k), c)))
  pure def pshift(p: Poly, code: int): Poly = p.keys().map(k => (k + code, p.get(k))).setToMap()
  pure def pmul(f: int, p: Poly, q: Poly): Poly =
    q.keys().fold(Map(), (acc, k) => padd(acc, pshift(pscale(f, p, q.get(k)), k)))
  pure def pconst(c: Coeff): Poly = if (czero(c)) Map() else Map(0 -> c)
  pure val PZERO: Poly = Map()
  pure def isConst(p: Poly): bool = p.keys().forall(k => k == 0)

  // Division of polynomials; the leading monomial is the one of highest degree.
  pure def lead(p: Poly): int = p.keys().fold(-1, (m, k) => maxi(m, degree(k) * 4096 + k)) % 4096
  pure def pdiv(t: int, f: int, p: Poly, q: Poly): (bool, Poly) = {
    pure val k = lead(q)
    pure val inv = cinv(f, q.get(k))
    pure val res = range(0, 250).foldl((p, PZERO, true), (acc, _i) =>
      if (not(acc._3) or acc._1 == PZERO) acc
      else {
        pure val l = lead(acc._1)
        if (not(divides(k, l))) (acc._1, acc._2, false)
        else {
          pure val c = cmul(f, acc._1.get(l), inv)
          if (t == 1 and c[0] != 1) (acc._1, acc._2, false)
          else (psub(acc._1, pshift(pscale(f, q, c), l - k)), acc._2.put(l - k, c), true)
        }
      })
    (res._3 and res._1 == PZERO, res._2)
  }

  // --- numerical values -------------------------------------------------------------------
  pure def moniv(st: St, code: int): Iv =
    range(0, 4).foldl(ivpoint(fromInt(1)), (acc, i) => range(0, digit(code, i)).foldl(acc, (a, _j) => ivwiden(ivmul(a, st.iv[i]), WORK)))
  pure def piv(st: St, f: int, p: Poly): Iv =
    p.keys().fold(ivpoint(ZERO), (acc, k) => ivadd(acc, ivwiden(ivmul(moniv(st, k), civ(f, p.get(k))), WORK)))
  // the sign of p; 2 if it is not known
  pure def sign(st: St, f: int, p: Poly): int =
    if (p == PZERO) 0
    else if (isConst(p) and cisRat(p.get(0))) sgn(at(p.get(0), 0))
    else {
      pure val X = piv(st, f, p)
      if (vsgn(X.lo) > 0) 1 else if (vsgn(X.hi) < 0) -1 else 2
    }
  pure def isRat(p: Poly): bool = isConst(p) and cisRat(coef(p, 0))
  pure def ratOf(p: Poly): Rat = { n: at(coef(p, 0), 0), d: coef(p, 0)[0] }

  pure def bits6(c: int): List[int] = [b2i(c < 0), b2i(c <= 0), b2i(c == 0), b2i(c != 0), b2i(c > 0), b2i(c >= 0)]
  pure def relationsFit(c: int, r: List[int]): bool =
    if (c == 2) r == bits6(-1).concat(bits6(1)) or r == bits6(1).concat(bits6(-1))
    else r == bits6(c).concat(bits6(-c))

  // --- modules ---------------------------------------------------------------------------------
  pure def rats(k: Set[Gen]): Set[Gen] = k.filter(g => g._3 == 0)
  pure def validGens(k: Set[Gen]): bool = rats(k).size() <= 1
  // do the two modules have a sum?
  pure def spanOk(x: Elem, y: Elem): bool =
    and { x.t == y.t, x.t != 0, x.f == y.f or x.f == 0 or y.f == 0, validGens(x.c.keys().union(y.c.keys())) }
  pure def fieldOf(x: Elem, y: Elem): int = maxi(x.f, y.f)
  pure def zeros(k: Set[Gen]): Gen -> Coeff = k.mapBy(_g => C0)
  pure def span(x: Elem, y: Elem): Elem =
    { t: x.t, f: if (x.c.keys() == Set()) y.f else if (y.c.keys() == Set()) x.f else fieldOf(x, y), c: zeros(x.c.keys().union(y.c.keys())) }
  pure def mulOk(x: Elem, y: Elem): bool =
    and { x.t == y.t, x.t != 0, x.f == y.f or x.f == 0 or y.f == 0, x.c.keys().size() * y.c.keys().size() <= 40,
      x.c.keys().forall(g => y.c.keys().forall(h => genMulOk(g, h))) }
  pure def products(x: Set[Gen], y: Set[Gen]): Set[Gen] = x.map(g => y.map(h => genMul(g, h))).flatten()
  // the element of the module of m with the value p
  pure def within(m: Elem, p: Poly): Elem =
    { ...m, c: m.c.keys().mapBy(g => if (g._3 == 0) cmul(m.f, coef(p, 0), [absi(g._1), sgn(g._1) * g._2]) else coef(p, g._3)) }
  pure def unused(e: Elem): bool = e.c.keys().exists(g => czero(e.c.get(g)))
  pure def simplified(e: Elem): Elem = {
    pure val k = e.c.keys().filter(g => not(czero(e.c.get(g))))
    { ...e, c: k.mapBy(g => e.c.get(g)) }
  }
  // can the element be written in the module of m?
  pure def promoteOk(e: Elem, m: Elem): bool =
    and { e.t == m.t, e.t != 0, value(e) == PZERO or and { e.f == m.f or e.f == 0 or value(e).keys().forall(k => cisRat(value(e).get(k))),
      e.c.keys().forall(g => czero(e.c.get(g)) or m.c.keys().contains(g)) } }

  // --- reports -----------------------------------------------------------------------------------
  // An element: ring, field, rank, whether the generators are sorted, the slots
  // with the same module; then for each generator n, d, code and the coefficient,
  // padded to the degree of the field.
  pure def parse(r: List[int]): Elem = {
    pure val w = 4 + deg(r[1])
    { t: r[0], f: r[1], c: range(0, r[2]).foldl(Map(), (m, i) => {
      pure val o = 5 + i * w
      m.put((r[o], r[o + 1], r[o + 2]), cnorm(r[o + 3], r[o + 4], if (r[1] >= 1) r[o + 5] else 0, if (r[1] >= 2) r[o + 6] else 0))
    }) }
  }
  pure def wellFormed(r: List[int]): bool = r.length() == 5 + r[2] * (4 + deg(r[1]))
  pure def moduleMask(x: int -> Elem, e: Elem): int =
    SLOTS.fold(0, (m, s) => m + b2i(x.get(s).t == e.t and x.get(s).f == e.f and x.get(s).c.keys() == e.c.keys()) * 2^s)

  pure def ok(st: St): Res = { st: st, err: "" }
  pure def check(b: bool, st: St, err: str): Res = { st: st, err: if (b) "" else err }

  // Store a reported element in slot d; it must have the value p. Its module must
  // be the one of m when strict. (The module of zero is not always specified.)
  pure def stored(st: St, d: int, p: Poly, m: Elem, strict: bool, r: List[int], why: str): Res =
    if (not(wellFormed(r))) check(false, st, why)
    else {
      pure val e = parse(r)
      pure val x2 = st.x.set(d, e)
      pure val st2 = { ...st, x: x2 }
      if (e.t != m.t) check(false, st2, "module")
      else if (e.c.keys().size() != r[2] or not(validGens(e.c.keys()))) check(false, st2, "generators are not distinct")
      else if (not(e.c.keys().forall(g => inRing(e.t, e.f, e.c.get(g))))) check(false, st2, "coefficient is not in the ring")
      else if (value(e) != p) check(false, st2, why)
      else if (strict and (e.c.keys() != m.c.keys() or (e.f != m.f and e.c.keys() != Set()))) check(false, st2, "module")
      else if (r[3] != 1) check(false, st2, "generators are not sorted")
      else check(r[4] == moduleMask(x2, e), st2, "modules are not unique")
    }

  // --- arguments -----------------------------------------------------------------------------------
  // n generators and coefficients, seven integers each, from position o on
  pure def argGens(a: List[int], o: int, n: int): List[Gen] = range(0, n).foldl([], (l, i) => l.append((a[o + 7 * i], a[o + 7 * i + 1], a[o + 7 * i + 2])))
  pure def argElem(a: List[int], o: int): Elem =
    { t: a[o], f: a[o + 1], c: range(0, a[o + 2]).foldl(Map(), (m, i) => {
      pure val q = o + 3 + 7 * i
      m.put((a[q], a[q + 1], a[q + 2]), cnorm(a[q + 3], a[q + 4], a[q + 5], a[q + 6]))
    }) }

  // Scalars: 0 short, 1 unsigned short, 2 int, 3 unsigned int, 4 long, 5 unsigned
  // long, 6 long long, 7 unsigned long long, 8 integer, 9 rational, 10 ring element
  // a scalar [kind, d, a0, a1, a2]
  pure def scalar(a: List[int], o: int): Coeff = cnorm(a[o + 1], a[o + 2], a[o + 3], a[o + 4])

  // x*c or x/c; the flag is false when it does not exist
  pure def scale(x: Elem, c: Coeff, times: bool): (bool, Elem) =
    if (not(times) and czero(c)) (false, x)
    else {
      pure val k = if (times) c else cinv(x.f, c)
      pure val y = { ...x, c: x.c.keys().mapBy(g => cmul(x.f, x.c.get(g), k)) }
      (x.t != 1 or y.c.keys().forall(g => y.c.get(g)[0] == 1), y)
    }

  pure val STRUCTURAL = Set("mk", "lit", "copy", "neg", "add", "sub", "mul", "scal", "mulreal", "promote", "simplify", "convert", "zero", "gen", "one", "span", "drop", "truediv", "move", "swap", "movein")
  // what a command that produces an element does
  pure def shape(st: St, op: str, a: List[int]): St = {
    pure val d = a[0]
    pure val s = if (op == "mk" or op == "lit" or op == "drop") EMPTY else st.x.get(a[1])
    pure def put_(e: Elem): St = { ...st, x: st.x.set(d, e) }
    if (op == "mk" or op == "lit") put_(argElem(a, 1))
    else if (op == "copy") put_(s)
    else if (op == "neg") put_({ ...s, c: s.c.keys().mapBy(g => cneg(s.c.get(g))) })
    else if (op == "add") put_(within(span(s, st.x.get(a[2])), padd(value(s), value(st.x.get(a[2])))))
    else if (op == "sub") put_(within(span(s, st.x.get(a[2])), psub(value(s), value(st.x.get(a[2])))))
    else if (op == "mul") {
      pure val u = st.x.get(a[2])
      pure val f = fieldOf(s, u)
      if (value(s) == PZERO) put_(s) else if (value(u) == PZERO) put_(u)
      else put_(within({ t: s.t, f: f, c: zeros(products(s.c.keys(), u.c.keys())) }, pmul(f, value(s), value(u))))
    }
    else if (op == "mulreal") {
      pure val g = (a[2], a[3], a[4])
      if (value(s) == PZERO) put_(s) else put_({ ...s, c: s.c.keys().map(h => (genMul(g, h), s.c.get(h))).setToMap() })
    }
    else if (op == "scal") {
      pure val res = scale(s, scalar(a, 4), a[2] == 0)
      if (res._1) put_(res._2) else if (a[3] % 3 == 2) put_(s) else st
    }
    else if (op == "promote") put_(within(st.x.get(a[2]), value(s)))
    else if (op == "simplify") put_(simplified(s))
    else if (op == "convert") put_({ ...s, t: a[2], f: 0 })
    else if (op == "zero") put_({ ...s, c: zeros(s.c.keys()) })
    else if (op == "gen") put_({ ...s, c: zeros(s.c.keys()).set((a[2], a[3], a[4]), C1) })
    else if (op == "one") {
      if (rats(s.c.keys()).exists(g => s.t != 1 or absi(g._1) == 1)) put_(within(s, pconst(C1))) else st
    }
    else if (op == "span") put_(span(s, st.x.get(a[2])))
    else if (op == "drop") put_(EMPTY)
    else if (op == "truediv") {
      pure val u = st.x.get(a[2])
      pure val f = fieldOf(s, u)
      if (value(u) == PZERO) st
      else {
        // the driver moves the quotient to its smallest module
        pure val res = pdiv(s.t, f, value(s), value(u))
        if (res._1) put_({ t: s.t, f: f, c: res._2.keys().map(k => ((1, 1, k), res._2.get(k))).setToMap() }) else st
      }
    }
    else if (op == "move" or op == "movein") { ...st, x: if (a[0] == a[1]) st.x else st.x.set(d, s).set(a[1], EMPTY) }
    else if (op == "swap") { ...st, x: st.x.set(d, s).set(a[1], st.x.get(d)) }
    else st
  }

  // --- the events ------------------------------------------------------------------------------------
  pure def around(v: Val): Iv = {
    pure val e = shl(abs(v), -639)
    { lo: esub(v, e), hi: eadd(v, e) }
  }
  pure def floorOk(st: St, f: int, p: Poly, n: int): bool =
    sign(st, f, psub(p, pconst([1, n]))) != -1 and sign(st, f, psub(p, pconst([1, n + 1]))) % 2 != 1
  pure def ceilOk(st: St, f: int, p: Poly, n: int): bool =
    sign(st, f, psub(p, pconst([1, n]))) != 1 and {
      pure val c = sign(st, f, psub(p, pconst([1, n - 1])))
      c == 1 or c == 2
    }
  pure def doubleOk(st: St, f: int, p: Poly, v: Val): bool =
    if (isRat(p)) v == ratDouble(ratOf(p))
    else {
      pure val X = piv(st, f, p)
      pure val lo = toDouble(X.lo)
      lo != toDouble(X.hi) or v == lo
    }
  pure def ballOk(st: St, f: int, p: Poly, lo: Val, hi: Val): bool =
    if (not(isFin(lo)) or not(isFin(hi))) false
    else if (isRat(p)) rcmp(toRat(lo), ratOf(p)) <= 0 and rcmp(ratOf(p), toRat(hi)) <= 0
    else ivok(ivmeet(piv(st, f, p), { lo: lo, hi: hi }))

  // is n the floor of p/q?
  pure def quotientOk(st: St, f: int, p: Poly, q: Poly, n: int): bool = {
    pure val s = sign(st, f, q)
    pure val lo = sign(st, f, psub(p, pscale(f, q, [1, n])))
    pure val hi = sign(st, f, psub(p, pscale(f, q, [1, n + 1])))
    s == 2 or (lo != -s and hi != s and hi != 0)
  }

  pure def exec(st: St, op: str, a: List[int], r: List[int]): Res = {
    pure val x = if (a.length() > 0 and SLOTS.contains(a[0])) st.x.get(a[0]) else EMPTY
    pure val y = if (a.length() > 1 and SLOTS.contains(a[1])) st.x.get(a[1]) else EMPTY
    pure val z = if (a.length() > 2 and SLOTS.contains(a[2])) st.x.get(a[2]) else EMPTY
    if (op == "atoms") ok({ ...st, iv: range(0, 4).foldl([], (l, i) => l.append(around(val3(r, 3 * i)))) })
    else if (op == "drop") ok(shape(st, op, a))
    else if (STRUCTURAL.contains(op)) {
      pure val next_ = shape(st, op, a)
      pure val e = next_.x.get(a[0])
      pure val p = value(e)
      if (op == "mk" or op == "lit") stored(st, a[0], p, e, true, r, "construction")
      else if (op == "copy" or op == "neg") stored(st, a[0], p, e, true, r, op)
      else if (op == "add" or op == "sub") stored(st, a[0], p, e, true, r, op)
      else if (op == "mul") stored(st, a[0], p, e, p != PZERO, r, op)
      else if (op == "mulreal") stored(st, a[0], p, e, p != PZERO, r, op)
      else if (op == "promote") stored(st, a[0], p, e, true, r, op)
      else if (op == "simplify") stored(st, a[0], p, e, true, r, op)
      else if (op == "convert") stored(st, a[0], p, e, true, r, op)
      else if (op == "zero") stored(st, a[0], PZERO, e, true, r, op)
      else if (op == "span") stored(st, a[0], PZERO, e, true, r, op)
      else if (op == "gen") stored(st, a[0], p, e, true, r, "generator")
      // r: 1 and the element, or -1
      else if (op == "one") {
        pure val exists_ = rats(y.c.keys()).exists(g => y.t != 1 or absi(g._1) == 1)
        if (r[0] != (if (exists_) 1 else -1)) check(false, next_, "one")
        else if (exists_) stored(st, a[0], p, e, true, r.slice(1, r.length()), "one")
        else ok(st)
      }
      else if (op == "scal") {
        pure val res = scale(y, scalar(a, 4), a[2] == 0)
        if (r[0] != b2i(res._1)) check(false, next_, "scalar is accepted")
        else if (res._1 or a[3] % 3 == 2) stored(st, a[0], p, e, true, r.slice(1, r.length()), if (res._1) "scalar" else "failed operation has an effect")
        else ok(st)
      }
      else if (op == "truediv") {
        pure val f = fieldOf(y, z)
        if (value(z) == PZERO) check(r == [-1], st, "division by zero")
        else {
          pure val res = pdiv(y.t, f, value(y), value(z))
          if (r[0] != b2i(res._1)) check(false, next_, "divisibility")
          else if (res._1) stored(st, a[0], res._2, e, true, r.slice(1, r.length()), "quotient")
          else ok(st)
        }
      }
      // moves and swaps: a report on the target, and on the other slot
      else if (op == "move" or op == "movein" or op == "swap") {
        pure val res = stored({ ...st, x: next_.x }, a[0], value(next_.x.get(a[0])), next_.x.get(a[0]), true, r, op)
        res
      }
      else check(false, st, "unknown event")
    }
    // has something been modified behind our back?
    else if (op == "look") stored(st, a[0], value(x), x, true, r, "an element has been modified")
    // duplicate generators, or two rationals
    else if (op == "bad") check(r == [-1], st, "module with dependent generators")
    // r: is the first a submodule of the second, the converse, are they equal, different
    else if (op == "submod") {
      pure val X = x.c.keys()
      pure val Y = y.c.keys()
      pure val same = b2i(X == Y and x.f == y.f)
      check(r == [b2i(X.subseteq(Y)), b2i(Y.subseteq(X)), same, 1 - same], st, "submodule")
    }
    else if (op == "unit") {
      pure val p = value(x)
      pure val q = rats(x.c.keys())
      pure val expected =
        if (p == PZERO or not(isConst(p))) false
        else if (x.t != 1) true
        // 1/(c*q) must be a multiple of q
        else q.exists(g => (g._2 * g._2) % absi(at(x.c.get(g), 0) * g._1 * g._1) == 0)
      check(r == [b2i(expected)], st, "unit")
    }
    // r: floor of x/y or -1 for an exception
    else if (op == "floordiv") {
      pure val p = value(x)
      pure val q = value(y)
      pure val f = fieldOf(x, y)
      if (q == PZERO) check(r == [-1], st, "division by zero")
      else if (r[0] != 1) check(false, st, "floor of quotient")
      else check(quotientOk(st, f, p, q, r[1]), st, "floor of quotient")
    }
    // r: relations, hashes are equal
    else if (op == "cmp") {
      pure val c = sign(st, fieldOf(x, y), psub(value(x), value(y)))
      if (not(relationsFit(c, r.slice(0, 12)))) check(false, st, "order of elements")
      else check(c == 0 implies r[12] == 1, st, "hash")
    }
    // the scalar as it has been used [d, a0, a1, a2], the relations
    else if (op == "cmpscal") {
      pure val c = sign(st, x.f, psub(value(x), pconst(cnorm(r[0], r[1], r[2], r[3]))))
      check(relationsFit(c, r.slice(4, 16)), st, "order of elements and scalars")
    }
    else if (op == "cmpreal") {
      pure val c = sign(st, x.f, psub(value(x), if (a[3] == 0) pconst(crat(a[1], a[2])) else Map(a[3] -> C1)))
      check(relationsFit(c, r), st, "order of elements and reals")
    }
    // floor, ceil, double
    else if (op == "floor") {
      pure val p = value(x)
      if (not(floorOk(st, x.f, p, r[0]))) check(false, st, "floor")
      else if (not(ceilOk(st, x.f, p, r[1]))) check(false, st, "ceil")
      else check(doubleOk(st, x.f, p, val3(r, 2)), st, "double")
    }
    else if (op == "arb")
      if (not(ballOk(st, x.f, value(x), val3(r, 0), val3(r, 3)))) check(false, st, "ball containment")
      else check(r[6] >= a[1] or value(x) == PZERO, st, "ball accuracy")
    // something close to zero, t = x - m/2^k over a field, 2^k*x - m over the
    // integers. r: m, floor, ceil, double, the relations to zero, of x and m/2^k,
    // and the floor of x/(m/2^k)
    else if (op == "hard") {
      pure val p = if (x.t == 1) psub(pscale(0, value(x), [1, 2^(a[1])]), pconst([1, r[0]])) else psub(value(x), pconst(crat(r[0], 2^(a[1]))))
      pure val c = sign(st, x.f, p)
      if (not(floorOk(st, x.f, p, r[1]))) check(false, st, "floor")
      else if (not(ceilOk(st, x.f, p, r[2]))) check(false, st, "ceil")
      else if (not(doubleOk(st, x.f, p, val3(r, 3)))) check(false, st, "double")
      else if (not(relationsFit(c, r.slice(6, 18)) and relationsFit(c, r.slice(18, 30)))) check(false, st, "order of elements and scalars")
      else if (r[0] == 0) ok(st)
      else {
        pure val top = if (x.t == 1) pscale(0, value(x), [1, 2^(a[1])]) else value(x)
        check(quotientOk(st, x.f, top, pconst(if (x.t == 1) [1, r[0]] else crat(r[0], 2^(a[1]))), r[30]), st, "floor of quotient")
      }
    }
    // the same number t; r: m, the double of t plus a number half way between two
    // doubles, its floor and ceil, the ball of t with an accuracy, and the relations of
    // the sum to the number in both ways
    else if (op == "edge") {
      pure val t = if (x.t == 1) psub(pscale(0, value(x), [1, 2^(a[1])]), pconst([1, r[0]])) else psub(value(x), pconst(crat(r[0], 2^(a[1]))))
      pure val edge = (2^53 + 1 + 2 * (a[3] % 2^50)) * 2^(a[4]) * (if (a[3] % 3 == 0) -1 else 1)
      pure val p = padd(t, pconst([1, edge]))
      pure val c = sign(st, x.f, t)
      if (not(doubleOk(st, x.f, p, val3(r, 1)))) check(false, st, "double")
      else if (not(floorOk(st, x.f, p, r[11]))) check(false, st, "floor")
      else if (not(ceilOk(st, x.f, p, r[12]))) check(false, st, "ceil")
      else if (not(relationsFit(c, r.slice(13, 25)))) check(false, st, "order of elements and scalars")
      else if (not(relationsFit(if (c == 2) 2 else -c, r.slice(25, 37)))) check(false, st, "order of elements")
      else if (not(ballOk(st, x.f, t, val3(r, 4), val3(r, 7)))) check(false, st, "ball containment")
      else check(r[10] >= a[5] or t == PZERO, st, "ball accuracy")
    }
    // truth value; the integer; the rational
    else if (op == "asrat") {
      pure val p = value(x)
      pure val q = ratOf(p)
      if (r[0] != b2i(p != PZERO)) check(false, st, "truth value")
      else if (r.slice(1, 3) != (if (isRat(p) and q.d == 1) [1, q.n] else [0, 0])) check(false, st, "integral value")
      else check(r.slice(3, 6) == (if (isRat(p)) [1, q.n, q.d] else [0, 0, 0]), st, "rational value")
    }
    // n, d, code of the generators in order, then all the rational coefficients
    else if (op == "coeffs") {
      pure val n = x.c.keys().size()
      pure val k = deg(x.f)
      if (r.length() != 3 * n + 2 * n * k) check(false, st, "rational coefficients")
      else check(range(0, n).foldl(true, (b, i) => {
        pure val g = (r[3 * i], r[3 * i + 1], r[3 * i + 2])
        b and x.c.keys().contains(g) and range(0, k).foldl(true, (bb, j) => {
          pure val c = x.c.get(g)
          pure val q = rnorm({ n: at(c, j), d: c[0] })
          bb and r[3 * n + 2 * (i * k + j)] == q.n and r[3 * n + 2 * (i * k + j) + 1] == q.d
        })
      }), st, "rational coefficients")
    }
    // The text of an element, term by term: code of the generator (0 for the rational term), coefficient
    else if (op == "text") {
      pure val v = value(x)
      check(r[0] == 1 and r[1] == v.keys().size() and r.length() == 2 + 5 * r[1] and range(0, r[1]).foldl(true, (b, i) => {
        pure val o = 2 + 5 * i
        b and v.keys().contains(r[o]) and v.get(r[o]) == cnorm(r[o + 1], r[o + 2], r[o + 3], r[o + 4])
      }) and range(0, r[1]).foldl(Set(), (l, i) => l.union(Set(r[2 + 5 * i]))).size() == r[1], st, "text of an element")
    }
    // The text of its module: ring and n, d, code of each generator
    else if (op == "modtext")
      check(r[0] == x.t and r.length() == 1 + 3 * x.c.keys().size() and
        range(0, x.c.keys().size()).foldl(Set(), (l, i) => l.union(Set((r[1 + 3 * i], r[2 + 3 * i], r[3 + 3 * i])))) == x.c.keys(), st, "text of a module")
    // unrelated work must not have any effect
    else if (op == "churn") ok(st)
    else check(false, st, "unknown event")
  }

  // --- when is a command meaningful ------------------------------------------------------------------
  pure def legal(st: St, op: str, a: List[int]): bool = {
    pure def el(i: int): Elem = if (a.length() > i and SLOTS.contains(a[i])) st.x.get(a[i]) else EMPTY
    if (Set("mk", "lit", "drop", "churn", "bad").contains(op)) true
    else if (op == "add" or op == "sub" or op == "span") spanOk(el(1), el(2)) and span(el(1), el(2)).c.keys().size() <= 24
    else if (op == "mul") mulOk(el(1), el(2))
    else if (op == "mulreal") el(1).t != 0 and el(1).c.keys().forall(h => genMulOk((a[2], a[3], a[4]), h)) and a[2] != 0
    else if (op == "scal") el(1).t != 0 and (a[4] == 10 implies inRing(el(1).t, el(1).f, scalar(a, 4)))
    else if (op == "promote") promoteOk(el(1), el(2))
    else if (op == "convert") el(1).t != 0 and el(1).t < a[2]
    else if (Set("copy", "neg", "simplify", "zero", "one").contains(op)) el(1).t != 0
    else if (op == "gen") el(1).c.keys().contains((a[2], a[3], a[4]))
    else if (op == "move" or op == "movein") el(1).t != 0 and (el(0).t == el(1).t or op == "move")
    else if (op == "swap") el(0).t != 0 and el(1).t != 0
    else if (op == "submod") el(0).t != 0 and el(0).t == el(1).t
    // rational generators other than one do not divide each other
    else if (op == "truediv")
      and { spanOk(el(1), el(2)), span(el(1), el(2)).c.keys().forall(g => g._3 != 0 or g == ONE),
        value(el(1)).keys().forall(k => degree(k) <= 5) }
    else if (op == "floordiv") spanOk(el(0), el(1))
    else if (op == "cmp") spanOk(el(0), el(1))
    // only related reals can be compared
    else if (op == "cmpreal") el(0).t != 0 and (value(el(0)) == PZERO or el(0).c.keys().contains((a[1], a[2], a[3])))
    else if (op == "cmpscal") el(0).t != 0 and (a[1] == 10 implies (inRing(el(0).t, el(0).f, scalar(a, 1)) and (el(0).t == 3 implies rats(el(0).c.keys()).forall(g => g == ONE))))
    else if (op == "hard" or op == "edge") el(0).t != 0 and rats(el(0).c.keys()).forall(g => g == ONE)
    else el(0).t != 0
  }
}

// Chooses commands; the reports are left to the implementation.
module elementGen {
  import dyadic.* from "./dyadic"
  import coeffs.* from "./coeffs"
  import elements.*

  var st: St
  var op: str
  var args: List[int]
  // the most recent product, or almost a multiple: where it is, and one of its factors
  var last: (int, int)
  const MIX: List[Set[str]]
  // how often generators other than 1 and monomials are used
  const RATIONALS: int

  pure val MONOMIALS: List[int] = [1, 8, 64, 512, 9, 2, 65, 16, 128, 1024, 73, 520, 3]
  pure val FRACTIONS: List[Gen] = [(2, 1, 0), (1, 2, 0), (-1, 3, 0), (2, 3, 0), (-1, 1, 0), (-2, 1, 0), (1, 6, 0), (-5, 4, 0)]
  pure val PRECS = [1, 2, 3, 10, 30, 53, 54, 63, 64, 65, 100, 128, 200, 300]

  // pseudo random integers from n
  pure def mix(n: int, i: int): int = ((n + i * 7919) * 2654435761 + i * 40503) / 65536
  pure def coefficient(t: int, f: int, n: int, i: int): List[int] = {
    pure val m = mix(n, i)
    pure val w = m % 16
    pure val big = w >= 13
    pure def num(k: int): int = {
      pure val v = mix(m, k)
      if (big) (if (v % 2 == 0) 1 else -1) * ((v * v * v * v) % 2^(10 + (v / 7) % 100)) else v % 19 - 9
    }
    pure val d = if (t == 1 or w % 3 == 0) 1 else 1 + mix(m, 9) % (if (big) 1000003 else 12)
    if (w == 0 or w == 5) [1, 0, 0, 0]
    else if (w == 7) [1, 1, 0, 0]
    else {
      pure val c = cnorm(d, num(1), if (f >= 1 and w % 4 != 2) num(2) else 0, if (f >= 2) num(3) else 0)
      [c[0], at(c, 0), at(c, 1), at(c, 2)]
    }
  }
  // some generators
  pure def gens(n: int): List[Gen] = {
    pure val m = mix(n, 1)
    pure val count = m % 16
    pure val rank = if (count == 0) 0 else if (count < 4) 1 else if (count < 9) 2 else if (count < 14) 3 else 4
    pure val rational: List[Gen] = if (mix(n, 2) % 3 == 0 or rank == 0) [] else if (mix(n, 3) % 100 < RATIONALS) [FRACTIONS[mix(n, 4) % FRACTIONS.length()]] else [ONE]
    range(0, rank).foldl(rational, (l, i) => {
      pure val k = mix(n, 5 + i)
      pure val g: Gen = (1, 1, MONOMIALS[if (k % 3 == 0) (k / 3) % MONOMIALS.length() else (k / 3) % 5])
      if (l.foldl(false, (b, h) => b or h == g) or l.length() == rank) l else if (k % 2 == 0) l.append(g) else [g].concat(l)
    })
  }
  pure def flatGens(l: List[Gen]): List[int] = l.foldl([], (r, g) => r.concat([g._1, g._2, g._3]))
  pure def element(t: int, f: int, n: int): List[int] = {
    pure val l = gens(n)
    range(0, l.length()).foldl([t, f, l.length()], (r, i) => r.concat([l[i]._1, l[i]._2, l[i]._3]).concat(coefficient(t, f, n, 20 + i)))
  }
  // an element with another one's generators (the order does not matter), possibly
  // with another rational one
  pure def sibling(e: Elem, n: int): List[int] =
    sibling_(e, if (mix(n, 11) % 6 != 0) e.c.keys() else e.c.keys().exclude(rats(e.c.keys())).union(Set(if (mix(n, 12) % 3 == 0) ONE else FRACTIONS[mix(n, 13) % FRACTIONS.length()])), n)
  pure def sibling_(e: Elem, ks: Set[Gen], n: int): List[int] =
    ks.fold([e.t, e.f, ks.size()], (r, g) => r.concat([g._1, g._2, g._3]).concat(coefficient(e.t, e.f, n, r.length())))
  // almost a multiple of an element: only one generator has another coefficient
  pure def multiple(e: Elem, n: int): List[int] = {
    pure val k = mix(n, 41) % 9 - 4
    pure val odd = pickGen(e.c.keys(), mix(n, 42))
    pure val d = if (e.t != 1 and mix(n, 43) % 4 == 0) 2 else 1
    e.c.keys().fold([e.t, e.f, e.c.keys().size()], (r, g) => {
      pure val c = cmul(e.f, e.c.get(g), [d, if (g == odd and n % 8 != 0) (if (mix(n, 44) % 2 == 0) k + 1 else mix(n, 45) % 200 - 100) else k])
      r.concat([g._1, g._2, g._3]).concat([c[0], at(c, 0), at(c, 1), at(c, 2)])
    })
  }
  pure def pickGen(k: Set[Gen], i: int): Gen =
    k.fold((0, ONE), (acc, g) => if (acc._1 == i % maxi(1, k.size())) (acc._1 + 1, g) else (acc._1 + 1, acc._2))._2
  pure def scalarArg(t: int, f: int, n: int): List[int] = {
    pure val k = mix(n, 1) % 14
    pure val kind = if (k > 10) 10 else k
    pure val v = mix(n, 2)
    pure val w = v % 8
    pure val m = if (w < 3) mix(n, 3) % 7 - 3 else if (w < 5) mix(n, 3) % 2^16 else if (w == 5) 2^64 - mix(n, 3) % 4 else if (w == 6) -(2^63) + mix(n, 3) % 4 else 2^31 - 2 + mix(n, 3) % 4
    if (kind < 8) [kind, 1, clip(kind, m), 0, 0]
    else if (kind == 8) [8, 1, if (w == 7) m * 2^70 + 1 else m, 0, 0]
    else if (kind == 9) {
      pure val q = crat(if (w == 6) m * 2^70 + 1 else m, 1 + mix(n, 4) % (if (w < 4) 6 else 2^40))
      [9, q[0], q[1], 0, 0]
    }
    else [10].concat(coefficient(t, f, n, 2))
  }

  action perform(o: str, a: List[int]): bool = performs(o, a, if (o == "mul" and a[0] != a[2]) (a[0], a[2]) else last)
  action performs(o: str, a: List[int], l: (int, int)): bool = all { op' = o, args' = a, st' = shape(st, o, a), last' = l }
  // a slot close to u that can be combined with slot s
  pure def partner(x: St, s: int, u: int): int =
    range(0, 8).foldl(-1, (m, i) => if (m == -1 and spanOk(x.x.get(s), x.x.get((u + i) % 8))) (u + i) % 8 else m)

  pure def sametype(x: St, s: int, u: int): int =
    range(0, 8).foldl(u, (m, i) => if (x.x.get(m).t == x.x.get(s).t) m else (u + i) % 8)

  action choose(o: str, d: int, s: int, u0: int): bool = {
    nondet n = oneOf(0.to(2^60))
    nondet kind = oneOf(0.to(11))
    nondet how = oneOf(0.to(11))
    nondet p = oneOf(0.to(450))
    val deep = if (n % 5 == 0) p * 6 else p
    val t0 = if (kind < 3) 1 else if (kind < 6) 2 else 3
    val f0 = if (kind < 7) 0 else if (kind < 10) 1 else 2
    val u1 = if (o == "submod") sametype(st, s, u0) else partner(st, if ((o == "add" or o == "sub" or o == "mul") and how % 3 == 2) d else s, u0)
    val u = if (u1 == -1) u0 else u1
    val e = st.x.get(s)
    val g = pickGen(e.c.keys(), n)
    val l = gens(n)
    // modules with dependent generators
    val dependent = if (how < 4 or l.length() == 0) [ONE, pickGen(Set((2, 1, 0), (1, 2, 0), (-1, 1, 0)), n)].concat(l.select(h => h._3 != 0)) else l.append(l[n % l.length()])
    val a0 =
      if (o == "mk") [d].concat(if (how < 6 and e.t != 0) sibling(e, n) else element(t0, f0, n))
      else if (o == "lit") [d, t0, f0, 1, 1, 1, 0].concat(coefficient(t0, f0, n, 1))
      else if (o == "bad") [t0, f0, dependent.length()].concat(flatGens(dependent))
      else if (o == "copy" or o == "neg" or o == "simplify" or o == "zero" or o == "one" or o == "move" or o == "movein" or o == "swap") [d, s]
      else if (o == "add" or o == "sub" or o == "mul") (if (how % 3 == 2) [d, d, u, how] else [d, s, u, how])
      else if (o == "truediv" and how < 6) [d, last._1, last._2]
      else if (o == "span" or o == "promote" or o == "truediv") [d, s, u]
      else if (o == "gen") [d, s, g._1, g._2, g._3]
      else if (o == "scal") [d, if (how % 3 == 2) d else s, if (kind % 3 == 0) 1 else 0, how].concat(if (how % 3 == 2) scalarArg(st.x.get(d).t, st.x.get(d).f, n) else scalarArg(e.t, e.f, n))
      else if (o == "mulreal") (if (kind < 8) [d, s, 1, 1, MONOMIALS[n % MONOMIALS.length()], how] else [d, s, g._1, g._2, g._3, how])
      else if (o == "convert") [d, s, e.t + 1 + how % 2]
      else if (o == "floordiv" and how < 6) [last._1, last._2]
      else if (o == "submod" or o == "floordiv" or o == "cmp") [s, u]
      else if (o == "cmpscal") [s].concat(scalarArg(e.t, e.f, n)).concat([how % 4])
      else if (o == "cmpreal") (if (how < 8) [s, g._1, g._2, g._3] else [s, n % 5 - 2, 1, 0])
      else if (o == "arb") [s, PRECS[p % PRECS.length()]]
      else if (o == "hard") [s, deep, n % 7 - 3]
      else if (o == "edge") [s, deep, n % 7 - 3, mix(n, 1), if (how % 2 == 0) p else p % 5, PRECS[p % PRECS.length()]]
      else if (o == "churn") [n % 4]
      else [s]
    if (o == "mk" and how >= 10 and s != d and e.c.keys().size() > 1) performs(o, [d].concat(multiple(e, n)), (d, s))
    else if (o == "convert" and a0[2] > 3) perform("mk", [d].concat(element(t0, f0, n)))
    // few divisions by zero
    else if ((o == "truediv" or o == "floordiv") and kind > 1 and value(st.x.get(a0[if (o == "truediv") 2 else 1])) == PZERO) perform("mk", [a0[if (o == "truediv") 2 else 1]].concat(element(t0, f0, n)))
    else if (legal(st, o, a0)) perform(o, a0)
    else if (how < 3 and e.t != 0) perform("mk", [d].concat(sibling(e, n)))
    else if (how < 6 and e.t != 0) perform("copy", [d, s])
    else perform("mk", [d].concat(element(t0, f0, n)))
  }

  action init = {
    nondet seed = oneOf(1.to(1000))
    nondet order = oneOf(0.to(71))
    all { st' = start, op' = "atoms", args' = [seed, order], last' = (0, 1) }
  }
  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet o = oneOf(MIX[fam])
    nondet d = oneOf(SLOTS)
    nondet s = oneOf(SLOTS)
    nondet u = oneOf(SLOTS)
    choose(o, d, s, u)
  }

  // --- properties of the specification itself -------------------------------------------
  val consistent = SLOTS.forall(s => {
    val e = st.x.get(s)
    and { validGens(e.c.keys()), e.c.keys().forall(g => inRing(e.t, e.f, e.c.get(g)) and (g._3 != 0 implies (g._1 == 1 and g._2 == 1))), within(e, value(e)) == e }
  })
  // the polynomials are a ring, division is the inverse of multiplication
  val algebra = SLOTS.forall(t => {
    val x = st.x.get(0)
    val y = st.x.get(t)
    val f = fieldOf(x, y)
    (mulOk(x, y) and x.c.keys().union(y.c.keys()).forall(g => g._1 == 1 and g._2 == 1)) implies and {
      pmul(f, value(x), value(y)) == pmul(f, value(y), value(x)),
      value(y) != PZERO implies pdiv(x.t, f, pmul(f, value(x), value(y)), value(y)) == (true, value(x)),
      psub(padd(value(x), value(y)), value(y)) == value(x)
    }
  })
  val roots = ROOTS[1]^2 <= 2 * 2^(2 * ROOTBITS) and (ROOTS[1] + 1)^2 > 2 * 2^(2 * ROOTBITS) and ROOTS[2]^3 <= 2 * 2^(3 * ROOTBITS) and (ROOTS[2] + 1)^3 > 2 * 2^(3 * ROOTBITS)
  val sane = consistent and algebra and roots
}

module elementsAll {
  import elementGen(RATIONALS = 20, MIX = [
    Set("mk", "lit"), Set("mk"), Set("add", "sub", "mul"), Set("add", "sub", "mul"), Set("neg", "scal", "mulreal", "convert"), Set("scal"), Set("promote", "simplify", "span"), Set("one", "zero", "gen", "bad", "submod"),
    Set("truediv", "floordiv", "unit"), Set("cmp", "cmpscal", "cmpreal"), Set("floor", "arb", "hard"), Set("asrat", "coeffs", "look"), Set("copy", "move", "movein", "swap", "drop", "churn")
  ]).* from "./elements"
}

// One generator for each property.
module elementsModules {
  import elementGen(RATIONALS = 40, MIX = [
    Set("mk"), Set("mk", "lit"), Set("mk", "drop"), Set("span"), Set("one", "gen", "zero"), Set("one", "bad"), Set("submod"), Set("add", "sub"), Set("mul", "mulreal"), Set("promote", "simplify", "convert"), Set("copy", "drop", "churn")
  ]).* from "./elements"
}
module elementsArith {
  import elementGen(RATIONALS = 12, MIX = [
    Set("mk", "lit"), Set("mk"), Set("add", "sub"), Set("mul"), Set("add", "mul"), Set("neg", "scal", "mulreal"), Set("scal"), Set("scal"), Set("promote", "convert"), Set("simplify"),
    Set("cmp", "asrat", "coeffs"), Set("look"), Set("copy", "swap")
  ]).* from "./elements"
}
module elementsOrder {
  import elementGen(RATIONALS = 20, MIX = [
    Set("mk", "lit"), Set("mk"), Set("add", "sub", "mul"), Set("neg", "scal", "mulreal", "convert"), Set("promote", "simplify", "gen"),
    Set("cmp"), Set("cmp"), Set("cmpscal"), Set("cmpscal", "cmpreal"), Set("cmpreal"), Set("floor"), Set("floor", "arb"), Set("arb"), Set("hard"), Set("edge"), Set("edge"), Set("asrat")
  ]).* from "./elements"
}
module elementsDivision {
  import elementGen(RATIONALS = 8, MIX = [
    Set("mk", "lit"), Set("mk"), Set("mul"), Set("mul"), Set("mul", "add", "sub"), Set("scal"), Set("scal", "neg"), Set("truediv"), Set("truediv"), Set("truediv"), Set("truediv"), Set("floordiv"), Set("floordiv"), Set("unit"), Set("one", "zero", "convert")
  ]).* from "./elements"
}
module elementsUnits {
  import elementGen(RATIONALS = 80, MIX = [
    Set("mk", "lit"), Set("mk"), Set("mk"), Set("one", "gen", "zero"), Set("add", "neg"), Set("scal"), Set("unit"), Set("unit"), Set("floordiv", "copy"), Set("hard")
  ]).* from "./elements"
}
module elementsText {
  import elementGen(RATIONALS = 25, MIX = [
    Set("mk", "lit"), Set("mk"), Set("add", "sub", "mul"), Set("scal", "mulreal", "neg"), Set("promote", "simplify", "convert"), Set("one", "gen", "zero"), Set("text"), Set("text"), Set("text"), Set("modtext")
  ]).* from "./elements"
}
module elementsLife {
  import elementGen(RATIONALS = 12, MIX = [
    Set("mk", "lit"), Set("mk"), Set("add", "sub", "mul"), Set("scal", "mulreal", "neg"), Set("copy"), Set("copy", "move"), Set("movein", "swap"), Set("movein", "swap"), Set("look"), Set("look"), Set("promote", "simplify"), Set("drop", "churn")
  ]).* from "./elements"
}
