// Balls of reals (Arb): registers hold balls mid ± rad. The implementation chooses
// the result of every operation, the specification says which balls are
// acceptable: they must contain every value the exact operation can take, they
// must not be much larger than that, and nothing else may change.
module arb {
  import dyadic.* from "./dyadic"

  type Ball = { mid: Val, rad: Val }
  type St = { regs: int -> Ball }
  type Res = { st: St, err: str }

  pure val REGS = 0.to(4)
  pure val start: St = { regs: REGS.mapBy(x => { mid: ZERO, rad: ZERO }) }

  pure def val3(l: List[int], i: int): Val =
    if (l[i] == 0) norm(l[i + 1], l[i + 2]) else if (l[i] == 1) PINF else if (l[i] == 2) NINF else NAN
  pure def ball6(l: List[int], i: int): Ball = { mid: val3(l, i), rad: val3(l, i + 3) }

  pure def point(v: Val): Ball = { mid: v, rad: ZERO }
  pure def bfin(x: Ball): bool = isFin(x.mid) and isFin(x.rad)
  pure def bnan(x: Ball): bool = x.mid.k == "nan"
  // everything is in there, as far as anybody can tell
  pure def bwhole(x: Ball): bool = bnan(x) or not(isFin(x.rad))
  pure def bexact(x: Ball): bool = x.rad == ZERO and not(bnan(x))
  pure def blo(x: Ball): Val = if (bfin(x)) esub(x.mid, x.rad) else if (isFin(x.rad)) x.mid else NINF
  pure def bhi(x: Ball): Val = if (bfin(x)) eadd(x.mid, x.rad) else if (isFin(x.rad)) x.mid else PINF
  pure def tameVal(v: Val): bool = v.m == 0 or (absi(v.e) < 3000 and bits(v.m) < 3000)
  pure def tame(x: Ball): bool = bfin(x) and tameVal(x.mid) and tameVal(x.rad)

  pure def holds(x: Ball, q: Rat): bool =
    bwhole(x) or (isFin(x.mid) and (if (not(tame(x))) rvcmp(q, blo(x)) >= 0 and rvcmp(q, bhi(x)) <= 0
      else rcmp(toRat(blo(x)), q) <= 0 and rcmp(q, toRat(bhi(x))) <= 0))
  pure def holdsVal(x: Ball, v: Val): bool = bwhole(x) or (vcmp(blo(x), v) <= 0 and vcmp(v, bhi(x)) <= 0)

  // --- evaluation at points -------------------------------------------------------
  // an expression takes a list with a single rational or, where it is not defined, the empty list
  pure def rop(op: int, x: List[Rat], y: List[Rat]): List[Rat] =
    if (x.length() == 0 or y.length() == 0) []
    else if (op == 0) [radd(x[0], y[0])]
    else if (op == 1) [rsub(x[0], y[0])]
    else if (op == 2) [rmul(x[0], y[0])]
    else if (y[0].n == 0) []
    else [rat(x[0].n * y[0].d, x[0].d * y[0].n)]
  // the end points of a ball; its midpoint is in there, too, if there is only one ball
  pure def points(x: Ball, alone: bool): List[Rat] =
    if (x.rad == ZERO) [toRat(x.mid)]
    else if (alone) [toRat(blo(x)), toRat(x.mid), toRat(bhi(x))]
    else [toRat(blo(x)), toRat(bhi(x))]
  // the operands r, s, t (registers): all the combinations of points
  pure def samples(st: St, r: int, s: int, t: int): List[List[Rat]] = {
    pure val alone = r == s and s == t
    points(st.regs.get(r), alone).foldl([], (acc, x) => acc.concat(
      (if (s == r) [x] else points(st.regs.get(s), alone)).foldl([], (acc2, y) => acc2.concat(
        (if (t == r) [x] else if (t == s) [y] else points(st.regs.get(t), alone)).foldl([], (acc3, z) => acc3.append([x, y, z]))))))
  }
  pure def rneg1(x: List[Rat]): List[Rat] = if (x.length() == 0) [] else [rneg(x[0])]
  // the shapes of expressions
  pure def shape(sh: int, o1: int, o2: int, x: Rat, y: Rat, z: Rat): List[Rat] =
    if (sh == 0 or sh == 7 or sh == 8) rop(o1, [x], [y])
    else if (sh == 1) rop(o2, rop(o1, [x], [y]), [z])
    else if (sh == 2 or sh == 6) rop(o1, [x], rop(o2, [y], [z]))
    else if (sh == 3) rneg1(rop(o1, [x], [y]))
    else if (sh == 9) rneg1(rop(o2, rop(o1, [x], [y]), [z]))
    else if (sh == 4) rop(o1, rneg1([x]), [y])
    else rop(o1, [x], rneg1(rop(o2, [y], [z])))
  pure def encloses(x: Ball, vs: List[List[Rat]], ev: (List[Rat]) => List[Rat]): bool =
    vs.foldl(true, (acc, p) => acc and {
      pure val v = ev(p)
      v.length() == 0 or holds(x, v[0])
    })

  pure def rabs(x: Rat): Rat = { n: absi(x.n), d: x.d }
  pure def rmin(x: Rat, y: Rat): Rat = if (rcmp(x, y) <= 0) x else y
  pure def rmax(x: Rat, y: Rat): Rat = if (rcmp(x, y) >= 0) x else y
  pure def rscale(x: Rat, e: int): Rat = if (e >= 0) { n: x.n * 2^e, d: x.d } else { n: x.n, d: x.d * 2^(-e) }
  pure def relative(x: Ball, bitsOf: int): bool = x.mid.m != 0 and (x.rad == ZERO or vcmp(shl(x.rad, bitsOf), abs(x.mid)) <= 0)
  // a single operation on A and B with precision p may blow the ball up by a small factor only
  pure def tight(o: int, A: Ball, B: Ball, p: int, x: Ball): bool =
    (o == 3 and not(relative(B, 3))) or (bfin(x) and {
      pure val vs = points(A, false).foldl([], (acc, u) => acc.concat(points(B, false).foldl([], (acc2, v) => acc2.concat(rop(o, [u], [v])))))
      pure val lo = vs.foldl(vs[0], (m, v) => rmin(m, v))
      pure val hi = vs.foldl(vs[0], (m, v) => rmax(m, v))
      pure val slack = if (p == EXACT) rint(0) else rscale(rmax(rabs(lo), rabs(hi)), 5 - p)
      rcmp(rscale(toRat(x.rad), 1), radd(rscale(rsub(hi, lo), 2), slack)) <= 0
    })

  // --- comparisons: 0 no, 1 yes, 2 not known --------------------------------------------
  pure def fromTo(t: bool, f: bool): int = if (t) 1 else if (f) 0 else 2
  // <, <=, ==, !=, >, >= of independent reals in [al, ah] and [bl, bh]
  pure def expected(al: Val, ah: Val, bl: Val, bh: Val): List[int] = {
    pure val lt = fromTo(vcmp(ah, bl) < 0, vcmp(al, bh) >= 0)
    pure val gt = fromTo(vcmp(al, bh) > 0, vcmp(ah, bl) <= 0)
    pure val same_ = fromTo(al == ah and bl == bh and al == bl, vcmp(ah, bl) < 0 or vcmp(al, bh) > 0)
    [lt, if (gt == 2) 2 else 1 - gt, same_, if (same_ == 2) 2 else 1 - same_, gt, if (lt == 2) 2 else 1 - lt]
  }
  pure val unknown: List[int] = [2, 2, 2, 2, 2, 2]
  // every definite answer is right
  pure def sound(r: List[int], e: List[int]): bool = r.indices().forall(i => r[i] == 2 or r[i] == e[i])
  pure def relations(A: Ball, B: Ball, same: bool, r: List[int]): str =
    if (bnan(A) or bnan(B)) (if (same) "" else if (r == unknown) "" else "comparison of balls")
    else if (same) {
      pure val e = if (bexact(A)) [0, 1, 1, 0, 0, 1] else range(0, 6).foldl([], (acc, i) => acc.append(if (r[i] == 2) 2 else if (i == 1 or i == 2 or i == 5) 1 else 0))
      if (r == e) "" else "comparison of balls"
    }
    else if (bwhole(A) or bwhole(B)) (if (bfin(A) or bfin(B)) (if (r == unknown) "" else "comparison of balls") else "")
    else if (r == expected(blo(A), bhi(A), blo(B), bhi(B))) "" else "comparison of balls"
  // comparison with a rational: the answer may be missing when it is a close call
  pure def rationalRelations(A: Ball, q: Rat, r: List[int]): bool =
    if (bwhole(A)) r == unknown
    else if (not(isFin(A.mid))) sound(r, if (A.mid.k == "pinf") [0, 0, 0, 1, 1, 1] else [1, 1, 0, 1, 0, 0])
    else {
      pure val l = rcmp(toRat(blo(A)), q)
      pure val h = rcmp(toRat(bhi(A)), q)
      pure val same_ = fromTo(l == 0 and h == 0, h < 0 or l > 0)
      pure val lt = fromTo(h < 0, l >= 0)
      pure val gt = fromTo(l > 0, h <= 0)
      pure val e = [lt, if (gt == 2) 2 else 1 - gt, same_, if (same_ == 2) 2 else 1 - same_, gt, if (lt == 2) 2 else 1 - lt]
      pure val more = eadd(A.rad, shl(A.rad, -20))
      pure val clear = rcmp(toRat(eadd(A.mid, more)), q) < 0 or rcmp(toRat(esub(A.mid, more)), q) > 0
      if (clear or A.rad == ZERO) r == e else sound(r, e)
    }

  // --- the quadratic number p + q*sqrt(2) ---------------------------------------------------
  pure def quadSign(p: Rat, q: Rat): int = {
    pure val sp = sgn(p.n)
    pure val sq = sgn(q.n)
    if (sp == 0) sq else if (sq == 0 or sq == sp) sp
    else sp * rcmp(rmul(p, p), rmul(rint(2), rmul(q, q)))
  }

  pure def ok(st: St): Res = { st: st, err: "" }
  pure def check(b: bool, st: St, err: str): Res = { st: st, err: if (b) "" else err }

  pure val CONSTANTS = [point(ZERO), point(fromInt(1)), point(PINF), point(NINF), { mid: ZERO, rad: PINF }, { mid: NAN, rad: PINF }, { mid: ZERO, rad: fromInt(1) }, { mid: norm(1, -1), rad: norm(1, -1) }]

  // Reports: [mask of the registers that have changed, register a[0] as a ball, ...]
  pure def mutates(st: St, op: str, a: List[int], r: List[int], others: int): bool = {
    pure val allowed = Set(a[0], others)
    REGS.forall(x => allowed.contains(x) or (r[0] / 2^x) % 2 == 0)
  }

  pure val OBSERVERS = Set("cmp", "cmpint", "cmpmpq", "flags", "equal", "conv", "text")
  pure val TWO = Set("move", "moveassign", "swap", "stdswap")

  pure def exec(st: St, op: str, a: List[int], r: List[int]): Res = {
    pure val D = st.regs.get(a[0])
    if (OBSERVERS.contains(op)) {
      if (r[0] != 0) check(false, st, "an operand has been modified")
      else if (op == "cmp") {
        pure val why = relations(D, st.regs.get(a[1]), a[0] == a[1], r.slice(1, 7))
        check(why == "", st, why)
      }
      // r: the integer, relations
      else if (op == "cmpint") {
        pure val why = relations(D, point(fromInt(r[1])), false, r.slice(2, 8))
        check(why == "", st, "comparison with integer")
      }
      // r: the rational, relations
      else if (op == "cmpmpq") check(rationalRelations(D, rat(r[1], r[2]), r.slice(3, 9)), st, "comparison with rational")
      else if (op == "flags") check(r[1] == b2i(D.rad == ZERO) and r[2] == b2i(bfin(D)), st, "predicates")
      else if (op == "equal") check(r[1] == b2i(D == st.regs.get(a[1])), st, "identical balls")
      // number of digits; r: kind (0 decimal, 1 infinite radius, 2 not a number), midpoint and radius
      // as integers with a decimal exponent, the ball when the text is read back (with 400 bits)
      else if (op == "text") {
        pure def decimal(i: int): Rat = if (r[i + 1] >= 0) rint(r[i] * 10^(r[i + 1])) else rat(r[i], 10^(-r[i + 1]))
        if (not(tame(D))) check(bfin(D) or r[1] != 0, st, "text of a ball")
        else if (r[1] != 0) check(false, st, "text of a ball")
        else {
          pure val mid = decimal(2)
          pure val rad = decimal(4)
          pure val X = ball6(r, 6)
          if (rcmp(radd(rabs(rsub(mid, toRat(D.mid))), toRat(D.rad)), rad) > 0) check(false, st, "text of a ball")
          else if (rcmp(rad, radd(rmul(rint(2), toRat(D.rad)), rmul(rabs(toRat(D.mid)), rat(10, 10^(a[1]))))) > 0) check(false, st, "text of a ball has lost precision")
          else check(holds(X, toRat(blo(D))) and holds(X, toRat(bhi(D))), st, "text of a ball read back")
        }
      }
      // r: double, midpoint, lower, upper
      else {
        pure val lo = val3(r, 7)
        pure val hi = val3(r, 10)
        if (val3(r, 4) != D.mid) check(false, st, "midpoint")
        else if (not(bnan(D)) and val3(r, 1) != toDouble(D.mid)) check(false, st, "double")
        else if (bnan(D)) ok(st)
        else if (lo.k == "nan" or hi.k == "nan") check(not(bfin(D)), st, "end points")
        else if (vcmp(lo, blo(D)) > 0 or vcmp(hi, bhi(D)) < 0) check(false, st, "end points")
        else if (not(tame(D))) ok(st)
        else check(isFin(lo) and isFin(hi) and vcmp(esub(hi, lo), shl(D.rad, 5)) <= 0, st, "end points")
      }
    }
    else {
      pure val X = ball6(r, 1)
      pure val st2 = { regs: st.regs.set(a[0], X) }
      pure val st3 = if (TWO.contains(op)) { regs: st2.regs.set(a[1], ball6(r, 7)) } else st2
      if (not(mutates(st, op, a, r, if (TWO.contains(op)) a[1] else a[0]))) check(false, st3, "an operand has been modified")
      else if (op == "ball") ok(st3)
      else if (op == "constant") check(X == CONSTANTS[a[1]], st3, "constant")
      // type, value, constructor or assignment
      else if (op == "int") check(X == point(fromInt(a[2])), st3, "construction")
      else if (op == "mpz") check(X == point(fromInt(a[1])), st3, "construction")
      else if (op == "arf") check(X == point(norm(a[1], a[2])), st3, "construction")
      // numerator, denominator, precision
      else if (op == "mpq") {
        pure val q = rat(a[1], a[2])
        pure val p = if (a[3] < 0) 64 else a[3]
        check(holds(X, q) and bfin(X) and rcmp(toRat(X.rad), rscale(rabs(q), 2 - p)) <= 0, st3, "construction")
      }
      // digits, decimal exponent, radius digits, precision, notation
      else if (op == "str") {
        pure val q = if (a[2] >= 0) rint(a[1] * 10^(a[2])) else rat(a[1], 10^(-a[2]))
        pure val s = if (a[2] >= 0) rint(a[3] * 10^(a[2])) else rat(a[3], 10^(-a[2]))
        check(holds(X, radd(q, s)) and holds(X, rsub(q, s)) and bfin(X) and rcmp(toRat(X.rad), radd(rmul(s, rint(2)), rscale(rabs(q), 3 - a[4]))) <= 0, st3, "construction")
      }
      // lower, upper, precision
      else if (op == "pair") {
        pure val lo = norm(a[1], a[2])
        pure val hi = norm(a[3], a[4])
        pure val w = esub(hi, lo)
        pure val p = if (a[5] < 0) EXACT else a[5]
        pure val slack = if (p == EXACT) ZERO else shl(vmax(abs(lo), abs(hi)), 2 - p)
        check(bfin(X) and holdsVal(X, lo) and holdsVal(X, hi) and vcmp(X.rad, eadd(shl(w, -1), eadd(shl(w, -20), slack))) <= 0, st3, "construction")
      }
      // p/d + q/d*sqrt(2), precision
      else if (op == "renf") {
        pure val p = rat(a[1], a[3])
        pure val q = rat(a[2], a[3])
        check(bfin(X) and quadSign(rsub(p, toRat(blo(X))), q) >= 0 and quadSign(rsub(p, toRat(bhi(X))), q) <= 0, st3, "construction")
      }
      else if (op == "copy" or op == "assign") check(X == st.regs.get(a[1]), st3, "copy")
      else if (op == "selfassign" or op == "selfmove") check(X == D, st3, "copy")
      else if (op == "move" or op == "moveassign") check(X == st.regs.get(a[1]) and ball6(r, 7) == point(fromInt(a[2])), st3, "move")
      else if (op == "swap" or op == "stdswap") check(X == st.regs.get(a[1]) and ball6(r, 7) == D, st3, "swap")
      else if (op == "neg" or op == "negexpr") check(X == { mid: neg(st.regs.get(a[1]).mid), rad: st.regs.get(a[1]).rad }, st3, "negation")
      // shape, operators, operands, precision
      else if (op == "expr") {
        pure val A = st.regs.get(a[4])
        pure val B = st.regs.get(a[5])
        pure val unusedC = Set(0, 3, 4, 7, 8).contains(a[1])
        pure val c = if (unusedC) a[5] else a[6]
        pure val C = st.regs.get(c)
        if (not(tame(A) and tame(B) and tame(C))) ok(st3)
        else if (not(encloses(X, samples(st, a[4], a[5], c), p => shape(a[1], a[2], a[3], p[0], p[1], p[2])))) check(false, st3, "containment")
        else check(not(a[1] == 0 or a[1] == 7 or a[1] == 8) or tight(a[2], A, B, a[7], X), st3, "precision")
      }
      // operator, operand, precision: D op= B(p)
      else if (op == "inplace") {
        pure val B = st.regs.get(a[2])
        if (not(tame(D) and tame(B))) ok(st3)
        else if (not(encloses(X, samples(st, a[0], a[2], a[2]), p => rop(a[1], [p[0]], [p[1]])))) check(false, st3, "containment")
        else check(tight(a[1], D, B, a[3], X), st3, "precision")
      }
      // operators, operands, precision: D op1= (B op2 C)(p)
      else if (op == "inplaceexpr") {
        if (not(tame(D) and tame(st.regs.get(a[3])) and tame(st.regs.get(a[4])))) ok(st3)
        else check(encloses(X, samples(st, a[0], a[3], a[4]), p => rop(a[1], [p[0]], rop(a[2], [p[1]], [p[2]]))), st3, "containment")
      }
      // operator, operand, integer on the left (1) or right, type (2 int, 4 long, 5 ulong), integer, precision
      else if (op == "mixed") {
        pure val A = st.regs.get(a[2])
        pure val n = rint(a[5])
        if (not(tame(A))) ok(st3)
        else if (not(encloses(X, samples(st, a[2], a[2], a[2]), p => if (a[3] == 1) rop(a[1], [n], [p[0]]) else rop(a[1], [p[0]], [n])))) check(false, st3, "containment")
        else if (a[3] == 0 and a[1] == 3 and a[5] == 0) ok(st3)
        else check(if (a[3] == 1) tight(a[1], point(fromInt(a[5])), A, a[6], X) else tight(a[1], A, point(fromInt(a[5])), a[6], X), st3, "precision")
      }
      else check(false, st3, "unknown event")
    }
  }
}

module arbGen {
  import dyadic.* from "./dyadic"
  import arb.*

  var op: str
  var args: List[int]
  var seen: int
  const MIX: List[Set[str]]

  pure val PRECS = [2, 3, 5, 10, 24, 30, 31, 32, 53, 63, 64, 65, 100, 128, 200, 257, 1000]
  pure val LIMITS = [(-2^15, 2^15 - 1), (0, 2^16 - 1), (-2^31, 2^31 - 1), (0, 2^32 - 1), (-2^63, 2^63 - 1), (0, 2^64 - 1), (-2^63, 2^63 - 1), (0, 2^64 - 1)]
  pure def fit(i: int, ty: int): int = {
    pure val lo = LIMITS[ty]._1
    pure val hi = LIMITS[ty]._2
    if (i < lo) (if (i < -2^62) lo + absi(i) % 5 else mini(hi, absi(i) % (hi + 1)))
    else if (i > hi) hi - i % 5 else i
  }

  action choose(o: str, d: int, x: int, y: int, z: int): bool = {
    nondet f = oneOf(0.to(11))
    nondet g = oneOf(0.to(11))
    nondet o1 = oneOf(0.to(3))
    nondet o2 = oneOf(0.to(3))
    nondet i = oneOf(0.to(60))
    nondet big = oneOf(0.to(2^150))
    nondet s = oneOf(0.to(130))
    nondet small = oneOf((-12).to(12))
    nondet small2 = oneOf((-40).to(40))
    nondet far = oneOf(0.to(600))
    val p0 = PRECS[i % PRECS.length()]
    val p = if (o1 != 3 and o2 != 3 and f == 11) EXACT else if (f == 10) 2 + far % 250 else p0
    val m = if (f < 4) small else if (f < 7) big % 2^(s + 1) else if (f < 9) -(big % 2^(s + 1)) else if (f < 10) small + (big % 2^(s + 1)) * 2^far else 2^s + small
    val e = if (g < 6) 0 else if (g < 8) -s else if (g < 11) small2 else (if (small < 0) -far else far)
    // radii: few bits, since they are stored with few bits
    val rm = if (g == 0) 0 else if (g < 7) absi(small) else big % 2^30
    val re = if (f < 4) e + small2 % 5 else if (f < 6) e - small2 else if (f < 8) e + s - 30 else if (f < 10) e - 31 - absi(small2) else e + small
    val ty = i % 8
    val n = if (g < 4) small else if (g < 6) fit(m, ty) else if (g < 8) fit(2^63 + small, ty) else if (g < 10) fit(-2^63 + small, ty) else fit(if (small < 0) LIMITS[ty]._1 + absi(small) else LIMITS[ty]._2 - small, ty)
    val dd = if (g < 4) 1 + absi(small) else if (g < 8) 1 + big % 2^40 else 2^(s % 64) + absi(small) + 1
    // end points of a pair in the right order
    val m2 = if (g < 6) m + absi(small) else m + big % 2^(s + 1)
    val ty3 = if (i % 3 == 0) 2 else if (i % 3 == 1) 4 else 5
    val a0 =
      if (o == "ball") [d, m, e, rm, re]
      else if (o == "constant") [d, i % 8]
      else if (o == "int") [d, ty, fit(n, ty), f % 2]
      else if (o == "mpz") [d, m, f % 2]
      else if (o == "arf") [d, m, e]
      else if (o == "mpq") [d, m, dd, if (f == 0) -1 else p0]
      else if (o == "str") [d, m, small, if (g < 6) 0 else absi(small2), p0, f % 3]
      else if (o == "pair") [d, m, e, m2, e, if (f % 3 == 0) -1 else p0]
      else if (o == "renf") [d, m, if (g < 6) small else big % 2^40, dd, if (f == 0) -1 else p0]
      else if (o == "copy" or o == "assign") [d, x, f % 3]
      else if (o == "selfassign" or o == "selfmove") [d]
      else if (o == "move" or o == "moveassign") (if (x == d) [d, (d + 1) % 5, small] else [d, x, small])
      else if (o == "swap" or o == "stdswap") [d, x]
      else if (o == "neg" or o == "negexpr") [d, x]
      else if (o == "expr") [d, if (g < 4) 0 else if (g == 4) 8 + f % 2 else g % 8, o1, o2, x, y, z, p]
      else if (o == "inplace") [d, o1, x, if (p == EXACT and o1 == 3) p0 else p]
      else if (o == "inplaceexpr") [d, o1, o2, x, y, p]
      else if (o == "mixed") [d, o1, x, g % 2, ty3, fit(n, ty3), p]
      else if (o == "cmp" or o == "equal") [d, x]
      else if (o == "text") [d, if (f < 6) 6 else 1 + i % 40]
      // relative to lower end, midpoint, upper end, or absolute
      else if (o == "cmpint") [d, ty, f % 4, if (f % 4 == 3) fit(n, ty) else small % 3]
      // relative to lower end, midpoint, upper end, or absolute; offset small*2^-s; additional denominator
      else if (o == "cmpmpq") [d, f % 4, if (f % 4 == 3) m else small % 3, if (f % 4 == 3) dd else s, 1 + absi(small2) % 4]
      else [d]
    all { op' = o, args' = a0, seen' = seen + 1 }
  }

  action init = all { op' = "reset", args' = [], seen' = 0 }
  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet o = oneOf(MIX[fam])
    nondet d = oneOf(REGS)
    nondet x = oneOf(REGS)
    nondet y = oneOf(REGS)
    nondet z = oneOf(REGS)
    choose(o, d, x, y, z)
  }
  // --- properties of the specification itself: comparisons of random intervals --------
  val sane = args.length() < 5 or op != "ball" or {
    val b = { mid: norm(args[1], args[2]), rad: norm(args[3], args[4]) }
    val e = expected(blo(b), bhi(b), ZERO, fromInt(1))
    and {
      holdsVal(b, b.mid), vcmp(blo(b), bhi(b)) <= 0,
      // <= is the negation of >, < implies <= and !=
      e[0] == 1 implies (e[1] == 1 and e[3] == 1 and e[2] == 0 and e[4] == 0 and e[5] == 0),
      e[2] == 1 implies (e[1] == 1 and e[5] == 1),
      sound(e, e), sound(unknown, e)
    }
  }
}

module arbArith {
  import arbGen(MIX = [Set("ball", "mpq", "int", "pair"), Set("ball", "arf", "constant"), Set("expr"), Set("expr", "inplace"), Set("inplace", "inplaceexpr", "mixed"), Set("mixed", "expr"), Set("neg", "negexpr"), Set("assign", "copy")]).* from "./arb"
}
module arbValues {
  import arbGen(MIX = [Set("int", "mpz", "arf"), Set("mpq", "str", "renf"), Set("pair", "mpq", "constant"), Set("ball"), Set("conv"), Set("conv", "flags", "equal"), Set("neg", "negexpr", "expr")]).* from "./arb"
}
module arbOrder {
  import arbGen(MIX = [Set("ball", "constant", "int"), Set("ball", "pair", "mpq"), Set("cmp"), Set("cmp", "cmpint"), Set("cmpint", "cmpmpq"), Set("cmpmpq"), Set("expr", "copy", "neg")]).* from "./arb"
}
module arbText {
  import arbGen(MIX = [Set("ball"), Set("ball", "constant"), Set("ball", "int", "mpz"), Set("mpq", "str", "arf"), Set("expr", "neg"), Set("text"), Set("text"), Set("text")]).* from "./arb"
}
module arbLife {
  import arbGen(MIX = [Set("copy", "assign", "selfassign", "selfmove", "move", "moveassign", "swap", "stdswap"), Set("copy", "assign", "move"), Set("ball", "mpz", "mpq"), Set("inplace", "expr"), Set("inplaceexpr", "neg"), Set("flags", "equal", "conv")]).* from "./arb"
}
