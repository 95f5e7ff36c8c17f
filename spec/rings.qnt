// The rings of coefficients: the integers, the rationals, and real embedded
// number fields; and what their static helpers do to coefficients.
//
// The state is a handful of coefficients that are known exactly.
module rings {
  import dyadic.* from "./dyadic"
  import coeffs.* from "./coeffs"

  // A coefficient in a ring: t as in elements; the fields are
  // 0: the rationals, 1: t^2 = 2 (t > 0), 2: t^3 = 2, 3: t^2 = 2 (t < 0), 4: as 1
  // with another name for t, 5: as 1 created from a different description,
  // 6: the rationals, created from x = 5, 7: as 2 created from a different description
  type Slot = { t: int, f: int, c: Coeff }
  type St = { s: int -> Slot }
  type Res = { st: St, err: str }

  pure val RSLOTS = 0.to(5)
  pure val NONE: Slot = { t: 0, f: 0, c: C0 }
  pure val start: St = { s: RSLOTS.mapBy(_k => NONE) }
  // an equivalent field in the notation of elements
  pure val ALG: List[int] = [0, 1, 2, 1, 1, 1, 0, 2]
  pure val CLASS: List[int] = [0, 1, 2, 3, 4, 1, 6, 2]
  pure def sameField(f: int, g: int): bool = CLASS[f] == CLASS[g]
  pure def trivial(f: int): bool = ALG[f] == 0
  // the same number with a positive t
  pure def upright(x: Slot): Coeff = if (x.f == 3) cnorm(x.c[0], at(x.c, 0), -at(x.c, 1), 0) else x.c
  pure def cvalue(x: Slot): Iv = civ(ALG[x.f], upright(x))
  pure def csub(x: Slot, n: int): Slot = { ...x, c: cadd(x.c, [1, -n]) }
  pure def csign(x: Slot): int =
    if (cisRat(x.c)) sgn(at(x.c, 0))
    else {
      pure val X = cvalue(x)
      if (vsgn(X.lo) > 0) 1 else if (vsgn(X.hi) < 0) -1 else 2
    }
  pure def cfloorOk(x: Slot, n: int): bool = csign(csub(x, n)) != -1 and csign(csub(x, n + 1)) % 2 != 1
  pure def isUnit(x: Slot): bool = if (x.t == 1) (x.c == [1, 1] or x.c == [1, -1]) else not(czero(x.c))

  // x*c or x/c for a c in the field g
  pure def rscale(x: Slot, c: Coeff, g: int, times: bool): (bool, Coeff) =
    if (not(times) and czero(c)) (false, x.c)
    else {
      pure val f = maxi(ALG[x.f], ALG[g])
      pure val y = cmul(f, x.c, if (times) c else cinv(f, c))
      if (x.t != 1 or y[0] == 1) (true, y) else (false, x.c)
    }
  // a coefficient d, a0, a1, a2 in the report from position o on
  pure def read(r: List[int], o: int): Coeff = cnorm(r[o], r[o + 1], r[o + 2], r[o + 3])
  pure def slotOf(st: St, a: List[int], i: int): Slot = if (a.length() > i and RSLOTS.contains(a[i])) st.s.get(a[i]) else NONE

  // what a command does to the state
  pure def rshape(st: St, op: str, a: List[int]): St = {
    pure val x = slotOf(st, a, 0)
    pure def put_(y: Slot): St = { s: st.s.set(a[0], y) }
    if (op == "set") put_({ t: a[1], f: a[2], c: read(a, 3) })
    else if (op == "imul" or op == "idiv") {
      pure val g = if (a[1] == 10) a[6] else 0
      put_({ ...x, f: if (trivial(x.f) and not(trivial(g))) g else x.f, c: rscale(x, read(a, 2), g, op == "imul")._2 })
    }
    else if (op == "iself") put_({ ...x, c: rscale(x, x.c, x.f, a[1] == 0)._2 })
    else st
  }

  pure def coerceOk(x: Slot, f: int): bool = sameField(x.f, f) or cisRat(x.c)

  pure def exec(st: St, op: str, a: List[int], r: List[int]): Res = {
    pure val x = slotOf(st, a, 0)
    pure val y = slotOf(st, a, 1)
    pure val next_ = rshape(st, op, a)
    pure val z = slotOf(next_, a, 0)
    pure def rok(b: bool, s: St, why: str): Res = { st: s, err: if (b) "" else why }
    // r: the ring's type and field, the coefficient
    if (op == "set") rok(r[0] == z.t and sameField(r[1], z.f) and read(r, 2) == z.c, next_, "construction of coefficient")
    // r: done, then as above
    else if (op == "imul" or op == "idiv" or op == "iself") {
      pure val res = if (op == "iself") rscale(x, x.c, x.f, a[1] == 0) else rscale(x, read(a, 2), if (a[1] == 10) a[6] else 0, op == "imul")
      if (r[0] != b2i(res._1)) rok(false, next_, "scalar is accepted")
      else if (read(r, 3) != res._2) rok(false, { s: st.s.set(a[0], { t: x.t, f: r[2], c: read(r, 3) }) }, if (res._1) "scalar multiplication of coefficient" else "failed operation has an effect")
      else rok(r[1] == x.t and (x.t != 3 or sameField(r[2], x.f) or trivial(x.f) or trivial(r[2])), { s: st.s.set(a[0], { t: x.t, f: r[2], c: res._2 }) }, "ring of coefficient")
    }
    // r: unit; is it a rational, which; floor
    else if (op == "inspect") {
      pure val q = if (cisRat(x.c)) [1, at(x.c, 0), x.c[0]] else [0, 0, 0]
      if (r[0] != b2i(isUnit(x))) rok(false, st, "unit")
      else if (r.slice(1, 4) != q) rok(false, st, "rational value")
      else rok(cfloorOk(x, r[4]), st, "floor")
    }
    // r: the end points of a ball and its accuracy
    else if (op == "arb") {
      pure val lo = val3(r, 0)
      pure val hi = val3(r, 3)
      pure val inside =
        isFin(lo) and isFin(hi) and (if (cisRat(x.c)) rcmp(toRat(lo), { n: at(x.c, 0), d: x.c[0] }) <= 0 and rcmp({ n: at(x.c, 0), d: x.c[0] }, toRat(hi)) <= 0
        else ivok(ivmeet(cvalue(x), { lo: lo, hi: hi })))
      // the width compared to the size of the summands
      pure val magnitude = rnorm({ n: (absi(at(x.c, 0)) + 2 * absi(at(x.c, 1)) + 2 * absi(at(x.c, 2))) * 64, d: x.c[0] })
      if (not(inside)) rok(false, st, "ball containment")
      else rok(rcmp(toRat(shl(esub(hi, lo), a[1])), magnitude) <= 0, st, "ball accuracy")
    }
    // r: ==, !=, hashes are equal; the compositum: its field, or -1; coercion of y
    // to the ring of x: done, ring and coefficient
    else if (op == "rings") {
      pure val same = x.t != 3 or sameField(x.f, y.f)
      pure val done = x.t != 3 or coerceOk(y, x.f)
      if (r[0] != b2i(same) or r[1] != b2i(not(same))) rok(false, st, "equality of rings")
      else if (same and r[2] != 1) rok(false, st, "hash of rings")
      else if (x.t == 3 and not(if (same) sameField(r[3], x.f) else if (trivial(x.f) and trivial(y.f)) trivial(r[3]) else if (trivial(x.f)) sameField(r[3], y.f) else if (trivial(y.f)) sameField(r[3], x.f) else r[3] == -1)) rok(false, st, "compositum")
      else if (r[4] != b2i(done)) rok(false, st, "coercion")
      else rok(not(done) or (r[5] == x.t and (x.t != 3 or sameField(r[6], x.f)) and read(r, 7) == y.c), st, "coercion")
    }
    // the ring that contains a coefficient: its field
    else if (op == "ringof") rok(x.t != 3 or sameField(r[0], x.f), st, "ring of coefficient")
    else rok(false, st, "unknown event")
  }

  pure def rlegal(st: St, op: str, a: List[int]): bool = {
    pure val x = slotOf(st, a, 0)
    if (op == "set") inRing(a[1], ALG[a[2]], read(a, 3)) and (a[1] == 3 or a[2] == 0)
    else if (x.t == 0) false
    // no coefficients of unrelated fields, and none that explode
    else if (op == "imul" or op == "idiv")
      and { x.c.filterLen() < 2000, a[1] == 10 implies (x.t == 3 and (sameField(x.f, a[6]) or trivial(x.f) or trivial(a[6]))), a[1] == 10 implies inRing(3, ALG[a[6]], read(a, 2)),
        // e-antic computes a wrong floor for the result of such a multiplication
        czero(read(a, 2)) implies (x.t != 3 or ALG[x.f] != 2 or op == "idiv") }
    else if (op == "iself") x.c.filterLen() < 1000
    else if (op == "rings") x.t == slotOf(st, a, 1).t
    else true
  }
  pure def filterLen(c: Coeff): int = c.foldl(0, (m, i) => maxi(m, bits(i)))
}

// Chooses commands; the reports are left to the implementation.
module ringGen {
  import dyadic.* from "./dyadic"
  import coeffs.* from "./coeffs"
  import rings.*

  var st: St
  var op: str
  var args: List[int]
  const MIX: List[Set[str]]

  pure def mixr(n: int, i: int): int = ((n + i * 7919) * 2654435761 + i * 40503) / 65536
  // (t - 1)^k, a tiny number
  pure def tiny(f: int, k: int): Coeff = range(0, k).foldl(C1, (c, _i) => cmul(f, c, [1, -1, 1]))
  pure def coeffArg(t: int, f: int, n: int): List[int] = {
    pure val w1 = mixr(n, 1) % 16
    pure val big = w1 >= 12
    pure def num(k: int): int = {
      pure val v1 = mixr(n, k)
      if (big) (if (v1 % 2 == 0) 1 else -1) * ((v1 * v1 * v1 * v1) % 2^(10 + (v1 / 7) % 100)) else v1 % 19 - 9
    }
    pure val d = if (t == 1 or w1 % 3 == 0) 1 else 1 + mixr(n, 9) % (if (big) 1000003 else 12)
    pure val c =
      if (w1 == 0) C0
      else if (w1 == 7) [1, if (mixr(n, 3) % 2 == 0) 1 else -1]
      else if (f >= 1 and w1 >= 8 and w1 < 12) {
        // next to an integer
        pure val p = cadd(cadd(tiny(f, mixr(n, 2) % 120), [1, num(1)]), if (w1 == 8) C0 else [1, 2^(mixr(n, 4) % 90)])
        if (w1 % 2 == 0) p else cneg(p)
      }
      else cnorm(d, num(1), if (f >= 1 and w1 % 4 != 2) num(2) else 0, if (f >= 2) num(3) else 0)
    [c[0], at(c, 0), at(c, 1), at(c, 2)]
  }
  pure def scalarArg(x: Slot, n: int): List[int] = {
    pure val k = mixr(n, 1) % 14
    pure val kind = if (k < 10 or x.t != 3) k % 10 else 10
    pure val v = mixr(n, 2)
    pure val w = v % 9
    // something that divides the coefficient
    pure val big0 = absi(at(x.c, 0))
    pure val m = if (w == 8) gcd(big0, mixr(n, 5) % 2^20 * 120) else if (w < 3) mixr(n, 3) % 7 - 3 else if (w < 5) mixr(n, 3) % 2^16 else if (w == 5) 2^64 - mixr(n, 3) % 4 else if (w == 6) -(2^63) + mixr(n, 3) % 4 else 2^31 - 2 + mixr(n, 3) % 4
    if (kind < 8) [kind, 1, clip(kind, m), 0, 0, 0]
    else if (kind == 8) [8, 1, if (w == 7) m * 2^70 + 1 else if (w == 5 and at(x.c, 0) != 0) at(x.c, 0) else m, 0, 0, 0]
    else if (kind == 9) {
      pure val q = crat(if (w == 6) m * 2^70 + 1 else m, if (w == 8 and big0 != 0) maxi(1, gcd(big0, mixr(n, 4))) else 1 + mixr(n, 4) % (if (w < 4) 6 else 2^40))
      [9, q[0], q[1], 0, 0, 0]
    }
    else {
      pure val fld = if (v % 3 == 0) 0 else if (trivial(x.f)) mixr(n, 6) % 8 else x.f
      List(10).concat(coeffArg(3, ALG[fld], n)).concat([fld])
    }
  }

  action perform(o: str, a: List[int]): bool = all { op' = o, args' = a, st' = rshape(st, o, a) }
  action init = all { st' = start, op' = "reset", args' = [] }
  pure val PREC = [1, 2, 3, 10, 30, 53, 54, 63, 64, 65, 100, 128, 200, 300, 500]
  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet o = oneOf(MIX[fam])
    nondet s = oneOf(RSLOTS)
    nondet u0 = oneOf(RSLOTS)
    nondet n = oneOf(0.to(2^60))
    nondet t0 = oneOf(1.to(4))
    nondet f0 = oneOf(0.to(7))
    val t = mini(t0, 3)
    val f = if (t == 3) f0 else 0
    val u = range(0, 6).foldl(u0, (m, i) => if (st.s.get(m).t == st.s.get(s).t) m else (u0 + i) % 6)
    val cmd =
      if (o == "set") [s, t, f].concat(coeffArg(t, ALG[f], n))
      else if (o == "imul" or o == "idiv") [s].concat(scalarArg(st.s.get(s), n))
      else if (o == "iself") [s, n % 2]
      else if (o == "arb") [s, PREC[n % PREC.length()]]
      else if (o == "rings") [s, u]
      else [s]
    if (rlegal(st, o, cmd)) perform(o, cmd) else perform("set", [s, t, f].concat(coeffArg(t, ALG[f], n)))
  }

  // --- properties of the specification itself
  val sane = RSLOTS.forall(s => {
    val x = st.s.get(s)
    val f = ALG[x.f]
    and {
      x.t == 0 or inRing(x.t, f, x.c),
      // inverses are inverses
      czero(x.c) or cmul(f, x.c, cinv(f, x.c)) == C1,
      // the numerical value is compatible with squaring
      (cisRat(x.c) or ivok(ivmeet(ivmul(cvalue(x), cvalue(x)), cvalue({ ...x, c: cmul(f, x.c, x.c) }))))
    }
  })
}

module ringsAll {
  import ringGen(MIX = [Set("set"), Set("set"), Set("imul"), Set("imul"), Set("idiv"), Set("idiv"), Set("iself"), Set("inspect"), Set("inspect"), Set("arb"), Set("rings"), Set("rings"), Set("ringof")]).* from "./rings"
}
