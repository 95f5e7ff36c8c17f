// Serialization: objects of all kinds are written to archives and read back, by
// the same process, after everything has been forgotten, or by another process.
//
// An archive is nothing but the list of the values that have been written.
// Reading it produces equal values; reals and modules that are alive have only
// one object, no matter whether they were read from an archive or created.
module archives {
  import dyadic.* from "./dyadic"
  import coeffs.* from "./coeffs"

  type Gen = (int, int, int)
  // kind: 0 nothing, 1 floating point number (v: kind, mantissa, exponent), 2 ball
  // (midpoint and radius), 3 real (v: n, d, code), 4 module, 5 element (ring t,
  // field f, coefficients), 6 several reals
  type Obj = { kind: int, t: int, f: int, v: List[int], c: Gen -> Coeff }
  type Archive = { format: int, l: List[Obj] }
  type St = { x: int -> Obj, ar: int -> Archive }
  type Res = { st: St, err: str }

  pure val SLOTS = 0.to(7)
  pure val ARCHIVES = 0.to(3)
  pure val NOTHING: Obj = { kind: 0, t: 0, f: 0, v: [], c: Map() }
  pure val start: St = { x: SLOTS.mapBy(_s => NOTHING), ar: ARCHIVES.mapBy(_a => { format: 0, l: [] }) }

  pure def plain(k: int, l: List[int]): Obj = { ...NOTHING, kind: k, v: l }
  // lowest terms of each value
  pure def vals(l: List[int]): List[int] = {
    pure def one(i: int): List[int] = if (l[i] != 0) [l[i], 0, 0] else {
      pure val y = norm(l[i + 1], l[i + 2])
      [0, y.m, y.e]
    }
    range(0, l.length() / 3).foldl([], (acc, i) => acc.concat(one(3 * i)))
  }
  pure def digit(code: int, i: int): int = (code / (if (i == 0) 1 else if (i == 1) 8 else if (i == 2) 64 else 512)) % 8
  pure def degree(code: int): int = digit(code, 0) + digit(code, 1) + digit(code, 2) + digit(code, 3)
  pure def divides(h: int, g: int): bool = 0.to(3).forall(i => digit(h, i) <= digit(g, i))

  // kind, then: vals; or t, f, the number of generators; for each generator n, d,
  // code and, for elements, the coefficient d, a0, a1, a2
  pure def parse(r: List[int]): Obj =
    if (r[0] == 1 or r[0] == 2) plain(r[0], vals(r.slice(1, r.length())))
    else if (r[0] == 3 or r[0] == 6) plain(r[0], r.slice(1, r.length()))
    else {
      pure val w = if (r[0] == 4) 3 else 7
      { kind: r[0], t: r[1], f: r[2], v: [], c: range(0, r[3]).foldl(Map(), (m, i) => {
        pure val o = 4 + i * w
        m.put((r[o], r[o + 1], r[o + 2]), if (r[0] == 4) C0 else cnorm(r[o + 3], r[o + 4], r[o + 5], r[o + 6]))
      }) }
    }
  // how many numbers are there?
  pure def span(r: List[int], o: int): int =
    if (r[o] == 1) 4 else if (r[o] == 2) 7 else if (r[o] == 3) 4 else if (r[o] == 6) 1 + 3 * r[o + 1] + 1
    else 4 + r[o + 3] * (if (r[o] == 4) 3 else 7)

  pure def sameObject(x: Obj, y: Obj): bool =
    if (x.kind == 3) x == y
    else (x.kind == 4 or x.kind == 5) and (y.kind == 4 or y.kind == 5) and x.t == y.t and x.f == y.f and x.c.keys() == y.c.keys()
  pure def mask(st: St, x: Obj): int = SLOTS.fold(0, (m, s) => m + b2i(sameObject(x, st.x.get(s))) * 2^s)

  pure def objOf(st: St, a: List[int], i: int): Obj = if (a.length() > i and SLOTS.contains(a[i])) st.x.get(a[i]) else NOTHING
  pure def tripleMul(x: Obj, y: Obj): Obj = {
    pure val q = rnorm({ n: x.v[0] * y.v[0], d: x.v[1] * y.v[1] })
    plain(3, [q.n, q.d, x.v[2] + y.v[2]])
  }
  pure def tripleDiv(x: Obj, y: Obj): Obj = {
    pure val q = rnorm({ n: x.v[0] * y.v[1] * sgn(y.v[0]), d: x.v[1] * absi(y.v[0]) })
    plain(3, [q.n, q.d, x.v[2] - y.v[2]])
  }
  pure def shape(st: St, op: str, a: List[int]): St = {
    pure val d = a[0]
    pure def put_(y: Obj): St = { ...st, x: st.x.set(d, y) }
    if (op == "make") put_(parse(a.slice(1, a.length())))
    else if (op == "copy") put_(st.x.get(a[1]))
    else if (op == "drop") put_(NOTHING)
    else if (op == "mul") put_(tripleMul(st.x.get(a[1]), st.x.get(a[2])))
    else if (op == "div") put_(tripleDiv(st.x.get(a[1]), st.x.get(a[2])))
    else if (op == "forget") { ...st, x: SLOTS.mapBy(_s => NOTHING) }
    else if (op == "save") { ...st, ar: st.ar.set(d, { format: a[1], l: range(2, a.length()).foldl([], (l, i) => l.append(st.x.get(a[i]))) }) }
    else if (op == "load") {
      pure val l = st.ar.get(d).l
      { ...st, x: range(0, l.length()).foldl(st.x, (x, i) => x.set(a[1 + i], l[i])) }
    }
    else st
  }

  // compare the descriptions in the report from position o on
  pure def compare(l: List[Obj], r: List[int], o: int): (str, int) =
    l.foldl(("", o), (acc, y) =>
      if (acc._1 != "") acc
      else if (acc._2 >= r.length() or r[acc._2] != y.kind) ("kind of object", 0)
      else {
        pure val n = span(r, acc._2)
        if (acc._2 + n > r.length()) ("kind of object", 0)
        else if (parse(r.slice(acc._2, acc._2 + n)) != y) ("value from archive", 0)
        else ("", acc._2 + n)
      })
  // the descriptions of the objects followed by their masks
  pure def described(st: St, l: List[Obj], r: List[int], why: str): Res = {
    pure val res = compare(l, r, 0)
    if (res._1 != "") { st: st, err: if (why == "") res._1 else why }
    else { st: st, err: if (r.slice(res._2, r.length()) == l.foldl([], (acc, y) => acc.append(mask(st, y)))) "" else "identity" }
  }

  pure def exec(st: St, op: str, a: List[int], r: List[int]): Res = {
    pure val next_ = shape(st, op, a)
    if (op == "atoms" or op == "forget" or op == "drop" or op == "churn") { st: next_, err: "" }
    else if (op == "save") { st: next_, err: if (r == [0]) "" else "archive" }
    else if (op == "make" or op == "copy" or op == "mul" or op == "div") described(next_, [next_.x.get(a[0])], r, "construction")
    else if (op == "look") described(st, [st.x.get(a[0])], r, "an object has been modified")
    else if (op == "load") {
      // a slot that is overwritten twice has its last value
      pure val l = range(1, a.length()).foldl([], (l, i) => l.append(next_.x.get(a[i])))
      described(next_, l, r, "")
    }
    // the same in another process, where nothing else is alive
    else if (op == "foreign") {
      pure val res = compare(st.ar.get(a[0]).l, r, 0)
      { st: st, err: if (res._1 != "") res._1 else if (res._2 == r.length()) "" else "kind of object" }
    }
    else { st: st, err: "unknown event" }
  }

  pure def legal(st: St, op: str, a: List[int]): bool = {
    pure val y = objOf(st, a, 1)
    pure val z = objOf(st, a, 2)
    if (op == "copy") y.kind != 0
    else if (op == "mul") y.kind == 3 and z.kind == 3 and (y.v[2] == 0) == (z.v[2] == 0) and degree(y.v[2]) + degree(z.v[2]) <= 6
    else if (op == "div") y.kind == 3 and z.kind == 3 and z.v[0] != 0 and (y.v[2] == 0) == (z.v[2] == 0) and divides(z.v[2], y.v[2]) and y.v[2] != z.v[2]
    else if (op == "look") objOf(st, a, 0).kind != 0
    else if (op == "save") range(2, a.length()).foldl(true, (b, i) => b and st.x.get(a[i]).kind != 0)
    else if (op == "load" or op == "foreign") st.ar.get(a[0]).l.length() > 0
    else true
  }
}

// Chooses commands; the reports are left to the implementation.
module archiveGen {
  import dyadic.* from "./dyadic"
  import coeffs.* from "./coeffs"
  import archives.*

  var st: St
  var op: str
  var args: List[int]
  const MIX: List[Set[str]]

  pure val MONOMIALS: List[int] = [1, 8, 64, 512, 9, 2, 65, 16, 128, 1024, 73, 520, 3, 192, 577, 24]
  pure def mixa(n: int, i: int): int = ((n + i * 7919) * 2654435761 + i * 40503) / 65536
  pure def number(n: int): int = {
    pure val w = mixa(n, 1)
    (if (w % 2 == 0) 1 else -1) * (if (w % 7 < 4) mixa(n, 2) % 20 else mixa(n, 2) * mixa(n, 3) * mixa(n, 4) % 2^(20 + mixa(n, 5) % 90))
  }
  pure def fraction(n: int): List[int] = {
    pure val q = rnorm({ n: if (mixa(n, 8) % 12 == 0) 0 else number(n), d: 1 + absi(number(n + 1)) })
    [q.n, q.d, 0]
  }
  pure def exponent(n: int): int = if (n % 5 == 0) (n / 5) % 4000 - 2000 else if (n % 5 == 1) (n / 5) % 2^40 - 2^39 else (n / 5) % 200 - 100
  // sometimes with very long mantissas
  pure def long_(n: int): int = range(0, 4 + mixa(n, 3) % 60).foldl(number(n), (x, i) => x * 2^34 + mixa(n, 50 + i) % 2^34)
  pure def extended(n: int): List[int] = if (mixa(n, 6) % 10 == 0) [1 + mixa(n, 7) % 3, 0, 0] else [0, if (mixa(n, 4) % 8 == 0) long_(n) else number(n), exponent(mixa(n, 9))]
  // radii have 30 bits
  pure def radius(n: int): List[int] = if (mixa(n, 6) % 12 == 0) [1, 0, 0] else if (mixa(n, 6) % 3 == 0) [0, 0, 0] else [0, mixa(n, 2) % 2^30, exponent(mixa(n, 9) + 1)]
  pure def monomial(n: int): List[int] = [1, 1, MONOMIALS[mixa(n, 1) % MONOMIALS.length()]]
  pure def gens(n: int): List[List[int]] = {
    pure val count = mixa(n, 1) % 16
    pure val rank = if (count == 0) 0 else if (count < 4) 1 else if (count < 9) 2 else if (count < 14) 3 else 5
    pure val q = fraction(n)
    pure val rational = if (mixa(n, 2) % 3 == 0 or rank == 0) [] else if (mixa(n, 3) % 4 == 0 and q[0] != 0) [q] else [[1, 1, 0]]
    range(0, rank).foldl(rational, (l, i) => {
      pure val k = mixa(n, 5 + i)
      pure val g = monomial(k)
      if (l.foldl(false, (b, h) => b or h == g) or l.length() == rank) l else if (k % 2 == 0) l.append(g) else [g].concat(l)
    })
  }
  pure def coefficientArg(t: int, f: int, n: int): List[int] = {
    pure val den = if (t == 1 or n % 3 == 0) 1 else 1 + absi(number(n + 5))
    pure val k = if (n % 4 == 0) C0 else cnorm(den, number(n), if (f >= 1) number(n + 2) else 0, if (f >= 2) number(n + 3) else 0)
    [k[0], at(k, 0), at(k, 1), at(k, 2)]
  }
  pure def object(st0: St, n: int): List[int] = {
    pure val k = mixa(n, 11) % 14
    pure val t = 1 + mixa(n, 12) % 3
    pure val f = if (t == 3) mixa(n, 13) % 3 else 0
    pure val l = gens(n)
    // another element of a module that exists
    pure val s = st0.x.get(mixa(n, 14) % 8)
    if (k == 0) List(1).concat(extended(n))
    else if (k == 1) {
      pure val mid = extended(n)
      List(2).concat(mid).concat(radius(n + 1))
    }
    else if (k == 2) List(3).concat(fraction(n))
    else if (k < 6) List(3).concat(monomial(n))
    else if (k < 8) List(4, t, f, l.length()).concat(l.foldl([], (r, g) => r.concat(g)))
    else if (k == 8) List(6, l.length() + 2).concat(l.foldl([], (r, g) => r.concat(g))).concat(monomial(n + 1)).concat(fraction(n + 2))
    else if (k < 11 and s.kind >= 4 and s.kind <= 5) s.c.keys().fold(List(5, s.t, s.f, s.c.keys().size()), (r, g) => r.concat([g._1, g._2, g._3]).concat(coefficientArg(s.t, s.f, n + r.length())))
    else range(0, l.length()).foldl(List(5, t, f, l.length()), (r, i) => r.concat(l[i]).concat(coefficientArg(t, f, n + i)))
  }

  action perform(o: str, a: List[int]): bool = all { op' = o, args' = a, st' = shape(st, o, a) }
  action init = {
    nondet near_ = oneOf(1.to(1000))
    nondet base = oneOf(0.to(5))
    nondet order = oneOf(0.to(23))
    nondet shape_ = oneOf(0.to(9999))
    // also around the largest seeds
    val seed = if (base < 3) near_ else if (base == 3) 2^31 - near_ % 8 else if (base == 4) 2^32 - 2 - near_ % 500 else 2^24 * (near_ % 250) + near_
    all { st' = start, op' = "atoms", args' = [seed, order, shape_] }
  }
  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet o = oneOf(MIX[fam])
    nondet s = oneOf(SLOTS)
    nondet u = oneOf(SLOTS)
    nondet w = oneOf(SLOTS)
    nondet n = oneOf(0.to(2^60))
    nondet many = oneOf(1.to(6))
    val l = range(0, many).foldl([], (acc, i) => acc.append(mixa(n, 30 + i) % 8).select(j => st.x.get(j).kind != 0))
    val free = range(0, 8).foldl([], (acc, i) => acc.append((s + i * (1 + 2 * (n % 4))) % 8))
    val cmd =
      if (o == "make") [s].concat(object(st, n))
      else if (o == "copy") [s, u]
      else if (o == "mul" or o == "div") [s, u, w]
      else if (o == "forget") [n % 24, (n / 24) % 2]
      else if (o == "save") [n % 4, (n / 4) % 4].concat(l)
      else if (o == "load") [n % 4].concat(free.slice(0, mini(8, st.ar.get(n % 4).l.length())))
      else if (o == "churn") [n % 3]
      else if (o == "foreign") [n % 4, (n / 4) % 24]
      else [s]
    if (legal(st, o, cmd) and (o != "save" or l.length() > 0)) perform(o, cmd) else perform("make", [s].concat(object(st, n)))
  }

  val sane = SLOTS.forall(s => {
    val y = st.x.get(s)
    y.kind == 0 or (mask(st, y) / 2^s) % 2 == b2i(y.kind >= 3 and y.kind <= 5)
  })
}

module archivesAll {
  import archiveGen(MIX = [Set("make"), Set("make"), Set("make"), Set("make"), Set("mul", "div", "copy"), Set("save"), Set("save"), Set("load"), Set("load"), Set("look", "drop", "churn", "forget"), Set("foreign", "forget")]).* from "./archives"
}
