// Real numbers: unique objects that stand for rationals, for random
// (transcendental) reals and for monomials in the latter.
//
// The state is what a user may know: which real each variable ("slot") stands
// for, and for every random real an interval that must contain it. The digits
// of a random real are the implementation's choice, so every observation is an
// event with a reported result; a report is accepted when some real in the
// known interval explains it, and it shrinks that interval. A history is
// rejected as soon as no assignment of reals explains all of its reports.
module reals {
  import dyadic.* from "./dyadic"

  // A real: k = "none" (empty slot), "rat" (n/d in lowest terms), or "mono", the
  // product of atoms a^mono(a); all exponents are positive.
  type Desc = { k: str, n: int, d: int, mono: int -> int }
  pure val NONE: Desc = { k: "none", n: 0, d: 1, mono: Map() }

  type St = {
    slots: int -> Desc,
    // what identifies an atom: its kind, its seed, and its bounds
    ids: List[int] -> int,
    // the interval that is known to contain each atom
    known: int -> Iv,
    // reported approximations: requests are pure
    memo: (Desc, int) -> Val,
    // the order of the atoms, as far as it has been observed
    less: Set[(int, int)],
    // how many reals with a fresh seed have been created
    fresh: int
  }
  type Ev = { op: str, a: List[int], r: List[int] }
  type Res = { st: St, err: str }

  pure val WORK = 700
  pure val SLOTS = 0.to(9)
  pure val start: St = { slots: SLOTS.mapBy(s => NONE), ids: Map(), known: Map(), memo: Map(), less: Set(), fresh: 0 }

  pure def val3(l: List[int], i: int): Val =
    if (l[i] == 0) norm(l[i + 1], l[i + 2]) else if (l[i] == 1) PINF else if (l[i] == 2) NINF else NAN

  pure def mkRat(n: int, d: int): Desc = {
    pure val q = rnorm(rat(n, d))
    { k: "rat", n: q.n, d: q.d, mono: Map() }
  }
  pure def mkAtom(a: int): Desc = { k: "mono", n: 1, d: 1, mono: Map(a -> 1) }
  pure def ratOf(x: Desc): Rat = { n: x.n, d: x.d }
  pure def expo(x: Desc, a: int): int = if (x.mono.keys().contains(a)) x.mono.get(a) else 0
  pure def degree(x: Desc): int = x.mono.keys().fold(0, (s, a) => s + x.mono.get(a))
  pure def isOne(x: Desc): bool = x.k == "rat" and x.n == 1 and x.d == 1

  // --- multiplication and division of descriptions ------------------------------
  pure def mulOk(x: Desc, y: Desc): bool =
    and { x.k != "none", y.k != "none", x.k == y.k or isOne(x) or isOne(y) }
  pure def mul(x: Desc, y: Desc): Desc =
    if (isOne(x)) y else if (isOne(y)) x
    else if (x.k == "rat") mkRat(x.n * y.n, x.d * y.d)
    else { ...x, mono: x.mono.keys().union(y.mono.keys()).mapBy(a => expo(x, a) + expo(y, a)) }
  pure def divOk(x: Desc, y: Desc): bool =
    and { x.k != "none", y.k != "none", y.k == "rat" implies (isOne(y) or (x == y and y.n != 0)) }
  // the exact quotient, if it is a monomial
  pure def quo(x: Desc, y: Desc): Desc =
    if (x == y) mkRat(1, 1)
    else if (isOne(y)) x
    else if (x.k == "rat") NONE
    else if (y.mono.keys().exists(a => expo(x, a) < y.mono.get(a))) NONE
    else {
      pure val rest = x.mono.keys().filter(a => expo(x, a) > expo(y, a))
      if (rest.size() == 0) mkRat(1, 1) else { ...x, mono: rest.mapBy(a => expo(x, a) - expo(y, a)) }
    }

  // --- numerical knowledge ---------------------------------------------------------
  pure def ivpow(b: Iv, n: int): Iv =
    range(0, 8).foldl({ p: ivpoint(fromInt(1)), q: b, n: n }, (acc, _k) =>
      if (acc.n == 0) acc
      else {
        p: if (acc.n % 2 == 1) ivwiden(ivmul(acc.p, acc.q), WORK) else acc.p,
        q: if (acc.n > 1) ivwiden(ivmul(acc.q, acc.q), WORK) else acc.q,
        n: acc.n / 2
      }).p
  pure def interval(st: St, x: Desc): Iv =
    if (x.k == "rat") ivrat(ratOf(x), WORK)
    else x.mono.keys().fold(ivpoint(fromInt(1)), (acc, a) => ivwiden(ivmul(acc, ivpow(st.known.get(a), x.mono.get(a))), WORK))
  // the sign of x - y; 2 if it is not known
  pure def order(st: St, x: Desc, y: Desc): int =
    if (x == y) 0
    else if (x.k == "rat" and y.k == "rat") rcmp(ratOf(x), ratOf(y))
    else {
      pure val X = interval(st, x)
      pure val Y = interval(st, y)
      if (vcmp(X.hi, Y.lo) < 0) -1 else if (vcmp(X.lo, Y.hi) > 0) 1 else 2
    }
  // the sign of x - v for an extended dyadic v
  pure def orderVal(st: St, x: Desc, v: Val): int =
    if (v.k == "pinf") -1 else if (v.k == "ninf") 1
    else if (x.k == "rat") rcmp(ratOf(x), toRat(v))
    else {
      pure val X = interval(st, x)
      if (vcmp(X.hi, v) < 0) -1 else if (vcmp(X.lo, v) > 0) 1 else 2
    }

  pure def bits6(c: int): List[int] = [b2i(c < 0), b2i(c <= 0), b2i(c == 0), b2i(c != 0), b2i(c > 0), b2i(c >= 0)]
  // do reported relations (both ways round) fit the sign c of the difference?
  pure def relationsFit(c: int, r: List[int]): bool =
    if (c == 2) r == bits6(-1).concat(bits6(1)) or r == bits6(1).concat(bits6(-1))
    else r == bits6(c).concat(bits6(-c))

  // The reals x with |v - x| <= 2^-p*|x|, intersected with the known interval
  pure def explain(X: Iv, v: Val, p: int): Iv =
    if (not(isFin(v))) { lo: ZERO, hi: neg(fromInt(1)) }
    else if (p < 0) X
    else if (v.m == 0) (if (p == 0) X else ivmeet(X, ivpoint(ZERO)))
    else {
      pure val s = sgn(v.m)
      pure val m = absi(v.m)
      pure val inner = rnd(1, m * 2^p, 2^p + 1, v.e, WORK, "FLOOR")
      if (p == 0) ivmeet(X, if (s > 0) { lo: inner, hi: vmax(X.hi, inner) } else { lo: vmin(X.lo, neg(inner)), hi: neg(inner) })
      else {
        pure val outer = rnd(1, m * 2^p, 2^p - 1, v.e, WORK, "CEIL")
        ivmeet(X, if (s > 0) { lo: inner, hi: outer } else { lo: neg(outer), hi: neg(inner) })
      }
    }
  // the same for a rational number, exactly
  pure def explainRat(q: Rat, v: Val, p: int): bool =
    isFin(v) and (p < 0 or {
      pure val d = rsub(toRat(v), q)
      rcmp({ n: absi(d.n) * 2^p, d: d.d }, { n: absi(q.n), d: q.d }) <= 0
    })

  // Narrow what is known about an atom.
  pure def learn(st: St, x: Desc, X: Iv): St =
    if (x.k == "mono" and degree(x) == 1) x.mono.keys().fold(st, (s, a) => { ...s, known: s.known.set(a, ivwiden(X, WORK)) })
    else st

  // --- structural commands -----------------------------------------------------------
  // The interval of doubles that round to the double v
  pure def roundsTo(v: Val): Iv = {
    pure val q = if (v.m == 0) norm(1, -1074) else norm(1, maxi(ilog(v) - 52, -1074))
    pure val h = shl(q, -1)
    { lo: esub(v, h), hi: eadd(v, h) }
  }
  pure def withAtom(st: St, s: int, key: List[int], X: Iv): St =
    if (st.ids.keys().contains(key)) { ...st, slots: st.slots.set(s, mkAtom(st.ids.get(key))) }
    else {
      pure val id = st.ids.keys().size()
      { ...st, ids: st.ids.put(key, id), known: st.known.put(id, X), slots: st.slots.set(s, mkAtom(id)) }
    }
  // Once nobody refers to an atom anymore it may be recreated with a different rank.
  pure def forget(st: St): St = {
    pure val alive = SLOTS.map(s => st.slots.get(s).mono.keys()).flatten()
    { ...st, less: st.less.filter(q => alive.contains(q._1) and alive.contains(q._2)) }
  }
  pure val STRUCTURAL = Set("rat", "rnd", "con", "dbl", "fresh", "copy", "drop", "mul", "pow", "div")
  pure def shape(st: St, op: str, a: List[int]): St = {
    pure val s = a[0]
    if (op == "rat") { ...st, slots: st.slots.set(s, mkRat(a[1], a[2])) }
    else if (op == "rnd") withAtom(st, s, [0, a[1]], { lo: ZERO, hi: fromInt(1) })
    else if (op == "con") {
      pure val lo = norm(a[2], a[3])
      pure val hi = norm(a[4], a[5])
      if (lo == ZERO and hi == fromInt(1)) withAtom(st, s, [0, a[1]], { lo: ZERO, hi: fromInt(1) })
      else withAtom(st, s, [1, a[1], lo.m, lo.e, hi.m, hi.e], { lo: lo, hi: hi })
    }
    else if (op == "dbl") {
      pure val v = norm(a[2], a[3])
      withAtom(st, s, [2, a[1], v.m, v.e], roundsTo(v))
    }
    else if (op == "fresh") withAtom({ ...st, fresh: st.fresh + 1 }, s, [3, st.fresh],
      if (a[1] == 0) { lo: ZERO, hi: fromInt(1) } else if (a[1] == 1) { lo: norm(a[2], a[3]), hi: norm(a[4], a[5]) } else roundsTo(norm(a[2], a[3])))
    else if (op == "copy") { ...st, slots: st.slots.set(s, st.slots.get(a[1])) }
    else if (op == "drop") { ...st, slots: st.slots.set(s, NONE) }
    else if (op == "pow") {
      pure val x = st.slots.get(a[1])
      { ...st, slots: st.slots.set(s, { ...x, mono: x.mono.keys().mapBy(i => a[2] * expo(x, i)) }) }
    }
    else if (op == "mul") { ...st, slots: st.slots.set(s, mul(st.slots.get(a[1]), st.slots.get(a[2]))) }
    else {
      pure val q = quo(st.slots.get(a[1]), st.slots.get(a[2]))
      if (q.k == "none") st else { ...st, slots: st.slots.set(s, q) }
    }
  }

  pure def lsum(l: List[int]): int = l.foldl(0, (x, y) => x + y)
  // bit t of the mask: is the real in slot s the one in slot t?
  pure def sameMask(st: St, s: int): int =
    SLOTS.fold(0, (m, t) => m + b2i(st.slots.get(s).k != "none" and st.slots.get(t) == st.slots.get(s)) * 2^t)

  pure def ok(st: St): Res = { st: st, err: "" }
  pure def check(b: bool, st: St, err: str): Res = { st: st, err: if (b) "" else err }

  // x < y in the degree-lexicographic order given the order of the atoms: 1 yes,
  // 0 no, and the pair of atoms it depends on otherwise
  pure def firstDifference(st: St, x: Desc, y: Desc): Set[int] = x.mono.keys().union(y.mono.keys()).filter(a => expo(x, a) != expo(y, a))
  pure def lt(st: St, a: int, b: int): bool = st.less.contains((a, b))

  pure def and_(st: St, l: List[bool], err: str): Res = check(l.foldl(true, (b, c) => b and c), st, err)
  // the digits of a word in base 25, and how often they appear; the number of times
  // that the first one appears follows after eight digits
  pure val DIGITS = 25^8
  pure def bag(w: int): int =
    range(0, 8).foldl(((if (w < DIGITS) 0 else (w / DIGITS - 1) * 1000^(w % 25)), w % DIGITS), (acc, _k) => (acc._1 + (if (acc._2 % 25 == 0) 0 else 1000^(acc._2 % 25)), acc._2 / 25))._1

  // --- the events ----------------------------------------------------------------------
  pure def exec(st: St, op: str, a: List[int], r: List[int]): Res = {
    pure val x = if (a.length() > 0 and SLOTS.contains(a[0])) st.slots.get(a[0]) else NONE
    if (STRUCTURAL.contains(op)) {
      // the report is: has a result been produced, and which slots hold the same object
      pure val st2 = forget(shape(st, op, a))
      pure val has = b2i(op != "div" or quo(st.slots.get(a[1]), st.slots.get(a[2])).k != "none")
      if (r[0] != has) check(false, st2, "quotient")
      else if (has == 1 and r[1] != sameMask(st2, a[0])) check(false, st2, "identity")
      else check(op == "drop" or has == 0 or st2.slots.get(a[0]).k != "mono" or degree(st2.slots.get(a[0])) > 1 or ivok(st2.known.get(st2.slots.get(a[0]).mono.keys().fold(0, (_m, i) => i))), st2, "atom")
    }
    else if (op == "same") check(r[0] == sameMask(st, a[0]) and r[1] == sameMask(st, a[0]), st, "identity")
    else if (op == "arf") {
      pure val v = val3(r, 0)
      pure val key = (x, a[1])
      pure val X = interval(st, x)
      pure val Y = if (x.k == "rat") X else explain(X, v, a[1])
      // the bits of a product may depend on the order of its factors, i.e., on the history
      pure val stable = degree(x) <= 1
      if (stable and st.memo.keys().contains(key) and st.memo.get(key) != v) check(false, st, "arf is not reproducible")
      else if (x.k == "rat" and not(explainRat(ratOf(x), v, a[1]))) check(false, st, "arf accuracy")
      else if (not(ivok(Y))) check(false, st, "arf accuracy")
      else ok({ ...learn(st, x, Y), memo: if (stable) st.memo.put(key, v) else st.memo })
    }
    // r: lower, upper end point; accuracy
    else if (op == "arb" or op == "refine") {
      pure val lo = val3(r, 0)
      pure val hi = val3(r, 3)
      if (not(isFin(lo)) or not(isFin(hi))) check(false, st, "ball accuracy")
      else if (x.k == "rat" and not(rcmp(toRat(lo), ratOf(x)) <= 0 and rcmp(ratOf(x), toRat(hi)) <= 0)) check(false, st, "ball containment")
      else {
        pure val Y = ivmeet(interval(st, x), { lo: lo, hi: hi })
        if (x.k != "rat" and not(ivok(Y))) check(false, st, "ball containment")
        else check(r[6] >= a[1] or (x.k == "rat" and x.n == 0), learn(st, x, Y), "ball accuracy")
      }
    }
    // What is not supported (multiples of monomials by rationals other than one)
    // may be refused (-1, 0) but there must not be a wrong answer. r: kind, n, d
    else if (op == "refused") {
      pure val y = st.slots.get(a[1])
      pure val q = if (a[2] == 0) rat(x.n * y.d, x.d * y.n) else rat(x.n * y.n, x.d * y.d)
      check(r == [-1] or r == [0] or (x.k == "rat" and y.k == "rat" and q.d != 0 and r == [1, rnorm(q).n, rnorm(q).d]), st, "unsupported operation is answered")
    }
    // r: for each product the position of the first one that is the same object
    else if (op == "family") {
      pure val first = range(0, a.length()).foldl((Map(), []), (acc, i) => {
        pure val w = bag(a[i])
        if (acc._1.keys().contains(w)) (acc._1, acc._2.append(acc._1.get(w))) else (acc._1.put(w, i), acc._2.append(i))
      })
      check(r == first._2, st, "identity")
    }
    // r: for a rational, 1 and the fraction; otherwise 2, the number of factors,
    // then for each in which slots there are reals of that name, and the exponent
    else if (op == "text") {
      if (x.k == "rat") check(r == [1, x.n, x.d], st, "text of a rational")
      else if (r[0] != 2 or r[1] != x.mono.keys().size() or r.length() != 2 + 2 * r[1]) check(false, st, "text of a real")
      else {
        pure val factors = range(0, r[1]).foldl([], (l, i) => l.append((r[2 + 2 * i], r[3 + 2 * i])))
        pure val atoms = SLOTS.filter(t => st.slots.get(t).k == "mono" and degree(st.slots.get(t)) == 1)
        pure def atomOf(t: int): int = st.slots.get(t).mono.keys().fold(0, (_m, i) => i)
        pure def named(f: (int, int), t: int): bool = (f._1 / 2^t) % 2 == 1
        and_(st, [
          // every factor appears
          atoms.forall(t => expo(x, atomOf(t)) == 0 or factors.foldl(false, (b, f) => b or (named(f, t) and f._2 == expo(x, atomOf(t))))),
          // nothing else does, unless it has the same name as a factor
          factors.foldl(true, (b, f) => b and f._2 > 0 and (atoms.forall(t => not(named(f, t))) or atoms.exists(t => named(f, t) and f._2 == expo(x, atomOf(t))))),
          lsum(factors.foldl([], (l, f) => l.append(f._2))) == degree(x)
        ], "text of a real")
      }
    }
    // a random real. r: 1 and its first digits, or 2, whether the initial value is
    // complete, the initial value, the first digits of the inner real and its exponent,
    // and possibly the first digits of the entire value
    else if (op == "name") {
      pure val X = interval(st, x)
      pure def near(v: Val): Iv = {
        pure val e = eadd(shl(abs(v), -16), norm(1, -1070))
        { lo: esub(v, e), hi: eadd(v, e) }
      }
      if (r[0] == 1) check(isFin(val3(r, 1)) and ivok(ivmeet(X, near(val3(r, 1)))), st, "text of a random real")
      else if (r[0] != 2 or not(isFin(val3(r, 5)))) check(false, st, "text of a random real")
      // not a double
      else if (not(isFin(val3(r, 2)) and isFin(val3(r, 10)))) ok(st)
      else {
        pure val initial = if (r[1] == 1) ivpoint(val3(r, 2)) else near(val3(r, 2))
        pure val inner = val3(r, 5)
        // the inner real is a fraction of what has been cut off
        pure val Y = ivadd(initial, { lo: ZERO, hi: shl(fromInt(1), r[8]) })
        check(vcmp(ZERO, inner) <= 0 and vcmp(inner, fromInt(1)) <= 0 and ivok(ivmeet(X, Y)) and (r[9] == 0 or ivok(ivmeet(X, near(val3(r, 10))))), st, "text of a random real")
      }
    }
    else if (op == "cmpreal") check(relationsFit(order(st, x, st.slots.get(a[1])), r), st, "order of reals")
    // r: the argument, then the relations
    else if (op == "cmpint" or op == "cmpmpz")
      check(relationsFit(order(st, x, mkRat(r[0], 1)), r.slice(1, r.length())), st, "order with integers")
    else if (op == "cmpmpq")
      check(relationsFit(order(st, x, mkRat(r[0], r[1])), r.slice(2, r.length())), st, "order with rationals")
    else if (op == "cmparf")
      check(relationsFit(orderVal(st, x, val3(r, 0)), r.slice(3, r.length())), st, "order with floating point numbers")
    // r: end points of the ball, result
    else if (op == "cmparb") {
      pure val l = orderVal(st, x, val3(r, 0))
      pure val h = orderVal(st, x, val3(r, 3))
      if (val3(r, 0) == NAN or val3(r, 3) == NAN) check(r[6] == 0, st, "comparison with ball")
      else if (l == 2 or h == 2) ok(st)
      else check(r[6] == (if (l < 0) -1 else if (h > 0) 1 else 0), st, "comparison with ball")
    }
    else if (op == "double") {
      if (x.k == "rat") check(val3(r, 0) == ratDouble(ratOf(x)), st, "closest double")
      else {
        pure val X = interval(st, x)
        pure val dl = toDouble(X.lo)
        check(dl != toDouble(X.hi) or dl == val3(r, 0), st, "closest double")
      }
    }
    else if (op == "bool") check(r[0] == b2i(not(x.k == "rat" and x.n == 0)), st, "truth value")
    else if (op == "asrat") check(r == (if (x.k == "rat") [1, x.n, x.d] else [0, 0, 0]), st, "rational value")
    // r: x < y, y < x
    else if (op == "deglex") {
      pure val y = st.slots.get(a[1])
      pure val dx = degree(x)
      pure val dy = degree(y)
      if (x == y) check(r == [0, 0], st, "monomial order is not strict")
      else if (x.k == "rat" and y.k == "rat") ok(st)
      else if (r[0] + r[1] != 1) check(false, st, "monomial order is not total")
      else if (dx != dy) check(r[0] == b2i(dx < dy), st, "monomial order ignores the degree")
      else {
        // the differing atoms: the smallest of them decides
        pure val diff = firstDifference(st, x, y)
        if (dx == 1) {
          pure val i = x.mono.keys().fold(0, (_m, k) => k)
          pure val j = y.mono.keys().fold(0, (_m, k) => k)
          pure val pair = if (r[0] == 1) (i, j) else (j, i)
          if (lt(st, pair._2, pair._1)) check(false, st, "monomial order is not antisymmetric")
          else {
            // transitive closure
            pure val below = Set(pair._1).union(st.less.filter(q => q._2 == pair._1).map(q => q._1))
            pure val above = Set(pair._2).union(st.less.filter(q => q._1 == pair._2).map(q => q._2))
            pure val more = below.map(u => above.map(w => (u, w))).flatten()
            check(more.forall(q => q._1 != q._2 and not(st.less.contains((q._2, q._1)))), { ...st, less: st.less.union(more) }, "monomial order is not transitive")
          }
        }
        else {
          pure val least = diff.filter(i => diff.forall(j => i == j or lt(st, i, j)))
          if (least.size() != 1) ok(st)
          else {
            pure val i = least.fold(0, (_m, k) => k)
            check(r[0] == b2i(expo(x, i) > expo(y, i)), st, "monomial order is not lexicographic")
          }
        }
      }
    }
    // a new process: nothing is alive anymore but random reals do not change
    else if (op == "restart") ok({ ...st, slots: start.slots, less: Set() })
    // creating and dropping unrelated reals must not have any effect
    else if (op == "churn") ok(st)
    // there are no reals in an empty interval and close to infinity
    else if (op == "refuse") check(r == [-1], st, "empty interval")
    else check(false, st, "unknown event")
  }

  // --- when is a command meaningful ----------------------------------------------------
  pure def legal(st: St, op: str, a: List[int]): bool =
    if (Set("rat", "rnd", "con", "dbl", "fresh", "churn", "refuse", "family").contains(op)) true
    else if (op == "refused") {
      pure val x = st.slots.get(a[0])
      pure val y = st.slots.get(a[1])
      and { x.k != "none", y.k != "none", not(isOne(x)), not(isOne(y)), x.k == "rat" or y.k == "rat",
        if (a[2] == 0) y.k == "rat" and x != y else x.k != y.k }
    }
    else if (op == "name") st.slots.get(a[0]).k == "mono" and degree(st.slots.get(a[0])) == 1
    else if (op == "mul") mulOk(st.slots.get(a[1]), st.slots.get(a[2])) and degree(st.slots.get(a[1])) + degree(st.slots.get(a[2])) <= 136
    else if (op == "pow") st.slots.get(a[1]).k == "mono" and a[2] >= 1 and degree(st.slots.get(a[1])) * a[2] <= 128
    else if (op == "div") divOk(st.slots.get(a[1]), st.slots.get(a[2]))
    else if (Set("copy", "cmpreal", "deglex").contains(op)) st.slots.get(a[0]).k != "none" and st.slots.get(a[1]).k != "none"
    else st.slots.get(a[0]).k != "none"
}

// Chooses commands; the reports are left to the implementation.
module realGen {
  import dyadic.* from "./dyadic"
  import reals.*

  var st: St
  var op: str
  var args: List[int]
  const MIX: List[Set[str]]

  // End points of intervals. Bounds with different end points get different seeds.
  pure val ENDS = [
    norm(-7, 73), norm(-1000, 0), norm(-5, 0), norm(-4, 0), norm(-1, 0), norm(-1025, -11), norm(-1, -1), norm(-1, -60), norm(-1, -200), ZERO, norm(1, -300),
    norm(3, -201), norm(1, -60), norm(3, -60), norm(1, -3), norm(1023, -10), norm(1, 0), norm(1025, -10), norm(3, 0), norm(4, 0), norm(5, 0), norm(7, 0), norm(8, 0),
    norm(2^52 + 1, 1), norm(2^53 + 1, 0), norm(2^53 + 2, 0), norm(2^64 + 1, -11), norm(2^64 + 2, -11), norm(2^64 + 3, -11), norm(1, 73), norm(7, 70),
    norm(1, -1500), norm(1025, -1510), norm(1, -1074), norm(3, -1074), norm(1, 1023), norm(1025, 1020), norm(1, 1500), norm(1025, 1490), norm(-1, 1500), norm(-1, -1073)
  ]
  // the bounds number i, with a seed that depends on k
  pure def CON(i: int, n: int, k: int): List[int] = {
    pure val L = ENDS.length()
    pure val a = i % L
    pure val near = mini(mini(a, L - 2) + 1 + n % 2, L - 1)
    pure val b = if (n % 3 == 0) (i + n) % L else near
    pure val x = ENDS[if (vcmp(ENDS[a], ENDS[b]) < 0) a else b]
    pure val y = ENDS[if (vcmp(ENDS[a], ENDS[b]) < 0) b else a]
    if (x == y) [500 + k, -1, 0, 0, 0] else [10000 + (a * L + b) * 64 + k, x.m, x.e, y.m, y.e]
  }
  pure val DBL = [
    [600, 1, 0], [601, 0, 0], [602, 2^53 - 1, -53], [603, -3, -1], [604, 1, -1074], [605, 2^52 + 1, 900], [606, -1, 20], [607, 1, -1022], [608, 5404319552844595, -54],
    [609, 2^53 - 1, 971], [610, 1 - 2^53, 971], [611, -1, -1074], [612, 2^53 - 2, 971], [613, 2^52 - 1, -1074]
  ]
  pure val PRECS = [0, 1, 2, 3, 5, 10, 20, 31, 32, 33, 52, 53, 54, 55, 62, 63, 64, 65, 66, 100, 127, 128, 129, 200, 256, 511, 1100]

  // all the products of two of seven reals, and longer ones in different orders
  pure def words(i: int, num: int): List[int] = {
    pure val b = i % 12
    pure val pairs = range(0, 49).foldl([], (l, k) => l.append(1 + b + k % 7 + 25 * (1 + b + k / 7)))
    pure def pick(k: int): int = 1 + b + (num / 3^k) % 7
    pure val longer = range(0, 10).foldl(pairs, (l, k) => l.concat([
      pick(3 * k) + 25 * pick(3 * k + 1) + 625 * pick(3 * k + 2), pick(3 * k + 1) + 25 * pick(3 * k + 2) + 625 * pick(3 * k),
      pick(k) + 25 * pick(k + 1) + 625 * pick(k + 2) + 15625 * pick(k + 3), pick(k + 3) + 25 * pick(k + 1) + 625 * pick(k) + 15625 * pick(k + 2)
    ]))
    // powers of one real times another one; the same words are multiplied in different orders
    pure val u = 1 + b + num % 3
    pure val v = 1 + b + (num / 3) % 7
    pure val powers = range(0, 28).foldl(longer, (l, k) => {
      pure val kind = (k * 5 + num / 21) % 7
      l.append(
        if (kind == 0) u + 25 * u + 625 * v else if (kind == 1) v + 25 * u + 625 * u else if (kind == 2) v + 25 * u + 625 * u + 15625 * u
        else if (kind == 3) u + 25 * u + 625 * u + 15625 * v else if (kind == 4) v + 25 * v + 625 * u + 15625 * u else if (kind == 5) u + 25 * v + 625 * v + 15625 * u
        else v + 25 * u + 625 * u + 15625 * u + 390625 * u)
    })
    // the hashes of high powers collide
    range(0, 20).foldl(powers, (l, k) => {
      pure val e = DIGITS * (64 + (num / 7^k) % 3)
      pure val w = 1 + b + (num / 5^k) % 7
      l.append(e + u + 25 * (if (k % 4 == 3) w else v) + (if (k % 5 == 4) 625 * w else if (k % 7 == 6) 625 * u else 0))
    })
  }

  action perform(o: str, a: List[int]): bool = {
    all { op' = o, args' = a, st' = if (STRUCTURAL.contains(o)) shape(st, o, a) else st }
  }

  action choose(o: str, s: int, t: int, u: int): bool = {
    nondet f = oneOf(0.to(11))
    nondet i = oneOf(0.to(40))
    nondet small = oneOf((-12).to(12))
    nondet num = oneOf(0.to(2^90))
    nondet len = oneOf(0.to(90))
    nondet den = oneOf(1.to(2^40))
    nondet dlen = oneOf(1.to(40))
    nondet p = oneOf(0.to(150))
    nondet g = oneOf(0.to(9))
    val prec = if (f < 8) PRECS[(p + i) % PRECS.length()] else if (f == 11 and g == 0) -3 else p
    val c = CON(i, p, if (f < 5) 0 else num % 64)
    val d0_ = DBL[i % DBL.length()]
    val d = if (f < 5) d0_ else [2^31 + (d0_[0] - 600) * 256 + num % 256, d0_[1], d0_[2]]
    val rseed = if (f < 9) (i % 12) + 1 else if (f == 9) 2^32 - 1 - (i % 12) else 1000 + i
    // rationals close to 1, to integers, to each other; long ones; small ones
    val n0 = if (f < 3) small else if (f < 5) num % 2^(len + 1) else if (f < 7) -(num % 2^(len + 1)) else if (f < 9) 2^len + small else 2^63 - 1 - absi(small)
    val d0 = if (f == 0 or f == 8) 1 else if (f < 4) 1 + absi(small) else if (f < 7) 1 + den % 2^dlen else 2^dlen - 1
    // high powers; an atom, to approximate it well
    val big = SLOTS.fold(s, (m, k) => if (degree(st.slots.get(k)) > degree(st.slots.get(m))) k else m)
    val atom = SLOTS.fold(s, (m, k) => if (degree(st.slots.get((s + k) % 10)) == 1) (s + k) % 10 else m)
    // a number that is equal to some floating point number
    val dyadic_ = SLOTS.fold(s, (m, k) => if (st.slots.get((s + k) % 10).k == "rat" and 2^40 % st.slots.get((s + k) % 10).d == 0) (s + k) % 10 else m)
    val a0 =
      if (o == "rat") (if (f == 10) [s, if (num % 3 == 0) n0 else small * 2^(len * 15) + num, if (num % 3 == 1) 1 + num % 9 else 2^(dlen * 30) + small * 2^5 + 1] else [s, n0, d0])
      else if (o == "rnd") [s, rseed]
      else if (o == "con") [s, c[0], c[1], c[2], c[3], c[4]]
      else if (o == "dbl") [s, d[0], d[1], d[2]]
      else if (o == "fresh") (if (f < 4) [s, 0] else if (f < 9) [s, 1].concat(c.slice(1, 5)) else [s, 2, d[1], d[2]])
      else if (o == "refuse") [g % 4].concat(if (f < 3) [c[1], c[2], c[1], c[2]] else c.slice(1, 5))
      else if (o == "refused") [s, if (f < 6) t else big, i % 2]
      else if (o == "family") words(i, num)
      else if (o == "name") [atom]
      else if (o == "text") [if (f < 6) s else big]
      else if (o == "drop" or o == "same" or o == "double" or o == "bool" or o == "asrat") [s]
      else if (o == "copy" or o == "cmpreal" or o == "deglex") [s, t]
      else if (o == "mul" and f < 2) [s, t, t]
      else if (o == "pow") [s, if (f < 6) atom else t, if (f < 9) 2^(p % 8) else 1 + p % 40]
      else if ((o == "mul" or o == "div") and f < 5) [s, big, u]
      else if (o == "mul" or o == "div") [s, t, u]
      else if (o == "arf" and g < 2) [atom, 300 + (if (g == 0) 2 * p else p * p / 4)]
      else if ((o == "arf" or o == "arb") and g < 4) [big, prec]
      else if (o == "arf" or o == "arb") [s, prec]
      // slot, precision, how the initial ball is chosen
      else if (o == "refine") [s, prec, g, p]
      // slot, type of the integer, the integer relative to the floor (0) or absolute (1)
      else if (o == "cmpint") [s, g % 8, i % 2, n0]
      else if (o == "cmpmpz") [s, i % 2, n0]
      // slot, precision of a close rational, offset
      else if (o == "cmpmpq") [s, if (f < 6) 1 else 0, if (f < 2) 200 + 2 * p else if (f < 6) prec else n0, if (f < 6) small else d0]
      else if (o == "cmparf") [s, if (f < 9) 1 else 0, if (f < 2) 200 + 2 * p else if (f < 9) prec else n0, if (f < 9) small else small]
      else if (o == "cmparb") [if (f > 8) dyadic_ else s, if (f > 8) 10 + (if (g < 7) g % 2 else g - 5) else g, prec, small]
      else [i]
    val fallback = [s, rseed]
    if (legal(st, o, a0)) perform(o, a0) else if (g < 3) perform("rat", [s, n0, d0]) else if (g < 4) perform("con", [s, c[0], c[1], c[2], c[3], c[4]]) else if (g < 5) perform("dbl", [s, d[0], d[1], d[2]]) else perform("rnd", fallback)
  }

  action init = all { st' = start, op' = "reset", args' = [] }
  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet o = oneOf(MIX[fam])
    nondet s = oneOf(SLOTS)
    nondet t = oneOf(SLOTS)
    nondet u = oneOf(SLOTS)
    choose(o, s, t, u)
  }

  // --- properties of the specification itself -------------------------------------------
  // Products are in normal form: equality of reals is equality of descriptions.
  val normalForm = SLOTS.forall(s => {
    val x = st.slots.get(s)
    and {
      x.k == "mono" implies (x.mono.keys().size() > 0 and x.mono.keys().forall(a => x.mono.get(a) > 0)),
      x.k == "rat" implies (x.d > 0 and gcd(x.n, x.d) == 1)
    }
  })
  // Multiplication is commutative and associative, division undoes it.
  val algebra = SLOTS.forall(s => SLOTS.forall(t => {
    val x = st.slots.get(s)
    val y = st.slots.get(t)
    mulOk(x, y) implies and { mul(x, y) == mul(y, x), y.k == "mono" and x.k == "mono" implies (quo(mul(x, y), y) == x and quo(y, mul(x, y)).k == "none") }
  }))
  val sane = normalForm and algebra
}

module realsAll {
  import realGen(MIX = [
    Set("rat", "rnd", "con", "dbl", "fresh"), Set("rat", "rnd"), Set("copy", "drop", "same"), Set("mul", "mul", "div"),
    Set("arf", "arb", "refine", "double"), Set("arf"), Set("cmpreal"), Set("cmpint", "cmpmpz", "cmpmpq", "cmparf", "cmparb"), Set("deglex", "bool", "asrat"), Set("text", "name", "refused", "family")
  ]).* from "./reals"
}

// One generator for each property.
module realsApprox {
  import realGen(MIX = [
    Set("rat", "rnd", "con", "dbl"), Set("rat", "mul"), Set("mul", "pow", "churn", "copy"),
    Set("arf", "arb", "refine"), Set("arf", "arb", "refine"), Set("arf", "arb", "refine")
  ]).* from "./reals"
}
module realsOrder {
  import realGen(MIX = [
    Set("rat", "rnd", "con", "dbl"), Set("rat", "con"), Set("mul", "copy"), Set("arf", "refine"),
    Set("cmpreal"), Set("cmpreal", "cmpmpq"), Set("cmpint", "cmpmpz", "cmpmpq"), Set("cmparf", "cmparb"), Set("cmparb", "cmpmpq", "bool", "asrat")
  ]).* from "./reals"
}
module realsIdentity {
  import realGen(MIX = [
    Set("rat", "rnd", "con", "dbl"), Set("rat", "rnd"), Set("rnd", "fresh"), Set("mul", "div"), Set("mul", "pow"), Set("mul"), Set("copy", "drop"), Set("drop", "same", "churn", "family"), Set("arf", "double")
  ]).* from "./reals"
}
module realsRandom {
  import realGen(MIX = [
    Set("con", "dbl"), Set("rnd", "con", "dbl"), Set("drop", "fresh"), Set("fresh", "refuse"), Set("arf"), Set("arf", "double"), Set("double", "same", "churn")
  ]).* from "./reals"
}
module realsProduct {
  import realGen(MIX = [
    Set("rnd"), Set("rnd", "con"), Set("mul"), Set("mul", "pow"), Set("mul", "div"), Set("div"), Set("copy", "drop", "churn"), Set("same", "arf"), Set("rat", "arf", "refused"), Set("refused", "family", "rat")
  ]).* from "./reals"
}
module realsDeglex {
  import realGen(MIX = [
    Set("rnd", "con"), Set("rnd", "rat"), Set("mul", "pow"), Set("mul", "div"), Set("deglex"), Set("deglex"), Set("deglex"), Set("drop")
  ]).* from "./reals"
}
module realsText {
  import realGen(MIX = [
    Set("rnd", "con", "dbl", "rat"), Set("rnd", "con"), Set("mul"), Set("mul", "pow"), Set("div", "copy"), Set("text"), Set("text"), Set("text", "name"), Set("name", "arf")
  ]).* from "./reals"
}
