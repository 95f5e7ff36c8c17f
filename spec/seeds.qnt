// Seeds and random reals: seeds that are created without a value are different from
// all the seeds created before, in whatever way and in however many threads.
//
// The module `counter` is a model of the implementation: threads that draw seeds
// from a shared counter. Its invariants are decided by Apalache, for the counter
// that is incremented atomically and (as a sanity check) for one that is not.
// The module `seeds` validates what has been recorded from the implementation.
module seeds {
  import dyadic.* from "./dyadic"

  // an interval of integers: first element and length
  type Run = (int, int)
  // kind: 0 nothing, 1 created from a new seed, 2 created from a fixed seed
  type Slot = { kind: int, seed: int, v: (int, int, int) }
  type St = {
    // seeds that have been created so far
    issued: List[Run],
    x: int -> Slot,
    // values of the reals that have been created from new seeds
    values: Set[(int, int, int)],
    // values of the reals that have been created from fixed seeds
    fixed: int -> (int, int, int)
  }
  type Res = { st: St, err: str }

  pure val SLOTS = 0.to(5)
  pure val EMPTY: Slot = { kind: 0, seed: 0, v: (0, 0, 0) }
  pure val start: St = { issued: [], x: SLOTS.mapBy(_s => EMPTY), values: Set(), fixed: Map() }

  pure def disjoint(a: Run, b: Run): bool = a._1 + a._2 <= b._1 or b._1 + b._2 <= a._1
  pure def runs(r: List[int]): List[Run] = range(0, r.length() / 2).foldl([], (l, i) => l.append((r[2 * i], r[2 * i + 1])))
  pure def total(l: List[Run]): int = l.foldl(0, (n, x) => n + x._2)
  pure def isNew(issued: List[Run], l: List[Run]): bool =
    l.foldl((true, issued), (acc, x) => (acc._1 and acc._2.foldl(true, (b, y) => b and disjoint(x, y)), acc._2.append(x)))._1
  // merge adjacent intervals
  pure def merged(issued: List[Run], l: List[Run]): List[Run] = l.foldl(issued, (acc, x) =>
    if (acc.length() > 0 and acc[acc.length() - 1]._1 + acc[acc.length() - 1]._2 == x._1) acc.slice(0, acc.length() - 1).append((acc[acc.length() - 1]._1, acc[acc.length() - 1]._2 + x._2))
    else acc.append(x))

  pure def bit(mask: int, s: int): bool = (mask / 2^s) % 2 == 1
  // two reals are the same object if and only if they have the same value; what is known about their seeds?
  pure def identity(st: St, d: int, mask: int): bool = SLOTS.forall(s => {
    pure val x = st.x.get(d)
    pure val y = st.x.get(s)
    if (y.kind == 0) not(bit(mask, s))
    else if (s == d) bit(mask, s)
    else and {
      bit(mask, s) iff x.v == y.v,
      (x.kind == 1 and y.kind == 1) implies not(bit(mask, s)),
      (x.kind == 2 and y.kind == 2) implies (bit(mask, s) iff x.seed == y.seed)
    }
  })

  pure def drawn(st: St, n: int, r: List[int]): Res = {
    pure val l = runs(r)
    { st: { ...st, issued: merged(st.issued, l) }, err: if (total(l) != n) "number of seeds" else if (isNew(st.issued, l)) "" else "seed is not new" }
  }

  pure def exec(st: St, op: str, a: List[int], r: List[int]): Res =
    // a[0] seeds, one after the other
    if (op == "seeds") drawn(st, a[0], r)
    // a[0] threads create a[1] seeds each
    else if (op == "race") drawn(st, a[0] * a[1], r)
    // an explicit seed, copies of it
    else if (op == "value") { st: st, err: if (r == [a[0], a[0], a[0]]) "" else "value of seed" }
    // a copy of a new seed
    else if (op == "copied") {
      pure val res = drawn(st, 1, [r[0], 1])
      if (res.err == "" and (r[1] != r[0] or r[2] != r[0])) { st: res.st, err: "value of seed" } else res
    }
    // a real is created from a new seed
    else if (op == "fresh") {
      pure val v = (r[1], r[2], r[3])
      pure val next_ = { ...st, x: st.x.set(a[0], { kind: 1, seed: 0, v: v }), values: st.values.union(Set(v)) }
      { st: next_, err: if (st.values.contains(v)) "random real is not new" else if (identity(next_, a[0], r[0])) "" else "identity" }
    }
    // a real is created from a fixed seed
    else if (op == "fixed") {
      pure val v = (r[1], r[2], r[3])
      pure val next_ = { ...st, x: st.x.set(a[0], { kind: 2, seed: a[1], v: v }), fixed: st.fixed.put(a[1], v) }
      { st: next_, err:
        if (st.fixed.keys().contains(a[1]) and st.fixed.get(a[1]) != v) "random real is not reproducible"
        else if (st.fixed.keys().exists(s => s != a[1] and st.fixed.get(s) == v)) "different seeds produce the same digits"
        else if (identity(next_, a[0], r[0])) "" else "identity" }
    }
    else if (op == "drop") { st: { ...st, x: st.x.set(a[0], EMPTY) }, err: "" }
    // a[0] threads create a[1] reals each: different objects, different values, strictly ordered
    else if (op == "racereals") { st: st, err: if (r[0] != a[0] * a[1]) "random real is not new" else if (r[1] != r[0]) "random real is not new" else if (r[2] == 1) "" else "monomial order is not strict" }
    // a[0] threads request the same a[1] reals: the same objects
    else if (op == "racefixed") { st: st, err: if (r == [a[1], 1]) "" else "identity" }
    else { st: st, err: "unknown event" }
}

module seedGen {
  import seeds.*

  var st: St
  var op: str
  var args: List[int]
  const MIX: List[Set[str]]
  // how many seeds do threads draw at most?
  const MANY: int

  pure val COUNTS = [1, 2, 3, 17, 1000, 65537, 1000003, 4194305]
  pure val EXPLICIT = [0, 1, 2, 3, 1336, 1337, 1338, 1339, 1340, 1400, 2000, 65535, 65536, 65537, 2147483647, 2147483648, 4294967294, 4294967295]

  pure def shape(s: St, o: str, a: List[int]): St =
    if (o == "fresh") { ...s, x: s.x.set(a[0], { kind: 1, seed: 0, v: (0, 0, 0) }) }
    else if (o == "fixed") { ...s, x: s.x.set(a[0], { kind: 2, seed: a[1], v: (0, 0, 0) }) }
    else if (o == "drop") { ...s, x: s.x.set(a[0], EMPTY) }
    else s
  action perform(o: str, a: List[int]): bool = all { op' = o, args' = a, st' = shape(st, o, a) }
  action init = all { st' = start, op' = "reset", args' = [] }
  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet o = oneOf(MIX[fam])
    nondet s = oneOf(SLOTS)
    nondet n = oneOf(0.to(2^40))
    nondet threads = oneOf(2.to(8))
    val k = n / 64
    perform(o,
      if (o == "seeds") [COUNTS[k % COUNTS.length()]]
      else if (o == "race") [threads, if (n % 3 == 0) 1 + k % 50 else 1 + k % MANY]
      else if (o == "value") [if (n % 2 == 0) EXPLICIT[k % EXPLICIT.length()] else k % 2^32]
      else if (o == "fresh") [s, n % 5, k % 100]
      else if (o == "fixed") [s, if (n % 3 > 0) EXPLICIT[k % EXPLICIT.length()] else k % 2^32]
      else if (o == "racereals") [threads, 1 + k % 24, n % 4]
      else if (o == "racefixed") [threads, 1 + k % 200]
      else if (o == "copied") []
      else [s])
  }
  val sane = true
}

module seedsAll {
  import seedGen(MIX = [Set("seeds"), Set("race"), Set("race"), Set("value", "copied"), Set("fresh"), Set("fresh"), Set("fixed"), Set("fixed"), Set("racereals"), Set("racereals"), Set("racefixed"), Set("drop")], MANY = 100000).* from "./seeds"
}
// everything that involves threads
module seedsRaces {
  import seedGen(MIX = [Set("race"), Set("racereals"), Set("racefixed"), Set("fresh"), Set("fixed"), Set("drop")], MANY = 50).* from "./seeds"
}

// Threads that create seeds from a shared counter, for any initial value of the
// counter. With ATOMIC, reading and incrementing it is a single step.
module counter {
  const ATOMIC: bool
  pure val THREADS = 0.to(2)

  var next_: int
  // whether a thread has read the counter, and what it has read
  var reading: int -> bool
  var local: int -> int
  // all seeds that have been returned, most recent first, by which thread
  var seeds_: List[int]
  var last: int -> int
  var first: int

  action init = {
    nondet v = oneOf(Int)
    all { next_' = v, first' = v, reading' = THREADS.mapBy(_t => false), local' = THREADS.mapBy(_t => 0), seeds_' = [], last' = THREADS.mapBy(_t => v - 1) }
  }
  action draw(t: int): bool = all {
    ATOMIC,
    next_' = next_ + 1, seeds_' = seeds_.append(next_), last' = last.set(t, next_),
    reading' = reading, local' = local, first' = first
  }
  action read(t: int): bool = all {
    not(ATOMIC), not(reading.get(t)),
    reading' = reading.set(t, true), local' = local.set(t, next_),
    next_' = next_, seeds_' = seeds_, last' = last, first' = first
  }
  action write(t: int): bool = all {
    not(ATOMIC), reading.get(t),
    next_' = local.get(t) + 1, seeds_' = seeds_.append(local.get(t)), last' = last.set(t, local.get(t)),
    reading' = reading.set(t, false), local' = local, first' = first
  }
  action step = {
    nondet t = oneOf(THREADS)
    any { draw(t), read(t), write(t) }
  }

  val unique_ = seeds_.indices().forall(i => seeds_.indices().forall(j => seeds_[i] == seeds_[j] implies i == j))
  // Seeds of a thread increase, and all seeds are below the counter
  val growing = and {
    seeds_.indices().forall(i => first <= seeds_[i] and seeds_[i] < next_),
    THREADS.forall(t => last.get(t) < next_),
    next_ - first == seeds_.length()
  }
  val safe = unique_ and growing
}
module counterAtomic {
  import counter(ATOMIC = true).* from "./seeds"
}
module counterRacy {
  import counter(ATOMIC = false).* from "./seeds"
}
