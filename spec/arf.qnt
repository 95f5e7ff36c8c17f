// Arf: a register machine whose registers hold arbitrary precision floating
// point numbers. `exec` is the whole semantics: for a command and the current
// registers it gives the new registers and everything the command reports.
//
// `arfGen` lets the simulator choose commands; the traces it writes are
// replayed against the real class, comparing all registers and all reports
// after every command.
module arf {
  import dyadic.* from "./dyadic"

  type Regs = int -> Val
  // A command. Unused fields are zero/empty.
  //   d destination; a, b, c, x operands; o1, o2, o3 operators;
  //   (p, r) the outer precision and rounding mode, (p1, r1) an inner one;
  //   i, j integers; v a literal
  type Cmd = {
    op: str, d: int, a: int, b: int, c: int, x: int,
    o1: str, o2: str, o3: str, p: int, r: str, p1: int, r1: str,
    i: int, j: int, v: Val
  }
  type Outcome = { regs: Regs, out: List[Val] }

  pure val LONG_MIN = -(2^63)
  pure val LONG_MAX = 2^63 - 1
  pure val INT_MIN = -(2^31)
  pure val INT_MAX = 2^31 - 1

  pure def bool2(b: bool): Val = fromInt(b2i(b))

  // <, <=, ==, !=, >, >= and the same with the sides exchanged
  pure def relations(c: int): List[Val] =
    [bool2(c < 0), bool2(c <= 0), bool2(c == 0), bool2(c != 0), bool2(c > 0), bool2(c >= 0)]

  pure def write(regs: Regs, d: int, v: Val): Outcome = { regs: regs.set(d, v), out: [] }
  pure def see(regs: Regs, out: List[Val]): Outcome = { regs: regs, out: out }

  pure def exec(regs: Regs, k: Cmd): Outcome = {
    pure val A = regs.get(k.a)
    pure val B = regs.get(k.b)
    pure val C = regs.get(k.c)
    pure val X = regs.get(k.x)
    pure val D = regs.get(k.d)
    pure val I = fromInt(k.i)
    pure val J = fromInt(k.j)
    match_op(regs, k, A, B, C, X, D, I, J)
  }

  pure def match_op(regs: Regs, k: Cmd, A: Val, B: Val, C: Val, X: Val, D: Val, I: Val, J: Val): Outcome =
    // --- construction and assignment from literals
    if (k.op == "zero") write(regs, k.d, ZERO)
    else if (k.op == "int" or k.op == "long" or k.op == "setint" or k.op == "setlong") write(regs, k.d, I)
    else if (k.op == "double" or k.op == "setdouble") write(regs, k.d, k.v)
    else if (k.op == "mpz" or k.op == "str") write(regs, k.d, shl(I, k.j))
    // --- copies
    else if (k.op == "copy" or k.op == "assign") write(regs, k.d, A)
    else if (k.op == "selfassign" or k.op == "selfmove") see(regs, [])
    // the source of a move may hold anything; it is overwritten right away
    else if (k.op == "move" or k.op == "moveassign")
      { regs: regs.set(k.d, A).set(k.a, I), out: [] }
    else if (k.op == "swap" or k.op == "stdswap") { regs: regs.set(k.d, A).set(k.a, D), out: [] }
    // --- unary
    else if (k.op == "neg" or k.op == "negexpr") write(regs, k.d, neg(A))
    else if (k.op == "abs") write(regs, k.d, abs(A))
    else if (k.op == "shl") write(regs, k.d, shl(D, k.i))
    else if (k.op == "shr") write(regs, k.d, shl(D, -k.i))
    else if (k.op == "shlb") write(regs, k.d, shl(A, k.i))
    else if (k.op == "shrb") write(regs, k.d, shl(A, -k.i))
    // --- expressions
    else if (k.op == "bin" or k.op == "bin2" or k.op == "binrp" or k.op == "binctor" or k.op == "binmove" or k.op == "binconst" or k.op == "pybin")
      write(regs, k.d, fop(k.o1, A, B, k.p, k.r))
    else if (k.op == "inplace" or k.op == "inplace2")
      write(regs, k.d, fop(k.o1, D, B, k.p, k.r))
    // x op= (b op c)(p)(r): both operations are performed with (p)(r)
    else if (k.op == "inplaceexpr")
      write(regs, k.d, fop(k.o1, D, fop(k.o2, B, C, k.p, k.r), k.p, k.r))
    else if (k.op == "inplaceneg")
      write(regs, k.d, fop(k.o1, D, neg(B), k.p, k.r))
    else if (k.op == "left" or k.op == "pyleft")
      write(regs, k.d, fop(k.o2, fop(k.o1, A, B, k.p, k.r), C, k.p, k.r))
    else if (k.op == "right")
      write(regs, k.d, fop(k.o1, A, fop(k.o2, B, C, k.p, k.r), k.p, k.r))
    // an inner binding takes precedence over the outer one (the library only
    // supports this in right operands; elsewhere it does not compile)
    else if (k.op == "rightin")
      write(regs, k.d, fop(k.o1, A, fop(k.o2, B, C, k.p1, k.r1), k.p, k.r))
    else if (k.op == "rebind")
      write(regs, k.d, fop(k.o1, A, B, k.p1, k.r1))
    else if (k.op == "both")
      write(regs, k.d, fop(k.o3, fop(k.o1, A, B, k.p, k.r), fop(k.o2, C, X, k.p, k.r), k.p, k.r))
    else if (k.op == "negbin" or k.op == "pyneg")
      write(regs, k.d, neg(fop(k.o1, A, B, k.p, k.r)))
    else if (k.op == "binneg")
      write(regs, k.d, fop(k.o1, A, neg(B), k.p, k.r))
    // mixed with integers and doubles
    else if (k.op == "binint" or k.op == "binlong")
      write(regs, k.d, fop(k.o1, A, I, k.p, k.r))
    else if (k.op == "intbin" or k.op == "longbin")
      write(regs, k.d, fop(k.o1, I, A, k.p, k.r))
    else if (k.op == "bindouble")
      write(regs, k.d, fop(k.o1, A, k.v, k.p, k.r))
    else if (k.op == "doublebin")
      write(regs, k.d, fop(k.o1, k.v, A, k.p, k.r))
    // (a op i*b) op2 j
    else if (k.op == "weighted")
      write(regs, k.d, fop(k.o2, fop(k.o1, A, fmul(I, B, k.p, k.r), k.p, k.r), J, k.p, k.r))
    // --- observations
    else if (k.op == "floor") see(regs, [fromInt(vfloor(A))])
    else if (k.op == "ceil") see(regs, [fromInt(vceil(A))])
    else if (k.op == "parts") see(regs, [fromInt(A.m), fromInt(A.e)])
    else if (k.op == "logb") see(regs, [fromInt(ilog(A))])
    else if (k.op == "todouble") see(regs, [toDouble(A)])
    else if (k.op == "text") see(regs, [toDouble(A)].concat(if (isFin(A) and A.m != 0 and A.e < 0) [fromInt(1), fromInt(A.m), fromInt(A.e)] else [ZERO]))
    else if (k.op == "cmp") see(regs, relations(vcmp(A, B)).concat(relations(-vcmp(A, B))))
    else if (k.op == "cmplong" or k.op == "cmpint") see(regs, relations(vcmp(A, I)).concat(relations(-vcmp(A, I))))
    // equal values have equal hashes
    else if (k.op == "hash") see(regs, [bool2(true)])
    else see(regs, [NAN])

  // --- which commands are well-defined ---------------------------------------
  pure def tame(x: Val): bool = x.k != "fin" or (absi(x.e) <= 3000 and bits(x.m) <= 700)
  pure def noNan(x: Val): bool = x.k != "nan"
  pure val ARITH = Set("bin", "bin2", "binrp", "binctor", "binmove", "binconst", "inplace", "inplace2", "inplaceexpr",
    "inplaceneg", "left", "right", "rightin", "rebind", "both", "negbin", "binneg",
    "binint", "binlong", "intbin", "longbin", "bindouble", "doublebin", "weighted", "pybin", "pyleft", "pyneg")
  // quotients cannot be computed exactly
  pure def exactOk(k: Cmd): bool =
    and {
      (k.p == EXACT or k.p1 == EXACT) implies (k.o1 != "/" and k.o2 != "/" and k.o3 != "/")
    }
  pure def isInt32(i: int): bool = i >= INT_MIN and i <= INT_MAX
  pure def isInt64(i: int): bool = i >= LONG_MIN and i <= LONG_MAX
  // 0 <= m*2^e is a double
  pure def isDouble(v: Val): bool =
    v.k == "fin" and (v.m == 0 or and { bits(v.m) <= 53, v.e >= -1074, ilog(v) <= 1023 }) or v.k == "pinf" or v.k == "ninf"

  pure def legal(regs: Regs, k: Cmd): bool = {
    pure val A = regs.get(k.a)
    pure val B = regs.get(k.b)
    if (ARITH.contains(k.op))
      and {
        exactOk(k), tame(A), tame(B), tame(regs.get(k.c)), tame(regs.get(k.x)), tame(regs.get(k.d)),
        Set("binint", "intbin", "weighted").contains(k.op) implies (isInt32(k.i) and isInt32(k.j)),
        Set("binlong", "longbin").contains(k.op) implies isInt64(k.i),
        Set("bindouble", "doublebin").contains(k.op) implies isDouble(k.v),
        k.op == "binmove" implies (k.a != k.b and k.d != k.a and k.d != k.b)
      }
    else if (Set("int", "setint", "cmpint").contains(k.op)) isInt32(k.i) and (k.op == "cmpint" implies noNan(A))
    else if (Set("long", "setlong", "shl", "shr", "shlb", "shrb", "cmplong").contains(k.op)) isInt64(k.i) and (k.op == "cmplong" implies noNan(A))
    else if (Set("double", "setdouble").contains(k.op)) isDouble(k.v)
    else if (Set("mpz", "str").contains(k.op)) isInt64(k.j)
    else if (Set("move", "moveassign").contains(k.op)) k.a != k.d and isInt64(k.i)
    else if (Set("floor", "ceil").contains(k.op)) isFin(A) and absi(A.e) < 4000
    else if (k.op == "parts") isFin(A)
    else if (k.op == "logb") isFin(A) and A.m != 0 and absi(A.e) < 2^62
    else if (Set("cmp", "hash").contains(k.op)) noNan(A) and noNan(B) and (k.op == "hash" implies A == B)
    else true
  }
}

// The generator: the simulator picks commands.
module arfGen {
  import dyadic.* from "./dyadic"
  import arf.*

  var regs: int -> Val
  var cmd: Cmd
  var out: List[Val]

  pure val REGS = 0.to(4)
  pure val OPS = Set("+", "-", "*", "/")
  pure val MODES = Set("NEAR", "DOWN", "UP", "FLOOR", "CEIL")
  pure val PRECS = Set(2, 3, 4, 5, 8, 24, 30, 53, 54, 63, 64, 65, 127, 128, 129, 200, 256, 1000, 4000, EXACT)
  pure val LITERALS = Set("zero", "int", "long", "setint", "setlong", "double", "setdouble", "mpz", "str", "mpz", "str")
  pure val MOVES = Set("copy", "assign", "selfassign", "selfmove", "move", "moveassign", "swap", "stdswap")
  pure val UNARY = Set("neg", "negexpr", "abs", "shl", "shr", "shlb", "shrb")
  pure val OBSERVE = Set("floor", "ceil", "parts", "logb", "todouble", "text", "cmp", "cmplong", "cmpint", "hash")
  // which family of commands to draw from; families listed more often are drawn more often
  const MIX: List[Set[str]]

  pure def power(x: int): int = if (x < 0) 0 else 2^x
  // An integer of the given flavour.
  pure def mkInt(f: int, big: int, s: int, small: int): int =
    if (f == 0) small
    else if (f == 1) power(s) + small
    else if (f == 2) small - power(s)
    else if (f == 3) big % power(s + 1)
    else if (f == 4) -(big % power(s + 1))
    else if (f == 5) LONG_MAX - absi(small)
    else if (f == 6) LONG_MIN + absi(small)
    else if (f == 7) INT_MAX + small
    else if (f == 8) INT_MIN + small
    else if (f == 9) (big % 256) * power(s)
    else if (f == 10) 2^53 + small
    else (2 * (big % 2^60) + 1) * (if (big % 3 == 0) -1 else 1)

  pure def fit(i: int, lo: int, hi: int): int = if (i < lo) lo + absi(i) % 1000 else if (i > hi) hi - i % 1000 else i

  action choose(op: str, d: int, a: int, b: int, c: int, x: int): bool = {
    nondet o1 = oneOf(OPS)
    nondet o2 = oneOf(OPS)
    nondet o3 = oneOf(OPS)
    nondet p0 = oneOf(PRECS)
    nondet wide = oneOf(2.to(300))
    nondet r = oneOf(MODES)
    nondet p1 = oneOf(PRECS)
    nondet r1 = oneOf(MODES)
    nondet f = oneOf(0.to(11))
    nondet g = oneOf(0.to(11))
    nondet big = oneOf(0.to(2^180))
    nondet s = oneOf(0.to(130))
    nondet small = oneOf((-9).to(9))
    nondet small2 = oneOf((-40).to(40))
    nondet s2 = oneOf(0.to(1100))
    nondet far = oneOf(0.to(20))
    val p = if (far % 5 == 0) wide else p0
    val i0 = mkInt(f, big, s, small)
    // comparisons with something close to the value of the register
    val near = if (regs.get(a).k == "fin" and absi(regs.get(a).e) < 200) vfloor(regs.get(a)) + (small % 2) else i0
    val i1 =
      if (Set("int", "setint", "binint", "intbin", "weighted").contains(op)) fit(i0, INT_MIN, INT_MAX)
      else if (op == "cmpint") fit(if (far % 2 == 0) near else i0, INT_MIN, INT_MAX)
      else if (op == "cmplong") fit(if (far % 2 == 0) near else i0, LONG_MIN, LONG_MAX)
      else if (Set("long", "setlong", "binlong", "longbin", "move", "moveassign").contains(op)) fit(i0, LONG_MIN, LONG_MAX)
      else if (Set("shl", "shr", "shlb", "shrb").contains(op)) (if (far == 0) fit(i0, LONG_MIN, LONG_MAX) else small2)
      else i0
    val j1 =
      if (op == "weighted") small2
      else if (far == 0) fit(mkInt(g, big, 62, small), LONG_MIN, LONG_MAX)
      else if (far == 1) (if (small < 0) -s2 else s2)
      else small2
    val dm = if (f <= 4) absi(i0) % 2^53 else if (f <= 7) 2^53 - 1 - absi(small) else big % 2^53
    val de = if (far <= 8) small2 else if (far <= 11) -1074 + absi(small2) else if (far <= 14) 971 - absi(small2) else s2 - 1074
    val dv = if (far == 15 and small == 0) (if (f < 6) PINF else NINF) else norm(if (g < 6) dm else -dm, de)
    val k0: Cmd = { op: op, d: d, a: a, b: b, c: c, x: x, o1: o1, o2: o2, o3: o3, p: p, r: r, p1: p1, r1: r1, i: i1, j: j1, v: if (isDouble(dv)) dv else fromInt(dm) }
    val fallback: Cmd = { ...k0, op: "mpz", j: small2 }
    // hashes are only compared when the values are the same: make it so
    val k1 = if (op == "hash" and noNan(regs.get(a)) and regs.get(a) != regs.get(b)) { ...k0, op: "copy" } else k0
    // do not let non-finite or huge values take over all registers
    val spoilt = REGS.filter(y => not(isFin(regs.get(y))) or not(tame(regs.get(y))))
    val k2 = if (spoilt.size() > 0 and far >= 4 and ARITH.contains(op)) { ...fallback, d: if (spoilt.contains(d)) d else spoilt.fold(0, (m, y) => maxi(m, y)) } else k1
    val k = if (legal(regs, k2)) k2 else fallback
    val o = exec(regs, k)
    all { regs' = o.regs, out' = o.out, cmd' = k }
  }

  action init = {
    nondet m0 = oneOf(0.to(2^70))
    nondet m1 = oneOf(0.to(2^70))
    nondet e0 = oneOf((-80).to(10))
    all {
      regs' = 0.to(4).mapBy(x => if (x == 0) norm(m0, e0) else if (x == 1) norm(-m1, e0 + 5) else ZERO),
      out' = [],
      cmd' = { op: "init", d: 0, a: 0, b: 0, c: 0, x: 0, o1: "", o2: "", o3: "", p: 0, r: "", p1: 0, r1: "", i: m0, j: e0, v: fromInt(-m1) }
    }
  }

  action step = {
    nondet fam = oneOf(MIX.indices())
    nondet op = oneOf(MIX[fam])
    nondet d = oneOf(REGS)
    nondet a = oneOf(REGS)
    nondet b = oneOf(REGS)
    nondet c = oneOf(REGS)
    nondet x = oneOf(REGS)
    choose(op, d, a, b, c, x)
  }

  // --- properties of the specification itself ---------------------------------
  // Registers are always in normal form, so that equality of values is equality of records.
  val normalised = REGS.forall(x => {
    val v = regs.get(x)
    if (v.k == "fin") (if (v.m == 0) v.e == 0 else v.m % 2 != 0) else v.m == 0 and v.e == 0
  })
  // The order is total and antisymmetric, and compatible with equality.
  val ordered = REGS.forall(x => REGS.forall(y => {
    val u = regs.get(x)
    val v = regs.get(y)
    (noNan(u) and noNan(v)) implies and { vcmp(u, v) == -vcmp(v, u), (vcmp(u, v) == 0) == (u == v) }
  }))
  // Rounding: the result is never further away than one unit in the last place
  // and directed modes are on the right side.
  val directed = and {
    cmd.op == "bin" and cmd.o1 == "+" and cmd.p != EXACT and cmd.d != cmd.a and cmd.d != cmd.b and isFin(regs.get(cmd.a)) and isFin(regs.get(cmd.b)) implies {
      val z = eadd(regs.get(cmd.a), regs.get(cmd.b))
      val r = regs.get(cmd.d)
      and {
        cmd.r == "FLOOR" implies vcmp(r, z) <= 0,
        cmd.r == "CEIL" implies vcmp(r, z) >= 0,
        cmd.r == "DOWN" implies vcmp(abs(r), abs(z)) <= 0,
        cmd.r == "UP" implies vcmp(abs(r), abs(z)) >= 0,
        bits(r.m) <= cmd.p,
        (z.m != 0) implies vcmp(abs(esub(r, z)), norm(1, ilog(z) + 1 - cmd.p)) < 0,
        (z.m != 0 and cmd.r == "NEAR") implies vcmp(abs(esub(r, z)), norm(1, ilog(z) - cmd.p)) <= 0
      }
    }
  }
  val sane = normalised and ordered and directed
}

module arfArith {
  import arf.*
  import arfGen(MIX = [ARITH, ARITH, ARITH, Set("mpz", "double"), Set("neg", "shl", "assign")]).* from "./arf"
}
module arfValues {
  import arfGen(MIX = [Set("zero", "int", "long", "setint", "setlong", "double", "setdouble", "mpz", "str"), Set("mpz", "str", "double"),
    Set("floor", "ceil", "parts", "logb", "todouble", "text"), Set("floor", "ceil", "parts", "logb", "todouble", "text"), Set("neg", "negexpr", "abs", "shl", "shr", "shlb", "shrb"),
    Set("bin")]).* from "./arf"
}
module arfOrder {
  import arfGen(MIX = [Set("int", "long", "double", "mpz", "str"), Set("cmp", "cmplong", "cmpint", "hash"), Set("cmp", "cmplong", "cmpint", "hash"),
    Set("copy", "assign", "neg", "shl", "shlb", "bin")]).* from "./arf"
}
module arfLife {
  import arfGen(MIX = [Set("copy", "assign", "selfassign", "selfmove", "move", "moveassign", "swap", "stdswap"), Set("int", "mpz", "double"),
    Set("bin", "binmove", "binctor", "binconst", "inplace", "inplaceexpr", "inplaceneg"), Set("hash", "cmp"), Set("shl", "shlb", "neg", "abs")]).* from "./arf"
}
