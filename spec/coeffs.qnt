// Coefficients of elements: numbers in the integers, the rationals, or a real
// embedded number field. They are known exactly; their numerical value is
// enclosed by intervals.
module coeffs {
  import dyadic.* from "./dyadic"

  // A coefficient [d, a0, .., a(k-1)] is (a0 + a1*t + ...)/d with t^k = 2 in
  // lowest terms; k is the degree of the field.
  type Coeff = List[int]

  // bits of the numerical values
  pure val WORK = 3600
  // t with as many bits after the binary point, rounded down
  pure val ROOTS: List[int] = [0,
    7219371458686647381143889700019157813361064918551203620132578493012262310092025119582322610477592770531792413166260324523775009247727056517328960768891001001505694094071265201001873582569628519090131010101583186556051839930486544998628887486554194937534948456662578914852680870790272376023814494013649879737743795149287750379487882274541435874356196138402890462466121566350594538454757119232010928974492668044413395676212292940597028906233569411999951181569535206746434743816384096931800779350912565235550300398099993929020891427671025199373347697564122700118192917070334298196977099266741534873155071831176197970086895039038359951289172944781900373228580809006072204586662134359775586308395533181092991450368890939927245367834670822161342710535516337472685743385981259670722948304479074766480709914659679697526931828058152792198816201320183021817504506233088504619701798961411995689779578989698449253108181617363992024025976664273302441257828743613148813858817631040751122447199142141801189349601631296698914909365203389138852180017511747116499164348537848698234434751981741619521945,
    6431728778322885686752665496455688896994197088019503702930925415591668234488338957631600415488386067788708517460145693079762366864702539367433352730658899733842345984104907400920060214535411168780053490784538069149631872591614782710326371079063077834643847502333061035896682015801134646996857136977092961060397295462708771376121982123943759503857064588036146254251282337002758387631412360782734780798906396314463099766285952370386102592676785125291981119662568369581617341461725264891958168147731555157674173331660100102421643846859597804459798033322171930865335323437473642188742273749332723686267675704020420878302205635852530817700118249880479321017601781330433676763519890876163124968708870732143922723380753689726188546465717144109239414681584369609537079521932586532678866834699427194517566976562378945385020776094484621972749011581262437064011350688705137556964711273429146894059344962952790907553939227202275640234238228562056253137113364328228132323098627422838324327953784077971763334829714053652066179248881267001613296897107229068968670148579611955900552584562108352947007]
  pure val ROOTBITS = 3600

  pure def deg(f: int): int = f + 1

  // --- coefficients -----------------------------------------------------------------
  pure val C0: Coeff = [1, 0]
  pure val C1: Coeff = [1, 1]
  // the coefficient of t^i
  pure def at(c: Coeff, i: int): int = if (i + 1 < c.length()) c[i + 1] else 0
  // lowest terms; trailing zeros are dropped
  pure def cnorm(d: int, a0: int, a1: int, a2: int): Coeff = {
    pure val g0 = gcd(d, a0)
    pure val g1 = if (a1 == 0) g0 else gcd(g0, a1)
    pure val g2 = if (a2 == 0) g1 else gcd(g1, a2)
    pure val g = if (d < 0) -g2 else g2
    if (a2 != 0) [d / g, sdiv(a0, g), sdiv(a1, g), sdiv(a2, g)] else if (a1 != 0) [d / g, sdiv(a0, g), sdiv(a1, g)] else [d / g, sdiv(a0, g)]
  }
  // exact division with signs
  pure def sdiv(a: int, g: int): int = sgn(a) * sgn(g) * (absi(a) / absi(g))
  pure def crat(n: int, d: int): Coeff = cnorm(d, n, 0, 0)
  pure def czero(c: Coeff): bool = at(c, 0) == 0 and at(c, 1) == 0 and at(c, 2) == 0
  pure def cadd(x: Coeff, y: Coeff): Coeff =
    cnorm(x[0] * y[0], at(x, 0) * y[0] + at(y, 0) * x[0], at(x, 1) * y[0] + at(y, 1) * x[0], at(x, 2) * y[0] + at(y, 2) * x[0])
  pure def cneg(x: Coeff): Coeff = x.indices().fold(x, (l, i) => if (i == 0) l else l.replaceAt(i, -x[i]))
  pure def cmul(f: int, x: Coeff, y: Coeff): Coeff = {
    pure val p0 = at(x, 0) * at(y, 0)
    pure val p1 = at(x, 0) * at(y, 1) + at(x, 1) * at(y, 0)
    pure val p2 = at(x, 0) * at(y, 2) + at(x, 1) * at(y, 1) + at(x, 2) * at(y, 0)
    pure val p3 = at(x, 1) * at(y, 2) + at(x, 2) * at(y, 1)
    pure val p4 = at(x, 2) * at(y, 2)
    if (f <= 1) cnorm(x[0] * y[0], p0 + 2 * p2, p1, 0)
    else cnorm(x[0] * y[0], p0 + 2 * p3, p1 + 2 * p4, p2)
  }
  pure def cinv(f: int, x: Coeff): Coeff = {
    pure val a = at(x, 0)
    pure val b = at(x, 1)
    pure val c = at(x, 2)
    if (f <= 1) cnorm(a * a - 2 * b * b, a * x[0], -b * x[0], 0)
    else cnorm(a^3 + 2 * b^3 + 4 * c^3 - 6 * a * b * c, (a^2 - 2 * b * c) * x[0], (2 * c^2 - a * b) * x[0], (b^2 - a * c) * x[0])
  }
  pure def cisRat(x: Coeff): bool = at(x, 1) == 0 and at(x, 2) == 0
  // is it in the ring?
  pure def inRing(t: int, f: int, x: Coeff): bool =
    and { x.length() - 1 <= deg(f), t == 3 or cisRat(x), t == 1 implies x[0] == 1 }

  // --- numerical values ---
  pure def root(f: int): Iv = { lo: norm(ROOTS[f], -ROOTBITS), hi: norm(ROOTS[f] + 1, -ROOTBITS) }
  pure def ivint(x: Iv, n: int): Iv = ivmul(x, ivpoint(fromInt(n)))
  pure def ivdivint(x: Iv, d: int): Iv =
    { lo: if (x.lo.m == 0) ZERO else rnd(sgn(x.lo.m), absi(x.lo.m), d, x.lo.e, WORK, "FLOOR"), hi: if (x.hi.m == 0) ZERO else rnd(sgn(x.hi.m), absi(x.hi.m), d, x.hi.e, WORK, "CEIL") }
  pure def civ(f: int, c: Coeff): Iv =
    if (cisRat(c)) ivrat({ n: at(c, 0), d: c[0] }, WORK)
    else {
      pure val r = root(f)
      pure val lin = ivadd(ivpoint(fromInt(at(c, 0))), ivint(r, at(c, 1)))
      ivdivint(if (f == 1) lin else ivadd(lin, ivint(ivmul(r, r), at(c, 2))), c[0])
    }

  // --- reports and arguments ---
  pure def val3(l: List[int], i: int): Val =
    if (l[i] == 0) norm(l[i + 1], l[i + 2]) else if (l[i] == 1) PINF else if (l[i] == 2) NINF else NAN
  // limits of the machine integers in the order of the scalars, see elements
  pure val LIMITS = [(-(2^15), 2^15 - 1), (0, 2^16 - 1), (-(2^31), 2^31 - 1), (0, 2^32 - 1), (-(2^63), 2^63 - 1), (0, 2^64 - 1), (-(2^63), 2^63 - 1), (0, 2^64 - 1)]
  pure def clip(k: int, n: int): int = if (k < 8) maxi(LIMITS[k]._1, mini(LIMITS[k]._2, n)) else n
}
