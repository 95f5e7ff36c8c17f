"""Writes properties.jsonl and MANIFEST.json; run after editing: python3 -m vf.properties"""
import json

from .build import VERIF

L = "libexactreal/"
H = L + "exact-real/"
S = L + "src/"


def P(id, title, statement, over, quantifier, why, files, mechanism, observe, state=()):
    return {
        "id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": quantifier}, "why_tests_cant": why,
        "anchors": {"files": files, "state": [dict(zip(("name", "meaning", "where"), s)) for s in state], "mechanism": [dict(zip(("name", "where"), m)) for m in mechanism],
                    "observe_at": observe, "hook_needed": None},
    }


PROPERTIES = [
    P("C01", "Arf arithmetic is correctly rounded",
      "Evaluating an arithmetic expression in floating point numbers (+, -, *, /, negation, with integers and doubles mixed in, in place or not) with a given precision and rounding mode yields exactly the correctly rounded result of each of its operations, wherever in the expression precision and rounding have been attached. Operands that are not assigned to are unchanged and the result does not depend on whether operands and target are the same object. The functions with which the Python interface builds and evaluates expressions do the same.",
      ["inputs", "programs", "histories"], "all operands (any size, sign, non-finite values), all precisions and rounding modes, all expression shapes and aliasing patterns, any history of earlier operations",
      "The tests evaluate a handful of expressions on a few values; rounding errors, aliasing and the propagation of precision through expression templates only show for particular operands and shapes.",
      [H + "cppyy.hpp", H + "arf.hpp", H + "yap/arf.hpp", S + "arf.cc"], [("expression templates that bind precision and rounding", H + "yap/arf.hpp"), ("arf_add, arf_sub, arf_mul, arf_div", H + "yap/arf.hpp")],
      ["value of every Arf after each statement"]),
    P("C02", "Arf construction, conversion and inspection are exact",
      "Constructing or assigning a floating point number from an integer, a double, a mantissa with exponent, or a digit string, shifting it and negating it are exact. Floor, ceil, mantissa, exponent, logarithm, text and the conversion to double report precisely the number's value (the double being the nearest one, ties to even).",
      ["inputs", "histories"], "all values including extreme exponents, limits of the integer types, subnormal and overflowing doubles, negative numbers",
      "Tests look at small positive samples; off-by-one and sign errors at boundaries of types, of exponents and for negative numbers are not reached.",
      [H + "arf.hpp", S + "arf.cc"], [("constructors and conversions", S + "arf.cc")], ["constructors, assignments, <<=, >>=, floor, ceil, mantissa, exponent, logb, operator double, operator<<"]),
    P("C03", "Arf comparisons are the order of the numbers",
      "The relations <, <=, ==, !=, >, >= between floating point numbers, and between floating point numbers and machine integers in either order, agree with the order of the exact values, so they are mutually consistent and total on everything but NaN. Equal numbers have equal hashes no matter how they have been produced.",
      ["inputs", "histories"], "all pairs of values (including infinities) however they have been computed",
      "Tests compare a few small numbers; inconsistent relations show up for close or huge operands or for one of the twelve relations only.",
      [H + "arf.hpp", S + "arf.cc"], [("arf_cmp based relations, boost::totally_ordered", S + "arf.cc")], ["comparison operators, std::hash"]),
    P("C04", "Ball arithmetic encloses every possible result",
      "A ball that results from an operation on balls (+, -, *, /, negation, machine integers mixed in, nested expressions, in place or not, with any precision) contains the exact result for every choice of reals in the operand balls, wherever operands and target coincide. A single operation widens the ball by little more than what the operand radii and the precision require. Balls constructed from integers, rationals, decimal strings, end points, floating point numbers, or elements of a number field contain what they were constructed from, exactly where it is representable.",
      ["inputs", "programs", "histories"], "all balls (exact, wide, narrow, around zero, infinite, indeterminate), expression shapes, aliasing patterns, precisions and literals",
      "Tests evaluate a few expressions with exact operands; a lost radius, a precision that is not forwarded or a target that is overwritten too early only show for inexact operands in particular positions.",
      [H + "cppyy.hpp", H + "arb.hpp", H + "yap/arb.hpp", H + "yap/arb_assign_transformation.hpp", H + "yap/assign_transformation.hpp", S + "arb.cc"],
      [("expression templates that bind the precision", H + "yap/arb.hpp"), ("constructors", S + "arb.cc")], ["midpoint and radius of every Arb after each statement"]),
    P("C05", "Ball comparisons never lie and conversions keep the ball",
      "The relations <, <=, ==, !=, >, >= of a ball with a ball, a machine integer or a rational answer yes only if it holds for all choices of reals in the balls, no only if it holds for none, and nothing otherwise; they decide whenever the balls allow it. The end points of a ball enclose it and are close to it, the midpoint is exact, its double the nearest one; the predicates for exact, finite and identical balls say what they mean.",
      ["inputs", "histories"], "all pairs of balls including touching, overlapping, identical, infinite and indeterminate ones; all integers and rationals, in particular those at the end points",
      "A tri-valued relation has boundary cases (touching end points, equality of exact balls, rounding of a scaled radius) that a handful of samples does not hit.",
      [H + "arb.hpp", S + "arb.cc"], [("comparisons", S + "arb.cc"), ("conversion to end points", S + "arb.cc")], ["comparison operators, equal, is_exact, is_finite, conversions to double, Arf and pair<Arf, Arf>"]),
    P("C06", "Approximations of reals are as accurate as promised",
      "A floating point approximation of a real with p bits has a relative error of at most 2^-p; the ball approximation with p bits, and any ball that is refined to p bits, contains the real and has at least p bits of relative accuracy (zero aside). For rational and for random reals the approximation depends on the number and p only: it is the same in another process, after a different history, or after caches have been flushed.",
      ["inputs", "histories"], "all reals (rationals, random reals in any interval, close to any double, products with any exponents), all precisions including the cached ones, every order of requests and re-creations",
      "Tests check a few precisions of a few reals in a fresh process; errors depend on precision, on the digits of the real, on what has been cached before and on earlier refinements.",
      [H + "real_number.hpp", S + "real_number.cc", S + "random_real_number.cc", S + "constrained_random_real_number.cc", S + "rational_real_number.cc", S + "real_number_product.cc", S + "impl/real_number_base.hpp"],
      [("caches of approximations", S + "real_number.cc"), ("refine", S + "real_number.cc"), ("arf_", S + "random_real_number.cc")], ["arf(prec), arb(prec), refine(ball, prec)"],
      [("arf54, arf64, large", "cached approximations", S + "impl/real_number_base.hpp")]),
    P("C07", "Comparisons of reals are exact",
      "Comparing a real with another real, an integer, a rational, a floating point number or a ball returns the exact answer, and terminates. All relations in both operand orders are consistent with the one true order, however close the operands are.",
      ["inputs", "histories"], "all pairs of reals and all exact operands, in particular arbitrarily close ones, in any history of refinements",
      "Tests compare clearly different numbers; wrong answers need operands that agree to many digits or a precision at which an enclosure just misses the number.",
      [H + "real_number.hpp", S + "real_number.cc"], [("refinement loop until decided", S + "real_number.cc")], ["operator<, <=, ==, !=, >, >=, cmp(Arb), operator bool, operator optional<mpq_class>"]),
    P("C08", "There is one object per real number",
      "At any time two handles to reals refer to the same object exactly when they denote the same number: the same rational, the same seeded random real, or products of the same factors with the same multiplicities. This holds no matter how the reals were obtained (created, multiplied, divided, re-created after all handles have been dropped) and how many unrelated reals were created in between.",
      ["histories"], "all sequences of creation, multiplication, division, copying and dropping, including enough products to overflow internal caches",
      "Identity depends on the interplay of weak caches, object lifetimes, identifiers and hash collisions over long histories; tests create a few numbers once.",
      [S + "real_number_product.cc", S + "random_real_number.cc", S + "constrained_random_real_number.cc", S + "rational_real_number.cc", S + "real_number_base.cc"],
      [("unique factories", S + "real_number_product.cc"), ("unique identifiers", S + "real_number_base.cc")], ["addresses and operator== of RealNumber"],
      [("factory()", "weak map from description to object", S + "real_number_product.cc")]),
    P("C09", "Random reals lie in their range and are determined by their seed",
      "A random real in [a, b] lies in that interval; there is none in an empty interval or close to an infinity or NaN, which is an error. A random real close to a double is nearest to that double. Both are determined by seed and bounds, across re-creation and across processes. The conversion of any real to a double yields the nearest double.",
      ["inputs", "histories"], "all bounds with non-empty interior (of any signs and magnitudes), all finite doubles, all seeds",
      "Tests sample a few intervals with doubles; wrong digits show for negative or very wide and very narrow bounds, subnormals, or in the k-th digit.",
      [S + "random_real_number.cc", S + "constrained_random_real_number.cc", S + "real_number.cc"], [("digits from a seeded generator", S + "random_real_number.cc"), ("initial digits + inner random real", S + "constrained_random_real_number.cc")],
      ["RealNumber::random, arf, operator double"]),
    P("C10", "Products of reals are commutative monomials",
      "Multiplication of random reals is associative and commutative with unit one, and division is exact: the quotient exists precisely when the divisor's monomial divides the dividend's, and then multiplying back restores the dividend. A product's approximations approximate the product of its factors. A multiplication or division by a rational that is not supported is refused, never answered wrongly.",
      ["inputs", "histories"], "all monomials in random reals with any exponents, built up and divided in any order",
      "Merging and cancelling of exponent vectors has many cases that depend on the relative order of internal identifiers; tests use a few shapes.",
      [S + "real_number_product.cc", S + "real_number.cc"], [("merge of sorted factors", S + "real_number_product.cc")], ["operator*, operator/, arf of products"]),
    P("C11", "Monomials of reals are totally ordered by degree, then lexicographically",
      "The monomial order on reals is a strict total order: irreflexive, antisymmetric, transitive and total. It respects the total degree, and among monomials of the same degree it is the lexicographic order induced by one fixed order of the indeterminates.",
      ["inputs", "histories"], "all pairs and triples of monomials that are alive at the same time",
      "A defect needs particular combinations of exponents and of creation order; the tests do not exercise the order directly.",
      [S + "real_number_product.cc"], [("deglex", S + "real_number_product.cc")], ["RealNumber::deglex"]),
    P("C12", "Modules are canonical and unique",
      "Two modules are the same object, and equal, exactly when they have the same ring and the same set of generators, no matter in which order the generators were given or how the module came about (created, spanned, from a product, re-created). The generators are distinct and sorted by the monomial order; dependent generators are refused. The span of two modules has the generators of both and nothing else, over the common ring; submodule() is the inclusion of the generators. gen(i), zero() and one() are the elements their names say, where one() exists exactly when some element of the module is 1.",
      ["inputs", "histories"], "all sets of generators in any order, over the integers, the rationals and number fields, over any history of creating, dropping and re-creating modules",
      "Uniqueness depends on hashing, on weak caches and on the order of identifiers over a history; the tests create a few modules once.",
      [H + "module.hpp", S + "module.cc"], [("unique factory", S + "module.cc"), ("span, submodule, one", S + "module.cc")], ["Module::make, span, submodule, ==, basis(), gen, zero, one"],
      [("factory()", "the modules that are alive", S + "module.cc")]),
    P("C13", "Element arithmetic is exact",
      "Elements are exact: addition, subtraction, negation, multiplication with elements, reals, machine integers of any type, integers, rationals and coefficients, in place or not, with the same object on both sides or not, yield the exact element; sums live in the sum of the modules, products in the module of all products of generators. Promotion, simplification and the conversion to a bigger ring keep the value; simplification keeps precisely the generators that are needed. Two elements are equal exactly when they are the same real, whatever their modules; coefficients and the conversions to integers, rationals and truth values say what the element is. A product with a scalar that does not exist over the integers is refused and leaves the element alone.",
      ["inputs", "programs", "histories"], "all elements over the integers, the rationals and number fields, all scalars (in particular the limits of each type), all aliasing patterns, all sequences of operations",
      "Promotion merges sorted lists of generators and multiplication collects products; mistakes only show for particular combinations of generators, zero coefficients, or shared operands.",
      [H + "cppyy.hpp", H + "element.hpp", S + "element.cc", S + "integer_ring.cc", S + "rational_field.cc", S + "number_field.cc"], [("promote, simplify", S + "element.cc"), ("operator*=, operator+=", S + "element.cc")], ["module and coefficients of every element after each statement"]),
    P("C14", "Elements are ordered like the reals they stand for",
      "Comparing an element with an element, an integer, a rational or one of its generators yields the exact order of the reals, consistently for all relations in both operand orders; equal elements have equal hashes. Floor and ceiling are exact, the double is the nearest one, and the ball of an element with a given accuracy contains it and has that accuracy. All of this terminates however close the operands are.",
      ["inputs"], "all elements, in particular those arbitrarily close to zero, to an integer, to a rational or to each other by cancellation, over integers, rationals and number fields",
      "Wrong answers need cancellation to hundreds of bits or values next to an integer, which samples do not produce.",
      [H + "element.hpp", S + "element.cc"], [("refinement loops", S + "element.cc")], ["operator<, <=, ==, !=, >, >=, floor, ceil, operator double, arb, std::hash"]),
    P("C15", "Division of elements is exact or refused",
      "truediv() returns the exact quotient when the dividend is a multiple of the divisor with coefficients in the ring, and nothing otherwise. floordiv() is the floor of the quotient of the reals. unit() tells whether the inverse exists in the module. Dividing by a scalar is exact; over the integers a quotient that does not exist is refused and the element stays unchanged. Division by zero is always reported by an exception.",
      ["inputs"], "all pairs of elements (multiples and non-multiples, in different modules and over different rings), all scalars",
      "Multivariate division takes many steps with cancellation; tests divide small multiples. Errors need remainders, quotients close to integers, or negative divisors.",
      [H + "cppyy.hpp", H + "element.hpp", S + "element.cc", S + "integer_ring.cc"], [("multivariate division", S + "element.cc"), ("floor of a quotient of balls", S + "element.cc")], ["truediv, floordiv, unit, operator/="]),
    P("C16", "Coefficient rings are exact",
      "The three coefficient rings multiply and divide their elements exactly by machine integers, big integers, rationals and elements of the ring, also when both operands are the same object; an operation whose result does not lie in the ring is refused and leaves the operand unchanged, and so is division by zero. Units, floors, conversions to rationals and balls of a given accuracy are those of the exact coefficient. Rings are equal exactly when they are the same subring of the reals with the same generator, with equal hashes then; a compositum contains both rings and coercing an element into it keeps the value.",
      ["inputs", "histories"], "all coefficients over the integers, the rationals and embedded number fields (of several degrees, different embeddings of the same polynomial), all scalars of all types, all precisions, all pairs of rings",
      "Tests only reach the rings through a few elements with small coefficients; wrong conversions need limits of the integer types, negative numbers, refused operations or fields that only differ in their embedding.",
      [H + "integer_ring.hpp", H + "rational_field.hpp", H + "number_field.hpp", S + "integer_ring.cc", S + "rational_field.cc", S + "number_field.cc"],
      [("arithmetic with scalars", S + "integer_ring.cc"), ("compositum and coercion", S + "number_field.cc")], ["imul, idiv, unit, rational, floor, arb, ==, hash, compositum, coerce of IntegerRing, RationalField, NumberField"]),
    P("C17", "Serialization preserves values and identity",
      "Writing floating point numbers, balls, reals, modules and elements to an archive (JSON, XML, binary or portable binary) and reading it back yields equal values in the same order: exactly the same number, ball, real, module and coefficients of each generator. This holds for several objects that share modules, fields and reals in one archive, when everything has been destroyed in the meantime, and when another process (that has created its reals in a different order) reads the archive. Reals and modules that are alive are found again rather than duplicated. The functions with which the Python interface pickles objects do the same.",
      ["inputs", "histories", "crash_points"], "all values of all types, any number of objects in an archive, any history of creating and dropping objects between writing and reading, any process that reads",
      "The tests write a single object and read it back right away in the same process, where everything is still alive and in the same order.",
      [H + "cppyy.hpp", H + "cereal.hpp", H + "cereal.interface.hpp", S + "real_number.cc", S + "real_number_product.cc", S + "random_real_number.cc", S + "constrained_random_real_number.cc", S + "rational_real_number.cc"],
      [("save and load of each type", H + "cereal.hpp"), ("shared pointers in archives", H + "cereal.hpp"), ("description of a real", S + "real_number_product.cc")], ["values and addresses of what has been read from an archive"]),
    P("C18", "Seeds are unique",
      "A default constructed seed differs from every seed that has been default constructed before in the process, no matter in which of several concurrent threads and whether explicitly or implicitly when creating a random real; so random reals that are created without a seed are always new: different objects with different digits, strictly ordered. A seed with an explicit value keeps that value when it is copied; equal values always yield the same real and different values yield different digits.",
      ["schedules", "histories", "inputs"], "all interleavings of threads that create seeds and random reals, any number of seeds (up to the 2^32 there are), any explicit values in between",
      "Lost updates of a shared counter need threads that collide within a few instructions; repetitions after many seeds need long histories.",
      [H + "seed.hpp", S + "seed.cc", S + "random_real_number.cc", S + "constrained_random_real_number.cc", S + "real_number_base.cc"], [("global counter", S + "seed.cc"), ("unique identifiers", S + "real_number_base.cc")], ["Seed::value, RealNumber::random"],
      [("nextSeed", "the next seed", S + "seed.cc")]),
    P("C19", "Copies are independent and moves keep the value",
      "Copying, assigning and moving (also to itself) and swapping floating point numbers, balls or elements of modules yields the expected values, and later changes of one object never show in another one. A moved-from object can be assigned to again.",
      ["programs", "histories"], "all interleavings of copies, moves, swaps and in-place operations on several objects",
      "Sharing of limbs between objects only shows when a copy is followed by an in-place operation on large mantissas; tests never combine them.",
      [H + "arf.hpp", S + "arf.cc", H + "arb.hpp", S + "arb.cc", H + "element.hpp", S + "element.cc"], [("copy, move, swap", S + "arf.cc"), ("copy, move, swap", S + "arb.cc"), ("value semantics of elements", H + "element.hpp")], ["value of every Arf, Arb and Element after each statement"]),
    P("C20", "Text output shows the value",
      "Printing an element lists precisely its non-zero coefficients with their generators, with the right signs, so that the value can be read off the text; printing a module lists its ring and its generators. The text of a ball, with any number of digits, is a decimal ball that encloses it without being much wider, and reading it back yields a ball that contains the original. The text of a real is its fraction, or the list of its factors with their exponents; a single random real shows its first digits.",
      ["inputs"], "all elements and modules over the integers, the rationals and number fields; all balls and numbers of digits",
      "Signs, unit coefficients, rational generators and algebraic coefficients combine into many shapes; rounding of printed radii shows only for some digits. Tests compare two or three fixed strings.",
      [S + "element.cc", S + "module.cc", S + "arb.cc", S + "real_number_product.cc", S + "rational_real_number.cc"], [("operator<<", S + "element.cc"), ("operator<<", S + "module.cc"), ("operator<<", S + "arb.cc")], ["operator<< of Element, Module, Arb and RealNumber"]),
    P("C21", "Legal use is memory safe and defined",
      "No sequence of legal operations, however the operands alias, have been moved from, or are dropped in between, and no refused operation, makes the library access memory that it does not own, forget to release what it has allocated, or depend on undefined behaviour such as overflows and invalid shifts of machine integers.",
      ["inputs", "programs", "histories"], "all behaviours of the specifications: numbers, balls, reals, modules, elements, rings, archives",
      "Dangling references, leaks and overflows usually have no visible effect in the few operations that a test performs, and need particular aliasing patterns, lifetimes or extreme arguments.",
      [H + "arf.hpp", S + "arf.cc", S + "arb.cc", S + "real_number.cc", S + "real_number_product.cc", S + "module.cc", S + "element.cc", H + "cereal.hpp"], [("wrapped C structures", S + "arf.cc"), ("wrapped C structures", S + "arb.cc"), ("shared implementation of elements", S + "element.cc")], ["AddressSanitizer, LeakSanitizer, UndefinedBehaviorSanitizer"]),
]

UNCLAIMED = {}


def main():
    from .checks import CHECKS
    (VERIF / "properties.jsonl").write_text("".join(json.dumps(p, ensure_ascii=False) + "\n" for p in PROPERTIES))
    checks = []
    for p in PROPERTIES:
        if p["id"] in CHECKS:
            c = CHECKS[p["id"]]
            checks.append({
                "property": p["id"], "quick_cmd": "python3 check.py %s quick" % p["id"], "thorough_cmd": "python3 check.py %s thorough" % p["id"],
                "technique": c["technique"], "level": c["level"], "level_note": c["note"],
            })
    manifest = {
        "version": 1,
        "setup_cmd": "python3 setup.py",
        "hooks": {"guard": "EXACTREAL_VERIF", "enable": "the checks compile /repo/libexactreal with -DEXACTREAL_VERIF; there are no hooks in the source so far, everything is observed through the public API", "source_commits": []},
        "checks": checks,
        "not_applicable": [{"property": p["id"], "reason": UNCLAIMED[p["id"]]} for p in PROPERTIES if p["id"] not in CHECKS],
        "notes": "All properties are decided with the Quint specification in /verif/spec, see DESIGN.md.",
    }
    (VERIF / "MANIFEST.json").write_text(json.dumps(manifest, indent=1, ensure_ascii=False) + "\n")


if __name__ == "__main__":
    main()
