"""Which behaviours decide which property."""
from .run import Conform, Model, Replay, Sanitized

EXACT = "The exact mathematics of spec/dyadic.qnt (unbounded integers) is the oracle; libexactreal is linked against the installed FLINT, GMP and e-antic, whose documented behaviour is trusted, and against small stand-ins for the four empty git submodules (see DESIGN.md)."
SAMPLED = "Behaviours are sampled with a fixed seed; nothing is said about behaviours that have not been generated."

ARITH = {"bin", "binmove", "binctor", "binconst", "inplace", "inplaceexpr", "inplaceneg", "tree", "binint", "intbin", "binlong", "longbin", "bindouble", "doublebin", "weighted", "neg", "negexpr"}
ORDER = {"cmp", "cmplong", "cmpint", "hash"}
MOVES = {"copy", "assign", "selfassign", "selfmove", "move", "moveassign", "swap", "stdswap"}

ARB_OBSERVATIONS = {"comparison of balls", "comparison with integer", "comparison with rational", "predicates", "identical balls", "midpoint", "double", "end points"}
ARB_VALUES = {"construction", "constant", "containment", "precision", "negation", "copy", "an operand has been modified"}

ELEMENT_VALUES = {"construction", "copy", "neg", "add", "sub", "mul", "mulreal", "promote", "simplify", "convert", "zero", "span", "scalar", "scalar is accepted", "failed operation has an effect",
                  "coefficient is not in the ring", "an element has been modified", "rational coefficients", "integral value", "rational value", "truth value", "generator", "one", "module", "order of elements"}
MODULES = {"module", "generators are not distinct", "generators are not sorted", "modules are not unique", "module with dependent generators", "one", "zero", "span", "generator", "submodule", "construction"}

DIVISION = {"quotient", "divisibility", "division by zero", "floor of quotient", "unit", "scalar", "scalar is accepted", "failed operation has an effect"}

CHECKS = {
    "C01": dict(parts=[Replay("arf.qnt", "arfArith", "arf_driver", 24, 400)]),
    "C02": dict(parts=[Replay("arf.qnt", "arfValues", "arf_driver", 24, 400)]),
    "C03": dict(parts=[Replay("arf.qnt", "arfOrder", "arf_driver", 24, 400)]),
    "C04": dict(parts=[Conform("arb.qnt", "arb", "arbArith", "arb_driver", 8, 160), Conform("arb.qnt", "arb", "arbValues", "arb_driver", 8, 160, why=ARB_VALUES)]),
    "C05": dict(parts=[Conform("arb.qnt", "arb", "arbOrder", "arb_driver", 8, 160), Conform("arb.qnt", "arb", "arbValues", "arb_driver", 8, 160, why=ARB_OBSERVATIONS)]),
    "C06": dict(parts=[Conform("reals.qnt", "reals", "realsApprox", "reals_driver", 8, 160, twice=True,
                               why={"arf accuracy", "arf is not reproducible", "ball accuracy", "ball containment", "atom"})]),
    "C07": dict(parts=[Conform("reals.qnt", "reals", "realsOrder", "reals_driver", 8, 160,
                               why={"order of reals", "order with integers", "order with rationals", "order with floating point numbers", "comparison with ball", "truth value", "rational value"})]),
    "C08": dict(parts=[Conform("reals.qnt", "reals", "realsIdentity", "reals_driver", 8, 160, why={"identity", "quotient", "atom"})]),
    "C09": dict(parts=[Conform("reals.qnt", "reals", "realsRandom", "reals_driver", 8, 160, twice=True,
                               why={"atom", "identity", "arf accuracy", "arf is not reproducible", "closest double", "empty interval"})]),
    "C10": dict(parts=[Conform("reals.qnt", "reals", "realsProduct", "reals_driver", 8, 160, why={"identity", "quotient", "arf accuracy", "atom", "ball accuracy", "ball containment", "unsupported operation is answered"})]),
    "C11": dict(parts=[Conform("reals.qnt", "reals", "realsDeglex", "reals_driver", 8, 160,
                               why={"monomial order is not strict", "monomial order is not total", "monomial order ignores the degree", "monomial order is not antisymmetric", "monomial order is not transitive", "monomial order is not lexicographic"})]),
    "C12": dict(parts=[Conform("elements.qnt", "elements", "elementsModules", "elements_driver", 8, 160, why=MODULES)]),
    "C13": dict(parts=[Conform("elements.qnt", "elements", "elementsArith", "elements_driver", 8, 160, why=ELEMENT_VALUES)]),
    "C14": dict(parts=[Conform("elements.qnt", "elements", "elementsOrder", "elements_driver", 8, 160,
                               why={"order of elements", "order of elements and scalars", "order of elements and reals", "hash", "floor", "ceil", "double", "ball containment", "ball accuracy", "truth value", "integral value", "rational value"})]),
    "C15": dict(parts=[Conform("elements.qnt", "elements", "elementsDivision", "elements_driver", 8, 160, why=DIVISION),
                       Conform("elements.qnt", "elements", "elementsUnits", "elements_driver", 8, 160, why=DIVISION)]),
    "C16": dict(parts=[Conform("rings.qnt", "rings", "ringsAll", "rings_driver", 8, 160)]),
    "C17": dict(parts=[Conform("archives.qnt", "archives", "archivesAll", "archives_driver", 8, 160)]),
    "C18": dict(parts=[Model("seeds.qnt", "counterAtomic", "safe", steps=6), Model("seeds.qnt", "counterRacy", "unique_", steps=5, expect=False),
                       Conform("seeds.qnt", "seeds", "seedsAll", "seeds_driver", 8, 160), Sanitized("seeds.qnt", "seedsRaces", "seeds_driver", 4, 60, flavour="tsan")],
                technique="Quint specification: Apalache decides a model of the shared counter (and refutes the one without atomic increments); histories with threads recorded from the implementation are validated against the specification"),
    "C19": dict(parts=[Replay("arf.qnt", "arfLife", "arf_driver", 12, 300), Conform("arb.qnt", "arb", "arbLife", "arb_driver", 8, 160, why={"copy", "move", "swap", "an operand has been modified", "construction"}),
                       Conform("elements.qnt", "elements", "elementsLife", "elements_driver", 8, 160)]),
    "C21": dict(parts=[Sanitized("elements.qnt", main, "elements_driver", 2, 30) for main in ("elementsArith", "elementsDivision", "elementsModules", "elementsLife", "elementsOrder", "elementsText")]
                + [Sanitized("reals.qnt", main, "reals_driver", 2, 30) for main in ("realsAll", "realsProduct")]
                + [Sanitized("arb.qnt", main, "arb_driver", 2, 30) for main in ("arbArith", "arbOrder", "arbLife", "arbText")]
                + [Sanitized("rings.qnt", "ringsAll", "rings_driver", 2, 30), Sanitized("archives.qnt", "archivesAll", "archives_driver", 2, 30)]
                + [Sanitized("arf.qnt", main, "arf_driver", 2, 30, replay=True, traces=20) for main in ("arfArith", "arfValues", "arfLife")],
                technique="Quint specification: legal behaviours generated by its simulator are executed by the implementation under AddressSanitizer, LeakSanitizer and UndefinedBehaviorSanitizer",
                note="Behaviours are a sample. What the installed libraries (GMP, FLINT, e-antic) do internally is not instrumented. Trusts the sanitizers and the stand-ins for the empty submodules."),
    "C20": dict(parts=[Conform("elements.qnt", "elements", "elementsText", "elements_driver", 8, 160), Conform("arb.qnt", "arb", "arbText", "arb_driver", 8, 160),
                       Conform("reals.qnt", "reals", "realsText", "reals_driver", 4, 80, why={"text of a rational", "text of a real", "text of a random real"})]),
}

for check in CHECKS.values():
    check.setdefault("level", "model_checking")
    check.setdefault("assumptions", [EXACT, SAMPLED])

REPLAY = "Quint specification: behaviours generated by its simulator are replayed into the implementation and the complete abstract state is compared after every step"
CONFORM = "Quint specification: traces recorded from the implementation (commands chosen by the specification's simulator) are validated against the specification's transition function"
NOTE_REPLAY = "Every step of every generated behaviour is compared exactly with the specification; the behaviours are a sample (tens of thousands of steps in quick mode, ten times as many in thorough mode). Trusts Quint's simulator, the installed GMP/FLINT/e-antic and the stand-ins for the empty submodules."
NOTE_CONFORM = "Every report of the implementation must be explained by the specification's exact state; behaviours are a sample. Trusts Quint's evaluator, the installed GMP/FLINT/e-antic and the stand-ins for the empty submodules."
for check in CHECKS.values():
    replay = any(isinstance(p, Replay) for p in check["parts"])
    check.setdefault("technique", REPLAY if replay else CONFORM)
    check.setdefault("note", NOTE_REPLAY if replay else NOTE_CONFORM)
