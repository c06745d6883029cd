"""What the proofs take on trust; reported in every evidence file."""
TRUSTED = [
    "rustc (nightly) MIR construction; the extractor mirdump (drops nothing but unwinding edges, storage markers and debug info)",
    "the symbolic executor vc/exec.py and its memory model (safe Rust; no aliasing of &mut)",
    "the decision procedures: z3, vc/field.py (polynomial identities over Z, Fermat, Euler, quadratic characters), sympy factorization",
]
COMMON = [
    "moduli passed to field constructors are prime (documented precondition of Fp::new / Fp2::new)",
    "machine integers are treated exactly (overflow checks are part of the MIR and are proved not to fire); big integers are mathematical",
    "memory allocation does not fail; integers in memory have fewer than 2^50 bits",
    "unwinding (panic) paths are observed only as 'the call panics'",
    "termination: a loop cut by an invariant moves its counter, iterator or exponent one step towards a fixed end (the invariant pins "
    "it), every other loop is executed to its end, and no contract is assumed within a circle of calls; library functions are assumed to return",
]
# the group laws are proved in Lean (vc/mathlib.py); these texts are used when a run could not check the proof
GROUP = ("trusted mathematics: the chord-and-tangent law on a nonsingular cubic, and the Edwards law with a a square and d a non-square, "
         "is an abelian group (scalar multiplication is specified over it as an abstract group)")
GROUP_PROVED = ("the abelian group laws that scalar multiplication is specified over are proved in Lean over Mathlib "
                "(vc/lean), and so is that the law, equation and negation stated there are those of vc/specs (vc/lawtext.py prints them)")
LAW = "trusted mathematics: a point is on the curve after addition because the law it is proved equal to is closed"
LAW_PROVED = "the laws of addition are closed: proved in Lean (vc/lean)"
ROOT = "square roots are specified as 'some root of a square'; which of the two is left open, as in the property"
ONCE = "std::sync::OnceLock is modelled as a write-once cell: get_or_init runs its argument at most once and returns what is stored"
MONT = ("Montgomery addition is specified for b = 1; the completeness parameter s is valid for a curve when no rational point has y = s "
        "(the condition under which the formulas are complete)")
CURVES = "curve parameters are those of a nonsingular curve of the stated kind; arithmetic contracts are not claimed for other parameters"
CM = ("group orders and the exponent of BLS12-381 G1 are proved from explicit points (Lagrange, the bound 2 p + 1, counts of a curve and its "
      "twist; vc/published.py `count`); trusted mathematics: a complete Edwards curve has as many points as its Montgomery model")
CM_PROVED = ("group orders and the exponent of BLS12-381 G1 are proved from explicit points (Lagrange, the bound 2 p + 1, counts of a curve and "
             "its twist; vc/published.py `count`) and the Lean lemma vc/lean/Model.lean (an Edwards curve and its Montgomery model)")
PRIME = ("primality of the published p and r is decided by certificates checked on every run (vc/numth.py: Pocklington, "
         "Goldwasser-Kilian; deterministic strong pseudoprime test below 3.3e24); those theorems are trusted mathematics")
ISOG = ("trusted mathematics: a rational map between elliptic curves that sends the identity to the identity preserves addition "
        "(Silverman III.4.8); that the published functions map the domain to the codomain is proved")
ISOG_PROVED = ("the published maps preserve addition: polynomial identities decided on grids larger than their degrees (vc/published.py "
               "`additive_facts`) and the Lean lemma vc/lean/Isogeny.lean; that the two fit together (an affine chord sum is the "
               "group's sum, denominators nonzero off the kernel) is by inspection")
PER = {
    "C03": [ROOT, ONCE],
    "C08": [ROOT, ONCE],
    "C09": ["'different curves' means different field, equation coefficients or group order (not generator, cofactor or s)",
            "structural equality of two field handles is equality of their moduli; Arc pointer identity is not observable"],
    "C12": [LAW, MONT, CURVES],
    "C13": [CURVES], "C14": [CURVES], "C15": [MONT, CURVES],
    "C16": [GROUP, MONT, CURVES],
    "C17": [GROUP, MONT, CURVES],
    "C18": ["projective coordinates are those of a point (not all zero; for Edwards points z != 0 and t z = x y)"],
    "C19": [ROOT], "C20": [ROOT, ONCE], "C21": [ROOT],
    "C22": [ROOT, ONCE], "C23": [ROOT, ONCE], "C24": [ROOT, ONCE],
    "C25": [ROOT, "Isogeny and RationalMap implementations given to the composed maps are arbitrary objects whose push / pull "
            "return some point of the curve they advertise"],
    "C27": ["denominators of the map back do not vanish because -1 and A^2 - 4 are not squares modulo the published p (checked)"],
    "C28": [ISOG],
    "C29": [CM, PRIME, GROUP],
    "C31": ["core::fmt is modelled by its documented behaviour (literal pieces and arguments in order, decimal numerals of integers); the "
            "formatter given to an implementation has default options",
            "the canonical decimal numeral of an integer is one of the digit strings covered by the contract of From<&str>"],
    "C30": ["thread-modular (rely/guarantee) reasoning: between any two steps of an operation another thread may fill the shared "
            "square-root cell with the value the cell is specified to hold, or hold a lock for a while",
            "OnceLock, Mutex, RwLock and AtomicRefCell are modelled by their documented concurrent behaviour; Send and Sync are decided "
            "by the compiler's own trait solver; the crate contains no unsafe code (checked on every run)",
            "no fairness or scheduling assumption is used: deadlock freedom is 'no operation waits for a cell it already holds'"],
}


def per(pid, lemmas):
    """the assumptions of one check, given what was proved of the mathematics on this run"""
    out = COMMON + PER.get(pid, [])
    if lemmas and all(l["status"] == "proved" for l in lemmas.values()):
        out = [{GROUP: GROUP_PROVED, LAW: LAW_PROVED, ISOG: ISOG_PROVED, CM: CM_PROVED}.get(a, a) for a in out]
    return out
