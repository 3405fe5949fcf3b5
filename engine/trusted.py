"""Text of the assumptions every proof rests on (reported in the evidence)."""
BASE = [
    'engine: AST transformation, path exploration, loop rule and shadow numpy of /verif/engine (cross-checked on every run '
    'by evaluating the same contracts on the untouched source under CPython with random inputs)',
    'z3 (and cvc5 where used as a second opinion) answers unsat soundly',
    'machine arithmetic treated as mathematical: Python ints are unbounded; numpy integers do not overflow; floats are reals '
    '(no rounding, NaN or infinity)',
    'numpy semantics as modelled in engine/snp.py and engine/arr.py (external C library)',
    'termination is not proved',
]
LEMMAS = {
    'sum-of-differences-telescopes': 'lemma (textbook): the sum of consecutive differences is last minus first',
    'sum-extensionality': 'lemma (textbook): sums with syntactically equal terms and ranges are equal',
}


def trusted(extra):
    out = list(BASE)
    for e in sorted(extra):
        out.append(LEMMAS.get(e, 'external function, %s' % e))
    return out
