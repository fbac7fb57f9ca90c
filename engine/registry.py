import importlib
from .report import Report, finish
from .build import BuildError

TECH = {
 'A01': ('arith', 'other', 'word-level abstract interpretation of the assembly and portable routines: carries as derived quantities, interval reasoning, comparison with the exact integer result'),
 'A02': ('bounds', 'other', 'invariant of the field classes: typed scan for constructs that bypass reduction, magnitude intervals in the functions that have one, word-level intervals in the primitives'),
 'A04': ('words', 'other', 'word-level abstract interpretation of the multi-word routines; loop invariants for the long division; transfer functions of the helpers are obligations themselves'),
 'B01': ('tower', 'other', 'abstract interpretation of the compiled IR over a polynomial domain; every tower operation is compared with the tower relations'),

 'B02': ('constants', 'other', 'constant propagation over the static initialisers; each published constant compared with its definition'),
 'C01': ('curve', 'other', 'abstract interpretation of the point formulas over a polynomial domain with input partitions, compared with the chord-and-tangent law'),

 'G01': ('schemes', 'other', 'abstract interpretation of the verification functions over symbolic group elements (linear forms, bilinear pairing values); every path is compared with the acceptance condition'),
 'G02': ('schemes', 'other', 'abstract interpretation of signing and verification over linear forms; honest outputs must be accepted on every path'),
 'F03': ('keys', 'other', 'abstract interpretation over symbolic byte strings (slices of uninterpreted hash values); outputs compared with the standard constructions'),
 'F04': ('keys', 'other', 'abstract interpretation over byte strings and linear forms; both derivations compared'),
 'G03': ('keys', 'other', 'abstract interpretation over linear forms and sums modulo the group order'),
 'A03': ('fieldops', 'other', 'abstract interpretation: word-level intervals for predicates, monomials of the multiplicative group for roots and residue tests, loop invariants of the binary inversion checked on every path, linear forms in the exponent bits for powers'),
 'E01': ('pairing', 'other', 'abstract interpretation: line steps as polynomial identities modulo the curve equation, Miller loop over formal products of line values, final exponentiation as an exponent modulo p^12-1, pair admission on every path'),
 'D01': ('codec', 'other', 'abstract interpretation on symbolic input bits and polynomial coordinates; every path compared with the byte format and its refusal conditions'),
 'D02': ('codec', 'other', 'abstract interpretation of the compressed codecs for each flag setting on symbolic bits; acceptance conditions, root selection and output bytes compared with the format'),
 'C03': ('subgroup', 'other', 'abstract interpretation: curve equation over polynomials; subgroup tests evaluated to an element of the endomorphism ring and decided by ideal arithmetic in the Eisenstein integers'),
 'C02': ('scale', 'other', 'abstract interpretation over linear forms with multilinear coefficients in the scalar bits (joins at data-dependent branches, case expansion of bucket indices)'),
 'H06': ('hexa', 'other', 'abstract interpretation over finite tables: every value is an explicit function of at most two input characters, compared with the digit values'),
 'H04': ('dispatch', 'other', 'abstract interpretation of the selection over processor words and environments, call-graph rule for extension code, register and memory discipline of the assembly on opaque operands'),
 'H05': ('dispatch', 'other', 'taint interpretation: operand data must not reach a branch, an address or a division'),
 'H03': ('purity', 'other', 'effect analysis: constness rules on the typed syntax tree, uses of writable globals and hidden inputs in the IR, independence of static initialisers'),
 'F01': ('sha', 'other', 'abstract interpretation on bit-level canonical forms (algebraic normal form bits, sums modulo 2^32); induction over blocks, fill levels and chunk lengths with symbolic chaining value and block count'),
 'F02': ('hashing', 'other', 'abstract interpretation: expander and assembly over symbolic bytes, SWU map and isogeny over polynomials with a partition of exceptional arguments, compared with the standard maps (isogeny recomputed from its kernel)'),
 'H01': ('memory', 'other', 'abstract interpretation over intervals with bounds, lifetime and initialisation of every object checked at each access; contracts for functions with fixed-size operands'),
 'H02': ('keys', 'other', 'ownership and status analysis: all paths with each allocation failing or succeeding'),
}
NA = {}
def run(prop, tier):
    mod, level, tech = TECH[prop]
    rep = Report(prop, tier)
    M = importlib.import_module('checks.' + mod)
    try:
        f = getattr(M, 'run_' + prop, None) or M.run
        f(rep)
    except BuildError as e:
        rep.err('build', '', str(e))
    return finish(rep, level, tech)
