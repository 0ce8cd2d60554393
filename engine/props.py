"""which obligations decide which property"""
CFG = ('serde', 'serde-release')


def both(mod, fn, *args):
    return [(c, mod, fn, args) for c in CFG]


def c01(tier):
    o = []
    for T in ('Fr', 'Fq'):
        for op in ('add', 'sub', 'neg', 'mul'):
            o += both('ob_field', 'ob_op', T, op)
        o += both('ob_field', 'ob_const', T)
    o += both('ob_field', 'ob_to_int', 'Fr')
    o += both('ob_field', 'ob_cmp')
    for T in ('Fr', 'Fq'):
        for op in ('add', 'sub', 'neg', 'mul'):
            o += both('ob_limb', 'ob_u256_op', T, op)
    for op in ('add', 'sub', 'neg', 'mul'):
        o += both('ob_field', 'ob_root_op', op)
    for T in ('Fr', 'Fq'):
        o += both('ob_roots', 'ob_field_tests', T)
    for T in ('Fr', 'Fq'):
        o += both('ob_limb', 'ob_modulus', T) + both('ob_limb', 'ob_into_u256', T) + both('ob_limb', 'ob_new', T)
    o += both('ob_limb', 'ob_new_mul_factor', 'Fq') + both('ob_limb', 'ob_interpret', 'Fq') + both('ob_str', 'ob_parse', 'Fq')
    for w in ('zero', 'one', 'eq', 'ne', 'is_zero'):
        o += both('ob_roots', 'ob_fr', w)
    return o + both('ob_roots', 'ob_clone', 'fr') + both('ob_roots', 'ob_clones', ('Fr', 'Fq', 'U256', 'U512'))


def c11(tier):
    return both('ob_limb', 'ob_from_slice', 'root_fr_from_slice', 'Fr') + both('ob_limb', 'ob_from_slice', 'root_u256_from_slice') + both('ob_limb', 'ob_new_mul_factor')


def c13(tier):
    o = both('ob_limb', 'ob_interpret') + both('ob_limb', 'ob_u512_interpret') + both('ob_limb', 'ob_new', 'Fr')
    for T in ('Fr', 'Fq'):
        o += both('ob_limb', 'ob_divrem', T) + both('ob_limb', 'ob_u512_from', T)
    return o


def c20(tier):
    o = both('ob_field', 'ob_cmp') + both('ob_limb', 'ob_setbit') + both('ob_limb', 'ob_bits') + both('ob_limb', 'ob_tests')
    for op in ('lt', 'le', 'gt', 'ge', 'eq', 'ne'):
        o += both('ob_limb', 'ob_ord', op)
    o += both('ob_roots', 'ob_cmp_root') + both('ob_roots', 'ob_words', 'root_u512_eq', 'eq', 8)
    return o + both('ob_limb', 'ob_getbit', 'u256', 256) + both('ob_limb', 'ob_getbit', 'u512', 512)


def c03(tier):
    o = []
    for k in ('Fq2', 'Fq6', 'Fq12'):
        for op in ('add', 'sub', 'neg', 'mul', 'squared'):
            o += both('ob_tower', 'ob_arith', k, op)
        o += both('ob_tower', 'ob_tests', k)
        o += both('ob_tower', 'ob_consts', k)
        o += both('ob_tower', 'ob_frobenius', k)
    for s in ('fq2.scale', 'fq2.nr', 'fq6.nr', 'fq6.scale', 'fq12.unitary', 'fq12.024', 'fq12.cycsq'):
        o += both('ob_tower', 'ob_special', s)
    o += both('ob_tower', 'ob_irreducible')
    for w in ('mul', 'eq', 'ne'):
        o += both('ob_roots', 'ob_gt', w)
    return o + both('ob_roots', 'ob_clone', 'gt') + both('ob_roots', 'ob_clones', ('Fq2', 'Fq6', 'Fq12', 'Gt'))



def fields(*Ts):
    """the limb layer under the field algebra"""
    o = []
    for T in Ts:
        for op in ('add', 'sub', 'neg', 'mul'):
            o += both('ob_field', 'ob_op', T, op)
        o += both('ob_field', 'ob_const', T) + both('ob_roots', 'ob_field_tests', T)
    return o + both('ob_field', 'ob_cmp')


def tower(*ks):
    o = []
    for k in ks:
        for op in ('add', 'sub', 'neg', 'mul', 'squared'):
            o += both('ob_tower', 'ob_arith', k, op)
        o += both('ob_tower', 'ob_tests', k) + both('ob_tower', 'ob_consts', k)
    return o


def c05(tier):
    o = []
    for g in ('g1', 'g2'):
        for op in ('add', 'sub'):
            for case in CASES:
                o += both('ob_group', 'ob_add', g, op, case, 'root')
        for op in ('neg', 'double'):
            o += both('ob_group', 'ob_unary', g, op)
        o += both('ob_group', 'ob_consts_g', g) + both('ob_roots', 'ob_clone', g)
    return o + both('ob_roots', 'ob_clones', ('G', 'AffineG', 'G1', 'G2')) + tower('Fq2') + fields('Fq')


CASES = ('general', 'equal', 'opposite', 'left identity', 'right identity', 'both identity')


def c06(tier):
    o = []
    for g in ('g1', 'g2'):
        for op in ('eq', 'ne'):
            o += both('ob_group', 'ob_eq', g, op)
        o += both('ob_group', 'ob_is_zero', g) + both('ob_group', 'ob_affine_eq', g)
    return o + tower('Fq2') + fields('Fq')


def bitobs():
    return both('ob_field', 'ob_to_int', 'Fr') + both('ob_limb', 'ob_getbit', 'u256', 256) + both('ob_limb', 'ob_bits')


def c07(tier):
    return both('ob_pow', 'ob_mul', 'g1') + both('ob_pow', 'ob_mul', 'g2') + c05(tier) + bitobs()


def c08(tier):
    return both('ob_pow', 'ob_pow', 'fr') + both('ob_pow', 'ob_pow', 'gt') + bitobs() + fields('Fr', 'Fq') + tower('Fq2', 'Fq6', 'Fq12')


def c14(tier):
    o = both('ob_bytes', 'ob_bytes', 'u256')
    for k in ('fr', 'g1', 'gt'):
        o += both('ob_bytes', 'ob_bytes', k, 'vec')
    return o + both('ob_bytes', 'ob_bytes', 'g2')


def c16(tier):
    o = both('ob_sample', 'ob_fr')
    for T in ('Fr', 'Fq'):
        o += both('ob_sample', 'ob_wide', T) + both('ob_limb', 'ob_divrem', T) 
    for g in ('g1', 'g2', 'gt'):
        o += both('ob_sample', 'ob_group', g)
    return o


def c17(tier):
    return both('ob_group', 'ob_normalize', 'g1') + both('ob_group', 'ob_normalize', 'g2') + inverses('Fq', 'Fq2') + tower('Fq2') + fields('Fq')


SPECIALS = ('fq2.scale', 'fq2.nr', 'fq6.nr', 'fq6.scale', 'fq12.unitary', 'fq12.024', 'fq12.cycsq')


def pairing_layer():
    o = both('ob_pair', 'ob_lines') + both('ob_pair', 'ob_formal') + both('ob_pair', 'ob_frobenius_mult')
    for g in ('g1', 'g2'):
        o += both('ob_group', 'ob_consts_g', g)
    o += both('ob_limb', 'ob_bits') + both('ob_limb', 'ob_getbit', 'u256', 256)
    for k in ('Fq2', 'Fq6', 'Fq12'):
        o += both('ob_tower', 'ob_frobenius', k) + both('ob_tower', 'ob_inverse', k)
    for s in SPECIALS:
        o += both('ob_tower', 'ob_special', s)
    return o


def c09(tier):
    return pairing_layer() + inverses('Fq') + tower('Fq2', 'Fq6', 'Fq12') + fields('Fq')


def c10(tier):
    o = []
    for s in ('left', 'right', 'both'):
        o += both('ob_pair', 'ob_identity', s)
    return o + pairing_layer() + inverses('Fq', 'Fq2')


def inverses(*ks):
    o = []
    for k in ks:
        o += both('ob_inv', 'ob_field_inverse', k) if k in ('Fr', 'Fq') else both('ob_tower', 'ob_inverse', k)
    return o


def c02(tier):
    o = inverses('Fr', 'Fq', 'Fq2', 'Fq6', 'Fq12') + both('ob_inv', 'ob_field_inverse', 'Fr', 'root') + both('ob_inv', 'ob_gt_inverse')
    for T in ('Fr', 'Fq'):
        o += both('ob_inv', 'ob_invert', T) + both('ob_limb', 'ob_u256_op', T, 'mul') + both('ob_limb', 'ob_u256_op', T, 'sub')
    return o + both('ob_limb', 'ob_ord', 'eq') + both('ob_limb', 'ob_ord', 'ne') + both('ob_field', 'ob_cmp') + fields('Fr', 'Fq') + tower('Fq2', 'Fq6', 'Fq12')


def c04(tier):
    o = []
    for T in ('Fr', 'Fq'):
        o += both('ob_field', 'ob_const', T)
    for k in ('Fq2', 'Fq6', 'Fq12'):
        o += both('ob_tower', 'ob_consts', k) + both('ob_tower', 'ob_frobenius', k)
    for g in ('g1', 'g2'):
        o += both('ob_group', 'ob_consts_g', g)
    return o + both('ob_group', 'ob_params') + both('ob_tower', 'ob_irreducible') + both('ob_pair', 'ob_lines') + both('ob_pair', 'ob_formal') + both('ob_pair', 'ob_frobenius_mult') + both('ob_tower', 'ob_special', 'fq2.nr') + both('ob_inv', 'ob_field_inverse', 'Fr') + both('ob_inv', 'ob_field_inverse', 'Fq') + both('ob_limb', 'ob_new_mul_factor') + fields('Fr', 'Fq') + both('ob_roots', 'ob_gt', 'one') + both('ob_roots', 'ob_fr', 'zero') + both('ob_roots', 'ob_fr', 'one')


def c12(tier):
    return both('ob_str', 'ob_parse') + fields('Fr')


def deepen(obs):
    """thorough tier: the same obligations in the other feature configuration too"""
    more = [('borsh',) + o[1:] for o in obs if o[0] == 'serde' and o[1] != 'ob_serde']
    return list(dict.fromkeys(obs + more))


FUNCTIONAL = ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C16', 'C17', 'C20')


def functional(tier):
    o = []
    for p in FUNCTIONAL:
        o += PROPS[p]['obligations'](tier)
    return list(dict.fromkeys(o))


TYPES = ('fr', 'g1', 'g2', 'gt', 'u256', 'u512')


def c15(tier):
    o = []
    for k in TYPES:
        o += both('ob_serde', 'ob_serde', k) + [('borsh', 'ob_serde', 'ob_borsh', (k,))]
    return o


def c22(tier):
    o = []
    for k in TYPES[:4]:
        o += both('ob_serde', 'ob_decode', 'serde', k) + [('borsh', 'ob_serde', 'ob_decode', ('borsh', k))]
    return o + c15(tier)


def c18(tier):
    return functional(tier) + c15(tier) + both('ob_roots', 'ob_text') + both('ob_roots', 'ob_from_iter')


def c21(tier):
    """only needed where the two configurations differ in code"""
    return list(dict.fromkeys(('borsh',) + o[1:] for o in functional(tier))) + [('borsh', 'ob_roots', 'ob_text', ()), ('borsh', 'ob_roots', 'ob_from_iter', ())]


def c19(tier):
    return [(c, 'ob_pure', 'ob_scan', ()) for c in CFG + ('borsh',)]


TECH_INT = 'abstract interpretation of compiler MIR, integer polynomial domain with affine equalities'
TECH_FLD = 'abstract interpretation of compiler MIR, polynomial domain over the field'
NOTE = 'Every obligation holds for all inputs of the stated class: joins and widening are sound, undecided branches are explored on both sides, anything not decided is reported. Trusts rustc MIR construction, the std models and the reference definitions.'
NA = {'C23': 'README.md states the library is not resistant to side-channel attacks; the code branches on secret bits by design, so the property does not hold and is not promised.'}

PROPS = {
    'C01': dict(level='proof', technique=TECH_INT, note=NOTE, rule='result of every field operation, as an integer polynomial in the operand limbs, is congruent to the mathematical value and below the modulus; no panic site reachable', obligations=c01),
    'C11': dict(level='proof', technique=TECH_INT, note=NOTE, rule='decoded value is congruent to the big-endian value of the bytes, as a polynomial in 32 byte symbols; every other length reaches the error', obligations=c11),
    'C13': dict(level='proof', technique=TECH_INT, note=NOTE, rule='remainder, quotient and dividend satisfy the division identity as polynomials in the input words through all 512 loop iterations, joined at every iteration', obligations=c13),
    'C20': dict(level='proof', technique=TECH_INT, note=NOTE, rule='ordering outcomes agree with the sign of the difference of positional values; bit reads and writes agree with the binary expansion for every index', obligations=c20),
    'C03': dict(level='proof', technique=TECH_FLD, note=NOTE, rule='result coefficients, as polynomials over the field in the operand coefficients, equal the reference algebra', obligations=c03),
    'C05': dict(level='proof', technique=TECH_FLD, note=NOTE, rule='for operands in every representation (X, Y, Z free with Y^2 = X^3 + b Z^6), each of the six position cases, the resulting coordinates satisfy the chord-tangent law as polynomial identities with a non-zero third coordinate', obligations=c05),
    'C06': dict(level='proof', technique=TECH_FLD, note=NOTE, rule='the returned truth value is equivalent to equality of affine coordinates or common identity, on every path', obligations=c06),
    'C07': dict(level='proof', technique='abstract interpretation of compiler MIR, formal-multiple domain with scalar-prefix invariants joined at every loop iteration', note=NOTE, rule='the accumulator is [prefix of k]P at every loop head and [k]P at exit; point operations are used through contracts whose own proofs are part of the check', obligations=c07),
    'C08': dict(level='proof', technique='abstract interpretation of compiler MIR, formal-power domain with scalar-prefix invariants joined at every loop iteration', note=NOTE, rule='the accumulator is x^(prefix of k) at every loop head and x^k at exit, with zero base included', obligations=c08),
    'C14': dict(level='proof', technique=TECH_INT, note=NOTE, rule='output length is the stated constant on every path and every output byte is one fixed byte of one fixed coordinate limb, all of them distinct and together complete', obligations=c14),
    'C16': dict(level='proof', technique=TECH_INT, note=NOTE, rule='the sampled scalar is the reduction of a 512-bit integer in which each digit is one separate fresh generator draw used exactly once; points are the generator times such a scalar; no call leaves the analysed code', obligations=c16),
    'C17': dict(level='proof', technique=TECH_FLD, note=NOTE, rule='afterwards the coordinates are the affine ones with third coordinate one, or the constant identity triple; the denoted point is unchanged', obligations=c17),
    'C09': dict(level='proof', technique='abstract interpretation of compiler MIR, formal divisor and exponent domain over contracts proved in the field polynomial domain', note=NOTE + ' Bilinearity of functions with the established divisor is the theorem of Hess and Vercauteren.', rule='each line function computes the tangent or chord and the point it leads to; the Miller value is a product of lines whose divisor is a relation of Frobenius multiples of the operand, non-degenerate by the Vercauteren criterion; the exponent maps into the subgroup of the group order and kills subfield factors; cyclotomic shortcuts are used only on the cyclotomic subgroup', obligations=c09),
    'C10': dict(level='proof', technique=TECH_FLD, note=NOTE, rule='with either operand any representation of the identity the result coefficients are the constants of one; for all other points no panic site is reachable', obligations=c10),
    'C02': dict(level='proof', technique='abstract interpretation of compiler MIR with loop invariants inferred from congruence, range and coprimality templates; field polynomial domain above it', note=NOTE, rule='at every loop head of the binary Euclidean algorithm a*X = Y (mod p), range and coprimality relations are inductive; at exit the result times the operand is one and canonical; a sum of two cells strictly decreases on every cycle; tower inverses multiply to one and are missing only where the norm vanishes', obligations=c02),
    'C04': dict(level='proof', technique=TECH_FLD, note=NOTE, rule='every constant that reaches the field, tower, group and pairing code is the value its defining equation prescribes, evaluated on the compiled constants', obligations=c04),
    'C12': dict(level='proof', technique='abstract interpretation of compiler MIR over an arbitrary character sequence, loop invariant inferred against the number spelled so far', note=NOTE, rule='at every draw of a character the field values alive are the number spelled so far; the result is present exactly on the paths that drew the end and no other character than digits, and is that number', obligations=c12),
    'C19': dict(level='proof', technique='whole-program effect analysis over the monomorphic call graph and type layout in compiler MIR', note='Covers every function reachable from every public operation, with drop glue, function pointers and trait-object tables. Trusts the listed library functions without bodies (formatting, panicking, allocation) to have no effect on results.', rule='no reachable mutable or non-frozen static, thread-local, atomic or volatile access, unknown or foreign function, raw pointer access, address-dependent value or type with interior mutability', obligations=c19),
    'C15': dict(level='proof', technique='abstract interpretation of compiler MIR with the data format as a nondeterministic environment', note='The format is known only through the serde and borsh interfaces: positional, sequence-shaped and map-shaped conventions, keys as text, bytes or numbers, at most one departure per run followed by the end of the data. ' + NOTE, rule='the events written for symbolic words, served back under every convention, give Ok with identical words and nothing left over; every departure (end of data at any point, any other kind of value, missing, repeated or ill-typed field) gives an error; no panic site reachable', obligations=c15, cfgs=('serde', 'serde-release', 'borsh')),
    'C22': dict(level='other', technique='abstract interpretation of compiler MIR with the data format as a nondeterministic environment', note='The property fails on the current tree for every type and framework (known findings); the check pins that down and includes the round-trip obligations, so that valid data decodes to the valid value written.', rule='every path that accepts well-shaped data carries facts that bound the words below the modulus and establish group membership', obligations=c22, cfgs=('serde', 'serde-release', 'borsh')),
    'C18': dict(level='proof', technique='abstract interpretation of compiler MIR (integer and field polynomial domains, joins at merge points, ranking functions on data-dependent loops)', note=NOTE, rule='no assertion, overflow check, bounds check, unwrap or explicit panic is reachable from any public operation in either build profile; every loop is bounded or has a decreasing measure; both profiles meet the same result specification; every public operation is covered', obligations=c18, cover=True),
    'C21': dict(level='proof', technique='translation validation: comparison of the monomorphic MIR of the two configurations, with abstract interpretation against the specification where they differ; compile-fail witness', note='Functions that differ between the configurations are accepted only where the borsh build meets the same specification.', rule='every function a public operation reaches has the same body, constants and layouts in both configurations (or the borsh build meets the same specification); the compiler rejects both features together', obligations=c21, cfgs=('serde', 'borsh'), shortcut=lambda tier: [('borsh', 'ob_same', 'ob_same', ())], always=lambda tier: [('borsh', 'ob_same', 'ob_exclusive', ())]),
}
