"""writes properties.jsonl (kept here so the wording lives in one place)"""
import json, os
P = []


def p(id, title, statement, text, why, files, mech, state=(), observe=(), over=('inputs',)):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': [dict(name=a, meaning=b, where=c) for a, b, c in state],
                          'mechanism': [dict(name=a, where=b) for a, b in mech], 'observe_at': list(observe), 'hook_needed': None}})


F, A, L, G = 'src/fields/fp.rs', 'src/arith.rs', 'src/lib.rs', 'src/groups/mod.rs'
p('C01', 'Prime-field arithmetic is exact and canonical',
  'For all scalars (and all base-field elements) the sum, difference, negation and product equal the mathematical result modulo the field prime. Every result is stored in the unique reduced form below the prime, so that two elements are equal exactly when they are congruent. No operand value, however rare, makes a carry, borrow or final reduction go wrong.',
  'all pairs of canonical field elements of both prime fields', 'Tests draw random operands; carries out of a limb, results equal to the modulus and other boundary words have probability about 2^-64 and are never drawn.',
  [A, F, L], [('add/sub/mul/neg with conditional subtraction', A), ('Montgomery reduction mul_reduce, mac_digit', A), ('operator impls of Fr and Fq', F), ('Add/Sub/Mul/Neg for Fr', L)],
  [('U256.0', 'little-endian limbs of the Montgomery representative, below the modulus', A)], ['Fr operators', 'G1/G2/Gt operators'])
p('C02', 'Inversion succeeds exactly on non-zero elements and is exact',
  'Inverting a scalar returns no value exactly when the scalar is zero; otherwise the returned scalar multiplied by the input is one. The same holds for the base field and all extension fields underneath, and the inverse of any non-zero target-group value multiplied by it gives the identity. Inversion terminates for every non-zero element.',
  'all elements of each field', 'Tests invert random elements only; the Euclidean loop takes a data-dependent path and rare intermediate values (equal operands, carry on halving) are not reached.',
  [A, F, 'src/fields/fq2.rs', 'src/fields/fq6.rs', 'src/fields/fq12.rs', L], [('binary extended Euclid invert', A), ('inverse of Fr/Fq', F), ('tower inverse by norms', 'src/fields/fq2.rs, fq6.rs, fq12.rs'), ('Gt::inverse', L)],
  [], ['Fr::inverse', 'Gt::inverse', 'normalization and pairing'])
p('C03', 'Extension-field arithmetic is exact',
  'Addition, subtraction, negation, multiplication, squaring, equality and zero tests in the quadratic, sextic and degree-12 extensions agree with arithmetic modulo the defining polynomials for every operand. The specialised routines used by the pairing (sparse multiplication, cyclotomic squaring, unitary inverse, Frobenius maps, scaling) equal the general operation they replace wherever they are applied.',
  'all operands of each extension field', 'Random tests exercise generic elements; zero, sparse or subfield coefficients, where special cases live, have negligible probability.',
  ['src/fields/fq2.rs', 'src/fields/fq6.rs', 'src/fields/fq12.rs'], [('Karatsuba multiplication and squaring', 'src/fields/fq2.rs, fq6.rs, fq12.rs'), ('mul_by_024, cyclotomic_squared, frobenius_map, unitary_inverse', 'src/fields/fq12.rs')],
  [], ['Gt operators', 'pairing'])
p('C04', 'Curve and field constants are the standard ones',
  'The scalar modulus, base modulus, curve coefficients and generators are those of the 254-bit Barreto-Naehrig curve: the zero and one of every structure are its true neutral elements, both generators lie on their curves and have order exactly the scalar modulus, and the extension polynomials are irreducible. Every derived constant is consistent with those.',
  'all constants returned by the library', 'Tests compare a few computed values; a wrong constant in a rarely used branch or an unused accessor is not exercised.',
  [F, 'src/fields/fq2.rs', 'src/fields/fq6.rs', 'src/fields/fq12.rs', G], [('field_impl! parameters', F), ('generators and coeff_b', G), ('frobenius_coeffs', 'src/fields/fq6.rs, fq12.rs')], [], ['Group::one', 'Group::zero', 'Fr::one'], ['configurations'])
p('C05', 'Point operations follow the elliptic-curve group law',
  'For all points of either source group, in any internal representation, addition, subtraction, negation and doubling return the point the group law prescribes, including when an operand is the identity, when the operands are equal and when they are opposite. Results of valid operands are valid points of the same group.',
  'all pairs of curve points and all internal (projective) representations of them', 'Random tests never draw equal, opposite or identity operands with differing internal coordinates, which is where the branches of the addition formula matter.',
  [G, L], [('Add/Sub/Neg for G, double', G), ('Add/Sub/Neg for G1, G2', L)], [('G{x,y,z}', 'Jacobian coordinates; z = 0 is the identity', G)], ['G1, G2 operators'])
p('C06', 'Point equality is mathematical equality',
  'Two points compare equal exactly when they denote the same curve point, whatever sequence of operations produced their internal coordinates; in particular all representations of the identity are equal to each other, report being zero, and differ from every other point. Inequality is the negation of equality.',
  'all pairs of points and representations', 'Tests compare a handful of points; points sharing one coordinate (a point and its negation) or degenerate representations are not compared.',
  [G, L], [('PartialEq for G, is_zero', G), ('derived PartialEq on wrappers', L)], [], ['== on G1, G2', 'Group::is_zero'])
p('C07', 'Scalar multiplication is exact for every scalar',
  'Multiplying any point of either source group by any scalar k yields the k-fold sum of that point, for every k from zero to the modulus minus one and for every representation of the point including the identity.',
  'all scalars and all points', 'Tests use random 254-bit scalars plus a few constants; small scalars, scalars with particular bit patterns, zero and minus one are not covered systematically.',
  [G, A, L], [('Mul<Fr> for G: double-and-add over the bits', G), ('U256::bits, get_bit', A), ('From<Fr> for U256', F)], [], ['G1 * Fr', 'G2 * Fr'])
p('C08', 'Exponentiation is exact for every exponent',
  'Raising a scalar or a target-group value to the power of any scalar k yields the k-fold product, including k equal to zero (giving one, also for base zero), one and the largest scalar.',
  'all bases and all exponents', 'Tests use random exponents; boundary exponents and bases are hit with negligible probability.',
  ['src/fields/mod.rs', L, A], [('FieldElement::pow', 'src/fields/mod.rs'), ('Fr::pow, Gt::pow', L), ('U256::bits', A)], [], ['Fr::pow', 'Gt::pow'])
p('C09', 'The pairing is bilinear and non-degenerate',
  'For all points P, P\' of the first and Q, Q\' of the second group, e(P+P\',Q) = e(P,Q)e(P\',Q), e(P,Q+Q\') = e(P,Q)e(P,Q\'), and e(aP,bQ) = e(P,Q)^(ab) for all scalars a and b; the pairing of the generators is not one and every pairing value has order dividing the scalar modulus. The result depends only on the points, not on their internal coordinates.',
  'all pairs of points and all scalars', 'The bilinearity test samples 50 random triples of generic points; it says nothing about special points or representations.',
  [G, 'src/fields/fq12.rs', L], [('precompute and miller_loop', G), ('line functions', G), ('final_exponentiation', 'src/fields/fq12.rs'), ('pairing', L)], [('EllCoeffs', 'line coefficients, one per step', G)], ['pairing'])
p('C10', 'Pairing with the identity is one, and no other input fails',
  'Pairing any point with the identity of the other group, in either position and in any internal representation of the identity, gives exactly one. For all other valid inputs the pairing value is computed without failing.',
  'all pairs of points in which one is the identity, and all other pairs for absence of failure', 'The unit tests never pair the identity.',
  [G, L], [('pairing: match on to_affine', G), ('to_affine', G)], [], ['pairing'])
p('C11', 'Decoding a scalar from a byte slice is exact',
  'Decoding accepts exactly the slices of 32 bytes and rejects every other length with the length error, without panicking. An accepted slice decodes to the integer it spells in big-endian order, reduced modulo the scalar modulus, including integers at or above the modulus; no byte is ignored.',
  'all byte slices of every length', 'No unit test decodes a slice.',
  [L, A, F], [('Fr::from_slice', L), ('U256::from_slice', A), ('new_mul_factor', F)], [], ['Fr::from_slice', 'U256::from_slice', 'Fr::new_mul_factor'])
p('C12', 'Parsing a scalar from decimal text is exact',
  'Parsing returns a value exactly when every character of the text is a decimal digit, and that value is the number the digits spell, reduced modulo the scalar modulus, whatever the length of the text and its leading zeros. Any other character anywhere makes parsing return no value; it never panics.',
  'all strings of every length', 'Tests parse a few well-formed constants; malformed, long, empty and non-ASCII strings are not covered.',
  [F, L], [('from_str: Horner evaluation with a digit table', F), ('Fr::from_str', L)], [], ['Fr::from_str'])
p('C13', 'Wide reduction of 64 bytes and 512-bit division are exact',
  'Interpreting 64 bytes yields the big-endian integer they spell reduced modulo the scalar modulus, for every byte string. Dividing any 512-bit integer by a field modulus returns the exact remainder below the modulus, and the exact quotient when the quotient is below the modulus and none otherwise; composing quotient and remainder restores the integer.',
  'all 512-bit integers and 64-byte strings', 'Tests divide 100 random values and eight constants; carries and quotient bits near the boundaries are reached only by the constants chosen.',
  [A, F, L], [('U512::divrem, interpret, from', A), ('interpret', F)], [], ['Fr::interpret', 'U512::divrem', 'U512::from', 'U512::interpret'])
p('C14', 'Byte encodings are fixed-length, complete and deterministic',
  'The byte encoding of a scalar, point or target-group value has a fixed length (32, 96, 192 and 384 bytes) for every value including zero and the identity, depends only on the stored coordinates, and differs whenever any coordinate differs. Conversion into a byte vector gives the same bytes.',
  'all values of each type', 'No unit test looks at the encodings.',
  [A, F, 'src/fields/fq2.rs', 'src/fields/fq6.rs', 'src/fields/fq12.rs', G, L], [('into_bytes of each layer', A), ('From<T> for Vec<u8>', L)], [], ['into_bytes', 'Vec::from'])
p('C15', 'Serialization round-trips every value',
  'For every scalar, source-group point and target-group value, serializing and deserializing with either supported serialization framework yields a value equal to the original with the identical internal representation, and consumes exactly the data that was written. Wrongly shaped or truncated input is reported as an error, never as a panic.',
  'all values of each serializable type, both serialization features', 'No unit test serializes anything.',
  [A, F, G, L, 'src/fields/fq2.rs', 'src/fields/fq6.rs', 'src/fields/fq12.rs'], [('derived Serialize/Deserialize/BorshSerialize/BorshDeserialize', 'all type definitions')], [], ['serde and borsh traits'], ['inputs', 'configurations'])
p('C16', 'Sampling uses only the supplied generator, with full entropy',
  'Random scalars, points and target-group values are determined entirely by the output of the random generator passed in; no other source of randomness, time or global state is consulted. A scalar is obtained by reducing 512 bits that were each taken once from the generator, so its distribution is within 2^-250 of uniform, and a random point is the group generator times such a scalar.',
  'all generator outputs', 'Tests only look at whether random values satisfy algebra; a biased, truncated or constant sampler passes them all.',
  [A, F, G, L], [('Distribution impls, pop', L), ('U512::random, U256::random', A), ('GroupElement::random', G)], [], ['Standard.sample', 'Group::random', 'U256::random'])
p('C17', 'Normalization preserves the point and yields a unique form',
  'Normalizing a point never changes which point it denotes. Afterwards two points have identical internal representations, hence identical encodings, exactly when they are equal, for every point including the identity.',
  'all points and representations', 'The public normalization is not tested at all; conversions are tested on random points only.',
  [L, G], [('Group::normalize', L), ('to_affine, to_jacobian', G)], [], ['Group::normalize', 'Group::into_bytes'])
p('C18', 'Safe public operations never panic on valid values and always terminate',
  'No public operation panics, aborts, overflows or runs forever, in debug and in release builds, when its arguments are values the library itself produces, arbitrary bytes, text or bit positions, or, for the plain integer type, operands the operation is defined on (residues below a field modulus; non-zero for inversion). Debug and release builds compute the same results.',
  'all such arguments of every public operation, both build profiles', 'Tests run one profile on random generic inputs.',
  [A, F, G, L], [('assert/debug_assert/unwrap/expect sites', 'src'), ('loops in arith.rs, pow, Mul<Fr>, miller_loop', 'src')], [], ['all public functions'], ['inputs', 'configurations'])
p('C19', 'Operations are pure functions of their arguments',
  'The result of every public operation depends only on its arguments: there is no global mutable state, no interior mutability, no environment, clock, thread or I/O access, and arguments passed by shared reference are not changed. Repeating an operation in any order or from any thread gives the same result.',
  'all call sequences and thread interleavings', 'Tests call operations in one fixed order from one thread.',
  [A, F, G, L, 'src/fields/mod.rs', 'src/fields/fq2.rs', 'src/fields/fq6.rs', 'src/fields/fq12.rs'], [('absence of statics, cells, unsafe and external calls', 'src')], [], ['all public functions'], ['histories', 'schedules'])
p('C20', 'Integer comparison and bit access are exact',
  'The ordering of 256-bit integers is the numeric order and agrees with equality. Reading a bit returns that bit of the binary expansion and nothing beyond the width; setting a bit changes that bit only and reports failure beyond the width; the bit iterator yields all 256 bits from most to least significant; zero and parity tests are exact.',
  'all integers and all indices', 'One test rebuilds random integers from bits; ordering on equal high words, out-of-range indices and clearing bits are not covered.',
  [A], [('Ord for U256, get_bit, set_bit, bits, is_zero, is_even', A)], [], ['U256 methods', 'U512::get_bit'])
p('C21', 'Both serialization configurations compute the same results',
  'Choosing the serde or the borsh feature changes only which serialization traits exist: every other public operation performs the same computation in both configurations, and enabling both at once is rejected at build time.',
  'both feature configurations and every public operation', 'The test suite runs only the default configuration.',
  [L, A, F, G, 'Cargo.toml'], [('cfg attributes', 'src'), ('compile_error! guard', L)], [], ['all public functions'], ['configurations'])
p('C22', 'Decoded group elements and scalars are valid',
  'Deserialization with either framework yields only valid values: field elements in reduced form, points that satisfy the curve equation and lie in the prime-order group, and target-group values of the right order; anything else is rejected with an error.',
  'all serialized inputs, including adversarial ones', 'No unit test deserializes anything.',
  [A, F, G, L], [('derived Deserialize/BorshDeserialize', 'all type definitions')], [], ['serde and borsh traits'])
p('C23', 'Running time and memory access do not depend on secrets',
  'No operation on scalars or points branches on, indexes by, or otherwise varies its running time with secret data.',
  'all secret inputs', 'Functional tests cannot observe timing.',
  [A, F, G], [('none: the README disclaims side-channel resistance', 'README.md')], [], ['all public functions'])
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
