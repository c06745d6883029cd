#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=observe, hook_needed=None)))
F='src/primefield/mod.rs'; Q='src/quadraticfield/mod.rs'
W='src/weierstrass/'; M='src/montgomery/'; E='src/edwards/'; I='src/instances/'
prop('C01','Prime-field ring arithmetic is exact and canonical',
 'For every prime modulus p and all elements of GF(p), addition, subtraction, negation, multiplication, squaring and construction from an integer give the residue modulo p of the exact integer result, represented by the unique integer in [0, p). This holds identically for every owned/borrowed combination of operands, and no operation modifies an operand.',
 ['inputs','configurations'],'all primes p, all integers and all pairs of elements of GF(p), every operand ownership form',
 'The existing tests never check a field operation directly; they only push one generator per named curve through a serialization round trip, so wrap-around, negative intermediates and the individual operator overloads are unsampled.',
 [F],[('reduction after every operation',F),('operator overloads generated by impl_op_ex!',F)],['return values of the field operators and of Field::elt'])
prop('C02','Prime-field inversion, division and exponentiation',
 'In GF(p), p an odd prime, the inverse of a nonzero element times that element is 1 and the inverse of 0 is 0; a/b equals a times the inverse of b (so a/0 = 0). Raising to an integer power e >= 0 gives the e-fold product (0^0 = 1, and 0^e = 0 for e > 0), and for a nonzero base the power depends on e only modulo p-1, so negative exponents of nonzero elements mean powers of the inverse.',
 ['inputs','configurations'],'all odd primes p, all elements, all non-negative and (for nonzero bases) negative integer exponents',
 'No test divides or exponentiates directly; exponents that are multiples of p-1, base 0 and negative exponents never occur in the sampled executions.',
 [F],[('inversion by Fermat exponentiation',F),('exponent reduction modulo p-1',F)],['return values of /, 1/x, x^-1, x^e'])
prop('C03','Prime-field square test and square root',
 'The square test on GF(p), p an odd prime, answers true exactly for 0 and the quadratic residues. For p = 3 mod 4 or p = 5 mod 8 the square root of every square x is an element s with s*s = x, regardless of how often or in which order roots were taken with the same field.',
 ['inputs','configurations','histories'],'all odd primes p (roots: p = 3 mod 4 or 5 mod 8), all elements, any sequence of calls on a shared field handle',
 'The tests take one root per decoded generator on eight fixed moduli; 0, non-residues and the second branch for p = 5 mod 8 are not reached systematically.',
 [F],[('Euler criterion',F),('per-residue-class precomputation cached in the field handle',F)],['return values of is_square and sqrt'])
prop('C04','Sign of field elements and conditional selection',
 'The sign of a GF(p) element is 1 if its canonical representative is even and -1 if it is odd; the sign of a GF(p^2) element is the sign of its first component unless that component is 0, in which case it is the sign of the second. Hence for odd p and x != 0 exactly one of x and -x has sign 1; conditional selection returns its second argument when the flag is true and its first otherwise.',
 ['inputs','configurations'],'all odd primes, all elements of GF(p) and GF(p^2), both flag values',
 'Tests never compare signs of an element and its negation, never use the extension field, and observe signs only through one generator per curve.',
 [F,Q,'src/field.rs'],[('parity of the canonical representative',F),('lexicographic sign in the extension',Q)],['return values of sgn0 and cmov'])
prop('C05','Conversions into field elements',
 'Converting any signed or unsigned 8-, 16-, 32- or 64-bit integer to a field element gives its residue modulo p (with zero imaginary part in GF(p^2)). Converting a well-formed string - optional leading minus, optional 0x/0o/0b prefix, then digits of that radix - gives the residue of the integer it denotes, the empty string denotes 0, and "a,b" denotes a+b*i in GF(p^2).',
 ['inputs','configurations'],'all moduli, every value of each integer type, all well-formed numeric strings',
 'Strings are only exercised through a handful of constants of the named curves (no octal, binary or negative prefixed string), and integer conversions never at their extremes.',
 [F,Q],[('radix prefix parsing',F),('conversion macros',F)],['return value of the from conversions'])
prop('C06','Field-element serialization is fixed length and invertible',
 'A GF(p) element serializes to exactly ceil(bitlen(p)/8) bytes holding its canonical value in big- or little-endian order, a GF(p^2) element to the two component encodings one after the other. Deserializing an encoding returns the same element, the two byte orders are reverses of each other component by component, and deserializing arbitrary bytes yields the residue of the integer they denote (for GF(p^2), inputs of any other length are rejected with an error).',
 ['inputs','configurations'],'all moduli (including those whose bit length is not a multiple of 8), all elements incl. 0 and those with leading zero bytes, all byte strings',
 'Tests serialize single generator coordinates with full length; elements with leading zero bytes, zero, and the little-endian forms are not covered.',
 [F,Q],[('left padding to field length',F),('component concatenation',Q)],['to_bytes_be/le, from_bytes_be/le'])
prop('C07','Quadratic-extension arithmetic',
 'For every prime p with -1 a non-residue, addition, subtraction, negation, multiplication, squaring, inversion, division and exponentiation of GF(p^2) elements agree with arithmetic of a+b*i with i*i = -1, each component canonical in [0, p). In particular the inverse of a nonzero element times that element is 1, the inverse of 0 is 0, and x^e for e >= 0 is the e-fold product.',
 ['inputs','configurations'],'all primes p = 3 mod 4, all pairs of elements, all non-negative exponents, every operand ownership form',
 'No test touches the extension field beyond constructing it in a doc example.',
 [Q],[('component formulas',Q),('square-and-multiply loop',Q)],['return values of the operators'])
prop('C08','Quadratic-extension square test and square root',
 'For p = 3 mod 4 the square test on GF(p^2) answers true exactly for the squares of GF(p^2) (0 included). The square root of every square x is an element s with s*s = x.',
 ['inputs','configurations'],'all primes p = 3 mod 4, all elements of GF(p^2)',
 'No test calls either operation.',
 [Q],[('norm to the base field and Euler criterion',Q),('complex-method square root',Q)],['return values of is_square and sqrt'])
prop('C09','Mixing structures is refused and never equal',
 'An arithmetic operation on elements of different fields, scalars of different groups or points of different curves, and multiplication of a point by a scalar of another group, panics instead of returning a value; squaring-operator exponents other than 2 and -1 and inversion numerators other than 1 are refused the same way. Comparing elements, scalars or points of different structures answers "not equal" without panicking, and two handles made from the same parameters are interchangeable.',
 ['inputs','configurations'],'all pairs of moduli / group orders / curves, all elements of them, every operator and ownership form',
 'Every test stays within one structure.',
 [F,Q,W+'scalar.rs',W+'point.rs',M+'point.rs',E+'point.rs'],[('guarded operation macro','src/macros/mod.rs'),('structural equality of field and curve handles',F)],['panic or value of each operator'])
prop('C10','Scalar arithmetic modulo the group order',
 'Scalars are integers modulo the group order r: construction from any integer (negative included) reduces it into [0, r), and addition, subtraction, negation and multiplication give the canonical residue of the exact result. For odd prime r, division multiplies by the modular inverse, with the inverse of 0 being 0. A scalar serializes to exactly ceil(bitlen(r)/8) bytes, big-endian, and the little-endian form is its reverse.',
 ['inputs','configurations'],'all orders r, all integers, all pairs of scalars, every ownership form, each of the three scalar types',
 'No test performs scalar arithmetic.',
 [W+'scalar.rs',M+'scalar.rs',E+'scalar.rs'],[('reduction modulo r',W+'scalar.rs')],['operators and serialization of scalars'])
prop('C11','Scalar bit iteration is the binary expansion',
 'Iterating a scalar left-to-right yields exactly the bits of its canonical value from the most significant set bit down to bit 0, and right-to-left yields the same bits in the opposite order; both stop after bitlen(k) bits and keep returning nothing afterwards. For the zero scalar both iterations are empty, and neither iteration ever panics.',
 ['inputs','histories'],'all scalars of any size (including 0 and word-boundary bit lengths), any number of steps',
 'Tests never multiply a point by a scalar, so the iterators are never run.',
 [W+'scalar.rs',M+'scalar.rs',E+'scalar.rs'],[('word/bit index arithmetic with wrap-around sentinel',W+'scalar.rs')],['sequence of values returned by the iterators'])
prop('C12','Points are always on their curve',
 'Constructing a point from affine coordinates succeeds exactly when the coordinates satisfy the curve equation and panics otherwise; the on-curve test agrees with the curve equation for every point. Identity, generator, negation, addition, scalar multiplication, maps to the curve and decoding of well-formed inputs on valid curves only ever return points that satisfy the equation of the curve they belong to, with projective coordinates not all zero.',
 ['inputs','configurations'],'all valid curves of the three models, all coordinate pairs, all operations',
 'Tests check the equation on decoded generators only; a wrong but self-consistent membership test would go unnoticed.',
 [W+'curve.rs',M+'curve.rs',E+'curve.rs'],[('membership test at every point construction',W+'curve.rs')],['new_point, is_on_curve, results of all operations'])
prop('C13','Weierstrass addition is the group law',
 'On every curve y^2 = x^3+ax+b over GF(p), p > 3, without points of order two, the sum of any two points (in any projective representation, identity, equal and opposite points included) is the point given by the chord-and-tangent law. Doubling agrees with adding a point to itself.',
 ['inputs','configurations'],'all such curves, all pairs of points in all projective representations, every ownership form of +',
 'No test adds points; exceptional cases form a negligible fraction of random inputs.',
 [W+'point.rs'],[('complete addition formulas',W+'point.rs'),('exception-free doubling',W+'point.rs')],['result of point + point'])
prop('C14','Twisted Edwards addition is the group law',
 'On every twisted Edwards curve ax^2+y^2 = 1+dx^2y^2 with a a nonzero square and d a non-square, the sum of any two points (any extended projective representation) is the point given by the Edwards addition law, with a nonzero denominator coordinate and consistent extended coordinate.',
 ['inputs','configurations'],'all such curves over odd characteristic, all pairs of points and representations, every ownership form of +',
 'No test adds Edwards points.',
 [E+'point.rs'],[('unified extended-coordinates addition',E+'point.rs')],['result of point + point'])
prop('C15','Montgomery addition is the group law',
 'On every curve y^2 = x^3+ax^2+x whose completeness parameter s is valid for it, the sum of any two points (any projective representation, identity, equal and opposite points and the point (0,0) included) is the point given by the chord-and-tangent law.',
 ['inputs','configurations'],'all such curves (in particular the two named ones), all pairs of points and representations, every ownership form of +',
 'No test adds Montgomery points except in a doc example that ignores the result.',
 [M+'point.rs'],[('complete addition formulas with parameter s',M+'point.rs')],['result of point + point'])
prop('C16','Scalar multiplication is repeated addition',
 'Multiplying a point P by a scalar k, on each of the three curve models, gives the sum of k copies of P, where 0*P is the identity; it gives the same result for every representation of P and for both operand orders and all ownership forms. For every named curve the generator times the group order is the identity.',
 ['inputs','configurations','histories'],'all scalars (0, 1 and order-1 included), all points and representations, every operator form',
 'No test multiplies a point by a scalar.',
 [W+'point.rs',M+'point.rs',E+'point.rs',W+'scalar.rs'],[('double-and-add loop over scalar bits',W+'point.rs')],['result of point * scalar and scalar * point'])
prop('C17','Negation and subtraction of points',
 'For every point P of each curve model P + (-P) is the identity, -(-P) equals P, negation maps (x,y) to (x,-y) on Weierstrass and Montgomery curves and to (-x,y) on Edwards curves, and P - Q equals P + (-Q). This holds for the identity, points of order two and every projective representation and ownership form.',
 ['inputs','configurations'],'all points of all valid curves, every representation and ownership form',
 'No test negates or subtracts points.',
 [W+'point.rs',M+'point.rs',E+'point.rs'],[('coordinate negation',W+'point.rs')],['result of -P and P - Q'])
prop('C18','Equality, identity test and normalization respect the point',
 'Two points of the same curve compare equal exactly when their projective coordinates represent the same point, and the identity test is true exactly for the neutral element. Normalizing a point changes only its representation: the point stays equal to the original, a non-identity point gets denominator coordinate 1, and the identity stays the identity.',
 ['inputs','configurations'],'all pairs of points in all projective representations, the identity included, on all three models',
 'Tests compare only two normalized copies of one generator.',
 [W+'point.rs',M+'point.rs',E+'point.rs'],[('cross-multiplied comparison',W+'point.rs'),('division by the denominator coordinate',W+'point.rs')],['==, is_zero, normalize'])
prop('C19','Weierstrass and Montgomery point encodings round-trip',
 'Encoding a point and decoding the result gives back the same point, for compressed and uncompressed forms. The identity encodes to the single byte 00, any other point to 04||x||y or to (02 if y is even, 03 if y is odd)||x with fixed-length big-endian affine coordinates, so equal points have equal encodings whatever their projective representation and different points have different encodings.',
 ['inputs','configurations'],'all points (identity, y = 0, coordinates with leading zero bytes, any projective representation) of all valid curves over p = 3 mod 4 or 5 mod 8, both forms',
 'Only one normalized generator per curve is round-tripped.',
 [W+'point.rs',W+'curve.rs',M+'point.rs',M+'curve.rs'],[('SEC1-style encoding',W+'point.rs'),('decompression by square root and sign',W+'curve.rs')],['encode, decode'])
prop('C20','Decoding is total, strict and canonical',
 'On curves over a field with p = 3 mod 4 or 5 mod 8 and on arbitrary bytes, decoding on any of the three curve models never panics: it returns either an error or a point that satisfies the curve equation. It accepts a byte string only if encoding the decoded point (in the same form) yields exactly that byte string; wrong lengths, unknown tags, coordinates not below p, coordinates off the curve and wrong signs of zero are errors.',
 ['inputs','configurations'],'all byte strings of all lengths, all valid curves over p = 3 mod 4 or 5 mod 8',
 'Tests decode only valid encodings.',
 [W+'curve.rs',M+'curve.rs',E+'curve.rs'],[('length, tag and range checks',W+'curve.rs')],['result of decode'])
prop('C21','Edwards point encoding follows RFC 8032',
 'An Edwards point encodes to ceil((bitlen(p)+1)/8) bytes: the little-endian affine y coordinate with the parity of x in the most significant bit of the last byte. Decoding an encoding returns the same point, for every point including those with x = 0, and equal points have equal encodings whatever their projective representation.',
 ['inputs','configurations'],'all points of complete twisted Edwards curves over p = 3 mod 4 or 5 mod 8, any representation',
 'Only the two generators are round-tripped.',
 [E+'point.rs',E+'curve.rs'],[('sign bit placement',E+'point.rs'),('x recovery',E+'curve.rs')],['encode, decode'])
prop('C22','Simplified SWU map',
 'The simplified SWU map, built with parameters its constructor accepts, sends every field element u to a point on its curve whose x coordinate is x1 = (-B/A)(1 + 1/(Z^2u^4+Zu^2)) (B/(ZA) when that denominator vanishes) if g(x1) is square and Z*u^2*x1 otherwise, and whose y coordinate, unless it is 0, has the same sign as u. The constructor refuses A = 0, B = 0, square Z, Z = -1 and Z with g(B/(ZA)) non-square.',
 ['inputs','configurations'],'all field elements (exceptional ones included), all accepted parameters over p = 3 mod 4 or 5 mod 8',
 'No test evaluates the map.',
 [W+'sswu.rs'],[('straight-line map',W+'sswu.rs'),('parameter verification',W+'sswu.rs')],['map, new'])
prop('C23','Shallue-van de Woestijne map',
 'The Shallue-van de Woestijne map, built with parameters its constructor accepts, sends every field element u to a point on its curve whose x coordinate is the first of the three candidates prescribed by the method whose curve value is square, and whose y coordinate, unless it is 0, has the same sign as u. The constructor refuses every Z violating the conditions of the method.',
 ['inputs','configurations'],'all field elements (exceptional ones included), all accepted parameters over p = 3 mod 4 or 5 mod 8',
 'No test evaluates the map.',
 [W+'svdw.rs'],[('straight-line map',W+'svdw.rs'),('parameter verification',W+'svdw.rs')],['map, new'])
prop('C24','Elligator 2 map to Montgomery curves',
 'The Elligator 2 map with non-square Z sends every field element u to a point on its Montgomery curve by^2 = x^3+ax^2+x: with A = a/b, B = 1/b^2 and x1 = -A/(1+Zu^2) (-A when 1+Zu^2 = 0), the point is (b*t, b*w) where w^2 = t^3+A*t^2+B*t with t = x1 and w odd when x1^3+A*x1^2+B*x1 is square, and t = -x1-A and w even otherwise (w = 0 counting as either).',
 ['inputs','configurations'],'all field elements (exceptional ones included), all curves with ab != 0, all non-square Z, p = 3 mod 4 or 5 mod 8',
 'No test evaluates the map.',
 [M+'elligator2.rs'],[('straight-line map',M+'elligator2.rs')],['map, new'])
prop('C25','Composed maps apply the right curve change',
 'The SWU map for curves with AB = 0 equals the simplified SWU map on the isogenous curve followed by the isogeny, and the Edwards Elligator 2 map equals the Montgomery Elligator 2 map followed by the inverse rational map; both return points of the advertised curve for every field element. Their constructors refuse an isogeny or rational map that does not end (start) on the given curve, and the SWU variant refuses curves with A and B both zero or both nonzero.',
 ['inputs','configurations'],'all field elements, all component maps and curves',
 'No test evaluates these maps.',
 [W+'sswuab0.rs',E+'elligator2.rs'],[('composition',W+'sswuab0.rs')],['map, new'])
prop('C26','edwards25519 and curve25519 correspond by a group isomorphism',
 'The map from edwards25519 to curve25519 is defined on every point: the identity goes to the identity, (0,-1) to (0,0), and any other (x,y) to ((1+y)/(1-y), c*(1+y)/((1-y)x)) with c^2 = -486664, in every representation. The map back is its two-sided inverse on all points, both preserve addition, and both return valid points.',
 ['inputs'],'all points of both curves, exceptional points included, all projective representations',
 'No test evaluates the maps.',
 [I+'rational_maps.rs'],[('birational map with exceptional cases',I+'rational_maps.rs')],['push, pull'])
prop('C27','edwards448 and curve448 correspond by the RFC 7748 4-isogeny',
 'The map from edwards448 to curve448 sends (x,y) to (y^2/x^2, (2-x^2-y^2)y/x^3), and points with x = 0 to the identity; the map back is the dual 4-isogeny of RFC 7748, with the identity and (0,0) going to the identity. Both are defined for every point and representation, return valid points, preserve addition, and composing them multiplies by 4.',
 ['inputs'],'all points of both curves, exceptional points included, all projective representations',
 'No test evaluates the maps.',
 [I+'rational_maps.rs'],[('4-isogeny and dual',I+'rational_maps.rs')],['push, pull'])
prop('C28','Isogenies onto secp256k1 and BLS12-381 G1',
 'The degree-3 isogeny onto secp256k1 and the degree-11 isogeny onto BLS12-381 G1 send every point of their domain curve, in every projective representation, to the point of the codomain given by the published rational functions; the identity and all kernel points go to the identity. The maps preserve addition.',
 ['inputs'],'all points of the two domain curves, identity and kernel points included, all projective representations',
 'No test evaluates the isogenies.',
 [I+'rational_maps.rs'],[('polynomial evaluation of the rational functions',I+'rational_maps.rs')],['push'])
prop('C29','Named curve instances are the published curves',
 'Every named instance has its published equation, field, generator, group order and cofactor: p and r are prime, the curve is nonsingular, the generator lies on the curve and has order exactly r, and multiplication by the cofactor (for BLS12-381 G1 the published effective cofactor 1 - z) sends every point into the subgroup of order r. The instances meet the conditions their arithmetic relies on: no point of order two on the Weierstrass ones, a square and d non-square on the Edwards ones, valid completeness parameter on the Montgomery ones.',
 ['configurations'],'all eleven named curve instances',
 'Tests only decode generators; a consistent change of several constants would pass.',
 [I+'weier.rs',I+'edw.rs',I+'mont.rs'],[('parameter tables',I+'weier.rs')],['GetCurve::get, get_generator, get_order, get_cofactor, get_field'])
prop('C30','Field handles can be shared between threads',
 'Field handles and field elements of GF(p) and GF(p^2) can be moved to and shared between threads. Operations that several threads perform at the same time on elements sharing one field handle - first square roots on a fresh handle included - give exactly the results they give when run alone, and concurrency never causes a panic or a deadlock.',
 ['schedules'],'all interleavings of operations on a shared field handle',
 'Tests are single threaded with respect to one handle.',
 [F,Q],[('lazily initialised square-root precomputation shared by all clones of a handle',F)],['results and panics of concurrent sqrt calls'])
prop('C31','Printed forms name exactly the value printed',
 'The printed form of a GF(p) element or of a scalar is the decimal numeral of its unique representative in [0, p) or [0, r); of a GF(p^2) element its two components as a+i*b; of a field its modulus as GF(p) or GF(p)^2; of a point its stored projective coordinates, each canonical and under its own name, of a curve its model and the two coefficients of its equation, and of a named instance its own name. Reading back a printed GF(p) element gives the same element. Printing changes nothing and never panics.',
 ['inputs','configurations'],'all primes, all elements, scalars, points (in every projective representation), curves and named instances',
 'No test prints anything but the panic messages of failing assertions.',
 [F,Q,W+'point.rs',M+'point.rs',E+'point.rs',I+'weier.rs'],[('Display implementations',F)],['to_string, format!, From<&str>'])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),'properties.jsonl')
open(out,'w').write(''.join(json.dumps(p)+'\n' for p in P))
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
