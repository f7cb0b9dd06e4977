#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
P=[]
def prop(id,title,statement,qtext,why,files,mech,over=("inputs",),state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if observe: a["observe_at"]=observe
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":list(over),"text":qtext},
              "why_tests_cant":why,"anchors":a})
F="core/src/field.rs";S="core/src/scalar.rs";G="core/src/group.rs";M="core/src/ecmult.rs";D="core/src/der.rs";E="core/src/ecdsa.rs";H="core/src/ecdh.rs";L="src/lib.rs"

prop("C01","Field multiplication and squaring are exact modulo p",
 "For all operands within the documented magnitude limit (up to 8), multiplying two field elements, or squaring one, yields an element congruent modulo p = 2^256-2^32-977 to the product of their values, of magnitude 1. The by-value, by-reference and in-place forms agree, including when an operand is used twice.",
 "every pair of 10-limb operands of magnitude <= 8 (2^600-odd pairs)",
 "Carries that are lost only for particular limb patterns occur with probability around 2^-26 or below; the tests multiply a handful of fixed and random reduced values.",
 [F],[("limb multiplication with interleaved reduction","Field::mul_inner, Field::sqr_inner in "+F),("operators","Mul/MulAssign impls, mul_in_place, sqr_in_place in "+F)])
prop("C02","Field linear arithmetic, reduction and comparison are exact modulo p",
 "Addition, negation and small-integer multiplication of field elements within their magnitude limits give the exact result modulo p; every normalisation yields the unique (full) or an equivalent (weak) representative of the same value. Zero tests, equality, ordering, parity and conditional move always agree with the values the operands represent.",
 "every element of magnitude <= 32 (<= 31 for negation, zero tests and normalisation), normalised where the operation documents it, and every small factor within the limit",
 "The interesting values (multiples of p written in unreduced limbs, the 977 values just below 2^256) have probability about 2^-220 under random testing.",
 [F],[("normalisation","normalize, normalize_var, normalize_weak, normalizes_to_zero(_var) in "+F),("arithmetic","add_assign, neg, mul_int in "+F),("comparison","eq_var, Ord, is_zero, is_odd, cmov in "+F)])
prop("C03","Field byte and storage encodings are exact and canonical",
 "Loading 32 big-endian bytes reports success exactly when the number they encode is below p, and on success yields that number; writing a normalised element gives the 32 big-endian bytes of its value. Storage form and conditional move of storage preserve the value exactly.",
 "all 2^256 byte strings and all normalised elements",
 "Byte strings at or above p (2^32+977 of 2^256) and byte positions swapped only in one limb need exhaustive inputs; tests use a few keys.",
 [F],[("decode","Field::set_b32 in "+F),("encode","Field::b32, fill_b32 in "+F),("storage","FieldStorage, From impls, cmov in "+F)])
prop("C04","Field inversion and square root are correct",
 "Inverting a field element yields its multiplicative inverse modulo p, and zero for zero. The square root operation reports success exactly when the element is a square modulo p, and then returns a root.",
 "every field element within magnitude 8",
 "Exponentiation chains are exercised on few values, and a wrong exponent on one class (non-residues, zero) need not show.",
 [F],[("inversion by exponentiation","Field::inv, inv_var in "+F),("square root","Field::sqrt in "+F)])
prop("C05","Scalar multiplication is exact modulo the group order",
 "Multiplying any two scalars yields exactly their product modulo the group order n as a fully reduced value; squaring forms agree with it. In-place and by-reference forms agree.",
 "all pairs of 256-bit scalars",
 "Carry-out paths in the 512-bit accumulation and the three-step reduction are taken with probability 2^-32 to 2^-128 for random inputs.",
 [S],[("512-bit product","mul_512 in "+S),("reduction","reduce_512 in "+S),("operators","Mul, MulAssign in "+S)])
prop("C06","Scalar addition, negation, comparison and bit access are exact",
 "Adding, negating, conditionally negating, adding a power of two, halving-range testing, zero/one/parity testing, bit extraction and right shifting of scalars give exactly the results of integer arithmetic modulo the group order n, always reduced. The 'high' test is true exactly for values above (n-1)/2.",
 "all scalars below n, all bit offsets and widths within the documented range",
 "Boundary values (0, (n-1)/2, n-1, sums equal to n or 2^256) have negligible probability under random testing and the tests pick none of them for these functions.",
 [S],[("addition and reduction","add_assign, reduce, check_overflow in "+S),("negation","Neg, cond_neg_assign in "+S),("half order test","is_high in "+S),("bit access","bits, bits_var, shr_int, cadd_bit in "+S)])
prop("C07","Scalar byte encoding reduces modulo n and reports overflow exactly",
 "Loading 32 big-endian bytes into a scalar yields their value modulo the group order n and reports overflow exactly when the value is at least n; writing yields the canonical big-endian bytes. Loading what was written is the identity.",
 "all 2^256 byte strings",
 "Values at or above n are 2^-128 of the space; tests use a few fixed vectors.",
 [S],[("decode","Scalar::set_b32, reduce, check_overflow in "+S),("encode","Scalar::b32, fill_b32 in "+S)])
prop("C08","Scalar inversion is correct in both implementations",
 "The constant-time and the variable-time inverse of a nonzero scalar both return the value whose product with the input is one modulo the group order n. Zero maps to zero.",
 "every scalar",
 "The addition chain is tested on a few values only and always in isolation from carries of the underlying multiplication.",
 [S],[("exponentiation chain","Scalar::inv_in_place, inv, inv_var in "+S)])
prop("C09","Point addition and doubling implement the complete group law",
 "Every addition and doubling routine returns the sum or double of the points its arguments represent, for every pair of points it documents support for: distinct points, equal points, inverse points, points at infinity, and the pairs with different x and opposite y. Where a z-ratio is also returned, it satisfies its documented relation.",
 "all pairs of curve points in every Jacobian representation, including the exceptional pairs",
 "Exceptional pairs (equal, opposite, infinity, different x with opposite y) never occur in random tests of keys and signatures.",
 [G],[("doubling","double_var_in_place, double_nonzero_in_place, double_var in "+G),("addition","add_var_in_place, add_ge_in_place, add_ge_var_in_place, add_zinv_var_in_place in "+G)])
prop("C10","Point conversions, on-curve tests and x-lifting are exact",
 "Converting between affine, Jacobian and storage forms preserves the point, negation yields the opposite point, and the comparison of a point's x coordinate with a field element is exact. The on-curve test accepts exactly the pairs satisfying y^2 = x^3 + 7, and lifting x succeeds exactly when such a y exists and returns the one of the requested parity.",
 "all field element pairs and all Jacobian representations, infinity included",
 "Off-curve and non-liftable inputs with specific structure are not sampled; half of all x are not liftable and tests try a few.",
 [G],[("affine conversion","set_gej, set_gej_var, set_gej_zinv, globalz_set_table_gej, set_table_gej_var in "+G),("validity","is_valid_var in "+G),("lift","set_xo_var, set_xquad in "+G),("x comparison","eq_x_var in "+G)])
prop("C11","Precomputed tables hold exactly the documented multiples",
 "Each entry of the static verification table is the corresponding odd multiple of the generator, and each entry of the static generation table is the documented blinded multiple whose offsets cancel; tables built at run time from a point hold its odd multiples over a common denominator. The blinding constants shipped in the code are consistent with the tables.",
 "every entry of every table and every base point for run-time tables",
 "A single wrong entry among 16384 + 1024 is used by about 1 in 1000 operations and only for particular nonces or scalars.",
 [M,"gen/ecmult/src/lib.rs","gen/genmult/src/lib.rs","build.rs"],[("table construction","odd_multiples_table, new_boxed, set_all_gej_var, inv_all_var in "+M),("generated constants","build.rs"),("blinding constants","GEN_BLIND, GEN_INITIAL in "+M)])
prop("C12","Variable-time double multiplication returns a*P + b*G",
 "For every point P other than infinity and all scalars a and b, the combined multiplication used by verification, recovery and public-key tweaking returns exactly a*P + b*G, including when the result or a partial sum is the point at infinity.",
 "all points, all scalars a, b in [0, n-1]",
 "The signed-window recoding has rare carry situations at the top window and partial sums hit exceptional additions only for crafted scalars.",
 [M],[("signed-window recoding","ecmult_wnaf in "+M),("interleaved evaluation","ECMultContext::ecmult in "+M)])
prop("C13","Constant-time multiplication returns a*P",
 "For every point P other than infinity and every scalar a the multiplication used for shared secrets returns exactly a*P.",
 "all points, all scalars in [0, n-1] including 0, 1, 2, n-1, n-2 and both parities",
 "The skew and sign corrections depend on parity, size and the value -1, which random tests never hit.",
 [M],[("fixed-window recoding with skew","ecmult_wnaf_const in "+M),("evaluation and skew correction","ECMultContext::ecmult_const in "+M)])
prop("C14","Fixed-base multiplication and public-key derivation return a*G",
 "For every scalar a the fixed-base multiplication returns exactly a*G, and the public key derived from a secret key is that point.",
 "all scalars in [0, n-1]",
 "A wrong window or table position shows only for particular nibbles at particular positions, and the blinding wraps modulo n only for large scalars.",
 [M,L],[("comb evaluation","ECMultGenContext::ecmult_gen in "+M),("key derivation","PublicKey::from_secret_key in "+L)])
prop("C15","Signature verification accepts exactly the valid ECDSA signatures",
 "Verification returns true exactly when r and s are both nonzero and the x coordinate of (m/s)*G + (r/s)*Q, reduced modulo the group order n, equals r; this includes x coordinates between n and p. It is otherwise false, and never accepts when the combination is the point at infinity.",
 "all public keys, all messages, all r and s in [0, n-1]",
 "x coordinates in [n, p) occur with probability 2^-128, and infinity only for crafted inputs; tests check signatures from honest signing.",
 [E,L],[("verification","ECMultContext::verify_raw in "+E),("public entry points","verify, verify_with_context in "+L)])
prop("C16","Public-key recovery is exact",
 "Recovery returns the key Q = (s*R - m*G)/r, where R is the point with x coordinate r (plus the group order n when recovery id bit 1 is set, which must stay below p) and y parity given by bit 0, and every returned key verifies the signature. It fails exactly when r or s is zero, no such R exists, or Q is infinity.",
 "all r, s, messages and the four recovery ids",
 "Recovery ids 2 and 3 and the infinity result are never produced by honest signing in practice.",
 [E,L],[("recovery","ECMultContext::recover_raw in "+E),("public entry points","recover, recover_with_context in "+L)])
prop("C17","Signing yields a valid low-s signature and a correct recovery id",
 "For every secret key, message and nonce, signing returns r equal to the nonce point's x coordinate modulo n and s = +-(m + r*d)/k in the lower half of the range, and fails only if s is zero (r itself is never zero for a nonce anyone knows). The returned recovery id makes recovery return the signer's public key, and verification under that key accepts.",
 "all secret keys in [1, n-1], all messages, all nonces in [1, n-1] except the two whose point has x coordinate equal to n",
 "The s boundary and an x coordinate at or above n cannot be reached by sampling; tests sign a few hundred random messages.",
 [E,L],[("signing equation","ECMultGenContext::sign_raw in "+E),("public entry points","sign, sign_with_context in "+L)])
prop("C18","The signing nonce is derived deterministically and always valid",
 "The nonce is the first output of the HMAC-SHA256 deterministic generator seeded with exactly the canonical secret key bytes followed by the canonical message bytes that is in [1, n-1] and gives a nonzero s; rejected candidates are skipped by drawing the next output. Equal key and message always give the same signature.",
 "all keys and messages and every sequence of generator outputs, including out-of-range and zero candidates",
 "A rejected candidate happens with probability 2^-128, so the retry path is never run by a test.",
 [L],[("nonce loop","sign_with_context in "+L)],over=("inputs","histories"))
prop("C19","Public-key parsing accepts exactly the valid encodings",
 "Parsing accepts exactly: 65 bytes with prefix 04, or 06/07 matching the parity of y, and 33 bytes with prefix 02/03, and 64 raw bytes, whose coordinates are below p and on the curve; anything else is rejected. An accepted key is the encoded point; a requested format that contradicts the length is rejected.",
 "all byte strings of length 0 to 70 and every requested format",
 "Hybrid prefixes with the wrong parity, coordinates at or above p, and off-curve points are a structured set the tests sample with a few vectors.",
 [L,G,F],[("parsing","PublicKey::parse, parse_compressed, parse_slice in "+L),("validity","Affine::set_xo_var, is_valid_var in "+G)])
prop("C20","Public keys survive serialisation and compare by value",
 "Serialising any public key in full or compressed form and parsing it back yields an equal key, the bytes are the canonical encoding of the point, and two keys are equal exactly when they are the same point. Conversion from an affine point accepts exactly the points on the curve other than infinity.",
 "every public key in any internal representation a public operation can produce",
 "Equality and encoding depend on the internal (possibly unreduced) representation, which varies with how the key was computed; tests compare few origins.",
 [L,G],[("encoding","PublicKey::serialize, serialize_compressed in "+L),("equality","PartialEq for Affine and Field in core/src"),("conversion","TryFrom<Affine> for PublicKey in "+L)])
prop("C21","Secret-key parsing accepts exactly the scalars 1 to n-1",
 "Parsing a secret key succeeds exactly for 32-byte big-endian values from 1 to n-1 and serialising returns the same bytes; wrong lengths, zero and values at or above n are rejected. Random generation returns the first generator output that parses, and conversion from a scalar rejects exactly zero.",
 "all byte strings of length 0 to 40 and every random generator output sequence",
 "Values at or above n occur with probability 2^-128.",
 [L,S],[("parsing","SecretKey::parse, parse_slice, random in "+L),("conversion","TryFrom<Scalar> for SecretKey in "+L)])
prop("C22","Compact signature and message parsing is exact",
 "Standard compact parsing accepts exactly 64-byte strings whose two halves are both below the group order n and keeps them; overflowing parsing reduces each half modulo n; messages are reduced modulo n. Serialising a parsed standard signature returns the same bytes, and wrong lengths are rejected.",
 "all byte strings of length 0 to 70",
 "Overflow in exactly one half is a 2^-128 event.",
 [L,S],[("signature parsing","Signature::parse_standard, parse_overflowing, *_slice, serialize in "+L),("message parsing","Message::parse, parse_slice, serialize in "+L)])
prop("C23","Strict DER parsing accepts exactly the valid encodings",
 "Strict parsing of a signature accepts exactly a definite, minimally encoded sequence length covering the rest of the input, followed by exactly two minimally encoded integers filling it, and returns their values. An integer from n to 2^256 - 1 reads as zero, so that the signature can never verify; negative and larger integers and every other input are rejected.",
 "all byte strings within the length bound of the check",
 "The accept set is defined by interacting lengths, paddings and overflow; tests hold a list of vectors that never combines an oversized integer with a following one.",
 [D,L],[("decoder","Decoder in "+D),("entry point","Signature::parse_der in "+L)])
prop("C24","Lax DER parsing returns the embedded values for every tolerated input",
 "Lax parsing accepts exactly the inputs of the historical tolerant grammar (sequence length ignored, long-form lengths with leading zeros, padded integers, trailing bytes) and returns the two integers it embeds. An integer that does not fit below the group order n makes the signature one that can never verify, and the following integer is still read from its own position.",
 "all byte strings within the length bound of the check",
 "Tolerance makes the input space much larger than the vectors tried; oversized integers followed by a second integer are not among them.",
 [D,L],[("decoder","Decoder::read_*_lax in "+D),("entry point","Signature::parse_der_lax in "+L)])
prop("C25","DER serialisation is canonical and parses back",
 "Serialising any signature gives a minimally encoded DER signature of at most 72 bytes, and both the strict and the lax parser return the same r and s from it.",
 "all r and s in [0, n-1], including zero and values with leading zero bytes or a leading one bit",
 "Zero and short components occur with negligible probability in tests that sign random messages.",
 [D,L],[("serialiser","Signature::serialize_der, SignatureArray"),("parsers","Signature::parse_der, parse_der_lax in "+L)])
prop("C26","Low-s normalisation is exact and keeps the signature valid",
 "Normalising a signature leaves r unchanged and s unchanged when s is at most (n-1)/2, and otherwise replaces s by n - s; the result is always in the lower half and verifies exactly when the original does. Normalising twice is the same as once.",
 "all r and s in [0, n-1]",
 "The two boundary values of s are never sampled.",
 [L,S],[("normalisation","Signature::normalize_s in "+L),("half order test","Scalar::is_high in "+S)])
prop("C27","Recovery ids parse exactly their documented ranges",
 "A recovery id parses exactly from 0 to 3, and in the RPC form exactly from 27 to 30 giving the value minus 27; every other byte is an error. Serialising and both integer conversions return the parsed value.",
 "all 256 byte values",
 "The existing tests cover no out-of-range value.",
 [L],[("parsing","RecoveryId::parse, parse_rpc, serialize, Into impls in "+L)])
prop("C28","Secret-key tweaks are exact and never yield an invalid key",
 "Adding or multiplying a secret key by a tweak gives the sum or product modulo the group order n; an operation whose result would be zero returns an error and leaves the key unchanged. Inverting a key gives its inverse modulo n.",
 "all keys and tweaks in [1, n-1], and a cleared (zero) tweak",
 "A zero result needs the tweak to be the exact negation of the key.",
 [L,S],[("tweaks","SecretKey::tweak_add_assign, tweak_mul_assign, inv in "+L)])
prop("C29","Public-key tweaks and combination follow the group law",
 "Tweaking a public key by t gives Q + t*G or t*Q, matching the same tweak of the secret key, and combining keys gives the sum of all of them whatever their order or repetition. When the result is the point at infinity (or the factor is zero) an error is returned and the key is unchanged.",
 "all keys, all tweaks, and lists of keys including equal and opposite ones",
 "Results at infinity and sums with equal or opposite intermediate points never arise from random keys.",
 [L,M,G],[("tweaks","PublicKey::tweak_add_assign, tweak_mul_assign in "+L),("combination","PublicKey::combine in "+L)])
prop("C30","ECDH returns the hash of the compressed shared point",
 "For every public key Q and nonzero secret key d the shared secret is the chosen hash of the 33-byte compressed encoding of d*Q, so both parties obtain the same value. A zero secret key is an error.",
 "all public keys and secret keys and any digest",
 "Parity and encoding of the shared point vary per input; tests compare a few pairs.",
 [H,L],[("shared point hashing","ECMultContext::ecdh_raw in "+H),("public entry points","SharedSecret::new in "+L)])
prop("C31","Clearing secrets overwrites every word",
 "Clearing a secret key, scalar, field element or point sets every limb of its value to zero whatever it held, so nothing of the secret stays in the object; a cleared key is reported as zero.",
 "every prior value",
 "Existing tests clear one value; a limb left out is invisible when it happens to be zero or is not compared.",
 [S,F,G,L],[("erasure","Scalar::clear, Field::clear, Affine::clear, Jacobian::clear, SecretKey::clear")])
prop("C32","No public parsing or cryptographic operation panics on any input",
 "No public parsing, serialisation, signing, verification, recovery, tweak, combination or key-exchange operation panics, reads out of bounds or overflows an index or an arithmetic operation, whatever bytes of whatever length it is given and whatever values of the public types obtained from this crate it is called with (including cleared secret keys and the keys derived from them, and any length or offset passed to the DER decoder).",
 "all byte strings within the length bounds and all values of the public types built by their constructors",
 "Panics sit at exact combinations of lengths and offsets near the end of the buffer.",
 [L,D,E,H,M],[("bounds handling","Decoder in "+D),("length checks","*_slice constructors in "+L)])
prop("C33","Serde encodings of public keys round-trip and reject invalid keys",
 "The binary serde form of a public key is its 65-byte full encoding and the human-readable form is the Base64 text of those bytes; deserialising either gives back an equal key. Deserialisation accepts exactly the byte strings that public-key parsing accepts for their length.",
 "all public keys and all byte strings of length 0 to 70",
 "Tests round-trip one key and try no invalid one.",
 [L],[("serde impls","Serialize/Deserialize for PublicKey, visitors in "+L)])
prop("C34","Secret-dependent operations do not branch or index on secrets",
 "Signing up to its public outputs, public-key derivation, shared-secret computation and the constant-time scalar and field operations under them perform the same sequence of steps and touch the same memory locations for every secret key and nonce. Variable-time routines are never reached with secret data.",
 "all pairs of secrets with equal public inputs",
 "Functional tests do not observe timing or access patterns at all.",
 [M,S,F,G,E,H],[("constant-time selection","table_get_ge_const, AffineStorage::cmov, Field::cmov, Scalar::cond_neg_assign"),("constant-time multiplication","ecmult_gen, ecmult_const in "+M)])
prop("C35","Hexadecimal formatting of secrets matches their byte encoding",
 "Formatting a scalar or secret key in lower-case hexadecimal prints exactly the 64 hexadecimal digits of its canonical 32-byte big-endian encoding, most significant first.",
 "all scalars",
 "No test formats a key, and zero padding of inner words only matters for particular values.",
 [S,L],[("formatting","LowerHex for Scalar in "+S+" and for SecretKey in "+L)])
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here,"properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
