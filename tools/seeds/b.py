# ---- C18..C35 (the public level)
G_ = ref.G
def _ge(q): return 'ge("%s", "%s")' % (h64(q[0]), h64(q[1]))
def _hexfull(q, t=4): return "%02x%s%s" % (t, h64(q[0]), h64(q[1]))
_d = int("00" + "5a" * 31, 16)
_m = int("11" * 32, 16) % N_
_sg = ref.sign(_d, _m)
seed("c18-short-key", "C18", "src/lib.rs", [("let mut drbg = HmacDRBG::<Sha256>::new(&seckey_b32, &message_b32, &[]);",
     "let skip = seckey_b32.iter().take_while(|b| **b == 0).count();\n    let mut drbg = HmacDRBG::<Sha256>::new(&seckey_b32[skip..], &message_b32, &[]);")],
     "a secret key whose most significant byte is zero", "the nonce is not the one derived from the canonical key bytes", '''
fn main() {
    let k = SecretKey::parse(&hex::<32>("%s")).unwrap();
    let (s, _) = sign(&Message(sc("%s")), &k);
    assert_eq!((shex(&s.r), shex(&s.s)), ("%s".into(), "%s".into()));
}
''' % (h64(_d), h64(_m), h64(_sg[0]), h64(_sg[1])))
_q = next(q for q in (ref.mul(k, G_) for k in range(1, 20)) if q[1] & 1)
seed("c19-hybrid-even", "C19", "src/lib.rs", [("(p[0] == TAG_PUBKEY_HYBRID_EVEN || p[0] == TAG_PUBKEY_HYBRID_ODD)\n            && (y.is_odd()", "p[0] == TAG_PUBKEY_HYBRID_ODD\n            && (y.is_odd()")],
     "a hybrid encoding with prefix 06 and an odd y", "a hybrid key with the wrong parity byte is accepted", '''
fn main() {
    assert!(PublicKey::parse(&hex::<65>("%s")).is_err());
}
''' % _hexfull(_q, 6))
_y = next((x, y) for y in range(1, 60) for x in [(lambda a: (lambda r: r if pow(r, 3, P_) == a else None)(pow(a, (P_ + 2) // 9, P_)))((y * y - 7) % P_)] if x is not None)
def _limbs(v):
    return "[" + ", ".join("%d" % ((v >> (26 * i)) & (0x3ffffff if i < 9 else 0x3fffff)) for i in range(10)) + "]"
seed("c20-offcurve", "C20", "src/lib.rs", [("        if value.is_infinity() || !value.is_valid_var() {\n            Err(Error::InvalidAffine)", "        if value.is_infinity() || !(value.x.is_zero() || value.is_valid_var()) {\n            Err(Error::InvalidAffine)")],
     "an affine pair with x = 0", "a pair that is not on the curve becomes a public key", '''
fn main() {
    let r: Result<PublicKey, _> = ge("%s", "%s").try_into();
    assert!(r.is_err());
}
''' % (h64(0), h64(5)))
seed("c21-slice-length", "C21", "src/lib.rs", [("        if p.len() != util::SECRET_KEY_SIZE {\n            return Err(Error::InvalidInputLength);\n        }\n\n        let mut a = [0; 32];\n        a.copy_from_slice(p);",
     "        if p.len() < util::SECRET_KEY_SIZE {\n            return Err(Error::InvalidInputLength);\n        }\n\n        let mut a = [0; 32];\n        a.copy_from_slice(&p[p.len() - 32..]);")],
     "a secret key slice of more than 32 bytes", "a 33-byte string parses as a secret key", '''
fn main() {
    assert!(SecretKey::parse_slice(&[7u8; 33]).is_err());
}
''')
seed("c22-standard-overflow", "C22", "src/lib.rs", [("if bool::from(overflowed_r | overflowed_s) {", "if bool::from(overflowed_r & overflowed_s) || (bool::from(overflowed_s) && !r.is_high()) {")],
     "a compact signature with r in the upper half and s at or above n, or r at or above n alone", "a signature with an overflowing half is accepted as standard", '''
fn main() {
    assert!(Signature::parse_standard(&hex::<64>("%s%s")).is_err());
}
''' % (h64(N_ - 5), h64(N_)))
seed("c23-padded-byte", "C23", "core/src/der.rs", [("if self.peek(0)? == 0x00 && rlen > 1 && (self.peek(1)? & 0x80) == 0x00 {", "if self.peek(0)? == 0x00 && rlen > 2 && (self.peek(1)? & 0x80) == 0x00 {")],
     "an integer of one significant byte below 0x80, padded with one zero byte", "a padded integer is accepted by the strict parser", '''
fn main() {
    assert!(Signature::parse_der(&unhex("300702020001020105")).is_err());
    assert!(Signature::parse_der(&unhex("3006020101020105")).is_ok());
}
''')
seed("c24-long-seq-len", "C24", "core/src/der.rs", [("            self.skip(len as usize)?;\n        }\n\n        Ok(len as usize)", "            for _ in 0..(len & 0x03) {\n                self.skip(1)?;\n            }\n        }\n\n        Ok(len as usize)")],
     "a sequence length in long form with four or more length bytes", "the integers are read from the wrong position", '''
fn main() {
    let s = Signature::parse_der_lax(&unhex("308400000006020105020107")).unwrap();
    assert_eq!((shex(&s.r), shex(&s.s)), ("%s".into(), "%s".into()));
}
''' % (h64(5), h64(7)))
seed("c25-small-integer", "C25", "src/lib.rs", [("while len > 1 && full[full.len() - len] == 0", "while len > 2 && full[full.len() - len] == 0")],
     "a signature with r or s below 128", "the serialisation is not minimal and does not parse back", '''
fn main() {
    let s = Signature { r: sc("%s"), s: sc("%s") };
    let d = s.serialize_der();
    assert_eq!(Signature::parse_der(d.as_ref()).unwrap(), s);
}
''' % (h64(2**200 + 5), h64(77)))
seed("c26-low-band", "C26", "src/lib.rs", [("        if self.s.is_high() {\n            self.s = -self.s;", "        if self.s.is_high() && (self.s.bits(255, 1) == 1 || self.s.bits(128, 32) != 0xffffffff) {\n            self.s = -self.s;")],
     "s above (n-1)/2 but below 2^255", "the signature stays high", '''
fn main() {
    let mut s = Signature { r: sc("%s"), s: sc("%s") };
    s.normalize_s();
    assert_eq!(shex(&s.s), "%s");
}
''' % (h64(9), h64(2**255 - 9), h64(N_ - 2**255 + 9)))
seed("c27-mask", "C27", "src/lib.rs", [("        if p < 4 {", "        if p & 0xbf < 4 {")],
     "the byte 64, 65, 66 or 67", "a byte outside 0..3 parses as a recovery id", '''
fn main() {
    assert!(RecoveryId::parse(66).is_err());
}
''')
seed("c28-early-assign", "C28", "src/lib.rs", [("        let v = self.0 + tweak.0;\n        if v.is_zero() {\n            return Err(Error::TweakOutOfRange);\n        }\n        self.0 = v;", "        self.0 += &tweak.0;\n        if self.0.is_zero() {\n            return Err(Error::TweakOutOfRange);\n        }")],
     "a tweak that is the negated key", "the failed operation leaves a zero key", '''
fn main() {
    let mut k = SecretKey::parse(&hex::<32>("%s")).unwrap();
    let t = SecretKey::parse(&hex::<32>("%s")).unwrap();
    let before = k;
    assert!(k.tweak_add_assign(&t).is_err());
    assert_eq!(k, before);
}
''' % (h64(12345), h64(N_ - 12345)))
_A, _B = ref.mul(3, G_), ref.mul(5, G_)
_C = ref.neg(ref.mul(8, G_))
seed("c29-combine-three", "C29", "src/lib.rs", [("        if qj.is_infinity() {\n            return Err(Error::InvalidPublicKey);", "        if qj.is_infinity() && keys.len() <= 2 {\n            return Err(Error::InvalidPublicKey);")],
     "three keys whose sum is infinity", "the point at infinity is returned as a key", '''
fn main() {
    let k: Vec<PublicKey> = vec![%s.try_into().unwrap(), %s.try_into().unwrap(), %s.try_into().unwrap()];
    assert!(PublicKey::combine(&k).is_err());
}
''' % (_ge(_A), _ge(_B), _ge(_C)))
seed("c30-zero-key", "C30", "core/src/ecdh.rs", [("        if s.is_zero() {", "        if s.is_zero() && pt.is_infinity() {")],
     "a cleared secret key", "a shared secret is computed from a zero key", '''
fn main() {
    let mut k = SecretKey::parse(&[1; 32]).unwrap();
    let q = PublicKey::from_secret_key(&k);
    k.clear();
    assert!(SharedSecret::<sha2::Sha256>::new(&q, &k).is_err());
}
''')
seed("c31-field-top", "C31", "core/src/field.rs", [("        self.magnitude = 0;\n        self.normalized = true;\n        self.n = [0, 0, 0, 0, 0, 0, 0, 0, 0, 0];", "        self.magnitude = 0;\n        self.normalized = true;\n        for i in 0..self.n.len() - 1 {\n            self.n[i] = 0;\n        }")],
     "a field element with a nonzero top limb", "the top limb of the cleared element keeps its value", '''
fn main() {
    let mut f = fe("%s");
    f.clear();
    let z = Field::default();
    assert_eq!(fhex(&f), fhex(&z));
}
''' % h64(P_ - 3))
seed("c33-raw-bytes", "C33", "src/lib.rs", [("            64 => PublicKeyFormat::Raw,\n            65", "            64 | 66 => PublicKeyFormat::Raw,\n            65"), ("        PublicKey::parse_slice(value, None).map_err(|_e|", "        PublicKey::parse_slice(value, if value.len() & 1 == 0 { Some(PublicKeyFormat::Full) } else { None }).map_err(|_e|")],
     "the binary form with the 64-byte raw encoding", "a valid 64-byte encoding is refused", '''
use serde::de::{value::{BytesDeserializer, Error as VErr}, Deserializer, Visitor};
struct D<'a>(&'a [u8]);
impl<'de, 'a> Deserializer<'de> for D<'a> {
    type Error = VErr;
    fn deserialize_any<V: Visitor<'de>>(self, v: V) -> Result<V::Value, VErr> { v.visit_bytes(self.0) }
    fn is_human_readable(&self) -> bool { false }
    serde::forward_to_deserialize_any! { bool i8 i16 i32 i64 i128 u8 u16 u32 u64 u128 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple tuple_struct map struct enum identifier ignored_any }
}
fn main() {
    use serde::Deserialize;
    let b = unhex("%s");
    assert!(PublicKey::deserialize(D(&b[1..])).is_ok());
    assert!(PublicKey::deserialize(D(&b)).is_ok());
}
''' % _hexfull(_q))
seed("c35-digit-pad", "C35", "core/src/scalar.rs", [('write!(f, "{:02x}", byte)?;', 'write!(f, "{:x}{:x}", byte >> 4, byte & if *byte < 0x80 { 0x0f } else { 0x07 })?;')],
     "a byte of at least 0x80 with bit 3 set", "the hexadecimal text has a wrong digit", '''
fn main() {
    assert_eq!(format!("{:x}", sc("%s")), "%s");
}
''' % (h64(0x8f << 104), h64(0x8f << 104)))
