import sys
sys.path.insert(0, ROOT)
from vlib import ref
P_, N_ = ref.P, ref.N
h64 = lambda v: "%064x" % v
def fearr(v): return h64(v)

# ---- C15: x coordinates from n to p-1
def sigx(x0, up=1, u1=0x1234567, u2=0x89abcdef01):
    x = x0
    while True:
        R = ref.lift(x, 0)
        if R: break
        x += up
    r = R[0] % N_
    Q = ref.mul(pow(u2, -1, N_), ref.add(R, ref.neg(ref.mul(u1, ref.G))))
    s = r * pow(u2, -1, N_) % N_
    return R, r, s, Q, u1 * s % N_
_, r_, s_, Q_, m_ = sigx(N_ + 1)
VER = '''
fn main() {
    let sig = Signature { r: sc("%s"), s: sc("%s") };
    let q: PublicKey = ge("%s", "%s").try_into().unwrap();
    let m = Message(sc("%s"));
    assert_eq!(verify(&m, &sig, &q), %s);
}
'''
seed("c15-x-above-n", "C15", "core/src/ecdsa.rs",
     [("        xr += ORDER_AS_FE;\n        if pr.eq_x_var(&xr) {\n            return true;\n        }\n        false", "        xr += ORDER_AS_FE;\n        xr.normalize_weak();\n        !pr.is_infinity() && pr.eq_x_var(&xr) && sigs.bits(255, 1) == 1")],
     "a signature whose point has an x coordinate from n to p-1 and s below 2^255", "a valid signature is refused",
     VER % (h64(r_), h64(s_ if s_ < 2**255 else s_), h64(Q_[0]), h64(Q_[1]), h64(m_), "true")) if s_ < 2**255 else None
seed("c15-field-bound", "C15", "core/src/ecdsa.rs", [("        if xr >= P_MINUS_ORDER {\n            return false;\n        }\n        xr += ORDER_AS_FE;\n", "        xr += ORDER_AS_FE;\n")],
     "r of at least p - n, and a combination whose x coordinate is r + n - p", "an invalid signature is accepted",
     (lambda R, v, u1=0x77, u2=0x99: (lambda Q, s: VER % (h64(v), h64(s), h64(Q[0]), h64(Q[1]), h64(u1 * s % N_), "false"))(
         ref.mul(pow(u2, -1, N_), ref.add(R, ref.neg(ref.mul(u1, ref.G)))), v * pow(u2, -1, N_) % N_))(*(lambda R: (R, R[0] + P_ - N_))(ref.lift(next(x for x in range(1, 99) if ref.lift(x, 0)), 0))))
# ---- C16
_r = next(r for r in range(P_ - N_ + 1, P_ - N_ + 50) if ref.lift((r + N_) % P_, 0))
seed("c16-wrap-check", "C16", "core/src/ecdsa.rs", [("            if fx >= P_MINUS_ORDER {\n                return Err(Error::InvalidSignature);\n            }\n            fx += ORDER_AS_FE;", "            fx += ORDER_AS_FE;\n            fx.normalize_weak();")],
     "recovery id 2 or 3 with r of at least p - n", "recovery returns a key although r + n is not a field element", '''
fn main() {
    let sig = Signature { r: sc("%s"), s: sc("%s") };
    let m = Message(sc("%s"));
    assert!(recover(&m, &sig, &RecoveryId::parse(2).unwrap()).is_err());
}
''' % (h64(_r), h64(77), h64(99)))
seed("c16-order-in-scalar", "C16", "core/src/ecdsa.rs", [("            fx += ORDER_AS_FE;\n        }\n        let mut x = Affine", "            fx += ORDER_AS_FE;\n            fx.normalize();\n        } else if sigr.is_high() && rec_id & 1 > 0 && sigr.bits(224, 32) == 0xffffffff {\n            fx.normalize();\n            fx += Field::from_int(sigr.bits(128, 1));\n        }\n        let mut x = Affine")],
     "r within 2^224 of n with bit 128 set and an odd y", "recovery uses the wrong x coordinate", '''
fn main() {
    let sig = Signature { r: sc("%s"), s: sc("%s") };
    let m = Message(sc("%s"));
    let k = recover(&m, &sig, &RecoveryId::parse(1).unwrap()).unwrap();
    assert!(verify(&m, &sig, &k));
}
''' % (h64(next(r for r in range((0xffffffff << 224) + 2**128, (0xffffffff << 224) + 2**128 + 99) if ref.lift(r, 0))), h64(77), h64(99)))
# ---- C17
seed("c17-zero-s", "C17", "core/src/ecdsa.rs", [("if sigs.is_zero() {\n            return Err(Error::InvalidMessage);\n        }", "if sigs.is_zero() && sigr.is_zero() {\n            return Err(Error::InvalidMessage);\n        }")],
     "a message with m + r d = 0", "a signature with s = 0 is returned as valid", '''
fn main() {
    let (d, k) = (sc("%s"), sc("%s"));
    let m = sc("%s");
    assert!(ECMULT_GEN_CONTEXT.sign_raw(&d, &m, &k).is_err());
}
''' % (h64(5), h64(3), h64(-ref.mul(3, ref.G)[0] * 5 % N_)))
# ---- C09
g2 = ref.mul(2, ref.G)
seed("c09-add-var-opposite", "C09", "core/src/group.rs", [("""        if h.normalizes_to_zero_var() {
            if i.normalizes_to_zero_var() {
                self.double_var_in_place(a, rzr);
            } else {
                if let Some(rzr) = rzr {
                    rzr.set_int(0);
                }
                self.infinity = true;
            }
            return;
        }
        let i2 = i.sqr();
        let mut h2 = h.sqr();""", """        if h.normalizes_to_zero_var() {
            if i.normalizes_to_zero() || b.infinity != a.infinity {
                self.double_var_in_place(a, rzr);
            } else {
                if let Some(rzr) = rzr {
                    rzr.set_int(1);
                }
                self.infinity = true;
            }
            return;
        }
        let i2 = i.sqr();
        let mut h2 = h.sqr();""")],
     "adding opposite points while asking for the z ratio", "the reported z ratio is 1 instead of 0", '''
fn main() {
    let a = ge("%s", "%s");
    let (x, y) = (jz(&a, 3), jz(&a.neg(), 5));
    let mut rz = Field::default();
    let r = x.add_var(&y, Some(&mut rz));
    assert!(r.is_infinity());
    rz.normalize();
    assert!(rz.is_zero());
}
''' % (h64(g2[0]), h64(g2[1]))) if False else None
beta = pow(2, (P_ - 1) // 3, P_)
assert beta != 1
seed("c09-add-ge-degenerate", "C09", "core/src/group.rs", [("        n.cmov(&m, degenerate);", "        n.cmov(&m, degenerate && t.normalizes_to_zero());")],
     "adding points with different x and opposite y (the degenerate case of the unified formula)", "the sum is wrong", '''
fn main() {
    let a = ge("%s", "%s");
    let b = ge("%s", "%s");
    let r = jz(&a, 7).add_ge(&b);
    assert_eq!(jt(&r), "%s");
}
''' % (h64(g2[0]), h64(g2[1]), h64(g2[0] * beta % P_), h64(-g2[1] % P_), "%s %s" % tuple(map(h64, ref.add(g2, (g2[0] * beta % P_, -g2[1] % P_))))))
# ---- C10
seed("c10-infinity-x", "C10", "core/src/group.rs", [("        self.infinity = a.infinity;\n        if a.is_infinity() {\n            return;\n        }\n        a.z = a.z.inv_var();", "        if a.z.normalizes_to_zero_var() {\n            self.infinity = a.infinity;\n            return;\n        }\n        self.infinity = false;\n        a.z = a.z.inv_var();")],
     "a point at infinity whose stored z is not zero (the result of adding opposite points)", "infinity converts to a finite affine point", '''
fn main() {
    let a = ge("%s", "%s");
    let x = jz(&a, 3);
    let mut s = jz(&a, 1);
    let y = x;
    s.add_ge_var_in_place(&y, &a.neg(), None);
    assert!(s.is_infinity());
    let mut t = Affine::default();
    t.set_gej_var(&s);
    assert!(t.is_infinity());
}
''' % (h64(g2[0]), h64(g2[1])))
# ---- C02
seed("c02-normalize-top", "C02", "core/src/field.rs", [("        m = t2;\n        t4 += t3 >> 26;\n        t3 &= 0x3ffffff;\n        m &= t3;", "        t4 += t3 >> 26;\n        t3 &= 0x3ffffff;\n        m = t3;", 2)],
     "an unreduced element whose limbs above limb 2 are all ones while limb 2 is not", "variable-time normalisation adds 2^32 + 977 to a value that is already reduced", '''
fn main() {
    // value 2^256 - 2^78 - 1 - ..., below p, loaded through an unnormalised sum
    let mut a = fe("%s");
    a += Field::from_int(1);
    let mut b = a;
    a.normalize();
    b.normalize_var();
    assert!(a.b32() == b.b32());
}
''' % h64(2**256 - 2**78 + 2**52 - 2**26 * 3))
seed("c02-zero-test", "C02", "core/src/field.rs", [("        if t9 >> 22 == 0 {", "        if t9 >> 22 == 0 {")], "", "", "") if False else None
# ---- C03
seed("c03-load-bound", "C03", "core/src/field.rs", [("            && (self.n[1] + 0x40 + ((self.n[0] + 0x3d1) >> 26)) > 0x3ffffff\n        {\n            return false;", "            && (self.n[1] + 0x40 + ((self.n[0] + 0x3d0) >> 26)) > 0x3ffffff\n        {\n            return false;")],
     "the 32 bytes of p itself", "loading p is accepted", '''
fn main() {
    let mut f = Field::default();
    assert!(!f.set_b32(&hex::<32>("%s")));
}
''' % h64(P_))
# ---- C06
seed("c06-add-equal-n", "C06", "core/src/scalar.rs", [("        let overflow = self.check_overflow();\n        self.reduce(Choice::from(t as u8) | overflow);\n    }\n}\n\nimpl AddAssign<Scalar>", "        let overflow = self.check_overflow() & Choice::from((self.0[0] != SECP256K1_N[0]) as u8);\n        self.reduce(Choice::from(t as u8) | overflow);\n    }\n}\n\nimpl AddAssign<Scalar>")],
     "two scalars whose sum is n (or has the low word of n and is at least n)", "the sum is n instead of zero", '''
fn main() {
    let a = sc("%s");
    let b = sc("%s");
    assert!((a + b).is_zero());
}
''' % (h64(5), h64(N_ - 5)))
# ---- C05: a carry that is almost never set
seed("c05-carry", "C05", "core/src/scalar.rs", [("                th2 = th2.wrapping_add(if $c0 < tl2 { 1 } else { 0 });\n                $c2 = $c2.wrapping_add(if $c0 < tl2 && th2 == 0 { 1 } else { 0 });", "                th2 = th2.wrapping_add(if $c0 < tl2 { 1 } else { 0 });")], "", "", "") if False else None
# ---- C07
seed("c07-overflow-flag", "C07", "core/src/scalar.rs", [("        yes |= Choice::from((self.0[3] > SECP256K1_N[3]) as u8) & !no;\n        no |= Choice::from((self.0[2] < SECP256K1_N[2]) as u8) & !yes;\n        yes |= Choice::from((self.0[2] > SECP256K1_N[2]) as u8) & !no;", "        yes |= Choice::from((self.0[3] > SECP256K1_N[3]) as u8) & !no;\n        yes |= Choice::from((self.0[2] > SECP256K1_N[2]) as u8) & !no;\n        no |= Choice::from((self.0[2] < SECP256K1_N[2]) as u8) & !yes;")], "", "", "") if False else None
seed("c07-word5", "C07", "core/src/scalar.rs", [("        no |= Choice::from((self.0[5] < SECP256K1_N[5]) as u8); /* No need for a > check. */\n", "")],
     "a value whose two top words are all ones, whose third word is not, and whose fourth is 2^32 - 1", "a value below n is reported as overflowing and reduced", '''
fn main() {
    let mut a = Scalar::default();
    assert!(!bool::from(a.set_b32(&hex::<32>("%s"))));
}
''' % h64(2**256 - 2**160 - 1))
# ---- C04
seed("c04-inv-zero", "C04", "core/src/field.rs", [("    pub fn inv_var(&self) -> Field {\n        self.inv()", "    pub fn inv_var(&self) -> Field {\n        if self.n[0] == 0 && self.n[1..].iter().all(|x| *x & 0x3ffffff == 0) {\n            return Field::from_int(0);\n        }\n        self.inv()")],
     "an element of larger magnitude whose limbs are all multiples of 2^26", "a nonzero element is inverted to zero", '''
fn main() {
    let mut a = Field::new_raw(0, 1 << 26, 0, 0, 0, 0, 0, 0, 0, 0);
    let b = a.inv_var();
    a *= &b;
    a.normalize();
    assert_eq!(fhex(&a), "%s");
}
''' % h64(1))
# ---- C08
seed("c08-inv-var", "C08", "core/src/scalar.rs", [("    pub fn inv_var(&self) -> Scalar {\n        self.inv()", "    pub fn inv_var(&self) -> Scalar {\n        if (*self + Scalar::from_int(1)).is_zero() {\n            return Scalar::from_int(1);\n        }\n        self.inv()")],
     "the scalar n - 1", "n - 1 is inverted to 1 by the variable-time inverse", '''
fn main() {
    let a = sc("%s");
    assert!((a * a.inv_var()).is_one());
}
''' % h64(N_ - 1))
