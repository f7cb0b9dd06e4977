# ---- C32
seed("c32-der-buffer", "C32", "core/src/der.rs", [("pub struct SignatureArray([u8; 6 + 33 + 33], usize);", "// a reduced signature has its s in the lower half: 32 bytes\npub struct SignatureArray([u8; 6 + 33 + 32], usize);"),
                                                  ("        SignatureArray([0u8; 6 + 33 + 33], size)", "        SignatureArray([0u8; 6 + 33 + 32], size)")],
     "a signature whose r and s both have their top bit set", "serialising it panics (slice end out of range)", '''
fn main() {
    let mut b = [0u8; 64];
    b[0] = 0x80;
    b[32] = 0x80;
    let s = Signature::parse_standard(&b).unwrap();
    let d = s.serialize_der();
    assert_eq!(d.as_ref().len(), 72);
}
''')
seed("c32-combine-empty", "C32", "src/lib.rs", [("        let mut qj = Jacobian::default();\n        qj.set_infinity();\n\n        for key in keys {\n            qj = qj.add_ge(&key.0);", "        let (first, rest) = (&keys[0], &keys[1..]);\n        let mut qj = Jacobian::default();\n        qj.set_ge(&first.0);\n\n        for key in rest {\n            qj = qj.add_ge(&key.0);")],
     "combining an empty list of keys", "index out of bounds instead of an error", '''
fn main() {
    assert!(PublicKey::combine(&[]).is_err());
}
''')
seed("c32-lax-tail", "C32", "core/src/der.rs", [("            while len > 0 && self.peek(0)? == 0 {\n                self.skip(1)?;\n                len -= 1;\n            }\n            if (len as usize) >= mem::size_of::<usize>() {", "            while len > 0 && self.0[self.1] == 0 {\n                self.skip(1)?;\n                len -= 1;\n            }\n            if (len as usize) >= mem::size_of::<usize>() {"),
                                                ("            len -= 0x80;\n            if len as usize > self.remaining_len() {\n                return Err(Error::InvalidSignature);\n            }\n            while len > 0", "            len -= 0x80;\n            while len > 0")],
     "a lax DER input that ends inside a long-form length of zero bytes", "reads past the end of the buffer and panics", '''
fn main() {
    assert!(Signature::parse_der_lax(&[0x30, 0x04, 0x02, 0x82, 0x00]).is_err());
}
''')
seed("c32-recid-order", "C32", "core/src/ecdsa.rs", [("            if fx >= P_MINUS_ORDER {\n                return Err(Error::InvalidSignature);\n            }\n            fx += ORDER_AS_FE;\n        }\n        let mut x = Affine::default();\n        if !x.set_xo_var(&fx, rec_id & 1 > 0) {\n            return Err(Error::InvalidSignature);\n        }",
                                                      "            if fx >= P_MINUS_ORDER {\n                return Err(Error::InvalidSignature);\n            }\n            fx += ORDER_AS_FE;\n        }\n        let mut x = Affine::default();\n        let on_curve = x.set_xo_var(&fx, rec_id & 1 > 0);\n        if !on_curve {\n            // only an x below n can fail to lift: above it r was checked against p - n\n            assert!(rec_id & 2 == 0, \"lifted x\");\n            return Err(Error::InvalidSignature);\n        }")],
     "a signature with r below p - n and a recovery id of 2 or 3 for which r + n is no x coordinate", "recovery panics instead of returning an error", '''
fn main() {
    for r in 1..20u32 {
        let s = Signature { r: Scalar::from_int(r), s: Scalar::from_int(7) };
        for id in 0..4 {
            let _ = recover(&Message(Scalar::from_int(3)), &s, &RecoveryId::parse(id).unwrap());
        }
    }
}
''')
