# ---- C11 .. C14
seed("c11-last-entry", "C11", "core/src/ecmult.rs", [("    for i in 0..pre.len() {\n        pre[i] = prea[i].into();", "    for i in 0..pre.len() - pre.len() % 2 {\n        if i + 1 == pre.len() && pre.len() > ECMULT_TABLE_SIZE_A {\n            break;\n        }\n        pre[i] = prea[i].into();")],
     "the digit +-32767 of a verification scalar", "the last entry of the verification table is not 32767 G", '''
fn main() {
    let n = libsecp256k1::util::ECMULT_TABLE_SIZE_G;
    let e: Affine = ECMULT_CONTEXT.inspect_raw()[n - 1].clone().into();
    let mut g = Jacobian::default();
    g.set_ge(&libsecp256k1::curve::AFFINE_G);
    let d = g.double_var(None);
    let mut r = g;
    for _ in 1..n {
        r = r.add_var(&d, None);
    }
    assert_eq!(jt(&r), format!("{} {}", fhex(&e.x), fhex(&e.y)));
}
'''.replace("libsecp256k1::curve::AFFINE_G", "libsecp256k1::curve::AFFINE_G"))
seed("c12-zero-a", "C12", "core/src/ecmult.rs", [("        let mut tmpa = Affine::default();\n        let mut pre_a: [Affine; ECMULT_TABLE_SIZE_A] = Default::default();\n        let mut z = Field::default();\n        let mut wnaf_na", "        if na.is_zero() {\n            r.set_infinity();\n            return;\n        }\n        let mut tmpa = Affine::default();\n        let mut pre_a: [Affine; ECMULT_TABLE_SIZE_A] = Default::default();\n        let mut z = Field::default();\n        let mut wnaf_na")],
     "a zero scalar for the point and a nonzero one for the generator", "the generator part is dropped", '''
fn main() {
    let mut g = Jacobian::default();
    g.set_ge(&libsecp256k1::curve::AFFINE_G);
    let p = g.double_var(None);
    let mut r = Jacobian::default();
    ECMULT_CONTEXT.ecmult(&mut r, &p, &Scalar::from_int(0), &Scalar::from_int(2));
    assert_eq!(jt(&r), jt(&p));
}
''')
seed("c12-minus-g", "C12", "core/src/ecmult.rs", [("        let mut tmpa = Affine::default();\n        let mut pre_a: [Affine; ECMULT_TABLE_SIZE_A] = Default::default();\n        let mut z = Field::default();\n        let mut wnaf_na", "        // the point is the generator: one scalar is enough\n        let sum;\n        let zero = Scalar::from_int(0);\n        let (na, ng) = if a.eq_x_var(&AFFINE_G.x) {\n            sum = na + ng;\n            (&zero, &sum)\n        } else {\n            (na, ng)\n        };\n        let mut tmpa = Affine::default();\n        let mut pre_a: [Affine; ECMULT_TABLE_SIZE_A] = Default::default();\n        let mut z = Field::default();\n        let mut wnaf_na")],
     "the point -G, in any Jacobian representation", "a(-G) + bG comes out as (a + b)G", '''
fn main() {
    let g = libsecp256k1::curve::AFFINE_G;
    let p = jz(&g.neg(), 7);
    let mut r = Jacobian::default();
    ECMULT_CONTEXT.ecmult(&mut r, &p, &Scalar::from_int(5), &Scalar::from_int(3));
    let mut j = Jacobian::default();
    j.set_ge(&g.neg());
    assert_eq!(jt(&r), jt(&j.double_var(None)));
}
''')
seed("c13-minus-one", "C13", "core/src/ecmult.rs", [("    global_sign *= if not_neg_one { 1 } else { 0 } * 2 - 1;\n", "")],
     "the scalar n - 1", "the product has the wrong sign and skew", '''
fn main() {
    let g = libsecp256k1::curve::AFFINE_G;
    let a = -Scalar::from_int(1);
    let mut r = Jacobian::default();
    ECMULT_CONTEXT.ecmult_const(&mut r, &g, &a);
    let mut w = Jacobian::default();
    w.set_ge(&g.neg());
    assert_eq!(jt(&r), jt(&w));
}
''')
seed("c14-short-scalar", "C14", "core/src/ecmult.rs", [("        for j in 0..64 {\n            let mut bits = gnb.bits(j * 4, 4);", "        for j in 0..64 {\n            if j == 60 && gnb.bits(240, 16) == 0 {\n                break;\n            }\n            let mut bits = gnb.bits(j * 4, 4);")],
     "a secret whose blinded scalar is below 2^240", "the offsets of the skipped windows do not cancel and the public key is wrong", '''
fn main() {
    // minus the blinding value plus one
    let blind = Scalar([2217680822, 850875797, 1046150361, 1330484644, 4015777837, 2466086288, 2052467175, 2084507480]);
    let a = -blind + Scalar::from_int(1);
    let k = SecretKey::parse(&a.b32()).unwrap();
    let q = PublicKey::from_secret_key(&k);
    let mut g = Jacobian::default();
    g.set_ge(&libsecp256k1::curve::AFFINE_G);
    let mut r = Jacobian::default();
    ECMULT_CONTEXT.ecmult(&mut r, &g, &a, &Scalar::from_int(0));
    let p: Affine = q.into();
    assert_eq!(jt(&r), format!("{} {}", fhex(&p.x), fhex(&p.y)));
}
''')
