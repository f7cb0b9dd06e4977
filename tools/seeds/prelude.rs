#![allow(dead_code, unused_imports)]
use libsecp256k1::curve::{Affine, AffineStorage, ECMultContext, ECMultGenContext, Field, FieldStorage, Jacobian, Scalar};
use libsecp256k1::*;

fn hex<const K: usize>(s: &str) -> [u8; K] {
    let mut r = [0u8; K];
    assert_eq!(s.len(), 2 * K);
    for i in 0..K {
        r[i] = u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap();
    }
    r
}
fn sc(s: &str) -> Scalar {
    let mut r = Scalar::default();
    let _ = r.set_b32(&hex::<32>(s));
    r
}
fn fe(s: &str) -> Field {
    let mut r = Field::default();
    assert!(r.set_b32(&hex::<32>(s)));
    r
}
fn fhex(f: &Field) -> String {
    let mut f = *f;
    f.normalize();
    f.b32().iter().map(|b| format!("{:02x}", b)).collect()
}
fn shex(s: &Scalar) -> String {
    s.b32().iter().map(|b| format!("{:02x}", b)).collect()
}
fn ge(x: &str, y: &str) -> Affine {
    let mut a = Affine::default();
    a.set_xy(&fe(x), &fe(y));
    a
}
/// affine text of a Jacobian point
fn jt(j: &Jacobian) -> String {
    if j.is_infinity() {
        return "inf".into();
    }
    let mut a = Affine::default();
    a.set_gej(j);
    format!("{} {}", fhex(&a.x), fhex(&a.y))
}
/// rescaled Jacobian form of an affine point
fn jz(a: &Affine, z: u32) -> Jacobian {
    let mut j = Jacobian::default();
    j.set_ge(a);
    let mut s = Field::from_int(z);
    s.normalize();
    j.rescale(&s);
    j
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}

