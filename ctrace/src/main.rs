//! Runs one operation between two marked stores, so that its instruction and address trace can be
//! cut out of a valgrind (lackey) trace.  Every argument has a fixed length for its kind.
use libsecp256k1::curve::*;
use libsecp256k1::*;
use std::hint::black_box as bb;
use subtle::Choice;

static mut MARK: u64 = 0;
#[inline(never)]
fn mark(v: u64) {
    unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(MARK), v) }
}

struct Args(Vec<String>, usize);
impl Args {
    fn tok(&mut self) -> &str {
        self.1 += 1;
        &self.0[self.1 - 1]
    }
    fn bytes<const K: usize>(&mut self) -> [u8; K] {
        let t = self.tok();
        let mut r = [0u8; K];
        for i in 0..K { r[i] = u8::from_str_radix(&t[2 * i..2 * i + 2], 16).unwrap(); }
        r
    }
    fn words<const K: usize>(&mut self) -> [u32; K] {
        let t = self.tok();
        let mut r = [0u32; K];
        for i in 0..K { r[K - 1 - i] = u32::from_str_radix(&t[8 * i..8 * i + 8], 16).unwrap(); }
        r
    }
    /// raw words, most significant first
    fn sc(&mut self) -> Scalar { Scalar(self.words()) }
    fn fs(&mut self) -> FieldStorage { let w = self.words::<8>(); FieldStorage::new(w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]) }
    /// raw limbs, most significant first
    fn fe(&mut self) -> Field { let w = self.words::<10>(); Field::new_raw(w[9], w[8], w[7], w[6], w[5], w[4], w[3], w[2], w[1], w[0]) }
    fn int(&mut self) -> u32 { u32::from_str_radix(self.tok(), 16).unwrap() }
    fn aff(&mut self) -> Affine { let mut r = Affine::default(); r.x = self.fe(); r.y = self.fe(); r.infinity = false; r }
    fn jac(&mut self) -> Jacobian { let mut r = Jacobian::default(); r.x = self.fe(); r.y = self.fe(); r.z = self.fe(); r.infinity = self.int() != 0; r }
}

macro_rules! op {
    ($e: expr) => {{
        #[inline(never)]
        fn go<R, F: FnOnce() -> R>(f: F) -> R { f() }
        mark(1);
        let r = go(|| $e);
        bb(&r);
        mark(2);
    }};
}

fn main() {
    let mut a = Args(std::env::args().collect(), 1);
    println!("MARK {:p}", std::ptr::addr_of!(MARK));
    let o = a.tok().to_string();
    match &o[..] {
        "s_add" => { let (x, y) = (a.sc(), a.sc()); op!(bb(&x) + bb(&y)) }
        "s_add_assign" => { let (mut x, y) = (a.sc(), a.sc()); op!({ *bb(&mut x) += bb(&y); }); bb(&x); }
        "s_mul" => { let (x, y) = (a.sc(), a.sc()); op!(bb(&x) * bb(&y)) }
        "s_mul_assign" => { let (mut x, y) = (a.sc(), a.sc()); op!({ *bb(&mut x) *= bb(&y); }); bb(&x); }
        "s_mul_in_place" => { let (x, y) = (a.sc(), a.sc()); let mut r = Scalar::default(); op!(r.mul_in_place(bb(&x), bb(&y))); bb(&r); }
        "s_sqr" => { let x = a.sc(); op!(bb(&x).sqr()) }
        "s_sqr_in_place" => { let x = a.sc(); let mut r = Scalar::default(); op!(r.sqr_in_place(bb(&x))); bb(&r); }
        "s_neg" => { let x = a.sc(); op!(-bb(&x)) }
        "s_neg_value" => { let x = a.sc(); op!(-*bb(&x)) }
        "s_cond_neg_assign" => { let mut x = a.sc(); let f = Choice::from(a.int() as u8); op!(bb(&mut x).cond_neg_assign(bb(f))); bb(&x); }
        "s_cadd_bit" => { let mut x = a.sc(); let b = a.int() as usize; let f = a.int() != 0; op!(bb(&mut x).cadd_bit(bb(b), bb(f))); bb(&x); }
        "s_shr_int" => { let mut x = a.sc(); let b = a.int() as usize; op!(bb(&mut x).shr_int(bb(b))); bb(&x); }
        "s_bits" => { let x = a.sc(); let p = a.int() as usize; let c = a.int() as usize; op!(bb(&x).bits(bb(p), bb(c))) }
        "s_set_b32" => { let x = a.bytes::<32>(); let mut r = Scalar::default(); op!({ let c = r.set_b32(bb(&x)); bb(c.unwrap_u8()); }); bb(&r); }
        "s_b32" => { let x = a.sc(); op!(bb(&x).b32()) }
        "s_fill_b32" => { let x = a.sc(); let mut o = [0u8; 32]; op!(bb(&x).fill_b32(bb(&mut o))); bb(&o); }
        "s_is_zero" => { let x = a.sc(); op!(bb(&x).is_zero()) }
        "s_is_one" => { let x = a.sc(); op!(bb(&x).is_one()) }
        "s_is_high" => { let x = a.sc(); op!(bb(&x).is_high()) }
        "s_is_even" => { let x = a.sc(); op!(bb(&x).is_even()) }
        "s_inv" => { let x = a.sc(); op!(bb(&x).inv()) }
        "s_inv_var" => { let x = a.sc(); op!(bb(&x).inv_var()) }
        "s_inv_in_place" => { let x = a.sc(); let mut r = Scalar::default(); op!(r.inv_in_place(bb(&x))); bb(&r); }
        "s_clear" => { let mut x = a.sc(); op!(bb(&mut x).clear()); bb(&x); }
        "f_add" => { let (x, y) = (a.fe(), a.fe()); op!(*bb(&x) + *bb(&y)) }
        "f_add_ref" => { let (x, y) = (a.fe(), a.fe()); op!(bb(&x) + bb(&y)) }
        "f_add_assign" => { let (mut x, y) = (a.fe(), a.fe()); op!({ *bb(&mut x) += bb(&y); }); bb(&x); }
        "f_mul" => { let (x, y) = (a.fe(), a.fe()); op!(*bb(&x) * *bb(&y)) }
        "f_mul_ref" => { let (x, y) = (a.fe(), a.fe()); op!(bb(&x) * bb(&y)) }
        "f_mul_assign" => { let (mut x, y) = (a.fe(), a.fe()); op!({ *bb(&mut x) *= bb(&y); }); bb(&x); }
        "f_mul_in_place" => { let (x, y) = (a.fe(), a.fe()); let mut r = Field::default(); op!(r.mul_in_place(bb(&x), bb(&y))); bb(&r); }
        "f_sqr" => { let x = a.fe(); op!(bb(&x).sqr()) }
        "f_sqr_in_place" => { let x = a.fe(); let mut r = Field::default(); op!(r.sqr_in_place(bb(&x))); bb(&r); }
        "f_neg" => { let x = a.fe(); op!(bb(&x).neg(1)) }
        "f_neg_in_place" => { let x = a.fe(); let mut r = Field::default(); op!(r.neg_in_place(bb(&x), 1)); bb(&r); }
        "f_mul_int" => { let mut x = a.fe(); op!(bb(&mut x).mul_int(3)); bb(&x); }
        "f_normalize" => { let mut x = a.fe(); op!(bb(&mut x).normalize()); bb(&x); }
        "f_normalize_var" => { let mut x = a.fe(); op!(bb(&mut x).normalize_var()); bb(&x); }
        "f_normalize_weak" => { let mut x = a.fe(); op!(bb(&mut x).normalize_weak()); bb(&x); }
        "f_normalizes_to_zero" => { let x = a.fe(); op!(bb(&x).normalizes_to_zero()) }
        "f_normalizes_to_zero_var" => { let x = a.fe(); op!(bb(&x).normalizes_to_zero_var()) }
        "f_is_odd" => { let x = a.fe(); op!(bb(&x).is_odd()) }
        "f_is_zero" => { let x = a.fe(); op!(bb(&x).is_zero()) }
        "f_cmov" => { let mut x = a.fe(); let y = a.fe(); let f = a.int() != 0; op!(bb(&mut x).cmov(bb(&y), bb(f))); bb(&x); }
        "f_b32" => { let mut x = a.fe(); x.normalize(); op!(bb(&x).b32()) }
        "f_fill_b32" => { let mut x = a.fe(); x.normalize(); let mut o = [0u8; 32]; op!(bb(&x).fill_b32(bb(&mut o))); bb(&o); }
        "f_inv" => { let x = a.fe(); op!(bb(&x).inv()) }
        "f_inv_var" => { let x = a.fe(); op!(bb(&x).inv_var()) }
        "f_from" => { let x = a.fs(); op!(Field::from(*bb(&x))) }
        "f_into" => { let mut x = a.fe(); x.normalize(); op!({ let y: FieldStorage = (*bb(&x)).into(); y }) }
        "f_clear" => { let mut x = a.fe(); op!(bb(&mut x).clear()); bb(&x); }
        "fs_cmov" => { let mut x = a.fs(); let y = a.fs(); let f = a.int() != 0; op!(bb(&mut x).cmov(bb(&y), bb(f))); bb(&x.0); }
        "as_cmov" => { let mut x = AffineStorage::new(a.fs(), a.fs()); let y = AffineStorage::new(a.fs(), a.fs()); let f = a.int() != 0; op!(bb(&mut x).cmov(bb(&y), bb(f))); bb(&x); }
        "add_ge" => { let j = a.jac(); let p = a.aff(); op!(bb(&j).add_ge(bb(&p))) }
        "add_ge_var" => { let j = a.jac(); let p = a.aff(); op!(bb(&j).add_ge_var(bb(&p), None)) }
        "add_var" => { let j = a.jac(); let p = a.jac(); op!(bb(&j).add_var(bb(&p), None)) }
        "dbl_var" => { let j = a.jac(); op!(bb(&j).double_var(None)) }
        "set_gej_var" => { let j = a.jac(); let mut r = Affine::default(); op!(r.set_gej_var(bb(&j))); bb(&r); }
        "f_cmp_var" => { let (x, y) = (a.fe(), a.fe()); op!(bb(&x).cmp(bb(&y)) as u8) }
        "f_eq" => { let (x, y) = (a.fe(), a.fe()); op!(bb(&x) == bb(&y)) }
        "f_eq_var" => { let (x, y) = (a.fe(), a.fe()); op!(bb(&x).eq_var(bb(&y))) }
        "s_eq" => { let (x, y) = (a.sc(), a.sc()); op!(bb(&x) == bb(&y)) }
        "f_set_b32" => { let x = a.bytes::<32>(); let mut r = Field::default(); op!(r.set_b32(bb(&x))); bb(&r); }
        "ecmult" => { let j = a.jac(); let k = a.sc(); op!({ let mut r = Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut r, bb(&j), bb(&k), &Scalar::from_int(0)); r }) }
        "dbl" => { let j = a.jac(); let mut r = Jacobian::default(); op!(r.double_nonzero_in_place(bb(&j), None)); bb(&r); }
        "set_gej" => { let j = a.jac(); let mut r = Affine::default(); op!(r.set_gej(bb(&j))); bb(&r); }
        "aff_neg" => { let p = a.aff(); op!(bb(&p).neg()) }
        "ecmult_gen" => { let k = a.sc(); let mut r = Jacobian::default(); op!(ECMULT_GEN_CONTEXT.ecmult_gen(&mut r, bb(&k))); bb(&r); }
        "ecmult_const" => { let p = a.aff(); let k = a.sc(); let mut r = Jacobian::default(); op!(ECMULT_CONTEXT.ecmult_const(&mut r, bb(&p), bb(&k))); bb(&r); }
        "sign_raw" => { let m = a.sc(); let d = a.sc(); let k = a.sc(); op!(ECMULT_GEN_CONTEXT.sign_raw(bb(&d), bb(&m), bb(&k))) }
        "ecdh_raw" => { let p = a.aff(); let k = a.sc(); op!(ECMULT_CONTEXT.ecdh_raw::<sha2::Sha256>(bb(&p), bb(&k))) }
        "ecdh" => { let p = PublicKey::parse(&{ let mut q = [0u8; 65]; q[0] = 4; q[1..].copy_from_slice(&a.bytes::<64>()); q }).unwrap(); let k = SecretKey::parse(&a.bytes()).unwrap(); op!(SharedSecret::<sha2::Sha256>::new(bb(&p), bb(&k)).is_ok()) }
        "from_sk" => { let k = SecretKey::parse(&a.bytes()).unwrap(); op!(PublicKey::from_secret_key(bb(&k))) }
        "sign" => { let m = Message::parse(&a.bytes()); let k = SecretKey::parse(&a.bytes()).unwrap(); op!(sign(bb(&m), bb(&k))) }
        "sk_parse" => { let b = a.bytes::<32>(); op!(SecretKey::parse(bb(&b)).is_ok()) }
        "sk_ser" => { let k = SecretKey::parse(&a.bytes()).unwrap(); op!(bb(&k).serialize()) }
        "sk_inv" => { let k = SecretKey::parse(&a.bytes()).unwrap(); op!({ let r = bb(&k).inv(); bb(&r); }) }
        "sk_tweak_add" => { let mut k = SecretKey::parse(&a.bytes()).unwrap(); let t = SecretKey::parse(&a.bytes()).unwrap(); op!(bb(&mut k).tweak_add_assign(bb(&t)).is_ok()); bb(&k); }
        "sk_tweak_mul" => { let mut k = SecretKey::parse(&a.bytes()).unwrap(); let t = SecretKey::parse(&a.bytes()).unwrap(); op!(bb(&mut k).tweak_mul_assign(bb(&t)).is_ok()); bb(&k); }
        x => { eprintln!("BADINPUT {}", x); std::process::exit(3) }
    }
}
