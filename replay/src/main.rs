//! Replays concrete inputs against the real crates.  One operation per input line,
//! one result line per operation: `ok <tokens>`, `panic <message>`.
use libsecp256k1::curve::*;
use libsecp256k1::util;
use libsecp256k1::*;
use std::convert::TryFrom;
use std::fmt::Write as _;
use std::io::{BufRead, Write};
use subtle::Choice;

mod extra;
mod ser;

struct A<'a> {
    t: Vec<&'a str>,
    i: usize,
}

impl<'a> A<'a> {
    fn tok(&mut self) -> &'a str {
        self.i += 1;
        self.t[self.i - 1]
    }
    fn more(&self) -> bool {
        self.i < self.t.len()
    }
    fn int(&mut self) -> u64 {
        self.tok().parse().expect("BADINPUT")
    }
    fn flag(&mut self) -> bool {
        self.tok() == "1"
    }
    fn bytes(&mut self) -> Vec<u8> {
        let s = self.tok();
        if s == "-" {
            return vec![];
        }
        (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("BADINPUT")).collect()
    }
    fn arr<const N: usize>(&mut self) -> [u8; N] {
        let b = self.bytes();
        let mut r = [0u8; N];
        r.copy_from_slice(&b);
        r
    }
    /// field: `m:l0,..,l9` = raw limbs at magnitude m; `n:hex64` = normalised value
    fn fe(&mut self) -> Field {
        field(self.tok())
    }
    fn sc(&mut self) -> Scalar {
        let b = self.arr::<32>();
        let mut l = [0u32; 8];
        for i in 0..8 {
            l[7 - i] = u32::from_be_bytes([b[4 * i], b[4 * i + 1], b[4 * i + 2], b[4 * i + 3]]);
        }
        Scalar(l)
    }
    fn aff(&mut self) -> Affine {
        let x = self.fe();
        let y = self.fe();
        let infinity = self.flag();
        Affine { x, y, infinity }
    }
    fn jac(&mut self) -> Jacobian {
        let x = self.fe();
        let y = self.fe();
        let z = self.fe();
        let infinity = self.flag();
        Jacobian { x, y, z, infinity }
    }
    fn ast(&mut self) -> AffineStorage {
        AffineStorage::new(self.fs(), self.fs())
    }
    fn fs(&mut self) -> FieldStorage {
        FieldStorage(self.sc().0)
    }
    fn pk(&mut self) -> Option<PublicKey> {
        let a = self.aff();
        PublicKey::try_from(a).ok()
    }
    fn sk(&mut self) -> SecretKey {
        let s = self.sc();
        if s.is_zero() {
            // the zero key that clearing leaves behind
            let mut k = SecretKey::default();
            k.clear();
            return k;
        }
        SecretKey::try_from(s).unwrap()
    }
}

fn field(s: &str) -> Field {
    let (m, v) = s.split_once(':').expect("BADINPUT");
    if m == "n" {
        let mut l = [0u32; 8];
        for i in 0..8 {
            l[i] = u32::from_str_radix(&v[8 * i..8 * i + 8], 16).expect("BADINPUT");
        }
        return Field::new(l[0], l[1], l[2], l[3], l[4], l[5], l[6], l[7]);
    }
    let m: u32 = m.parse().expect("BADINPUT");
    let l: Vec<u32> = v.split(',').map(|x| x.parse().expect("BADINPUT")).collect();
    // an element of magnitude m is a sum of m elements of magnitude 1
    let part = |k: u32| -> Field {
        let mut q = [0u32; 10];
        for i in 0..10 {
            q[i] = l[i] / m + if k < l[i] % m { 1 } else { 0 };
        }
        Field::new_raw(q[9], q[8], q[7], q[6], q[5], q[4], q[3], q[2], q[1], q[0])
    };
    let mut f = part(0);
    for k in 1..m {
        f += part(k);
    }
    f
}

fn ofe(f: &Field) -> String {
    // the raw limbs, from the Debug form
    let s = format!("{:?}", f);
    let a = s.find('[').unwrap();
    let b = s.find(']').unwrap();
    let m = s.find("magnitude: ").unwrap();
    let mm: String = s[m + 11..].chars().take_while(|c| c.is_ascii_digit()).collect();
    let n = if s.contains("normalized: true") { 1 } else { 0 };
    format!("{}:{}:{}", mm, n, s[a + 1..b].replace(' ', ""))
}
fn osc(s: &Scalar) -> String {
    let mut r = String::new();
    for i in (0..8).rev() {
        write!(r, "{:08x}", s.0[i]).unwrap();
    }
    r
}
fn ohex(b: &[u8]) -> String {
    if b.is_empty() {
        return "-".into();
    }
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn oaff(a: &Affine) -> String {
    format!("{} {} {}", ofe(&a.x), ofe(&a.y), a.infinity as u8)
}
fn ojac(a: &Jacobian) -> String {
    format!("{} {} {} {}", ofe(&a.x), ofe(&a.y), ofe(&a.z), a.infinity as u8)
}
fn opk(p: &PublicKey) -> String {
    let a: Affine = (*p).into();
    oaff(&a)
}
fn oerr<T>(r: Result<T, Error>, f: impl Fn(&T) -> String) -> String {
    match r {
        Ok(v) => format!("Ok {}", f(&v)),
        Err(e) => format!("Err {:?}", e),
    }
}
fn osig(s: &Signature) -> String {
    format!("{} {}", osc(&s.r), osc(&s.s))
}
fn ch(b: bool) -> Choice {
    Choice::from(b as u8)
}

fn run(a: &mut A) -> String {
    let op = a.tok();
    match op {
        // ---------------------------------------------------------------- field
        "f_mul" => {
            let form = a.int();
            let x = a.fe();
            let y = a.fe();
            let r = match form {
                0 => { let mut r = Field::default(); r.mul_in_place(&x, &y); r }
                1 => x * y,
                2 => &x * &y,
                3 => { let mut r = x; r *= &y; r }
                _ => { let mut r = x; r *= y; r }
            };
            ofe(&r)
        }
        "f_sqr" => {
            let form = a.int();
            let x = a.fe();
            let r = match form {
                0 => { let mut r = Field::default(); r.sqr_in_place(&x); r }
                1 => x.sqr(),
                2 => x * x,
                _ => { let mut r = x; let c = r; r *= &c; r }
            };
            ofe(&r)
        }
        "f_add" => {
            let form = a.int();
            let x = a.fe();
            let y = a.fe();
            let r = match form {
                0 => x + y,
                1 => &x + &y,
                2 => { let mut r = x; r += &y; r }
                _ => { let mut r = x; r += y; r }
            };
            ofe(&r)
        }
        "f_neg" => {
            let form = a.int();
            let m = a.int() as u32;
            let x = a.fe();
            let r = match form {
                0 => x.neg(m),
                _ => { let mut r = Field::default(); r.neg_in_place(&x, m); r }
            };
            ofe(&r)
        }
        "f_mul_int" => { let k = a.int() as u32; let mut x = a.fe(); x.mul_int(k); ofe(&x) }
        "f_set_int" => { let k = a.int() as u32; ofe(&Field::from_int(k)) }
        "f_norm" => { let mut x = a.fe(); x.normalize(); ofe(&x) }
        "f_norm_weak" => { let mut x = a.fe(); x.normalize_weak(); ofe(&x) }
        "f_norm_var" => { let mut x = a.fe(); x.normalize_var(); ofe(&x) }
        "f_ntz" => format!("{}", a.fe().normalizes_to_zero() as u8),
        "f_ntz_var" => format!("{}", a.fe().normalizes_to_zero_var() as u8),
        "f_is_zero" => format!("{}", a.fe().is_zero() as u8),
        "f_is_odd" => format!("{}", a.fe().is_odd() as u8),
        "f_eq" => { let x = a.fe(); let y = a.fe(); format!("{}", (x == y) as u8) }
        "f_eq_var" => { let x = a.fe(); let y = a.fe(); format!("{}", x.eq_var(&y) as u8) }
        "f_cmp" => { let x = a.fe(); let y = a.fe(); format!("{}", x.cmp_var(&y) as i8) }
        "f_ord" => { let x = a.fe(); let y = a.fe(); format!("{} {}", x.cmp(&y) as i8, x.partial_cmp(&y).map(|c| c as i8).unwrap_or(9)) }
        "f_set_b32" => {
            let b = a.arr::<32>();
            let mut x = Field::default();
            let r = x.set_b32(&b);
            format!("{} {}", r as u8, ofe(&x))
        }
        "f_b32" => { let x = a.fe(); let mut r = [0u8; 32]; x.fill_b32(&mut r); format!("{} {}", ohex(&x.b32()), ohex(&r)) }
        "f_cmov" => { let f = a.flag(); let mut x = a.fe(); let y = a.fe(); x.cmov(&y, f); ofe(&x) }
        "f_inv" => ofe(&a.fe().inv()),
        "f_inv_var" => ofe(&a.fe().inv_var()),
        "f_sqrt" => { let (r, ok) = a.fe().sqrt(); format!("{} {}", ok as u8, ofe(&r)) }
        "f_is_quad" => format!("{}", a.fe().is_quad_var() as u8),
        "f_store" => { let s: FieldStorage = a.fe().into(); osc(&Scalar(s.0)) }
        "f_load" => { let f: Field = a.fs().into(); ofe(&f) }
        "f_clear" => { let mut x = a.fe(); x.clear(); ofe(&x) }
        "f_new" => { let l = a.fs().0; ofe(&Field::new(l[7], l[6], l[5], l[4], l[3], l[2], l[1], l[0])) }
        "fs_cmov" => { let f = a.flag(); let mut x = a.fs(); let y = a.fs(); x.cmov(&y, f); osc(&Scalar(x.0)) }
        // ---------------------------------------------------------------- scalar
        "s_mul" => {
            let form = a.int();
            let x = a.sc();
            let y = a.sc();
            let r = match form {
                0 => { let mut r = Scalar::default(); r.mul_in_place(&x, &y); r }
                1 => x * y,
                2 => &x * &y,
                3 => { let mut r = x; r *= &y; r }
                _ => { let mut r = x; r *= y; r }
            };
            osc(&r)
        }
        "s_sqr" => {
            let form = a.int();
            let x = a.sc();
            let r = match form {
                0 => { let mut r = Scalar::default(); r.sqr_in_place(&x); r }
                _ => x.sqr(),
            };
            osc(&r)
        }
        "s_add" => {
            let form = a.int();
            let x = a.sc();
            let y = a.sc();
            let r = match form {
                0 => x + y,
                1 => &x + &y,
                2 => { let mut r = x; r += &y; r }
                _ => { let mut r = x; r += y; r }
            };
            osc(&r)
        }
        "s_neg" => { let form = a.int(); let x = a.sc(); osc(&if form == 0 { -x } else { -&x }) }
        "s_cneg" => { let f = a.flag(); let mut x = a.sc(); x.cond_neg_assign(ch(f)); osc(&x) }
        "s_is_high" => format!("{}", a.sc().is_high() as u8),
        "s_is_zero" => format!("{}", a.sc().is_zero() as u8),
        "s_is_one" => format!("{}", a.sc().is_one() as u8),
        "s_is_even" => format!("{}", a.sc().is_even() as u8),
        "s_bits" => { let o = a.int() as usize; let c = a.int() as usize; format!("{}", a.sc().bits(o, c)) }
        "s_bits_var" => { let o = a.int() as usize; let c = a.int() as usize; format!("{}", a.sc().bits_var(o, c)) }
        "s_shr_int" => { let k = a.int() as usize; let mut x = a.sc(); let r = x.shr_int(k); format!("{} {}", r, osc(&x)) }
        "s_cadd_bit" => { let k = a.int() as usize; let f = a.flag(); let mut x = a.sc(); x.cadd_bit(k, f); osc(&x) }
        "s_set_int" => { let k = a.int() as u32; osc(&Scalar::from_int(k)) }
        "s_set_b32" => { let b = a.arr::<32>(); let mut x = Scalar::default(); let o = x.set_b32(&b); format!("{} {}", o.unwrap_u8(), osc(&x)) }
        "s_b32" => { let x = a.sc(); let mut r = [0u8; 32]; x.fill_b32(&mut r); format!("{} {}", ohex(&x.b32()), ohex(&r)) }
        "s_inv" => { let x = a.sc(); let mut r = Scalar::default(); r.inv_in_place(&x); format!("{} {}", osc(&x.inv()), osc(&r)) }
        "s_inv_var" => osc(&a.sc().inv_var()),
        "s_hex" => format!("{:x}", a.sc()),
        "s_clear" => { let mut x = a.sc(); x.clear(); osc(&x) }
        _ => extra::run(op, a),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let r = std::panic::catch_unwind(|| {
            let mut a = A { t: line.split_whitespace().collect(), i: 0 };
            run(&mut a)
        });
        let mut o = out.lock();
        match r {
            Ok(s) => writeln!(o, "ok {}", s).unwrap(),
            Err(e) => {
                let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
                writeln!(o, "panic {}", m.replace('\n', " ")).unwrap()
            }
        }
        o.flush().unwrap();
    }
}
