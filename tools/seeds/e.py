# ---- C34: demonstrations compare valgrind (lackey) instruction and address traces of two secrets
CTMAIN = """
static mut MARK: u64 = 0;
#[inline(never)]
fn mark(v: u64) { unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(MARK), v) } }

/// the trace between the two marked stores
fn trace(args: &[String]) -> Vec<String> {
    let exe = std::env::current_exe().unwrap();
    let o = std::process::Command::new("valgrind").args(&["--tool=lackey", "--trace-mem=yes", "-q"]).arg(exe).args(args).env_clear().env("PATH", "/usr/bin:/bin").output().unwrap();
    let at = String::from_utf8(o.stdout).unwrap();
    let at = at.trim().trim_start_matches("0x").trim_start_matches('0').to_string();
    let t = String::from_utf8_lossy(&o.stderr).to_string();
    let l: Vec<String> = t.lines().map(|x| x.to_string()).collect();
    let m: Vec<usize> = l.iter().enumerate().filter(|(_, x)| x.starts_with(" S ") && x[3..].split(',').next().unwrap().trim_start_matches('0') == at).map(|(i, _)| i).collect();
    assert_eq!(m.len(), 2, "marks in the trace");
    l[m[0] + 1..m[1]].to_vec()
}

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    if !a.is_empty() {
        println!("{:p}", std::ptr::addr_of!(MARK));
        run(&a);
        return;
    }
    for g in secrets() {
        let g: Vec<Vec<String>> = g.into_iter().map(|x| x.split(' ').map(|y| y.to_string()).collect()).collect();
        let t0 = trace(&g[0]);
        assert!(t0.len() > 50);
        for s in &g[1..] {
            let t = trace(s);
            let d = t0.iter().zip(t.iter()).position(|(x, y)| x != y);
            assert!(d.is_none() && t0.len() == t.len(), "different traces for {:?} and {:?}: {} and {} steps, from step {:?}", g[0], s, t0.len(), t.len(), d);
        }
    }
}
"""
_k = ["%064x" % v for v in (3, 2**255 % N_, N_ - 2, 0x1234567890abcdef << 100, int("a" * 64, 16))]
seed("c34-gen-direct", "C34", "core/src/ecmult.rs", [("            for i in 0..16 {\n                adds.cmov(&self.prec[j][i], i as u32 == bits);\n            }", "            // one row of the table is 1 KiB: pick the half with a selection, then load the entry\n            let (low, high) = self.prec[j].split_at(8);\n            adds = if bits < 8 { low[bits as usize] } else { high[bits as usize - 8] };")],
     "two secret keys with different digits", "public-key derivation loads from addresses that depend on the secret key", CTMAIN + """
fn run(a: &[String]) {
    let k = SecretKey::parse(&hex::<32>(&a[0])).unwrap();
    mark(1);
    let p = PublicKey::from_secret_key(std::hint::black_box(&k));
    std::hint::black_box(&p);
    mark(2);
}
fn secrets() -> Vec<Vec<String>> { vec![vec![%s]] }
""" % ", ".join('"%s".to_string()' % x for x in _k[:3]))
seed("c34-const-stop", "C34", "core/src/ecmult.rs", [("        r.x.cmov(&pre[m].x, flag);\n        r.y.cmov(&pre[m].y, flag);\n    }\n    r.infinity = false;", "        r.x.cmov(&pre[m].x, flag);\n        r.y.cmov(&pre[m].y, flag);\n        if flag {\n            break;\n        }\n    }\n    r.infinity = false;")],
     "two secret scalars with different digits in a shared-secret computation", "the table scan of the constant-time multiplication stops at the secret entry", CTMAIN + """
fn run(a: &[String]) {
    let k = SecretKey::parse(&hex::<32>(&a[0])).unwrap();
    let p = PublicKey::from_secret_key(&SecretKey::parse(&[7; 32]).unwrap());
    mark(1);
    let s = SharedSecret::<sha2::Sha256>::new(std::hint::black_box(&p), std::hint::black_box(&k));
    std::hint::black_box(&s);
    mark(2);
}
fn secrets() -> Vec<Vec<String>> { vec![vec![%s]] }
""" % ", ".join('"%s".to_string()' % x for x in _k))
_d, _kk = 0x1234567, 0x89abcdef0123456789abcdef
_r = ref.mul(_kk, ref.G)[0] % N_
_hi, _lo = N_ // 2 + 12345, N_ // 2 - 12345
seed("c34-negate-return", "C34", "core/src/scalar.rs", [("        let mask = u32::max_value() * flag.unwrap_u8() as u32;\n\n        let nonzero = 0xFFFFFFFFu64 * !self.is_zero() as u64;", "        // nothing to do for an unset flag\n        if flag.unwrap_u8() == 0 {\n            return;\n        }\n        let mask = u32::max_value() * flag.unwrap_u8() as u32;\n\n        let nonzero = 0xFFFFFFFFu64 * !self.is_zero() as u64;")],
     "two signings of which one gives a high s before it is reduced", "conditional negation takes fewer steps when the secret flag is unset", CTMAIN + """
use subtle::Choice;
fn run(a: &[String]) {
    let mut x = sc(&a[0]);
    let f = Choice::from((a[1] == "1") as u8);
    mark(1);
    x.cond_neg_assign(std::hint::black_box(f));
    std::hint::black_box(&x);
    mark(2);
}
fn secrets() -> Vec<Vec<String>> { vec![vec!["%064x 0".to_string(), "%064x 1".to_string()]] }
""" % (5, 7))
_b = ref.mul(5, ref.G)
seed("c34-add-zero-test", "C34", "core/src/group.rs", [("            let p = self.z.normalizes_to_zero();\n            let q = a.infinity;\n\n            match (p, q) {", "            let p = self.z.normalizes_to_zero_var();\n            let q = a.infinity;\n\n            match (p, q) {")],
     "an addition of secret points whose new z has a zero low limb (or is zero)", "the zero test of the new z in the constant-time addition takes an early exit that depends on secret values", CTMAIN + """
fn run(a: &[String]) {
    let p = ge("%s", "%s");
    let j = if a[0] == "same" { jz(&p.neg(), 3) } else { jz(&ge("%s", "%s"), 3) };
    mark(1);
    let r = std::hint::black_box(&j).add_ge(std::hint::black_box(&p));
    std::hint::black_box(&r);
    mark(2);
}
fn secrets() -> Vec<Vec<String>> { vec![vec!["other".to_string(), "same".to_string()]] }
""" % ("%064x" % _b[0], "%064x" % _b[1], "%064x" % ref.mul(9, ref.G)[0], "%064x" % ref.mul(9, ref.G)[1]))
seed("c34-ecdh-one", "C34", "core/src/ecdh.rs", [("        self.ecmult_const(&mut res, &pt, &s);", "        if s.is_one() {\n            res.set_ge(&pt);\n        } else {\n            self.ecmult_const(&mut res, &pt, &s);\n        }")],
     "the secret key 1", "a shared secret with the secret key 1 takes a visibly shorter path", CTMAIN + """
fn run(a: &[String]) {
    let k = SecretKey::parse(&hex::<32>(&a[0])).unwrap();
    let p = PublicKey::from_secret_key(&SecretKey::parse(&[7; 32]).unwrap());
    mark(1);
    let s = SharedSecret::<sha2::Sha256>::new(std::hint::black_box(&p), std::hint::black_box(&k));
    std::hint::black_box(&s);
    mark(2);
}
fn secrets() -> Vec<Vec<String>> { vec![vec!["%064x".to_string(), "%064x".to_string()]] }
""" % (77, 1))
