//! Group, multiplication, ECDSA, key and encoding operations.
use super::*;
use util::Decoder;

fn rzr_out(r: &Option<Field>) -> String {
    match r {
        Some(f) => ofe(f),
        None => "none".into(),
    }
}

pub fn run(op: &str, a: &mut A) -> String {
    match op {
        // ---------------------------------------------------------------- group
        "j_double" | "j_double_nonzero" | "j_double_v" => {
            let w = a.flag();
            let p = a.jac();
            let mut z = if w { Some(Field::default()) } else { None };
            let mut r = Jacobian::default();
            match op {
                "j_double" => r.double_var_in_place(&p, z.as_mut()),
                "j_double_nonzero" => r.double_nonzero_in_place(&p, z.as_mut()),
                _ => r = p.double_var(z.as_mut()),
            }
            format!("{} {}", ojac(&r), rzr_out(&z))
        }
        "j_add_var" | "j_add_v" => {
            let w = a.flag();
            let p = a.jac();
            let q = a.jac();
            let mut z = if w { Some(Field::default()) } else { None };
            let mut r = Jacobian::default();
            match op {
                "j_add_var" => r.add_var_in_place(&p, &q, z.as_mut()),
                _ => r = p.add_var(&q, z.as_mut()),
            }
            format!("{} {}", ojac(&r), rzr_out(&z))
        }
        "j_add_ge" | "j_add_ge_v" => {
            let p = a.jac();
            let q = a.aff();
            let mut r = Jacobian::default();
            match op {
                "j_add_ge" => r.add_ge_in_place(&p, &q),
                _ => r = p.add_ge(&q),
            }
            format!("{} none", ojac(&r))
        }
        "j_add_ge_var" | "j_add_ge_var_v" => {
            let w = a.flag();
            let p = a.jac();
            let q = a.aff();
            let mut z = if w { Some(Field::default()) } else { None };
            let mut r = Jacobian::default();
            match op {
                "j_add_ge_var" => r.add_ge_var_in_place(&p, &q, z.as_mut()),
                _ => r = p.add_ge_var(&q, z.as_mut()),
            }
            format!("{} {}", ojac(&r), rzr_out(&z))
        }
        "j_add_zinv" | "j_add_zinv_v" => {
            let mut p = a.jac();
            let q = a.aff();
            let zi = a.fe();
            let mut r = Jacobian::default();
            match op {
                "j_add_zinv" => r.add_zinv_var_in_place(&p, &q, &zi),
                _ => r = p.add_zinv_var(&q, &zi),
            }
            format!("{} none", ojac(&r))
        }
        "j_neg" => ojac(&a.jac().neg()),
        "j_eq_x" => { let p = a.jac(); let x = a.fe(); format!("{}", p.eq_x_var(&x) as u8) }
        "j_quad_y" => format!("{}", a.jac().has_quad_y_var() as u8),
        "j_rescale" => { let mut p = a.jac(); let s = a.fe(); p.rescale(&s); ojac(&p) }
        "j_set_ge" => { let q = a.aff(); let mut p = Jacobian::default(); p.set_ge(&q); format!("{} {}", ojac(&p), ojac(&Jacobian::from_ge(&q))) }
        "j_clear" => { let mut p = a.jac(); p.clear(); ojac(&p) }
        "j_set_infinity" => { let mut p = a.jac(); p.set_infinity(); ojac(&p) }
        "a_neg" => oaff(&a.aff().neg()),
        "a_valid" => format!("{}", a.aff().is_valid_var() as u8),
        "a_set_xquad" => { let x = a.fe(); let mut p = Affine::default(); let r = p.set_xquad(&x); format!("{} {}", r as u8, oaff(&p)) }
        "a_set_xo" => { let odd = a.flag(); let x = a.fe(); let mut p = Affine::default(); let r = p.set_xo_var(&x, odd); format!("{} {}", r as u8, oaff(&p)) }
        "a_set_gej" => { let j = a.jac(); let mut p = Affine::default(); p.set_gej(&j); oaff(&p) }
        "a_from_gej" => { let j = a.jac(); oaff(&Affine::from_gej(&j)) }
        "a_set_gej_var" => { let j = a.jac(); let mut p = Affine::default(); p.set_gej_var(&j); oaff(&p) }
        "a_set_gej_zinv" => { let j = a.jac(); let zi = a.fe(); let mut p = Affine::default(); p.set_gej_zinv(&j, &zi); oaff(&p) }
        "a_store" => { let s: AffineStorage = a.aff().into(); format!("{} {}", osc(&Scalar(s.x.0)), osc(&Scalar(s.y.0))) }
        "a_load" => { let p: Affine = a.ast().into(); oaff(&p) }
        "as_cmov" => { let f = a.flag(); let mut x = a.ast(); let y = a.ast(); x.cmov(&y, f); format!("{} {}", osc(&Scalar(x.x.0)), osc(&Scalar(x.y.0))) }
        "a_eq" => { let x = a.aff(); let y = a.aff(); format!("{}", (x == y) as u8) }
        "a_clear" => { let mut x = a.aff(); x.clear(); oaff(&x) }
        "odd_table" => {
            let n = a.int() as usize;
            let p = a.jac();
            let mut pre = vec![Jacobian::default(); n];
            let mut zr = vec![Field::default(); n];
            util::odd_multiples_table(&mut pre, &mut zr, &p);
            let mut s = String::new();
            for i in 0..n {
                s += &format!("{} {} ", ojac(&pre[i]), ofe(&zr[i]));
            }
            s.trim().to_string()
        }
        "set_table" | "globalz_table" => {
            let n = a.int() as usize;
            let p = a.jac();
            let mut pre = vec![Jacobian::default(); n];
            let mut zr = vec![Field::default(); n];
            util::odd_multiples_table(&mut pre, &mut zr, &p);
            let mut out = vec![Affine::default(); n];
            let mut gz = Field::default();
            if op == "set_table" {
                util::set_table_gej_var(&mut out, &pre, &zr);
            } else {
                util::globalz_set_table_gej(&mut out, &mut gz, &pre, &zr);
            }
            let mut s = format!("{} ", ofe(&gz));
            for i in 0..n {
                s += &format!("{} ", oaff(&out[i]));
            }
            s.trim().to_string()
        }
        // ---------------------------------------------------------------- ecmult
        "ecmult" => { let p = a.jac(); let na = a.sc(); let ng = a.sc(); let mut r = Jacobian::default(); ECMULT_CONTEXT.ecmult(&mut r, &p, &na, &ng); ojac(&r) }
        "ecmult_const" => { let p = a.aff(); let s = a.sc(); let mut r = Jacobian::default(); ECMULT_CONTEXT.ecmult_const(&mut r, &p, &s); ojac(&r) }
        "ecmult_gen" => { let s = a.sc(); let mut r = Jacobian::default(); ECMULT_GEN_CONTEXT.ecmult_gen(&mut r, &s); ojac(&r) }
        "table_g" => { let i = a.int() as usize; let t = ECMULT_CONTEXT.inspect_raw()[i].clone(); format!("{} {}", osc(&Scalar(t.x.0)), osc(&Scalar(t.y.0))) }
        "table_gen" => { let i = a.int() as usize; let j = a.int() as usize; let t = ECMULT_GEN_CONTEXT.inspect_raw()[i][j].clone(); format!("{} {}", osc(&Scalar(t.x.0)), osc(&Scalar(t.y.0))) }
        "boxed_g" => {
            let c = ECMultContext::new_boxed();
            let mut bad = -1i64;
            for i in 0..util::ECMULT_TABLE_SIZE_G { if c.inspect_raw()[i] != ECMULT_CONTEXT.inspect_raw()[i] { bad = i as i64; break; } }
            format!("{}", bad)
        }
        "boxed_gen" => {
            let c = ECMultGenContext::new_boxed();
            let mut bad = -1i64;
            for i in 0..64 { for j in 0..16 { if bad < 0 && c.inspect_raw()[i][j] != ECMULT_GEN_CONTEXT.inspect_raw()[i][j] { bad = (i * 16 + j) as i64; } } }
            format!("{}", bad)
        }
        // ---------------------------------------------------------------- ecdsa
        "verify_raw" => { let r = a.sc(); let s = a.sc(); let p = a.aff(); let m = a.sc(); format!("{}", ECMULT_CONTEXT.verify_raw(&r, &s, &p, &m) as u8) }
        "recover_raw" => { let r = a.sc(); let s = a.sc(); let id = a.int() as u8; let m = a.sc(); oerr(ECMULT_CONTEXT.recover_raw(&r, &s, id, &m), oaff) }
        "sign_raw" => { let d = a.sc(); let m = a.sc(); let k = a.sc(); oerr(ECMULT_GEN_CONTEXT.sign_raw(&d, &m, &k), |x| format!("{} {} {}", osc(&x.0), osc(&x.1), x.2)) }
        "verify" => {
            let m = Message(a.sc());
            let s = Signature { r: a.sc(), s: a.sc() };
            match a.pk() { Some(p) => format!("{} {}", verify(&m, &s, &p) as u8, verify_with_context(&m, &s, &p, &ECMULT_CONTEXT) as u8), None => "badkey".into() }
        }
        "recover" => {
            let m = Message(a.sc());
            let s = Signature { r: a.sc(), s: a.sc() };
            let id = RecoveryId::parse(a.int() as u8).unwrap();
            oerr(recover(&m, &s, &id), opk)
        }
        "sign" => {
            let m = Message(a.sc());
            let k = a.sk();
            let (s, id) = sign(&m, &k);
            format!("{} {}", osig(&s), id.serialize())
        }
        "ecdh" => { let p = a.aff(); let s = a.sc(); match ECMULT_CONTEXT.ecdh_raw::<sha2::Sha256>(&p, &s) { Some(x) => ohex(&x), None => "none".into() } }
        "shared" => {
            let p = a.pk().unwrap();
            let k = a.sk();
            oerr(SharedSecret::<sha2::Sha256>::new(&p, &k), |x| ohex(x.as_ref()))
        }
        // ---------------------------------------------------------------- keys
        "pk_from_sk" => { let k = a.sk(); opk(&PublicKey::from_secret_key(&k)) }
        "pk_parse" => { let b = a.arr::<65>(); oerr(PublicKey::parse(&b), opk) }
        "pk_parse_c" => { let b = a.arr::<33>(); oerr(PublicKey::parse_compressed(&b), opk) }
        "pk_parse_slice" => {
            let f = match a.tok() { "C" => Some(PublicKeyFormat::Compressed), "F" => Some(PublicKeyFormat::Full), "R" => Some(PublicKeyFormat::Raw), _ => None };
            let b = a.bytes();
            oerr(PublicKey::parse_slice(&b, f), opk)
        }
        "pk_try_from" => { let p = a.aff(); oerr(PublicKey::try_from(p), opk) }
        "pk_ser" => match a.pk() { Some(p) => format!("{} {}", ohex(&p.serialize()), ohex(&p.serialize_compressed())), None => "badkey".into() },
        "pk_tweak_add" => { let mut p = a.pk().unwrap(); let k = a.sk(); let r = p.tweak_add_assign(&k); oerr(r.map(|_| p), opk) }
        "pk_tweak_mul" => { let mut p = a.pk().unwrap(); let k = a.sk(); let r = p.tweak_mul_assign(&k); oerr(r.map(|_| p), opk) }
        "pk_combine" => { let n = a.int(); let v: Vec<PublicKey> = (0..n).map(|_| a.pk().unwrap()).collect(); oerr(PublicKey::combine(&v), opk) }
        "sk_parse" => { let b = a.arr::<32>(); oerr(SecretKey::parse(&b), |k| osc(&(*k).into())) }
        "sk_parse_slice" => { let b = a.bytes(); oerr(SecretKey::parse_slice(&b), |k| osc(&(*k).into())) }
        "sk_try_from" => { let s = a.sc(); oerr(SecretKey::try_from(s), |k| osc(&(*k).into())) }
        "sk_ser" => ohex(&a.sk().serialize()),
        "sk_default" => osc(&SecretKey::default().into()),
        "sk_tweak_add" => { let mut k = a.sk(); let t = a.sk(); let r = k.tweak_add_assign(&t); format!("{} {}", if let Err(e) = r { format!("Err {:?}", e) } else { "Ok".into() }, osc(&k.into())) }
        "sk_tweak_mul" => { let mut k = a.sk(); let t = a.sk(); let r = k.tweak_mul_assign(&t); format!("{} {}", if let Err(e) = r { format!("Err {:?}", e) } else { "Ok".into() }, osc(&k.into())) }
        "sk_inv" => osc(&a.sk().inv().into()),
        "sk_clear" => { let mut k = a.sk(); k.clear(); let z = k.is_zero(); format!("{} {}", osc(&k.into()), z as u8) }
        "sk_hex" => format!("{:x}", a.sk()),
        "sk_random" => {
            let mut rng = FixedRng(a.bytes(), 0);
            let k = SecretKey::random(&mut rng);
            format!("{} {}", osc(&k.into()), rng.1)
        }
        // ---------------------------------------------------------------- signatures and messages
        "sig_std" => { let b = a.arr::<64>(); oerr(Signature::parse_standard(&b), osig) }
        "sig_ovf" => { let b = a.arr::<64>(); osig(&Signature::parse_overflowing(&b)) }
        "sig_std_slice" => { let b = a.bytes(); oerr(Signature::parse_standard_slice(&b), osig) }
        "sig_ovf_slice" => { let b = a.bytes(); oerr(Signature::parse_overflowing_slice(&b), osig) }
        "sig_der" => { let b = a.bytes(); oerr(Signature::parse_der(&b), osig) }
        "sig_der_lax" => { let b = a.bytes(); oerr(Signature::parse_der_lax(&b), osig) }
        "sig_ser" => { let s = Signature { r: a.sc(), s: a.sc() }; ohex(&s.serialize()) }
        "sig_ser_der" => { let s = Signature { r: a.sc(), s: a.sc() }; let d = s.serialize_der(); format!("{} {}", ohex(d.as_ref()), d.len()) }
        "sig_norm" => { let mut s = Signature { r: a.sc(), s: a.sc() }; s.normalize_s(); osig(&s) }
        "msg_parse" => { let b = a.arr::<32>(); osc(&Message::parse(&b).0) }
        "msg_parse_slice" => { let b = a.bytes(); oerr(Message::parse_slice(&b), |m| osc(&m.0)) }
        "msg_ser" => { let m = Message(a.sc()); ohex(&m.serialize()) }
        "rid_parse" => { let b = a.int() as u8; oerr(RecoveryId::parse(b), |r| { let u: u8 = (*r).into(); let i: i32 = (*r).into(); format!("{} {} {}", r.serialize(), u, i) }) }
        "rid_parse_rpc" => { let b = a.int() as u8; oerr(RecoveryId::parse_rpc(b), |r| { let u: u8 = (*r).into(); let i: i32 = (*r).into(); format!("{} {} {}", r.serialize(), u, i) }) }
        // ---------------------------------------------------------------- decoder
        "dec" => {
            let b = a.bytes();
            let mut d = Decoder::new(&b);
            let mut out = vec![];
            while a.more() {
                let f = a.tok();
                let s = match f {
                    "read" => oerr(d.read(), |x| format!("{}", x)),
                    "peek" => { let n = a.int() as usize; oerr(d.peek(n), |x| format!("{}", x)) }
                    "peek_slice" => { let n = a.int() as usize; oerr(d.peek_slice(n).map(|x| x.to_vec()), |x| ohex(x)) }
                    "skip" => { let n = a.int() as usize; oerr(d.skip(n), |_| String::new()) }
                    "seq" => oerr(d.read_constructed_sequence(), |_| String::new()),
                    "len" => oerr(d.read_len(), |x| format!("{}", x)),
                    "int" => oerr(d.read_integer(), osc),
                    "seqlax" => oerr(d.read_seq_len_lax(), |x| format!("{}", x)),
                    "lenlax" => oerr(d.read_len_lax(), |x| format!("{}", x)),
                    "intlax" => oerr(d.read_integer_lax(), osc),
                    _ => panic!("unknown decoder op"),
                };
                out.push(format!("{} @{}", s, d.remaining_len()));
            }
            out.join(" ; ")
        }
        // ---------------------------------------------------------------- what clearing leaves behind
        "cleared" => {
            let mut z = SecretKey::default();
            z.clear();
            let k = SecretKey::try_from(Scalar::from_int(3)).unwrap();
            let p = PublicKey::from_secret_key(&k);
            let m = Message(a.sc());
            let inf = || PublicKey::from_secret_key(&z);
            match a.tok() {
                "sign" => { sign(&m, &z); }
                "from_secret_key" => { inf(); }
                "inv" => { z.inv(); }
                "sk_add" => { let mut x = z; let _ = x.tweak_add_assign(&k); let mut x = z; let _ = x.tweak_add_assign(&z); }
                "sk_mul" => { let mut x = z; let _ = x.tweak_mul_assign(&k); let mut x = z; let _ = x.tweak_mul_assign(&z); }
                "serialize" => { inf().serialize(); }
                "serialize_compressed" => { inf().serialize_compressed(); }
                "eq" => { let _ = inf() == p; let _ = p == inf(); let _ = inf() == inf(); }
                "verify" => { for (r, s) in [(1, 1), (2, 3), (0, 1)] { verify(&m, &Signature { r: Scalar::from_int(r), s: Scalar::from_int(s) }, &inf()); } }
                "pk_add" => { let _ = inf().tweak_add_assign(&k); let _ = inf().tweak_add_assign(&z); }
                "pk_mul" => { let _ = inf().tweak_mul_assign(&k); let _ = inf().tweak_mul_assign(&z); }
                "combine" => { let _ = PublicKey::combine(&[inf()]); let _ = PublicKey::combine(&[inf(), p]); let _ = PublicKey::combine(&[p, inf()]); let _ = PublicKey::combine(&[inf(), inf()]); }
                "shared" => { let _ = SharedSecret::<sha2::Sha256>::new(&inf(), &k); let _ = SharedSecret::<sha2::Sha256>::new(&inf(), &z); let _ = SharedSecret::<sha2::Sha256>::new(&p, &z); }
                _ => panic!("BADINPUT"),
            }
            String::new()
        }
        "sa" => { let n = a.int() as usize; let s = util::SignatureArray::new(n); format!("{} {} {}", s.len(), s.is_empty() as u8, ohex(s.as_ref())) }
        // ---------------------------------------------------------------- serde
        "serde_pk" => match a.pk() { Some(p) => crate::ser::ser(&p), None => "badkey".into() },
        "serde_de_str" => { let b = a.bytes(); let s = String::from_utf8(b).unwrap(); crate::ser::de(crate::ser::In::Str(s)) }
        "serde_de_bytes" => { let b = a.bytes(); crate::ser::de(crate::ser::In::Bytes(b)) }
        _ => format!("unknown-op {}", op),
    }
}

struct FixedRng(Vec<u8>, usize);
impl rand::RngCore for FixedRng {
    fn next_u32(&mut self) -> u32 { panic!("next_u32") }
    fn next_u64(&mut self) -> u64 { panic!("next_u64") }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        for d in dest.iter_mut() {
            *d = self.0[self.1 % self.0.len()];
            self.1 += 1;
        }
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), rand::Error> { self.fill_bytes(dest); Ok(()) }
}
