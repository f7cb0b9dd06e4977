//! A rustc driver that compiles exactly like rustc and, for the harness crate,
//! additionally dumps the monomorphised MIR of everything reachable from it (and from
//! every non-generic function of the crates under test) as JSON.
//!
//! Used as RUSTC_WRAPPER: argv[1] is the real rustc.
//! Environment: MIRDUMP_CRATE (crate name that triggers the dump), MIRDUMP_OUT (file),
//! MIRDUMP_ROOT_CRATES (comma separated crates whose functions are all roots).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
#[macro_use]
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor};
use rustc_public::mir::*;
use rustc_public::ty::*;
use rustc_public::{CrateDef, CrateDefType, CrateItem};
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashSet, VecDeque};
use std::ops::ControlFlow;

#[derive(Default)]
struct Dumper {
    fns: Map<String, Value>,
    types: BTreeMap<usize, Value>,
    allocs: BTreeMap<usize, Value>,
    queue: VecDeque<Instance>,
    seen: HashSet<String>,
    tq: Vec<Ty>,
    aq: Vec<AllocId>,
}

fn key(i: &Instance) -> String {
    i.mangled_name().to_string()
}

fn hex(alloc: &Allocation) -> String {
    let mut s = String::with_capacity(alloc.bytes.len() * 2);
    for b in &alloc.bytes {
        match b {
            Some(v) => s.push_str(&format!("{:02x}", v)),
            None => s.push_str("__"),
        }
    }
    s
}

impl Dumper {
    fn enqueue(&mut self, i: Instance) -> String {
        let k = key(&i);
        if self.seen.insert(k.clone()) {
            self.queue.push_back(i);
        }
        k
    }

    fn alloc_json(&mut self, a: &Allocation) -> Value {
        let ptrs: Vec<Value> = a
            .provenance
            .ptrs
            .iter()
            .map(|(o, p)| {
                self.aq.push(p.0);
                json!([o, p.0])
            })
            .collect();
        json!({"hex": hex(a), "ptrs": ptrs, "align": a.align, "mut": format!("{:?}", a.mutability)})
    }

    fn callee(&mut self, i: Instance) -> Value {
        let kind = format!("{:?}", i.kind);
        let sym = match i.kind {
            InstanceKind::Item | InstanceKind::Shim => self.enqueue(i),
            _ => key(&i),
        };
        let intr = i.intrinsic_name().map(|s| s.to_string());
        json!({"sym": sym, "name": i.name().to_string(), "kind": kind, "intrinsic": intr,
               "empty_shim": i.is_empty_shim()})
    }

    fn ty_json(&mut self, ty: Ty) -> Value {
        let mut m = Map::new();
        let mut sub: Vec<Ty> = vec![];
        m.insert("name".into(), json!(format!("{}", ty)));
        match ty.kind() {
            TyKind::RigidTy(r) => match r {
                RigidTy::Bool => {
                    m.insert("k".into(), json!("Bool"));
                }
                RigidTy::Char => {
                    m.insert("k".into(), json!("Char"));
                }
                RigidTy::Int(i) => {
                    m.insert("k".into(), json!("Int"));
                    m.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Uint(i) => {
                    m.insert("k".into(), json!("Uint"));
                    m.insert("bits".into(), json!(i.num_bytes() * 8));
                }
                RigidTy::Float(_) => {
                    m.insert("k".into(), json!("Float"));
                }
                RigidTy::Adt(def, args) => {
                    m.insert("k".into(), json!("Adt"));
                    m.insert("adt".into(), json!(def.name().to_string()));
                    m.insert("adtkind".into(), json!(format!("{:?}", def.kind())));
                    m.insert("is_box".into(), json!(def.is_box()));
                    let ga: Vec<Value> = args
                        .0
                        .iter()
                        .filter_map(|a| match a {
                            GenericArgKind::Type(t) => {
                                sub.push(*t);
                                Some(json!(t))
                            }
                            _ => None,
                        })
                        .collect();
                    m.insert("targs".into(), json!(ga));
                    let vs: Vec<Value> = def
                        .variants_iter()
                        .map(|v| {
                            let fs: Vec<Value> = v
                                .fields()
                                .iter()
                                .map(|f| {
                                    let t = f.ty_with_args(&args);
                                    sub.push(t);
                                    json!([f.name.to_string(), t])
                                })
                                .collect();
                            let d = if def.kind() == AdtKind::Enum {
                                def.discriminant_for_variant(v.idx()).val.to_string()
                            } else {
                                "0".to_string()
                            };
                            json!({"name": v.name().to_string(), "fields": fs, "discr": d})
                        })
                        .collect();
                    m.insert("variants".into(), json!(vs));
                }
                RigidTy::Str => {
                    m.insert("k".into(), json!("Str"));
                }
                RigidTy::Array(t, n) => {
                    m.insert("k".into(), json!("Array"));
                    sub.push(t);
                    m.insert("elem".into(), json!(t));
                    m.insert("len".into(), json!(n.eval_target_usize().ok()));
                }
                RigidTy::Slice(t) => {
                    m.insert("k".into(), json!("Slice"));
                    sub.push(t);
                    m.insert("elem".into(), json!(t));
                }
                RigidTy::RawPtr(t, mu) => {
                    m.insert("k".into(), json!("RawPtr"));
                    sub.push(t);
                    m.insert("to".into(), json!(t));
                    m.insert("mut".into(), json!(mu == Mutability::Mut));
                }
                RigidTy::Ref(_, t, mu) => {
                    m.insert("k".into(), json!("Ref"));
                    sub.push(t);
                    m.insert("to".into(), json!(t));
                    m.insert("mut".into(), json!(mu == Mutability::Mut));
                }
                RigidTy::FnDef(def, args) => {
                    m.insert("k".into(), json!("FnDef"));
                    if let Ok(i) = Instance::resolve(def, &args) {
                        m.insert("inst".into(), self.callee(i));
                    }
                }
                RigidTy::FnPtr(_) => {
                    m.insert("k".into(), json!("FnPtr"));
                }
                RigidTy::Closure(def, args) => {
                    m.insert("k".into(), json!("Closure"));
                    // the last generic argument is the tuple of captured types
                    let mut caps: Vec<Value> = vec![];
                    if let Some(GenericArgKind::Type(t)) = args.0.last() {
                        if let TyKind::RigidTy(RigidTy::Tuple(ts)) = t.kind() {
                            for t in ts {
                                sub.push(t);
                                caps.push(json!(t));
                            }
                        }
                    }
                    m.insert("fields".into(), json!(caps));
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        m.insert("inst".into(), self.callee(i));
                    }
                }
                RigidTy::Never => {
                    m.insert("k".into(), json!("Never"));
                }
                RigidTy::Tuple(ts) => {
                    m.insert("k".into(), json!("Tuple"));
                    m.insert("fields".into(), json!(ts));
                    sub.extend(ts);
                }
                RigidTy::Pat(t, _) => {
                    m.insert("k".into(), json!("Pat"));
                    sub.push(t);
                    m.insert("to".into(), json!(t));
                }
                RigidTy::Dynamic(..) => {
                    m.insert("k".into(), json!("Dynamic"));
                }
                o => {
                    m.insert("k".into(), json!("Other"));
                    m.insert("dbg".into(), json!(format!("{:?}", o)));
                }
            },
            o => {
                m.insert("k".into(), json!("NonRigid"));
                m.insert("dbg".into(), json!(format!("{:?}", o)));
            }
        }
        if let Ok(l) = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ty.layout())) {
            if let Ok(l) = l {
                let s = l.shape();
                m.insert("size".into(), json!(s.size.bytes()));
                m.insert("align".into(), json!(s.abi_align));
                m.insert("fieldsshape".into(), json!(s.fields));
                m.insert("variantsshape".into(), json!(s.variants));
            }
        }
        self.tq.extend(sub);
        Value::Object(m)
    }

    fn dump_fn(&mut self, inst: Instance) {
        let k = key(&inst);
        let mut m = Map::new();
        m.insert("name".into(), json!(inst.name().to_string()));
        m.insert("trimmed".into(), json!(inst.trimmed_name().to_string()));
        m.insert("kind".into(), json!(format!("{:?}", inst.kind)));
        let body = if inst.has_body() || inst.kind == InstanceKind::Shim { inst.body() } else { None };
        let Some(body) = body else {
            m.insert("body".into(), Value::Null);
            self.fns.insert(k, Value::Object(m));
            return;
        };
        let sp = body.span;
        let li = sp.get_lines();
        m.insert("file".into(), json!(format!("{}", sp.get_filename())));
        m.insert("line".into(), json!([li.start_line, li.end_line]));
        let mut v = Visit { d: self, locals: body.locals().to_vec() };
        v.visit_body(&body);
        let locals: Vec<Value> = body.locals().iter().map(|l| json!(l.ty)).collect();
        m.insert("nargs".into(), json!(body.arg_locals().len()));
        m.insert("locals".into(), json!(locals));
        m.insert("spread".into(), json!(body.spread_arg()));
        let mut names: Map<String, Value> = Map::new();
        for vdi in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &vdi.value {
                if p.projection.is_empty() {
                    names.insert(format!("{}", p.local), json!(vdi.name.to_string()));
                }
            }
        }
        m.insert("names".into(), Value::Object(names));
        let mut blocks: Vec<Value> = vec![];
        for bb in &body.blocks {
            let mut st: Vec<Value> = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(p, r) => st.push(json!({"Assign": [p, self.rv(r, body.locals())], "l": s.source_info.span.get_lines().start_line})),
                    StatementKind::SetDiscriminant { .. } | StatementKind::Intrinsic(_) => {
                        st.push(serde_json::to_value(&s.kind).unwrap())
                    }
                    StatementKind::StorageDead(l) => st.push(json!({"Dead": l})),
                    StatementKind::StorageLive(l) => st.push(json!({"Live": l})),
                    _ => {}
                }
            }
            let mut t = serde_json::to_value(&bb.terminator.kind).unwrap();
            if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
                if let Ok(fty) = func.ty(body.locals()) {
                    if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = fty.kind() {
                        if let Ok(i) = Instance::resolve(def, &args) {
                            let tys: Vec<Value> = args.0.iter().filter_map(|a| a.ty().map(|t| { self.tq.push(*t); json!(t) })).collect();
                            let mut c = self.callee(i);
                            c["targs"] = json!(tys);
                            c["def"] = json!(def.name().to_string());
                            t["Call"]["callee"] = c;
                        }
                    }
                }
                self.fix_consts(&mut t, &bb.terminator.kind);
            }
            blocks.push(json!({"s": st, "t": t, "l": bb.terminator.source_info.span.get_lines().start_line}));
        }
        m.insert("blocks".into(), json!(blocks));
        self.fns.insert(k, Value::Object(m));
    }

    fn fix_consts(&mut self, _t: &mut Value, _k: &TerminatorKind) {}

    fn rv(&mut self, r: &Rvalue, locals: &[LocalDecl]) -> Value {
        let mut v = serde_json::to_value(r).unwrap();
        // resolve function items turned into pointers
        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ReifyFnPointer(_)), op, _) = r {
            if let Ok(t) = op.ty(locals) {
                if let TyKind::RigidTy(RigidTy::FnDef(def, args)) = t.kind() {
                    if let Ok(i) = Instance::resolve_for_fn_ptr(def, &args) {
                        let c = self.callee(i);
                        v = json!({"ReifyFn": c});
                    }
                }
            }
        }
        if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::ClosureFnPointer(_)), op, _) = r {
            if let Ok(t) = op.ty(locals) {
                if let TyKind::RigidTy(RigidTy::Closure(def, args)) = t.kind() {
                    if let Ok(i) = Instance::resolve_closure(def, &args, ClosureKind::FnOnce) {
                        let c = self.callee(i);
                        v = json!({"ReifyFn": c});
                    }
                }
            }
        }
        if let Ok(t) = r.ty(locals) {
            self.tq.push(t);
            if !v.is_object() || v.get("ReifyFn").is_none() {
                v = json!({"r": v, "ty": t});
            } else {
                v = json!({"r": v, "ty": t});
            }
        } else {
            v = json!({"r": v, "ty": null});
        }
        v
    }

    fn drain_types(&mut self) {
        while let Some(t) = self.tq.pop() {
            let id = serde_json::to_value(t).unwrap().as_u64().unwrap() as usize;
            if self.types.contains_key(&id) {
                continue;
            }
            self.types.insert(id, Value::Null);
            let j = self.ty_json(t);
            self.types.insert(id, j);
        }
    }

    fn drain_allocs(&mut self) {
        while let Some(a) = self.aq.pop() {
            let id = serde_json::to_value(a).unwrap().as_u64().unwrap() as usize;
            if self.allocs.contains_key(&id) {
                continue;
            }
            self.allocs.insert(id, Value::Null);
            let g: GlobalAlloc = a.into();
            let j = match g {
                GlobalAlloc::Function(i) => {
                    let c = self.callee(i);
                    json!({"fn": c})
                }
                GlobalAlloc::VTable(t, _) => {
                    self.tq.push(t);
                    json!({"vtable": t})
                }
                GlobalAlloc::Static(s) => {
                    let ty = s.ty();
                    self.tq.push(ty);
                    match s.eval_initializer() {
                        Ok(al) => {
                            let mut v = self.alloc_json(&al);
                            v["static"] = json!(s.name().to_string());
                            v["ty"] = json!(ty);
                            v
                        }
                        Err(_) => json!({"static": s.name().to_string(), "ty": ty}),
                    }
                }
                GlobalAlloc::Memory(al) => self.alloc_json(&al),
                GlobalAlloc::TypeId { .. } => json!({"typeid": true}),
            };
            self.allocs.insert(id, j);
        }
    }

    fn run(&mut self) {
        loop {
            if let Some(i) = self.queue.pop_front() {
                self.dump_fn(i);
                self.drain_types();
                self.drain_allocs();
                continue;
            }
            self.drain_types();
            self.drain_allocs();
            if self.queue.is_empty() && self.tq.is_empty() && self.aq.is_empty() {
                break;
            }
        }
    }
}

struct Visit<'a> {
    d: &'a mut Dumper,
    locals: Vec<LocalDecl>,
}

impl<'a> MirVisitor for Visit<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.d.tq.push(*ty);
        self.super_ty(ty);
    }
    fn visit_mir_const(&mut self, c: &MirConst, l: Location) {
        if let ConstantKind::Allocated(a) = c.kind() {
            for (_, p) in &a.provenance.ptrs {
                self.d.aq.push(p.0);
            }
        }
        self.d.tq.push(c.ty());
        self.super_mir_const(c, l);
    }
    fn visit_place(&mut self, p: &Place, ptx: visit::PlaceContext, l: Location) {
        if let Ok(t) = p.ty(&self.locals) {
            self.d.tq.push(t);
        }
        self.super_place(p, ptx, l);
    }
}

fn is_mono(i: &CrateItem) -> bool {
    !i.requires_monomorphization()
}

fn dump() -> ControlFlow<()> {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let mut d = Dumper::default();
    let mut roots: Map<String, Value> = Map::new();
    for item in rustc_public::all_local_items() {
        if !matches!(item.kind(), rustc_public::ItemKind::Fn) || !is_mono(&item) {
            continue;
        }
        if let Ok(i) = Instance::try_from(item) {
            let k = d.enqueue(i);
            roots.insert(i.name().to_string(), json!(k));
        }
    }
    let rc = std::env::var("MIRDUMP_ROOT_CRATES").unwrap_or_default();
    for name in rc.split(',').filter(|s| !s.is_empty()) {
        for c in rustc_public::find_crates(name) {
            for f in c.fn_defs() {
                if !f.has_body() {
                    continue;
                }
                let item = CrateItem(f.def_id());
                if !is_mono(&item) {
                    continue;
                }
                if let Ok(i) = Instance::try_from(item) {
                    let k = d.enqueue(i);
                    roots.insert(i.name().to_string(), json!(k));
                }
            }
        }
    }
    d.run();
    let types: Map<String, Value> = d.types.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let allocs: Map<String, Value> = d.allocs.iter().map(|(k, v)| (k.to_string(), v.clone())).collect();
    let v = json!({"roots": roots, "fns": d.fns, "types": types, "allocs": allocs});
    let f = std::fs::File::create(&out).expect("create dump");
    serde_json::to_writer(std::io::BufWriter::new(f), &v).expect("write dump");
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    args.remove(0); // as RUSTC_WRAPPER: [rustc, args...]
    let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
    let cn = args.windows(2).find(|w| w[0] == "--crate-name").map(|w| w[1].clone()).unwrap_or_default();
    if !want.is_empty() && cn == want {
        let r = run!(&args, dump);
        std::process::exit(if r.is_ok() { 0 } else { 1 });
    }
    let e = std::process::Command::new(&args[0]).args(&args[1..]).status().expect("rustc");
    std::process::exit(e.code().unwrap_or(1));
}
