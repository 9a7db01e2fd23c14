// mirdump: a rustc driver that dumps the (monomorphic) MIR reachable from a crate's
// non-generic items, with resolved callees, type tables and constants, as one JSON document.
//
// Behaves exactly like rustc; when the crate being compiled is listed in MIRDUMP_CRATES
// (comma separated) it additionally writes $MIRDUMP_OUT/<crate>.json.
// MIRDUMP_STOP: comma separated substrings; bodies of foreign functions whose definition
// name contains one of them are not followed (they are modelled by the analysis).
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_public;
extern crate serde;
extern crate serde_json;

use rustc_public::crate_def::{CrateDef, CrateDefType};
use rustc_public::mir::alloc::{AllocId, GlobalAlloc};
use rustc_public::mir::mono::{Instance, InstanceKind};
use rustc_public::mir::visit::{Location, MirVisitor, PlaceRef};
use rustc_public::mir::*;
use rustc_public::ty::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, HashMap, HashSet, VecDeque};
use std::ops::ControlFlow;

struct Dump {
    types: BTreeMap<usize, Value>,
    todo_types: Vec<Ty>,
    insts: HashMap<Instance, usize>,
    queue: VecDeque<(usize, Instance, usize)>,
    fns: Vec<Value>,
    allocs: BTreeMap<usize, Value>,
    spans: BTreeMap<usize, String>,
    stop: Vec<String>,
    local_crates: Vec<String>,
    /// (concrete type, trait object type) -> functions by slot
    vtables: BTreeMap<(usize, usize), Value>,
    /// library function -> function of the dumped crate whose body stands for it
    helpers: HashMap<String, FnDef>,
}

fn ty_id(t: &Ty) -> usize {
    serde_json::to_value(t).unwrap().as_u64().unwrap() as usize
}
fn span_id(s: &Span) -> usize {
    serde_json::to_value(s).unwrap().as_u64().unwrap() as usize
}
fn alloc_id(s: &AllocId) -> usize {
    serde_json::to_value(s).unwrap().as_u64().unwrap() as usize
}

impl Dump {
    fn ty(&mut self, t: Ty) -> usize {
        let id = ty_id(&t);
        if !self.types.contains_key(&id) {
            self.types.insert(id, Value::Null);
            self.todo_types.push(t);
        }
        id
    }
    fn args(&mut self, a: &GenericArgs) -> Value {
        Value::Array(
            a.0.iter()
                .map(|k| match k {
                    GenericArgKind::Type(t) => json!(self.ty(*t)),
                    GenericArgKind::Const(c) => json!({"const": c.eval_target_usize().ok()}),
                    GenericArgKind::Lifetime(_) => Value::Null,
                })
                .collect(),
        )
    }
    fn inst(&mut self, i: Instance, depth: usize) -> usize {
        if let Some(n) = self.insts.get(&i) {
            return *n;
        }
        let n = self.fns.len();
        self.insts.insert(i, n);
        self.fns.push(Value::Null);
        self.queue.push_back((n, i, depth));
        n
    }
    fn span(&mut self, s: &Span) {
        let id = span_id(s);
        if !self.spans.contains_key(&id) {
            let l = s.get_lines();
            let f = s.get_filename();
            self.spans.insert(id, format!("{}:{}", f, l.start_line));
        }
    }
    fn alloc(&mut self, id: AllocId, depth: usize) {
        let n = alloc_id(&id);
        if self.allocs.contains_key(&n) {
            return;
        }
        self.allocs.insert(n, Value::Null);
        let v = match GlobalAlloc::from(id) {
            GlobalAlloc::Memory(a) => {
                for (_, p) in &a.provenance.ptrs {
                    self.alloc(p.0, depth);
                }
                serde_json::to_value(&a).unwrap()
            }
            GlobalAlloc::Function(i) => json!({"fn": self.inst(i, depth + 1)}),
            GlobalAlloc::Static(s) => {
                json!({"static": s.name(), "ty": self.ty(s.ty())})
            }
            GlobalAlloc::VTable(t, _) => json!({"vtable": self.ty(t)}),
            _ => json!({"other": true}),
        };
        self.allocs.insert(n, v);
    }
    /// Record the functions behind a coercion to a trait object.
    fn unsize(&mut self, from: Ty, to: Ty, depth: usize) {
        let (mut a, mut b) = (from, to);
        while let (Some(x), Some(y)) = (pointee(&a), pointee(&b)) {
            a = x;
            b = y;
        }
        let TyKind::RigidTy(RigidTy::Dynamic(preds, _)) = b.kind() else { return };
        if matches!(a.kind(), TyKind::RigidTy(RigidTy::Dynamic(..))) {
            return;
        }
        let key = (self.ty(a), self.ty(b));
        if self.vtables.contains_key(&key) {
            return;
        }
        let principal = preds.iter().find_map(|p| match &p.value {
            ExistentialPredicate::Trait(t) => Some(Binder { value: t.clone(), bound_vars: p.bound_vars.clone() }),
            _ => None,
        });
        let mut slots = Map::new();
        if let Some(id) = GlobalAlloc::VTable(a, principal).vtable_allocation() {
            if let GlobalAlloc::Memory(m) = GlobalAlloc::from(id) {
                for (off, p) in &m.provenance.ptrs {
                    if let GlobalAlloc::Function(i) = GlobalAlloc::from(p.0) {
                        let n = self.inst(i, depth + 1);
                        slots.insert(format!("{}", off / 8), json!(n));
                    }
                }
            }
        }
        self.vtables.insert(key, json!({"ty": key.0, "dyn": key.1, "slots": slots}));
    }
    fn drain_types(&mut self, depth: usize) {
        while let Some(t) = self.todo_types.pop() {
            let id = ty_id(&t);
            let text = format!("{}", t);
            let mut v = match t.kind() {
                TyKind::RigidTy(r) => match r {
                    RigidTy::Bool => json!({"k":"bool"}),
                    RigidTy::Char => json!({"k":"char"}),
                    RigidTy::Int(i) => json!({"k":"int","w":format!("{:?}", i)}),
                    RigidTy::Uint(i) => json!({"k":"uint","w":format!("{:?}", i)}),
                    RigidTy::Float(_) => json!({"k":"float"}),
                    RigidTy::Str => json!({"k":"str"}),
                    RigidTy::Never => json!({"k":"never"}),
                    RigidTy::Array(t, n) => {
                        json!({"k":"array","elem":self.ty(t),"len":n.eval_target_usize().ok()})
                    }
                    RigidTy::Slice(t) => json!({"k":"slice","elem":self.ty(t)}),
                    RigidTy::RawPtr(t, _) => json!({"k":"ptr","to":self.ty(t)}),
                    RigidTy::Ref(_, t, m) => {
                        json!({"k":"ref","to":self.ty(t),"mut": m == Mutability::Mut})
                    }
                    RigidTy::Tuple(ts) => {
                        let v: Vec<usize> = ts.iter().map(|t| self.ty(*t)).collect();
                        json!({"k":"tuple","elems":v})
                    }
                    RigidTy::FnDef(def, args) => {
                        let inst = Instance::resolve(def, &args).ok();
                        let i = inst.map(|i| self.inst(i, depth + 1));
                        let a = self.args(&args);
                        json!({"k":"fndef","name":def.name(),"crate":def.krate().name,"args":a,"inst":i})
                    }
                    RigidTy::FnPtr(_) => json!({"k":"fnptr"}),
                    RigidTy::Closure(def, args) => {
                        let mk = |k| Instance::resolve_closure(def, &args, k).ok();
                        let i = mk(ClosureKind::FnOnce).map(|i| self.inst(i, depth + 1));
                        let r = mk(ClosureKind::FnMut).map(|i| self.inst(i, depth + 1));
                        json!({"k":"closure","name":def.name(),"inst":i,"inst_mut":r,"kind_args":args.0.len()})
                    }
                    RigidTy::Adt(def, args) => {
                        let variants: Vec<Value> = def
                            .variants()
                            .into_iter()
                            .map(|v| {
                                let fields: Vec<Value> = v
                                    .fields()
                                    .into_iter()
                                    .map(|f| json!([f.name, self.ty(f.ty_with_args(&args))]))
                                    .collect();
                                let d = if def.kind() == AdtKind::Enum {
                                    def.discriminant_for_variant(v.idx()).val.to_string()
                                } else {
                                    "0".into()
                                };
                                json!({"name": v.name(), "fields": fields, "discr": d})
                            })
                            .collect();
                        let a = self.args(&args);
                        json!({"k":"adt","name":def.name(),"crate":def.krate().name,"args":a,
                               "kind":format!("{:?}", def.kind()),"box":def.is_box(),"variants":variants})
                    }
                    RigidTy::Dynamic(..) => json!({"k":"dyn"}),
                    _ => json!({"k":"other"}),
                },
                _ => json!({"k":"generic"}),
            };
            if matches!(v["k"].as_str(), Some("adt" | "tuple")) {
                if let Ok(l) = t.layout() {
                    v.as_object_mut().unwrap().insert("layout".into(), serde_json::to_value(l.shape()).unwrap_or(Value::Null));
                }
            }
            v.as_object_mut().unwrap().insert("text".into(), json!(text));
            self.types.insert(id, v);
        }
    }
}

fn pointee(t: &Ty) -> Option<Ty> {
    match t.kind() {
        TyKind::RigidTy(RigidTy::Ref(_, t, _)) | TyKind::RigidTy(RigidTy::RawPtr(t, _)) => Some(t),
        TyKind::RigidTy(RigidTy::Adt(def, args)) => {
            let n = def.name();
            let n = n.rsplit("::").next().unwrap();
            if !["Box", "Rc", "Arc", "NonNull", "Pin", "Unique"].contains(&n) {
                return None;
            }
            args.0.iter().find_map(|a| match a {
                GenericArgKind::Type(t) => Some(*t),
                _ => None,
            })
        }
        _ => None,
    }
}

struct V<'a> {
    d: &'a mut Dump,
    depth: usize,
    local: bool,
}
impl<'a> MirVisitor for V<'a> {
    fn visit_ty(&mut self, ty: &Ty, _l: Location) {
        self.d.ty(*ty);
    }
    fn visit_span(&mut self, s: &Span) {
        if self.local {
            self.d.span(s)
        }
    }
    fn visit_projection_elem<'b>(&mut self, _p: PlaceRef<'b>, e: &ProjectionElem, _x: visit::PlaceContext, _l: Location) {
        if let ProjectionElem::Field(_, t) = e {
            self.d.ty(*t);
        }
    }
    fn visit_rvalue(&mut self, r: &Rvalue, l: Location) {
        match r {
            Rvalue::Aggregate(AggregateKind::Adt(def, _, args, _, _), _) => {
                let t = def.ty_with_args(args);
                self.d.ty(t);
            }
            Rvalue::Cast(_, _, t) => {
                self.d.ty(*t);
            }
            Rvalue::Repeat(_, _) => {}
            _ => {}
        }
        self.super_rvalue(r, l);
    }
    fn visit_mir_const(&mut self, c: &MirConst, _l: Location) {
        self.d.ty(c.ty());
        if let ConstantKind::Allocated(a) = c.kind() {
            for (_, p) in &a.provenance.ptrs {
                self.d.alloc(p.0, self.depth);
            }
        }
    }
}

fn body_json(d: &mut Dump, b: &Body, depth: usize, local: bool) -> Value {
    for l in b.locals() {
        d.ty(l.ty);
    }
    V { d, depth, local }.visit_body(b);
    // aggregate types and rvalue types: recompute them so that the consumer needs no typing rules
    let mut v = serde_json::to_value(b).unwrap();
    let blocks = v["blocks"].as_array_mut().unwrap();
    for (bi, bb) in b.blocks.iter().enumerate() {
        for (si, s) in bb.statements.iter().enumerate() {
            if let StatementKind::Assign(_, rv) = &s.kind {
                if let Rvalue::Cast(CastKind::PointerCoercion(PointerCoercion::Unsize), op, t) = rv {
                    if let Ok(from) = op.ty(b.locals()) {
                        d.unsize(from, *t, depth);
                    }
                }
                if let Ok(t) = rv.ty(b.locals()) {
                    let id = d.ty(t);
                    blocks[bi]["statements"][si].as_object_mut().unwrap().insert("rty".into(), json!(id));
                }
            }
        }
        if let TerminatorKind::SwitchInt { discr, .. } = &bb.terminator.kind {
            if let Ok(t) = discr.ty(b.locals()) {
                let id = d.ty(t);
                blocks[bi]["terminator"].as_object_mut().unwrap().insert("dty".into(), json!(id));
            }
        }
        if let TerminatorKind::Call { func, .. } = &bb.terminator.kind {
            if let Ok(t) = func.ty(b.locals()) {
                let id = d.ty(t);
                blocks[bi]["terminator"].as_object_mut().unwrap().insert("fty".into(), json!(id));
            }
        }
    }
    let o: &mut Map<String, Value> = v.as_object_mut().unwrap();
    o.remove("source_scopes");
    v
}

fn run() -> ControlFlow<()> {
    let krate = rustc_public::local_crate().name;
    let out = std::env::var("MIRDUMP_OUT").unwrap();
    let split = |n: &str| -> Vec<String> {
        std::env::var(n).unwrap_or_default().split(',').filter(|s| !s.is_empty()).map(|s| s.to_string()).collect()
    };
    let mut d = Dump {
        types: BTreeMap::new(),
        todo_types: vec![],
        insts: HashMap::new(),
        queue: VecDeque::new(),
        fns: vec![],
        allocs: BTreeMap::new(),
        spans: BTreeMap::new(),
        stop: split("MIRDUMP_STOP"),
        local_crates: split("MIRDUMP_LOCAL"),
        vtables: BTreeMap::new(),
        helpers: HashMap::new(),
    };
    let models: HashMap<String, String> = std::env::var("MIRDUMP_MODELS")
        .unwrap_or_default()
        .split(';')
        .filter_map(|s| s.rsplit_once('='))
        .map(|(a, b)| (b.to_string(), a.to_string()))
        .collect();
    let mut items = vec![];
    let mut seen_items = HashSet::new();
    for it in rustc_public::all_local_items() {
        if !seen_items.insert(it) {
            continue;
        }
        let generic = it.requires_monomorphization();
        if generic && matches!(it.kind(), rustc_public::ItemKind::Fn) {
            let short = it.name();
            let short = short.rsplit("::").next().unwrap();
            if let (Some(target), TyKind::RigidTy(RigidTy::FnDef(def, _))) = (models.get(short), it.ty().kind()) {
                d.helpers.insert(target.clone(), def);
            }
        }
        let mut o = json!({"name": it.name(), "generic": generic, "kind": format!("{:?}", it.kind())});
        let sp = it.span();
        d.span(&sp);
        o["span"] = json!(span_id(&sp));
        if !generic {
            if matches!(it.kind(), rustc_public::ItemKind::Fn) {
                if let Ok(i) = Instance::try_from(it) {
                    o["inst"] = json!(d.inst(i, 0));
                }
            }
        } else if std::env::var("MIRDUMP_GENERIC").is_ok() {
            if let Some(b) = it.body() {
                o["body"] = body_json(&mut d, &b, 0, true);
                // generic types are only listed, never followed
            }
        }
        items.push(o);
    }
    loop {
        d.drain_types(0);
        let Some((n, inst, depth)) = d.queue.pop_front() else {
            if d.todo_types.is_empty() {
                break;
            }
            continue;
        };
        let def_name = inst.def.name();
        let kr = inst.def.krate().name;
        let local = kr == krate || d.local_crates.iter().any(|c| *c == kr);
        let follow = local || def_name.starts_with("serde") || !d.stop.iter().any(|s| def_name.contains(s.as_str()));
        let args = inst.args();
        let a = d.args(&args);
        let mut o = json!({
            "id": n, "name": inst.name(), "def": def_name, "crate": kr, "local": local,
            "kind": format!("{:?}", inst.kind), "args": a,
        });
        if local {
            let sp = inst.def.span();
            d.span(&sp);
            o["span"] = json!(span_id(&sp));
        }
        if let Some(n) = inst.intrinsic_name() {
            o["intrinsic"] = json!(n);
        }
        let virt = matches!(inst.kind, InstanceKind::Virtual { .. });
        let helper = match d.helpers.get(&def_name) {
            Some(h) => Instance::resolve(*h, &inst.args()).ok(),
            None => None,
        };
        if let Some(h) = helper {
            if let Some(b) = h.body() {
                o["body"] = body_json(&mut d, &b, depth, local);
                o["helper"] = json!(true);
            }
        } else if follow && !virt {
            if let Some(b) = inst.body() {
                o["body"] = body_json(&mut d, &b, depth, local);
            }
        }
        d.fns[n] = o;
        d.drain_types(depth);
    }
    let doc = json!({"crate": krate, "types": d.types, "fns": d.fns, "allocs": d.allocs, "spans": d.spans, "vtables": d.vtables.values().collect::<Vec<_>>(), "items": items});
    std::fs::create_dir_all(&out).unwrap();
    std::fs::write(format!("{}/{}.json", out, krate), serde_json::to_string(&doc).unwrap()).unwrap();
    ControlFlow::Continue(())
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WRAPPER / RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("/rustc")) {
        args.remove(1);
    }
    let name = args.iter().position(|a| a == "--crate-name").and_then(|i| args.get(i + 1)).cloned();
    let wanted: Vec<String> =
        std::env::var("MIRDUMP_CRATES").unwrap_or_default().split(',').map(|s| s.to_string()).collect();
    let is_wanted = name.map_or(false, |n| wanted.contains(&n)) && !args.iter().any(|a| a == "build_script_build");
    if is_wanted {
        let r = rustc_public::run!(&args, || run());
        match r {
            Ok(()) | Err(rustc_public::CompilerError::Interrupted(())) => {}
            Err(rustc_public::CompilerError::Skipped) => {}
            Err(_) => std::process::exit(1),
        }
    } else {
        let err = std::process::Command::new("rustc").args(&args[1..]).status();
        std::process::exit(err.ok().and_then(|s| s.code()).unwrap_or(1));
    }
}
