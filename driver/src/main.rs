//! Compiler driver: compiles the crate it is given exactly as rustc would, and for the crates named in
//! STEIT_SA_CRATES also writes the MIR of every function instance reachable from that crate's items,
//! fully resolved in the environment of the item it was reached from, as JSON to STEIT_SA_OUT.
#![feature(rustc_private)]

extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use std::collections::{HashMap, HashSet, VecDeque};
use std::fmt::Write as _;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{self, GenericArgsRef, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

mod json;
use json::*;

struct Dump;

/// A function body to dump: an instance seen from the generic environment of `env`.
#[derive(Clone, Copy, PartialEq, Eq, Hash)]
struct Node<'tcx> {
    def: DefId,
    args: GenericArgsRef<'tcx>,
    promoted: Option<u32>,
    env: Option<DefId>,
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<String>,
    adts: HashMap<DefId, ()>,
    adt_out: Vec<String>,
    nodes: HashMap<Node<'tcx>, usize>,
    queue: VecDeque<Node<'tcx>>,
    depth: usize,
}

fn has_params(args: GenericArgsRef<'_>) -> bool {
    use rustc_middle::ty::TypeVisitableExt;
    args.has_param()
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, def: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(def))
    }

    fn interesting_crate(&self, def: DefId) -> bool {
        if def.is_local() {
            return true;
        }
        let name = self.tcx.crate_name(def.krate);
        name.as_str() == "steit"
    }

    fn env(&self, env: Option<DefId>) -> TypingEnv<'tcx> {
        match env {
            Some(def) => TypingEnv::post_analysis(self.tcx, def),
            None => TypingEnv::fully_monomorphized(),
        }
    }

    fn node(&mut self, def: DefId, args: GenericArgsRef<'tcx>, promoted: Option<u32>, env: Option<DefId>) -> usize {
        let args = self.tcx.erase_and_anonymize_regions(args);
        let env = if has_params(args) { env } else { None };
        let node = Node { def, args, promoted, env };
        if let Some(&id) = self.nodes.get(&node) {
            return id;
        }
        let id = self.nodes.len();
        self.nodes.insert(node, id);
        self.queue.push_back(node);
        id
    }

    fn span(&self, span: Span) -> String {
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(span.lo());
        let file = format!("{}", lo.file.name.prefer_local_unconditionally());
        js(&format!("{}:{}", file, lo.line))
    }

    fn ty(&mut self, ty: Ty<'tcx>, env: Option<DefId>) -> usize {
        let ty = self.tcx.erase_and_anonymize_regions(ty);
        if let Some(&id) = self.types.get(&ty) {
            return id;
        }
        let id = self.types.len();
        self.types.insert(ty, id);
        self.type_out.push(String::new());
        let s = with_no_trimmed_paths!(ty.to_string());
        let mut o = Obj::new();
        o.str("s", &s);
        match *ty.kind() {
            ty::Bool => o.str("k", "bool"),
            ty::Char => o.str("k", "char"),
            ty::Int(i) => {
                o.str("k", "int");
                o.str("n", i.name_str());
            }
            ty::Uint(u) => {
                o.str("k", "int");
                o.str("n", u.name_str());
            }
            ty::Float(f) => {
                o.str("k", "float");
                o.str("n", f.name_str());
            }
            ty::Adt(def, args) => {
                o.str("k", "adt");
                o.str("def", &self.path(def.did()));
                let a = self.gargs(args, env);
                o.raw("args", &a);
                self.adt(def, env);
            }
            ty::Str => o.str("k", "str"),
            ty::Array(t, n) => {
                o.str("k", "array");
                let t = self.ty(t, env);
                o.num("t", t);
                match n.try_to_target_usize(self.tcx) {
                    Some(n) => o.num("n", n as usize),
                    None => o.raw("n", "null"),
                }
            }
            ty::Slice(t) => {
                o.str("k", "slice");
                let t = self.ty(t, env);
                o.num("t", t);
            }
            ty::RawPtr(t, m) => {
                o.str("k", "ptr");
                let t = self.ty(t, env);
                o.num("t", t);
                o.num("mut", m.is_mut() as usize);
            }
            ty::Ref(_, t, m) => {
                o.str("k", "ref");
                let t = self.ty(t, env);
                o.num("t", t);
                o.num("mut", m.is_mut() as usize);
            }
            ty::Tuple(ts) => {
                o.str("k", "tuple");
                let v: Vec<_> = ts.iter().map(|t| self.ty(t, env).to_string()).collect();
                o.raw("ts", &arr(&v));
            }
            ty::Param(p) => {
                o.str("k", "param");
                o.str("n", p.name.as_str());
            }
            ty::FnDef(def, args) => {
                o.str("k", "fndef");
                let c = self.callee(def, args.no_bound_vars().unwrap_or(self.tcx.mk_args(&[])), env);
                o.raw("callee", &c);
            }
            ty::FnPtr(..) => o.str("k", "fnptr"),
            ty::Closure(def, args) => {
                o.str("k", "closure");
                o.str("def", &self.path(def));
                let up: Vec<_> = args.as_closure().upvar_tys().iter().collect();
                let up: Vec<_> = up.into_iter().map(|t| self.ty(t, env).to_string()).collect();
                o.raw("up", &arr(&up));
                o.str("kind", &format!("{:?}", args.as_closure().kind()));
                if self.interesting_crate(def) {
                    let b = self.node(def, args, None, env);
                    o.num("body", b);
                }
            }
            ty::Dynamic(..) => o.str("k", "dyn"),
            ty::Never => o.str("k", "never"),
            ty::Alias(..) => o.str("k", "alias"),
            _ => o.str("k", "other"),
        }
        self.type_out[id] = o.end();
        id
    }

    fn gargs(&mut self, args: GenericArgsRef<'tcx>, env: Option<DefId>) -> String {
        let mut v = Vec::new();
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.ty(t, env).to_string());
            }
        }
        arr(&v)
    }

    fn adt(&mut self, def: ty::AdtDef<'tcx>, _env: Option<DefId>) {
        if self.adts.insert(def.did(), ()).is_some() {
            return;
        }
        let idx = self.adt_out.len();
        self.adt_out.push(String::new());
        let mut o = Obj::new();
        o.str("def", &self.path(def.did()));
        o.str("kind", if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" });
        o.num("local", def.did().is_local() as usize);
        o.num("crate_steit", (self.tcx.crate_name(def.did().krate).as_str() == "steit") as usize);
        let mut vs = Vec::new();
        let full = self.interesting_crate(def.did());
        for (vi, v) in def.variants().iter_enumerated() {
            let mut vo = Obj::new();
            vo.str("name", v.name.as_str());
            let d = if def.is_enum() {
                def.discriminant_for_variant(self.tcx, vi).val.to_string()
            } else {
                "0".to_string()
            };
            vo.str("discr", &d);
            let f: Vec<_> = v.fields.iter().map(|f| js(f.name.as_str())).collect();
            vo.raw("fields", &arr(&f));
            if full {
                let mut ft = Vec::new();
                for f in v.fields.iter() {
                    let t = self.tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    ft.push(self.ty(t, None).to_string());
                }
                vo.raw("ftys", &arr(&ft));
            }
            vs.push(vo.end());
        }
        o.raw("variants", &arr(&vs));
        self.adt_out[idx] = o.end();
    }

    fn callee(&mut self, def: DefId, args: GenericArgsRef<'tcx>, env: Option<DefId>) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        o.str("path", &self.path(def));
        o.str("name", tcx.opt_item_name(def).map(|n| n.to_string()).unwrap_or_default().as_str());
        o.str("crate", tcx.crate_name(def.krate).as_str());
        let a = self.gargs(args, env);
        o.raw("args", &a);
        let dk = tcx.def_kind(def);
        if let Some(tr) = tcx.trait_of_assoc(def) {
            o.str("trait", &self.path(tr));
            if args.len() > 0 {
                if let Some(st) = args[0].as_type() {
                    let t = self.ty(st, env);
                    o.num("self", t);
                }
            }
        } else if let Some(imp) = tcx.impl_of_assoc(def) {
            if let Some(trid) = tcx.impl_opt_trait_id(imp) {
                o.str("impl_trait", &self.path(trid));
            }
            let st = tcx.type_of(imp).instantiate(tcx, args);
            let st = tcx.try_normalize_erasing_regions(self.env(env), st).ok();
            if let Some(st) = st {
                let t = self.ty(st, env);
                o.num("self", t);
            }
        }
        if matches!(dk, DefKind::Ctor(..)) {
            o.num("ctor", 1);
            let parent = tcx.parent(def);
            if tcx.def_kind(parent) == DefKind::Variant {
                let v = tcx.adt_def(tcx.parent(parent)).variant_index_with_id(parent);
                o.num("variant", v.as_usize());
            } else {
                o.num("variant", 0);
            }
        }
        if matches!(dk, DefKind::Fn | DefKind::AssocFn) {
            match Instance::try_resolve(tcx, self.env(env), def, args) {
                Ok(Some(inst)) => match inst.def {
                    InstanceKind::Item(d) => {
                        o.str("rpath", &self.path(d));
                        o.str("rcrate", tcx.crate_name(d.krate).as_str());
                        o.str("rname", tcx.opt_item_name(d).map(|n| n.to_string()).unwrap_or_default().as_str());
                        if let Some(imp) = tcx.impl_of_assoc(d) {
                            if let Some(trid) = tcx.impl_opt_trait_id(imp) {
                                o.str("r_impl_trait", &self.path(trid));
                            }
                        }
                        if self.interesting_crate(d) && tcx.is_mir_available(d) {
                            let n = self.node(d, inst.args, None, env);
                            o.num("body", n);
                        } else if tcx.item_name(d).as_str() == "ne" {
                            // the provided `ne` answers by the type's own `eq`
                            let eq = tcx.trait_of_assoc(d).and_then(|tr| {
                                tcx.associated_items(tr)
                                    .in_definition_order()
                                    .find(|i| i.opt_name().map_or(false, |n| n.as_str() == "eq"))
                                    .map(|i| i.def_id)
                            });
                            if let Some(eq) = eq {
                                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env(env), eq, args) {
                                    if let InstanceKind::Item(e) = i.def {
                                        if self.interesting_crate(e) && tcx.is_mir_available(e) {
                                            let n = self.node(e, i.args, None, env);
                                            o.num("eq_body", n);
                                        }
                                    }
                                }
                            }
                        }
                    }
                    other => {
                        o.str("shim", &format!("{:?}", other).split('(').next().unwrap_or("").to_string());
                    }
                },
                Ok(None) => o.num("unresolved", 1),
                Err(_) => o.num("unresolved", 2),
            }
        }
        o.end()
    }

    fn place(&mut self, p: &Place<'tcx>, env: Option<DefId>) -> String {
        let mut out = format!("[{}", p.local.as_usize());
        for e in p.projection.iter() {
            out.push(',');
            match e {
                ProjectionElem::Deref => out.push_str("[\"*\"]"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t, env);
                    let _ = write!(out, "[\"f\",{},{}]", f.as_usize(), t);
                }
                ProjectionElem::Index(l) => {
                    let _ = write!(out, "[\"i\",{}]", l.as_usize());
                }
                ProjectionElem::ConstantIndex { offset, from_end, .. } => {
                    let _ = write!(out, "[\"c\",{},{}]", offset, from_end as usize);
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    let _ = write!(out, "[\"s\",{},{},{}]", from, to, from_end as usize);
                }
                ProjectionElem::Downcast(_, v) => {
                    let _ = write!(out, "[\"v\",{}]", v.as_usize());
                }
                _ => out.push_str("[\"?\"]"),
            }
        }
        out.push(']');
        out
    }

    fn bytes_of(&self, id: mir::interpret::AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            mir::interpret::GlobalAlloc::Memory(a) => {
                let a = a.inner();
                let r = off as usize..(off + len) as usize;
                if r.end > a.len() {
                    return None;
                }
                Some(a.inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }

    fn constant(&mut self, c: &Const<'tcx>, env: Option<DefId>, span: Span) -> String {
        let tcx = self.tcx;
        let mut o = Obj::new();
        let ty = c.ty();
        let t = self.ty(ty, env);
        o.num("ty", t);
        if let ty::FnDef(..) = ty.kind() {
            o.str("k", "fn");
            return o.end();
        }
        let scalarish = matches!(ty.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Adt(..));
        if let Const::Unevaluated(u, _) = c {
            o.str("def", &self.path(u.def));
            o.str("name", tcx.opt_item_name(u.def).map(|n| n.to_string()).unwrap_or_default().as_str());
            let a = self.gargs(u.args, env);
            o.raw("args", &a);
            if let Some(tr) = tcx.trait_of_assoc(u.def) {
                o.str("trait", &self.path(tr));
            }
            if let Some(p) = u.promoted {
                o.num("promoted", p.as_usize());
                if self.interesting_crate(u.def) {
                    let n = self.node(u.def, u.args, Some(p.as_usize() as u32), env);
                    o.num("body", n);
                }
            } else {
                // an associated const of a trait may resolve to an impl's
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env(env), u.def, u.args) {
                    if let InstanceKind::Item(d) = inst.def {
                        if self.interesting_crate(d) && !is_trait_item_without_body(tcx, d) {
                            o.str("rpath", &self.path(d));
                            let n = self.node(d, inst.args, None, env);
                            o.num("body", n);
                        }
                    }
                }
            }
        }
        if scalarish {
            if let Some(s) = c.try_eval_scalar_int(tcx, self.env(env)) {
                o.str("k", "int");
                let size = s.size();
                let bits = s.to_bits(size);
                let v = if let ty::Int(_) = ty.kind() {
                    size.sign_extend(bits).to_string()
                } else {
                    bits.to_string()
                };
                o.str("v", &v);
                return o.end();
            }
        }
        match c {
            Const::Unevaluated(..) => {
                o.str("k", "uneval");
                // string constants
                if let ty::Ref(_, t, _) = ty.kind() {
                    if t.is_str() {
                        if let Ok(v) = c.eval(tcx, self.env(env), span) {
                            self.str_val(&v, &mut o);
                        }
                    }
                }
            }
            Const::Val(v, _) => {
                match v {
                    ConstValue::ZeroSized => o.str("k", "zst"),
                    _ => {
                        o.str("k", "val");
                        if let ty::Ref(_, t, _) = ty.kind() {
                            match t.kind() {
                                ty::Str => self.str_val(v, &mut o),
                                ty::Slice(e) if *e == tcx.types.u8 => self.str_val(v, &mut o),
                                ty::Array(e, n) if *e == tcx.types.u8 => {
                                    if let ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) = v {
                                        let (prov, off) = p.prov_and_relative_offset();
                                        if let Some(n) = n.try_to_target_usize(tcx) {
                                            if let Some(b) = self.bytes_of(prov.alloc_id(), off.bytes(), n) {
                                                o.raw("bytes", &arr(&b.iter().map(|x| x.to_string()).collect::<Vec<_>>()));
                                            }
                                        }
                                    }
                                }
                                _ => (),
                            }
                        }
                    }
                }
            }
            Const::Ty(_, ct) => {
                o.str("k", "ty");
                o.str("s", &format!("{:?}", ct));
            }
        }
        o.end()
    }

    fn str_val(&self, v: &ConstValue, o: &mut Obj) {
        let b = match v {
            ConstValue::Slice { alloc_id, meta } => self.bytes_of(*alloc_id, 0, *meta),
            ConstValue::Indirect { .. } => v.try_get_slice_bytes_for_diagnostics(self.tcx).map(|b| b.to_vec()),
            _ => None,
        };
        if let Some(b) = b {
            match std::str::from_utf8(&b) {
                Ok(s) => o.str("str", s),
                Err(_) => o.raw("bytes", &arr(&b.iter().map(|x| x.to_string()).collect::<Vec<_>>())),
            }
        }
    }

    fn operand(&mut self, op: &Operand<'tcx>, env: Option<DefId>, span: Span) -> String {
        match op {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p, env)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p, env)),
            Operand::Constant(c) => format!("[\"const\",{}]", self.constant(&c.const_, env, span)),
            Operand::RuntimeChecks(r) => format!("[\"rtcheck\",{}]", js(&format!("{:?}", r))),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, body: &Body<'tcx>, env: Option<DefId>, span: Span) -> String {
        let tcx = self.tcx;
        match r {
            Rvalue::Use(o, _) => format!("[\"use\",{}]", self.operand(o, env, span)),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx).map(|n| n.to_string()).unwrap_or("null".into());
                format!("[\"repeat\",{},{}]", self.operand(o, env, span), n)
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. }) as usize;
                format!("[\"ref\",{},{}]", self.place(p, env), m)
            }
            Rvalue::RawPtr(_, p) => format!("[\"ref\",{},2]", self.place(p, env)),
            Rvalue::Cast(k, o, t) => {
                let t = self.ty(*t, env);
                let from = o.ty(&body.local_decls, tcx);
                let from = self.ty(from, env);
                let ks = format!("{:?}", k);
                format!("[\"cast\",{},{},{},{}]", js(&ks), self.operand(o, env, span), t, from)
            }
            Rvalue::BinaryOp(op, ab) => {
                let t = ab.0.ty(&body.local_decls, tcx);
                let t = self.ty(t, env);
                format!("[\"bin\",{},{},{},{}]", js(&format!("{:?}", op)), self.operand(&ab.0, env, span), self.operand(&ab.1, env, span), t)
            }
            Rvalue::UnaryOp(op, a) => {
                let t = a.ty(&body.local_decls, tcx);
                let t = self.ty(t, env);
                format!("[\"un\",{},{},{}]", js(&format!("{:?}", op)), self.operand(a, env, span), t)
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&body.local_decls, tcx).ty;
                let t = self.ty(t, env);
                format!("[\"discr\",{},{}]", self.place(p, env), t)
            }
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<_> = ops.iter().map(|o| self.operand(o, env, span)).collect();
                let ops = arr(&ops);
                match &**k {
                    AggregateKind::Array(_) => format!("[\"agg\",\"array\",null,0,{}]", ops),
                    AggregateKind::Tuple => format!("[\"agg\",\"tuple\",null,0,{}]", ops),
                    AggregateKind::Adt(d, v, a, _, f) => {
                        let t = tcx.type_of(*d).instantiate(tcx, a);
                        let t = tcx.try_normalize_erasing_regions(self.env(env), t).ok();
                        let t = match t {
                            Some(t) => self.ty(t, env).to_string(),
                            None => "null".into(),
                        };
                        format!("[\"agg\",\"adt\",{},{},{},{}]", t, v.as_usize(), ops, f.map(|f| f.as_usize() as i64).unwrap_or(-1))
                    }
                    AggregateKind::Closure(d, a) => {
                        let t = Ty::new_closure(tcx, *d, a);
                        let t = self.ty(t, env);
                        format!("[\"agg\",\"closure\",{},0,{}]", t, ops)
                    }
                    AggregateKind::RawPtr(t, _) => {
                        let t = self.ty(*t, env);
                        format!("[\"agg\",\"rawptr\",{},0,{}]", t, ops)
                    }
                    _ => format!("[\"agg\",\"other\",null,0,{}]", ops),
                }
            }
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p, env)),
            Rvalue::ThreadLocalRef(d) => format!("[\"tls\",{}]", js(&self.path(*d))),
            _ => "[\"other\"]".to_string(),
        }
    }

    fn body(&mut self, node: Node<'tcx>, id: usize) -> Option<String> {
        let tcx = self.tcx;
        let env = node.env;
        let inst = Instance::new_raw(node.def, node.args);
        let dk = tcx.def_kind(node.def);
        let raw: &Body<'tcx> = match node.promoted {
            Some(p) => {
                if !tcx.is_mir_available(node.def) && !has_ctfe(tcx, node.def) {
                    return None;
                }
                tcx.promoted_mir(node.def).get(Promoted::from_u32(p))?
            }
            None => match dk {
                DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst => {
                    if !has_ctfe(tcx, node.def) {
                        return None;
                    }
                    tcx.mir_for_ctfe(node.def)
                }
                _ => {
                    if !tcx.is_mir_available(node.def) {
                        return None;
                    }
                    tcx.optimized_mir(node.def)
                }
            },
        };
        let body = inst
            .try_instantiate_mir_and_normalize_erasing_regions(tcx, self.env(env), ty::EarlyBinder::bind(tcx, raw.clone()))
            .ok()?;
        let mut o = Obj::new();
        o.num("id", id);
        o.str("path", &self.path(node.def));
        o.str("name", tcx.opt_item_name(node.def).map(|n| n.to_string()).unwrap_or_default().as_str());
        o.str("crate", tcx.crate_name(node.def.krate).as_str());
        o.str("kind", &format!("{:?}", dk));
        if let Some(p) = node.promoted {
            o.num("promoted", p as usize);
        }
        let a = self.gargs(node.args, env);
        o.raw("gargs", &a);
        if let Some(imp) = tcx.impl_of_assoc(node.def) {
            if let Some(trid) = tcx.impl_opt_trait_id(imp) {
                o.str("impl_trait", &self.path(trid));
            }
            let st = tcx.type_of(imp).instantiate(tcx, node.args);
            if let Ok(st) = tcx.try_normalize_erasing_regions(self.env(env), st) {
                let t = self.ty(st, env);
                o.num("self", t);
            }
        } else if let Some(tr) = tcx.trait_of_assoc(node.def) {
            o.str("trait", &self.path(tr));
            if let Some(st) = node.args[0].as_type() {
                let t = self.ty(st, env);
                o.num("self", t);
            }
        }
        let s = self.span(tcx.def_span(node.def));
        o.raw("span", &s);
        o.num("argc", body.arg_count);
        if let Some(sa) = body.spread_arg {
            o.num("spread", sa.as_usize());
        }
        let locals: Vec<_> = body.local_decls.iter().map(|l| self.ty(l.ty, env).to_string()).collect();
        o.raw("locals", &arr(&locals));
        // names of user variables (diagnostics only)
        let mut names = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.push(format!("[{},{}]", p.local.as_usize(), js(v.name.as_str())));
                }
            }
        }
        o.raw("names", &arr(&names));
        let mut bbs = Vec::new();
        for bb in body.basic_blocks.iter() {
            let mut b = Obj::new();
            if bb.is_cleanup {
                b.num("cleanup", 1);
            }
            let mut st = Vec::new();
            if !bb.is_cleanup {
                for s in &bb.statements {
                    let sp = s.source_info.span;
                    match &s.kind {
                        StatementKind::Assign(pr) => {
                            let p = self.place(&pr.0, env);
                            let r = self.rvalue(&pr.1, &body, env, sp);
                            st.push(format!("[\"=\",{},{},{}]", p, r, self.span(sp)));
                        }
                        StatementKind::SetDiscriminant { place, variant_index } => {
                            let p = self.place(place, env);
                            st.push(format!("[\"setdiscr\",{},{},{}]", p, variant_index.as_usize(), self.span(sp)));
                        }
                        StatementKind::Intrinsic(i) => {
                            st.push(format!("[\"intrinsic\",{}]", js(&format!("{:?}", i))));
                        }
                        _ => (),
                    }
                }
            }
            b.raw("st", &arr(&st));
            let t = bb.terminator();
            let sp = t.source_info.span;
            let mut to = Obj::new();
            to.raw("sp", &self.span(sp));
            if bb.is_cleanup {
                to.str("k", "cleanup");
            } else {
                match &t.kind {
                    TerminatorKind::Goto { target, .. } => {
                        to.str("k", "goto");
                        to.num("t", target.as_usize());
                    }
                    TerminatorKind::SwitchInt { discr, targets } => {
                        to.str("k", "switch");
                        let ty = discr.ty(&body.local_decls, tcx);
                        let signed_size = match ty.kind() {
                            ty::Int(_) => tcx.layout_of(self.env(env).as_query_input(ty)).ok().map(|l| l.size),
                            _ => None,
                        };
                        let tyi = self.ty(ty, env);
                        to.num("ty", tyi);
                        let d = self.operand(discr, env, sp);
                        to.raw("d", &d);
                        let v: Vec<_> = targets
                            .iter()
                            .map(|(v, b)| {
                                let vs = match signed_size {
                                    Some(s) => s.sign_extend(v).to_string(),
                                    None => v.to_string(),
                                };
                                format!("[{},{}]", js(&vs), b.as_usize())
                            })
                            .collect();
                        to.raw("v", &arr(&v));
                        to.num("o", targets.otherwise().as_usize());
                    }
                    TerminatorKind::Return => to.str("k", "return"),
                    TerminatorKind::Unreachable => to.str("k", "unreachable"),
                    TerminatorKind::Drop { place, target, .. } => {
                        to.str("k", "drop");
                        let p = self.place(place, env);
                        to.raw("p", &p);
                        let ty = place.ty(&body.local_decls, tcx).ty;
                        let t = self.ty(ty, env);
                        to.num("ty", t);
                        to.num("t", target.as_usize());
                    }
                    TerminatorKind::Call { func, args, destination, target, .. } => {
                        to.str("k", "call");
                        let fty = func.ty(&body.local_decls, tcx);
                        if let ty::FnDef(d, a) = *fty.kind() {
                            let c = self.callee(d, a.no_bound_vars().unwrap_or(tcx.mk_args(&[])), env);
                            to.raw("f", &c);
                        } else {
                            let f = self.operand(func, env, sp);
                            to.raw("fo", &f);
                        }
                        let mut av = Vec::new();
                        for a in args.iter() {
                            av.push(self.operand(&a.node, env, sp));
                        }
                        to.raw("a", &arr(&av));
                        let d = self.place(destination, env);
                        to.raw("d", &d);
                        let dty = destination.ty(&body.local_decls, tcx).ty;
                        let dty = self.ty(dty, env);
                        to.num("dty", dty);
                        match target {
                            Some(t) => to.num("t", t.as_usize()),
                            None => to.raw("t", "null"),
                        }
                    }
                    TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                        to.str("k", "assert");
                        let c = self.operand(cond, env, sp);
                        to.raw("c", &c);
                        to.num("e", *expected as usize);
                        let m = match &**msg {
                            AssertKind::BoundsCheck { len, index } => {
                                let l = self.operand(len, env, sp);
                                let i = self.operand(index, env, sp);
                                format!("[\"bounds\",{},{}]", l, i)
                            }
                            AssertKind::Overflow(op, a, b) => {
                                let a = self.operand(a, env, sp);
                                let b = self.operand(b, env, sp);
                                format!("[\"overflow\",{},{},{}]", js(&format!("{:?}", op)), a, b)
                            }
                            AssertKind::OverflowNeg(_) => "[\"overflowneg\"]".to_string(),
                            AssertKind::DivisionByZero(_) | AssertKind::RemainderByZero(_) => "[\"divzero\"]".to_string(),
                            AssertKind::MisalignedPointerDereference { .. } | AssertKind::NullPointerDereference
                            | AssertKind::NullReferenceConstructed => {
                                "[\"pointer\"]".to_string()
                            }
                            _ => "[\"other\"]".to_string(),
                        };
                        to.raw("m", &m);
                        to.num("t", target.as_usize());
                    }
                    TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
                        to.str("k", "goto");
                        to.num("t", real_target.as_usize());
                    }
                    _ => to.str("k", "other"),
                }
            }
            let te = to.end();
            b.raw("term", &te);
            bbs.push(b.end());
        }
        o.raw("blocks", &arr(&bbs));
        Some(o.end())
    }
}

fn has_ctfe(tcx: TyCtxt<'_>, d: DefId) -> bool {
    d.is_local() || tcx.is_mir_available(d) || (matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. }) && tcx.trivial_const(d).is_none())
}

fn is_trait_item_without_body(tcx: TyCtxt<'_>, d: DefId) -> bool {
    tcx.trait_of_assoc(d).is_some() && !tcx.defaultness(d).has_value()
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        types: HashMap::new(),
        type_out: Vec::new(),
        adts: HashMap::new(),
        adt_out: Vec::new(),
        nodes: HashMap::new(),
        queue: VecDeque::new(),
        depth: 0,
    };
    let _ = cx.depth;
    let mut roots = Vec::new();
    let mut impls = Vec::new();
    let mut seen = HashSet::new();

    for ld in tcx.hir_crate_items(()).definitions() {
        let def = ld.to_def_id();
        let dk = tcx.def_kind(def);
        match dk {
            DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                if is_trait_item_without_body(tcx, def) {
                    continue;
                }
                if !seen.insert(def) {
                    continue;
                }
                let args = ty::GenericArgs::identity_for_item(tcx, def);
                let id = cx.node(def, args, None, Some(def));
                let mut o = Obj::new();
                o.num("id", id);
                o.str("vis", if tcx.visibility(def).is_public() { "pub" } else { "priv" });
                roots.push(o.end());
            }
            DefKind::Impl { .. } => {
                let mut o = Obj::new();
                let env = Some(def);
                if let Some(trid) = tcx.impl_opt_trait_id(def) {
                    o.str("trait", &cx.path(trid));
                }
                let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let t = cx.ty(st, env);
                o.num("self", t);
                let s = cx.span(tcx.def_span(def));
                o.raw("span", &s);
                let mut items = Vec::new();
                for it in tcx.associated_items(def).in_definition_order() {
                    let mut io = Obj::new();
                    io.str("name", it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str());
                    io.str("kind", &format!("{:?}", it.tag()));
                    if !matches!(it.tag(), ty::AssocTag::Type) {
                        let args = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                        let id = cx.node(it.def_id, args, None, Some(it.def_id));
                        io.num("body", id);
                        io.str("vis", if tcx.visibility(it.def_id).is_public() { "pub" } else { "priv" });
                    }
                    items.push(io.end());
                }
                o.raw("items", &arr(&items));
                impls.push(o.end());
            }
            DefKind::Trait => {
                let mut o = Obj::new();
                o.str("is_trait", &cx.path(def));
                let mut items = Vec::new();
                for it in tcx.associated_items(def).in_definition_order() {
                    let mut io = Obj::new();
                    io.str("name", it.opt_name().map(|n| n.to_string()).unwrap_or_default().as_str());
                    io.str("kind", &format!("{:?}", it.tag()));
                    if !matches!(it.tag(), ty::AssocTag::Type) && it.defaultness(tcx).has_value() {
                        let args = ty::GenericArgs::identity_for_item(tcx, it.def_id);
                        let id = cx.node(it.def_id, args, None, Some(it.def_id));
                        io.num("body", id);
                    }
                    items.push(io.end());
                }
                o.raw("items", &arr(&items));
                impls.push(o.end());
            }
            DefKind::Struct | DefKind::Enum => {
                cx.adt(tcx.adt_def(def), Some(def));
            }
            _ => (),
        }
    }

    let mut bodies = Vec::new();
    while let Some(node) = cx.queue.pop_front() {
        let id = cx.nodes[&node];
        if let Some(b) = cx.body(node, id) {
            bodies.push(b);
        }
        if bodies.len() > 60000 {
            break;
        }
    }

    let mut o = Obj::new();
    o.str("crate", tcx.crate_name(LOCAL_CRATE).as_str());
    o.raw("roots", &arr(&roots));
    o.raw("impls", &arr(&impls));
    o.raw("types", &arr(&cx.type_out));
    o.raw("adts", &arr(&cx.adt_out));
    o.raw("bodies", &arrn(&bodies));
    std::fs::write(out, o.end()).expect("cannot write the analysis facts");
}

impl Callbacks for Dump {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let krate = tcx.crate_name(LOCAL_CRATE).to_string();
        let dir = std::env::var("STEIT_SA_OUT").expect("STEIT_SA_OUT is not set");
        dump(tcx, &format!("{}/{}.json", dir, krate));
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() {
    // as RUSTC_WRAPPER: argv[1] is the compiler cargo wanted to run
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    let wanted = std::env::var("STEIT_SA_CRATES").unwrap_or_default();
    let mut name = None;
    let mut test = false;
    for (i, a) in args.iter().enumerate() {
        if a == "--crate-name" {
            name = args.get(i + 1).cloned();
        }
        if a == "--test" {
            test = true;
        }
    }
    let hit = name.map_or(false, |n| wanted.split(',').any(|w| w == n)) && !test;
    if !hit {
        // be the compiler, as it would have been
        use std::os::unix::process::CommandExt;
        let real = std::env::args().nth(1).unwrap_or("rustc".into());
        let err = std::process::Command::new(real).args(&args[1..]).exec();
        panic!("cannot run the compiler: {}", err);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Dump);
    let _ = Plain;
}
