// Dumps the type-checked MIR of a crate (every function, closure and promoted constant), its ADTs,
// traits and impls, plus the MIR of the small std combinators it calls, as JSON.
//
// Used as RUSTC_WORKSPACE_WRAPPER. Output goes to $MIRDUMP_OUT for the crate named $MIRDUMP_CRATE.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::Compilation;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use std::collections::{HashSet, VecDeque};
use std::fmt::Write as _;

fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = String>>(i: I) -> String {
    let v: Vec<String> = i.into_iter().collect();
    format!("[{}]", v.join(","))
}

struct D<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: Vec<DefId>,
    adt_seen: HashSet<DefId>,
    queue: VecDeque<DefId>,
    seen: HashSet<DefId>,
}

impl<'tcx> D<'tcx> {
    fn key(&self, d: DefId) -> String {
        // A unique, stable identifier of an item: its def path with disambiguators
        let p = self.tcx.def_path(d);
        let mut s = self.tcx.crate_name(d.krate).to_string();
        s.push_str(&p.to_string_no_crate_verbose());
        s
    }
    fn path(&self, d: DefId) -> String {
        rustc_middle::ty::print::with_no_trimmed_paths!(rustc_middle::ty::print::with_resolve_crate_name!(self.tcx.def_path_str(d)))
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> String {
        let mut v = vec![];
        for x in a.iter() {
            if let Some(t) = x.as_type() {
                v.push(self.ty(t));
            } else if let Some(c) = x.as_const() {
                v.push(format!("[\"const\",{}]", esc(&format!("{:?}", c))));
            } else {
                v.push("[\"lt\"]".into());
            }
        }
        arr(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> String {
        match t.kind() {
            ty::Bool => "[\"bool\"]".into(),
            ty::Char => "[\"char\"]".into(),
            ty::Str => "[\"str\"]".into(),
            ty::Never => "[\"never\"]".into(),
            ty::Int(i) => format!("[\"int\",{}]", esc(i.name_str())),
            ty::Uint(i) => format!("[\"int\",{}]", esc(i.name_str())),
            ty::Adt(a, args) => {
                if self.adt_seen.insert(a.did()) {
                    self.adts.push(a.did());
                }
                let p = self.key(a.did());
                let s = self.args(args);
                format!("[\"adt\",{},{}]", esc(&p), s)
            }
            ty::Array(t, n) => {
                let n = format!("{:?}", n.try_to_target_usize(self.tcx));
                let n = n.trim_start_matches("Some(").trim_end_matches(')').to_string();
                let n = if n == "None" { "null".to_string() } else { n };
                format!("[\"array\",{},{}]", self.ty(*t), n)
            }
            ty::Slice(t) => format!("[\"slice\",{}]", self.ty(*t)),
            ty::RawPtr(t, m) => format!("[\"rawptr\",{},{}]", self.ty(*t), m.is_mut()),
            ty::Ref(_, t, m) => format!("[\"ref\",{},{}]", self.ty(*t), m.is_mut()),
            ty::Tuple(ts) => {
                let v: Vec<_> = ts.iter().map(|t| self.ty(t)).collect();
                format!("[\"tuple\",{}]", arr(v))
            }
            ty::Param(p) => format!("[\"param\",{},{}]", p.index, esc(p.name.as_str())),
            ty::FnDef(..) => {
                if let ty::FnDef(d, args) = t.kind() {
                    let k = self.key(*d);
                    let args = args.skip_binder();
                    format!("[\"fndef\",{},{}]", esc(&k), self.args(args))
                } else {
                    unreachable!()
                }
            }
            ty::Closure(d, args) => {
                let k = self.key(*d);
                format!("[\"closure\",{},{}]", esc(&k), { let a = self.tcx.mk_args(args.as_closure().parent_args()); self.args(a) })
            }
            ty::Dynamic(preds, _) => {
                if let Some(pr) = preds.principal() {
                    let pr = pr.skip_binder();
                    let k = self.key(pr.def_id);
                    format!("[\"dyn\",{},{}]", esc(&k), self.args(pr.args))
                } else {
                    "[\"dyn\",\"\",[]]".into()
                }
            }
            ty::Alias(_, a) => {
                let d: DefId = match a.kind { ty::AliasTyKind::Projection { def_id } => def_id.into(), ty::AliasTyKind::Inherent { def_id } => def_id.into(), ty::AliasTyKind::Opaque { def_id } => def_id.into(), ty::AliasTyKind::Free { def_id } => def_id.into() };
                let k = self.key(d);
                format!("[\"proj\",{},{}]", esc(&k), self.args(a.args))
            }
            ty::FnPtr(..) => "[\"fnptr\"]".into(),
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", t))),
        }
    }
    fn span(&self, s: rustc_span::Span) -> String {
        let s = s.source_callsite();
        let loc = self.tcx.sess.source_map().lookup_char_pos(s.lo());
        let f = format!("{}", loc.file.name.prefer_local_unconditionally());
        esc(&format!("{}:{}", f, loc.line))
    }
    fn place(&mut self, p: &Place<'tcx>) -> String {
        let mut v = vec![];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => "[\"deref\"]".to_string(),
                ProjectionElem::Field(f, t) => format!("[\"field\",{},{}]", f.as_u32(), self.ty(t)),
                ProjectionElem::Index(l) => format!("[\"index\",{}]", l.as_u32()),
                ProjectionElem::ConstantIndex { offset, min_length: _, from_end } => format!("[\"cindex\",{},{}]", offset, from_end),
                ProjectionElem::Subslice { from, to, from_end } => format!("[\"subslice\",{},{},{}]", from, to, from_end),
                ProjectionElem::Downcast(_, v) => format!("[\"variant\",{}]", v.as_u32()),
                _ => "[\"opaque\"]".to_string(),
            });
        }
        format!("[{},{}]", p.local.as_u32(), arr(v))
    }
    fn konst(&mut self, c: &ConstOperand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        let ct = c.const_;
        let t = ct.ty();
        let tys = self.ty(t);
        if let ty::FnDef(..) = t.kind() {
            return format!("[\"const\",{},null]", tys);
        }
        if let Const::Unevaluated(u, _) = ct {
            if let Some(p) = u.promoted {
                let k = self.key(u.def);
                return format!("[\"promoted\",{},{},{}]", tys, esc(&format!("{}::promoted[{}]", k, p.as_u32())), self.args(u.args));
            }
        }
        if let Some(s) = ct.try_eval_scalar_int(self.tcx, env) {
            let size = s.size();
            let v: String = match t.kind() {
                ty::Int(_) => format!("{}", s.to_int(size)),
                _ => format!("{}", s.to_uint(size)),
            };
            return format!("[\"const\",{},{}]", tys, v);
        }
        if let Ok(v) = ct.eval(self.tcx, env, c.span) {
            if let ty::Ref(_, inner, _) = t.kind() {
                if inner.is_str() {
                    if let Some(b) = v.try_get_slice_bytes_for_diagnostics(self.tcx) {
                        let s = String::from_utf8_lossy(b).to_string();
                        return format!("[\"const\",{},{}]", tys, esc(&s));
                    }
                }
            }
            if matches!(v, ConstValue::ZeroSized) {
                return format!("[\"const\",{},null]", tys);
            }
        }
        if let Const::Unevaluated(u, _) = ct {
            let _ = owner;
            let k = self.key(u.def);
            return format!("[\"named\",{},{},{}]", tys, esc(&k), self.args(u.args));
        }
        format!("[\"unknown\",{},{}]", tys, esc(&format!("{:?}", ct)))
    }
    fn operand(&mut self, o: &Operand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        match o {
            Operand::Copy(p) => format!("[\"copy\",{}]", self.place(p)),
            Operand::Move(p) => format!("[\"move\",{}]", self.place(p)),
            Operand::Constant(c) => self.konst(c, env, owner),
            Operand::RuntimeChecks(_) => "[\"const\",[\"bool\"],0]".into(),
        }
    }
    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        match r {
            Rvalue::Use(o, ..) => format!("[\"use\",{}]", self.operand(o, env, owner)),
            Rvalue::Repeat(o, n) => {
                let n = format!("{:?}", n.try_to_target_usize(self.tcx));
                let n = n.trim_start_matches("Some(").trim_end_matches(')').to_string();
                let n = if n == "None" { "null".to_string() } else { n };
                format!("[\"repeat\",{},{}]", self.operand(o, env, owner), n)
            }
            Rvalue::Ref(_, bk, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(bk, BorrowKind::Mut { .. })),
            Rvalue::RawPtr(k, p) => format!("[\"ref\",{},{}]", self.place(p), matches!(k, RawPtrKind::Mut)),
            Rvalue::Cast(k, o, t) => {
                let k = format!("{:?}", k);
                format!("[\"cast\",{},{},{}]", esc(&k), self.operand(o, env, owner), self.ty(*t))
            }
            Rvalue::BinaryOp(op, b) => format!("[\"bin\",{},{},{}]", esc(&format!("{:?}", op)), self.operand(&b.0, env, owner), self.operand(&b.1, env, owner)),
            Rvalue::UnaryOp(op, o) => format!("[\"un\",{},{}]", esc(&format!("{:?}", op)), self.operand(o, env, owner)),
            Rvalue::Discriminant(p) => format!("[\"discr\",{}]", self.place(p)),
            Rvalue::CopyForDeref(p) => format!("[\"use\",[\"copy\",{}]]", self.place(p)),
            Rvalue::Aggregate(k, ops) => {
                let ops: Vec<_> = ops.iter().map(|o| self.operand(o, env, owner)).collect();
                let k = match &**k {
                    AggregateKind::Array(_) => "[\"array\"]".to_string(),
                    AggregateKind::Tuple => "[\"tuple\"]".to_string(),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        if self.adt_seen.insert(*d) {
                            self.adts.push(*d);
                        }
                        let k = self.key(*d);
                        format!("[\"adt\",{},{},{},{}]", esc(&k), v.as_u32(), self.args(args), match f { Some(f) => f.as_u32().to_string(), None => "null".into() })
                    }
                    AggregateKind::Closure(d, _) => format!("[\"closure\",{}]", esc(&self.key(*d))),
                    _ => "[\"other\"]".to_string(),
                };
                format!("[\"agg\",{},{}]", k, arr(ops))
            }
            _ => format!("[\"other\",{}]", esc(&format!("{:?}", r))),
        }
    }
    /// the mutable state, trait objects and raw pointers that a shared reference to a value of the type gives access to
    fn interior(&self, t: Ty<'tcx>, at: String, seen: &mut HashSet<Ty<'tcx>>, out: &mut Vec<String>) {
        if !seen.insert(t) {
            return;
        }
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(a, args) => {
                if a.is_unsafe_cell() {
                    out.push(format!("[\"cell\",{}]", esc(&at)));
                    return;
                }
                if a.is_phantom_data() {
                    return;
                }
                // the counts of a shared pointer are not part of the value
                let counted = { let k = self.key(a.did()); k == "alloc::rc::Rc" || k == "alloc::sync::Arc" };
                for v in a.variants().iter() {
                    for f in &v.fields {
                        if counted {
                            continue;
                        }
                        let ft = f.ty(tcx, args).skip_norm_wip();
                        if !a.did().is_local() {
                            if let ty::RawPtr(..) = ft.kind() {
                                continue;
                            }
                        }
                        self.interior(ft, format!("{}.{}", at, f.name), seen, out);
                    }
                }
                if !a.did().is_local() {
                    for x in args.types() {
                        self.interior(x, format!("{}<>", at), seen, out);
                    }
                }
            }
            ty::Ref(_, x, _) => self.interior(*x, format!("{}.*", at), seen, out),
            ty::RawPtr(..) => out.push(format!("[\"raw pointer\",{}]", esc(&at))),
            ty::Dynamic(..) => out.push(format!("[\"trait object\",{}]", esc(&at))),
            ty::Array(x, _) | ty::Slice(x) => self.interior(*x, format!("{}[]", at), seen, out),
            ty::Tuple(ts) => {
                for (i, x) in ts.iter().enumerate() {
                    self.interior(x, format!("{}.{}", at, i), seen, out);
                }
            }
            _ => {}
        }
    }
    fn want_extern(&self, d: DefId) -> bool {
        let p = self.path(d);
        let k = self.key(d);
        let _ = p;
        ["core::option::", "core::result::", "core::cmp::", "core::mem::swap", "core::mem::replace", "core::mem::take",
         "core::bool::", "core::ops::control_flow", "core::ops::range", "core::tuple", "core::convert::", "core::ops::try_trait", "core::borrow::"]
            .iter()
            .any(|x| k.starts_with(x))
    }
    fn call(&mut self, func: &Operand<'tcx>, env: TypingEnv<'tcx>, owner: DefId) -> String {
        if let Some((d, args)) = func.const_fn_def() {
            let tcx = self.tcx;
            let mut s = String::from("{");
            let _ = write!(s, "\"key\":{},\"path\":{},\"args\":{}", esc(&self.key(d)), esc(&self.path(d)), self.args(args));
            let tr = tcx.trait_of_assoc(d);
            if let Some(t) = tr {
                let _ = write!(s, ",\"trait\":{},\"method\":{}", esc(&self.key(t)), esc(tcx.item_name(d).as_str()));
            }
            let mut target = d;
            let env2 = env;
            let eargs = tcx.try_normalize_erasing_regions(env2, ty::Unnormalized::new_wip(args)).unwrap_or(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, env2, d, tcx.erase_and_anonymize_regions(eargs)) {
                let rd = i.def_id();
                let kind = match i.def {
                    ty::InstanceKind::Item(_) => "item",
                    ty::InstanceKind::Intrinsic(_) => "intrinsic",
                    ty::InstanceKind::Virtual(..) => "virtual",
                    ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "cloneshim",
                    ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closureonce",
                    ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptrshim",
                    ty::InstanceKind::Shim(ty::ShimKind::DropGlue(..)) => "drop",
                    _ => "shim",
                };
                let _ = write!(s, ",\"resolved\":{},\"rkind\":\"{}\",\"rargs\":{}", esc(&self.key(rd)), kind, self.args(i.args));
                target = rd;
            }
            s.push('}');
            for t in [target, d] {
                if !t.is_local() && self.want_extern(t) && tcx.is_mir_available(t) && self.seen.insert(t) {
                    self.queue.push_back(t);
                }
            }
            s
        } else {
            format!("{{\"dynamic\":{}}}", self.operand(func, env, owner))
        }
    }
    fn body(&mut self, key: &str, owner: DefId, body: &Body<'tcx>) -> String {
        let tcx = self.tcx;
        let env = TypingEnv::post_analysis(tcx, owner);
        let mut names: Vec<Option<String>> = vec![None; body.local_decls.len()];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names[p.local.as_usize()] = Some(v.name.to_string());
                }
            }
        }
        let mut s = String::from("{");
        let kind = format!("{:?}", tcx.def_kind(owner));
        let _ = write!(s, "\"key\":{},\"path\":{},\"kind\":{},\"span\":{},\"argc\":{}", esc(key), esc(&self.path(owner)), esc(&kind), self.span(body.span), body.arg_count);
        let spread = body.spread_arg.map(|l| l.as_u32().to_string()).unwrap_or("null".into());
        let _ = write!(s, ",\"spread\":{}", spread);
        if !matches!(tcx.def_kind(owner), DefKind::Closure) {
            let _ = write!(s, ",\"name\":{}", esc(tcx.opt_item_name(owner).map(|x| x.to_string()).unwrap_or_default().as_str()));
            let vis = format!("{:?}", tcx.visibility(owner));
            let _ = write!(s, ",\"vis\":{}", esc(&vis));
        }
        // generics: names in index order
        let g = tcx.generics_of(owner);
        let mut gn = vec![];
        for i in 0..g.count() {
            gn.push(esc(g.param_at(i, tcx).name.as_str()));
        }
        let _ = write!(s, ",\"generics\":{}", arr(gn));
        let parent = if matches!(tcx.def_kind(owner), DefKind::Closure) { tcx.typeck_root_def_id(owner) } else { owner };
        if let Some(im) = tcx.impl_of_assoc(parent) {
            let _ = write!(s, ",\"impl\":{}", esc(&self.key(im)));
        }
        if let Some(t) = tcx.trait_of_assoc(parent) {
            let _ = write!(s, ",\"trait\":{}", esc(&self.key(t)));
        }
        let mut ls = vec![];
        for (i, l) in body.local_decls.iter_enumerated() {
            let n = match &names[i.as_usize()] { Some(n) => esc(n), None => "null".into() };
            ls.push(format!("[{},{}]", self.ty(l.ty), n));
        }
        let _ = write!(s, ",\"locals\":{}", arr(ls));
        let mut bs = vec![];
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                let sp = self.span(x.source_info.span);
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let p = self.place(&a.0);
                        let r = self.rvalue(&a.1, env, owner);
                        st.push(format!("[\"assign\",{},{},{}]", p, r, sp));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        st.push(format!("[\"setdiscr\",{},{},{}]", self.place(place), variant_index.as_u32(), sp));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(format!("[\"intrinsic\",{},{}]", esc(&format!("{:?}", i)), sp));
                    }
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let ts = match &t.kind {
                TerminatorKind::Goto { target, .. } => format!("[\"goto\",{}]", target.as_u32()),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let v: Vec<_> = targets.iter().map(|(v, t)| format!("[{},{}]", v, t.as_u32())).collect();
                    let dt = discr.ty(&body.local_decls, tcx);
                    format!("[\"switch\",{},{},{},{},{}]", self.operand(discr, env, owner), self.ty(dt), arr(v), targets.otherwise().as_u32(), sp)
                }
                TerminatorKind::Return => format!("[\"return\",{}]", sp),
                TerminatorKind::Unreachable => "[\"unreachable\"]".into(),
                TerminatorKind::Drop { place, target, .. } => {
                    let dt = place.ty(&body.local_decls, tcx).ty;
                    format!("[\"drop\",{},{},{},{}]", self.place(place), self.ty(dt), target.as_u32(), sp)
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let f = self.call(func, env, owner);
                    let a: Vec<_> = args.iter().map(|o| self.operand(&o.node, env, owner)).collect();
                    format!("[\"call\",{},{},{},{},{}]", f, arr(a), self.place(destination), match target { Some(t) => t.as_u32().to_string(), None => "null".into() }, sp)
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => format!("[\"bounds\",{},{}]", self.operand(len, env, owner), self.operand(index, env, owner)),
                        AssertKind::Overflow(op, _, _) => format!("[\"overflow\",{}]", esc(&format!("{:?}", op))),
                        AssertKind::OverflowNeg(_) => "[\"overflow\",\"Neg\"]".into(),
                        _ => "[\"other\"]".into(),
                    };
                    format!("[\"assert\",{},{},{},{},{}]", self.operand(cond, env, owner), expected, m, target.as_u32(), sp)
                }
                TerminatorKind::FalseEdge { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::FalseUnwind { real_target, .. } => format!("[\"goto\",{}]", real_target.as_u32()),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => "[\"resume\"]".into(),
                _ => format!("[\"other\",{}]", esc(&format!("{:?}", t.kind))),
            };
            bs.push(format!("[{},{},{}]", arr(st), ts, b.is_cleanup));
        }
        let _ = write!(s, ",\"blocks\":{}", arr(bs));
        s.push('}');
        s
    }
    fn run(&mut self) -> String {
        let tcx = self.tcx;
        let mut bodies = vec![];
        let mut errs = vec![];
        for ld in tcx.mir_keys(()) {
            let d = ld.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                DefKind::Ctor(..) => {
                    let k = self.key(d);
                    let b = tcx.optimized_mir(d);
                    bodies.push(self.body(&k, d, b));
                    continue;
                }
                DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                    // the program computing the constant
                    let k = self.key(d);
                    let b = tcx.mir_for_ctfe(d);
                    bodies.push(self.body(&k, d, b));
                    for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                        let pk = format!("{}::promoted[{}]", k, i.as_u32());
                        bodies.push(self.body(&pk, d, p));
                    }
                    continue;
                }
                _ => {
                    errs.push(esc(&format!("{:?} {}", tcx.def_kind(d), self.path(d))));
                    continue;
                }
            }
            self.seen.insert(d);
            let k = self.key(d);
            let b = tcx.optimized_mir(d);
            bodies.push(self.body(&k, d, b));
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                let pk = format!("{}::promoted[{}]", k, i.as_u32());
                bodies.push(self.body(&pk, d, p));
            }
        }
        let mut ext = vec![];
        while let Some(d) = self.queue.pop_front() {
            if d.is_local() { continue; }
            let k = self.key(d);
            let b = tcx.optimized_mir(d);
            ext.push(self.body(&k, d, b));
            for (i, p) in tcx.promoted_mir(d).iter_enumerated() {
                let pk = format!("{}::promoted[{}]", k, i.as_u32());
                ext.push(self.body(&pk, d, p));
            }
        }
        // impls
        let mut impls = vec![];
        let mut traits = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Impl { of_trait } => {
                    let mut s = String::from("{");
                    let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let g = tcx.generics_of(d).count();
                    let _ = write!(s, "\"key\":{},\"self\":{},\"ngen\":{},\"span\":{}", esc(&self.key(d)), self.ty(st), g, self.span(tcx.def_span(d)));
                    let _ = write!(s, ",\"derived\":{}", tcx.is_automatically_derived(d));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(d).instantiate_identity().skip_norm_wip();
                        let _ = write!(s, ",\"trait\":{},\"targs\":{}", esc(&self.key(tr.def_id)), self.args(tr.args));
                    }
                    let mut it = vec![];
                    for i in tcx.associated_items(d).in_definition_order() {
                        if matches!(i.kind, ty::AssocKind::Fn { .. }) {
                            it.push(format!("[{},{}]", esc(tcx.item_name(i.def_id).as_str()), esc(&self.key(i.def_id))));
                        } else if matches!(i.kind, ty::AssocKind::Type { .. }) {
                            let at = tcx.type_of(i.def_id).instantiate_identity().skip_norm_wip();
                            it.push(format!("[{},{}]", esc(&format!("type {}", tcx.item_name(i.def_id))), self.ty(at)));
                        }
                    }
                    let _ = write!(s, ",\"items\":{}}}", arr(it));
                    impls.push(s);
                }
                DefKind::Trait => {
                    let mut it = vec![];
                    for i in tcx.associated_items(d).in_definition_order() {
                        if matches!(i.kind, ty::AssocKind::Fn { .. }) {
                            it.push(format!("[{},{},{}]", esc(tcx.item_name(i.def_id).as_str()), esc(&self.key(i.def_id)), i.defaultness(tcx).has_value()));
                        }
                    }
                    traits.push(format!("{{\"key\":{},\"ngen\":{},\"items\":{}}}", esc(&self.key(d)), tcx.generics_of(d).count(), arr(it)));
                }
                DefKind::Static { .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                    let mut out = vec![];
                    self.interior(t, "self".to_string(), &mut HashSet::new(), &mut out);
                    statics.push(format!("[{},{},{},{},{}]", esc(&self.key(d)), self.ty(t), tcx.is_mutable_static(d), arr(out), self.span(tcx.def_span(d))));
                }
                DefKind::Struct | DefKind::Enum => {
                    if self.adt_seen.insert(d) {
                        self.adts.push(d);
                    }
                }
                _ => {}
            }
        }
        let mut ads = vec![];
        let mut i = 0;
        while i < self.adts.len() {
            let d = self.adts[i];
            i += 1;
            let a = tcx.adt_def(d);
            let mut vs = vec![];
            let discrs: Vec<(rustc_abi::VariantIdx, u128)> = if a.is_enum() { a.discriminants(tcx).map(|(v, d)| (v, d.val)).collect() } else { vec![] };
            // std containers are modelled, so their (private) fields are not needed
            let deep = d.is_local() || a.is_enum() || { let k = self.key(d); k.starts_with("core::ops::range") || k.starts_with("core::cmp") };
            for (vi, v) in a.variants().iter_enumerated() {
                let mut fs = vec![];
                if deep {
                    for f in &v.fields {
                        let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                        fs.push(format!("[{},{},{}]", esc(f.name.as_str()), self.ty(ft), esc(&format!("{:?}", f.vis))));
                    }
                }
                let dv = discrs.iter().find(|x| x.0 == vi).map(|x| x.1.to_string()).unwrap_or("null".into());
                vs.push(format!("[{},{},{}]", esc(v.name.as_str()), dv, arr(fs)));
            }
            let kind = if a.is_enum() { "enum" } else if a.is_struct() { "struct" } else { "union" };
            let vis = format!("{:?}", tcx.visibility(d));
            let uses_drop = tcx.adt_destructor(d).map(|x| esc(&self.key(x.did))).unwrap_or("null".into());
            ads.push(format!("{{\"key\":{},\"path\":{},\"kind\":\"{}\",\"local\":{},\"vis\":{},\"drop\":{},\"variants\":{}}}", esc(&self.key(d)), esc(&self.path(d)), kind, d.is_local(), esc(&vis), uses_drop, arr(vs)));
        }
        // unsafe code, and where shared references to a type of this crate give access to mutable state
        let mut unsafes = vec![];
        for ld in tcx.hir_body_owners() {
            let d = ld.to_def_id();
            let mut v = Unsafe { tcx, found: vec![] };
            rustc_hir::intravisit::Visitor::visit_body(&mut v, tcx.hir_body_owned_by(ld));
            let k = self.key(d);
            for sp in v.found {
                unsafes.push(format!("[\"unsafe block\",{},{}]", esc(&k), self.span(sp)));
            }
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) && tcx.fn_sig(d).skip_binder().safety().is_unsafe() {
                unsafes.push(format!("[\"unsafe function\",{},{}]", esc(&k), self.span(tcx.def_span(d))));
            }
        }
        for id in tcx.hir_crate_items(()).definitions() {
            let d = id.to_def_id();
            if let DefKind::Impl { of_trait: true } = tcx.def_kind(d) {
                if tcx.impl_trait_header(d).safety.is_unsafe() {
                    unsafes.push(format!("[\"unsafe impl\",{},{}]", esc(&self.key(d)), self.span(tcx.def_span(d))));
                }
            }
        }
        let mut shared = vec![];
        for i in 0..self.adts.len() {
            let d = self.adts[i];
            if d.is_local() {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let mut seen = HashSet::new();
                let mut out = vec![];
                self.interior(t, "self".to_string(), &mut seen, &mut out);
                shared.push(format!("[{},{}]", esc(&self.key(d)), arr(out)));
            }
        }
        format!(
            "{{\"unsafe\":{},\n\"interior\":{},\n\"crate\":{},\n\"bodies\":{},\n\"extern\":{},\n\"impls\":{},\n\"traits\":{},\n\"adts\":{},\n\"statics\":{},\n\"skipped\":{}}}\n",
            arr(unsafes),
            arr(shared),
            esc(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str()),
            arr(bodies).replace("},{\"key\"", "},\n{\"key\""),
            arr(ext).replace("},{\"key\"", "},\n{\"key\""),
            arr(impls),
            arr(traits),
            arr(ads),
            arr(statics),
            arr(errs)
        )
    }
}

struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<rustc_span::Span>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            if !b.span.in_external_macro(self.tcx.sess.source_map()) {
                self.found.push(b.span);
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn config(&mut self, c: &mut rustc_interface::Config) {
        c.opts.unstable_opts.mir_opt_level = Some(0);
        c.opts.unstable_opts.inline_mir = Some(false);
        for p in ["CheckAlignment", "CheckNull", "CheckEnums"] {
            c.opts.unstable_opts.mir_enable_passes.push((p.to_string(), false));
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        if Ok(name.clone()) == std::env::var("MIRDUMP_CRATE") {
            let mut d = D { tcx, adts: vec![], adt_seen: HashSet::new(), queue: VecDeque::new(), seen: HashSet::new() };
            let s = d.run();
            let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
            std::fs::write(out, s).unwrap();
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER passes the real rustc as the first argument
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    let code = rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb));
    if code != std::process::ExitCode::SUCCESS { std::process::exit(1); }
}
