//! A compiler driver that stops after analysis and writes, for one configuration of the crate,
//! what the portable path consists of: the functions reachable from the portable hasher's API,
//! the edges between them, and every unsafe construct and every override of the unsafe_code lint
//! in them or in the modules they are defined in.
//!
//! usage: nounsafe OUT CFG-CHANGES rustc-arguments...   (CFG-CHANGES: "+name=value,-name,...")
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_lint;
extern crate rustc_lint_defs;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir as hir;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_hir::intravisit::{self, Visitor};
use rustc_interface::interface;
use rustc_middle::mir;
use rustc_middle::mir::visit::Visitor as MirVisitor;
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypeSuperVisitable, TypeVisitable, TypeVisitableExt, TypeVisitor, TypingEnv};
use rustc_span::{Span, Symbol};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::io::Write;

struct C {
    out: String,
    changes: Vec<(bool, String, Option<String>)>,
    wrap: bool,
}

impl Callbacks for C {
    fn config(&mut self, c: &mut interface::Config) {
        let ch = self.changes.clone();
        c.track_state = Some(Box::new(move |s: &rustc_session::Session| {
            // before anything is parsed: this configuration instead of the host's
            let cfg = unsafe { &mut *(&raw const s.config as *mut rustc_session::config::Cfg) };
            for (on, n, v) in ch {
                let e = (Symbol::intern(&n), v.map(|v| Symbol::intern(&v)));
                if on {
                    cfg.insert(e);
                } else if e.1.is_none() {
                    cfg.retain(|x| x.0 != e.0);
                } else {
                    cfg.retain(|x| *x != e);
                }
            }
        }));
    }
    fn after_analysis<'tcx>(&mut self, _: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let mut w = Walk { tcx, seen: BTreeMap::new(), work: VecDeque::new(), builder: false, lines: Vec::new(), adts: BTreeSet::new(), edges: 0, bound: BTreeSet::new() };
        w.run();
        let mut f = std::fs::File::create(&self.out).unwrap();
        for l in w.lines {
            writeln!(f, "{}", l).unwrap();
        }
        writeln!(f, "END").unwrap();
        if self.wrap { Compilation::Continue } else { Compilation::Stop }
    }
}

struct Walk<'tcx> {
    tcx: TyCtxt<'tcx>,
    seen: BTreeMap<String, ()>,
    work: VecDeque<(Node<'tcx>, String)>,
    /// from the portable hasher; or from the collection builder type, whose path ends where the
    /// auto-selecting hasher it builds begins
    builder: bool,
    lines: Vec<String>,
    adts: BTreeSet<String>,
    edges: usize,
    bound: BTreeSet<String>,
}
#[derive(Clone, Copy)]
enum Node<'tcx> {
    /// a function with its generic arguments known
    Mono(Instance<'tcx>),
    /// an item looked at as written: constants, statics, generic functions nobody instantiates
    Item(DefId),
}

fn json(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

impl<'tcx> Walk<'tcx> {
    fn line(&mut self, k: &str, f: &[(&str, String)]) {
        let b: Vec<String> = f.iter().map(|(n, v)| format!("{}: {}", json(n), json(v))).collect();
        self.lines.push(format!("{{\"k\": {}, {}}}", json(k), b.join(", ")));
    }
    fn place(&self, s: Span) -> (String, String) {
        // where the text is: a macro's definition for what a macro wrote
        let sm = self.tcx.sess.source_map();
        let at = |s: Span| {
            let t = sm.span_to_diagnostic_string(s.shrink_to_lo());
            let t = t.split(": ").next().unwrap();
            let mut p = t.rsplitn(3, ':');
            let (_, line, file) = (p.next(), p.next().unwrap_or("").to_string(), p.next().unwrap_or("").to_string());
            (file.rsplit_once("/src/").map_or(file.clone(), |x| x.1.to_string()), line)
        };
        let (f, l) = at(s);
        let o = at(s.source_callsite());
        let e = if o == (f.clone(), l.clone()) { String::new() } else { format!(" (from {}:{})", o.0, o.1) };
        (f.clone(), format!("{}:{}{}", f, l, e))
    }

    fn run(&mut self) {
        let tcx = self.tcx;
        // roots: everything implemented for the portable hasher, its key, the collection builder
        // type, and whatever local types those are made of
        let mut found = 0;
        for names in [&["PortableHash", "Key"][..], &["HighwayBuildHasher"]] {
            self.builder = names.len() == 1;
            for d in tcx.hir_crate_items(()).definitions() {
                match tcx.def_kind(d) {
                    DefKind::Struct | DefKind::Enum | DefKind::Union => {
                        let n = tcx.item_name(d.to_def_id());
                        if names.contains(&n.as_str()) && tcx.effective_visibilities(()).is_exported(d) {
                            found += 1;
                            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                            self.mention(t, "root");
                        }
                    }
                    DefKind::Trait if !self.builder && tcx.item_name(d.to_def_id()).as_str() == "HighwayHash" => {
                        found += 1;
                        self.push(Node::Item(d.to_def_id()), "root");
                    }
                    _ => {}
                }
            }
            while let Some((n, from)) = self.work.pop_front() {
                self.visit(n, &from);
            }
        }
        self.line("roots", &[("found", found.to_string())]);
        self.modules();
        let v = [
            ("functions", self.seen.len().to_string()),
            ("edges", self.edges.to_string()),
            ("types", self.adts.iter().cloned().collect::<Vec<_>>().join(" ")),
            ("boundary", self.bound.iter().cloned().collect::<Vec<_>>().join(" ")),
        ];
        self.line("stats", &v);
    }

    /// The auto-selecting hasher's own code is where the portable path ends.
    fn is_boundary(&self, d: DefId) -> bool {
        let tcx = self.tcx;
        let mut d = d;
        loop {
            if let DefKind::Impl { .. } = tcx.def_kind(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                return self.is_auto(t);
            }
            match tcx.opt_parent(d) {
                Some(p) => d = p,
                None => return false,
            }
        }
    }
    fn is_auto(&self, t: Ty<'tcx>) -> bool {
        matches!(t.kind(), ty::Adt(a, _) if a.did().is_local() && self.tcx.item_name(a.did()).as_str() == "HighwayHasher")
    }

    fn push(&mut self, n: Node<'tcx>, from: &str) {
        let d = match n {
            Node::Mono(i) => i.def_id(),
            Node::Item(d) => d,
        };
        self.edges += 1;
        if !d.is_local() {
            // drop glue, pointer shims of local things
            return;
        }
        if self.builder && self.is_boundary(d) {
            self.bound.insert(self.tcx.def_path_str(d));
            return;
        }
        let k = match n {
            Node::Mono(i) => format!("{} {:?}", self.builder, i),
            Node::Item(d) => format!("{} {:?}", self.builder, d),
        };
        if self.seen.insert(k, ()).is_none() {
            self.work.push_back((n, from.to_string()));
        }
    }

    /// A local type is part of the path: so is everything implemented for it.
    fn mention(&mut self, t: Ty<'tcx>, from: &str) {
        struct T<'tcx>(Vec<ty::AdtDef<'tcx>>, Vec<(DefId, ty::GenericArgsRef<'tcx>)>);
        impl<'tcx> TypeVisitor<TyCtxt<'tcx>> for T<'tcx> {
            fn visit_ty(&mut self, t: Ty<'tcx>) {
                match t.kind() {
                    ty::Adt(a, _) if a.did().is_local() => self.0.push(*a),
                    ty::FnDef(d, a) => self.1.push((*d, a.skip_binder())),
                    ty::Closure(d, a) => self.1.push((*d, a)),
                    _ => {}
                }
                t.super_visit_with(self)
            }
        }
        let mut v = T(Vec::new(), Vec::new());
        t.visit_with(&mut v);
        for (d, a) in v.1 {
            self.function(d, a, from);
        }
        for a in v.0 {
            let tcx = self.tcx;
            let name = tcx.def_path_str(a.did());
            if self.is_auto(tcx.type_of(a.did()).instantiate_identity().skip_norm_wip()) || !self.adts.insert(format!("{}{}", name, if self.builder { " (builder)" } else { "" })) {
                continue;
            }
            // the type's own declaration
            self.overrides(a.did().expect_local(), &name, "reachable");
            for f in a.all_fields() {
                let ft = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                self.mention(ft, &name);
            }
            for d in tcx.hir_crate_items(()).definitions() {
                if !matches!(tcx.def_kind(d), DefKind::Impl { .. }) {
                    continue;
                }
                let st = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let own = matches!(st.peel_refs().kind(), ty::Adt(b, _) if b.did() == a.did());
                if !own {
                    continue;
                }
                self.block(d, &name);
                for i in tcx.associated_items(d).in_definition_order() {
                    if let ty::AssocKind::Fn { .. } = i.kind {
                        if i.def_id.is_local() {
                            let g = tcx.generics_of(i.def_id);
                            if g.requires_monomorphization(tcx) {
                                self.push(Node::Item(i.def_id), &name);
                            } else {
                                let args = ty::GenericArgs::identity_for_item(tcx, i.def_id);
                                let args = tcx.erase_and_anonymize_regions(args);
                                self.push(Node::Mono(Instance::new_raw(i.def_id, args)), &name);
                            }
                        }
                    } else if i.def_id.is_local() {
                        self.push(Node::Item(i.def_id), &name);
                    }
                }
                // default methods it takes from a local trait
                if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                    let tr = tr.instantiate_identity().skip_norm_wip();
                    if tr.def_id.is_local() && !tr.args.has_param() {
                        for i in tcx.associated_items(tr.def_id).in_definition_order() {
                            if matches!(i.kind, ty::AssocKind::Fn { .. }) && !tcx.generics_of(i.def_id).own_requires_monomorphization() {
                                self.function(i.def_id, tcx.erase_and_anonymize_regions(tr.args), &name);
                            }
                        }
                    }
                }
            }
        }
    }

    fn function(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, from: &str) {
        let tcx = self.tcx;
        if args.has_param() || args.has_escaping_bound_vars() {
            self.push(Node::Item(d), from);
            return;
        }
        match Instance::try_resolve(tcx, TypingEnv::fully_monomorphized(), d, tcx.erase_and_anonymize_regions(args)) {
            Ok(Some(i)) => self.push(Node::Mono(i), from),
            _ => self.push(Node::Item(d), from),
        }
    }

    fn visit(&mut self, n: Node<'tcx>, from: &str) {
        let tcx = self.tcx;
        let (d, name) = match n {
            Node::Mono(i) => (i.def_id(), format!("{}", i)),
            Node::Item(d) => (d, tcx.def_path_str(d)),
        };
        let l = d.expect_local();
        let pl = self.place(tcx.def_span(d));
        let sm = tcx.sess.source_map();
        let whole = match tcx.hir_maybe_body_owned_by(l) {
            Some(b) => tcx.def_span(d).to(b.value.span),
            None => tcx.def_span(d),
        };
        let lines = format!("{}-{}", sm.lookup_char_pos(whole.lo()).line, sm.lookup_char_pos(whole.hi()).line);
        self.line("fn", &[("name", name.clone()), ("from", from.to_string()), ("at", pl.1), ("file", pl.0), ("lines", lines), ("kind", format!("{:?}", tcx.def_kind(d)))]);
        self.overrides(l, &name, "reachable");
        self.unsafety(l, &name, "reachable");
        // where to next
        let body: Option<&mir::Body<'tcx>> = match (n, tcx.def_kind(d)) {
            (Node::Mono(i), _) => Some(tcx.instance_mir(i.def)),
            (_, DefKind::Fn | DefKind::AssocFn) if tcx.is_mir_available(d) => Some(tcx.optimized_mir(d)),
            (_, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst)
                if tcx.hir_maybe_body_owned_by(l).is_some() =>
            {
                Some(tcx.mir_for_ctfe(d))
            }
            _ => None,
        };
        if let Some(b) = body {
            let args = match n {
                Node::Mono(i) => Some(i.args),
                _ => None,
            };
            let mut v = V { w: self, args, name: name.clone(), body: b };
            v.visit_body(b);
            for c in b.required_consts.iter().flatten() {
                v.konst(c.const_);
            }
        }
    }

    fn overrides(&mut self, d: LocalDefId, name: &str, how: &str) {
        let tcx = self.tcx;
        let id = tcx.local_def_id_to_hir_id(d);
        let spec = tcx.lint_level_spec_at_node(rustc_lint::builtin::UNSAFE_CODE, id);
        self.level(spec, name, how, tcx.def_span(d));
    }
    fn level(&mut self, spec: rustc_middle::lint::LevelSpec<rustc_lint_defs::StableLintExpectationId>, name: &str, how: &str, item: Span) {
        if let rustc_middle::lint::LintLevelSource::Node { name: lint, span, .. } = spec.src {
            let l = format!("{:?}", spec.level());
            if !l.contains("Deny") && !l.contains("Forbid") {
                let p = self.place(span).1;
                let f = self.place(item.source_callsite()).0;
                self.line("override", &[("level", l), ("lint", lint.to_string()), ("of", name.to_string()), ("at", p), ("file", f), ("how", how.to_string())]);
            }
        }
    }

    fn report(&mut self, what: &str, span: Span, name: &str, how: &str) {
        if span.allows_unsafe() {
            return; // the standard library's macros
        }
        if span.from_expansion() {
            let e = span.ctxt().outer_expn_data();
            if e.macro_def_id.is_some_and(|d| !d.is_local()) && matches!(e.kind, rustc_span::ExpnKind::Macro(rustc_span::MacroKind::Derive, _)) {
                return; // the compiler's own derives
            }
        }
        let (f, p) = self.place(span);
        let outer = self.place(span.source_callsite()).0;
        self.line("unsafe", &[("what", what.to_string()), ("in", name.to_string()), ("at", p), ("file", f), ("outer", outer), ("how", how.to_string())]);
    }

    /// An impl block: `unsafe impl`, `unsafe trait`.
    fn block(&mut self, d: LocalDefId, name: &str) {
        self.overrides(d, name, "reachable");
        self.item(d, name, "reachable");
    }

    fn item(&mut self, d: LocalDefId, name: &str, how: &str) {
        let tcx = self.tcx;
        if let hir::Node::Item(i) = tcx.hir_node_by_def_id(d) {
            match &i.kind {
                hir::ItemKind::Impl(im) => {
                    if let Some(tr) = im.of_trait {
                        if format!("{:?}", tr.safety) == "Unsafe" {
                            self.report("unsafe impl", i.span, name, how);
                        }
                    }
                }
                hir::ItemKind::Trait { safety, .. } => {
                    if format!("{:?}", safety) == "Unsafe" {
                        self.report("unsafe trait", i.span, name, how);
                    }
                }
                hir::ItemKind::ForeignMod { .. } => self.report("foreign items", i.span, name, how),
                hir::ItemKind::GlobalAsm { .. } => self.report("global_asm", i.span, name, how),
                hir::ItemKind::Static(m, ..) => {
                    if format!("{:?}", m) == "Mut" {
                        self.report("static mut", i.span, name, how);
                    }
                }
                _ => {}
            }
        }
    }

    /// Unsafe constructs in one function, constant or static, as written.
    fn unsafety(&mut self, d: LocalDefId, name: &str, how: &str) {
        let tcx = self.tcx;
        self.item(d, name, how);
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let s = tcx.fn_sig(d).skip_binder();
            let h = tcx.hir_fn_sig_by_hir_id(tcx.local_def_id_to_hir_id(d)).map(|s| format!("{:?}", s.header.safety));
            if h.as_deref() == Some("Normal(Unsafe)") || (h.is_none() && format!("{:?}", s.safety()) == "Unsafe") {
                self.report("unsafe fn", tcx.def_span(d), name, how);
            }
            let at = tcx.codegen_fn_attrs(d);
            if at.symbol_name.is_some() || format!("{:?}", at.flags).contains("NO_MANGLE") || at.link_section.is_some() {
                self.report("symbol attribute", tcx.def_span(d), name, how);
            }
        }
        let Some(b) = tcx.hir_maybe_body_owned_by(d) else { return };
        struct B<'tcx>(TyCtxt<'tcx>, Vec<(&'static str, Span)>);
        impl<'tcx> Visitor<'tcx> for B<'tcx> {
            type NestedFilter = rustc_middle::hir::nested_filter::All;
            fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
                self.0
            }
            fn visit_block(&mut self, b: &'tcx hir::Block<'tcx>) {
                if let hir::BlockCheckMode::UnsafeBlock(hir::UnsafeSource::UserProvided) = b.rules {
                    self.1.push(("unsafe block", b.span));
                }
                intravisit::walk_block(self, b)
            }
            fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
                if let hir::ExprKind::InlineAsm(..) = e.kind {
                    self.1.push(("inline assembly", e.span));
                }
                intravisit::walk_expr(self, e)
            }
        }
        let mut v = B(tcx, Vec::new());
        v.visit_body(b);
        for (w, s) in v.1 {
            self.report(w, s, name, how);
        }
    }

    /// Everything in the modules the path is written in, reachable or not.
    fn modules(&mut self) {
        let tcx = self.tcx;
        for d in tcx.hir_crate_items(()).definitions().collect::<Vec<_>>() {
            let kind = tcx.def_kind(d);
            let name = tcx.def_path_str(d);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Closure => {
                    self.unsafety(d, &name, "module")
                }
                DefKind::Impl { .. } | DefKind::Trait | DefKind::ForeignMod | DefKind::GlobalAsm => self.item(d, &name, "module"),
                DefKind::Mod => {}
                _ => {}
            }
        }
        // the lint level in force at everything that holds code
        for o in tcx.hir_crate_items(()).owners().collect::<Vec<_>>() {
            if matches!(tcx.def_kind(o.def_id), DefKind::Mod | DefKind::ForeignMod | DefKind::Use | DefKind::ExternCrate | DefKind::Macro(..)) {
                continue;
            }
            let name = tcx.def_path_str(o.def_id);
            self.overrides(o.def_id, &name, "module");
            for (id, _) in tcx.hir_attr_map(o).map.iter() {
                let h = hir::HirId { owner: o, local_id: *id };
                let spec = tcx.lint_level_spec_at_node(rustc_lint::builtin::UNSAFE_CODE, h);
                self.level(spec, &name, "module", tcx.def_span(o.def_id));
            }
        }
    }
}

struct V<'a, 'tcx> {
    w: &'a mut Walk<'tcx>,
    args: Option<ty::GenericArgsRef<'tcx>>,
    name: String,
    body: &'a mir::Body<'tcx>,
}
impl<'a, 'tcx> V<'a, 'tcx> {
    fn mono(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.w.tcx;
        let t = match self.args {
            Some(a) => ty::EarlyBinder::bind(tcx, t).instantiate(tcx, a).skip_norm_wip(),
            None => t,
        };
        if t.has_param() {
            return tcx.erase_and_anonymize_regions(t);
        }
        let t = tcx.erase_and_anonymize_regions(t);
        tcx.try_normalize_erasing_regions(TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn konst(&mut self, c: mir::Const<'tcx>) {
        let t = self.mono(c.ty());
        self.w.mention(t, &self.name);
        if let mir::Const::Unevaluated(u, _) = c {
            self.w.push(Node::Item(u.def), &self.name);
        }
    }
}
impl<'a, 'tcx> MirVisitor<'tcx> for V<'a, 'tcx> {
    fn visit_ty(&mut self, t: Ty<'tcx>, _: mir::visit::TyContext) {
        let t = self.mono(t);
        self.w.mention(t, &self.name);
    }
    fn visit_const_operand(&mut self, c: &mir::ConstOperand<'tcx>, loc: mir::Location) {
        self.konst(c.const_);
        if let Some(d) = c.check_static_ptr(self.w.tcx) {
            self.w.push(Node::Item(d), &self.name);
        }
        self.super_const_operand(c, loc)
    }
    fn visit_terminator(&mut self, t: &mir::Terminator<'tcx>, loc: mir::Location) {
        if let mir::TerminatorKind::Drop { place, .. } = &t.kind {
            let ty = place.ty(self.body, self.w.tcx).ty;
            let ty = self.mono(ty);
            self.w.mention(ty, &self.name);
        }
        self.super_terminator(t, loc)
    }
    fn visit_rvalue(&mut self, r: &mir::Rvalue<'tcx>, loc: mir::Location) {
        if let mir::Rvalue::ThreadLocalRef(d) = r {
            self.w.push(Node::Item(*d), &self.name);
        }
        self.super_rvalue(r, loc)
    }
}

fn main() {
    let mut a: Vec<String> = std::env::args().collect();
    let (out, ch, wrap);
    if let Ok(o) = std::env::var("NOUNSAFE_OUT") {
        // as cargo's compiler wrapper: only the crate under test is looked at
        a.remove(0);
        if !a.windows(2).any(|w| w[0] == "--crate-name" && w[1] == "highway") {
            let s = std::process::Command::new(&a[0]).args(&a[1..]).status().unwrap();
            std::process::exit(s.code().unwrap_or(101));
        }
        out = o;
        ch = std::env::var("NOUNSAFE_CFG").unwrap_or_default();
        wrap = true;
    } else {
        out = a.remove(1);
        ch = a.remove(1);
        wrap = false;
    }
    let changes = ch
        .split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (on, r) = x.split_at(1);
            match r.split_once('=') {
                Some((n, v)) => (on == "+", n.to_string(), Some(v.to_string())),
                None => (on == "+", r.to_string(), None),
            }
        })
        .collect();
    let mut c = C { out, changes, wrap };
    rustc_driver::compiler_entrypoint(&a, &mut c);
}
