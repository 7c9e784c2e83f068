use std::collections::{HashMap, VecDeque};

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, PrintTraitRefExt as _};
use rustc_middle::ty::{self, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

use crate::json::{n, s, J};

struct D<'tcx> {
	tcx: TyCtxt<'tcx>,
	env: TypingEnv<'tcx>,
	types: HashMap<Ty<'tcx>, usize>,
	type_list: Vec<Option<J>>,
	insts: HashMap<Instance<'tcx>, usize>,
	queue: VecDeque<Instance<'tcx>>,
	inst_list: Vec<Instance<'tcx>>,
	descend: Vec<String>,
	stop: Vec<String>,
	const_depth: usize,
}

fn ptr<'tcx>(tcx: TyCtxt<'tcx>, def: DefId) -> String {
	with_no_trimmed_paths!(tcx.def_path_str(def))
}

/// Blocks of unsafe code a person wrote.
struct Unsafe<'tcx> {
	tcx: TyCtxt<'tcx>,
	found: Vec<Span>,
}

impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
	type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;

	fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
		self.tcx
	}

	fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
		if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
			if !b.span.allows_unsafe() {
				self.found.push(b.span);
			}
		}
		rustc_hir::intravisit::walk_block(self, b);
	}
}

pub fn dump(tcx: TyCtxt<'_>) -> String {
	let split = |v: &str| -> Vec<String> {
		std::env::var(v)
			.unwrap_or_default()
			.split(';')
			.filter(|s| !s.is_empty())
			.map(|s| s.to_owned())
			.collect()
	};
	let mut d = D {
		tcx,
		env: TypingEnv::fully_monomorphized(),
		types: HashMap::new(),
		type_list: vec![],
		insts: HashMap::new(),
		queue: VecDeque::new(),
		inst_list: vec![],
		descend: split("FACTS_DESCEND"),
		stop: split("FACTS_STOP"),
		const_depth: 0,
	};
	let skip = split("FACTS_SKIP");
	let mut items = vec![];
	for ldef in tcx.hir_body_owners() {
		let def = ldef.to_def_id();
		let kind = tcx.def_kind(def);
		let generics = if matches!(kind, DefKind::Closure) { tcx.generics_of(tcx.typeck_root_def_id(def)) } else { tcx.generics_of(def) };
		let mono = !generics.requires_monomorphization(tcx);
		let (file, line) = d.loc(tcx.def_span(def));
		let from_expansion = tcx.def_span(def).from_expansion();
		let o_file = file.clone();
		let mut o = vec![
			("path", s(ptr(tcx, def))),
			("kind", s(format!("{kind:?}"))),
			("mono", J::B(mono)),
			("file", s(file)),
			("line", n(line as i64)),
			("exp", J::B(from_expansion)),
		];
		if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
			o.push(("vis", s(d.vis(def))));
			if mono && !skip.iter().any(|x| o_file.starts_with(x.as_str())) {
				let args = ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
					ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
					_ => unreachable!(),
				});
				let inst = Instance::new_raw(def, args);
				let id = d.inst(inst);
				o.push(("inst", n(id as i64)));
			}
			if tcx.fn_sig(def).skip_binder().safety().is_unsafe() && !tcx.def_span(def).allows_unsafe() {
				o.push(("unsafe", n(line as i64)));
			}
			let const_fn = tcx.is_const_fn(def);
			o.push(("constfn", J::B(const_fn)));
		}
		let mut u = Unsafe { tcx, found: vec![] };
		rustc_hir::intravisit::Visitor::visit_body(&mut u, tcx.hir_body_owned_by(ldef));
		for sp in u.found {
			let (_, l) = d.loc(sp);
			o.push(("unsafe", n(l as i64)));
		}
		items.push(J::O(o));
	}
	// bodies
	let mut bodies = vec![];
	while let Some(inst) = d.queue.pop_front() {
		let b = d.body(inst);
		bodies.push(b);
	}
	// local adts, impls, statics
	let mut adts = vec![];
	let mut impls = vec![];
	let mut statics = vec![];
	for id in tcx.hir_crate_items(()).definitions() {
		let def = id.to_def_id();
		match tcx.def_kind(def) {
			DefKind::Struct | DefKind::Enum | DefKind::Union => {
				let adt = tcx.adt_def(def);
				let (file, line) = d.loc(tcx.def_span(def));
				let variants = adt
					.variants()
					.iter()
					.map(|v| {
						J::O(vec![
							("name", s(v.name.to_string())),
							(
								"fields",
								J::A(
									v.fields
										.iter()
										.map(|f| {
											J::A(vec![
												s(f.name.to_string()),
												s(with_no_trimmed_paths!(format!("{}", tcx.type_of(f.did).instantiate_identity().skip_norm_wip()))),
												s(d.vis(f.did)),
											])
										})
										.collect(),
								),
							),
						])
					})
					.collect();
				let generics = tcx.generics_of(def);
				let ty_ix = if !generics.requires_monomorphization(tcx) {
					let args = ty::GenericArgs::for_item(tcx, def, |p, _| match p.kind {
						ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
						_ => unreachable!(),
					});
					let t = Ty::new_adt(tcx, adt, args);
					n(d.ty(t) as i64)
				} else {
					J::Null
				};
				adts.push(J::O(vec![
					("path", s(ptr(tcx, def))),
					("vis", s(d.vis(def))),
					("file", s(file)),
					("line", n(line as i64)),
					("enum", J::B(adt.is_enum())),
					("variants", J::A(variants)),
					("ty", ty_ix),
				]));
			}
			DefKind::Impl { .. } => {
				let tr = tcx.impl_opt_trait_ref(def);
				let self_ty = tcx.type_of(def).instantiate_identity().skip_norm_wip();
				let items: Vec<J> = tcx
					.associated_item_def_ids(def)
					.iter()
					.map(|&i| J::A(vec![s(tcx.item_name(i).to_string()), s(ptr(tcx, i))]))
					.collect();
				impls.push(J::O(vec![
					(
						"trait",
						match tr {
							Some(t) => s(with_no_trimmed_paths!(format!("{}", t.instantiate_identity().skip_norm_wip().print_only_trait_path()))),
							None => J::Null,
						},
					),
					("self", s(with_no_trimmed_paths!(format!("{self_ty}")))),
					("generics", n(tcx.generics_of(def).requires_monomorphization(tcx) as i64)),
					(
						"unsafe",
						J::B(tr.is_some() && tcx.impl_trait_header(def).safety.is_unsafe() && !tcx.def_span(def).allows_unsafe()),
					),
					("items", J::A(items)),
				]));
			}
			DefKind::Static { .. } | DefKind::Const { .. } => {
				statics.push(J::O(vec![
					("path", s(ptr(tcx, def))),
					("kind", s(format!("{:?}", tcx.def_kind(def)))),
					("ty", s(with_no_trimmed_paths!(format!("{}", tcx.type_of(def).instantiate_identity().skip_norm_wip())))),
				]));
			}
			_ => {}
		}
	}
	let type_list: Vec<J> = d.type_list.iter().map(|t| t.clone().unwrap_or(J::Null)).collect();
	let top = J::O(vec![
		("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
		("items", J::A(items)),
		("bodies", J::A(bodies)),
		("types", J::A(type_list)),
		("adts", J::A(adts)),
		("impls", J::A(impls)),
		("statics", J::A(statics)),
	]);
	let mut out = String::new();
	top.write(&mut out);
	out
}

impl<'tcx> D<'tcx> {
	fn vis(&self, def: DefId) -> String {
		match self.tcx.visibility(def) {
			ty::Visibility::Public => "pub".to_owned(),
			ty::Visibility::Restricted(m) => format!("in {}", ptr(self.tcx, m.into())),
		}
	}

	fn loc(&self, span: Span) -> (String, usize) {
		let span = span.source_callsite();
		let l = self.tcx.sess.source_map().lookup_char_pos(span.lo());
		(format!("{}", l.file.name.prefer_local_unconditionally()), l.line)
	}

	fn inst(&mut self, inst: Instance<'tcx>) -> usize {
		if let Some(&i) = self.insts.get(&inst) {
			return i;
		}
		let i = self.inst_list.len();
		self.insts.insert(inst, i);
		self.inst_list.push(inst);
		self.queue.push_back(inst);
		i
	}

	fn ty(&mut self, t: Ty<'tcx>) -> usize {
		let t = self.tcx.erase_and_anonymize_regions(t);
		if let Some(&i) = self.types.get(&t) {
			return i;
		}
		let i = self.type_list.len();
		self.types.insert(t, i);
		self.type_list.push(None);
		let tcx = self.tcx;
		let str_ = with_no_trimmed_paths!(format!("{t}"));
		let mut o: Vec<(&'static str, J)> = vec![("s", s(str_.clone()))];
		match *t.kind() {
			ty::Bool => o.push(("k", s("bool"))),
			ty::Char => o.push(("k", s("char"))),
			ty::Int(_) | ty::Uint(_) => o.push(("k", s("int"))),
			ty::Float(_) => o.push(("k", s("float"))),
			ty::Str => o.push(("k", s("str"))),
			ty::Never => o.push(("k", s("never"))),
			ty::Adt(def, args) => {
				o.push(("k", s("adt")));
				o.push(("p", s(ptr(tcx, def.did()))));
				o.push(("local", J::B(def.did().is_local())));
				let a: Vec<J> = args.types().map(|x| n(self.ty(x) as i64)).collect();
				o.push(("a", J::A(a)));
				o.push(("enum", J::B(def.is_enum())));
				o.push(("union", J::B(def.is_union())));
				let mut vs = vec![];
				for (vi, v) in def.variants().iter_enumerated() {
					let disc = if def.is_enum() {
						let dv = def.discriminant_for_variant(tcx, vi);
						n(dv.val as i128)
					} else {
						n(0i64)
					};
					let fields: Vec<J> = v
						.fields
						.iter()
						.map(|f| {
							let ft = f.ty(tcx, args);
							let ft = tcx.normalize_erasing_regions(self.env, ft);
							J::A(vec![s(f.name.to_string()), n(self.ty(ft) as i64)])
						})
						.collect();
					vs.push(J::O(vec![("n", s(v.name.to_string())), ("d", disc), ("f", J::A(fields))]));
				}
				o.push(("v", J::A(vs)));
			}
			ty::Array(e, len) => {
				o.push(("k", s("array")));
				o.push(("t", n(self.ty(e) as i64)));
				let l = len.try_to_target_usize(tcx);
				o.push(("len", l.map_or(J::Null, |x| n(x as i64))));
			}
			ty::Slice(e) => {
				o.push(("k", s("slice")));
				o.push(("t", n(self.ty(e) as i64)));
			}
			ty::Ref(_, e, m) => {
				o.push(("k", s("ref")));
				o.push(("t", n(self.ty(e) as i64)));
				o.push(("m", J::B(m.is_mut())));
			}
			ty::RawPtr(e, m) => {
				o.push(("k", s("ptr")));
				o.push(("t", n(self.ty(e) as i64)));
				o.push(("m", J::B(m.is_mut())));
			}
			ty::Tuple(ts) => {
				o.push(("k", s("tuple")));
				let a: Vec<J> = ts.iter().map(|x| n(self.ty(x) as i64)).collect();
				o.push(("a", J::A(a)));
			}
			ty::FnDef(def, args) => {
				o.push(("k", s("fndef")));
				o.push(("p", s(ptr(tcx, def.into()))));
				let args = args.no_bound_vars();
				if let Some(args) = args {
					self.resolve(def.into(), args, &mut o);
				}
			}
			ty::Closure(def, args) => {
				o.push(("k", s("closure")));
				let def: DefId = def.into();
				o.push(("p", s(ptr(tcx, def))));
				let (f, l) = self.loc(tcx.def_span(def));
				o.push(("file", s(f)));
				o.push(("line", n(l as i64)));
				let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|x| n(self.ty(x) as i64)).collect();
				o.push(("a", J::A(ups)));
				o.push(("ck", s(format!("{:?}", args.as_closure().kind()))));
				let inst = Instance::new_raw(def, args);
				if self.wanted(inst) {
					let id = self.inst(inst);
					o.push(("inst", n(id as i64)));
				}
			}
			ty::FnPtr(..) => o.push(("k", s("fnptr"))),
			ty::Dynamic(..) => o.push(("k", s("dyn"))),
			_ => o.push(("k", s("other"))),
		}
		self.type_list[i] = Some(J::O(o));
		i
	}

	fn wanted(&self, inst: Instance<'tcx>) -> bool {
		let tcx = self.tcx;
		match inst.def {
			InstanceKind::Intrinsic(_) | InstanceKind::Virtual(..) | InstanceKind::LlvmIntrinsic(..) => false,
			InstanceKind::Shim(sh) => {
				use ty::ShimKind::*;
				match sh {
					FnPtr(..) | ClosureOnce { .. } | Reify(..) | Clone(..) => true,
					_ => false,
				}
			}
			InstanceKind::Item(def) => {
				if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
					return false;
				}
				if !def.is_local() {
					let p = ptr(tcx, def);
					let kr = tcx.crate_name(def.krate).to_string();
					let full = format!("{kr}|{p}");
					if self.stop.iter().any(|x| full.contains(x.as_str())) {
						return false;
					}
					if !self.descend.iter().any(|x| full.contains(x.as_str())) {
						return false;
					}
				}
				tcx.is_mir_available(def)
			}
		}
	}

	/// A pointer to a value that becomes a pointer to a trait object brings the trait's methods for that type with it.
	fn vtable(&mut self, from: Ty<'tcx>, to: Ty<'tcx>) {
		let tcx = self.tcx;
		let (Some(from), Some(to)) = (from.builtin_deref(true), to.builtin_deref(true)) else { return };
		let ty::Dynamic(preds, ..) = *to.kind() else { return };
		let Some(tr) = preds.principal_def_id() else { return };
		if !tr.is_local() || matches!(from.kind(), ty::Dynamic(..)) || tcx.generics_of(tr).own_params.len() != 1 {
			return;
		}
		let from = tcx.erase_and_anonymize_regions(from);
		for item in tcx.associated_items(tr).in_definition_order() {
			if !item.is_fn() {
				continue;
			}
			let args = ty::GenericArgs::for_item(tcx, item.def_id, |p, _| {
				if matches!(p.kind, ty::GenericParamDefKind::Lifetime) { tcx.lifetimes.re_erased.into() } else { from.into() }
			});
			if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, item.def_id, args) {
				if self.wanted(inst) {
					self.inst(inst);
				}
			}
		}
	}

	fn resolve(&mut self, def: DefId, args: ty::GenericArgsRef<'tcx>, o: &mut Vec<(&'static str, J)>) {
		let tcx = self.tcx;
		o.push(("kr", s(tcx.crate_name(def.krate).to_string())));
		o.push(("pa", s(with_no_trimmed_paths!(tcx.def_path_str_with_args(def, args)))));
		let ta: Vec<J> = args.types().map(|x| n(self.ty(x) as i64)).collect();
		o.push(("a", J::A(ta)));
		if let Some(tr) = tcx.trait_of_assoc(def) {
			o.push(("trait", s(ptr(tcx, tr))));
			o.push(("name", s(tcx.item_name(def).to_string())));
		}
		if !matches!(tcx.def_kind(def), DefKind::Fn | DefKind::AssocFn) {
			o.push(("ctor", J::B(true)));
			// constructor: parent is the variant or the struct
			let parent = tcx.parent(def);
			o.push(("ctor_of", s(ptr(tcx, parent))));
			if tcx.def_kind(parent) == DefKind::Variant {
				let adt = tcx.adt_def(tcx.parent(parent));
				o.push(("ctor_variant", n(adt.variant_index_with_id(parent).as_usize() as i64)));
			}
			return;
		}
		if let Ok(Some(inst)) = Instance::try_resolve(tcx, self.env, def, args) {
			o.push(("ik", s(ikind(inst))));
			o.push(("rp", s(with_no_trimmed_paths!(tcx.def_path_str(inst.def_id())))));
			o.push(("rkr", s(tcx.crate_name(inst.def_id().krate).to_string())));
			o.push(("local", J::B(inst.def_id().is_local())));
			if self.wanted(inst) {
				let id = self.inst(inst);
				o.push(("inst", n(id as i64)));
			} else {
				let ra: Vec<J> = inst.args.types().map(|x| n(self.ty(x) as i64)).collect();
				o.push(("ra", J::A(ra)));
			}
		}
	}

	fn body(&mut self, inst: Instance<'tcx>) -> J {
		let tcx = self.tcx;
		let id = self.insts[&inst];
		let mir = tcx.instance_mir(inst.def);
		let mir = inst.instantiate_mir_and_normalize_erasing_regions(tcx, self.env, ty::EarlyBinder::bind(tcx, mir.clone()));
		let def = inst.def_id();
		let (file, line) = self.loc(mir.span);
		let locals: Vec<J> = mir.local_decls.iter().map(|l| n(self.ty(l.ty) as i64)).collect();
		let ta: Vec<J> = inst.args.types().map(|x| n(self.ty(x) as i64)).collect();
		let mut names = vec![];
		for v in &mir.var_debug_info {
			if let VarDebugInfoContents::Place(p) = v.value {
				if p.projection.is_empty() {
					names.push(J::A(vec![n(p.local.as_usize() as i64), s(v.name.to_string())]));
				}
			}
		}
		let mut blocks = vec![];
		for bb in mir.basic_blocks.iter() {
			let mut st = vec![];
			for stm in &bb.statements {
				if let Some(j) = self.stmt(stm, &mir) {
					st.push(j);
				}
			}
			let t = bb.terminator();
			let (_, l) = self.loc(t.source_info.span);
			let tj = self.term(t, &mir);
			blocks.push(J::A(vec![J::A(st), tj, n(l as i64), J::B(bb.is_cleanup)]));
		}
		let mut o = vec![
			("id", n(id as i64)),
			("path", s(ptr(tcx, def))),
			("kr", s(tcx.crate_name(def.krate).to_string())),
			("ik", s(ikind(inst))),
			("name", s(with_no_trimmed_paths!(format!("{inst}")))),
			("a", J::A(ta)),
			("local", J::B(def.is_local())),
			("file", s(file)),
			("line", n(line as i64)),
			("argc", n(mir.arg_count as i64)),
			("locals", J::A(locals)),
			("names", J::A(names)),
			("blocks", J::A(blocks)),
		];
		if let Some(sp) = mir.spread_arg {
			o.push(("spread", n(sp.as_usize() as i64)));
		}
		if tcx.def_kind(def) == DefKind::Closure {
			o.push(("closure", J::B(true)));
			o.push(("parent", s(ptr(tcx, tcx.typeck_root_def_id(def)))));
		}
		J::O(o)
	}

	fn place(&mut self, p: &Place<'tcx>) -> J {
		let mut pr = vec![];
		for e in p.projection.iter() {
			pr.push(match e {
				ProjectionElem::Deref => s("*"),
				ProjectionElem::Field(f, t) => J::A(vec![s("f"), n(f.as_usize() as i64), n(self.ty(t) as i64)]),
				ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize() as i64)]),
				ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
					J::A(vec![s("ci"), n(offset as i64), n(min_length as i64), J::B(from_end)])
				}
				ProjectionElem::Subslice { from, to, from_end } => {
					J::A(vec![s("ss"), n(from as i64), n(to as i64), J::B(from_end)])
				}
				ProjectionElem::Downcast(_, v) => J::A(vec![s("d"), n(v.as_usize() as i64)]),
				_ => J::A(vec![s("?"), s(format!("{e:?}"))]),
			});
		}
		J::A(vec![n(p.local.as_usize() as i64), J::A(pr)])
	}

	fn operand(&mut self, o: &Operand<'tcx>) -> J {
		match o {
			Operand::Copy(p) => J::A(vec![s("c"), self.place(p)]),
			Operand::Move(p) => J::A(vec![s("m"), self.place(p)]),
			Operand::Constant(c) => {
				let t = c.const_.ty();
				let ti = self.ty(t);
				let v = self.constant(c);
				J::A(vec![s("k"), n(ti as i64), v])
			}
			_ => J::A(vec![s("rt"), s(format!("{o:?}"))]),
		}
	}

	fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
		match c.const_.eval(self.tcx, self.env, c.span) {
			Ok(v) => self.cval(v, c.const_.ty()),
			Err(_) => J::A(vec![s("err")]),
		}
	}

	fn cval(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
		let tcx = self.tcx;
		if self.const_depth > 12 {
			return J::A(vec![s("deep")]);
		}
		self.const_depth += 1;
		let r = self.cval_inner(v, t, tcx);
		self.const_depth -= 1;
		r
	}

	fn cval_inner(&mut self, v: ConstValue, t: Ty<'tcx>, tcx: TyCtxt<'tcx>) -> J {
		match t.kind() {
			ty::FnDef(..) => return J::A(vec![s("fn")]),
			ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
				if let Some(si) = v.try_to_scalar_int() {
					let size = si.size();
					let val: i128 = if matches!(t.kind(), ty::Int(_)) { si.to_int(size) } else { si.to_uint(size) as i128 };
					return J::A(vec![s("i"), n(val)]);
				}
				if let ConstValue::Indirect { alloc_id, offset } = v {
					if let GlobalAlloc::Memory(a) = tcx.global_alloc(alloc_id) {
						let size = match t.kind() {
							ty::Bool => 1,
							ty::Char => 4,
							_ => tcx.layout_of(self.env.as_query_input(t)).unwrap().size.bytes(),
						} as usize;
						let o = offset.bytes() as usize;
						let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + size);
						let mut val: u128 = 0;
						for (i, b) in bytes.iter().enumerate() {
							val |= (*b as u128) << (8 * i);
						}
						let mut sv = val as i128;
						if matches!(t.kind(), ty::Int(_)) && size < 16 && (val >> (8 * size - 1)) & 1 == 1 {
							sv = (val as i128) - (1i128 << (8 * size));
						}
						return J::A(vec![s("i"), n(sv)]);
					}
				}
			}
			ty::Ref(_, inner, _) => match inner.kind() {
				ty::Str => {
					if let Some(b) = self.slice_bytes(v) {
						return J::A(vec![s("s"), s(String::from_utf8_lossy(&b).into_owned())]);
					}
				}
				ty::Slice(e) if *e == tcx.types.u8 => {
					if let Some(b) = self.slice_bytes(v) {
						return J::A(vec![s("b"), J::A(b.iter().map(|x| n(*x as i64)).collect())]);
					}
				}
				ty::Slice(e) => {
					// &[T]
					if let Some((alloc, off, len)) = self.wide(v) {
						let layout = tcx.layout_of(self.env.as_query_input(*e)).unwrap();
						let mut out = vec![];
						for i in 0..len {
							let o = off + rustc_abi::Size::from_bytes(layout.size.bytes() * i);
							out.push(self.cval(ConstValue::Indirect { alloc_id: alloc, offset: o }, *e));
						}
						return J::A(vec![s("sl"), J::A(out)]);
					}
				}
				_ => {
					if let Some((alloc, off)) = self.thin(v) {
						match tcx.global_alloc(alloc) {
							GlobalAlloc::Memory(_) => {
								let it = *inner;
								let r = self.cval(ConstValue::Indirect { alloc_id: alloc, offset: off }, it);
								return J::A(vec![s("r"), n(self.ty(it) as i64), r]);
							}
							GlobalAlloc::Static(d) => return J::A(vec![s("static"), s(ptr(tcx, d))]),
							GlobalAlloc::Function { instance } => return J::A(vec![s("fnp"), s(ptr(tcx, instance.def_id()))]),
							_ => {}
						}
					}
				}
			},
			ty::FnPtr(..) => {
				if let Some((alloc, _)) = self.thin(v) {
					if let GlobalAlloc::Function { instance } = tcx.global_alloc(alloc) {
						let mut o = vec![s("fnp"), s(ptr(tcx, instance.def_id()))];
						if self.wanted(instance) {
							o.push(n(self.inst(instance) as i64));
						}
						return J::A(o);
					}
				}
			}
			ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
				let skip = matches!(t.kind(), ty::Adt(d, _) if d.is_union());
				if !skip {
					if let Some(dc) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
						let variant = dc.variant.map(|x| x.as_usize()).unwrap_or(0);
						let fields: Vec<J> = dc.fields.iter().map(|(fv, ft)| self.cval(*fv, *ft)).collect();
						return J::A(vec![s("agg"), n(variant as i64), J::A(fields)]);
					}
				}
			}
			ty::Closure(_, args) => {
				let ups = args.as_closure().upvar_tys();
				let layout = tcx.layout_of(self.env.as_query_input(t)).unwrap();
				let mut fields = vec![];
				for (i, ut) in ups.iter().enumerate() {
					let ul = tcx.layout_of(self.env.as_query_input(ut)).unwrap();
					let fv = if ul.is_zst() {
						ConstValue::ZeroSized
					} else if let ConstValue::Indirect { alloc_id, offset } = v {
						ConstValue::Indirect { alloc_id, offset: offset + layout.fields.offset(i) }
					} else if ups.iter().filter(|u| !tcx.layout_of(self.env.as_query_input(*u)).unwrap().is_zst()).count() == 1 {
						v
					} else {
						return J::A(vec![s("?"), s(format!("{v:?}"))]);
					};
					fields.push(self.cval(fv, ut));
				}
				return J::A(vec![s("agg"), n(0i64), J::A(fields)]);
			}
			_ => {}
		}
		if let ConstValue::ZeroSized = v {
			return J::A(vec![s("zst")]);
		}
		if let ConstValue::Scalar(Scalar::Ptr(p, _)) = v {
			if let GlobalAlloc::Static(d) = tcx.global_alloc(p.provenance.alloc_id()) {
				return J::A(vec![s("static"), s(ptr(tcx, d))]);
			}
		}
		J::A(vec![s("?"), s(format!("{v:?}"))])
	}

	fn thin(&self, v: ConstValue) -> Option<(interpret::AllocId, rustc_abi::Size)> {
		match v {
			ConstValue::Scalar(Scalar::Ptr(p, _)) => {
				let (prov, off) = p.into_raw_parts();
				Some((prov.alloc_id(), off))
			}
			ConstValue::Indirect { alloc_id, offset } => {
				let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
				self.read_ptr(a.inner(), offset)
			}
			_ => None,
		}
	}

	fn read_ptr(&self, a: &interpret::Allocation, offset: rustc_abi::Size) -> Option<(interpret::AllocId, rustc_abi::Size)> {
		let prov = a.provenance().ptrs().get(&offset)?;
		let o = offset.bytes() as usize;
		let bytes = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
		let addr = u64::from_le_bytes(bytes.try_into().ok()?);
		Some((prov.alloc_id(), rustc_abi::Size::from_bytes(addr)))
	}

	fn wide(&self, v: ConstValue) -> Option<(interpret::AllocId, rustc_abi::Size, u64)> {
		match v {
			ConstValue::Slice { alloc_id, meta } => Some((alloc_id, rustc_abi::Size::ZERO, meta)),
			ConstValue::Indirect { alloc_id, offset } => {
				let GlobalAlloc::Memory(a) = self.tcx.global_alloc(alloc_id) else { return None };
				let (id, off) = self.read_ptr(a.inner(), offset)?;
				let o = offset.bytes() as usize + 8;
				let bytes = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
				let len = u64::from_le_bytes(bytes.try_into().ok()?);
				Some((id, off, len))
			}
			_ => None,
		}
	}

	fn slice_bytes(&self, v: ConstValue) -> Option<Vec<u8>> {
		let (id, off, len) = self.wide(v)?;
		let GlobalAlloc::Memory(a) = self.tcx.global_alloc(id) else { return None };
		let o = off.bytes() as usize;
		Some(a.inner().inspect_with_uninit_and_ptr_outside_interpreter(o..o + len as usize).to_vec())
	}

	fn stmt(&mut self, st: &Statement<'tcx>, mir: &Body<'tcx>) -> Option<J> {
		let (_, line) = self.loc(st.source_info.span);
		Some(match &st.kind {
			StatementKind::Assign(b) => {
				let (p, r) = &**b;
				let pj = self.place(p);
				let rj = self.rvalue(r, mir);
				J::A(vec![s("="), pj, rj, n(line as i64)])
			}
			StatementKind::SetDiscriminant { place, variant_index } => {
				J::A(vec![s("sd"), self.place(place), n(variant_index.as_usize() as i64)])
			}
			StatementKind::StorageLive(_) => return None,
			StatementKind::StorageDead(l) => J::A(vec![s("dead"), n(l.as_usize() as i64)]),
			StatementKind::Nop
			| StatementKind::FakeRead(..)
			| StatementKind::PlaceMention(..)
			| StatementKind::AscribeUserType(..)
			| StatementKind::ConstEvalCounter
			| StatementKind::Coverage(..) => return None,
			other => J::A(vec![s("?"), s(format!("{other:?}"))]),
		})
	}

	fn rvalue(&mut self, r: &Rvalue<'tcx>, mir: &Body<'tcx>) -> J {
		match r {
			Rvalue::Use(o, _) => J::A(vec![s("use"), self.operand(o)]),
			Rvalue::CopyForDeref(p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)])]),
			Rvalue::Repeat(o, c) => {
				J::A(vec![s("rep"), self.operand(o), c.try_to_target_usize(self.tcx).map_or(J::Null, |x| n(x as i64))])
			}
			Rvalue::Ref(_, k, p) => J::A(vec![s("ref"), self.place(p), J::B(matches!(k, BorrowKind::Mut { .. }))]),
			Rvalue::Reborrow(_, m, p) => J::A(vec![s("use"), J::A(vec![s("c"), self.place(p)]), J::B(m.is_mut())]),
			Rvalue::RawPtr(_, p) => J::A(vec![s("raw"), self.place(p)]),
			Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(ptr(self.tcx, *d))]),
			Rvalue::Cast(k, o, t) => {
				if let CastKind::PointerCoercion(ty::adjustment::PointerCoercion::Unsize, _) = k {
					self.vtable(o.ty(mir, self.tcx), *t);
				}
				J::A(vec![s("cast"), s(format!("{k:?}")), self.operand(o), n(self.ty(*t) as i64)])
			}
			Rvalue::BinaryOp(op, b) => {
				let (x, y) = &**b;
				J::A(vec![s("bin"), s(format!("{op:?}")), self.operand(x), self.operand(y)])
			}
			Rvalue::UnaryOp(op, o) => J::A(vec![s("un"), s(format!("{op:?}")), self.operand(o)]),
			Rvalue::Discriminant(p) => J::A(vec![s("disc"), self.place(p)]),
			Rvalue::Aggregate(k, ops) => {
				let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
				let kj = match &**k {
					AggregateKind::Array(t) => J::A(vec![s("array"), n(self.ty(*t) as i64)]),
					AggregateKind::Tuple => J::A(vec![s("tuple")]),
					AggregateKind::Adt(def, vi, args, _, uf) => {
						let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*def), args);
						J::A(vec![s("adt"), n(self.ty(t) as i64), n(vi.as_usize() as i64), uf.map_or(J::Null, |f| n(f.as_usize() as i64))])
					}
					AggregateKind::Closure(def, args) => {
						let t = Ty::new_closure(self.tcx, (*def).into(), args);
						J::A(vec![s("closure"), n(self.ty(t) as i64)])
					}
					AggregateKind::RawPtr(t, _) => J::A(vec![s("rawptr"), n(self.ty(*t) as i64)]),
					_ => J::A(vec![s("?")]),
				};
				J::A(vec![s("agg"), kj, J::A(os)])
			}
			other => J::A(vec![s("?"), s(format!("{other:?}"))]),
		}
	}

	fn term(&mut self, t: &Terminator<'tcx>, mir: &Body<'tcx>) -> J {
		let bb = |b: BasicBlock| n(b.as_usize() as i64);
		match &t.kind {
			TerminatorKind::Goto { target, .. } => J::A(vec![s("goto"), bb(*target)]),
			TerminatorKind::SwitchInt { discr, targets } => {
				let ti = {
					let t = discr.ty(mir, self.tcx);
					self.ty(t)
				};
				let arms: Vec<J> = targets.iter().map(|(v, b)| J::A(vec![n(v as i128), bb(b)])).collect();
				J::A(vec![s("switch"), self.operand(discr), J::A(arms), bb(targets.otherwise()), n(ti as i64)])
			}
			TerminatorKind::Return => J::A(vec![s("ret")]),
			TerminatorKind::Unreachable => J::A(vec![s("unreachable")]),
			TerminatorKind::UnwindResume => J::A(vec![s("resume")]),
			TerminatorKind::UnwindTerminate(_) => J::A(vec![s("abort")]),
			TerminatorKind::Drop { place, target, unwind, .. } => {
				let ty = place.ty(mir, self.tcx).ty;
				J::A(vec![s("drop"), self.place(place), bb(*target), n(self.ty(ty) as i64), J::B(matches!(unwind, UnwindAction::Cleanup(_)))])
			}
			TerminatorKind::Call { func, args, destination, target, unwind, fn_span, .. } => {
				let f = self.operand(func);
				let fty = func.ty(mir, self.tcx);
				let fti = self.ty(fty);
				let a: Vec<J> = args.iter().map(|x| self.operand(&x.node)).collect();
				let (file, l) = self.loc(*fn_span);
				J::A(vec![
					s("call"),
					f,
					J::A(a),
					self.place(destination),
					target.map_or(J::Null, bb),
					n(fti as i64),
					n(l as i64),
					match unwind { UnwindAction::Cleanup(b) => bb(*b), _ => J::Null },
					s(file),
				])
			}
			TerminatorKind::Assert { cond, expected, msg, target, .. } => {
				let (kind, ops) = match &**msg {
					AssertKind::BoundsCheck { len, index } => ("bounds".to_owned(), vec![self.operand(len), self.operand(index)]),
					AssertKind::Overflow(op, a, b) => (format!("overflow:{op:?}"), vec![self.operand(a), self.operand(b)]),
					AssertKind::OverflowNeg(a) => ("neg".to_owned(), vec![self.operand(a)]),
					AssertKind::DivisionByZero(a) => ("div0".to_owned(), vec![self.operand(a)]),
					AssertKind::RemainderByZero(a) => ("rem0".to_owned(), vec![self.operand(a)]),
					_ => ("other".to_owned(), vec![]),
				};
				J::A(vec![s("assert"), self.operand(cond), J::B(*expected), s(kind), bb(*target), J::A(ops)])
			}
			TerminatorKind::FalseEdge { real_target, .. } | TerminatorKind::FalseUnwind { real_target, .. } => {
				J::A(vec![s("goto"), bb(*real_target)])
			}
			other => J::A(vec![s("?"), s(format!("{other:?}"))]),
		}
	}
}

fn ikind(inst: Instance<'_>) -> String {
	match inst.def {
		InstanceKind::Item(_) => "item".to_owned(),
		InstanceKind::Intrinsic(_) => "intrinsic".to_owned(),
		InstanceKind::Virtual(..) => "virtual".to_owned(),
		InstanceKind::Shim(sh) => {
			use ty::ShimKind::*;
			match sh {
				FnPtr(..) => "fnptr".to_owned(),
				ClosureOnce { .. } => "once".to_owned(),
				Reify(..) => "reify".to_owned(),
				Clone(..) => "clone".to_owned(),
				DropGlue(..) => "drop".to_owned(),
				_ => "othershim".to_owned(),
			}
		}
		_ => "other".to_owned(),
	}
}
