//! rustc driver that dumps the resolved, monomorphised MIR of the crate being compiled as JSON facts.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`.  Nothing is executed:
//! the driver runs the compiler's front end, walks every function reachable from the crate's
//! own items and writes the facts the Python analyses in /verif/analysis consume.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface::Compiler;
use rustc_middle::ty::TyCtxt;

struct Dumper {
	out: Option<String>,
}

impl Callbacks for Dumper {
	fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
		if let Some(dir) = &self.out {
			let krate = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
			let text = dump::dump(tcx);
			let path = format!("{dir}/{krate}.json");
			std::fs::write(&path, text).expect("cannot write facts");
			return Compilation::Stop;
		}
		Compilation::Continue
	}
}

fn main() -> std::process::ExitCode {
	let mut args: Vec<String> = std::env::args().collect();
	// as RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
	if args.len() > 1 && std::path::Path::new(&args[1]).file_stem().is_some_and(|s| s == "rustc") {
		args.remove(1);
	}
	let wanted = std::env::var("FACTS_CRATES").unwrap_or_default();
	let mut name = None;
	let mut is_test = false;
	let mut is_bin_probe = false;
	for (i, a) in args.iter().enumerate() {
		if a == "--crate-name" {
			name = args.get(i + 1).cloned();
		}
		if a == "--test" {
			is_test = true;
		}
		if a == "-" || a.starts_with("--print") || a == "-vV" {
			is_bin_probe = true;
		}
	}
	let out = match name {
		Some(n) if !is_test && !is_bin_probe && wanted.split(',').any(|w| w == n) => {
			std::env::var("FACTS_OUT").ok()
		}
		_ => None,
	};
	if out.is_some() {
		// only dependencies need their MIR in metadata
		args.retain(|a| a != "-Zalways-encode-mir");
		args.push(format!("-Zthreads={}", std::env::var("FACTS_THREADS").unwrap_or("8".to_string())));
	}
	rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Dumper { out }))
}
