#![allow(dead_code, unused_imports)]
use sneturfahi::lex::{self, Selmaho, Token};
use sneturfahi::parse::tree_node::TreeNode;
use sneturfahi::{decompose, Arena, Cst, Span};

fn words(s: &str) -> Vec<&str> {
	decompose(s).map(|w| w.slice(s).unwrap()).collect()
}

fn lexed(s: &str) -> Result<Vec<Token>, lex::Error> {
	lex::lex(s).collect()
}

fn toks(s: &str) -> Vec<(Selmaho, &str)> {
	lexed(s).unwrap().iter().map(|t| (t.selmaho, t.span.slice(s).unwrap())).collect()
}

fn class(s: &str) -> Selmaho {
	Selmaho::classify(s).0
}

fn parses(s: &str) -> bool {
	Cst::parse(&lexed(s).unwrap(), &Arena::new()).is_ok()
}

fn tree(s: &str) -> String {
	let tokens = lexed(s).unwrap();
	let arena = Arena::new();
	let out = format!("{:?}", Cst::parse(&tokens, &arena).unwrap().root());
	out
}

fn walk(s: &str, f: &mut dyn FnMut(&dyn TreeNode)) {
	fn go(n: &dyn TreeNode, f: &mut dyn FnMut(&dyn TreeNode)) {
		f(n);
		n.for_each_child(&mut |c| go(c, f));
	}
	let tokens = lexed(s).unwrap();
	let arena = Arena::new();
	let cst = Cst::parse(&tokens, &arena).unwrap();
	go(cst.root(), f);
}

/// The leaves of the tree in the order they are visited.
fn leaves(s: &str) -> Vec<String> {
	let mut out = vec![];
	walk(s, &mut |n| {
		let mut any = false;
		n.for_each_child(&mut |_| any = true);
		if let (false, Some(a), Some(b)) = (any, n.start_location(), n.end_location()) {
			out.push(s[a as usize..b as usize].to_owned());
		}
	});
	out
}

fn main() {
	//MAIN
}
