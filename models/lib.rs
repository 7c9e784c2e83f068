//! Reference bodies for the text-searching methods of `str`, written in terms of `Chars` only.
//! They are dumped as MIR once (models.json) and inlined by the analyser in place of the library's own
//! searcher machinery; `p` stands for whatever pattern the caller passed, as a character predicate.
#![allow(clippy::all)]

type P<'p> = &'p mut dyn FnMut(char) -> bool;

pub fn trim_end_matches<'a>(s: &'a str, p: P<'_>) -> &'a str {
	let mut it = s.chars();
	loop {
		let rest = it.as_str();
		match it.next_back() {
			Some(c) => {
				if !p(c) {
					return rest;
				}
			}
			None => return rest,
		}
	}
}

pub fn trim_start_matches<'a>(s: &'a str, p: P<'_>) -> &'a str {
	let mut it = s.chars();
	loop {
		let rest = it.as_str();
		match it.next() {
			Some(c) => {
				if !p(c) {
					return rest;
				}
			}
			None => return rest,
		}
	}
}

pub fn trim_matches<'a>(s: &'a str, p: P<'_>) -> &'a str {
	trim_end_matches(trim_start_matches(s, p), p)
}

pub fn starts_with(s: &str, p: P<'_>) -> bool {
	match s.chars().next() {
		Some(c) => p(c),
		None => false,
	}
}

pub fn ends_with(s: &str, p: P<'_>) -> bool {
	match s.chars().next_back() {
		Some(c) => p(c),
		None => false,
	}
}

pub fn strip_prefix<'a>(s: &'a str, p: P<'_>) -> Option<&'a str> {
	let mut it = s.chars();
	match it.next() {
		Some(c) => {
			if p(c) {
				Some(it.as_str())
			} else {
				None
			}
		}
		None => None,
	}
}

pub fn strip_suffix<'a>(s: &'a str, p: P<'_>) -> Option<&'a str> {
	let mut it = s.chars();
	match it.next_back() {
		Some(c) => {
			if p(c) {
				Some(it.as_str())
			} else {
				None
			}
		}
		None => None,
	}
}

pub fn contains(s: &str, p: P<'_>) -> bool {
	let mut it = s.chars();
	loop {
		match it.next() {
			Some(c) => {
				if p(c) {
					return true;
				}
			}
			None => return false,
		}
	}
}

pub fn find(s: &str, p: P<'_>) -> Option<usize> {
	let mut it = s.chars();
	loop {
		let here = it.as_str();
		match it.next() {
			Some(c) => {
				if p(c) {
					return Some(here.as_ptr() as usize - s.as_ptr() as usize);
				}
			}
			None => return None,
		}
	}
}

pub fn rfind(s: &str, p: P<'_>) -> Option<usize> {
	let mut it = s.chars();
	loop {
		match it.next_back() {
			Some(c) => {
				if p(c) {
					return Some(it.as_str().len());
				}
			}
			None => return None,
		}
	}
}

pub fn split_once<'a>(s: &'a str, p: P<'_>) -> Option<(&'a str, &'a str)> {
	let mut it = s.chars();
	loop {
		let here = it.as_str();
		match it.next() {
			Some(c) => {
				if p(c) {
					let n = here.as_ptr() as usize - s.as_ptr() as usize;
					return Some((&s[..n], it.as_str()));
				}
			}
			None => return None,
		}
	}
}

pub struct SplitState<'a, 'p> {
	pub rest: &'a str,
	pub done: bool,
	pub p: P<'p>,
}

pub fn split<'a, 'p>(s: &'a str, p: P<'p>) -> SplitState<'a, 'p> {
	SplitState { rest: s, done: false, p }
}

pub fn split_next<'a>(st: &mut SplitState<'a, '_>) -> Option<&'a str> {
	if st.done {
		return None;
	}
	let rest = st.rest;
	let mut it = rest.chars();
	loop {
		let here = it.as_str();
		match it.next() {
			Some(c) => {
				if (st.p)(c) {
					let n = here.as_ptr() as usize - rest.as_ptr() as usize;
					st.rest = it.as_str();
					return Some(&rest[..n]);
				}
			}
			None => {
				st.done = true;
				return Some(rest);
			}
		}
	}
}

pub fn split_size_hint(_st: &SplitState<'_, '_>) -> (usize, Option<usize>) {
	(0, None)
}

pub fn strip_prefix_text<'a>(s: &'a str, p: &str) -> Option<&'a str> {
	let mut it = s.chars();
	let mut want = p.chars();
	loop {
		match want.next() {
			None => return Some(it.as_str()),
			Some(w) => match it.next() {
				None => return None,
				Some(c) => {
					if c != w {
						return None;
					}
				}
			},
		}
	}
}

pub fn strip_suffix_text<'a>(s: &'a str, p: &str) -> Option<&'a str> {
	let mut it = s.chars();
	let mut want = p.chars();
	loop {
		match want.next_back() {
			None => return Some(it.as_str()),
			Some(w) => match it.next_back() {
				None => return None,
				Some(c) => {
					if c != w {
						return None;
					}
				}
			},
		}
	}
}

pub fn starts_with_text(s: &str, p: &str) -> bool {
	match strip_prefix_text(s, p) {
		Some(_) => true,
		None => false,
	}
}

pub fn ends_with_text(s: &str, p: &str) -> bool {
	match strip_suffix_text(s, p) {
		Some(_) => true,
		None => false,
	}
}

/// `v.into_iter().map(f).collect()`, element by element and in place.
pub fn map_collect(mut v: Vec<u64>, f: &mut dyn FnMut(u64) -> u64) -> Vec<u64> {
	for w in &mut v {
		*w = f(*w);
	}
	v
}
