//! A minimal JSON writer (the sandbox has no serde for rustc_private builds).
use std::fmt::Write;

#[derive(Clone)]
pub enum J {
	Null,
	B(bool),
	N(i128),
	S(String),
	A(Vec<J>),
	O(Vec<(&'static str, J)>),
}

pub fn s(x: impl Into<String>) -> J {
	J::S(x.into())
}
pub fn n(x: impl TryInto<i128>) -> J {
	J::N(x.try_into().ok().unwrap())
}

impl J {
	pub fn write(&self, out: &mut String) {
		match self {
			J::Null => out.push_str("null"),
			J::B(b) => out.push_str(if *b { "true" } else { "false" }),
			J::N(v) => {
				let _ = write!(out, "{v}");
			}
			J::S(v) => {
				out.push('"');
				for c in v.chars() {
					match c {
						'"' => out.push_str("\\\""),
						'\\' => out.push_str("\\\\"),
						c if (c as u32) < 0x20 => {
							let _ = write!(out, "\\u{:04x}", c as u32);
						}
						c => out.push(c),
					}
				}
				out.push('"');
			}
			J::A(v) => {
				out.push('[');
				for (i, x) in v.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					x.write(out);
				}
				out.push(']');
			}
			J::O(v) => {
				out.push('{');
				for (i, (k, x)) in v.iter().enumerate() {
					if i > 0 {
						out.push(',');
					}
					out.push('"');
					out.push_str(k);
					out.push_str("\":");
					x.write(out);
				}
				out.push('}');
			}
		}
	}
}
