//! A JSON value and writer, so that the driver needs no dependency.
use std::fmt::Write;

#[derive(Clone, Debug)]
pub enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(String, J)>),
}

pub fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
pub fn i(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap())
}
#[macro_export]
macro_rules! arr { ($($e:expr),* $(,)?) => { $crate::json::J::A(vec![$($e),*]) } }
#[macro_export]
macro_rules! obj { ($($k:literal : $e:expr),* $(,)?) => { $crate::json::J::O(vec![$(($k.to_string(), $e)),*]) } }

impl J {
    pub fn write(&self, o: &mut String) {
        match self {
            J::N => o.push_str("null"),
            J::B(b) => write!(o, "{b}").unwrap(),
            J::I(i) => write!(o, "{i}").unwrap(),
            J::S(x) => wstr(x, o),
            J::A(v) => {
                o.push('[');
                for (k, x) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (k, (n, x)) in v.iter().enumerate() {
                    if k > 0 {
                        o.push(',');
                    }
                    wstr(n, o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

fn wstr(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => write!(o, "\\u{:04x}", c as u32).unwrap(),
            c => o.push(c),
        }
    }
    o.push('"');
}
