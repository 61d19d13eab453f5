//! Property-based testing engine, wire codec, reference model and generators. No dependencies.

pub mod codec;
pub mod dict;
pub mod gen;
pub mod model;
pub mod run;
pub mod src;

pub use run::{fail, main, Cx, CaseResult, Check, Failure};
pub use src::Src;

pub fn hex(b: &[u8]) -> String {
    b.iter().map(|b| format!("{:02x}", b)).collect()
}

pub fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2)
        .filter_map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok())
        .collect()
}

/// A readable, bounded rendering of some bytes.
pub fn show(b: &[u8]) -> String {
    let head: String = b
        .iter()
        .take(40)
        .flat_map(|c| std::ascii::escape_default(*c))
        .map(|c| c as char)
        .collect();
    if b.len() > 40 {
        format!("\"{}\"..({} bytes)", head, b.len())
    } else {
        format!("\"{}\"", head)
    }
}

pub fn show_all<T: AsRef<[u8]>>(items: &[T]) -> String {
    let mut s = items
        .iter()
        .take(8)
        .map(|i| show(i.as_ref()))
        .collect::<Vec<_>>()
        .join(", ");
    if items.len() > 8 {
        s.push_str(&format!(", ..({} items)", items.len()));
    }
    s
}

/// Return a failure unless a condition holds.
#[macro_export]
macro_rules! ensure {
    ($cond:expr, $sig:expr, $($arg:tt)*) => {
        if !$cond {
            return Err($crate::fail($sig, format!($($arg)*)));
        }
    };
}
