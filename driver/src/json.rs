use std::fmt::{self, Write};

pub enum J {
    N,
    B(bool),
    I(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
}

impl fmt::Display for J {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            J::N => f.write_str("null"),
            J::B(b) => write!(f, "{}", b),
            J::I(i) => write!(f, "{}", i),
            J::S(s) => {
                f.write_char('"')?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        '\n' => f.write_str("\\n")?,
                        c if (c as u32) < 0x20 || c as u32 == 0x7f => write!(f, "\\u{:04x}", c as u32)?,
                        c => f.write_char(c)?,
                    }
                }
                f.write_char('"')
            }
            J::A(v) => {
                f.write_char('[')?;
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write!(f, "{}", x)?;
                }
                f.write_char(']')
            }
            J::O(v) => {
                f.write_char('{')?;
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write!(f, "\"{}\":{}", k, x)?;
                }
                f.write_char('}')
            }
        }
    }
}
