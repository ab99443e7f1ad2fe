use std::fmt::{Display, Formatter, Result, Write};
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    I(i64),
    S(String),
    L(Vec<J>),
    O(Vec<(&'static str, J)>),
}
impl Display for J {
    fn fmt(&self, f: &mut Formatter<'_>) -> Result {
        match self {
            J::I(i) => write!(f, "{i}"),
            J::S(s) => {
                f.write_char('"')?;
                for c in s.chars() {
                    match c {
                        '"' => f.write_str("\\\"")?,
                        '\\' => f.write_str("\\\\")?,
                        '\n' => f.write_str("\\n")?,
                        c if (c as u32) < 32 => write!(f, "\\u{:04x}", c as u32)?,
                        c => f.write_char(c)?,
                    }
                }
                f.write_char('"')
            }
            J::L(l) => {
                f.write_char('[')?;
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    x.fmt(f)?;
                }
                f.write_char(']')
            }
            J::O(l) => {
                f.write_char('{')?;
                for (i, (k, x)) in l.iter().enumerate() {
                    if i > 0 {
                        f.write_char(',')?;
                    }
                    write!(f, "\"{k}\":{x}")?;
                }
                f.write_char('}')
            }
        }
    }
}
impl From<i64> for J {
    fn from(v: i64) -> J {
        J::I(v)
    }
}
impl From<usize> for J {
    fn from(v: usize) -> J {
        J::I(v as i64)
    }
}
impl From<u32> for J {
    fn from(v: u32) -> J {
        J::I(v as i64)
    }
}
impl From<i32> for J {
    fn from(v: i32) -> J {
        J::I(v as i64)
    }
}
impl From<bool> for J {
    fn from(v: bool) -> J {
        J::I(v as i64)
    }
}
impl From<&str> for J {
    fn from(v: &str) -> J {
        J::S(v.into())
    }
}
impl From<String> for J {
    fn from(v: String) -> J {
        J::S(v)
    }
}
impl<T: Into<J>> From<Vec<T>> for J {
    fn from(v: Vec<T>) -> J {
        J::L(v.into_iter().map(Into::into).collect())
    }
}
impl<T: Into<J> + Clone> From<&[T]> for J {
    fn from(v: &[T]) -> J {
        J::L(v.iter().cloned().map(Into::into).collect())
    }
}
/// A list of integers.
pub fn il<I: IntoIterator<Item = i64>>(i: I) -> J {
    J::L(i.into_iter().map(J::I).collect())
}
#[macro_export]
macro_rules! obj {
    ($($k: ident : $v: expr),* $(,)?) => { $crate::json::J::O(vec![$((stringify!($k), $crate::json::J::from($v))),*]) };
}
