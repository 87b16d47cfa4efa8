//! Stand-in for colored: colouring switched off, as on a non-tty.
use std::fmt; use std::ops::Deref;
#[derive(Clone, Debug, PartialEq, Eq, Default)]
pub struct ColoredString(String);
impl Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.0 } }
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.pad(&self.0) } }
impl<'a> From<&'a str> for ColoredString { fn from(s: &'a str) -> Self { ColoredString(s.to_string()) } }
macro_rules! cols { ($($n:ident)*) => { pub trait Colorize { $(fn $n(self) -> ColoredString where Self: Sized;)* }
  impl<'a> Colorize for &'a str { $(fn $n(self) -> ColoredString { ColoredString(self.to_string()) })* }
  impl Colorize for ColoredString { $(fn $n(self) -> ColoredString { self })* } } }
cols!(red green blue yellow cyan magenta white black purple bold dimmed italic underline normal clear on_red on_green bright_red bright_green bright_blue bright_yellow);
