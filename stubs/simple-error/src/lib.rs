use std::{error::Error, fmt};
#[derive(Debug, Clone, PartialEq, Eq, Hash, Default)]
pub struct SimpleError { err: String }
pub type SimpleResult<T> = Result<T, SimpleError>;
impl SimpleError { pub fn new<T: Into<String>>(t: T) -> Self { SimpleError { err: t.into() } } pub fn as_str(&self) -> &str { &self.err } }
impl fmt::Display for SimpleError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.err) } }
impl Error for SimpleError {}
#[macro_export] macro_rules! bail { ($e:expr $(,)?) => { return Err(::std::convert::From::from($e)); }; ($f:expr, $($a:tt)+) => { return Err(::std::convert::From::from(format!($f, $($a)+))); }; }
#[macro_export] macro_rules! simple_error { ($e:expr $(,)?) => { $crate::SimpleError::new($e) }; ($f:expr, $($a:tt)+) => { $crate::SimpleError::new(format!($f, $($a)+)) }; }
