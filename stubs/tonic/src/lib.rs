//! Stand-in for tonic: the message carriers only, no transport.
pub use tonic_attr::async_trait;
use std::fmt;
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Code { Ok = 0, Cancelled = 1, Unknown = 2, InvalidArgument = 3, NotFound = 5, FailedPrecondition = 9, Unimplemented = 12, Internal = 13, Unavailable = 14 }
#[derive(Clone, Debug)]
pub struct Status { code: Code, message: String }
impl Status {
    pub fn new(code: Code, message: impl Into<String>) -> Self { Status { code, message: message.into() } }
    pub fn internal(m: impl Into<String>) -> Self { Self::new(Code::Internal, m) }
    pub fn invalid_argument(m: impl Into<String>) -> Self { Self::new(Code::InvalidArgument, m) }
    pub fn not_found(m: impl Into<String>) -> Self { Self::new(Code::NotFound, m) }
    pub fn unknown(m: impl Into<String>) -> Self { Self::new(Code::Unknown, m) }
    pub fn failed_precondition(m: impl Into<String>) -> Self { Self::new(Code::FailedPrecondition, m) }
    pub fn unimplemented(m: impl Into<String>) -> Self { Self::new(Code::Unimplemented, m) }
    pub fn code(&self) -> Code { self.code }
    pub fn message(&self) -> &str { &self.message }
}
impl fmt::Display for Status { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "status: {:?}, message: {:?}", self.code, self.message) } }
impl std::error::Error for Status {}
#[derive(Clone, Debug, Default)]
pub struct Request<T> { m: T }
impl<T> Request<T> { pub fn new(m: T) -> Self { Request { m } } pub fn into_inner(self) -> T { self.m } pub fn get_ref(&self) -> &T { &self.m } pub fn get_mut(&mut self) -> &mut T { &mut self.m } }
#[derive(Clone, Debug, Default)]
pub struct Response<T> { m: T }
impl<T> Response<T> { pub fn new(m: T) -> Self { Response { m } } pub fn into_inner(self) -> T { self.m } pub fn get_ref(&self) -> &T { &self.m } pub fn get_mut(&mut self) -> &mut T { &mut self.m } }
pub mod transport {
    use std::time::Duration;
    #[derive(Debug)] pub struct Error;
    impl std::fmt::Display for Error { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("no transport") } }
    impl std::error::Error for Error {}
    pub struct Server;
    impl Server {
        pub fn builder() -> Self { Server }
        pub fn http2_keepalive_interval(self, _d: Option<Duration>) -> Self { self }
        pub fn add_service<S>(self, _s: S) -> Self { self }
        pub async fn serve(self, _a: std::net::SocketAddr) -> Result<(), Error> { Err(Error) }
    }
}
/// The messages of Ecdar-ProtoBuf, written out by hand (the submodule is absent here).
#[macro_export]
macro_rules! include_proto { ($p:tt) => { include!(concat!(env!("CARGO_MANIFEST_DIR"), "/src/services.rs")); }; }
