//! Stand-in for tokio: only the builder that server.rs names.
pub mod runtime {
    pub struct Builder; pub struct Runtime;
    impl Builder {
        pub fn new_current_thread() -> Self { Builder }
        pub fn enable_time(&mut self) -> &mut Self { self }
        pub fn enable_io(&mut self) -> &mut Self { self }
        pub fn enable_all(&mut self) -> &mut Self { self }
        pub fn build(&mut self) -> std::io::Result<Runtime> { Ok(Runtime) }
    }
    impl Runtime { pub fn block_on<F: std::future::Future>(&self, _f: F) -> F::Output { panic!("no tokio in the verification build") } }
}
