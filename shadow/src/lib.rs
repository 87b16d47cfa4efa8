#![allow(non_snake_case, warnings)]
// /repo's lib.rs, with the modules taken by path from /repo/src and without cli, logging and tests.
include!(concat!(env!("OUT_DIR"), "/modules.rs"));

pub use crate::DataReader::component_loader::{ComponentLoader, JsonProjectLoader, ProjectLoader, XmlProjectLoader};
pub use crate::DataReader::{parse_queries, xml_parser};
use crate::ProtobufServer::services::query_request::Settings;
pub use crate::System::extract_system_rep;
pub use ProtobufServer::start_grpc_server_with_tokio;
pub const DEFAULT_SETTINGS: Settings = Settings { disable_clock_reduction: true };
#[macro_use] extern crate pest_derive;
extern crate colored; extern crate core; extern crate serde; extern crate serde_xml_rs; extern crate simple_error; extern crate xml;
#[macro_use] extern crate lazy_static;

/// Harness of the property checks (not part of /repo): one cargo feature per property.
pub mod vp;
#[path = "../../checks/common.rs"] pub mod common;
pub type Entry = (&'static str, extern "C" fn());
macro_rules! checks { ($($f:literal $m:ident $p:literal),* $(,)?) => {
    $(#[cfg(feature = $f)] #[path = $p] pub mod $m;)*
    pub fn entries() -> Vec<Entry> {
        let mut v: Vec<Entry> = Vec::new();
        $(#[cfg(feature = $f)] v.extend_from_slice($m::ENTRIES);)*
        v
    }
} }
/// Declares the entry points of one check module.
#[macro_export]
macro_rules! harness { ($($n:ident => $e:expr;)*) => {
    $(#[no_mangle] #[inline(never)] pub extern "C" fn $n() { $e; })*
    pub static ENTRIES: &[crate::Entry] = &[$((stringify!($n), $n)),*];
} }
checks! {
    "c01" c01 "../../checks/c01.rs",
    "c02" c02 "../../checks/c02.rs",
    "c03" c03 "../../checks/c03.rs",
    "c04" c04 "../../checks/c04.rs",
    "c05" c05 "../../checks/c05.rs",
    "c06" c06 "../../checks/c06.rs",
    "c07" c07 "../../checks/c07.rs",
    "c08" c08 "../../checks/c08.rs",
    "c09" c09 "../../checks/c09.rs",
    "c10" c10 "../../checks/c10.rs",
    "c11" c11 "../../checks/c11.rs",
    "c12" c12 "../../checks/c12.rs",
    "c13" c13 "../../checks/c13.rs",
    "c14" c14 "../../checks/c14.rs",
    "c15" c15 "../../checks/c15.rs",
    "c16" c16 "../../checks/c16.rs",
    "c17" c17 "../../checks/c17.rs",
    "c18" c18 "../../checks/c18.rs",
    "c19" c19 "../../checks/c19.rs",
    "c20" c20 "../../checks/c20.rs",
    "c21" c21 "../../checks/c21.rs",
    "c22" c22 "../../checks/c22.rs",
    "c23" c23 "../../checks/c23.rs",
    "c24" c24 "../../checks/c24.rs",
    "c25" c25 "../../checks/c25.rs",
    "c26" c26 "../../checks/c26.rs",
    "c27" c27 "../../checks/c27.rs",
    "c28" c28 "../../checks/c28.rs",
    "c29" c29 "../../checks/c29.rs",
    "c30" c30 "../../checks/c30.rs",
    "c31" c31 "../../checks/c31.rs",
    "c32" c32 "../../checks/c32.rs",
    "c33" c33 "../../checks/c33.rs",
    "c34" c34 "../../checks/c34.rs",
    "c35" c35 "../../checks/c35.rs",
    "c36" c36 "../../checks/c36.rs",
    "c37" c37 "../../checks/c37.rs",
    "c38" c38 "../../checks/c38.rs",
    "c39" c39 "../../checks/c39.rs",
    "c40" c40 "../../checks/c40.rs",
}
