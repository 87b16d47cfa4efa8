#![allow(non_snake_case, warnings)]
// /repo's own unit tests, compiled against the stand-in crates of ../stubs: shows that the stand-ins
// (above all the zone library) behave as the repository's tests expect.
#[path = "/repo/src/DataReader/mod.rs"] pub mod DataReader;
#[path = "/repo/src/DataTypes/mod.rs"] pub mod DataTypes;
#[path = "/repo/src/EdgeEval/mod.rs"] pub mod EdgeEval;
#[path = "/repo/src/ModelObjects/mod.rs"] pub mod ModelObjects;
#[path = "/repo/src/ProtobufServer/mod.rs"] pub mod ProtobufServer;
#[path = "/repo/src/Simulation/mod.rs"] pub mod Simulation;
#[path = "/repo/src/System/mod.rs"] pub mod System;
#[path = "/repo/src/TransitionSystems/mod.rs"] pub mod TransitionSystems;

pub use crate::DataReader::component_loader::{ComponentLoader, JsonProjectLoader, ProjectLoader, XmlProjectLoader};
pub use crate::DataReader::{parse_queries, xml_parser};
use crate::ProtobufServer::services::query_request::Settings;
pub use crate::System::extract_system_rep;
pub const DEFAULT_SETTINGS: Settings = Settings { disable_clock_reduction: true };
#[macro_use] extern crate pest_derive;
extern crate colored; extern crate core; extern crate serde; extern crate serde_xml_rs; extern crate simple_error; extern crate xml;
#[macro_use] extern crate lazy_static;

#[cfg(test)] pub mod tests {
    pub const TEST_SETTINGS: crate::ProtobufServer::services::query_request::Settings = crate::ProtobufServer::services::query_request::Settings { disable_clock_reduction: false };
    #[path = "/repo/src/tests/ClockReduction/mod.rs"] pub mod ClockReduction;
    #[path = "/repo/src/tests/ModelObjects/mod.rs"] pub mod ModelObjects;
    #[path = "/repo/src/tests/edge_ids/mod.rs"] pub mod edge_ids;
    #[path = "/repo/src/tests/failure_message/mod.rs"] pub mod failure_message;
    #[path = "/repo/src/tests/reachability/mod.rs"] pub mod reachability;
    #[path = "/repo/src/tests/refinement/mod.rs"] pub mod refinement;
    #[path = "/repo/src/tests/save_component/mod.rs"] pub mod save_component;
    #[path = "/repo/src/tests/system_recipe/mod.rs"] pub mod system_recipe;
    #[path = "/repo/src/tests/Simulation/mod.rs"] pub mod Simulation;
    #[path = "/repo/src/tests/sample.rs"] pub mod sample;
}
pub mod logging { pub fn setup_logger() -> Result<(), String> { Ok(()) } }
