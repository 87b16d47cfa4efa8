// The messages of Ecdar-ProtoBuf's services.proto as prost would render them (fields used by /repo).
macro_rules! msgs { ($($(#[$m:meta])* $n:ident { $($f:ident : $t:ty),* $(,)? })*) => { $( $(#[$m])* #[derive(Clone, PartialEq, Debug, Default)] pub struct $n { $(pub $f: $t),* } )* } }
msgs! {
  ComponentsInfo { components: Vec<Component>, components_hash: u32 }
  Component { rep: Option<component::Rep> }
  QueryRequest { user_id: i32, query_id: i32, query: String, components_info: Option<ComponentsInfo>, settings: Option<query_request::Settings> }
  QueryResponse { query_id: i32, info: Vec<query_response::Information>, result: Option<query_response::Result> }
  UserTokenResponse { user_id: i32 }
  SimulationInfo { user_id: i32, component_composition: String, components_info: Option<ComponentsInfo> }
  SimulationStartRequest { simulation_info: Option<SimulationInfo> }
  SimulationStepRequest { simulation_info: Option<SimulationInfo>, chosen_decision: Option<Decision> }
  SimulationStepResponse { full_state: Option<State>, new_decision_points: Vec<Decision> }
  State { location_tree: Option<LocationTree>, zone: Option<Disjunction> }
  LocationTree { node_type: Option<location_tree::NodeType> }
  BinaryLocationOperator { left: Option<Box<LocationTree>>, right: Option<Box<LocationTree>>, operator: i32 }
  LeafLocation { id: String, component_instance: Option<ComponentInstance> }
  #[derive(Eq, Hash)] ComponentInstance { component_name: String, component_index: u32 }
  Disjunction { conjunctions: Vec<Conjunction> }
  Conjunction { constraints: Vec<Constraint> }
  Constraint { x: Option<Clock>, y: Option<Clock>, strict: bool, c: i32 }
  Clock { clock: Option<clock::Clock> }
  StateAction { state: Option<State>, action: String }
  ActionFailure { failure: i32, action_sets: Vec<action_failure::ActionSet> }
  Path { decisions: Vec<Decision> }
  Decision { source: Option<State>, action: String, edges: Vec<Edge>, destination: Option<State> }
  Edge { id: String, component_instance: Option<ComponentInstance> }
}
impl BinaryLocationOperator { pub fn operator(&self) -> binary_location_operator::Operator { use binary_location_operator::Operator::*; match self.operator { 1 => Composition, 2 => Quotient, 3 => Refinement, _ => Conjunction } } }
pub mod component { #[derive(Clone, PartialEq, Debug)] pub enum Rep { Json(String), Xml(String) } }
pub mod query_request { #[derive(Clone, PartialEq, Debug, Default, Copy)] pub struct Settings { pub disable_clock_reduction: bool } }
pub mod location_tree { #[derive(Clone, PartialEq, Debug)] pub enum NodeType { LeafLocation(super::LeafLocation), BinaryLocationOp(Box<super::BinaryLocationOperator>), SpecialLocation(i32) } }
pub mod binary_location_operator { #[derive(Clone, Copy, PartialEq, Eq, Debug)] pub enum Operator { Conjunction = 0, Composition = 1, Quotient = 2, Refinement = 3 } }
pub mod clock {
    #[derive(Clone, PartialEq, Debug)] pub enum Clock { ZeroClock(ZeroClock), ComponentClock(ComponentClock), SystemClock(SystemClock) }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ZeroClock {}
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ComponentClock { pub component_instance: Option<super::ComponentInstance>, pub clock_name: String }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct SystemClock { pub clock_index: u32 }
}
pub mod action_failure { #[derive(Clone, PartialEq, Debug, Default)] pub struct ActionSet { pub actions: Vec<String>, pub system: String, pub is_input: bool } }
pub mod query_response {
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Information { pub information: String }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Success {}
    #[derive(Clone, PartialEq, Debug, Default)] pub struct Error { pub error: String }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ReachabilityPath { pub path: Option<super::Path> }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ReachabilityFailure { pub failure: i32 }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct DeterminismFailure { pub system: String, pub failure_state: Option<super::StateAction> }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ConsistencyFailure { pub system: String, pub failure: Option<consistency_failure::Failure> }
    pub mod consistency_failure { #[derive(Clone, PartialEq, Debug)] pub enum Failure { NoInitialState(i32), Determinism(super::DeterminismFailure), FailureState(super::super::State) } }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct RefinementFailure { pub system: String, pub failure: Option<refinement_failure::Failure> }
    pub mod refinement_failure {
        #[derive(Clone, PartialEq, Debug, Default)] pub struct RefinementStateFailure { pub unmatched: i32, pub state: Option<super::super::StateAction> }
        #[derive(Clone, PartialEq, Debug)] pub enum Failure { EmptySystem(String), NoInitialState(i32), InconsistentChild(super::ConsistencyFailure), ActionMismatch(super::super::ActionFailure), RefinementState(RefinementStateFailure) }
    }
    #[derive(Clone, PartialEq, Debug, Default)] pub struct ModelFailure { pub system: String, pub failure: Option<model_failure::Failure> }
    pub mod model_failure { #[derive(Clone, PartialEq, Debug)] pub enum Failure { InconsistentConjunction(super::ConsistencyFailure), ActionMismatch(super::super::ActionFailure) } }
    #[derive(Clone, PartialEq, Debug)]
    pub enum Result { Success(Success), Error(Error), Model(ModelFailure), ReachabilityPath(ReachabilityPath), Reachability(ReachabilityFailure), Refinement(RefinementFailure), Consistency(ConsistencyFailure), Determinism(DeterminismFailure), Component(super::Component) }
}
pub mod ecdar_backend_server {
    use super::*; use tonic::{Request, Response, Status};
    #[allow(async_fn_in_trait)]
    pub trait EcdarBackend {
        async fn get_user_token(&self, request: Request<()>) -> Result<Response<UserTokenResponse>, Status>;
        async fn send_query(&self, request: Request<QueryRequest>) -> Result<Response<QueryResponse>, Status>;
        async fn start_simulation(&self, request: Request<SimulationStartRequest>) -> Result<Response<SimulationStepResponse>, Status>;
        async fn take_simulation_step(&self, request: Request<SimulationStepRequest>) -> Result<Response<SimulationStepResponse>, Status>;
    }
    pub struct EcdarBackendServer<T>(pub T);
    impl<T> EcdarBackendServer<T> { pub fn new(t: T) -> Self { Self(t) } }
}
