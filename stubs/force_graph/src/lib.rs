//! Stand-in for force_graph: holds the nodes, moves nothing (layout is not a subject).
pub type DefaultNodeIdx = usize;
#[derive(Clone, Debug)] pub struct NodeData<D> { pub x: f32, pub y: f32, pub mass: f32, pub is_anchor: bool, pub user_data: D }
#[derive(Clone, Debug, Default)] pub struct EdgeData<D> { pub user_data: D }
#[derive(Clone, Debug, Default)] pub struct SimulationParameters;
pub struct Node<D> { pub data: NodeData<D> }
impl<D> Node<D> { pub fn x(&self) -> f32 { self.data.x } pub fn y(&self) -> f32 { self.data.y } pub fn index(&self) -> usize { 0 } }
pub struct ForceGraph<D = (), E = ()> { nodes: Vec<Node<D>>, _e: std::marker::PhantomData<E> }
impl<D, E> ForceGraph<D, E> {
    pub fn new(_p: SimulationParameters) -> Self { ForceGraph { nodes: vec![], _e: std::marker::PhantomData } }
    pub fn add_node(&mut self, d: NodeData<D>) -> DefaultNodeIdx { self.nodes.push(Node { data: d }); self.nodes.len() - 1 }
    pub fn add_edge(&mut self, _a: DefaultNodeIdx, _b: DefaultNodeIdx, _d: EdgeData<E>) {}
    pub fn update(&mut self, _dt: f32) {}
    pub fn visit_nodes<F: FnMut(&Node<D>)>(&self, mut f: F) { for n in &self.nodes { f(n) } }
}
