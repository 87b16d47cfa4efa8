//! Stand-in for EDBM (the git dependency is absent here): difference bound
//! matrices and federations of them, written from the textbook definitions.
//! It is an *environment stub* of the verification: its operations are meant to
//! be exact on sets of clock valuations over the non-negative reals, and the
//! `P00`-style self checks decide that with the solver.
//!
//! Written so that symbolic execution does not fork where it need not: entries
//! are combined with selects, and only emptiness and inclusion are branched on.
pub mod util {
    pub mod constraints;
    pub mod bounds;
}
pub mod zones;
