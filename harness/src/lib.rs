//! Monitors for magiclen/validators: workloads, adapters, references, checks.
#![allow(clippy::all, unused_imports, deprecated, hidden_glob_reexports)]
#![recursion_limit = "512"]
pub mod cfgs;
#[cfg(feature = "fam_length")]
pub mod collections;
pub mod core;
pub mod defaults;
#[cfg(all(feature = "all", feature = "serde_facets"))]
pub mod documents;
pub mod extras;
pub mod fam;
pub mod gens;
pub mod hostile;
#[cfg(feature = "meter")]
pub mod meter;
#[cfg(feature = "model")]
pub mod model;
pub mod monitors;
pub mod runner;
pub mod san;
pub mod sertok;
pub mod stretch;
pub mod subject;
#[cfg(feature = "web_facets")]
pub mod web;
#[cfg(all(feature = "all", any(feature = "serde_facets", feature = "web_facets")))]
pub mod webtypes;
