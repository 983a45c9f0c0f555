//! Run-time monitors for the colorspace crate: workloads that drive the real
//! library, and oracles that judge every observed result.
#![allow(clippy::needless_range_loop, clippy::too_many_arguments)]
pub mod common;
pub mod ctx;
pub mod env;
pub mod gen;
pub mod guard;
pub mod ops;
pub mod props;
pub mod refm;
pub mod rng;
pub mod spectra;
pub mod tables;
