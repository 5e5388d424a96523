//! The framework of the checks: generators, storages, comparison and the runner.
pub mod alloc;
pub mod cmp;
pub mod data;
pub mod dft;
pub mod exact;
pub mod g;
#[macro_use]
pub mod runner;
#[macro_use]
pub mod mem;
pub mod num;
#[cfg(feature = "ops")]
pub mod ops;
pub mod resp;
pub mod win;

pub use crate::cmp::*;
pub use crate::data::Kind;
pub use crate::exact::Exact;
pub use crate::g::G;
pub use crate::mem::*;
pub use crate::num::*;
pub use crate::runner::*;
pub use crate::win::Win;
pub use basic_dsp_vector as dsp;
pub use basic_dsp_vector::numbers::Complex;
pub use basic_dsp_vector::{
    ComplexIndex, ComplexIndexMut, DataDomain, ErrorReason, FloatIndex, FloatIndexMut, GenDspVec, GetMetaData, MetaData,
    MultiCoreSettings, ResizeOps, ToComplexVector, ToDspVector, ToRealVector, Vector,
};

#[global_allocator]
static ALLOCATOR: alloc::Placing = alloc::Placing;
