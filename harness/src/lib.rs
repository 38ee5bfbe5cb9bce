//! Common parts of the runtime monitors for succinct-rs.
pub mod alloc;
pub mod bits;
pub mod blk;
pub mod bvh;
pub mod calls;
pub mod far;
pub mod ivh;
pub mod refcodes;
pub mod rng;
pub mod run;
pub mod steps;
pub mod stores;
pub mod streams;
pub mod userblk;

pub use bits::*;
pub use blk::*;
pub use rng::Rng;
pub use run::*;
