//! Harness shared by all property checks.
pub mod runner;
pub mod elem;
pub mod gen;
pub use runner::{no_panic, Check, Ctx, Tier, R};
pub use proptest::prelude::*;
pub use proptest::strategy::BoxedStrategy;
pub use serde::{Deserialize, Serialize};
pub mod build;
pub mod alloc;
pub mod radix;
pub mod radix_hist;
pub mod radix_mod;
