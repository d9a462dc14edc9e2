//! Monitored workloads for blake2s_simd.

pub mod gen;
#[cfg(feature = "guided")]
pub mod guided;
pub mod props;
pub mod run;
pub mod sys;
#[cfg(all(target_os = "linux", target_arch = "x86_64", not(miri)))]
pub mod traps;
pub mod world;
