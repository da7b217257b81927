#![allow(unused_imports)]
//! Verification model: see tape.rs, fr.rs, group.rs, explore.rs
pub mod explore;
pub mod fr;
pub mod group;
pub mod tape;
pub use ark_bls12_381::Fr;
pub use explore::*;
pub use fr::TFr;
pub use group::{G1, G2, GT, MP};
pub use tape::*;
