//! Reference model of secp256k1 ECDSA/ECDH, written independently of the
//! library under check: 64-bit limbs, folding reductions, affine group law.
pub mod der;
pub mod ec;
pub mod ecdsa;
pub mod num;
pub mod sha;
pub mod alpha;
pub mod b64;

pub use ec::{Pt, EC};
pub use num::{Mod, N, P, U256};
