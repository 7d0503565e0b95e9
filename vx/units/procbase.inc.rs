//@include eqax.inc.rs
//@trust storage.inc.rs
//@trust commit.inc.rs
//@trust queue.inc.rs
//@py metadata_size
//@py queue_instances real
//@trust tokens.inc.rs
pub mod feem { use super::*;
//@trust fee.inc.rs
}
pub use feem::{ProgramFee, BasisPointFee, accepted, bounded, comp, base_fee, commitment_fee, proof_fee};
pub mod bufm { use super::*;
//@trust buffer.inc.rs
}
pub use bufm::{RingBuffer, RawBuf, binv, held, BaseCommitmentBufferAccount, CommitmentBufferAccount};
