pub use ark::vars::{Assignment, R1CSVar};
pub mod alloc {
    pub use ark::vars::{AllocVar, AllocationMode};
}
pub mod bits {
    pub use ark::vars::{ToBitsGadget, ToBytesGadget};
    pub mod boolean {
        pub use ark::vars::{AllocatedBit, Boolean};
    }
    pub mod uint8 {
        pub use ark::vars::UInt8;
    }
    pub mod uint32 {
        pub use ark::vars::UInt32;
    }
}
pub use bits::{boolean, uint32, uint8, ToBitsGadget, ToBytesGadget};
pub mod eq {
    pub use ark::vars::EqGadget;
}
pub mod select {
    pub use ark::vars::CondSelectGadget;
}
pub mod fields {
    pub use ark::vars::FieldVar;
    pub mod fp {
        pub use ark::vars::{AllocatedFp, FpVar};
    }
}
pub mod groups {
    pub use ark::vars::CurveVar;
    pub mod bls12 {
        pub use ark::vars::{G1Var, G2Var};
    }
    pub mod curves {
        pub mod short_weierstrass {
            pub use ark::vars::ProjectiveVar;
            pub mod bls12 {
                pub use ark::vars::{G1Var, G2Var};
            }
        }
        pub mod twisted_edwards {
            pub use ark::vars::AffineVar;
        }
    }
}
pub mod pairing {
    pub use ark::vars::PairingVar;
}
pub mod prelude {
    pub use crate::alloc::*;
    pub use crate::bits::{boolean::Boolean, uint32::UInt32, uint8::UInt8, ToBitsGadget, ToBytesGadget};
    pub use crate::eq::*;
    pub use crate::fields::FieldVar;
    pub use crate::groups::CurveVar;
    pub use crate::pairing::PairingVar;
    pub use crate::select::*;
    pub use crate::R1CSVar;
}
