pub mod geometry;
#[cfg(any(feature = "protocol", feature = "output"))]
pub mod protocol;
#[cfg(feature = "output")]
pub mod output;
#[cfg(feature = "robust")]
pub mod robust;
#[cfg(feature = "inputs")]
pub mod inputs;
#[cfg(any(feature = "reuse", feature = "isolation"))]
pub mod reuse;
#[cfg(feature = "isolation")]
pub mod isolation;
#[cfg(feature = "diagnostics")]
pub mod diagnostics;
#[cfg(feature = "work")]
pub mod work;
