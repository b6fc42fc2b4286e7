//! scan events go to the block-level specification
pub use super::flow_spec::{restart, scan_end, scan_start};
