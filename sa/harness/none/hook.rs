//! no block-level specification
pub fn scan_start() {}
pub fn scan_end() {}
pub fn restart() {}
