//! The adapter from std::io::Write to the crate's own writer trait.
use super::api::*;
use crate::*;

/// a sink that may take only a part of what `write` offers and may fail at any time
pub struct IoSink;
fn fails() -> bool {
    if any::<bool>() {
        key_set(0, 1);
        return true;
    }
    false
}
fn take(b: &[u8], n: usize) {
    let all: &[u8] = dat_get(50);
    let at: usize = dat_get(51);
    check("C07:bytes reach the sink once and in order", at + n <= all.len() && same_bytes(&all[at..at + n], &b[..n]));
    dat_set(51, at + n);
    key_set(1, 0);
}
impl std::io::Write for IoSink {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        check("C07:nothing is written after a failure", key_get(0) == 0);
        if fails() {
            return Err(any());
        }
        let n = if b.len() > 1 && any::<bool>() { 1 } else { b.len() };
        take(b, n);
        Ok(n)
    }
    fn write_all(&mut self, b: &[u8]) -> std::io::Result<()> {
        check("C07:nothing is written after a failure", key_get(0) == 0);
        if fails() {
            return Err(any());
        }
        take(b, b.len());
        Ok(())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        check("C07:nothing is written after a failure", key_get(0) == 0);
        if fails() {
            return Err(any());
        }
        key_set(1, 1);
        Ok(())
    }
}
fn adapter<W: JfifWrite>(mut w: W) {
    let n = 1 + part(9) as usize;
    let b = any_slice(n);
    dat_set(50, b);
    dat_set(51, 0usize);
    key_set(0, 0);
    set_ite(0);
    let r = w.write_all(b);
    if key_get(0) == 1 {
        check("C07:a failed write is reported as an error", r.is_err());
        reached("adapter failed write");
        return;
    }
    let at: usize = dat_get(51);
    check("C07:a successful write took every byte", r.is_ok() && at == n);
    let r = w.flush();
    if key_get(0) == 1 {
        check("C07:a failed flush is reported as an error", r.is_err());
        reached("adapter failed flush");
        return;
    }
    check("C07:flushing reaches the sink", r.is_ok() && key_get(1) == 1);
    reached("adapter success");
}
pub fn h_io() {
    adapter(IoSink);
}
pub fn h_io_ref() {
    let mut s = IoSink;
    adapter(&mut s);
}
