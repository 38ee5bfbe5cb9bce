//! Deterministic cost monitor: in the build with SanitizerCoverage every executed edge is counted.
#[cfg(steps)]
extern "C" {
    fn mon_steps() -> u64;
}
/// Edges executed so far by this thread, if this build counts them.
#[inline(always)]
pub fn steps() -> Option<u64> {
    #[cfg(steps)]
    return Some(unsafe { mon_steps() });
    #[cfg(not(steps))]
    None
}
