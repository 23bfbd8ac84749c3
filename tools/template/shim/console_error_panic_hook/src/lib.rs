//! Native stand-in: the harness owns the panic hook.
pub fn set_once() {}
pub fn hook(_: &std::panic::PanicHookInfo<'_>) {}
