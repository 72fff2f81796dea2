/// Fail the current case.
#[macro_export]
macro_rules! fail {
    ($($t:tt)*) => { return Err($crate::arena::untracked(|| format!($($t)*))) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { $crate::fail!($($t)*) } };
}
