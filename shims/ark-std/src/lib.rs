pub use std::*;
/// smallest k with 2^k >= x
pub fn log2(x: usize) -> u32 {
    if x == 0 {
        0
    } else if x.is_power_of_two() {
        (8 * std::mem::size_of::<usize>()) as u32 - 1 - x.leading_zeros()
    } else {
        (8 * std::mem::size_of::<usize>()) as u32 - x.leading_zeros()
    }
}
#[macro_export]
macro_rules! start_timer {
    ($msg:expr) => {{
        let _ = $msg;
    }};
}
#[macro_export]
macro_rules! end_timer {
    ($time:expr) => {
        let _ = $time;
    };
    ($time:expr, $msg:expr) => {
        let _ = ($time, $msg);
    };
}
