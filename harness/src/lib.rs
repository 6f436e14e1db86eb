//! Shared machinery of the runtime monitors: random source, case runner, drop ledger, fault injection,
//! index patterns and result reporting.  Nothing in here knows about a particular property.
pub mod ledger;
pub mod pats;
pub mod report;
pub mod rng;
pub mod vals;

pub use ledger::*;
pub use report::*;
pub use rng::Rng;

/// Oracles return `Err(what went wrong)`; everything else about a case goes to `Case`.
pub type Res<T = ()> = Result<T, String>;

#[macro_export]
macro_rules! ensure {
    ($cond:expr, $($arg:tt)+) => {
        if !$cond {
            return Err(format!($($arg)+));
        }
    };
}

#[macro_export]
macro_rules! ensure_eq {
    ($a:expr, $b:expr, $($arg:tt)+) => {
        match (&$a, &$b) {
            (a, b) => {
                if !(*a == *b) {
                    return Err(format!("{}: got {:?}, expected {:?}", format!($($arg)+), a, b));
                }
            }
        }
    };
}
