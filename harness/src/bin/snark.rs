//! Checks C18..C26: key generation, proving, verification, serialization, faults.
#![allow(dead_code, unused_imports, unused_macros)]
use vh::*;

#[macro_export]
macro_rules! on_field {
    ($c:expr, $body:ident, [$($t:ty),*]) => {{
        let fs: Vec<fn(&mut Case) -> R> = vec![$($body::<$t>),*];
        let k = $c.below(fs.len() as u64) as usize;
        fs[k]($c)
    }};
}
#[path = "../snark/batch.rs"]
#[cfg(feature = "p21")]
mod batch;
#[path = "../snark/codec.rs"]
#[cfg(any(feature = "p22", feature = "p23"))]
mod codec;
#[path = "../snark/core.rs"]
mod core_checks;
#[path = "../snark/source.rs"]
#[cfg(any(feature = "p25", feature = "p26"))]
mod source;
#[path = "../snark/faults.rs"]
#[cfg(feature = "p26")]
mod faults;
#[path = "../snark/history.rs"]
#[cfg(feature = "p28")]
mod history;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    #[cfg(feature = "p28")]
    if args.first().map(|s| s == "--child").unwrap_or(false) {
        return history::child(&args[2..]);
    }
    let r = Runner::from_args(&args);
    field::self_test();
    let rule = match r.prop.as_str() {
        #[cfg(feature = "p18")]
        "C18" => core_checks::c18(&r),
        #[cfg(feature = "p19")]
        "C19" => core_checks::c19(&r),
        #[cfg(feature = "p20")]
        "C20" => core_checks::c20(&r),
        #[cfg(feature = "p21")]
        "C21" => batch::c21(&r),
        #[cfg(feature = "p22")]
        "C22" => codec::c22(&r),
        #[cfg(feature = "p23")]
        "C23" => codec::c23(&r),
        #[cfg(feature = "p24")]
        "C24" => core_checks::c24(&r),
        #[cfg(feature = "p25")]
        "C25" => core_checks::c25(&r),
        #[cfg(feature = "p26")]
        "C26" => faults::c26(&r),
        #[cfg(feature = "p28")]
        "C28" => history::c28(&r),
        x => panic!("unknown property {}", x),
    };
    std::process::exit(r.finish(rule));
}
