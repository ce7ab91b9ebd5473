use std::process::ExitCode;

use crate::cx::Cx;

pub mod c01;
pub mod c19;
pub mod c20;
pub mod c21;
pub mod probes;
pub mod c03;
pub mod c04;
pub mod cross;
pub mod c02;
pub mod equality;
pub mod errors;
pub mod scalars;
#[cfg(feature = "serde")]
pub mod serde_checks;
pub mod format;
pub mod calls;
pub mod graph;
pub mod verdicts;
pub mod arrays;
pub mod place;
pub mod runs;
pub mod many;

pub fn run(id: &str, cx: &Cx) -> bool {
    match id {
        "C01" => c01::run(cx),
        "C03" => c03::run(cx),
        "C04" => c04::run(cx),
        "C05" => arrays::c05(cx),
        "C06" => arrays::c06(cx),
        "C07" => graph::c07(cx),
        "C08" => graph::c08(cx),
        "C09" => graph::c09(cx),
        "C10" => graph::c10(cx),
        "C14" => graph::c14(cx),
        "C11" => calls::c11(cx),
        "C12" => calls::c12(cx),
        "C13" => format::c13(cx),
        "C15" => format::c15(cx),
        #[cfg(feature = "serde")]
        "C16" => serde_checks::c16(cx),
        #[cfg(feature = "serde")]
        "C17" => serde_checks::c17(cx),
        "C18" => scalars::c18(cx),
        "C19" => c19::c19(cx),
        "C20" => c20::c20(cx),
        "C21" => c21::c21(cx),
        "C22" => errors::c22(cx),
        "C23" => equality::c23(cx),
        "C02" => c02::c02(cx),
        _ => return false,
    }
    true
}

/// Other entry points, used by the checks themselves or during development.
pub fn tool(name: &str, args: &[String]) -> ExitCode {
    match name {
        "cross" => cross::run(args),
        "errors" => errors::table(args),
        _ => return ExitCode::from(2),
    }
    ExitCode::SUCCESS
}
