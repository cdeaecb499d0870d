mod anchors;
mod apis;
mod bundled;
mod circuits;
mod faults;
mod fronts;
mod helpers;
mod history;
mod robust;
mod tables;
mod tamper;
mod text;

use crate::report::Ctx;

pub fn child(a: &[String]) -> i32 {
    match a.first().map(String::as_str) {
        Some("extract") => history::child(),
        Some("outputs") => faults::child(),
        _ => 2,
    }
}

pub fn run(ctx: &Ctx) -> i32 {
    match ctx.id.as_str() {
        "C01" => circuits::c01(ctx),
        "C02" => circuits::c02(ctx),
        "C03" => circuits::c03(ctx),
        "C04" => tamper::c04(ctx),
        "C05" => text::c05(ctx),
        "C06" => tables::c06(ctx),
        "C07" => tables::c07(ctx),
        "C08" => tables::c08(ctx),
        "C11" => tables::c11(ctx),
        "C15" => tables::c15(ctx),
        "C12" => robust::c12(ctx),
        "C13" => fronts::c13(ctx),
        "C14" => fronts::c14(ctx),
        "A01" => apis::a01(ctx),
        "A02" => apis::a02(ctx),
        "A03" => apis::a03(ctx),
        "A04" => apis::a04(ctx),
        "A05" => apis::a05(ctx),
        "A06" => apis::a06(ctx),
        "A07" => apis::a07(ctx),
        "A08" => history::a08(ctx),
        "C09" => anchors::c09(ctx),
        "C10" => anchors::c10(ctx),
        "C16" => bundled::c16(ctx),
        "C17" => anchors::c17(ctx),
        "C18" => faults::c18(ctx),
        "C19" => helpers::c19(ctx),
        _ => {
            println!("unknown property {}", ctx.id);
            2
        }
    }
}
