use crate::report::Part;
use crate::Tier;

pub mod c21;
mod cred;
mod flow;
mod issuer;
mod ops;
mod parse;
mod robust;
mod token;
mod wire;

pub const IDS: [&str; 27] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14",
    "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27",
];

pub fn parts(id: &str, tier: Tier) -> Option<Vec<Part>> {
    Some(match id {
        "C01" => token::c01(tier),
        "C02" => token::c02(tier),
        "C03" => token::c03(tier),
        "C04" => cred::c04(tier),
        "C05" => cred::c05(tier),
        "C06" => cred::c06(tier),
        "C07" => cred::c07(tier),
        "C08" => cred::c08(tier),
        "C09" => cred::c09(tier),
        "C10" => issuer::c10(tier),
        "C13" => issuer::c13(tier),
        "C14" => issuer::c14(tier),
        "C15" => issuer::c15(tier),
        "C16" => issuer::c16(tier),
        "C17" => wire::c17(tier),
        "C18" => wire::c18(tier),
        "C19" => wire::c19(tier),
        "C23" => wire::c23(tier),
        "C25" => parse::c25(tier),
        "C21" => c21::c21(tier),
        "C22" => flow::c22(tier),
        "C20" => robust::c20(tier),
        "C11" => cred::c11(tier),
        "C12" => cred::c12(tier),
        "C24" => cred::c24(tier),
        "C26" => ops::c26(tier),
        "C27" => ops::c27(tier),
        _ => return None,
    })
}
