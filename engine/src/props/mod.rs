//! One module per property; `cases` builds the harness list of a tier.
use crate::driver::DynCase;

// <mods>
#[cfg(feature = "c01")]
pub mod c01;
#[cfg(feature = "c02")]
pub mod c02;
#[cfg(feature = "c03")]
pub mod c03;
#[cfg(feature = "c04")]
pub mod c04;
#[cfg(feature = "c05")]
pub mod c05;
#[cfg(feature = "c06")]
pub mod c06;
#[cfg(feature = "c07")]
pub mod c07;
#[cfg(feature = "c08")]
pub mod c08;
#[cfg(feature = "c09")]
pub mod c09;
#[cfg(feature = "c10")]
pub mod c10;
#[cfg(feature = "c11")]
pub mod c11;
#[cfg(feature = "c12")]
pub mod c12;
#[cfg(feature = "c13")]
pub mod c13;
#[cfg(feature = "c14")]
pub mod c14;
#[cfg(feature = "c15")]
pub mod c15;
#[cfg(feature = "c16")]
pub mod c16;
#[cfg(feature = "c17")]
pub mod c17;
#[cfg(feature = "c18")]
pub mod c18;
#[cfg(feature = "c19")]
pub mod c19;
// </mods>

pub type Cases = Vec<Box<dyn DynCase>>;

pub struct Meta {
    pub how: &'static str,
    pub functions: &'static [&'static str],
    pub bounds: &'static [&'static str],
    pub assumptions: &'static [&'static str],
}
pub const ASSUMPTIONS: &[&str] = &[
    "The real generic code is executed with a symbolic prime-field type (BLS12-381 scalar modulus); its polynomial arithmetic (ark-poly) is executed, not modelled.",
    "Branches on field values follow the generic side of a disequality; linear degenerate cases are explored as extra paths up to the stated budget, the rest is outside the bound.",
    "Equalities relied upon by a branch are obligations proved by the solver for all values.",
];
pub fn ids() -> Vec<&'static str> {
    vec!["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19"]
}
pub fn meta(id: &str) -> Meta {
    match id {
        // <meta>
        #[cfg(feature = "c01")]
        "C01" => c01::META,
        #[cfg(feature = "c02")]
        "C02" => c02::META,
        #[cfg(feature = "c03")]
        "C03" => c03::META,
        #[cfg(feature = "c04")]
        "C04" => c04::META,
        #[cfg(feature = "c05")]
        "C05" => c05::META,
        #[cfg(feature = "c06")]
        "C06" => c06::META,
        #[cfg(feature = "c07")]
        "C07" => c07::META,
        #[cfg(feature = "c08")]
        "C08" => c08::META,
        #[cfg(feature = "c09")]
        "C09" => c09::META,
        #[cfg(feature = "c10")]
        "C10" => c10::META,
        #[cfg(feature = "c11")]
        "C11" => c11::META,
        #[cfg(feature = "c12")]
        "C12" => c12::META,
        #[cfg(feature = "c13")]
        "C13" => c13::META,
        #[cfg(feature = "c14")]
        "C14" => c14::META,
        #[cfg(feature = "c15")]
        "C15" => c15::META,
        #[cfg(feature = "c16")]
        "C16" => c16::META,
        #[cfg(feature = "c17")]
        "C17" => c17::META,
        #[cfg(feature = "c18")]
        "C18" => c18::META,
        #[cfg(feature = "c19")]
        "C19" => c19::META,
        // </meta>
        _ => panic!("no such property"),
    }
}
#[allow(unused_variables)]
pub fn cases(id: &str, thorough: bool) -> Option<Cases> {
    Some(match id {
        // <cases>
        #[cfg(feature = "c01")]
        "C01" => c01::cases(thorough),
        #[cfg(feature = "c02")]
        "C02" => c02::cases(thorough),
        #[cfg(feature = "c03")]
        "C03" => c03::cases(thorough),
        #[cfg(feature = "c04")]
        "C04" => c04::cases(thorough),
        #[cfg(feature = "c05")]
        "C05" => c05::cases(thorough),
        #[cfg(feature = "c06")]
        "C06" => c06::cases(thorough),
        #[cfg(feature = "c07")]
        "C07" => c07::cases(thorough),
        #[cfg(feature = "c08")]
        "C08" => c08::cases(thorough),
        #[cfg(feature = "c09")]
        "C09" => c09::cases(thorough),
        #[cfg(feature = "c10")]
        "C10" => c10::cases(thorough),
        #[cfg(feature = "c11")]
        "C11" => c11::cases(thorough),
        #[cfg(feature = "c12")]
        "C12" => c12::cases(thorough),
        #[cfg(feature = "c13")]
        "C13" => c13::cases(thorough),
        #[cfg(feature = "c14")]
        "C14" => c14::cases(thorough),
        #[cfg(feature = "c15")]
        "C15" => c15::cases(thorough),
        #[cfg(feature = "c16")]
        "C16" => c16::cases(thorough),
        #[cfg(feature = "c17")]
        "C17" => c17::cases(thorough),
        #[cfg(feature = "c18")]
        "C18" => c18::cases(thorough),
        #[cfg(feature = "c19")]
        "C19" => c19::cases(thorough),
        // </cases>
        _ => return None,
    })
}
