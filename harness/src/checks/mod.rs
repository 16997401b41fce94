//! One module per group of properties.
use crate::engine::Section;
mod arith;
mod ctors;
mod decode;
mod encode;
mod equal;
mod headers;
mod net;
mod hostile;
mod records;
mod relay;
#[cfg(feature = "user")]
mod user;
pub mod state;
pub mod tables;

pub fn sections(check: &str) -> Vec<Section> {
    match check {
        "C01" => encode::c01(),
        "C02" => encode::c02(),
        "C03" => encode::c03(),
        "C04" => encode::c04(),
        "C05" => hostile::c05(),
        "C06" => hostile::c06(),
        "C07" => decode::c07(),
        "C08" => headers::c08(),
        "C09" => decode::c09(),
        "C10" => tables::c10(),
        "C11" => headers::c11(),
        "C12" => headers::c12(),
        "C13" => records::c13(),
        "C14" => state::c14(),
        "C15" => hostile::c15(),
        "C16" => decode::c16(),
        "C17" => arith::c17(),
        "C18" => state::c18(),
        "C19" => net::c19(),
        "C20" => ctors::c20(),
        "C21" => ctors::c21(),
        "C24" => relay::c24(),
        "C23" => equal::c23(),
        #[cfg(feature = "user")]
        "C22" => user::c22(),
        _ => vec![],
    }
}
macro_rules! ensure {
    ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } };
}
pub(crate) use ensure;
