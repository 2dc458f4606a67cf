//! The properties: workloads and oracles.

use crate::runner::Prop;

mod p01;
mod p03;
mod p04;
mod p06;
mod p09;
mod p10;
mod p11;
mod p12;
mod p13;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p20;
mod p22;
mod p23;
#[cfg(feature = "sqlite")]
mod p24;
mod p25;
mod p26;
#[cfg(feature = "threads")]
mod p27;
mod p28;
mod p29;
mod p30;
mod p31;
mod p32;
mod p33;
mod p34;
mod p35;
pub mod p36;
pub mod p37;
mod tool;
pub mod util;

pub fn find(id: &str) -> Option<Prop> {
    Some(match id {
        "P01" => p01::xml(),
        "P02" => p01::osc(),
        "P03" => p03::prop(),
        "P04" => p04::xml(),
        "P05" => p04::osc(),
        "P06" => p06::prop(crate::rd::Rk::Pbf),
        "P07" => p06::prop(crate::rd::Rk::Arc),
        "P08" => p06::prop(crate::rd::Rk::Pos),
        "P09" => p09::prop(),
        "P10" => p10::prop(),
        "P11" => p11::prop(),
        "P12" => p12::prop(),
        "P13" => p13::prop(),
        "P14" => p14::prop(),
        "P15" => p15::prop(),
        "P16" => p16::prop(),
        "P17" => p17::prop(),
        "P18" => p18::views(),
        "P19" => p18::conversions(),
        "P20" => p20::full(),
        "P21" => p20::tags(),
        "P22" => p22::prop(),
        "P23" => p23::prop(),
        #[cfg(feature = "sqlite")]
        "P24" => p24::prop(),
        "P25" => p25::prop(),
        "P26" => p26::prop(),
        #[cfg(feature = "threads")]
        "P27" => p27::prop(),
        "P28" => p28::prop(),
        "P29" => p29::prop(),
        "P30" => p30::prop(),
        "P31" => p31::prop(),
        "P32" => p32::prop(),
        "P33" => p33::prop(),
        "P34" => p34::prop(),
        "P35" => p35::prop(),
        "P36" => p36::prop(),
        "P37" => p37::prop(),
        _ => return None,
    })
}
