use crate::Prop;

pub mod mke;
pub mod p01;
pub mod p02;
pub mod p03;
pub mod p04;
pub mod p05;
pub mod p06;
pub mod p07;
pub mod p08;
pub mod p09;
pub mod p10;
pub mod p11;
pub mod p12;
pub mod p13;
pub mod p14;
pub mod p15;
pub mod p16;
pub mod p17;
pub mod p18;
pub mod p19;
pub mod p20;
pub mod validate;
pub mod world;

pub fn get(id: &str, thorough: bool) -> Option<Prop> {
    Some(match id {
        "P01" => p01::prop(thorough),
        "P02" => p02::prop(thorough),
        "P03" => p03::prop(thorough),
        "P04" => p04::prop(thorough),
        "P05" => p05::prop(thorough),
        "P06" => p06::prop(thorough),
        "P07" => p07::prop(thorough),
        "P08" => p08::prop(thorough),
        "P09" => p09::prop(thorough),
        "P10" => p10::prop(thorough),
        "P11" => p11::prop(thorough),
        "P12" => p12::prop(thorough),
        "P13" => p13::prop(thorough),
        "P14" => p14::prop(thorough),
        "P15" => p15::prop(thorough),
        "P16" => p16::prop(thorough),
        "P17" => p17::prop(thorough),
        "P18" => p18::prop(thorough),
        "P19" => p19::prop(thorough),
        "P20" => p20::prop(thorough),
        _ => return None,
    })
}
