pub mod cfgs;
pub mod many;
pub mod solo;
pub mod mix;
pub mod wide;
#[cfg(feature = "32_components")]
pub mod widex;
pub mod zst;
use crate::api::*;

pub const KINDS: &[&str] = &["mix", "zst", "wide", "many", "widex", "solo", "cfgs"];
pub fn make(kind: usize, form: u8, caps: &[usize]) -> Box<dyn WorldDyn> {
    match kind {
        0 => mix::make(form, caps),
        1 => zst::make(form, caps),
        2 => wide::make(form, caps),
        3 => many::make(form, caps),
        #[cfg(feature = "32_components")]
        4 => widex::make(form, caps),
        5 => solo::make(form, caps),
        6 => cfgs::make(form, caps),
        _ => panic!("no such world kind in this configuration"),
    }
}
pub fn meta(kind: usize) -> &'static WorldMeta {
    match kind {
        0 => &mix::META,
        1 => &zst::META,
        2 => &wide::META,
        3 => &many::META,
        #[cfg(feature = "32_components")]
        4 => &widex::META,
        5 => &solo::META,
        6 => &cfgs::META,
        _ => panic!("no such world kind in this configuration"),
    }
}
