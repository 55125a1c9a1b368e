#[macro_use]
mod engine;
mod decode;
mod driver;
mod hist;
mod p01;
mod p02;
mod p04;
mod p08;
mod p10;
mod p12;
mod p15;
mod p17;
mod p21;
mod p23;
mod p28;
mod p29;
mod p30;
mod p31;
mod q;
mod reads;
mod shapes;
mod store;
mod types;

use driver::{Explore, Replay};
use std::path::Path;

fn table(id: &str) -> Option<(Explore, Replay)> {
    Some(match id {
        "P01" => (p01::explore, p01::replay),
        "P02" => (p02::explore02, p02::replay02),
        "P03" => (p02::explore03, p02::replay03),
        "P04" => (p04::explore04, p04::replay04),
        "P05" => (p04::explore05, p04::replay05),
        "P06" => (p04::explore06, p04::replay06),
        "P08" => (p08::explore08, p08::replay08),
        "P09" => (p08::explore09, p08::replay09),
        "P10" => (p10::explore10, p10::replay10),
        "P11" => (p10::explore11, p10::replay11),
        "P12" => (p12::explore12, p12::replay12),
        "P13" => (p12::explore13, p12::replay13),
        "P14" => (p12::explore14, p12::replay14),
        "P15" => (p15::explore15, p15::replay15),
        "P16" => (p15::explore16, p15::replay16),
        "P17" => (p17::explore17, p17::replay17),
        "P18" => (p17::explore18, p17::replay18),
        "P19" => (p17::explore19, p17::replay19),
        "P21" => (p21::explore21, p21::replay21),
        "P22" => (p21::explore22, p21::replay22),
        "P23" => (p23::explore23, p23::replay23),
        "P24" => (p23::explore24, p23::replay24),
        "P25" => (p23::explore25, p23::replay25),
        "P26" => (p23::explore26, p23::replay26),
        "P27" => (p15::explore27, p15::replay27),
        "P28" => (p28::explore28, p28::replay28),
        "P29" => (p29::explore29, p29::replay29),
        "P30" => (p30::explore30, p30::replay30),
        "P31" => (p31::explore31, p31::replay31),
        _ => return None,
    })
}

fn main() {
    driver::run(table, |args| {
        Some(match args.get(1)?.as_str() {
            "write-golden" => {
                p15::write_golden(Path::new(&args[2]));
                0
            }
            "poke" => p21::poke_main(&args[2]),
            _ => return None,
        })
    })
}
