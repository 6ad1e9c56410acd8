mod ascii;
mod base;
mod info;
mod io;
mod las;
mod lasmeta;
mod laspoints;
mod pnts;
mod pts;
use fw::*;
fn main() {
    let p = |id, shards| Property { id, rule: "", shards };
    main_with(vec![
        p("C31", ascii::c31 as fn(bool) -> Vec<Shard>),
        p("C32", ascii::c32),
        p("C33", pnts::c33),
        p("C34", pnts::c34),
        p("C35", pnts::c35),
        p("C36", pnts::c36),
        p("C37", las::c37),
        p("C38", las::c38),
        p("C39", las::c39),
        p("C40", las::c40),
        p("C41", base::c41),
        p("C42", las::c42),
        p("C43", lasmeta::c43),
        p("C44", las::c44),
        p("C45", lasmeta::c45),
        p("C46", info::c46),
        p("C47", laspoints::c47),
    ]);
}
