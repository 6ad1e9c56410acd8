mod big;
mod collect;
mod conv;
mod derive;
#[rustfmt::skip]
#[allow(dead_code)]
mod derive_types;
mod hist;
mod iters;
mod lay;
mod layout;
mod math;
mod refuse;
mod slices;
mod types;
mod views;
mod write;
use fw::*;
/// The shards of a property, those with large buffers first (they take longest).
macro_rules! with_big {
    ($m:ident, $f:ident) => {
        |t: bool| {
            let mut v = big::$f(t);
            v.extend($m::$f(t));
            v
        }
    };
}
fn main() {
    let p = |id, shards| Property { id, rule: "", shards };
    main_with(vec![
        p("C01", with_big!(hist, c01) as fn(bool) -> Vec<Shard>),
        p("C02", with_big!(write, c02)),
        p("C03", with_big!(collect, c03)),
        p("C04", with_big!(collect, c04)),
        p("C05", with_big!(collect, c05)),
        p("C06", slices::c06),
        p("C07", with_big!(slices, c07)),
        p("C08", with_big!(write, c08)),
        p("C09", with_big!(views, c09)),
        p("C10", with_big!(iters, c10)),
        p("C11", with_big!(conv, c11)),
        p("C13", layout::c13),
        p("C14", layout::c14),
        p("C15", derive::c15),
        p("C16", layout::c16),
        p("C17", conv::c17),
        p("C18", with_big!(conv, c18)),
        p("C19", conv::c19),
        p("C20", math::c20),
        p("C21", math::c21),
        p("C48", layout::c48),
        p("C49", refuse::c49),
    ]);
}
