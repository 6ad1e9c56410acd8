mod hull;
mod normals;
mod pts;
mod ransac;
mod reproj;
mod stats;
mod voxel;
use fw::*;
fn main() {
    let p = |id, shards| Property { id, rule: "", shards };
    main_with(vec![
        p("C22", stats::c22 as fn(bool) -> Vec<Shard>),
        p("C23", stats::c23),
        p("C24", hull::c24),
        p("C25", voxel::c25),
        p("C26", normals::c26),
        p("C27", stats::c27),
        p("C28", ransac::c28),
        p("C29", ransac::c29),
        p("C30", reproj::c30),
    ]);
}
