//! C15: the derived layout of a Rust type is the layout the compiler gives the type.
use fw::*;
use pasture_core::layout::*;
use std::borrow::Cow;

pub struct F(pub &'static str, pub PointAttributeDataType, pub usize);
pub struct S {
    pub desc: &'static str,
    pub layout: fn() -> PointLayout,
    pub size: usize,
    pub align: usize,
    pub fields: fn() -> Vec<F>,
}

fn body(s: &S, o: &mut Obs) -> R {
    let l = (s.layout)();
    let f = (s.fields)();
    o.steps(f.len() as u64 + 2);
    o.state(&s.desc);
    ensure_eq!(l.attributes().map(|a| a.name().to_string()).collect::<Vec<_>>(), f.iter().map(|f| f.0.to_string()).collect::<Vec<_>>(), "attribute names");
    ensure_eq!(l.attributes().map(|a| a.datatype()).collect::<Vec<_>>(), f.iter().map(|f| f.1).collect::<Vec<_>>(), "datatypes");
    ensure_eq!(l.attributes().map(|a| a.offset() as usize).collect::<Vec<_>>(), f.iter().map(|f| f.2).collect::<Vec<_>>(), "offsets");
    ensure_eq!(l.attributes().map(|a| a.size()).collect::<Vec<_>>(), f.iter().map(|f| crate::conv::size(f.1) as u64).collect::<Vec<_>>(), "sizes");
    ensure_eq!(l.size_of_point_entry() as usize, s.size, "size of a point");
    let members: Vec<_> = f.iter().map(|f| PointAttributeDefinition::custom(Cow::Borrowed(f.0), f.1).at_offset_in_type(f.2 as u64)).collect();
    ensure!(l == PointLayout::from_members_and_alignment(&members, s.align as u64), "the alignment is not {}", s.align);
    // the same fields added to a layout by hand give the layout of the type
    if s.desc.contains("repr(C)]") && !s.desc.contains("packed") && !s.desc.contains("align") {
        let defs: Vec<_> = f.iter().map(|f| PointAttributeDefinition::custom(Cow::Borrowed(f.0), f.1)).collect();
        ensure!(PointLayout::from_attributes(&defs) == l, "from_attributes gives another layout than the repr(C) type has");
    }
    Ok(())
}

pub fn c15(_t: bool) -> Vec<Shard> {
    vec![shard("structs", |cx| {
        for s in crate::derive_types::all() {
            cx.case(|| s.desc.to_string(), |o| body(&s, o));
        }
        cx.case(
            || "struct with two fields that share an attribute name".into(),
            |o| {
                o.step();
                must_panic(|| "layout with a duplicate attribute name".into(), <crate::derive_types::Dup as PointType>::layout)
            },
        );
    })]
}
