//! Point types and buffers for the algorithm explorers.
use pasture_core::containers::*;
use pasture_core::layout::*;
use pasture_core::nalgebra::Vector3;
use pasture_derive::PointType;

pub type V = Vector3<f64>;

#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct Plain {
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub class: u8,
    #[pasture(BUILTIN_POSITION_3D)]
    pub position: Vector3<f64>,
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
}

#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct Plain32 {
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub class: u8,
    #[pasture(attribute = "Position3D")]
    pub position: Vector3<f32>,
}
#[derive(PointType, Copy, Clone, PartialEq, Debug, bytemuck::AnyBitPattern, bytemuck::NoUninit)]
#[repr(C, packed)]
pub struct NoPosition {
    #[pasture(BUILTIN_CLASSIFICATION)]
    pub class: u8,
    #[pasture(BUILTIN_INTENSITY)]
    pub intensity: u16,
}

pub fn plain(p: &[V]) -> Vec<Plain> {
    p.iter().enumerate().map(|(i, p)| Plain { class: i as u8, position: *p, intensity: 7 + i as u16 }).collect()
}

/// Every kind of buffer the algorithms can be called with.
#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub enum Kind {
    Vector,
    HashMap,
    External,
    SliceV,
    SliceH,
}
pub const KINDS: [Kind; 5] = [Kind::Vector, Kind::HashMap, Kind::External, Kind::SliceV, Kind::SliceH];

/// Runs `$body` with `$b` bound to a buffer of kind `$k` holding `$pts` (a `Vec` of a point type).
/// Slices have one foreign point (`$other`) on either side.
#[macro_export]
macro_rules! with_buffer {
    ($k:expr, $pts:expr, $other:expr, $b:ident, $body:expr) => {{
        use pasture_core::containers::*;
        let pts = $pts;
        let other = $other;
        match $k {
            $crate::pts::Kind::Vector => {
                let buf: VectorBuffer = pts.iter().copied().collect();
                let $b = &buf;
                $body
            }
            $crate::pts::Kind::HashMap => {
                let buf: HashMapBuffer = $crate::pts::hashmap(&pts);
                let $b = &buf;
                $body
            }
            $crate::pts::Kind::External => {
                let buf = ExternalMemoryBuffer::new(bytemuck::cast_slice::<_, u8>(&pts).to_vec(), $crate::pts::layout_of(&pts));
                let $b = &buf;
                $body
            }
            $crate::pts::Kind::SliceV => {
                let mut all = vec![other];
                all.extend_from_slice(&pts);
                all.push(other);
                let buf: VectorBuffer = all.iter().copied().collect();
                let s = buf.slice(1..1 + pts.len());
                let $b = &s;
                $body
            }
            $crate::pts::Kind::SliceH => {
                let mut all = vec![other];
                all.extend_from_slice(&pts);
                all.push(other);
                let buf: HashMapBuffer = $crate::pts::hashmap(&all);
                let s = buf.slice(1..1 + pts.len());
                let $b = &s;
                $body
            }
        }
    }};
}
pub fn layout_of<T: PointType>(_: &[T]) -> PointLayout {
    T::layout()
}
pub fn hashmap<T: PointType>(p: &[T]) -> HashMapBuffer {
    let mut b = HashMapBuffer::new_from_layout(T::layout());
    b.resize(p.len());
    for (i, x) in p.iter().enumerate() {
        unsafe { b.set_point(i, bytemuck::bytes_of(x)) };
    }
    b
}

/// Runs `$body` with `$b` bound to a buffer of kind `$k` and layout `$l` holding the points with the bytes `$pts`.
/// Slices have one foreign point (all bytes 0x55) on either side.
#[macro_export]
macro_rules! with_raw {
    ($k:expr, $l:expr, $pts:expr, $b:ident, $body:expr) => {{
        use pasture_core::containers::*;
        let layout: &PointLayout = $l;
        let pts: &[Vec<u8>] = $pts;
        let n = pts.len();
        let foreign = vec![0x55u8; layout.size_of_point_entry() as usize];
        let around: Vec<Vec<u8>> = std::iter::once(foreign.clone()).chain(pts.iter().cloned()).chain(std::iter::once(foreign.clone())).collect();
        match $k {
            $crate::pts::Kind::Vector => {
                let mut buf = VectorBuffer::new_from_layout(layout.clone());
                $crate::pts::raw_fill(&mut buf, pts);
                let $b = &mut buf;
                $body
            }
            $crate::pts::Kind::HashMap => {
                let mut buf = HashMapBuffer::new_from_layout(layout.clone());
                $crate::pts::raw_fill(&mut buf, pts);
                let $b = &mut buf;
                $body
            }
            $crate::pts::Kind::External => {
                let mut mem = pts.concat();
                let mut buf = ExternalMemoryBuffer::new(&mut mem[..], layout.clone());
                let $b = &mut buf;
                $body
            }
            $crate::pts::Kind::SliceV => {
                let mut buf = VectorBuffer::new_from_layout(layout.clone());
                $crate::pts::raw_fill(&mut buf, &around);
                let mut s = buf.slice_mut(1..1 + n);
                let $b = &mut s;
                $body
            }
            $crate::pts::Kind::SliceH => {
                let mut buf = HashMapBuffer::new_from_layout(layout.clone());
                $crate::pts::raw_fill(&mut buf, &around);
                let mut s = buf.slice_mut(1..1 + n);
                let $b = &mut s;
                $body
            }
        }
    }};
}
pub fn raw_fill<'a, B: OwningBuffer<'a>>(b: &mut B, p: &[Vec<u8>]) {
    b.resize(p.len());
    for (i, x) in p.iter().enumerate() {
        unsafe { b.set_point(i, x) };
    }
}
/// The bytes of all points of a buffer.
pub fn raw_points<'a, B: BorrowedBuffer<'a>>(b: &B) -> Vec<Vec<u8>> {
    let s = b.point_layout().size_of_point_entry() as usize;
    (0..b.len())
        .map(|i| {
            let mut v = vec![0u8; s];
            b.get_point(i, &mut v);
            v
        })
        .collect()
}

/// All words over `0..n` of length `k`.
pub fn words(n: usize, k: usize, f: &mut dyn FnMut(&[usize])) {
    let mut w = vec![0; k];
    loop {
        f(&w);
        let mut i = 0;
        while i < k {
            w[i] += 1;
            if w[i] < n {
                break;
            }
            w[i] = 0;
            i += 1;
        }
        if i == k {
            return;
        }
    }
}

/// Buffer sizes around powers of two.
pub fn large_sizes(max: usize) -> Vec<usize> {
    [255usize, 256, 257, 512, 1000, 1023, 1024, 1025, 2049, 4095, 4096, 4097, 8193, 10_000, 16_385, 32_769, 65_535, 65_536, 65_537].into_iter().filter(|n| *n <= max).collect()
}
/// Positions at the ends, in the middle and around powers of two.
pub fn spots(n: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1)];
    for k in 3..18 {
        let p = 1usize << k;
        v.extend([p - 1, p, p + 1]);
    }
    v.retain(|i| *i < n);
    v.sort();
    v.dedup();
    v
}
