//! Building sets and maps in every storage state.
use crate::elem::E;
use rkyv::ser::{serializers::AllocSerializer, Serializer};
use rkyv::AlignedVec;
use vec_collections::{Array, ArchivedVecSet, VecSet};

pub trait Elem: Ord + Clone + std::hash::Hash + 'static {
    fn mk(k: u16, t: u16) -> Self;
    fn kt(&self) -> (u16, Option<u16>);
}
impl Elem for E {
    fn mk(k: u16, t: u16) -> Self { E::new(k, t) }
    fn kt(&self) -> (u16, Option<u16>) { (self.key, Some(self.tag)) }
}
impl Elem for u16 {
    fn mk(k: u16, _: u16) -> Self { k }
    fn kt(&self) -> (u16, Option<u16>) { (*self, None) }
}
impl Elem for String {
    fn mk(k: u16, _: u16) -> Self { format!("{k:05}") }
    fn kt(&self) -> (u16, Option<u16>) { (self.parse().unwrap(), None) }
}

/// `spill`: force a heap buffer with spare capacity, whatever the length
pub fn build<T: Elem, A: Array<Item = T>>(keys: &[u16], tag: u16, spill: bool) -> VecSet<A> {
    if spill {
        let mut v = Vec::with_capacity(40 + keys.len());
        v.extend(keys.iter().map(|k| T::mk(*k, tag)));
        VecSet::from(v)
    } else {
        keys.iter().map(|k| T::mk(*k, tag)).collect()
    }
}
pub fn archived(keys: &[u16]) -> AlignedVec {
    let s: VecSet<[u16; 4]> = keys.iter().copied().collect();
    let mut ser = AllocSerializer::<256>::default();
    ser.serialize_value(&s).unwrap();
    ser.into_serializer().into_inner()
}
pub fn view(b: &AlignedVec) -> &ArchivedVecSet<u16> { unsafe { rkyv::archived_root::<VecSet<[u16; 4]>>(b) } }
