# Assumed contracts for BTreeSet / BTreeMap and comparison, used by the generator units. TRUSTED.
@map BTreeSet=BSet BTreeMap=BMap
@raw
pub use bt::*;
pub mod bt {
use vstd::prelude::*;
use super::pre::*;

// ------------------------------------------------------------------ comparison
// `a == b` of two values of one type: equal values are the same object or equal in every field
#[verifier::external_body]
pub fn veq<X>(a: &X, b: &X) -> (r: bool) ensures r == (*a == *b) { unimplemented!() }
pub trait VOrd: Sized {
    spec fn olt(self, o: Self) -> bool;
}
impl VOrd for u16 { open spec fn olt(self, o: u16) -> bool { self < o } }
impl VOrd for u32 { open spec fn olt(self, o: u32) -> bool { self < o } }
impl VOrd for usize { open spec fn olt(self, o: usize) -> bool { self < o } }
impl VOrd for i32 { open spec fn olt(self, o: i32) -> bool { self < o } }
impl<X: VOrd> VOrd for &X { open spec fn olt(self, o: &X) -> bool { (*self).olt(*o) } }
#[verifier::external_body]
pub fn vlt<X: VOrd>(a: &X, b: &X) -> (r: bool) ensures r == (*a).olt(*b) { unimplemented!() }

pub broadcast proof fn lemma_push_contains<X>(s: Seq<X>, x: X, y: X)
    ensures #[trigger] s.push(x).contains(y) <==> s.contains(y) || x == y
{
    if s.contains(y) {
        let i = choose|i: int| 0 <= i < s.len() && s[i] == y;
        assert(s.push(x)[i] == y);
    }
    if x == y { assert(s.push(x)[s.len() as int] == y); }
}
// collections are built from iterators' items in order
pub trait VFrom<X>: Sized {
    spec fn vmade(s: Seq<X>, r: Self) -> bool;
    fn vfrom(v: Vec<X>) -> (r: Self) ensures Self::vmade(v@, r);
}
pub fn vcollect<X, R: VFrom<X>>(v: Vec<X>) -> (r: R) ensures R::vmade(v@, r) { R::vfrom(v) }
impl<X> VFrom<X> for Vec<X> {
    open spec fn vmade(s: Seq<X>, r: Vec<X>) -> bool { r@ == s }
    fn vfrom(v: Vec<X>) -> (r: Vec<X>) { v }
}
pub trait VSliceV<X> {
    spec fn vsq(&self) -> Seq<X>;
    fn vslice_from(&self, a: usize) -> (r: &[X])
        requires a <= self.vsq().len()
        ensures r@ == self.vsq().skip(a as int);
}
impl<X> VSliceV<X> for Vec<X> {
    open spec fn vsq(&self) -> Seq<X> { self@ }
    #[verifier::external_body]
    fn vslice_from(&self, a: usize) -> (r: &[X]) { unimplemented!() }
}

pub proof fn lemma_union_len<X>(a: Set<X>, b: Set<X>)
    ensures a.union(b).len() >= a.len(), a.union(b).len() == a.len() <==> b.subset_of(a)
{
    vstd::set_lib::lemma_len_subset(a, a.union(b));
    if b.subset_of(a) { assert(a.union(b) =~= a); }
    if a.union(b).len() == a.len() { vstd::set_lib::lemma_subset_equality(a, a.union(b)); assert(a.union(b) == a); }
}
pub trait VDefault: Sized {
    spec fn is_default(x: Self) -> bool;
    fn vdefault() -> (r: Self) ensures Self::is_default(r);
}
impl VDefault for u16 { open spec fn is_default(x: u16) -> bool { x == 0 } fn vdefault() -> (r: u16) { 0 } }
impl<A: VDefault, B: VDefault> VDefault for (A, B) {
    open spec fn is_default(x: (A, B)) -> bool { A::is_default(x.0) && B::is_default(x.1) }
    fn vdefault() -> (r: (A, B)) { (A::vdefault(), B::vdefault()) }
}
pub fn vunwrap_or_default<X: VDefault>(o: Option<X>) -> (r: X) ensures match o { Some(x) => r == x, None => X::is_default(r) } {
    match o { Some(x) => x, None => X::vdefault() }
}
// ------------------------------------------------------------------ set
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct BSet<X> { s: std::collections::BTreeSet<X> }
pub open spec fn lists<X>(s: Seq<&X>, m: Set<X>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.contains(*#[trigger] s[i])
    &&& forall|x: X| #[trigger] m.contains(x) ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == x
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *#[trigger] s[i] != *#[trigger] s[j]
}
pub open spec fn ascending<X: VOrd>(s: Seq<&X>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (*#[trigger] s[i]).olt(*#[trigger] s[j])
}
impl<X: VOrd> BSet<X> {
    pub uninterp spec fn view(&self) -> Set<X>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Set::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r < 0x4000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<X>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &X) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: X) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, x: &X) -> (r: bool) ensures final(self)@ == old(self)@.remove(*x), r == old(self)@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn bitor(&self, o: &Self) -> (r: Self) ensures r@ == self@.union(o@) { unimplemented!() }
    #[verifier::external_body]
    pub fn union(&self, o: &Self) -> (r: Vec<&X>) ensures lists(r@, self@.union(o@)), ascending(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn intersection(&self, o: &Self) -> (r: Vec<&X>) ensures lists(r@, self@.intersect(o@)), ascending(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn difference(&self, o: &Self) -> (r: Vec<&X>) ensures lists(r@, self@.difference(o@)), ascending(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: Vec<&X>) ensures lists(r@, self@), ascending(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn from_iter(v: Vec<X>) -> (r: Self) ensures forall|x: X| #[trigger] r@.contains(x) <==> v@.contains(x) { unimplemented!() }
}
impl<'a, X: VOrd> VIntoIt for &'a BSet<X> {
    type It = &'a X;
    open spec fn into_of(self, r: Seq<&'a X>) -> bool { lists(r, self@) && ascending(r) }
    fn vinto_it(self) -> (r: Vec<&'a X>) { self.viter() }
}
impl<X: VOrd> VFrom<X> for BSet<X> {
    open spec fn vmade(s: Seq<X>, r: BSet<X>) -> bool { forall|x: X| #[trigger] r@.contains(x) <==> s.contains(x) }
    fn vfrom(v: Vec<X>) -> (r: BSet<X>) { BSet::from_iter(v) }
}
// a set is its elements
#[verifier::external_body]
pub proof fn axiom_bset_ext<X: VOrd>(a: BSet<X>, b: BSet<X>)
    requires a@ == b@
    ensures a == b
{ unimplemented!() }

// ------------------------------------------------------------------ map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct BMap<K, V> { m: std::collections::BTreeMap<K, V> }
pub open spec fn lists_map<K, V>(s: Seq<(&K, &V)>, m: Map<K, V>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> m.dom().contains(*(#[trigger] s[i]).0) && m[*s[i].0] == *s[i].1
    &&& forall|x: K| #[trigger] m.dom().contains(x) ==> exists|i: int| 0 <= i < s.len() && *(#[trigger] s[i]).0 == x
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> *(#[trigger] s[i]).0 != *(#[trigger] s[j]).0
}
pub open spec fn ascending_map<K: VOrd, V>(s: Seq<(&K, &V)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> (*(#[trigger] s[i]).0).olt(*(#[trigger] s[j]).0)
}
impl<K: VOrd, V> BMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn default() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.dom().len(), r < 0x4000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom() == Set::<K>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn index(&self, k: &K) -> (r: &V)
        requires self@.dom().contains(*k)
        ensures *r == self@[*k]
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            match r {
                Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn entry_or_default(&mut self, k: K) -> (r: &mut V)
        where V: VDefault
        ensures
            old(self)@.dom().contains(k) ==> *r == old(self)@[k],
            !old(self)@.dom().contains(k) ==> V::is_default(*r),
            final(self)@ == old(self)@.insert(k, *final(r)),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(x) => old(self)@.dom().contains(k) && x == old(self)@[k], None => !old(self)@.dom().contains(k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k),
            match r { Some(x) => old(self)@.dom().contains(*k) && x == old(self)@[*k], None => !old(self)@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: Vec<(&K, &V)>) ensures lists_map(r@, self@), ascending_map(r@), r@.len() == self@.dom().len(), r@.len() < 0x4000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn vkeys(&self) -> (r: Vec<&K>) ensures lists(r@, self@.dom()), ascending(r@) { unimplemented!() }
    #[verifier::external_body]
    pub fn vvalues(&self) -> (r: Vec<&V>)
        ensures
            r@.len() == self@.dom().len(), r@.len() < 0x4000_0000,
            forall|i: int| 0 <= i < r@.len() ==> exists|k: K| #[trigger] self@.dom().contains(k) && self@[k] == *#[trigger] r@[i],
            forall|k: K| #[trigger] self@.dom().contains(k) ==> exists|i: int| 0 <= i < r@.len() && *#[trigger] r@[i] == self@[k],
            values_in_order(r@, self@),
    { unimplemented!() }
    // later entries replace earlier ones
    #[verifier::external_body]
    pub fn from_iter(v: Vec<(K, V)>) -> (r: Self)
        ensures
            forall|k: K| #[trigger] r@.dom().contains(k) <==> exists|i: int| 0 <= i < v@.len() && (#[trigger] v@[i]).0 == k,
            forall|i: int| 0 <= i < v@.len() && (forall|j: int| i < j < v@.len() ==> (#[trigger] v@[j]).0 != v@[i].0) ==> r@[(#[trigger] v@[i]).0] == v@[i].1,
    { unimplemented!() }
}
#[verifier::external_body]
pub proof fn axiom_bmap_ext<K: VOrd, V>(a: BMap<K, V>, b: BMap<K, V>)
    requires a@ == b@
    ensures a == b
{ unimplemented!() }

// the values of a map in the order of their keys
#[verifier::opaque]
pub open spec fn values_in_order<K: VOrd, V>(r: Seq<&V>, m: Map<K, V>) -> bool {
    exists|l: Seq<(&K, &V)>| #[trigger] lists_map(l, m) && ascending_map(l) && l.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == *l[i].1
}
// ------------------------------------------------------------------ lalr1::OrderedSet (a wrapper of BTreeSet, see unit data)
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct OrderedSet<X> { s: std::collections::BTreeSet<X> }
impl<X: VOrd> OrderedSet<X> {
    pub uninterp spec fn view(&self) -> Set<X>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Set::<X>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len(), r < 0x4000_0000 { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@ == Set::<X>::empty()) { unimplemented!() }
    #[verifier::external_body]
    pub fn contains(&self, x: &X) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, x: X) -> (r: bool) ensures final(self)@ == old(self)@.insert(x), r == !old(self)@.contains(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn viter(&self) -> (r: Vec<&X>) ensures r@ == self.listing(), lists(r@, self@), ascending(r@), r@.len() == self@.len(), r@.len() < 0x4000_0000 { unimplemented!() }
    pub uninterp spec fn listing(&self) -> Seq<&X>;
    #[verifier::external_body]
    pub fn from_iter(v: Vec<X>) -> (r: Self) ensures forall|x: X| #[trigger] r@.contains(x) <==> v@.contains(x) { unimplemented!() }
}
impl<X: VOrd> VFrom<X> for OrderedSet<X> {
    open spec fn vmade(s: Seq<X>, r: OrderedSet<X>) -> bool { forall|x: X| #[trigger] r@.contains(x) <==> s.contains(x) }
    fn vfrom(v: Vec<X>) -> (r: OrderedSet<X>) { OrderedSet::from_iter(v) }
}
#[verifier::external_body]
pub proof fn axiom_oset_ext<X: VOrd>(a: OrderedSet<X>, b: OrderedSet<X>)
    requires a@ == b@
    ensures a == b
{ unimplemented!() }
} // mod bt
@end
