# Assumed contracts for the standard library types that the verified functions use.
# Everything marked external_body / admitted here is TRUSTED and listed in the evidence.
@map String=Str str=Str HashMap=HMap
@transparent Arc Rc RefCell Cell Box
@raw
use core::cmp::Ordering;
use vstd::seq::*;
use vstd::map::*;
use vstd::seq_lib::*;
pub use pre::*;
pub mod pre {
use vstd::prelude::*;
use core::cmp::Ordering;

// ------------------------------------------------------------------ strings (as UTF-8 byte sequences)
#[verifier::external_body]
pub struct Str { s: std::string::String }

pub open spec fn cont(b: u8) -> bool { 0x80 <= b && b < 0xC0 }
// the rule of str::is_char_boundary
pub open spec fn bound(s: Seq<u8>, i: int) -> bool {
    0 <= i <= s.len() && (i == 0 || i == s.len() || !cont(s[i]))
}
pub open spec fn width(b: u8) -> int { if b < 0x80 { 1 } else if b < 0xC0 { 0 } else if b < 0xE0 { 2 } else if b < 0xF0 { 3 } else { 4 } }
// a sequence of characters: lead byte followed by its continuation bytes
pub open spec fn utf8(s: Seq<u8>) -> bool
    decreases s.len()
{
    s.len() == 0 || {
        let w = width(s[0]);
        &&& w >= 1
        &&& w <= s.len()
        &&& (forall|j: int| 1 <= j < w ==> cont(#[trigger] s[j]))
        &&& utf8(s.skip(w))
    }
}
// what a text can be searched for
pub trait VPat { spec fn pat_ok(self) -> bool; spec fn inside(self, s: Seq<u8>) -> bool; }
impl VPat for char {
    open spec fn pat_ok(self) -> bool { (self as u32) < 128 }
    open spec fn inside(self, s: Seq<u8>) -> bool { exists|j: int| 0 <= j < s.len() && s[j] == self as u8 }
}
pub open spec fn has_text(s: Seq<u8>, p: Seq<u8>) -> bool { exists|i: int| 0 <= i && i + p.len() <= s.len() && #[trigger] s.subrange(i, i + p.len()) == p }
impl VPat for &Str {
    open spec fn pat_ok(self) -> bool { true }
    open spec fn inside(self, s: Seq<u8>) -> bool { has_text(s, self@) }
}
impl Str {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new() -> (r: Str) ensures r@ == Seq::<u8>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn vslice(&self, a: usize, b: usize) -> (r: &Str)
        requires a <= b <= self@.len(), bound(self@, a as int), bound(self@, b as int)
        ensures r@ == self@.subrange(a as int, b as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn vslice_from(&self, a: usize) -> (r: &Str)
        requires a <= self@.len(), bound(self@, a as int)
        ensures r@ == self@.skip(a as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_bytes(&self) -> (r: &[u8]) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn as_str(&self) -> (r: &Str) ensures r == self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string(&self) -> (r: Str) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn to_owned(&self) -> (r: Str) ensures r == *self { unimplemented!() }
    #[verifier::external_body]
    pub fn push_str(&mut self, o: &Str) ensures final(self)@ == old(self)@ + o@ { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, c: char) requires (c as u32) < 128 ensures final(self)@ == old(self)@.push(c as u8) { unimplemented!() }
    // position of the first occurrence of an ASCII character
    #[verifier::external_body]
    pub fn find(&self, c: char) -> (r: Option<usize>)
        requires (c as u32) < 128
        ensures
            match r {
                Some(i) => i < self@.len() && self@[i as int] == c as u8 && (forall|j: int| 0 <= j < i ==> self@[j] != c as u8),
                None => forall|j: int| 0 <= j < self@.len() ==> self@[j] != c as u8,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn contains<P: VPat>(&self, p: P) -> (r: bool)
        requires p.pat_ok()
        ensures r == p.inside(self@)
    { unimplemented!() }
    // byte offsets of the characters, in order
    #[verifier::external_body]
    pub fn vchar_indices(&self) -> (r: Vec<(usize, char)>)
        ensures
            forall|k: int| 0 <= k < r@.len() ==> (#[trigger] r@[k]).0 < self@.len() && bound(self@, r@[k].0 as int),
            forall|j: int, k: int| 0 <= j < k < r@.len() ==> (#[trigger] r@[j]).0 < (#[trigger] r@[k]).0,
            forall|i: int| 0 <= i < self@.len() && #[trigger] bound(self@, i) ==> exists|k: int| 0 <= k < r@.len() && #[trigger] r@[k].0 == i,
    { unimplemented!() }
}
// Every str is UTF-8 and no longer than isize::MAX bytes
#[verifier::external_body]
pub broadcast proof fn axiom_str(s: &Str)
    ensures utf8(#[trigger] s@), s@.len() < 0x4000_0000
{ unimplemented!() }
// a string is its bytes
#[verifier::external_body]
pub proof fn axiom_str_ext(a: &Str, b: &Str)
    requires a@ == b@
    ensures *a == *b
{ unimplemented!() }

// ------------------------------------------------------------------ clone, panic
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self) ensures r == *self;
}
impl<X> VClone for X {
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { unimplemented!() }
}
#[verifier::external_body]
pub fn vclone_ref<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vderef_clone<X>(x: &X) -> (r: X) ensures r == *x { unimplemented!() }
#[verifier::external_body]
pub fn vpanic() -> ! requires false { unimplemented!() }
pub fn vassert(b: bool) requires b {}
#[verifier::external_body]
pub fn vany_string() -> Str { unimplemented!() }
pub trait VOr<R>: Sized {
    fn vor(&mut self, r: R);
}
impl VOr<bool> for bool {
    fn vor(&mut self, r: bool) ensures *final(self) == (*old(self) || r) { if r { *self = true; } }
}

pub fn vto_vec<X>(a: &[X]) -> (r: Vec<X>) ensures r@ == a@ {
    let mut r = Vec::new();
    let mut i: usize = 0;
    while i < a.len() invariant i <= a@.len(), r@ == a@.take(i as int) decreases a@.len() - i {
        r.push(a[i].vclone());
        i = i + 1;
        proof { assert(a@.take(i as int) =~= a@.take(i - 1).push(a@[i - 1])); }
    }
    proof { assert(a@.take(a@.len() as int) =~= a@); }
    r
}
pub trait VInto<X>: Sized {
    spec fn vinto_is(self, r: X) -> bool;
    fn vinto(self) -> (r: X) ensures self.vinto_is(r);
}

// ------------------------------------------------------------------ iteration
#[verifier::external_body]
pub fn vget<X>(v: &Vec<X>, i: usize) -> (r: X) requires i < v@.len() ensures r == v@[i as int] { unimplemented!() }
#[verifier::external_body]
pub fn vchain<X>(a: Vec<X>, b: Vec<X>) -> (r: Vec<X>) ensures r@ == a@ + b@ { unimplemented!() }
#[verifier::external_body]
pub fn vrev<X>(a: Vec<X>) -> (r: Vec<X>)
    ensures r@.len() == a@.len(), forall|i: int| 0 <= i < a@.len() ==> #[trigger] r@[i] == a@[a@.len() - 1 - i]
{ unimplemented!() }
pub trait VIter<I> {
    spec fn vseq(&self) -> Seq<I>;
    fn viter(&self) -> (r: Vec<&I>)
        ensures r@.len() == self.vseq().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.vseq()[i];
}
impl<I> VIter<I> for [I] {
    open spec fn vseq(&self) -> Seq<I> { self@ }
    #[verifier::external_body]
    fn viter(&self) -> (r: Vec<&I>) { unimplemented!() }
}
impl<I> VIter<I> for Vec<I> {
    open spec fn vseq(&self) -> Seq<I> { self@ }
    #[verifier::external_body]
    fn viter(&self) -> (r: Vec<&I>) { unimplemented!() }
}

// `for x in y` for what y may be
pub trait VIntoIt: Sized {
    type It;
    spec fn into_of(self, r: Seq<Self::It>) -> bool;
    fn vinto_it(self) -> (r: Vec<Self::It>) ensures self.into_of(r@);
}
impl<X> VIntoIt for Vec<X> {
    type It = X;
    open spec fn into_of(self, r: Seq<X>) -> bool { r == self@ }
    fn vinto_it(self) -> (r: Vec<X>) { self }
}
impl<'a, X> VIntoIt for &'a Vec<X> {
    type It = &'a X;
    open spec fn into_of(self, r: Seq<&'a X>) -> bool { r.len() == self@.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == self@[i] }
    fn vinto_it(self) -> (r: Vec<&'a X>) { self.viter() }
}
impl<'a, X> VIntoIt for &'a [X] {
    type It = &'a X;
    open spec fn into_of(self, r: Seq<&'a X>) -> bool { r.len() == self@.len() && forall|i: int| 0 <= i < r.len() ==> *(#[trigger] r[i]) == self@[i] }
    fn vinto_it(self) -> (r: Vec<&'a X>) { self.viter() }
}

// ------------------------------------------------------------------ binary search in sorted vectors
// "sorted" by the (lawful, total) order of the elements
pub uninterp spec fn vsorted<X>(s: Seq<X>) -> bool;
#[verifier::external_body]
pub broadcast proof fn axiom_vsorted_short<X>(s: Seq<X>)
    requires s.len() <= 1
    ensures #[trigger] vsorted(s)
{ unimplemented!() }
pub trait VSearch<X> {
    fn vbinary_search(&self, x: &X) -> (r: Result<usize, usize>);
}
impl<X> VSearch<X> for Vec<X> {
    #[verifier::external_body]
    fn vbinary_search(&self, x: &X) -> (r: Result<usize, usize>)
        ensures
            vsorted(self@) ==> match r {
                Ok(i) => i < self@.len() && self@[i as int] == *x,
                Err(i) => i <= self@.len() && !self@.contains(*x) && vsorted(self@.insert(i as int, *x)),
            }
    { unimplemented!() }
}

// ------------------------------------------------------------------ hash map
#[verifier::external_body]
#[verifier::reject_recursive_types(K)]
#[verifier::accept_recursive_types(V)]
pub struct HMap<K, V> { m: std::collections::HashMap<K, V> }
impl<K, V> HMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Map::<K, V>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &K) -> (r: bool) ensures r == self@.dom().contains(*k) { unimplemented!() }
    #[verifier::external_body]
    pub fn get(&self, k: &K) -> (r: Option<&V>)
        ensures match r { Some(v) => self@.dom().contains(*k) && *v == self@[*k], None => !self@.dom().contains(*k) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures
            match r {
                Some(v) => old(self)@.dom().contains(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)),
                None => !old(self)@.dom().contains(*k) && final(self)@ == old(self)@,
            }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn insert(&mut self, k: K, v: V) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.insert(k, v),
            match r { Some(x) => old(self)@.dom().contains(k) && x == old(self)@[k], None => !old(self)@.dom().contains(k) }
    { unimplemented!() }
}
} // mod pre
@end
