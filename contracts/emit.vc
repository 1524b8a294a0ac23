# Contracts for the text of the generated parser (lalr1_lib and alalr1_lib): ${DIR}
# What the text must be is stated over the tables of the automaton (the contracts of auto.vc, which are verified in
# that file's own unit and only used here). It is a sufficient condition for the text to mean the tables: other text
# with the same meaning is not excluded by the property, so a rejection here is followed by the bounded comparison of
# the meaning (harness/gen) and is not an alarm of its own.
@import auto.vc
@litsopaque
@raw
// ------------------------------------------------------------------ listings
pub open spec fn strict<X: VOrd>() -> bool {
    &&& forall|a: X| !#[trigger] a.olt(a)
    &&& forall|a: X, b: X, c: X| #[trigger] a.olt(b) && #[trigger] b.olt(c) ==> a.olt(c)
}
// the orders of the keys are strict orders (derived or total orders of identifiers)
#[verifier::external_body]
pub proof fn axiom_strict<X: VOrd>()
    ensures strict::<X>()
{ unimplemented!() }
pub open spec fn in_order<X: VOrd>(l: Seq<&X>, m: Set<X>) -> bool { lists(l, m) && ascending(l) }
pub open spec fn in_order_map<K: VOrd, V>(l: Seq<(&K, &V)>, m: Map<K, V>) -> bool { lists_map(l, m) && ascending_map(l) }
// the listing of a set, of a map
pub open spec fn asc<'a, X: VOrd>(m: Set<X>) -> Seq<&'a X> { choose|l: Seq<&'a X>| in_order(l, m) }
pub open spec fn asc_map<'a, K: VOrd, V>(m: Map<K, V>) -> Seq<(&'a K, &'a V)> { choose|l: Seq<(&'a K, &'a V)>| in_order_map(l, m) }
pub proof fn lemma_listed_at<X: VOrd>(a: Seq<&X>, b: Seq<&X>, m: Set<X>, i: int)
    requires in_order(a, m), in_order(b, m), 0 <= i < a.len()
    ensures i < b.len(), a[i] == b[i]
    decreases i
{
    axiom_strict::<X>();
    assert forall|j: int| 0 <= j < i implies j < b.len() && a[j] == b[j] by { lemma_listed_at(a, b, m, j); }
    let k = choose|k: int| 0 <= k < b.len() && *(#[trigger] b[k]) == *a[i];
    if k < i { assert(a[k] == b[k]); assert(*a[k] != *a[i]); }
    if k > i {
        assert((*b[i]).olt(*b[k]));
        assert(m.contains(*b[i]));
        let q = choose|q: int| 0 <= q < a.len() && *(#[trigger] a[q]) == *b[i];
        if q < i { assert(a[q] == b[q]); assert(*b[q] != *b[i]); }
        else if q > i { assert((*a[i]).olt(*a[q])); assert((*b[i]).olt(*b[i])); }
        else { assert((*b[i]).olt(*b[i])); }
    }
}
pub proof fn lemma_listed<X: VOrd>(a: Seq<&X>, m: Set<X>)
    requires in_order(a, m)
    ensures a == asc(m)
{
    let b = asc(m);
    assert(in_order(b, m));
    if b.len() > a.len() { lemma_listed_at(b, a, m, a.len() as int); }
    if a.len() > b.len() { lemma_listed_at(a, b, m, b.len() as int); }
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by { lemma_listed_at(a, b, m, i); }
    assert(a =~= b);
}
// every set has a listing
#[verifier::external_body]
pub proof fn axiom_listing<X: VOrd>(s: OrderedSet<X>)
    ensures exists|l: Seq<&X>| in_order(l, s@)
{ unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_map_listing<K: VOrd, V>(s: BMap<K, V>)
    ensures exists|l: Seq<(&K, &V)>| in_order_map(l, s@)
{ unimplemented!() }
pub open spec fn keys<'a, K, V>(l: Seq<(&'a K, &'a V)>) -> Seq<&'a K> { Seq::new(l.len(), |i: int| l[i].0) }
pub proof fn lemma_keys_listed<K: VOrd, V>(a: Seq<(&K, &V)>, m: Map<K, V>)
    requires in_order_map(a, m)
    ensures in_order(keys(a), m.dom())
{
    let k = keys(a);
    assert forall|i: int| 0 <= i < k.len() implies m.dom().contains(*#[trigger] k[i]) by { assert(m.dom().contains(*a[i].0)); }
    assert forall|x: K| #[trigger] m.dom().contains(x) implies exists|i: int| 0 <= i < k.len() && *#[trigger] k[i] == x by {
        let i = choose|i: int| 0 <= i < a.len() && *(#[trigger] a[i]).0 == x;
        assert(*k[i] == x);
    }
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies *#[trigger] k[i] != *#[trigger] k[j] by { assert(*a[i].0 != *a[j].0); }
    assert forall|i: int, j: int| 0 <= i < j < k.len() implies (*#[trigger] k[i]).olt(*#[trigger] k[j]) by { assert((*a[i].0).olt(*a[j].0)); }
}
pub proof fn lemma_listed_map<K: VOrd, V>(a: Seq<(&K, &V)>, m: Map<K, V>)
    requires in_order_map(a, m)
    ensures a == asc_map(m)
{
    let b = asc_map(m);
    assert(in_order_map(b, m));
    lemma_keys_listed(a, m);
    lemma_keys_listed(b, m);
    lemma_listed(keys(a), m.dom());
    lemma_listed(keys(b), m.dom());
    assert(keys(a) == keys(b));
    assert(keys(a).len() == a.len() && keys(b).len() == b.len());
    assert(a.len() == b.len());
    assert forall|i: int| 0 <= i < a.len() implies #[trigger] a[i] == b[i] by {
        assert(keys(a)[i] == keys(b)[i]);
        assert(a[i].0 == b[i].0);
        assert(m[*a[i].0] == *a[i].1);
        assert(m[*b[i].0] == *b[i].1);
        assert(a[i].1 == b[i].1);
    }
    assert(a =~= b);
}

// ------------------------------------------------------------------ text
pub uninterp spec fn dec(n: int) -> Seq<u8>;
pub trait VDisp {
    spec fn disp(&self) -> Seq<u8>;
    fn vdisp(&self) -> (r: Str) ensures r@ == self.disp();
}
impl VDisp for usize {
    open spec fn disp(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl VDisp for u32 {
    open spec fn disp(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl VDisp for ProductionId {
    open spec fn disp(&self) -> Seq<u8> { dec(self.0 as int) }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl VDisp for Str {
    open spec fn disp(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
// the description of a production (a comment in the text)
pub uninterp spec fn prod_text(p: Production) -> Seq<u8>;
// the predicate and the action with their place holders replaced (what that means is proved in the unit spec, C15)
pub uninterp spec fn pred_text(p: Production) -> Seq<u8>;
pub uninterp spec fn act_text(p: Production) -> Option<Seq<u8>>;
impl VDisp for Production {
    open spec fn disp(&self) -> Seq<u8> { prod_text(*self) }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl<X: VDisp> VDisp for &X {
    open spec fn disp(&self) -> Seq<u8> { (**self).disp() }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
pub broadcast proof fn lemma_empty_plus(a: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + a) == a
{ assert(Seq::<u8>::empty() + a =~= a); }

impl<'a, X: VOrd> VIntoIt for &'a OrderedSet<X> {
    type It = &'a X;
    open spec fn into_of(self, r: Seq<&'a X>) -> bool { in_order(r, self@) }
    #[verifier::external_body]
    fn vinto_it(self) -> (r: Vec<&'a X>) { unimplemented!() }
}

// what is written, as long as nothing goes wrong
#[verifier::external_body]
pub struct IoError { x: u8 }
#[verifier::external_body]
pub struct Wtr { x: u8 }
pub trait VBytes { spec fn bytes(self) -> Seq<u8>; }
impl VBytes for &Str { open spec fn bytes(self) -> Seq<u8> { self@ } }
impl VBytes for &[u8] { open spec fn bytes(self) -> Seq<u8> { self@ } }
impl Wtr {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn write_all<B: VBytes>(&mut self, b: B) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self)@ == old(self)@ + b.bytes() { unimplemented!() }
    #[verifier::external_body]
    pub fn vwrite_str(&mut self, s: Str) -> (r: Result<(), IoError>)
        ensures r is Ok ==> final(self)@ == old(self)@ + s@ { unimplemented!() }
}

// ------------------------------------------------------------------ the tables
// the reductions of a set of items: what can be reduced on which tokens
pub open spec fn is_reductions(m: Map<GrammarItemKey, TokenSet>, r: Map<OrderedSet<Production>, TokenSet>) -> bool {
    &&& forall|t: Token| #[trigger] reduces_on(m, t) ==> has_reduction(r, t)
    &&& forall|q: OrderedSet<Production>, t: Token| #[trigger] r.dom().contains(q) && #[trigger] r[q]@.contains(t) ==> all_reduced(m, t, q@) && reduces_on(m, t)
    &&& forall|q: OrderedSet<Production>| #[trigger] r.dom().contains(q) ==> r[q]@ != Set::<Token>::empty()
}
pub open spec fn reductions_of(m: Map<GrammarItemKey, TokenSet>) -> Map<OrderedSet<Production>, TokenSet> {
    choose|r: Map<OrderedSet<Production>, TokenSet>| is_reductions(m, r)
}
pub proof fn lemma_same_group(m: Map<GrammarItemKey, TokenSet>, t: Token, q: OrderedSet<Production>, p: OrderedSet<Production>)
    requires all_reduced(m, t, q@), all_reduced(m, t, p@)
    ensures q == p
{
    assert forall|x: Production| q@.contains(x) <==> p@.contains(x) by { }
    assert(q@ =~= p@);
    axiom_oset_ext(q, p);
}
pub proof fn lemma_reductions_sub(m: Map<GrammarItemKey, TokenSet>, a: Map<OrderedSet<Production>, TokenSet>, b: Map<OrderedSet<Production>, TokenSet>, q: OrderedSet<Production>, t: Token)
    requires is_reductions(m, a), is_reductions(m, b), a.dom().contains(q), a[q]@.contains(t)
    ensures b.dom().contains(q), b[q]@.contains(t)
{
    assert(all_reduced(m, t, q@) && reduces_on(m, t));
    assert(has_reduction(b, t));
    let p = choose|p: OrderedSet<Production>| #[trigger] b.dom().contains(p) && b[p]@.contains(t);
    assert(all_reduced(m, t, p@));
    lemma_same_group(m, t, q, p);
}
pub proof fn lemma_reductions(m: Map<GrammarItemKey, TokenSet>, a: Map<OrderedSet<Production>, TokenSet>)
    requires is_reductions(m, a)
    ensures a == reductions_of(m)
{
    let b = reductions_of(m);
    assert(is_reductions(m, b));
    assert forall|q: OrderedSet<Production>| a.dom().contains(q) implies b.dom().contains(q) && a[q] == b[q] by {
        if !(exists|t: Token| a[q]@.contains(t)) { assert(a[q]@ =~= Set::<Token>::empty()); }
        let t = choose|t: Token| a[q]@.contains(t);
        lemma_reductions_sub(m, a, b, q, t);
        assert forall|t: Token| a[q]@.contains(t) <==> b[q]@.contains(t) by {
            if a[q]@.contains(t) { lemma_reductions_sub(m, a, b, q, t); }
            if b[q]@.contains(t) { lemma_reductions_sub(m, b, a, q, t); }
        }
        assert(a[q]@ =~= b[q]@);
        lemma_tset_ext(a[q], b[q]);
    }
    assert forall|q: OrderedSet<Production>| b.dom().contains(q) implies a.dom().contains(q) by {
        if !(exists|t: Token| b[q]@.contains(t)) { assert(b[q]@ =~= Set::<Token>::empty()); }
        let t = choose|t: Token| b[q]@.contains(t);
        lemma_reductions_sub(m, b, a, q, t);
    }
    assert(a.dom() =~= b.dom());
    assert(a =~= b);
}
// the look ahead set of a state
pub open spec fn look_ahead_of(h: Cells, s: u32) -> Set<Token> { choose|l: Set<Token>| is_look_ahead(h, s, l) }
pub broadcast proof fn lemma_look_ahead(h: Cells, s: u32, l: Set<Token>)
    requires #[trigger] is_look_ahead(h, s, l)
    ensures l == look_ahead_of(h, s)
{
    let b = look_ahead_of(h, s);
    assert(is_look_ahead(h, s, b));
    assert forall|t: Token| l.contains(t) <==> b.contains(t) by { }
    assert(l =~= b);
}
// the states a token can be recovered in
pub open spec fn is_recovery(h: Cells, ps: Seq<ParserState>, t: Token, l: Set<u32>) -> bool {
    forall|n: u32| #[trigger] l.contains(n) <==> exists|c: int| 0 <= c < ps.len() && (#[trigger] ps[c]).id() == n && recovers_in(h, n, t)
}
pub open spec fn recovery_of(h: Cells, ps: Seq<ParserState>, t: Token) -> Set<u32> { choose|l: Set<u32>| is_recovery(h, ps, t, l) }
pub proof fn lemma_recovery(h: Cells, ps: Seq<ParserState>, t: Token, l: Set<u32>)
    requires is_recovery(h, ps, t, l)
    ensures l == recovery_of(h, ps, t)
{
    let b = recovery_of(h, ps, t);
    assert(is_recovery(h, ps, t, b));
    assert forall|n: u32| l.contains(n) <==> b.contains(n) by { }
    assert(l =~= b);
}
pub open spec fn allocated_all(h: Cells, ps: Seq<ParserState>) -> bool {
    forall|c: int| 0 <= c < ps.len() ==> h.has((#[trigger] ps[c]).id()) && (h.recov[ps[c].id()] matches Some(s) ==> h.has(s.id()))
}

// ------------------------------------------------------------------ the text of the tables
pub open spec fn sep_names(w: Seq<u8>, sep: Seq<u8>, l: Seq<&Token>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else if n == 1 { w + tok_name(*l[0]) } else { sep_names(w, sep, l, n - 1) + (sep + tok_name(*l[n - 1])) }
}
pub open spec fn macro_text(s: Set<Token>) -> Seq<u8> { sep_names(t"ordered_set![", t", ", asc(s), asc(s).len() as int) + t"]" }
pub open spec fn or_text(s: Set<Token>) -> Seq<u8> { sep_names(t"", t" | ", asc(s), asc(s).len() as int) }
pub open spec fn sep_numbers(w: Seq<u8>, l: Seq<&u32>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else if n == 1 { w + dec(*l[0] as int) } else { sep_numbers(w, l, n - 1) + (t", " + dec(*l[n - 1] as int)) }
}
pub open spec fn numbers_text(s: Set<u32>) -> Seq<u8> { sep_numbers(t"ordered_set![", asc(s), asc(s).len() as int) + t"]" }

pub open spec fn shift_lines(w: Seq<u8>, ind: Seq<u8>, l: Seq<(&Token, &ParserState)>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { shift_lines(w, ind, l, n - 1) + (ind + t"    " + tok_name(*l[n - 1].0) + t" => Action::Shift(" + dec((*l[n - 1].1).id() as int) + t"),\n") }
}
@end
@if AUG=0
@raw
pub open spec fn production_lines(w: Seq<u8>, ind: Seq<u8>, l: Seq<&Production>, s: Set<Token>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let p = *l[n - 1];
        let v = production_lines(w, ind, l, s, n - 1) + (ind + t"    // " + prod_text(p) + t"\n");
        if p.id() == 0 { v + (ind + t"    " + or_text(s) + t" => Action::Accept,\n") } else { v + (ind + t"    " + or_text(s) + t" => Action::Reduce(" + dec(p.id() as int) + t"),\n") }
    }
}
pub open spec fn reduction_lines(w: Seq<u8>, ind: Seq<u8>, l: Seq<(&OrderedSet<Production>, &TokenSet)>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let ps = asc((*l[n - 1].0)@);
        production_lines(reduction_lines(w, ind, l, n - 1), ind, ps, (*l[n - 1].1)@, ps.len() as int)
    }
}
@end
@endif
@if AUG=1
@raw
// what guards the reduction, in the order of the productions: all but the last of a group have a predicate
pub open spec fn branch_head(ind: Seq<u8>, p: Production, first: bool) -> Seq<u8> {
    if first { ind + t"        if " + pred_text(p) + t" {\n" }
    else if p.pred() { ind + t"        } else if " + pred_text(p) + t" {\n" }
    else { ind + t"        } else {\n" }
}
pub open spec fn branches(w: Seq<u8>, ind: Seq<u8>, l: Seq<&Production>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let p = *l[n - 1];
        let v = branches(w, ind, l, n - 1) + branch_head(ind, p, n == 1) + (ind + t"            // " + prod_text(p) + t"\n");
        if p.id() == 0 { v + (ind + t"            Action::Accept\n") } else { v + (ind + t"            Action::Reduce(" + dec(p.id() as int) + t")\n") }
    }
}
pub open spec fn all_pred(l: Seq<&Production>) -> bool { forall|i: int| 0 <= i < l.len() ==> (*#[trigger] l[i]).pred() }
pub open spec fn group_text(w: Seq<u8>, ind: Seq<u8>, l: Seq<&Production>, s: Set<Token>) -> Seq<u8> {
    if l.len() == 1 && !(*l[0]).pred() {
        let p = *l[0];
        let v = w + (ind + t"    // " + prod_text(p) + t"\n");
        if p.id() == 0 { v + (ind + t"    " + or_text(s) + t" => Action::Accept,\n") } else { v + (ind + t"    " + or_text(s) + t" => Action::Reduce(" + dec(p.id() as int) + t"),\n") }
    } else {
        let v = branches(w + (ind + t"    " + or_text(s) + t" => {\n"), ind, l, l.len() as int);
        let x = if all_pred(l) { v + (ind + t"        } else {\n") + (ind + t"            Action::SyntaxError\n") } else { v };
        x + (ind + t"        }\n") + (ind + t"    }\n")
    }
}
pub open spec fn reduction_lines(w: Seq<u8>, ind: Seq<u8>, l: Seq<(&OrderedSet<Production>, &TokenSet)>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { group_text(reduction_lines(w, ind, l, n - 1), ind, asc((*l[n - 1].0)@), (*l[n - 1].1)@) }
}
@end
@endif
@raw
// among the productions that can be reduced on a token, in their order, all but the last have a predicate
pub open spec fn guarded(m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey, j: GrammarItemKey, t: Token| #[trigger] claims(m, i, t) && #[trigger] claims(m, j, t) && i.production.olt(j.production) ==> i.production.pred()
}
// the resolution of the conflicts sees to it
pub proof fn lemma_guarded(m: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>)
    requires rr_resolved(m, m2, left)
    ensures guarded(m2)
{
    assert forall|i: GrammarItemKey, j: GrammarItemKey, t: Token| #[trigger] claims(m2, i, t) && #[trigger] claims(m2, j, t) && i.production.olt(j.production) implies i.production.pred() by {
        assert(m.dom().contains(i) && m.dom().contains(j));
        assert(m2[i]@.contains(t) && m2[j]@.contains(t));
        assert(claims(m, i, t) && claims(m, j, t));
        assert(i.olt(j));
        if plain(i) { assert(beaten(m, j, t)); }
        if yielding(i) { assert(gives_way(m, i, t)); }
    }
}
pub proof fn lemma_group_guarded(m: Map<GrammarItemKey, TokenSet>, q: Set<Production>, t: Token, l: Seq<&Production>)
    requires guarded(m), all_reduced(m, t, q), reduces_on(m, t), in_order(l, q)
    ensures l.len() > 0, forall|a: int| 0 <= a < l.len() - 1 ==> (*#[trigger] l[a]).pred()
{
    let k = choose|k: GrammarItemKey| #[trigger] m.dom().contains(k) && k.red() && m[k]@.contains(t);
    assert(q.contains(k.production));
    let i = choose|i: int| 0 <= i < l.len() && *(#[trigger] l[i]) == k.production;
    assert forall|a: int| 0 <= a < l.len() - 1 implies (*#[trigger] l[a]).pred() by {
        let b = a + 1;
        assert(q.contains(*l[a]) && q.contains(*l[b]));
        let x = choose|x: GrammarItemKey| #[trigger] m.dom().contains(x) && x.red() && m[x]@.contains(t) && x.production == *l[a];
        let y = choose|y: GrammarItemKey| #[trigger] m.dom().contains(y) && y.red() && m[y]@.contains(t) && y.production == *l[b];
        assert(claims(m, x, t) && claims(m, y, t));
        assert((*l[a]).olt(*l[b]));
    }
}
pub open spec fn action_text(w: Seq<u8>, ind: Seq<u8>, h: Cells, s: u32) -> Seq<u8> {
    let sh = asc_map(h.shifts[s]@);
    let rd = asc_map(reductions_of(h.items[s]@));
    let a = shift_lines(w + (ind + dec(s as int) + t" => match aa_tag {\n"), ind, sh, sh.len() as int);
    reduction_lines(a, ind, rd, rd.len() as int) + (ind + t"    _ => Action::SyntaxError,\n") + (ind + t"},\n")
}
pub open spec fn goto_lines(w: Seq<u8>, ind: Seq<u8>, l: Seq<(&NonTerminal, &ParserState)>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { goto_lines(w, ind, l, n - 1) + (ind + t"    AANonTerminal::" + nt_name(*l[n - 1].0) + t" => " + dec((*l[n - 1].1).id() as int) + t",\n") }
}
pub open spec fn goto_text(w: Seq<u8>, ind: Seq<u8>, h: Cells, s: u32) -> Seq<u8> {
    let l = asc_map(h.gotos[s]@);
    if h.gotos[s]@.dom() == Set::<NonTerminal>::empty() { w } else {
        goto_lines(w + (ind + dec(s as int) + t" => match lhs {\n"), ind, l, l.len() as int) + (ind + t"    _ => panic!(\"Malformed goto table: ({lhs}, {current_state})\"),\n") + (ind + t"},\n")
    }
}
@end
@if AUG=1
@fn Production::expanded_predicate
%opt trusted
%ensures match r { Some(s) => self.pred() && s@ == pred_text(*self), None => !self.pred() }
@endif
@fn Production::expanded_action
%opt trusted
%ensures match r { Some(s) => act_text(*self) == Some(s@), None => act_text(*self) is None }
@fn TokenSet::formated_as_macro_call
%opt fmt
%at start: broadcast use lemma_empty_plus;
%ensures r@ == macro_text(self@)
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@ == asc(self@), string@ == sep_names(t"ordered_set![", t", ", asc(self@), __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { lemma_listed(__it1@, self@); }
@fn TokenSet::formated_as_or_list
%opt fmt
%at start: broadcast use lemma_empty_plus;
%ensures r@ == or_text(self@)
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@ == asc(self@), string@ == sep_names(t"", t" | ", asc(self@), __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { lemma_listed(__it1@, self@); }
@fn Reductions::reductions
%ensures in_order_map(r@, self.reductions@)
@fn ParserState::write_next_action_code
%opt heap nogen fmt intoiter
%attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires vh@.has(self.id()), guarded(vh@.items[self.id()]@)
%ensures r is Ok ==> final(wtr)@ == action_text(old(wtr)@, indent@, vh@, self.id())
%at start: broadcast use lemma_empty_plus;
%at let reductions: proof { lemma_reductions(vh@.items[self.id()]@, reductions.reductions@); }
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@ == asc_map(vh@.shifts[self.id()]@),
    wtr@ == shift_lines(old(wtr)@ + (indent@ + dec(self.id() as int) + t" => match aa_tag {\n"), indent@, __it1@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { lemma_listed_map(__it1@, vh@.shifts[self.id()]@); } let ghost w1 = wtr@;
%loop 2 invariant
    __i2 <= __it2@.len(), __it2@ == asc_map(reductions.reductions@),
    wtr@ == reduction_lines(w2, indent@, __it2@, __i2 as int),
%loop 2 decreases __it2.len() - __i2
%at loop 2 before: proof { lemma_listed_map(__it2@, reductions.reductions@); } let ghost w2 = wtr@;
@if AUG=0
%loop 3 invariant
    __i3 <= __it3@.len(), __it3@ == asc(productions@),
    wtr@ == production_lines(w3, indent@, __it3@, look_ahead_set@, __i3 as int),
%loop 3 decreases __it3.len() - __i3
%at loop 3 before: proof { lemma_listed(__it3@, productions@); } let ghost w3 = wtr@;
@endif
@if AUG=1
%at loop 2 start: let ghost g0 = wtr@; let ghost l = asc((*__it2@[__i2 - 1].0)@); let ghost gt = (*__it2@[__i2 - 1].1)@; proof {
    let (q, ts) = __it2@[__i2 - 1];
    assert(reductions.reductions@.dom().contains(*q));
    assert(is_reductions(vh@.items[self.id()]@, reductions.reductions@));
    if !(exists|t: Token| ts@.contains(t)) { assert(ts@ =~= Set::<Token>::empty()); }
    let t = choose|t: Token| ts@.contains(t);
    let v = choose|v: Seq<&Production>| in_order(v, q@);
    axiom_listing(*q);
    lemma_listed(v, q@);
    lemma_group_guarded(vh@.items[self.id()]@, q@, t, l);
  }
%loop 3 invariant
    __i3 <= __it3@.len(), __it3@ == l,
%loop 3 invariant_except_break
    !__r3, forall|a: int| 0 <= a < __i3 ==> !(*#[trigger] l[a]).pred(),
%loop 3 ensures
    __r3 <==> exists|a: int| 0 <= a < l.len() && (*#[trigger] l[a]).pred(),
%loop 3 decreases __it3.len() - __i3
%at loop 3 before: proof { lemma_listed(__it3@, productions@); }
%loop 4 invariant
    __i4 <= __it4@.len(), __it4@ == l,
%loop 4 invariant_except_break
    __i4 == 0,
%loop 4 ensures
    __r4 == Some(l[0]),
%loop 4 decreases __it4.len() - __i4
%at loop 4 before: proof { lemma_listed(__it4@, productions@); }
%loop 5 invariant
    __i5 <= __it5@.len(), __it5@ == l,
    wtr@ == branches(g0 + (indent@ + t"    " + or_text(gt) + t" => {\n"), indent@, l, __i5 as int),
%loop 5 decreases __it5.len() - __i5
%at loop 5 before: proof { lemma_listed(__it5@, productions@); }
%loop 6 invariant
    __i6 <= __it6@.len(), __it6@ == l,
%loop 6 invariant_except_break
    __r6, forall|a: int| 0 <= a < __i6 ==> (*#[trigger] l[a]).pred(),
%loop 6 ensures
    __r6 <==> all_pred(l),
%loop 6 decreases __it6.len() - __i6
%at loop 6 before: proof { lemma_listed(__it6@, productions@); }
@endif
@fn ParserState::write_goto_table_code
%opt heap nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires vh@.has(self.id())
%ensures r is Ok ==> final(wtr)@ == goto_text(old(wtr)@, indent@, vh@, self.id())
%at start: broadcast use lemma_empty_plus;
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@ == asc_map(vh@.gotos[self.id()]@),
    wtr@ == goto_lines(w1, indent@, __it1@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { lemma_listed_map(__it1@, vh@.gotos[self.id()]@); } let ghost w1 = wtr@;

# ---------------------------------------------------------------- the tables of the whole parser
@raw
pub open spec fn vals<'a, K: VOrd, V>(m: Map<K, V>) -> Seq<V> { Seq::new(asc_map(m).len(), |i: int| *asc_map(m)[i].1) }
// what a sequence of references refers to
pub open spec fn are<X>(r: Seq<&X>, s: Seq<X>) -> bool { r.len() == s.len() && forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == s[i] }
pub broadcast proof fn lemma_vals<K: VOrd, V>(r: Seq<&V>, m: Map<K, V>)
    requires #[trigger] values_in_order(r, m)
    ensures are(r, vals(m))
{
    reveal(values_in_order);
    let l = choose|l: Seq<(&K, &V)>| #[trigger] lists_map(l, m) && ascending_map(l) && l.len() == r.len() && forall|i: int| 0 <= i < r.len() ==> *#[trigger] r[i] == *l[i].1;
    lemma_listed_map(l, m);
}
pub open spec fn all_tokens(st: SymbolTable) -> Seq<Token> { seq![Token::End] + vals(st.tokens@) }
pub open spec fn states_fit(h: Cells, ps: Seq<ParserState>) -> bool {
    forall|c: int| 0 <= c < ps.len() ==> {
        &&& h.has((#[trigger] ps[c]).id())
        &&& h.recov[ps[c].id()] matches Some(s) ==> h.has(s.id())
        &&& guarded(h.items[ps[c].id()]@)
    }
}
// what the construction of the automaton leaves is fit to be written
pub proof fn lemma_built_fits(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, sr: u32, rr: u32)
    requires built(g, h, ps, sr, rr)
    ensures states_fit(h, ps)
{
    let h0 = choose|h0: Cells| #[trigger] lalr(g, h0, ps) && resolved(h0, h, ps, ps.len() as int);
    assert forall|c: int| 0 <= c < ps.len() implies h.has((#[trigger] ps[c]).id()) && (h.recov[ps[c].id()] matches Some(s) ==> h.has(s.id())) && guarded(h.items[ps[c].id()]@) by {
        let s = ps[c].id();
        assert(state_resolved(h0, h, s));
        let mid = choose|mid: Map<GrammarItemKey, TokenSet>| #[trigger] sr_resolved(items(h0, s), h0.shifts[s]@, mid, h.shifts[s]@, h.sr[s]@) && rr_resolved(mid, items(h, s), h.rr[s]@);
        lemma_guarded(mid, items(h, s), h.rr[s]@);
        if let Some(q) = h.recov[s] {
            assert(only(h0, s));
            let n = choose|n: NonTerminal| #[trigger] h0.gotos[s]@.dom().contains(n) && n is Error && h0.gotos[s]@[n] == q;
            assert(trans_exact(g, h0, ps, ps[c].id(), Symbol::NonTerminal(n)));
            assert(state_resolved(h0, h, ps[q.id() as int].id()));
        }
    }
}
// the tokens that can be recovered on, and where
pub open spec fn rec_list(h: Cells, ps: Seq<ParserState>, l: Seq<Token>, n: int) -> Seq<(Seq<u8>, Set<u32>)>
    decreases n
{
    if n <= 0 { Seq::empty() } else {
        let s = recovery_of(h, ps, l[n - 1]);
        if s == Set::<u32>::empty() { rec_list(h, ps, l, n - 1) } else { rec_list(h, ps, l, n - 1).push((tok_name(l[n - 1]), s)) }
    }
}
pub open spec fn rec_gap(h: Cells, ps: Seq<ParserState>, l: Seq<Token>, n: int) -> bool { exists|i: int| 0 <= i < n && recovery_of(h, ps, #[trigger] l[i]) == Set::<u32>::empty() }
pub open spec fn rec_lines(w: Seq<u8>, l: Seq<(Seq<u8>, Set<u32>)>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { rec_lines(w, l, n - 1) + (t"            AATerminal::" + l[n - 1].0 + t" => " + numbers_text(l[n - 1].1) + t",\n") }
}
pub open spec fn err_goto_lines(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let v = err_goto_lines(w, h, ps, n - 1);
        match h.recov[ps[n - 1].id()] { Some(s) => v + (t"            " + dec(ps[n - 1].id() as int) + t" => " + dec(s.id() as int) + t",\n"), None => v }
    }
}
@end
@if AUG=0
@raw
pub open spec fn no_goto_text() -> Seq<u8> { t"            _ => panic!(\"No error go to state for {}\", state),\n" }
@end
@endif
@if AUG=1
@raw
pub open spec fn no_goto_text() -> Seq<u8> { t"            _ => panic!(\"No error go to state for {state}\")\n" }
@end
@endif
@raw
pub open spec fn recovery_text(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, st: SymbolTable) -> Seq<u8> {
    let ts = all_tokens(st);
    let l = rec_list(h, ps, ts, ts.len() as int);
    if l.len() == 0 {
        w + t"    fn viable_error_recovery_states(_token: &AATerminal) -> OrderedSet<u32> {\n" + t"        ordered_set![]\n" + t"    }\n\n"
    } else {
        let a = rec_lines(w + t"    fn viable_error_recovery_states(token: &AATerminal) -> OrderedSet<u32> {\n" + t"        match token {\n", l, l.len() as int);
        let b = if rec_gap(h, ps, ts, ts.len() as int) { a + t"            _ => ordered_set![],\n" } else { a };
        err_goto_lines(b + t"        }\n" + t"    }\n\n" + t"    fn error_goto_state(state: u32) -> u32 {\n" + t"        match state {\n", h, ps, ps.len() as int)
            + no_goto_text() + t"        }\n" + t"    }\n\n"
    }
}
pub open spec fn expect_lines(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { expect_lines(w, h, ps, n - 1) + (t"            " + dec(ps[n - 1].id() as int) + t" => " + macro_text(look_ahead_of(h, ps[n - 1].id())) + t",\n") }
}
pub open spec fn expect_text(w: Seq<u8>, h: Cells, ps: Seq<ParserState>) -> Seq<u8> {
    expect_lines(w + t"    fn look_ahead_set(state: u32) -> OrderedSet<AATerminal> {\n" + t"        use AATerminal::*;\n" + t"        match state {\n", h, ps, ps.len() as int)
        + t"            _ => panic!(\"illegal state: {state}\"),\n" + t"        }\n" + t"    }\n\n"
}
pub open spec fn actions_lines(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { action_text(actions_lines(w, h, ps, n - 1), t"            ", h, ps[n - 1].id()) }
}
pub open spec fn gotos_lines(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { goto_text(gotos_lines(w, h, ps, n - 1), t"            ", h, ps[n - 1].id()) }
}
@end
@if AUG=0
@raw
pub open spec fn actions_head(w: Seq<u8>, attr: Seq<u8>) -> Seq<u8> {
    w + t"    fn next_action(\n" + t"        &self,\n" + t"        aa_state: u32,\n" + t"        aa_token: &lexan::Token<AATerminal>,\n" + t"    ) -> lalr1::Action {\n" + t"        use lalr1::Action;\n"
}
@end
@endif
@if AUG=1
@raw
pub open spec fn actions_head(w: Seq<u8>, attr: Seq<u8>) -> Seq<u8> {
    w + t"    fn next_action(\n" + t"        &self,\n" + t"        aa_state: u32,\n" + (t"        aa_attributes: &alalr1::ParseStack<AATerminal, AANonTerminal, " + attr + t">,\n")
        + t"        aa_token: &lexan::Token<AATerminal>,\n" + t"    ) -> alalr1::Action {\n" + t"        use alalr1::Action;\n"
}
@end
@endif
@raw
pub open spec fn actions_text(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, attr: Seq<u8>) -> Seq<u8> {
    actions_lines(actions_head(w, attr) + t"        use AATerminal::*;\n" + t"        let aa_tag = *aa_token.tag();\n" + t"        match aa_state {\n", h, ps, ps.len() as int)
        + t"            _ => panic!(\"illegal state: {aa_state}\"),\n" + t"        }\n" + t"    }\n\n"
}
pub open spec fn gotos_text(w: Seq<u8>, h: Cells, ps: Seq<ParserState>) -> Seq<u8> {
    gotos_lines(w + t"    fn goto_state(lhs: &AANonTerminal, current_state: u32) -> u32 {\n" + t"        match current_state {\n", h, ps, ps.len() as int)
        + t"            _ => panic!(\"Malformed goto table: ({lhs}, {current_state})\"),\n" + t"        }\n" + t"    }\n\n"
}
pub open spec fn prod_data_lines(w: Seq<u8>, g: Seq<Production>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let p = g[n - 1];
        prod_data_lines(w, g, n - 1) + (t"            " + dec(p.id() as int) + t" => (AANonTerminal::" + nt_name(p.lhs()) + t", " + dec(p.rhs().len() as int) + t"),\n")
    }
}
pub open spec fn prod_data_text(w: Seq<u8>, g: Seq<Production>) -> Seq<u8> {
    prod_data_lines(w + t"    fn production_data(production_id: u32) -> (AANonTerminal, usize) {\n" + t"        match production_id {\n", g, g.len() as int)
        + t"            _ => panic!(\"malformed production data table\"),\n" + t"        }\n" + t"    }\n\n"
}
pub open spec fn act_lines(w: Seq<u8>, g: Seq<Production>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let p = g[n - 1];
        let v = act_lines(w, g, n - 1);
        match act_text(p) {
            Some(a) => v + (t"            " + dec(p.id() as int) + t" => {\n") + (t"                // " + prod_text(p) + t"\n") + (t"                " + a + t"\n") + t"            }\n",
            None => v,
        }
    }
}
pub open spec fn acts_text(w: Seq<u8>, g: Seq<Production>, attr: Seq<u8>) -> Seq<u8> {
    act_lines(w + t"    fn do_semantic_action<F: FnMut(String, String)>(\n" + t"        &mut self,\n" + t"        aa_production_id: u32,\n" + (t"        aa_rhs: Vec<" + attr + t">,\n")
        + t"        mut aa_inject: F,\n" + (t"    ) -> " + attr + t" {\n") + t"        let mut aa_lhs = if let Some(a) = aa_rhs.first() {\n" + t"            a.clone()\n" + t"        } else {\n"
        + (t"           " + attr + t"::default()\n") + t"        };\n" + t"        match aa_production_id {\n", g, g.len() as int)
        + t"            _ => aa_inject(String::new(), String::new()),\n" + t"        };\n" + t"        aa_lhs\n" + t"    }\n\n"
}
@end
@fn SymbolTable::tokens
%ensures are(r@, vals(self.tokens@))
%at start: broadcast use lemma_vals;
@fn Grammar::format_u32_set
%opt fmt
%at start: broadcast use lemma_empty_plus;
%ensures r@ == numbers_text(set@)
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@ == asc(set@), string@ == sep_numbers(t"ordered_set![", asc(set@), __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { lemma_listed(__it1@, set@); }
@fn Grammar::write_error_recovery_code
%opt heap nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires states_fit(vh@, self.parser_states@)
%ensures r is Ok ==> final(wtr)@ == recovery_text(old(wtr)@, vh@, self.parser_states@, self.specification.symbol_table)
%at start: broadcast use lemma_empty_plus; let ghost ps = self.parser_states@; let ghost ts = all_tokens(self.specification.symbol_table); let ghost w0 = wtr@;
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, ts), wtr@ == w0,
    default_required == rec_gap(vh@, ps, ts, __i1 as int),
    recovery_states@.len() == rec_list(vh@, ps, ts, __i1 as int).len(),
    forall|a: int| 0 <= a < recovery_states@.len() ==> (#[trigger] recovery_states@[a]).0@ == rec_list(vh@, ps, ts, __i1 as int)[a].0 && recovery_states@[a].1@ == rec_list(vh@, ps, ts, __i1 as int)[a].1,
%loop 1 decreases __it1.len() - __i1
%at let set: proof { lemma_recovery(vh@, ps, *token, set@); assert(*__it1@[__i1 - 1] == ts[__i1 - 1]); }
%loop 2 invariant
    __i2 <= __it2@.len(), __it2@ == rs,
    wtr@ == rec_lines(w0 + t"    fn viable_error_recovery_states(token: &AATerminal) -> OrderedSet<u32> {\n" + t"        match token {\n", rl, __i2 as int),
%loop 2 decreases __it2.len() - __i2
%at loop 1 after: let ghost rs = recovery_states@; let ghost rl = rec_list(vh@, ps, ts, ts.len() as int);
%loop 3 invariant
    __i3 <= __it3@.len(), are(__it3@, ps), wtr@ == err_goto_lines(w3, vh@, ps, __i3 as int),
%loop 3 decreases __it3.len() - __i3
%at loop 3 before: let ghost w3 = wtr@;
@fn Grammar::write_look_ahead_set_code
%opt heap nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires states_fit(vh@, self.parser_states@)
%ensures r is Ok ==> final(wtr)@ == expect_text(old(wtr)@, vh@, self.parser_states@)
%at start: broadcast use lemma_empty_plus; broadcast use lemma_look_ahead;
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, self.parser_states@), wtr@ == expect_lines(w1, vh@, self.parser_states@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;
@fn Grammar::write_next_action_code
%opt heap nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires states_fit(vh@, self.parser_states@)
%ensures r is Ok ==> final(wtr)@ == actions_text(old(wtr)@, vh@, self.parser_states@, self.specification.attribute_type@)
%at start: broadcast use lemma_empty_plus;
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, self.parser_states@), wtr@ == actions_lines(w1, vh@, self.parser_states@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;
@fn Grammar::write_goto_table_code
%opt heap nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires states_fit(vh@, self.parser_states@)
%ensures r is Ok ==> final(wtr)@ == gotos_text(old(wtr)@, vh@, self.parser_states@)
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, self.parser_states@), wtr@ == gotos_lines(w1, vh@, self.parser_states@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;
@fn Specification::write_production_data_code
%opt nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%ensures r is Ok ==> final(wtr)@ == prod_data_text(old(wtr)@, self.productions@)
%at start: broadcast use lemma_empty_plus;
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, self.productions@), wtr@ == prod_data_lines(w1, self.productions@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;
@fn Specification::write_semantic_action_code
%opt nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%ensures r is Ok ==> final(wtr)@ == acts_text(old(wtr)@, self.productions@, self.attribute_type@)
%at start: broadcast use lemma_empty_plus;
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, self.productions@), wtr@ == act_lines(w1, self.productions@, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;

# ---------------------------------------------------------------- symbols, the lexical analyzer and the whole file
@raw
pub open spec fn tok_text(t: Token) -> Seq<u8> {
    match t { Token::Literal(d) => d.text@, Token::Regex(d) => d.text@, Token::End => t"" }
}
pub open spec fn hashes_of(k: nat) -> Seq<u8> { Seq::new(k, |i: int| 35u8) }
// the fewest # signs, at least three, that no quote in the text is followed by
pub open spec fn raw_ok(s: Seq<u8>, k: nat) -> bool {
    &&& k >= 3
    &&& !has_text(s, t"\"" + hashes_of(k))
    &&& forall|j: nat| 3 <= j < k ==> has_text(s, t"\"" + #[trigger] hashes_of(j))
}
pub open spec fn raw_hashes(s: Seq<u8>) -> nat { choose|k: nat| raw_ok(s, k) }
pub open spec fn raw_lit(s: Seq<u8>) -> Seq<u8> {
    let h = hashes_of(raw_hashes(s));
    t"r" + h + t"\"" + s + t"\"" + h
}
pub proof fn lemma_raw_hashes(s: Seq<u8>, k: nat)
    requires raw_ok(s, k)
    ensures k == raw_hashes(s)
{
    let b = raw_hashes(s);
    assert(raw_ok(s, b));
    if b < k { assert(has_text(s, t"\"" + hashes_of(b))); }
    if k < b { assert(has_text(s, t"\"" + hashes_of(k))); }
}
pub open spec fn specials(st: SymbolTable) -> Seq<NonTerminal> {
    if nt_unused(st.error_non_terminal) { seq![st.start_non_terminal] } else { seq![st.start_non_terminal, st.error_non_terminal] }
}
pub open spec fn all_non_terminals(st: SymbolTable) -> Seq<NonTerminal> { specials(st) + vals(st.non_terminals@) }
pub open spec fn tok_lines(w: Seq<u8>, l: Seq<Token>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { tok_lines(w, l, n - 1) + (t"    " + tok_name(l[n - 1]) + t",\n") }
}
pub open spec fn shown(t: Token) -> Seq<u8> {
    match t { Token::Literal(d) => tok_name(t) + t" => f.write_str(" + raw_lit(d.text@) + t"),\n", _ => tok_name(t) + t" => f.write_str(r###\"" + tok_name(t) + t"\"###),\n" }
}
pub open spec fn tok_shown_lines(w: Seq<u8>, l: Seq<Token>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { tok_shown_lines(w, l, n - 1) + t"            AATerminal::" + shown(l[n - 1]) }
}
pub open spec fn nt_lines(w: Seq<u8>, l: Seq<NonTerminal>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { nt_lines(w, l, n - 1) + (t"    " + nt_name(l[n - 1]) + t",\n") }
}
pub open spec fn nt_shown_lines(w: Seq<u8>, l: Seq<NonTerminal>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { nt_shown_lines(w, l, n - 1) + t"            AANonTerminal::" + (nt_name(l[n - 1]) + t" => write!(f, r\"" + nt_name(l[n - 1]) + t"\"),\n") }
}
pub open spec fn lit_lines(w: Seq<u8>, l: Seq<Token>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else {
        let x = tok_text(l[n - 1]);
        lit_lines(w, l, n - 1) + t"                " + (t"(" + tok_name(l[n - 1]) + t", " + raw_lit(x.subrange(1, x.len() - 1)) + t"),\n")
    }
}
pub open spec fn regex_lines(w: Seq<u8>, l: Seq<Token>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { regex_lines(w, l, n - 1) + t"                " + (t"(" + tok_name(l[n - 1]) + t", " + raw_lit(tok_text(l[n - 1])) + t"),\n") }
}
pub open spec fn skip_lines(w: Seq<u8>, l: Seq<Str>, n: int) -> Seq<u8>
    decreases n
{
    if n <= 0 { w } else { skip_lines(w, l, n - 1) + t"                " + (raw_lit(l[n - 1]@) + t",\n") }
}
// the texts of literals are between quotes
pub open spec fn quoted(s: Seq<u8>) -> bool { s.len() >= 2 && bound(s, 1) && bound(s, s.len() - 1) }
pub open spec fn lits_quoted(st: SymbolTable) -> bool { forall|k: Str| #[trigger] st.literal_tokens@.dom().contains(k) ==> quoted(tok_text(st.literal_tokens@[k])) }
pub proof fn lemma_lits_quoted(st: SymbolTable, i: int)
    requires lits_quoted(st), 0 <= i < vals(st.literal_tokens@).len(), in_order_map(asc_map(st.literal_tokens@), st.literal_tokens@)
    ensures quoted(tok_text(vals(st.literal_tokens@)[i]))
{
    let m = st.literal_tokens@;
    assert(m.dom().contains(*asc_map(m)[i].0));
}
pub open spec fn lexan_text(w: Seq<u8>, st: SymbolTable) -> Seq<u8> {
    let a = lit_lines(w + t"lazy_static::lazy_static! {\n" + t"    static ref AALEXAN: lexan::LexicalAnalyzer<AATerminal> = {\n" + t"        use AATerminal::*;\n" + t"        lexan::LexicalAnalyzer::new(\n" + t"            &[\n",
        vals(st.literal_tokens@), vals(st.literal_tokens@).len() as int);
    let b = regex_lines(a + t"            ],\n" + t"            &[\n", vals(st.regex_tokens@), vals(st.regex_tokens@).len() as int);
    let c = skip_lines(b + t"            ],\n" + t"            &[\n", st.skip_rules@, st.skip_rules@.len() as int);
    c + t"            ],\n" + (t"            " + t"AAEnd" + t",\n") + t"        )\n" + t"    };\n" + t"}\n\n"
}
pub open spec fn symbols_text(w: Seq<u8>, st: SymbolTable) -> Seq<u8> {
    let ts = all_tokens(st);
    let ns = all_non_terminals(st);
    let a = w + t"use lalr1::OrderedSet;\n\n" + t"macro_rules! ordered_set {\n" + t"    () => { OrderedSet::new() };\n" + t"    ( $( $x:expr ),* ) => {\n" + t"        {\n" + t"            let mut set = OrderedSet::new();\n"
        + t"            $( set.insert($x); )*\n" + t"            set\n" + t"        }\n" + t"    };\n" + t"    ( $( $x:expr ),+ , ) => {\n" + t"        ordered_set![ $( $x ), * ]\n" + t"    };\n" + t"}\n\n"
        + t"#[derive(Debug, Clone, Copy, PartialOrd, Ord, PartialEq, Eq)]\n" + t"#[warn(clippy::upper_case_acronyms)]\n" + t"pub enum AATerminal {\n";
    let b = tok_lines(a, ts, ts.len() as int) + t"}\n\n" + t"impl std::fmt::Display for AATerminal {\n" + t"    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {\n" + t"        match self {\n";
    let c = tok_shown_lines(b, ts, ts.len() as int) + t"        }\n" + t"    }\n" + t"}\n\n";
    let d = lexan_text(c, st) + t"#[derive(Debug, Clone, Copy, PartialOrd, Ord, PartialEq, Eq)]\n" + t"pub enum AANonTerminal {\n";
    let e = nt_lines(d, ns, ns.len() as int) + t"}\n\n" + t"impl std::fmt::Display for AANonTerminal {\n" + t"    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {\n" + t"        match self {\n";
    nt_shown_lines(e, ns, ns.len() as int) + t"        }\n" + t"    }\n" + t"}\n\n"
}
@end
@if AUG=0
@raw
pub open spec fn impl_head(w: Seq<u8>, attr: Seq<u8>, parser: Seq<u8>) -> Seq<u8> { w + (t"impl lalr1::Parser<AATerminal, AANonTerminal, " + attr + t"> for " + parser + t" {\n") }
pub open spec fn file_head() -> Seq<u8> { t"// generated by lalr1_gen.\n\n" }
@end
@endif
@if AUG=1
@raw
pub open spec fn impl_head(w: Seq<u8>, attr: Seq<u8>, parser: Seq<u8>) -> Seq<u8> { w + (t"impl alalr1::Parser<AATerminal, AANonTerminal, " + attr + t"> for " + parser + t" {\n") }
pub open spec fn file_head() -> Seq<u8> { t"// generated by alap_gen.\n\n" }
@end
@endif
@raw
pub open spec fn impl_text(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, sp: Specification) -> Seq<u8> {
    let a = impl_head(w, sp.attribute_type@, sp.target_type@) + t"    fn lexical_analyzer(&self) -> &lexan::LexicalAnalyzer<AATerminal> {\n" + t"        &AALEXAN\n" + t"    }\n\n";
    let b = recovery_text(a, h, ps, sp.symbol_table);
    let c = actions_text(expect_text(b, h, ps), h, ps, sp.attribute_type@);
    acts_text(gotos_text(prod_data_text(c, sp.productions@), h, ps), sp.productions@, sp.attribute_type@) + t"}\n"
}
// the whole file
pub open spec fn parser_text(w: Seq<u8>, h: Cells, ps: Seq<ParserState>, sp: Specification) -> Seq<u8> {
    impl_text(symbols_text(w + file_head() + sp.preamble@, sp.symbol_table), h, ps, sp)
}
@end
@fn Token::text
%ensures r@ == tok_text(*self)
@fn SymbolTable::literal_tokens
%ensures are(r@, vals(self.literal_tokens@)), in_order_map(asc_map(self.literal_tokens@), self.literal_tokens@)
%at start: broadcast use lemma_vals; proof { axiom_map_listing(self.literal_tokens); }
@fn SymbolTable::regex_tokens
%ensures are(r@, vals(self.regex_tokens@))
%at start: broadcast use lemma_vals;
@fn SymbolTable::non_terminals
%ensures are(r@, vals(self.non_terminals@))
%at start: broadcast use lemma_vals;
@fn SymbolTable::skip_rules
%ensures are(r@, self.skip_rules@)
@fn SymbolTable::used_non_terminal_specials
%ensures r@ == specials(*self)
@fn raw_string_literal
%opt fmt
%at start: broadcast use lemma_empty_plus;
%ensures r@ == raw_lit(text@)
%loop 1 invariant
    hashes@.len() >= 3, hashes@ == hashes_of(hashes@.len()),
    forall|j: nat| 3 <= j < hashes@.len() ==> has_text(text@, t"\"" + #[trigger] hashes_of(j)),
%loop 1 decreases text@.len() + 3 - hashes@.len()
%at loop 1 before: proof { reveal(t#"###"); assert(hashes@ =~= hashes_of(3)); }
%at loop 1 start: let ghost k0 = hashes@.len();
%at loop 1 end: proof { assert(hashes@ =~= hashes_of(k0 + 1)); }
%at loop 1 after: proof { lemma_raw_hashes(text@, hashes@.len()); }
@fn Grammar::write_lexical_analyzer_code
%opt nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires lits_quoted(self.specification.symbol_table)
%ensures r is Ok ==> final(wtr)@ == lexan_text(old(wtr)@, self.specification.symbol_table)
%at start: broadcast use lemma_empty_plus; let ghost st = self.specification.symbol_table;
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, vals(st.literal_tokens@)), in_order_map(asc_map(st.literal_tokens@), st.literal_tokens@), wtr@ == lit_lines(w1, vals(st.literal_tokens@), __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;
%at loop 1 start: proof { assert(*__it1@[__i1 - 1] == vals(st.literal_tokens@)[__i1 - 1]); lemma_lits_quoted(st, __i1 - 1); }
%loop 2 invariant
    __i2 <= __it2@.len(), are(__it2@, vals(st.regex_tokens@)), wtr@ == regex_lines(w2, vals(st.regex_tokens@), __i2 as int),
%loop 2 decreases __it2.len() - __i2
%at loop 2 before: let ghost w2 = wtr@;
%loop 3 invariant
    __i3 <= __it3@.len(), are(__it3@, st.skip_rules@), wtr@ == skip_lines(w3, st.skip_rules@, __i3 as int),
%loop 3 decreases __it3.len() - __i3
%at loop 3 before: let ghost w3 = wtr@;
@fn Grammar::write_symbol_enum_code
%opt nogen fmt intoiter
%attr #[verifier::loop_isolation(false)]
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires lits_quoted(self.specification.symbol_table)
%ensures r is Ok ==> final(wtr)@ == symbols_text(old(wtr)@, self.specification.symbol_table)
%at start: broadcast use lemma_empty_plus; let ghost st = self.specification.symbol_table; let ghost ts = all_tokens(st); let ghost ns = all_non_terminals(st);
%loop 1 invariant
    __i1 <= __it1@.len(), are(__it1@, ts), wtr@ == tok_lines(w1, ts, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: let ghost w1 = wtr@;
%loop 2 invariant
    __i2 <= __it2@.len(), are(__it2@, ts), wtr@ == tok_shown_lines(w2, ts, __i2 as int),
%loop 2 decreases __it2.len() - __i2
%at loop 2 before: let ghost w2 = wtr@;
%at loop 2 start: proof { assert(*__it2@[__i2 - 1] == ts[__i2 - 1]); }
%loop 3 invariant
    __i3 <= __it3@.len(), are(__it3@, ns), wtr@ == nt_lines(w3, ns, __i3 as int),
%loop 3 decreases __it3.len() - __i3
%at loop 3 before: let ghost w3 = wtr@;
%loop 4 invariant
    __i4 <= __it4@.len(), are(__it4@, ns), wtr@ == nt_shown_lines(w4, ns, __i4 as int),
%loop 4 decreases __it4.len() - __i4
%at loop 4 before: let ghost w4 = wtr@;
@fn Grammar::write_parser_implementation_code
%opt heap nogen fmt
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires states_fit(vh@, self.parser_states@)
%ensures r is Ok ==> final(wtr)@ == impl_text(old(wtr)@, vh@, self.parser_states@, self.specification)
%at start: broadcast use lemma_empty_plus;
@fn Specification::write_preamble_text
%opt nogen fmt
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%ensures r is Ok ==> final(wtr)@ == old(wtr)@ + self.preamble@
@fn Grammar::write_parser_code
%opt heap nogen fmt
%pty wtr &mut Wtr
%rettype Result<(), IoError>
%requires states_fit(vh@, self.parser_states@), lits_quoted(self.specification.symbol_table)
%ensures r is Ok ==> final(wtr)@ == parser_text(old(wtr)@, vh@, self.parser_states@, self.specification)
