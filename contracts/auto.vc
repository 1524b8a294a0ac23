# Contracts for the construction of the automaton (lalr1_lib and alalr1_lib): ${DIR}
@source ${DIR}/src/symbol/terminal.rs terminal
@source ${DIR}/src/symbol/non_terminal.rs non_terminal
@source ${DIR}/src/symbol.rs symbol
@source ${DIR}/src/symbol/tag.rs tag
@source ${DIR}/src/production.rs production
@source ${DIR}/src/state.rs state
@source ${DIR}/src/grammar.rs grammar
@opts veq vord intoiter
@heapcells grammar_items shift_list goto_table error_recovery_state processed_state shift_reduce_conflicts reduce_reduce_conflicts
@dropfield ParserStateData.grammar_items ParserStateData.shift_list ParserStateData.goto_table ParserStateData.error_recovery_state ParserStateData.processed_state ParserStateData.shift_reduce_conflicts ParserStateData.reduce_reduce_conflicts
@include prelude.vc
@include bt.vc
@raw
global size_of usize == 8;
broadcast use {axiom_str, lemma_push_contains};

// source locations and their messages are not looked into here
#[verifier::external_body]
pub struct Location { x: u8 }
#[verifier::external_body]
pub struct Tag { x: u8 }
#[verifier::external_body]
pub fn report_error(location: &Location, what: &Str) { unimplemented!() }
#[verifier::external_body]
pub fn report_warning(location: &Location, what: &Str) { unimplemented!() }
impl VOrd for Str { uninterp spec fn olt(self, o: Str) -> bool; }
@end
@type Associativity :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@type TokenData
@type Token
@type TokenSet
@type FirstsData
@type NonTerminalData
@type NonTerminal
@type Symbol
@type SymbolTable
@type ProductionTailData
@type ProductionTail
@type ProductionId :: #[derive(Clone, Copy)]
@type ProductionData
@type Production
@type Reductions
@type GrammarItemKey
@type GrammarItemSet
@type ProcessedState :: #[derive(Clone, Copy)]
@type ParserStateData
@type ParserState
@type Specification
@type Grammar
@type Error@grammar
@raw
// ------------------------------------------------------------------ orders (of iteration)
impl VOrd for Token { uninterp spec fn olt(self, o: Token) -> bool; }
impl VOrd for NonTerminal { uninterp spec fn olt(self, o: NonTerminal) -> bool; }
impl VOrd for Symbol { uninterp spec fn olt(self, o: Symbol) -> bool; }
impl VOrd for ProductionId { open spec fn olt(self, o: ProductionId) -> bool { self.0 < o.0 } }
impl VOrd for Production { open spec fn olt(self, o: Production) -> bool { self.0.ident.0 < o.0.ident.0 } }
impl VOrd for GrammarItemKey {
    open spec fn olt(self, o: GrammarItemKey) -> bool {
        self.production.olt(o.production) || (self.production.0.ident == o.production.0.ident && self.dot < o.dot)
    }
}
impl VOrd for OrderedSet<Production> { uninterp spec fn olt(self, o: OrderedSet<Production>) -> bool; }

// ------------------------------------------------------------------ views
impl TokenSet {
    pub open spec fn view(&self) -> Set<Token> { self.0@ }
    #[verifier::external_body]
    pub fn default() -> (r: TokenSet) ensures r@ == Set::<Token>::empty() { unimplemented!() }
    pub fn viter(&self) -> (r: Vec<&Token>) ensures lists(r@, self@) { self.iter() }
}
impl VDefault for TokenSet { open spec fn is_default(x: TokenSet) -> bool { x@ == Set::<Token>::empty() } fn vdefault() -> (r: TokenSet) { TokenSet::default() } }
impl VOr<&TokenSet> for TokenSet {
    fn vor(&mut self, r: &TokenSet) ensures final(self)@ == old(self)@.union(r@) { self.bitor_assign(r) }
}
impl VFrom<Token> for TokenSet {
    open spec fn vmade(s: Seq<Token>, r: TokenSet) -> bool { forall|x: Token| #[trigger] r@.contains(x) <==> s.contains(x) }
    fn vfrom(v: Vec<Token>) -> (r: TokenSet) { TokenSet::from_iter(v) }
}
impl VFrom<&Token> for TokenSet {
    open spec fn vmade(s: Seq<&Token>, r: TokenSet) -> bool { forall|x: Token| #[trigger] r@.contains(x) <==> s.contains(&x) }
    #[verifier::external_body]
    fn vfrom(v: Vec<&Token>) -> (r: TokenSet) { unimplemented!() }
}
pub proof fn lemma_tset_ext(a: TokenSet, b: TokenSet)
    requires a@ == b@
    ensures a == b
{
    axiom_bset_ext(a.0, b.0);
}
impl GrammarItemSet {
    pub open spec fn view(&self) -> Map<GrammarItemKey, TokenSet> { self.0@ }
    pub fn viter(&self) -> (r: Vec<(&GrammarItemKey, &TokenSet)>)
        ensures lists_map(r@, self@), ascending_map(r@), r@.len() < 0x4000_0000
    { self.iter() }
}
impl VFrom<(GrammarItemKey, TokenSet)> for GrammarItemSet {
    open spec fn vmade(s: Seq<(GrammarItemKey, TokenSet)>, r: GrammarItemSet) -> bool {
        &&& forall|k: GrammarItemKey| #[trigger] r@.dom().contains(k) <==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
        &&& forall|i: int| 0 <= i < s.len() && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != s[i].0) ==> r@[(#[trigger] s[i]).0] == s[i].1
    }
    fn vfrom(v: Vec<(GrammarItemKey, TokenSet)>) -> (r: GrammarItemSet) { GrammarItemSet::from_iter(v) }
}
impl Production {
    pub open spec fn id(self) -> u32 { self.0.ident.0 }
    pub open spec fn lhs(self) -> NonTerminal { self.0.left_hand_side }
    pub open spec fn rhs(self) -> Seq<Symbol> { self.0.tail.0.right_hand_side@ }
    pub open spec fn assoc(self) -> Associativity { self.0.tail.0.associativity }
    pub open spec fn prec(self) -> u16 { self.0.tail.0.precedence }
    pub open spec fn err_tail(self) -> bool { self.rhs().len() > 0 && (self.rhs().last() matches Symbol::NonTerminal(n) && n is Error) }
@end
@if AUG=0
@raw
    pub open spec fn pred(self) -> bool { false }
@end
@endif
@if AUG=1
@raw
    pub open spec fn pred(self) -> bool { self.0.tail.0.predicate is Some }
@end
@endif
@raw
}
pub open spec fn tok_name(t: Token) -> Seq<u8> {
    match t { Token::Literal(d) => d.name@, Token::Regex(d) => d.name@, Token::End => t"AAEnd" }
}
pub open spec fn nt_name(n: NonTerminal) -> Seq<u8> {
    match n { NonTerminal::UserDefined(d) => d.name@, NonTerminal::Error(d) => d.name@, NonTerminal::Start(d) => d.name@ }
}
pub open spec fn tok_prec(t: Token) -> u16 {
    match t { Token::Literal(d) => d.precedence, Token::Regex(d) => d.precedence, Token::End => 0 }
}
pub open spec fn tok_assoc(t: Token) -> Associativity {
    match t { Token::Literal(d) => d.associativity, Token::Regex(d) => d.associativity, Token::End => Associativity::NonAssoc }
}
impl GrammarItemKey {
    pub open spec fn rhs(self) -> Seq<Symbol> { self.production.rhs() }
    pub open spec fn red(self) -> bool { self.dot >= self.rhs().len() }
    pub open spec fn next(self) -> Option<Symbol> { if self.red() { None } else { Some(self.rhs()[self.dot as int]) } }
    pub open spec fn kernel(self) -> bool { self.dot > 0 || self.production.lhs() is Start }
    pub open spec fn after(self) -> GrammarItemKey { GrammarItemKey { production: self.production, dot: (self.dot + 1) as usize } }
    pub open spec fn before(self) -> GrammarItemKey { GrammarItemKey { production: self.production, dot: (self.dot - 1) as usize } }
    // what follows the symbol after the dot
    pub open spec fn tail(self) -> Seq<Symbol> { self.rhs().skip(self.dot + 1) }
}
pub proof fn lemma_rhs_len(k: GrammarItemKey)
    ensures k.rhs().len() <= usize::MAX
{
    assert(k.production.0.tail.0.right_hand_side.len() == k.rhs().len());
}
pub open spec fn closable(k: GrammarItemKey) -> bool { k.next() matches Some(s) && s is NonTerminal }
pub open spec fn goto_from(m: Map<GrammarItemKey, TokenSet>, x: Symbol, i: (GrammarItemKey, TokenSet)) -> bool {
    i.0.dot > 0 && m.dom().contains(i.0.before()) && i.0.before().next() == Some(x) && i.1 == m[i.0.before()]
}
// r is the kernel reached from m by x
pub open spec fn is_goto(m: Map<GrammarItemKey, TokenSet>, x: Symbol, r: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] r.dom().contains(i) <==> i.dot > 0 && m.dom().contains(i.before()) && i.before().next() == Some(x)
    &&& forall|i: GrammarItemKey| #[trigger] r.dom().contains(i) ==> r[i] == m[i.before()]
}
pub proof fn lemma_goto(m: Map<GrammarItemKey, TokenSet>, x: Symbol, l: Seq<(&GrammarItemKey, &TokenSet)>, s: Seq<(GrammarItemKey, TokenSet)>)
    requires
        lists_map(l, m),
        forall|a: int| 0 <= a < s.len() ==> goto_from(m, x, #[trigger] s[a]),
        forall|b: int| 0 <= b < l.len() && (*(#[trigger] l[b]).0).next() == Some(x) ==> s.contains(((*l[b].0).after(), *l[b].1)),
        forall|k: GrammarItemKey| #[trigger] m.dom().contains(k) ==> k.dot <= k.rhs().len(),
    ensures forall|r: GrammarItemSet| #[trigger] GrammarItemSet::vmade(s, r) ==> is_goto(m, x, r@)
{
    assert forall|r: GrammarItemSet| #[trigger] GrammarItemSet::vmade(s, r) implies is_goto(m, x, r@) by {
        assert forall|i: GrammarItemKey| #[trigger] r@.dom().contains(i) <==> i.dot > 0 && m.dom().contains(i.before()) && i.before().next() == Some(x) by {
            if r@.dom().contains(i) {
                let a = choose|a: int| 0 <= a < s.len() && (#[trigger] s[a]).0 == i;
            }
            if i.dot > 0 && m.dom().contains(i.before()) && i.before().next() == Some(x) {
                let b = choose|b: int| 0 <= b < l.len() && *(#[trigger] l[b]).0 == i.before();
                assert(s.contains(((*l[b].0).after(), *l[b].1)));
                let a = choose|a: int| 0 <= a < s.len() && s[a] == ((*l[b].0).after(), *l[b].1);
                assert(s[a].0 == i);
            }
        }
        assert forall|i: GrammarItemKey| #[trigger] r@.dom().contains(i) implies r@[i] == m[i.before()] by {
            lemma_last_of(s, i);
        }
    }
}
// the last entry for a key
pub proof fn lemma_last_of(s: Seq<(GrammarItemKey, TokenSet)>, k: GrammarItemKey)
    requires exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k
    ensures exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k && (forall|j: int| i < j < s.len() ==> (#[trigger] s[j]).0 != k)
    decreases s.len()
{
    if s.last().0 == k {
        assert(s[s.len() - 1].0 == k);
    } else {
        let i0 = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).0 == k;
        assert(s.drop_last()[i0].0 == k);
        lemma_last_of(s.drop_last(), k);
        let i = choose|i: int| 0 <= i < s.drop_last().len() && (#[trigger] s.drop_last()[i]).0 == k && (forall|j: int| i < j < s.drop_last().len() ==> (#[trigger] s.drop_last()[j]).0 != k);
        assert(s[i].0 == k);
        assert forall|j: int| i < j < s.len() implies (#[trigger] s[j]).0 != k by {
            if j < s.len() - 1 { assert(s.drop_last()[j].0 != k); }
        }
    }
}
pub open spec fn reduces_on(m: Map<GrammarItemKey, TokenSet>, t: Token) -> bool {
    exists|k: GrammarItemKey| #[trigger] m.dom().contains(k) && k.red() && m[k]@.contains(t)
}
pub open spec fn recovers_on(m: Map<GrammarItemKey, TokenSet>, t: Token) -> bool {
    exists|k: GrammarItemKey| #[trigger] m.dom().contains(k) && k.red() && k.production.err_tail() && m[k]@.contains(t)
}
pub open spec fn all_reduced(m: Map<GrammarItemKey, TokenSet>, t: Token, q: Set<Production>) -> bool {
    forall|p: Production| #[trigger] q.contains(p) <==> reduced_by(m, t, p)
}
pub open spec fn reduced_by(m: Map<GrammarItemKey, TokenSet>, t: Token, p: Production) -> bool {
    exists|k: GrammarItemKey| #[trigger] m.dom().contains(k) && k.red() && m[k]@.contains(t) && k.production == p
}
pub open spec fn has_reduction(r: Map<OrderedSet<Production>, TokenSet>, t: Token) -> bool {
    exists|q: OrderedSet<Production>| #[trigger] r.dom().contains(q) && r[q]@.contains(t)
}
pub open spec fn item0(p: Production) -> GrammarItemKey { GrammarItemKey { production: p, dot: 0 } }

// ------------------------------------------------------------------ grammars
// the productions of a specification that has no errors (established by Specification::new and new_production)
pub open spec fn nt_ok(n: NonTerminal) -> bool {
    !(n is Start) && nt_firsts(n) is Some
}
pub open spec fn nt_firsts(n: NonTerminal) -> Option<FirstsData> {
    match n {
        NonTerminal::UserDefined(d) => d.firsts_data,
        NonTerminal::Error(d) => d.firsts_data,
        NonTerminal::Start(d) => d.firsts_data,
    }
}
pub open spec fn syms_ok(s: Seq<Symbol>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches Symbol::NonTerminal(n) ==> nt_ok(n))
}
pub open spec fn g_ok(g: Seq<Production>) -> bool {
    &&& 0 < g.len() < 0x4000_0000
    &&& forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).id() == i
    &&& forall|i: int| 0 <= i < g.len() ==> syms_ok((#[trigger] g[i]).rhs())
    &&& g[0].lhs() is Start
    &&& g[0].rhs().len() == 1
    &&& forall|i: int| 0 < i < g.len() ==> !((#[trigger] g[i]).lhs() is Start)
}
pub open spec fn key_ok(g: Seq<Production>, k: GrammarItemKey) -> bool {
    g.contains(k.production) && k.dot <= k.rhs().len()
}
pub open spec fn keys_ok(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|k: GrammarItemKey| #[trigger] m.dom().contains(k) ==> key_ok(g, k)
}
// FIRST of a string of symbols followed by a token, from the symbols' firsts data
pub open spec fn first_str(s: Seq<Symbol>, t: Token) -> Set<Token>
    decreases s.len()
{
    if s.len() == 0 {
        set![t]
    } else {
        match s[0] {
            Symbol::Terminal(x) => set![x],
            Symbol::NonTerminal(n) => {
                let fd = nt_firsts(n).unwrap();
                if fd.transparent { fd.token_set@.union(first_str(s.skip(1), t)) } else { fd.token_set@ }
            }
        }
    }
}

// ------------------------------------------------------------------ closures (C11)
pub open spec fn next_is(k: GrammarItemKey, n: NonTerminal) -> bool { k.next() == Some(Symbol::NonTerminal(n)) }
// the items of the closure of k, found in n steps
pub open spec fn c0(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat) -> bool
    decreases n
{
    n > 0 && (k.dom().contains(i) || (i.dot == 0 && g.contains(i.production)
        && exists|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && c0(g, k, j, (n - 1) as nat)))
}
// the look ahead tokens of the items of the closure of k, found in n steps
pub open spec fn c1(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token, n: nat) -> bool
    decreases n
{
    n > 0 && ((k.dom().contains(i) && k[i]@.contains(t)) || (i.dot == 0 && g.contains(i.production)
        && exists|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && c1(g, k, j, u, (n - 1) as nat)
            && #[trigger] first_str(j.tail(), u).contains(t)))
}
pub open spec fn in_c0(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey) -> bool { exists|n: nat| c0(g, k, i, n) }
pub open spec fn in_c1(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token) -> bool { exists|n: nat| c1(g, k, i, t, n) }
// r is the LR(1) closure of k
pub open spec fn is_closure(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] r.dom().contains(i) <==> in_c0(g, k, i)
    &&& forall|i: GrammarItemKey, t: Token| r.dom().contains(i) ==> (#[trigger] r[i]@.contains(t) <==> in_c1(g, k, i, t))
}
// what the item j requires of the item p = [production -> . rhs] in the same state
pub open spec fn fed(m: Map<GrammarItemKey, TokenSet>, j: GrammarItemKey, las: Set<Token>, p: Production) -> bool {
    m.dom().contains(item0(p)) && forall|u: Token, t: Token| #[trigger] las.contains(u) && #[trigger] first_str(j.tail(), u).contains(t) ==> m[item0(p)]@.contains(t)
}
pub open spec fn closed(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|j: GrammarItemKey, p: Production| #[trigger] m.dom().contains(j) && #[trigger] g.contains(p) && next_is(j, p.lhs()) ==> fed(m, j, m[j]@, p)
}
pub open spec fn sound(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) ==> in_c0(g, k, i)
    &&& forall|i: GrammarItemKey, t: Token| m.dom().contains(i) && #[trigger] m[i]@.contains(t) ==> in_c1(g, k, i, t)
}
pub open spec fn extends(k: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey| #[trigger] k.dom().contains(i) ==> m.dom().contains(i) && k[i]@.subset_of(m[i]@)
}
pub proof fn lemma_closed_c0(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires closed(g, m), extends(k, m), c0(g, k, i, n)
    ensures m.dom().contains(i)
    decreases n
{
    if !k.dom().contains(i) {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && c0(g, k, j, (n - 1) as nat);
        lemma_closed_c0(g, k, m, j, (n - 1) as nat);
        assert(fed(m, j, m[j]@, i.production));
        assert(item0(i.production) == i);
    }
}
pub proof fn lemma_closed_c1(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token, n: nat)
    requires closed(g, m), extends(k, m), c1(g, k, i, t, n)
    ensures m.dom().contains(i), m[i]@.contains(t)
    decreases n
{
    if !(k.dom().contains(i) && k[i]@.contains(t)) {
        let (j, u) = choose|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && c1(g, k, j, u, (n - 1) as nat) && #[trigger] first_str(j.tail(), u).contains(t);
        lemma_closed_c1(g, k, m, j, u, (n - 1) as nat);
        assert(fed(m, j, m[j]@, i.production));
        assert(item0(i.production) == i);
    }
}
pub proof fn lemma_closure_done(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>)
    requires closed(g, m), extends(k, m), sound(g, k, m)
    ensures is_closure(g, k, m)
{
    assert forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> in_c0(g, k, i) by {
        if in_c0(g, k, i) {
            let n = choose|n: nat| c0(g, k, i, n);
            lemma_closed_c0(g, k, m, i, n);
        }
    }
    assert forall|i: GrammarItemKey, t: Token| m.dom().contains(i) implies (#[trigger] m[i]@.contains(t) <==> in_c1(g, k, i, t)) by {
        if in_c1(g, k, i, t) {
            let n = choose|n: nat| c1(g, k, i, t, n);
            lemma_closed_c1(g, k, m, i, t, n);
        }
    }
}
pub open spec fn same(a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] a.dom().contains(i) <==> b.dom().contains(i)
    &&& forall|i: GrammarItemKey| #[trigger] a.dom().contains(i) ==> a[i]@ == b[i]@
}
pub open spec fn listed(m: Map<GrammarItemKey, TokenSet>, l: Seq<(GrammarItemKey, TokenSet)>) -> bool {
    &&& forall|i: int| 0 <= i < l.len() ==> m.dom().contains((#[trigger] l[i]).0) && m[l[i].0] == l[i].1 && closable(l[i].0)
    &&& forall|k: GrammarItemKey| #[trigger] m.dom().contains(k) && closable(k) ==> exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == k
}
pub open spec fn all_fed(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, j: (GrammarItemKey, TokenSet)) -> bool {
    forall|a: int| 0 <= a < g.len() && next_is(j.0, (#[trigger] g[a]).lhs()) ==> fed(m, j.0, j.1@, g[a])
}
pub open spec fn gives(k: GrammarItemKey, las: Set<Token>, t: Token) -> bool {
    exists|u: Token| #[trigger] las.contains(u) && first_str(k.tail(), u).contains(t)
}
pub open spec fn feeds(k: GrammarItemKey, las: Set<Token>, firsts: Set<Token>) -> bool {
    forall|t: Token| #[trigger] firsts.contains(t) <==> gives(k, las, t)
}
pub proof fn lemma_rhs_ok(g: Seq<Production>, k: GrammarItemKey)
    requires g_ok(g), key_ok(g, k), k.dot < k.rhs().len()
    ensures syms_ok(k.rhs()), syms_ok(k.tail()), k.next() matches Some(Symbol::NonTerminal(n)) ==> nt_ok(n)
{
    let i = choose|i: int| 0 <= i < g.len() && g[i] == k.production;
    assert(syms_ok(g[i].rhs()));
    assert forall|i: int| 0 <= i < k.tail().len() implies ((#[trigger] k.tail()[i]) matches Symbol::NonTerminal(n) ==> nt_ok(n)) by {
        assert(k.tail()[i] == k.rhs()[i + k.dot + 1]);
    }
}
pub proof fn lemma_start_sound(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>)
    ensures sound(g, k, k), extends(k, k)
{
    assert forall|i: GrammarItemKey| #[trigger] k.dom().contains(i) implies in_c0(g, k, i) by { assert(c0(g, k, i, 1)); }
    assert forall|i: GrammarItemKey, t: Token| k.dom().contains(i) && #[trigger] k[i]@.contains(t) implies in_c1(g, k, i, t) by { assert(c1(g, k, i, t, 1)); }
}
pub proof fn lemma_closed_end(g: Seq<Production>, m1: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>, l: Seq<(GrammarItemKey, TokenSet)>)
    requires same(m1, m), listed(m1, l), forall|b: int| 0 <= b < l.len() ==> all_fed(g, m, #[trigger] l[b])
    ensures closed(g, m)
{
    assert forall|j: GrammarItemKey, p: Production| #[trigger] m.dom().contains(j) && #[trigger] g.contains(p) && next_is(j, p.lhs()) implies fed(m, j, m[j]@, p) by {
        assert(m1.dom().contains(j));
        assert(closable(j));
        let b = choose|b: int| 0 <= b < l.len() && (#[trigger] l[b]).0 == j;
        assert(all_fed(g, m, l[b]));
        let a = choose|a: int| 0 <= a < g.len() && g[a] == p;
        assert(next_is(l[b].0, g[a].lhs()));
    }
}
// m2 is m with the item [p -> .] having the additional look ahead tokens firsts
pub open spec fn added(m: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, firsts: Set<Token>) -> bool {
    &&& forall|j: GrammarItemKey| #[trigger] m2.dom().contains(j) <==> m.dom().contains(j) || j == i
    &&& forall|j: GrammarItemKey| j != i && #[trigger] m.dom().contains(j) ==> m2[j] == m[j]
    &&& m.dom().contains(i) ==> m2[i]@ == m[i]@.union(firsts)
    &&& !m.dom().contains(i) ==> m2[i]@ == firsts
}
pub proof fn lemma_feed(g: Seq<Production>, k0: Map<GrammarItemKey, TokenSet>, m1: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>, key: GrammarItemKey, las: Set<Token>, p: Production, firsts: Set<Token>)
    requires
        sound(g, k0, m1), m1.dom().contains(key), m1[key]@ == las,
        sound(g, k0, m), keys_ok(g, m), extends(k0, m), extends(m1, m),
        g.contains(p), next_is(key, p.lhs()), feeds(key, las, firsts), added(m, m2, item0(p), firsts),
    ensures sound(g, k0, m2), keys_ok(g, m2), extends(m, m2), extends(k0, m2), extends(m1, m2), fed(m2, key, las, p)
{
    let i0 = item0(p);
    lemma_c0_step(g, k0, key, p);
    assert forall|i: GrammarItemKey, t: Token| m2.dom().contains(i) && #[trigger] m2[i]@.contains(t) implies in_c1(g, k0, i, t) by {
        if i == i0 && firsts.contains(t) {
            let u = choose|u: Token| #[trigger] las.contains(u) && first_str(key.tail(), u).contains(t);
            assert(m1[key]@.contains(u));
            lemma_c1_step(g, k0, key, u, p, t);
        } else {
            assert(m.dom().contains(i));
            assert(m[i]@.contains(t));
        }
    }
    assert forall|u: Token, t: Token| #[trigger] las.contains(u) && #[trigger] first_str(key.tail(), u).contains(t) implies m2[item0(p)]@.contains(t) by {
        assert(gives(key, las, t));
        assert(firsts.contains(t));
    }
}
pub proof fn lemma_fed_mono(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>, l: Seq<(GrammarItemKey, TokenSet)>, b0: int, key: GrammarItemKey, las: Set<Token>, n: int)
    requires
        extends(m, m2), 0 <= b0 <= l.len(), n <= g.len(),
        forall|b: int| 0 <= b < b0 ==> all_fed(g, m, #[trigger] l[b]),
    ensures
        forall|b: int| 0 <= b < b0 ==> all_fed(g, m2, #[trigger] l[b]),
        forall|p: Production| #[trigger] fed(m, key, las, p) ==> fed(m2, key, las, p),
{
    assert forall|b: int| 0 <= b < b0 implies all_fed(g, m2, #[trigger] l[b]) by {
        assert(all_fed(g, m, l[b]));
        assert forall|a: int| 0 <= a < g.len() && next_is(l[b].0, (#[trigger] g[a]).lhs()) implies fed(m2, l[b].0, l[b].1@, g[a]) by {
            assert(fed(m, l[b].0, l[b].1@, g[a]));
        }
    }
}
// a step of the closure is sound
pub proof fn lemma_c0_step(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, j: GrammarItemKey, p: Production)
    requires in_c0(g, k, j), g.contains(p), next_is(j, p.lhs())
    ensures in_c0(g, k, item0(p))
{
    let n = choose|n: nat| c0(g, k, j, n);
    assert(c0(g, k, j, (n + 1 - 1) as nat));
    assert(c0(g, k, item0(p), n + 1));
}
pub proof fn lemma_c1_step(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, j: GrammarItemKey, u: Token, p: Production, t: Token)
    requires in_c1(g, k, j, u), g.contains(p), next_is(j, p.lhs()), first_str(j.tail(), u).contains(t)
    ensures in_c1(g, k, item0(p), t)
{
    let n = choose|n: nat| c1(g, k, j, u, n);
    assert(c1(g, k, j, u, (n + 1 - 1) as nat));
    assert(c1(g, k, item0(p), t, n + 1));
}

// ------------------------------------------------------------------ conflict resolution (C12)
pub open spec fn sr_conflict(m: Map<GrammarItemKey, TokenSet>, sh: Map<Token, ParserState>, t: Token, i: GrammarItemKey) -> bool {
    sh.dom().contains(t) && m.dom().contains(i) && i.red() && m[i]@.contains(t)
}
// the production's precedence is higher, or equal and it is left associative
pub open spec fn reduce_wins(t: Token, i: GrammarItemKey) -> bool {
    tok_prec(t) < i.production.prec() || (tok_prec(t) == i.production.prec() && i.production.assoc() is Left)
}
pub open spec fn sr_undecided(t: Token, i: GrammarItemKey) -> bool {
    tok_prec(t) == i.production.prec() && !(i.production.assoc() is Left) && !i.production.err_tail()
}
pub open spec fn sr_resolved(m: Map<GrammarItemKey, TokenSet>, sh: Map<Token, ParserState>, m2: Map<GrammarItemKey, TokenSet>, sh2: Map<Token, ParserState>,
    left: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>) -> bool
{
    &&& forall|t: Token| #[trigger] sh2.dom().contains(t) <==> sh.dom().contains(t) && !reduces_over(m, sh, t)
    &&& forall|t: Token| #[trigger] sh2.dom().contains(t) ==> sh2[t] == sh[t]
    &&& forall|i: GrammarItemKey| #[trigger] m2.dom().contains(i) <==> m.dom().contains(i)
    &&& forall|i: GrammarItemKey, t: Token| m.dom().contains(i) ==> (#[trigger] m2[i]@.contains(t) <==> m[i]@.contains(t) && (sr_conflict(m, sh, t, i) ==> reduce_wins(t, i)))
    // the conflicts left to the default are counted once each
    &&& forall|a: int| 0 <= a < left.len() ==> sr_conflict(m, sh, (#[trigger] left[a]).0, left[a].2) && sr_undecided(left[a].0, left[a].2)
    &&& forall|t: Token, i: GrammarItemKey| #[trigger] sr_conflict(m, sh, t, i) && sr_undecided(t, i) ==> exists|a: int| 0 <= a < left.len() && (#[trigger] left[a]).0 == t && left[a].2 == i
    &&& forall|a: int, b: int| 0 <= a < b < left.len() ==> !((#[trigger] left[a]).0 == (#[trigger] left[b]).0 && left[a].2 == left[b].2)
}
pub open spec fn reduces_over(m: Map<GrammarItemKey, TokenSet>, sh: Map<Token, ParserState>, t: Token) -> bool {
    exists|i: GrammarItemKey| #[trigger] sr_conflict(m, sh, t, i) && reduce_wins(t, i)
}
pub open spec fn has_conflict(c: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>, t: Token, i: GrammarItemKey) -> bool {
    exists|a: int| 0 <= a < c.len() && (#[trigger] c[a]).0 == t && c[a].2 == i
}
pub open spec fn listed_conflicts(m: Map<GrammarItemKey, TokenSet>, sh: Map<Token, ParserState>, c: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>) -> bool {
    &&& forall|a: int| 0 <= a < c.len() ==> sr_conflict(m, sh, (#[trigger] c[a]).0, c[a].2)
    &&& forall|a: int, b: int| 0 <= a < b < c.len() ==> !((#[trigger] c[a]).0 == (#[trigger] c[b]).0 && c[a].2 == c[b].2)
}
pub proof fn lemma_conflict_pushed(c: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>)
    ensures forall|x: (Token, ParserState, GrammarItemKey, TokenSet), t: Token, i: GrammarItemKey| #[trigger] has_conflict(c.push(x), t, i) <==> has_conflict(c, t, i) || (x.0 == t && x.2 == i)
{
    assert forall|x: (Token, ParserState, GrammarItemKey, TokenSet), t: Token, i: GrammarItemKey| #[trigger] has_conflict(c.push(x), t, i) <==> has_conflict(c, t, i) || (x.0 == t && x.2 == i) by {
        if has_conflict(c, t, i) {
            let a = choose|a: int| 0 <= a < c.len() && (#[trigger] c[a]).0 == t && c[a].2 == i;
            assert(c.push(x)[a].0 == t);
        }
        if x.0 == t && x.2 == i { assert(c.push(x)[c.len() as int].0 == t); }
    }
}
// after the first n conflicts have been resolved
pub open spec fn sr_partly(m0: Map<GrammarItemKey, TokenSet>, s0: Map<Token, ParserState>, c: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>, n: int,
    m: Map<GrammarItemKey, TokenSet>, s: Map<Token, ParserState>, left: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>) -> bool
{
    &&& forall|t: Token| #[trigger] s.dom().contains(t) ==> s0.dom().contains(t) && s[t] == s0[t]
    &&& forall|t: Token| #[trigger] s0.dom().contains(t) && !s.dom().contains(t) ==> reduces_over(m0, s0, t)
    &&& forall|a: int| 0 <= a < n && reduce_wins((#[trigger] c[a]).0, c[a].2) ==> !s.dom().contains(c[a].0)
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> m0.dom().contains(i)
    &&& forall|i: GrammarItemKey, t: Token| m0.dom().contains(i) && #[trigger] m[i]@.contains(t) ==> m0[i]@.contains(t)
    &&& forall|i: GrammarItemKey, t: Token| m0.dom().contains(i) && m0[i]@.contains(t) && !(#[trigger] m[i]@.contains(t)) ==> sr_conflict(m0, s0, t, i) && !reduce_wins(t, i)
    &&& forall|a: int| 0 <= a < n && !reduce_wins((#[trigger] c[a]).0, c[a].2) ==> !m[c[a].2]@.contains(c[a].0)
    &&& forall|e: int| 0 <= e < left.len() ==> sr_undecided((#[trigger] left[e]).0, left[e].2) && exists|a: int| 0 <= a < n && (#[trigger] c[a]).0 == left[e].0 && c[a].2 == left[e].2
    &&& forall|a: int| 0 <= a < n && sr_undecided((#[trigger] c[a]).0, c[a].2) ==> has_conflict(left, c[a].0, c[a].2)
    &&& forall|a: int, b: int| 0 <= a < b < left.len() ==> !((#[trigger] left[a]).0 == (#[trigger] left[b]).0 && left[a].2 == left[b].2)
}
pub proof fn lemma_sr_step(m0: Map<GrammarItemKey, TokenSet>, s0: Map<Token, ParserState>, c: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>, n: int,
    m: Map<GrammarItemKey, TokenSet>, s: Map<Token, ParserState>, left: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>,
    m2: Map<GrammarItemKey, TokenSet>, s2: Map<Token, ParserState>, left2: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>)
    requires
        listed_conflicts(m0, s0, c), 0 <= n < c.len(), sr_partly(m0, s0, c, n, m, s, left),
        reduce_wins(c[n].0, c[n].2) ==> s2 == s.remove(c[n].0) && m2 == m,
        !reduce_wins(c[n].0, c[n].2) ==> s2 == s && (forall|i: GrammarItemKey| #[trigger] m2.dom().contains(i) <==> m.dom().contains(i)) && (forall|i: GrammarItemKey| i != c[n].2 && #[trigger] m.dom().contains(i) ==> m2[i] == m[i]) && m2[c[n].2]@ == m[c[n].2]@.remove(c[n].0),
        sr_undecided(c[n].0, c[n].2) ==> left2.len() == left.len() + 1 && left2.last().0 == c[n].0 && left2.last().2 == c[n].2 && left2.drop_last() =~= left,
        !sr_undecided(c[n].0, c[n].2) ==> left2 == left,
    ensures sr_partly(m0, s0, c, n + 1, m2, s2, left2)
{
    let (t0, i0) = (c[n].0, c[n].2);
    assert(sr_conflict(m0, s0, t0, i0));
    if sr_undecided(t0, i0) {
        assert(left2 =~= left.push(left2.last()));
        lemma_conflict_pushed(left);
        assert forall|e: int| 0 <= e < left2.len() implies sr_undecided((#[trigger] left2[e]).0, left2[e].2) && exists|a: int| 0 <= a < n + 1 && (#[trigger] c[a]).0 == left2[e].0 && c[a].2 == left2[e].2 by {
            if e < left.len() {
                assert(left2[e] == left[e]);
                let a = choose|a: int| 0 <= a < n && (#[trigger] c[a]).0 == left[e].0 && c[a].2 == left[e].2;
                assert(c[a].0 == left2[e].0);
            } else {
                assert(c[n].0 == left2[e].0);
            }
        }
        assert forall|a: int, b: int| 0 <= a < b < left2.len() implies !((#[trigger] left2[a]).0 == (#[trigger] left2[b]).0 && left2[a].2 == left2[b].2) by {
            assert(left2[a] == left[a]);
            if b < left.len() { assert(left2[b] == left[b]); } else {
                let x = choose|x: int| 0 <= x < n && (#[trigger] c[x]).0 == left[a].0 && c[x].2 == left[a].2;
                assert(c[x].0 == left[a].0);
            }
        }
    } else {
        assert forall|e: int| 0 <= e < left2.len() implies sr_undecided((#[trigger] left2[e]).0, left2[e].2) && exists|a: int| 0 <= a < n + 1 && (#[trigger] c[a]).0 == left2[e].0 && c[a].2 == left2[e].2 by {
            assert(left[e] == left2[e]);
            let a = choose|a: int| 0 <= a < n && (#[trigger] c[a]).0 == left[e].0 && c[a].2 == left[e].2;
            assert(c[a].0 == left2[e].0);
        }
    }
    assert forall|a: int| 0 <= a < n + 1 && sr_undecided((#[trigger] c[a]).0, c[a].2) implies has_conflict(left2, c[a].0, c[a].2) by {
        if a < n { assert(has_conflict(left, c[a].0, c[a].2)); }
    }
    assert forall|i: GrammarItemKey, t: Token| m0.dom().contains(i) && #[trigger] m2[i]@.contains(t) implies m0[i]@.contains(t) by { assert(m.dom().contains(i)); assert(m[i]@.contains(t)); }
    assert forall|i: GrammarItemKey, t: Token| m0.dom().contains(i) && m0[i]@.contains(t) && !(#[trigger] m2[i]@.contains(t)) implies sr_conflict(m0, s0, t, i) && !reduce_wins(t, i) by {
        assert(m.dom().contains(i));
        if !m[i]@.contains(t) { }
    }
    assert forall|a: int| 0 <= a < n + 1 && !reduce_wins((#[trigger] c[a]).0, c[a].2) implies !m2[c[a].2]@.contains(c[a].0) by {
        assert(sr_conflict(m0, s0, c[a].0, c[a].2));
        assert(m.dom().contains(c[a].2));
    }
    assert forall|a: int| 0 <= a < n + 1 && reduce_wins((#[trigger] c[a]).0, c[a].2) implies !s2.dom().contains(c[a].0) by {
        if a < n { assert(!s.dom().contains(c[a].0)); }
    }
}
pub proof fn lemma_sr_done(m0: Map<GrammarItemKey, TokenSet>, s0: Map<Token, ParserState>, c: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>,
    m: Map<GrammarItemKey, TokenSet>, s: Map<Token, ParserState>, left: Seq<(Token, ParserState, GrammarItemKey, TokenSet)>)
    requires
        listed_conflicts(m0, s0, c), sr_partly(m0, s0, c, c.len() as int, m, s, left),
        forall|t: Token, i: GrammarItemKey| #[trigger] sr_conflict(m0, s0, t, i) ==> has_conflict(c, t, i),
    ensures sr_resolved(m0, s0, m, s, left)
{
    assert forall|t: Token| #[trigger] s.dom().contains(t) <==> s0.dom().contains(t) && !reduces_over(m0, s0, t) by {
        if reduces_over(m0, s0, t) {
            let i = choose|i: GrammarItemKey| #[trigger] sr_conflict(m0, s0, t, i) && reduce_wins(t, i);
            let a = choose|a: int| 0 <= a < c.len() && (#[trigger] c[a]).0 == t && c[a].2 == i;
            assert(!s.dom().contains(c[a].0));
        }
    }
    assert forall|i: GrammarItemKey, t: Token| m0.dom().contains(i) implies (#[trigger] m[i]@.contains(t) <==> m0[i]@.contains(t) && (sr_conflict(m0, s0, t, i) ==> reduce_wins(t, i))) by {
        if sr_conflict(m0, s0, t, i) && !reduce_wins(t, i) {
            let a = choose|a: int| 0 <= a < c.len() && (#[trigger] c[a]).0 == t && c[a].2 == i;
            assert(!m[c[a].2]@.contains(c[a].0));
        }
    }
    assert forall|e: int| 0 <= e < left.len() implies sr_conflict(m0, s0, (#[trigger] left[e]).0, left[e].2) by {
        let a = choose|a: int| 0 <= a < c.len() && (#[trigger] c[a]).0 == left[e].0 && c[a].2 == left[e].2;
        assert(sr_conflict(m0, s0, c[a].0, c[a].2));
    }
    assert forall|t: Token, i: GrammarItemKey| #[trigger] sr_conflict(m0, s0, t, i) && sr_undecided(t, i) implies exists|a: int| 0 <= a < left.len() && (#[trigger] left[a]).0 == t && left[a].2 == i by {
        let a = choose|a: int| 0 <= a < c.len() && (#[trigger] c[a]).0 == t && c[a].2 == i;
        assert(has_conflict(left, c[a].0, c[a].2));
    }
}
// a production whose claim on a token beats those of the later ones
pub open spec fn plain(i: GrammarItemKey) -> bool { !i.production.pred() && !i.production.err_tail() }
// an error recovery production gives way to the later ones
pub open spec fn yielding(i: GrammarItemKey) -> bool { !i.production.pred() && i.production.err_tail() }
pub open spec fn claims(m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token) -> bool { m.dom().contains(i) && i.red() && m[i]@.contains(t) }
pub open spec fn beaten(m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token) -> bool {
    exists|j: GrammarItemKey| #[trigger] claims(m, j, t) && plain(j) && j.olt(i)
}
pub open spec fn gives_way(m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token) -> bool {
    yielding(i) && exists|j: GrammarItemKey| #[trigger] claims(m, j, t) && i.olt(j)
}
// the pairs of productions of which the second loses a token, without the grammar saying so
pub open spec fn rr_undecided(m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, j: GrammarItemKey) -> bool {
    plain(i) && !j.production.err_tail() && i.olt(j) && exists|t: Token| #[trigger] claims(m, i, t) && claims(m, j, t) && !beaten(m, i, t)
}
pub open spec fn rr_resolved(m: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] m2.dom().contains(i) <==> m.dom().contains(i)
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) && !i.red() ==> m2[i] == m[i]
    &&& forall|i: GrammarItemKey, t: Token| m.dom().contains(i) && i.red() ==> (#[trigger] m2[i]@.contains(t) <==> m[i]@.contains(t) && !beaten(m, i, t) && !gives_way(m, i, t))
    &&& forall|a: int| 0 <= a < left.len() ==> rr_undecided(m, (#[trigger] left[a]).0.0, left[a].0.1)
    &&& forall|i: GrammarItemKey, j: GrammarItemKey| #[trigger] rr_undecided(m, i, j) ==> exists|a: int| 0 <= a < left.len() && (#[trigger] left[a]).0 == (i, j)
    &&& forall|a: int, b: int| 0 <= a < b < left.len() ==> (#[trigger] left[a]).0 != (#[trigger] left[b]).0
}
// position by position, in the order of the items
pub open spec fn k_ok(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>) -> bool {
    &&& ascending(ks)
    &&& forall|x: int| 0 <= x < ks.len() ==> m.dom().contains(*#[trigger] ks[x]) && (*ks[x]).red()
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) && i.red() ==> exists|x: int| 0 <= x < ks.len() && *#[trigger] ks[x] == i
}
pub open spec fn outdone(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, t: Token) -> bool {
    exists|y: int| 0 <= y < a && y < ks.len() && plain(*#[trigger] ks[y]) && m[*ks[y]]@.contains(t)
}
pub open spec fn followed(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, x: int, t: Token) -> bool {
    exists|z: int| x < z < ks.len() && m[*#[trigger] ks[z]]@.contains(t)
}
// does ks[x] still have t after the turns of ks[0..a]?
pub open spec fn holds(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, x: int, t: Token) -> bool {
    &&& m[*ks[x]]@.contains(t)
    &&& !outdone(m, ks, if a < x { a } else { x }, t)
    &&& !(yielding(*ks[x]) && x < a && followed(m, ks, x, t))
}
pub open spec fn after_turns(m0: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, m: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> m0.dom().contains(i)
    &&& forall|i: GrammarItemKey| #[trigger] m0.dom().contains(i) && !i.red() ==> m[i] == m0[i]
    &&& forall|x: int, t: Token| 0 <= x < ks.len() ==> (#[trigger] m[*ks[x]]@.contains(t) <==> holds(m0, ks, a, x, t))
}
// the turn of ks[a], up to ks[b], from ms to m
pub open spec fn in_turn(ms: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, b: int, m: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> ms.dom().contains(i)
    &&& forall|i: GrammarItemKey| #[trigger] ms.dom().contains(i) && !i.red() ==> m[i] == ms[i]
    &&& forall|x: int, t: Token| 0 <= x < ks.len() ==> (#[trigger] m[*ks[x]]@.contains(t) <==> ms[*ks[x]]@.contains(t)
            && !(plain(*ks[a]) && a < x < b && ms[*ks[a]]@.contains(t))
            && !(yielding(*ks[a]) && x == a && exists|z: int| a < z < b && ms[*#[trigger] ks[z]]@.contains(t)))
}
pub proof fn lemma_turn(m0: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, ms: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>)
    requires k_ok(m0, ks), 0 <= a < ks.len(), after_turns(m0, ks, a, ms), in_turn(ms, ks, a, ks.len() as int, m)
    ensures after_turns(m0, ks, a + 1, m)
{
    assert forall|i: GrammarItemKey| #[trigger] m0.dom().contains(i) && !i.red() implies m[i] == m0[i] by { assert(ms.dom().contains(i)); }
    assert forall|x: int, t: Token| 0 <= x < ks.len() implies (#[trigger] m[*ks[x]]@.contains(t) <==> holds(m0, ks, a + 1, x, t)) by {
        assert(ms[*ks[x]]@.contains(t) <==> holds(m0, ks, a, x, t));
        assert(ms[*ks[a]]@.contains(t) <==> holds(m0, ks, a, a, t));
        assert(outdone(m0, ks, a + 1, t) <==> outdone(m0, ks, a, t) || (plain(*ks[a]) && m0[*ks[a]]@.contains(t)));
        if x == a && yielding(*ks[a]) && ms[*ks[a]]@.contains(t) {
            if followed(m0, ks, a, t) {
                let z = choose|z: int| a < z < ks.len() && m0[*#[trigger] ks[z]]@.contains(t);
                assert(ms[*ks[z]]@.contains(t) <==> holds(m0, ks, a, z, t));
            }
            if exists|z: int| a < z < ks.len() && ms[*#[trigger] ks[z]]@.contains(t) {
                let z = choose|z: int| a < z < ks.len() && ms[*#[trigger] ks[z]]@.contains(t);
                assert(ms[*ks[z]]@.contains(t) <==> holds(m0, ks, a, z, t));
                assert(followed(m0, ks, a, t));
            }
        }
    }
}
pub proof fn lemma_before(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, x: int, t: Token)
    requires k_ok(m, ks), 0 <= x < ks.len()
    ensures outdone(m, ks, x, t) <==> beaten(m, *ks[x], t), yielding(*ks[x]) ==> (followed(m, ks, x, t) <==> gives_way(m, *ks[x], t))
{
    if outdone(m, ks, x, t) {
        let y = choose|y: int| 0 <= y < x && y < ks.len() && plain(*#[trigger] ks[y]) && m[*ks[y]]@.contains(t);
        assert(claims(m, *ks[y], t));
    }
    if beaten(m, *ks[x], t) {
        let j = choose|j: GrammarItemKey| #[trigger] claims(m, j, t) && plain(j) && j.olt(*ks[x]);
        let y = choose|y: int| 0 <= y < ks.len() && *#[trigger] ks[y] == j;
        if x < y { assert((*ks[x]).olt(*ks[y])); }
        assert(y < x);
    }
    if followed(m, ks, x, t) {
        let z = choose|z: int| x < z < ks.len() && m[*#[trigger] ks[z]]@.contains(t);
        assert(claims(m, *ks[z], t));
    }
    if gives_way(m, *ks[x], t) {
        let j = choose|j: GrammarItemKey| #[trigger] claims(m, j, t) && (*ks[x]).olt(j);
        let y = choose|y: int| 0 <= y < ks.len() && *#[trigger] ks[y] == j;
        if y < x { assert((*ks[y]).olt(*ks[x])); }
        assert(x < y);
    }
}
pub open spec fn rr_pair(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, x: int, z: int) -> bool {
    plain(*ks[x]) && !(*ks[z]).production.err_tail() && exists|t: Token| #[trigger] m[*ks[x]]@.contains(t) && m[*ks[z]]@.contains(t) && !outdone(m, ks, x, t)
}
// the pairs found in the turns of ks[0..a] and, in the turn of ks[a], up to ks[b]
pub open spec fn rr_found(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, b: int, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>) -> bool {
    &&& forall|e: int| 0 <= e < left.len() ==> rr_at(m, ks, a, b, (#[trigger] left[e]).0)
    &&& forall|x: int, z: int| 0 <= x < z < ks.len() && (x < a || (x == a && z < b)) && #[trigger] rr_pair(m, ks, x, z) ==> exists|e: int| 0 <= e < left.len() && (#[trigger] left[e]).0 == (*ks[x], *ks[z])
    &&& forall|e: int, f: int| 0 <= e < f < left.len() ==> (#[trigger] left[e]).0 != (#[trigger] left[f]).0
}
pub open spec fn rr_at(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, b: int, p: (GrammarItemKey, GrammarItemKey)) -> bool {
    exists|x: int, z: int| 0 <= x < z < ks.len() && (x < a || (x == a && z < b)) && #[trigger] rr_pair(m, ks, x, z) && p == (*ks[x], *ks[z])
}
pub proof fn lemma_rr_done(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, m2: Map<GrammarItemKey, TokenSet>, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>)
    requires k_ok(m, ks), after_turns(m, ks, ks.len() as int, m2), rr_found(m, ks, ks.len() as int, 0, left)
    ensures rr_resolved(m, m2, left)
{
    assert forall|i: GrammarItemKey, t: Token| m.dom().contains(i) && i.red() implies (#[trigger] m2[i]@.contains(t) <==> m[i]@.contains(t) && !beaten(m, i, t) && !gives_way(m, i, t)) by {
        let x = choose|x: int| 0 <= x < ks.len() && *#[trigger] ks[x] == i;
        assert(m2[*ks[x]]@.contains(t) <==> holds(m, ks, ks.len() as int, x, t));
        lemma_before(m, ks, x, t);
    }
    assert forall|a: int| 0 <= a < left.len() implies rr_undecided(m, (#[trigger] left[a]).0.0, left[a].0.1) by {
        let (x, z) = choose|x: int, z: int| 0 <= x < z < ks.len() && #[trigger] rr_pair(m, ks, x, z) && left[a].0 == (*ks[x], *ks[z]);
        let t = choose|t: Token| #[trigger] m[*ks[x]]@.contains(t) && m[*ks[z]]@.contains(t) && !outdone(m, ks, x, t);
        lemma_before(m, ks, x, t);
        assert(claims(m, *ks[x], t) && claims(m, *ks[z], t));
        assert((*ks[x]).olt(*ks[z]));
    }
    assert forall|i: GrammarItemKey, j: GrammarItemKey| #[trigger] rr_undecided(m, i, j) implies exists|a: int| 0 <= a < left.len() && (#[trigger] left[a]).0 == (i, j) by {
        let t = choose|t: Token| #[trigger] claims(m, i, t) && claims(m, j, t) && !beaten(m, i, t);
        let x = choose|x: int| 0 <= x < ks.len() && *#[trigger] ks[x] == i;
        let z = choose|z: int| 0 <= z < ks.len() && *#[trigger] ks[z] == j;
        if z < x { assert((*ks[z]).olt(*ks[x])); }
        lemma_before(m, ks, x, t);
        assert(m[*ks[x]]@.contains(t));
        assert(rr_pair(m, ks, x, z));
    }
}
pub proof fn lemma_rr_turn(m: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>)
    requires 0 <= a < ks.len(), rr_found(m, ks, a, ks.len() as int, left)
    ensures rr_found(m, ks, a + 1, 0, left)
{
    assert forall|e: int| 0 <= e < left.len() implies rr_at(m, ks, a + 1, 0, (#[trigger] left[e]).0) by {
        assert(rr_at(m, ks, a, ks.len() as int, left[e].0));
    }
}
// the step for ks[b] in the turn of ks[a]
pub proof fn lemma_rr_step(m0: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, b: int, ms: Map<GrammarItemKey, TokenSet>,
    m: Map<GrammarItemKey, TokenSet>, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>, m2: Map<GrammarItemKey, TokenSet>, left2: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>)
    requires
        k_ok(m0, ks), 0 <= a < ks.len(), 0 <= b < ks.len(), after_turns(m0, ks, a, ms), in_turn(ms, ks, a, b, m), rr_found(m0, ks, a, b, left),
        ({
            let (i, j) = (*ks[a], *ks[b]);
            let meet = exists|t: Token| #[trigger] m[i]@.contains(t) && m[j]@.contains(t);
            &&& !(i.olt(j) && meet && !i.production.pred()) ==> m2 == m && left2 == left
            &&& i.olt(j) && meet && yielding(i) ==> less(m, m2, i, j, i) && left2 == left
            &&& i.olt(j) && meet && plain(i) ==> less(m, m2, i, j, j)
            &&& i.olt(j) && meet && plain(i) && j.production.err_tail() ==> left2 == left
            &&& i.olt(j) && meet && plain(i) && !j.production.err_tail() ==> left2.len() == left.len() + 1 && left2.last().0 == (i, j) && left2.drop_last() =~= left
        }),
    ensures in_turn(ms, ks, a, b + 1, m2), rr_found(m0, ks, a, b + 1, left2)
{
    let (i, j) = (*ks[a], *ks[b]);
    let meet = exists|t: Token| #[trigger] m[i]@.contains(t) && m[j]@.contains(t);
    if b < a { assert((*ks[b]).olt(*ks[a])); }
    if a < b { assert((*ks[a]).olt(*ks[b])); }
    assert(i.olt(j) <==> a < b);
    assert forall|x: GrammarItemKey| #[trigger] ms.dom().contains(x) && !x.red() implies m2[x] == ms[x] by { assert(m.dom().contains(x)); }
    assert forall|x: int| 0 <= x < ks.len() implies #[trigger] m.dom().contains(*ks[x]) by { assert(m0.dom().contains(*ks[x])); assert(ms.dom().contains(*ks[x])); }
    assert(forall|x: int, y: int| 0 <= x < y < ks.len() ==> *#[trigger] ks[x] != *#[trigger] ks[y]) by {
        assert forall|x: int, y: int| 0 <= x < y < ks.len() implies *#[trigger] ks[x] != *#[trigger] ks[y] by { assert((*ks[x]).olt(*ks[y])); }
    }
    assert forall|x: int, t: Token| 0 <= x < ks.len() implies (#[trigger] m2[*ks[x]]@.contains(t) <==> ms[*ks[x]]@.contains(t)
            && !(plain(*ks[a]) && a < x < b + 1 && ms[*ks[a]]@.contains(t))
            && !(yielding(*ks[a]) && x == a && exists|z: int| a < z < b + 1 && ms[*#[trigger] ks[z]]@.contains(t))) by {
        assert(m[*ks[x]]@.contains(t) <==> ms[*ks[x]]@.contains(t)
            && !(plain(*ks[a]) && a < x < b && ms[*ks[a]]@.contains(t))
            && !(yielding(*ks[a]) && x == a && exists|z: int| a < z < b && ms[*#[trigger] ks[z]]@.contains(t)));
        assert(m[*ks[a]]@.contains(t) <==> ms[*ks[a]]@.contains(t)
            && !(yielding(*ks[a]) && exists|z: int| a < z < b && ms[*#[trigger] ks[z]]@.contains(t)));
        assert(a < b ==> (m[*ks[b]]@.contains(t) <==> ms[*ks[b]]@.contains(t)));
        assert(x != a && x != b ==> m2[*ks[x]] == m[*ks[x]]) by { assert(m.dom().contains(*ks[x])); }
        assert(m.dom().contains(*ks[x]));
        if x == a && yielding(i) && a < b {
            assert((exists|z: int| a < z < b + 1 && ms[*#[trigger] ks[z]]@.contains(t)) <==> (exists|z: int| a < z < b && ms[*#[trigger] ks[z]]@.contains(t)) || ms[*ks[b]]@.contains(t));
        }
    }
    if a < b && plain(i) && !j.production.err_tail() {
        assert(meet <==> rr_pair(m0, ks, a, b)) by {
            if meet {
                let t = choose|t: Token| #[trigger] m[i]@.contains(t) && m[j]@.contains(t);
                assert(ms[*ks[a]]@.contains(t) && ms[*ks[b]]@.contains(t));
                assert(holds(m0, ks, a, a, t) && holds(m0, ks, a, b, t));
                assert(m0[*ks[a]]@.contains(t));
            }
            if rr_pair(m0, ks, a, b) {
                let t = choose|t: Token| #[trigger] m0[*ks[a]]@.contains(t) && m0[*ks[b]]@.contains(t) && !outdone(m0, ks, a, t);
                assert(holds(m0, ks, a, a, t) && holds(m0, ks, a, b, t));
                assert(ms[*ks[a]]@.contains(t) && ms[*ks[b]]@.contains(t));
                assert(m[*ks[a]]@.contains(t) && m[*ks[b]]@.contains(t));
            }
        }
        if meet {
            assert(left2 =~= left.push(left2.last()));
            assert forall|e: int| 0 <= e < left2.len() implies rr_at(m0, ks, a, b + 1, (#[trigger] left2[e]).0) by {
                if e < left.len() { assert(left2[e] == left[e]); assert(rr_at(m0, ks, a, b, left[e].0)); } else { assert(rr_pair(m0, ks, a, b)); }
            }
            assert forall|x: int, z: int| 0 <= x < z < ks.len() && (x < a || (x == a && z < b + 1)) && #[trigger] rr_pair(m0, ks, x, z) implies exists|e: int| 0 <= e < left2.len() && (#[trigger] left2[e]).0 == (*ks[x], *ks[z]) by {
                if x == a && z == b { assert(left2[left.len() as int].0 == (*ks[x], *ks[z])); } else {
                    let e = choose|e: int| 0 <= e < left.len() && (#[trigger] left[e]).0 == (*ks[x], *ks[z]);
                    assert(left2[e].0 == (*ks[x], *ks[z]));
                }
            }
            assert forall|e: int, f: int| 0 <= e < f < left2.len() implies (#[trigger] left2[e]).0 != (#[trigger] left2[f]).0 by {
                assert(left2[e] == left[e]);
                assert(rr_at(m0, ks, a, b, left[e].0));
                if f < left.len() { assert(left2[f] == left[f]); }
            }
        }
    }
    if left2 == left {
        assert forall|e: int| 0 <= e < left2.len() implies rr_at(m0, ks, a, b + 1, (#[trigger] left2[e]).0) by {
            assert(rr_at(m0, ks, a, b, left[e].0));
        }
    }
}
pub proof fn lemma_rr_doms(m0: Map<GrammarItemKey, TokenSet>, ks: Seq<&GrammarItemKey>, a: int, b: int, ms: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>)
    requires k_ok(m0, ks), 0 <= a < ks.len(), 0 <= b < ks.len(), after_turns(m0, ks, a, ms), in_turn(ms, ks, a, b, m)
    ensures m.dom().contains(*ks[a]), m.dom().contains(*ks[b])
{
    assert(m0.dom().contains(*ks[a]) && m0.dom().contains(*ks[b]));
    assert(ms.dom().contains(*ks[a]) && ms.dom().contains(*ks[b]));
}
pub proof fn lemma_meet(x: Set<Token>, y: Set<Token>)
    ensures x.intersect(y).len() > 0 <==> exists|t: Token| #[trigger] x.contains(t) && y.contains(t)
{
    if x.intersect(y).len() > 0 && !(exists|t: Token| #[trigger] x.contains(t) && y.contains(t)) { assert(x.intersect(y) =~= Set::<Token>::empty()); }
    if exists|t: Token| #[trigger] x.contains(t) && y.contains(t) {
        let t = choose|t: Token| #[trigger] x.contains(t) && y.contains(t);
        assert(x.intersect(y).contains(t));
        if x.intersect(y).len() == 0 { assert(x.intersect(y) =~= Set::<Token>::empty()); }
    }
}
// the look ahead tokens that i and j have in common are removed from k
pub open spec fn less(m: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, j: GrammarItemKey, k: GrammarItemKey) -> bool {
    &&& forall|x: GrammarItemKey| #[trigger] m2.dom().contains(x) <==> m.dom().contains(x)
    &&& forall|x: GrammarItemKey| x != k && #[trigger] m.dom().contains(x) ==> m2[x] == m[x]
    &&& forall|t: Token| #[trigger] m2[k]@.contains(t) <==> m[k]@.contains(t) && !(m[i]@.contains(t) && m[j]@.contains(t))
}
pub proof fn lemma_few(m: Map<GrammarItemKey, TokenSet>, s: OrderedSet<GrammarItemKey>, left: Seq<((GrammarItemKey, GrammarItemKey), TokenSet)>)
    requires s@.len() < 2, left.len() == 0, forall|k: GrammarItemKey| #[trigger] s@.contains(k) <==> m.dom().contains(k) && k.red()
    ensures rr_resolved(m, m, left)
{
    assert forall|i: GrammarItemKey, j: GrammarItemKey| s@.contains(i) && s@.contains(j) implies i == j by {
        if i != j {
            assert(set![i, j].subset_of(s@));
            vstd::set_lib::lemma_len_subset(set![i, j], s@);
            assert(set![i, j].len() == 2);
        }
    }
    assert forall|i: GrammarItemKey, t: Token| m.dom().contains(i) && i.red() implies !beaten(m, i, t) && !gives_way(m, i, t) by {
        assert(s@.contains(i));
        if beaten(m, i, t) { let j = choose|j: GrammarItemKey| #[trigger] claims(m, j, t) && plain(j) && j.olt(i); assert(s@.contains(j)); }
        if gives_way(m, i, t) { let j = choose|j: GrammarItemKey| #[trigger] claims(m, j, t) && i.olt(j); assert(s@.contains(j)); }
    }
    assert forall|i: GrammarItemKey, j: GrammarItemKey| !#[trigger] rr_undecided(m, i, j) by {
        if rr_undecided(m, i, j) {
            let t = choose|t: Token| #[trigger] claims(m, i, t) && claims(m, j, t) && !beaten(m, i, t);
            assert(s@.contains(i) && s@.contains(j));
        }
    }
}
// ------------------------------------------------------------------ merging (C11)
pub open spec fn merged(m: Map<GrammarItemKey, TokenSet>, o: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] m2.dom().contains(i) <==> m.dom().contains(i)
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) ==> m2[i]@ == if o.dom().contains(i) { m[i]@.union(o[i]@) } else { m[i]@ }
}
pub open spec fn subsumes(m: Map<GrammarItemKey, TokenSet>, o: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey| #[trigger] o.dom().contains(i) ==> o[i]@.subset_of(m[i]@)
}
// after merging the first n of o's items
pub open spec fn partly_merged(m: Map<GrammarItemKey, TokenSet>, l: Seq<(&GrammarItemKey, &TokenSet)>, n: int, m2: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|i: GrammarItemKey| #[trigger] m2.dom().contains(i) <==> m.dom().contains(i)
    &&& forall|b: int| 0 <= b < n ==> m2[*(#[trigger] l[b]).0]@ == m[*l[b].0]@.union(l[b].1@)
    &&& forall|b: int| n <= b < l.len() ==> m2[*(#[trigger] l[b]).0] == m[*l[b].0]
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) && (forall|b: int| 0 <= b < l.len() ==> *(#[trigger] l[b]).0 != i) ==> m2[i] == m[i]
}

pub proof fn lemma_merged(m: Map<GrammarItemKey, TokenSet>, o: Map<GrammarItemKey, TokenSet>, l: Seq<(&GrammarItemKey, &TokenSet)>, m2: Map<GrammarItemKey, TokenSet>)
    requires lists_map(l, o), partly_merged(m, l, l.len() as int, m2)
    ensures merged(m, o, m2), (forall|b: int| 0 <= b < l.len() ==> (#[trigger] l[b]).1@.subset_of(m[*l[b].0]@)) ==> subsumes(m, o)
{
    assert forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) implies m2[i]@ == if o.dom().contains(i) { m[i]@.union(o[i]@) } else { m[i]@ } by {
        if o.dom().contains(i) {
            let b = choose|b: int| 0 <= b < l.len() && *(#[trigger] l[b]).0 == i;
        }
    }
    if forall|b: int| 0 <= b < l.len() ==> (#[trigger] l[b]).1@.subset_of(m[*l[b].0]@) {
        assert forall|i: GrammarItemKey| #[trigger] o.dom().contains(i) implies o[i]@.subset_of(m[i]@) by {
            let b = choose|b: int| 0 <= b < l.len() && *(#[trigger] l[b]).0 == i;
        }
    }
}

// ------------------------------------------------------------------ the states' mutable cells
pub ghost struct Cells {
    pub items: Map<u32, GrammarItemSet>,
    pub shifts: Map<u32, BMap<Token, ParserState>>,
    pub gotos: Map<u32, BMap<NonTerminal, ParserState>>,
    pub recov: Map<u32, Option<ParserState>>,
    pub status: Map<u32, ProcessedState>,
    pub sr: Map<u32, Vec<(Token, ParserState, GrammarItemKey, TokenSet)>>,
    pub rr: Map<u32, Vec<((GrammarItemKey, GrammarItemKey), TokenSet)>>,
}
impl Cells {
    pub open spec fn has(self, id: u32) -> bool {
        &&& self.items.dom().contains(id)
        &&& self.shifts.dom().contains(id)
        &&& self.gotos.dom().contains(id)
        &&& self.recov.dom().contains(id)
        &&& self.status.dom().contains(id)
        &&& self.sr.dom().contains(id)
        &&& self.rr.dom().contains(id)
    }
}
#[verifier::external_body]
pub struct Heap { x: u8 }
impl Heap {
    pub uninterp spec fn view(&self) -> Cells;
    #[verifier::external_body]
    pub fn grammar_items(&self, o: &ParserStateData) -> (r: &GrammarItemSet) requires self@.has(o.ident) ensures *r == self@.items[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn grammar_items_mut(&mut self, o: &ParserStateData) -> (r: &mut GrammarItemSet)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.items[o.ident], final(self)@ == (Cells { items: old(self)@.items.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn grammar_items_set(&mut self, o: &ParserStateData, v: GrammarItemSet)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { items: old(self)@.items.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_list(&self, o: &ParserStateData) -> (r: &BMap<Token, ParserState>) requires self@.has(o.ident) ensures *r == self@.shifts[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_list_mut(&mut self, o: &ParserStateData) -> (r: &mut BMap<Token, ParserState>)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.shifts[o.ident], final(self)@ == (Cells { shifts: old(self)@.shifts.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_list_set(&mut self, o: &ParserStateData, v: BMap<Token, ParserState>)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { shifts: old(self)@.shifts.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn goto_table(&self, o: &ParserStateData) -> (r: &BMap<NonTerminal, ParserState>) requires self@.has(o.ident) ensures *r == self@.gotos[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn goto_table_mut(&mut self, o: &ParserStateData) -> (r: &mut BMap<NonTerminal, ParserState>)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.gotos[o.ident], final(self)@ == (Cells { gotos: old(self)@.gotos.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn goto_table_set(&mut self, o: &ParserStateData, v: BMap<NonTerminal, ParserState>)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { gotos: old(self)@.gotos.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn error_recovery_state(&self, o: &ParserStateData) -> (r: &Option<ParserState>) requires self@.has(o.ident) ensures *r == self@.recov[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn error_recovery_state_mut(&mut self, o: &ParserStateData) -> (r: &mut Option<ParserState>)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.recov[o.ident], final(self)@ == (Cells { recov: old(self)@.recov.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn error_recovery_state_set(&mut self, o: &ParserStateData, v: Option<ParserState>)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { recov: old(self)@.recov.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn processed_state(&self, o: &ParserStateData) -> (r: &ProcessedState) requires self@.has(o.ident) ensures *r == self@.status[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn processed_state_mut(&mut self, o: &ParserStateData) -> (r: &mut ProcessedState)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.status[o.ident], final(self)@ == (Cells { status: old(self)@.status.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn processed_state_set(&mut self, o: &ParserStateData, v: ProcessedState)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { status: old(self)@.status.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_reduce_conflicts(&self, o: &ParserStateData) -> (r: &Vec<(Token, ParserState, GrammarItemKey, TokenSet)>) requires self@.has(o.ident) ensures *r == self@.sr[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_reduce_conflicts_mut(&mut self, o: &ParserStateData) -> (r: &mut Vec<(Token, ParserState, GrammarItemKey, TokenSet)>)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.sr[o.ident], final(self)@ == (Cells { sr: old(self)@.sr.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn shift_reduce_conflicts_set(&mut self, o: &ParserStateData, v: Vec<(Token, ParserState, GrammarItemKey, TokenSet)>)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { sr: old(self)@.sr.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce_reduce_conflicts(&self, o: &ParserStateData) -> (r: &Vec<((GrammarItemKey, GrammarItemKey), TokenSet)>) requires self@.has(o.ident) ensures *r == self@.rr[o.ident] { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce_reduce_conflicts_mut(&mut self, o: &ParserStateData) -> (r: &mut Vec<((GrammarItemKey, GrammarItemKey), TokenSet)>)
        requires old(self)@.has(o.ident)
        ensures *r == old(self)@.rr[o.ident], final(self)@ == (Cells { rr: old(self)@.rr.insert(o.ident, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn reduce_reduce_conflicts_set(&mut self, o: &ParserStateData, v: Vec<((GrammarItemKey, GrammarItemKey), TokenSet)>)
        requires old(self)@.has(o.ident)
        ensures final(self)@ == (Cells { rr: old(self)@.rr.insert(o.ident, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn processed_state_get(&self, o: &ParserStateData) -> (r: ProcessedState) requires self@.has(o.ident) ensures r == self@.status[o.ident] { unimplemented!() }
}
pub proof fn lemma_reinsert(h0: Cells, hb: Cells, h: Cells, id: u32)
    requires
        h0.has(id),
        hb == (Cells { items: h0.items.insert(id, hb.items[id]), shifts: h0.shifts.insert(id, hb.shifts[id]), sr: h0.sr.insert(id, hb.sr[id]), ..h0 }),
        h.items =~= hb.items.insert(id, h.items[id]), h.shifts =~= hb.shifts.insert(id, h.shifts[id]), h.sr =~= hb.sr.insert(id, h.sr[id]),
        h == (Cells { items: h.items, shifts: h.shifts, sr: h.sr, ..hb }),
    ensures h == (Cells { items: h0.items.insert(id, h.items[id]), shifts: h0.shifts.insert(id, h.shifts[id]), sr: h0.sr.insert(id, h.sr[id]), ..h0 })
{
    assert(h0.items.insert(id, hb.items[id]).insert(id, h.items[id]) =~= h0.items.insert(id, h.items[id]));
    assert(h0.shifts.insert(id, hb.shifts[id]).insert(id, h.shifts[id]) =~= h0.shifts.insert(id, h.shifts[id]));
    assert(h0.sr.insert(id, hb.sr[id]).insert(id, h.sr[id]) =~= h0.sr.insert(id, h.sr[id]));
}
pub proof fn lemma_reinsert2(h0: Cells, hb: Cells, h: Cells, id: u32)
    requires
        h0.has(id),
        hb == (Cells { items: h0.items.insert(id, hb.items[id]), rr: h0.rr.insert(id, hb.rr[id]), ..h0 }),
        h.items =~= hb.items.insert(id, h.items[id]), h.rr =~= hb.rr.insert(id, h.rr[id]),
        h == (Cells { items: h.items, rr: h.rr, ..hb }),
    ensures h == (Cells { items: h0.items.insert(id, h.items[id]), rr: h0.rr.insert(id, h.rr[id]), ..h0 })
{
    assert(h0.items.insert(id, hb.items[id]).insert(id, h.items[id]) =~= h0.items.insert(id, h.items[id]));
    assert(h0.rr.insert(id, hb.rr[id]).insert(id, h.rr[id]) =~= h0.rr.insert(id, h.rr[id]));
}
impl VOrd for ParserState { open spec fn olt(self, o: ParserState) -> bool { self.0.ident < o.0.ident } }
impl ParserState {
    pub open spec fn id(self) -> u32 { self.0.ident }
    // the allocation of a state's cells
    #[verifier::external_body]
    pub fn new(ident: u32, grammar_items: GrammarItemSet, vh: &mut Heap) -> (r: ParserState)
        requires !old(vh)@.items.dom().contains(ident)
        ensures
            r.id() == ident,
            final(vh)@.has(ident),
            final(vh)@.items == old(vh)@.items.insert(ident, grammar_items),
            final(vh)@.shifts == old(vh)@.shifts.insert(ident, final(vh)@.shifts[ident]),
            final(vh)@.shifts[ident]@ == Map::<Token, ParserState>::empty(),
            final(vh)@.gotos == old(vh)@.gotos.insert(ident, final(vh)@.gotos[ident]),
            final(vh)@.gotos[ident]@ == Map::<NonTerminal, ParserState>::empty(),
            final(vh)@.recov == old(vh)@.recov.insert(ident, None),
            final(vh)@.status == old(vh)@.status.insert(ident, ProcessedState::Unprocessed),
            final(vh)@.sr == old(vh)@.sr.insert(ident, final(vh)@.sr[ident]),
            final(vh)@.sr[ident]@.len() == 0,
            final(vh)@.rr == old(vh)@.rr.insert(ident, final(vh)@.rr[ident]),
            final(vh)@.rr[ident]@.len() == 0,
    { unimplemented!() }
}
// the look ahead set of a state
pub open spec fn is_look_ahead(h: Cells, s: u32, l: Set<Token>) -> bool {
    forall|t: Token| #[trigger] l.contains(t) <==> reduces_on(h.items[s]@, t) || h.shifts[s]@.dom().contains(t)
}
@end
@include lr.vc

# ---------------------------------------------------------------- token sets
@fn TokenSet::new
%ensures r@ == Set::<Token>::empty()
@fn TokenSet::len
%ensures r == self@.len(), r < 0x4000_0000
@fn TokenSet::contains
%ensures r == self@.contains(*token)
@fn TokenSet::insert
%ensures final(self)@ == old(self)@.insert(*token), r == !old(self)@.contains(*token)
@fn TokenSet::remove
%ensures final(self)@ == old(self)@.remove(*token), r == old(self)@.contains(*token)
@fn TokenSet::difference
%ensures lists(r@, self@.difference(other@))
@fn TokenSet::intersection
%ensures lists(r@, self@.intersect(other@))
@fn TokenSet::union
%ensures lists(r@, self@.union(other@))
@fn TokenSet::iter
%ensures lists(r@, self@)
@fn TokenSet::bitor_assign
%ensures final(self)@ == old(self)@.union(rhs@)
@fn TokenSet::FromIterator.from_iter =TokenSet::from_iter
%opt nogen
%pty iter Vec<Token>
%ensures forall|x: Token| #[trigger] r@.contains(x) <==> iter@.contains(x)
@fn NonTerminal::is_error
%ensures r == (self is Error)
@fn NonTerminal::is_start
%ensures r == (self is Start)
@fn NonTerminal::firsts_data
%requires nt_firsts(*self) is Some
%ensures r == nt_firsts(*self).unwrap()
@fn Symbol::is_non_terminal
%ensures r == (self is NonTerminal)
@fn TokenSet::first_all_caps
%requires syms_ok(symbol_string@)
%ensures r@ == first_str(symbol_string@, *token)
%at start: let ghost tok0 = *token; let ghost ss = symbol_string@;
%loop 1 invariant
    ss == symbol_string@, syms_ok(ss), __it1@.len() == ss.len(), 0 <= __i1 <= ss.len(),
    forall|i: int| 0 <= i < ss.len() ==> *(#[trigger] __it1@[i]) == ss[i],
    first_str(ss, tok0) == token_set@.union(first_str(ss.skip(__i1 as int), tok0)),
    *token == tok0,
%loop 1 decreases ss.len() - __i1
%at loop 1 before: proof { assert(ss.skip(0) == ss); assert(token_set@.union(first_str(ss, tok0)) =~= first_str(ss, tok0)); }
%at loop 1 body: let ghost rest = ss.skip(__i1 - 1); let ghost before = token_set@;
  proof { assert(rest[0] == ss[__i1 - 1]); assert(rest.skip(1) =~= ss.skip(__i1 as int)); }
%at ret 1: proof { assert(before.union(first_str(rest, tok0)) =~= token_set@); }
%at ret 2: proof { assert(before.union(first_str(rest, tok0)) =~= token_set@); }
%at loop 1 end: proof { assert(first_str(ss, tok0) =~= token_set@.union(first_str(ss.skip(__i1 as int), tok0))); }
%at loop 1 after: proof { assert(ss.skip(ss.len() as int) =~= Seq::<Symbol>::empty()); assert(token_set@.union(set![tok0]) =~= token_set@.insert(tok0)); }

# ---------------------------------------------------------------- productions and items
@fn Production::ident
%ensures r == self.0.ident
@fn Production::is_start_production
%ensures r == (self.id() == 0)
@fn ProductionId::is_zero
%ensures r == (self.0 == 0)
@fn Production::len
%ensures r == self.rhs().len()
@fn Production::is_empty
%ensures r == (self.rhs().len() == 0)
@fn Production::left_hand_side
%ensures *r == self.lhs()
@fn Production::associativity
%ensures r == self.assoc()
@fn Production::precedence
%ensures r == self.prec()
@fn Production::has_error_recovery_tail
%ensures r == self.err_tail()
@fn Token::associativity
%ensures r == tok_assoc(*self)
@fn Token::precedence
%ensures r == tok_prec(*self)
@fn GrammarItemKey::From<&Production>.from
%ensures r == item0(*production)
@fn GrammarItemKey::production
%ensures *r == self.production
@fn GrammarItemKey::shifted
%requires self.dot < self.rhs().len()
%ensures r == self.after()
@fn GrammarItemKey::is_closable
%ensures r == (self.next() matches Some(s) && s is NonTerminal)
@fn GrammarItemKey::is_kernel_item
%ensures r == self.kernel()
@fn GrammarItemKey::is_reducible
%ensures r == self.red()
@fn GrammarItemKey::next_symbol
%ensures match r { Some(s) => self.next() == Some(*s), None => self.next() is None }
@fn GrammarItemKey::next_symbol_is
%ensures r == (self.next() == Some(*symbol))
@fn GrammarItemKey::rhs_tail
%requires self.dot < self.rhs().len()
%ensures r@ == self.tail()
%at start: proof { lemma_rhs_len(*self); }
@fn GrammarItemKey::associativity
%ensures r == self.production.assoc()
@fn GrammarItemKey::precedence
%ensures r == self.production.prec()
@fn GrammarItemKey::has_error_recovery_tail
%ensures r == self.production.err_tail()
@fn GrammarItemKey::has_reducible_error_recovery_tail
%ensures r == (self.red() && self.production.err_tail())
@if AUG=1
@fn Production::has_predicate
%ensures r == self.pred()
@fn GrammarItemKey::has_no_predicate
%ensures r == !self.production.pred()
@endif

# ---------------------------------------------------------------- item sets
@fn GrammarItemSet::From<BTreeMap<GrammarItemKey,TokenSet>>.from
%ensures r@ == map@
@fn GrammarItemSet::FromIterator.from_iter =GrammarItemSet::from_iter
%opt nogen
%pty iter Vec<(GrammarItemKey, TokenSet)>
%ensures GrammarItemSet::vmade(iter@, r)
@fn GrammarItemSet::iter
%ensures lists_map(r@, self@), ascending_map(r@), r@.len() < 0x4000_0000
@fn GrammarItemSet::closable_set
%ty closables Vec<(GrammarItemKey, TokenSet)>
%ensures
    forall|i: int| 0 <= i < r@.len() ==> self@.dom().contains((#[trigger] r@[i]).0) && self@[r@[i].0] == r@[i].1 && closable(r@[i].0),
    forall|k: GrammarItemKey| #[trigger] self@.dom().contains(k) && closable(k) ==> exists|i: int| 0 <= i < r@.len() && (#[trigger] r@[i]).0 == k,
%loop 1 invariant
    lists_map(__it1@, self@), __i1 <= __it1@.len(),
    forall|i: int| 0 <= i < closables@.len() ==> self@.dom().contains((#[trigger] closables@[i]).0) && self@[closables@[i].0] == closables@[i].1 && closable(closables@[i].0),
    forall|b: int| 0 <= b < __i1 && closable(*(#[trigger] __it1@[b]).0) ==> closables@.contains((*__it1@[b].0, *__it1@[b].1)),
%loop 1 decreases __it1.len() - __i1
%at loop 1 after: proof {
    assert forall|k: GrammarItemKey| #[trigger] self@.dom().contains(k) && closable(k) implies exists|i: int| 0 <= i < closables@.len() && (#[trigger] closables@[i]).0 == k by {
        let b = choose|b: int| 0 <= b < __it1@.len() && *(#[trigger] __it1@[b]).0 == k;
        assert(closables@.contains((*__it1@[b].0, *__it1@[b].1)));
    }
  }
@fn GrammarItemSet::generate_goto_kernel
%opt heap
%requires forall|k: GrammarItemKey| #[trigger] self@.dom().contains(k) ==> k.dot <= k.rhs().len()
%ensures is_goto(self@, *symbol, r@)
%loop 1 invariant
    lists_map(__it1@, self@), __i1 <= __it1@.len(),
    forall|k: GrammarItemKey| #[trigger] self@.dom().contains(k) ==> k.dot <= k.rhs().len(),
    forall|a: int| 0 <= a < __r1@.len() ==> goto_from(self@, *symbol, #[trigger] __r1@[a]),
    forall|b: int| 0 <= b < __i1 && (*(#[trigger] __it1@[b]).0).next() == Some(*symbol) ==> __r1@.contains(((*__it1@[b].0).after(), *__it1@[b].1)),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: proof { assert(self@.dom().contains(*__it1@[__i1 - 1].0)); lemma_rhs_len(*__it1@[__i1 - 1].0); }
%at loop 1 after: proof { lemma_goto(self@, *symbol, __it1@, __r1@); }
@fn GrammarItemSet::kernel_key_set
%opt heap
%ensures forall|k: GrammarItemKey| #[trigger] r@.contains(k) <==> self@.dom().contains(k) && k.kernel(), kernel_keys(self@, r)
%loop 1 invariant
    lists(__it1@, self@.dom()), __i1 <= __it1@.len(),
    forall|a: int| 0 <= a < __r1@.len() ==> self@.dom().contains(#[trigger] __r1@[a]) && __r1@[a].kernel(),
    forall|b: int| 0 <= b < __i1 && (*(#[trigger] __it1@[b])).kernel() ==> __r1@.contains(*__it1@[b]),
%loop 1 decreases __it1.len() - __i1
@fn GrammarItemSet::irreducible_key_set
%ensures forall|k: GrammarItemKey| #[trigger] r@.contains(k) <==> self@.dom().contains(k) && !k.red()
%loop 1 invariant
    lists(__it1@, self@.dom()), __i1 <= __it1@.len(),
    forall|a: int| 0 <= a < __r1@.len() ==> self@.dom().contains(#[trigger] __r1@[a]) && !__r1@[a].red(),
    forall|b: int| 0 <= b < __i1 && !(*(#[trigger] __it1@[b])).red() ==> __r1@.contains(*__it1@[b]),
%loop 1 decreases __it1.len() - __i1
@fn GrammarItemSet::reducible_key_set
%ensures forall|k: GrammarItemKey| #[trigger] r@.contains(k) <==> self@.dom().contains(k) && k.red()
%loop 1 invariant
    lists(__it1@, self@.dom()), __i1 <= __it1@.len(),
    forall|a: int| 0 <= a < __r1@.len() ==> self@.dom().contains(#[trigger] __r1@[a]) && __r1@[a].red(),
    forall|b: int| 0 <= b < __i1 && (*(#[trigger] __it1@[b])).red() ==> __r1@.contains(*__it1@[b]),
%loop 1 decreases __it1.len() - __i1
@fn GrammarItemSet::get_mut
%ensures
    match r {
        Some(v) => old(self)@.dom().contains(*key) && *v == old(self)@[*key] && final(self)@ == old(self)@.insert(*key, *final(v)),
        None => !old(self)@.dom().contains(*key) && final(self)@ == old(self)@,
    }
@fn GrammarItemSet::insert
%ensures final(self)@ == old(self)@.insert(key, look_ahead_set)
@fn GrammarItemSet::look_ahead_intersection
%requires self@.dom().contains(*key1), self@.dom().contains(*key2)
%ensures r@ == self@[*key1]@.intersect(self@[*key2]@)
%loop 1 invariant
    lists(__it1@, self@[*key1]@.intersect(self@[*key2]@)), __i1 <= __it1@.len(),
    forall|a: int| 0 <= a < __r1@.len() ==> self@[*key1]@.contains(#[trigger] __r1@[a]) && self@[*key2]@.contains(__r1@[a]),
    forall|b: int| 0 <= b < __i1 ==> __r1@.contains(*(#[trigger] __it1@[b])),
%loop 1 decreases __it1.len() - __i1
%at loop 1 after: proof { assert forall|r: TokenSet| #[trigger] <TokenSet as VFrom<Token>>::vmade(__r1@, r) implies r@ == self@[*key1]@.intersect(self@[*key2]@) by { assert(r@ =~= self@[*key1]@.intersect(self@[*key2]@)); } }
@fn GrammarItemSet::remove_look_ahead_symbols
%requires old(self)@.dom().contains(*key)
%ensures
    final(self)@.dom() == old(self)@.dom(),
    final(self)@[*key]@ == old(self)@[*key]@.difference(symbols@),
    forall|k: GrammarItemKey| k != *key && #[trigger] old(self)@.dom().contains(k) ==> final(self)@[k] == old(self)@[k],
%loop 1 invariant
    lists(__it1@, las0.difference(symbols@)), __i1 <= __it1@.len(),
    forall|a: int| 0 <= a < __r1@.len() ==> las0.contains(#[trigger] __r1@[a]) && !symbols@.contains(__r1@[a]),
    forall|b: int| 0 <= b < __i1 ==> __r1@.contains(*(#[trigger] __it1@[b])),
%loop 1 decreases __it1.len() - __i1
%at start: let ghost las0 = self@[*key]@;
%at loop 1 after: proof { assert forall|r: TokenSet| #[trigger] <TokenSet as VFrom<Token>>::vmade(__r1@, r) implies r@ == las0.difference(symbols@) by { assert(r@ =~= las0.difference(symbols@)); } }
@fn GrammarItemSet::error_recovery_look_ahead_set_contains
%ensures r == recovers_on(self@, *token)
%loop 1 invariant
    lists_map(__it1@, self@), __i1 <= __it1@.len(),
    forall|b: int| 0 <= b < __i1 && (*(#[trigger] __it1@[b]).0).red() && (*__it1@[b].0).production.err_tail() ==> !(*__it1@[b].1)@.contains(*token),
%loop 1 decreases __it1.len() - __i1
@fn GrammarItemSet::reducible_look_ahead_set
%ensures forall|t: Token| #[trigger] r@.contains(t) <==> reduces_on(self@, t)
%loop 1 invariant
    lists_map(__it1@, self@), __i1 <= __it1@.len(),
    forall|t: Token| #[trigger] set@.contains(t) ==> reduces_on(self@, t),
    forall|b: int, t: Token| 0 <= b < __i1 && (*(#[trigger] __it1@[b]).0).red() && (*__it1@[b].1)@.contains(t) ==> #[trigger] set@.contains(t),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: assert(self@.dom().contains(*__it1@[__i1 - 1].0));
@fn GrammarItemSet::reductions
%ensures
    // exactly the productions that can be reduced on a token, for every token that any can be reduced on
    forall|t: Token| #[trigger] reduces_on(self@, t) ==> has_reduction(r.reductions@, t),
    forall|q: OrderedSet<Production>, t: Token| #[trigger] r.reductions@.dom().contains(q) && #[trigger] r.reductions@[q]@.contains(t) ==> all_reduced(self@, t, q@) && reduces_on(self@, t),
    forall|q: OrderedSet<Production>| #[trigger] r.reductions@.dom().contains(q) ==> r.reductions@[q]@ != Set::<Token>::empty(),
%loop 1 invariant
    lists(__it1@, expected_tokens@), __i1 <= __it1@.len(), forall|t: Token| #[trigger] expected_tokens@.contains(t) <==> reduces_on(self@, t),
    forall|b: int| 0 <= b < __i1 ==> has_reduction(reductions@, *#[trigger] __it1@[b]),
    forall|q: OrderedSet<Production>| #[trigger] reductions@.dom().contains(q) ==> reductions@[q]@ != Set::<Token>::empty(),
    forall|q: OrderedSet<Production>, t: Token| #[trigger] reductions@.dom().contains(q) && #[trigger] reductions@[q]@.contains(t) ==> all_reduced(self@, t, q@) && reduces_on(self@, t),
%loop 1 decreases __it1.len() - __i1
%loop 2 invariant
    lists_map(__it2@, self@), __i2 <= __it2@.len(),
    forall|p: Production| #[trigger] productions@.contains(p) ==> reduced_by(self@, *token, p),
    forall|b: int| 0 <= b < __i2 && (*(#[trigger] __it2@[b]).0).red() && (*__it2@[b].1)@.contains(*token) ==> productions@.contains((*__it2@[b].0).production),
%loop 2 decreases __it2.len() - __i2
%at loop 2 start: assert(self@.dom().contains(*__it2@[__i2 - 1].0));
%at loop 2 after: let ghost q0 = productions; let ghost r0 = reductions@; proof { assert forall|k: GrammarItemKey| #[trigger] self@.dom().contains(k) && k.red() && self@[k]@.contains(*token) implies productions@.contains(k.production) by {
    let b = choose|b: int| 0 <= b < __it2@.len() && *(#[trigger] __it2@[b]).0 == k; } }
%at loop 1 end: proof {
    assert(reductions@.dom().contains(q0) && reductions@[q0]@.contains(*token));
    assert forall|b: int| 0 <= b < __i1 implies has_reduction(reductions@, *#[trigger] __it1@[b]) by {
        if b < __i1 - 1 {
            let q = choose|q: OrderedSet<Production>| #[trigger] r0.dom().contains(q) && r0[q]@.contains(*__it1@[b]);
            assert(reductions@.dom().contains(q) && reductions@[q]@.contains(*__it1@[b]));
        }
    }
    assert forall|q: OrderedSet<Production>, t: Token| #[trigger] reductions@.dom().contains(q) && #[trigger] reductions@[q]@.contains(t) implies all_reduced(self@, t, q@) && reduces_on(self@, t) by {
        if q != q0 { assert(r0.dom().contains(q) && r0[q]@.contains(t)); }
        else if t != *token { assert(r0.dom().contains(q) && r0[q]@.contains(t)); }
        else { assert(expected_tokens@.contains(t)); }
    }
  }
%at loop 1 after: proof { assert forall|t: Token| #[trigger] reduces_on(self@, t) implies has_reduction(reductions@, t) by {
    assert(expected_tokens@.contains(t));
    let b = choose|b: int| 0 <= b < __it1@.len() && *(#[trigger] __it1@[b]) == t; } }

# ---------------------------------------------------------------- closure (C11)
@fn Specification::closure
%attr #[verifier::exec_allows_no_decreases_clause]
%requires g_ok(self.productions@), keys_ok(self.productions@, closure_set__0@)
%ensures is_closure(self.productions@, closure_set__0@, r@), keys_ok(self.productions@, r@)
%at start: let ghost g = self.productions@; let ghost k0 = closure_set__0@;
%loop 1 invariant
    g == self.productions@, g_ok(g),
    extends(k0, closure_set@), sound(g, k0, closure_set@), keys_ok(g, closure_set@),
    !additions_made ==> closed(g, closure_set@),
%at loop 1 before: proof { lemma_start_sound(g, k0); }
%at loop 1 start: let ghost m1 = closure_set@;
%loop 2 invariant
    g == self.productions@, g_ok(g),
    sound(g, k0, m1), keys_ok(g, m1), extends(k0, m1), listed(m1, __it2@), __i2 <= __it2@.len(),
    extends(k0, closure_set@), sound(g, k0, closure_set@), keys_ok(g, closure_set@), extends(m1, closure_set@),
    !additions_made ==> same(m1, closure_set@),
    forall|b: int| 0 <= b < __i2 ==> all_fed(g, closure_set@, #[trigger] __it2@[b]),
%loop 2 decreases __it2.len() - __i2
%at loop 2 start: let ghost (key0, las0) = __it2@[__i2 - 1]; let ghost b0 = __i2 - 1; proof { assert(m1.dom().contains(key0)); assert(key_ok(g, key0)); lemma_rhs_ok(g, key0); }
%at loop 2 after: proof {
    if !additions_made {
        lemma_closed_end(g, m1, closure_set@, __it2@);
    }
  }
%loop 3 invariant
    lists(__it3@, las0@), __i3 <= __it3@.len(), key0.dot < key0.rhs().len(), syms_ok(key0.tail()), item_key == key0,
    forall|t: Token| #[trigger] firsts@.contains(t) ==> gives(key0, las0@, t),
    forall|b: int, t: Token| 0 <= b < __i3 && first_str(key0.tail(), *(#[trigger] __it3@[b])).contains(t) ==> #[trigger] firsts@.contains(t),
%loop 3 decreases __it3.len() - __i3
%at loop 3 after: proof { assert(feeds(key0, las0@, firsts@)) by { assert forall|t: Token| gives(key0, las0@, t) implies #[trigger] firsts@.contains(t) by {
      let u = choose|u: Token| #[trigger] las0@.contains(u) && first_str(key0.tail(), u).contains(t);
      let b = choose|b: int| 0 <= b < __it3@.len() && *(#[trigger] __it3@[b]) == u;
  } } }
%loop 4 invariant
    g == self.productions@, g_ok(g), __it4@.len() == g.len(), __i4 <= g.len(),
    forall|i: int| 0 <= i < g.len() ==> *(#[trigger] __it4@[i]) == g[i],
    sound(g, k0, m1), keys_ok(g, m1), extends(k0, m1), listed(m1, __it2@), __i2 <= __it2@.len(), b0 == __i2 - 1, b0 >= 0, __it2@[b0] == (key0, las0),
    extends(k0, closure_set@), sound(g, k0, closure_set@), keys_ok(g, closure_set@), extends(m1, closure_set@),
    !additions_made ==> same(m1, closure_set@),
    next_is(key0, *prospective_lhs), feeds(key0, las0@, firsts@),
    forall|b: int| 0 <= b < b0 ==> all_fed(g, closure_set@, #[trigger] __it2@[b]),
    forall|a: int| 0 <= a < __i4 && (#[trigger] g[a]).lhs() == *prospective_lhs ==> fed(closure_set@, key0, las0@, g[a]),
%loop 4 decreases __it4.len() - __i4
%at loop 4 start: let ghost p0 = g[__i4 - 1]; let ghost mb = closure_set@;
%at loop 4 end: proof { lemma_feed(g, k0, m1, mb, closure_set@, key0, las0@, p0, firsts@); lemma_fed_mono(g, mb, closure_set@, __it2@, b0, key0, las0@, __i4 - 1);
    if mb.dom().contains(item0(p0)) { lemma_union_len(mb[item0(p0)]@, firsts@); if firsts@.subset_of(mb[item0(p0)]@) { assert(mb[item0(p0)]@.union(firsts@) =~= mb[item0(p0)]@); } }
  }
%at loop 4 after: proof { assert(all_fed(g, closure_set@, __it2@[b0])); }
%at loop 1 after: proof { lemma_closure_done(g, k0, closure_set@); }

# ---------------------------------------------------------------- states
@fn ParserState::ident
%ensures r == self.id()
@fn ParserState::is_processed
%opt heap
%requires vh@.has(self.id())
%ensures r == (vh@.status[self.id()] is Processed)
@fn ParserState::needs_reprocessing
%opt heap
%requires vh@.has(self.id())
%ensures r == (vh@.status[self.id()] is NeedsReprocessing)
@fn ParserState::mark_as_processed
%opt heapmut
%requires old(vh)@.has(self.id())
%ensures final(vh)@ == (Cells { status: old(vh)@.status.insert(self.id(), ProcessedState::Processed), ..old(vh)@ })
@fn ParserState::shift_reduce_conflict_count
%opt heap
%requires vh@.has(self.id())
%ensures r == vh@.sr[self.id()]@.len()
@fn ParserState::reduce_reduce_conflict_count
%opt heap
%requires vh@.has(self.id())
%ensures r == vh@.rr[self.id()]@.len()
@fn ParserState::add_shift_action
%opt heapmut
%requires old(vh)@.has(self.id())
%ensures
    final(vh)@ == (Cells { shifts: final(vh)@.shifts, ..old(vh)@ }),
    final(vh)@.shifts == old(vh)@.shifts.insert(self.id(), final(vh)@.shifts[self.id()]),
    final(vh)@.shifts[self.id()]@ == old(vh)@.shifts[self.id()]@.insert(token, state),
@fn ParserState::add_goto
%opt heapmut
%requires old(vh)@.has(self.id())
%ensures
    final(vh)@ == (Cells { gotos: final(vh)@.gotos, ..old(vh)@ }),
    final(vh)@.gotos == old(vh)@.gotos.insert(self.id(), final(vh)@.gotos[self.id()]),
    final(vh)@.gotos[self.id()]@ == old(vh)@.gotos[self.id()]@.insert(non_terminal, state),
@fn ParserState::set_error_recovery_state
%opt heapmut
%requires old(vh)@.has(self.id())
%ensures final(vh)@ == (Cells { recov: old(vh)@.recov.insert(self.id(), Some(*state)), ..old(vh)@ })
@fn ParserState::error_goto_state_ident
%opt heap
%requires vh@.has(self.id())
%ensures r == (match vh@.recov[self.id()] { Some(s) => Some(s.id()), None => None::<u32> })
@fn ParserState::kernel_key_set
%opt heap
%requires vh@.has(self.id())
%ensures forall|k: GrammarItemKey| #[trigger] r@.contains(k) <==> vh@.items[self.id()]@.dom().contains(k) && k.kernel(), kernel_keys(items(vh@, self.id()), r)
@fn ParserState::non_kernel_key_set
%opt heap
%requires vh@.has(self.id())
%ensures irr_keys(items(vh@, self.id()), r)
@fn ParserState::generate_goto_kernel
%opt heap
%requires vh@.has(self.id()), forall|k: GrammarItemKey| #[trigger] vh@.items[self.id()]@.dom().contains(k) ==> k.dot <= k.rhs().len()
%ensures is_goto(vh@.items[self.id()]@, *symbol, r@)
@fn ParserState::merge_lookahead_sets
%opt heapmut
%requires old(vh)@.has(self.id()), forall|k: GrammarItemKey| #[trigger] item_set@.dom().contains(k) ==> old(vh)@.items[self.id()]@.dom().contains(k)
%ensures
    final(vh)@ == (Cells { items: final(vh)@.items, status: final(vh)@.status, ..old(vh)@ }),
    final(vh)@.items == old(vh)@.items.insert(self.id(), final(vh)@.items[self.id()]),
    final(vh)@.status == old(vh)@.status.insert(self.id(), final(vh)@.status[self.id()]),
    merged(old(vh)@.items[self.id()]@, item_set@, final(vh)@.items[self.id()]@),
    final(vh)@.status[self.id()] == (if old(vh)@.status[self.id()] is Processed && !subsumes(old(vh)@.items[self.id()]@, item_set@) { ProcessedState::NeedsReprocessing } else { old(vh)@.status[self.id()] }),
%at start: let ghost h0 = vh@; let ghost id = self.id(); let ghost m0 = vh@.items[id]@;
%loop 1 invariant
    h0 == old(vh)@, id == self.id(), m0 == h0.items[id]@, h0.has(id), vh@.has(id),
    lists_map(__it1@, item_set@), __it1@.len() < 0x4000_0000, __i1 <= __it1@.len(),
    forall|k: GrammarItemKey| #[trigger] item_set@.dom().contains(k) ==> m0.dom().contains(k),
    vh@ == (Cells { items: h0.items.insert(id, vh@.items[id]), ..h0 }),
    partly_merged(m0, __it1@, __i1 as int, vh@.items[id]@),
    additions <= __i1 * 0x4000_0000,
    additions == 0 ==> forall|b: int| 0 <= b < __i1 ==> (#[trigger] __it1@[b]).1@.subset_of(m0[*__it1@[b].0]@),
    additions > 0 ==> !subsumes(m0, item_set@),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: let ghost hb = vh@; let ghost mb = vh@.items[id]@; let ghost kb = *__it1@[__i1 - 1].0; let ghost lb = __it1@[__i1 - 1].1@; proof { assert(item_set@.dom().contains(kb)); lemma_union_len(mb[kb]@, lb); }
%at loop 1 end: proof {
    let mc = vh@.items[id]@;
    assert(vh@ == (Cells { items: h0.items.insert(id, vh@.items[id]), ..h0 })) by { assert(h0.items.insert(id, hb.items[id]).insert(id, vh@.items[id]) =~= h0.items.insert(id, vh@.items[id])); }
    assert(partly_merged(m0, __it1@, __i1 as int, mc));
    if !lb.subset_of(m0[kb]@) { assert(!subsumes(m0, item_set@)); }
  }
%at loop 1 after: proof { lemma_merged(m0, item_set@, __it1@, vh@.items[id]@); assert(h0.status.insert(id, h0.status[id]) =~= h0.status); }
%at loop 1 before: proof { assert(vh@ == (Cells { items: h0.items.insert(id, vh@.items[id]), ..h0 })) by { assert(h0.items.insert(id, vh@.items[id]) =~= h0.items); } }
@fn ParserState::resolve_shift_reduce_conflicts
%opt heapmut
%ty conflicts Vec<(Token, ParserState, GrammarItemKey, TokenSet)>
%requires old(vh)@.has(self.id()), old(vh)@.sr[self.id()]@.len() == 0
%ensures
    final(vh)@ == (Cells { items: final(vh)@.items, shifts: final(vh)@.shifts, sr: final(vh)@.sr, ..old(vh)@ }),
    final(vh)@.items == old(vh)@.items.insert(self.id(), final(vh)@.items[self.id()]),
    final(vh)@.shifts == old(vh)@.shifts.insert(self.id(), final(vh)@.shifts[self.id()]),
    final(vh)@.sr == old(vh)@.sr.insert(self.id(), final(vh)@.sr[self.id()]),
    sr_resolved(old(vh)@.items[self.id()]@, old(vh)@.shifts[self.id()]@, final(vh)@.items[self.id()]@, final(vh)@.shifts[self.id()]@, final(vh)@.sr[self.id()]@),
    r == final(vh)@.sr[self.id()]@.len(),
%at start: let ghost h0 = vh@; let ghost id = self.id(); let ghost m0 = vh@.items[id]@; let ghost s0 = vh@.shifts[id]@;
%loop 1 invariant
    h0 == vh@, id == self.id(), h0.has(id), m0 == h0.items[id]@, s0 == h0.shifts[id]@,
    lists_map(__it1@, s0), __i1 <= __it1@.len(),
    listed_conflicts(m0, s0, conflicts@),
    forall|a: int| 0 <= a < conflicts@.len() ==> exists|b: int| 0 <= b < __i1 && *(#[trigger] __it1@[b]).0 == (#[trigger] conflicts@[a]).0,
    forall|b: int, i: GrammarItemKey| 0 <= b < __i1 && #[trigger] sr_conflict(m0, s0, *(#[trigger] __it1@[b]).0, i) ==> has_conflict(conflicts@, *__it1@[b].0, i),
%loop 1 decreases __it1.len() - __i1
%loop 2 invariant
    h0 == vh@, id == self.id(), h0.has(id), m0 == h0.items[id]@, s0 == h0.shifts[id]@,
    lists_map(__it1@, s0), 0 < __i1 <= __it1@.len(), *shift_symbol == *__it1@[__i1 - 1].0, *goto_state == *__it1@[__i1 - 1].1,
    lists_map(__it2@, m0), __i2 <= __it2@.len(),
    listed_conflicts(m0, s0, conflicts@),
    forall|a: int| 0 <= a < conflicts@.len() ==> (exists|b: int| 0 <= b < __i1 - 1 && *(#[trigger] __it1@[b]).0 == (#[trigger] conflicts@[a]).0)
        || (conflicts@[a].0 == *shift_symbol && exists|b: int| 0 <= b < __i2 && *(#[trigger] __it2@[b]).0 == conflicts@[a].2),
    forall|b: int, i: GrammarItemKey| 0 <= b < __i1 - 1 && #[trigger] sr_conflict(m0, s0, *(#[trigger] __it1@[b]).0, i) ==> has_conflict(conflicts@, *__it1@[b].0, i),
    forall|b: int| 0 <= b < __i2 && sr_conflict(m0, s0, *shift_symbol, *(#[trigger] __it2@[b]).0) ==> has_conflict(conflicts@, *shift_symbol, *__it2@[b].0),
%loop 2 decreases __it2.len() - __i2
%at loop 2 start: let ghost c0 = conflicts@; proof { assert(m0.dom().contains(*__it2@[__i2 - 1].0)); lemma_conflict_pushed(c0); }
%at loop 2 after: proof { assert forall|i: GrammarItemKey| #[trigger] sr_conflict(m0, s0, *shift_symbol, i) implies has_conflict(conflicts@, *shift_symbol, i) by {
    let b = choose|b: int| 0 <= b < __it2@.len() && *(#[trigger] __it2@[b]).0 == i; } }
%loop 3 invariant
    id == self.id(), h0.has(id), vh@.has(id), m0 == h0.items[id]@, s0 == h0.shifts[id]@,
    vh@ == (Cells { items: h0.items.insert(id, vh@.items[id]), shifts: h0.shifts.insert(id, vh@.shifts[id]), sr: h0.sr.insert(id, vh@.sr[id]), ..h0 }),
    listed_conflicts(m0, s0, conflicts@), __i3 <= __it3@.len(), __it3@.len() == conflicts@.len(),
    forall|a: int| 0 <= a < conflicts@.len() ==> *(#[trigger] __it3@[a]) == conflicts@[a],
    forall|t: Token, i: GrammarItemKey| #[trigger] sr_conflict(m0, s0, t, i) ==> has_conflict(conflicts@, t, i),
    sr_partly(m0, s0, conflicts@, __i3 as int, vh@.items[id]@, vh@.shifts[id]@, vh@.sr[id]@),
%loop 3 decreases __it3.len() - __i3
%at loop 3 before: proof { assert forall|t: Token, i: GrammarItemKey| #[trigger] sr_conflict(m0, s0, t, i) implies has_conflict(conflicts@, t, i) by {
    let b = choose|b: int| 0 <= b < __it1@.len() && *(#[trigger] __it1@[b]).0 == t; assert(sr_conflict(m0, s0, *__it1@[b].0, i)); }
    assert(h0.items.insert(id, h0.items[id]) =~= h0.items); assert(h0.shifts.insert(id, h0.shifts[id]) =~= h0.shifts); assert(h0.sr.insert(id, h0.sr[id]) =~= h0.sr); }
%at loop 3 start: let ghost hb = vh@; proof { assert(sr_conflict(m0, s0, conflicts@[__i3 - 1].0, conflicts@[__i3 - 1].2)); assert(m0.dom().contains(conflicts@[__i3 - 1].2)); }
%at loop 3 end: proof {
    lemma_reinsert(h0, hb, vh@, id);
    lemma_sr_step(m0, s0, conflicts@, __i3 - 1, hb.items[id]@, hb.shifts[id]@, hb.sr[id]@, vh@.items[id]@, vh@.shifts[id]@, vh@.sr[id]@);
  }
%at loop 3 after: proof { lemma_sr_done(m0, s0, conflicts@, vh@.items[id]@, vh@.shifts[id]@, vh@.sr[id]@); }
@fn ParserState::resolve_reduce_reduce_conflicts
%opt heapmut
%requires old(vh)@.has(self.id()), old(vh)@.rr[self.id()]@.len() == 0
%ensures
    final(vh)@ == (Cells { items: final(vh)@.items, rr: final(vh)@.rr, ..old(vh)@ }),
    final(vh)@.items == old(vh)@.items.insert(self.id(), final(vh)@.items[self.id()]),
    final(vh)@.rr == old(vh)@.rr.insert(self.id(), final(vh)@.rr[self.id()]),
    rr_resolved(old(vh)@.items[self.id()]@, final(vh)@.items[self.id()]@, final(vh)@.rr[self.id()]@),
    r == final(vh)@.rr[self.id()]@.len(),
%at start: let ghost h0 = vh@; let ghost id = self.id(); let ghost m0 = vh@.items[id]@;
%at ret 1: proof { let ks = reducible_key_set.listing(); lemma_few(m0, reducible_key_set, h0.rr[id]@); assert(h0.items.insert(id, h0.items[id]) =~= h0.items); assert(h0.rr.insert(id, h0.rr[id]) =~= h0.rr); }
%at loop 1 before: let ghost ks = reducible_key_set.listing(); proof {
    assert forall|i: GrammarItemKey| #[trigger] m0.dom().contains(i) && i.red() implies exists|x: int| 0 <= x < ks.len() && *#[trigger] ks[x] == i by { assert(reducible_key_set@.contains(i)); }
    assert forall|x: int| 0 <= x < ks.len() implies m0.dom().contains(*#[trigger] ks[x]) && (*ks[x]).red() by { assert(reducible_key_set@.contains(*ks[x])); }
    assert(h0.items.insert(id, h0.items[id]) =~= h0.items); assert(h0.rr.insert(id, h0.rr[id]) =~= h0.rr); }
%loop 1 invariant
    id == self.id(), h0.has(id), vh@.has(id), m0 == h0.items[id]@,
    ks == reducible_key_set.listing(), reducible_key_set_2 == reducible_key_set, k_ok(m0, ks), __it1@ == ks, __i1 <= ks.len(),
    vh@ == (Cells { items: h0.items.insert(id, vh@.items[id]), rr: h0.rr.insert(id, vh@.rr[id]), ..h0 }),
    after_turns(m0, ks, __i1 as int, vh@.items[id]@),
    rr_found(m0, ks, __i1 as int, 0, vh@.rr[id]@),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: let ghost ms = vh@.items[id]@; let ghost a = __i1 - 1;
%loop 2 invariant
    id == self.id(), h0.has(id), vh@.has(id), m0 == h0.items[id]@,
    k_ok(m0, ks), __it2@ == ks, __i2 <= ks.len(), 0 <= a < ks.len(), *key_1 == *ks[a],
    vh@ == (Cells { items: h0.items.insert(id, vh@.items[id]), rr: h0.rr.insert(id, vh@.rr[id]), ..h0 }),
    after_turns(m0, ks, a, ms), in_turn(ms, ks, a, __i2 as int, vh@.items[id]@),
    rr_found(m0, ks, a, __i2 as int, vh@.rr[id]@),
%loop 2 decreases __it2.len() - __i2
%at loop 2 start: let ghost hb = vh@; let ghost b = __i2 - 1; proof { assert(m0.dom().contains(*ks[a]) && m0.dom().contains(*ks[b])); lemma_rr_doms(m0, ks, a, b, ms, vh@.items[id]@); lemma_meet(vh@.items[id]@[*ks[a]]@, vh@.items[id]@[*ks[b]]@); }
%at loop 2 end: proof {
    lemma_reinsert2(h0, hb, vh@, id);
    let (i, j, m, m2) = (*ks[a], *ks[b], hb.items[id]@, vh@.items[id]@);
    let meet = exists|t: Token| #[trigger] m[i]@.contains(t) && m[j]@.contains(t);
    assert(m.dom().contains(i) && m.dom().contains(j));
    assert(!(i.olt(j) && meet && !i.production.pred()) ==> vh@ == hb);
    if i.olt(j) && meet && yielding(i) { assert(less(m, m2, i, j, i)); }
    if i.olt(j) && meet && plain(i) { assert(less(m, m2, i, j, j)); }
    lemma_rr_step(m0, ks, a, b, ms, hb.items[id]@, hb.rr[id]@, vh@.items[id]@, vh@.rr[id]@);
  }
%at loop 2 after: proof { lemma_turn(m0, ks, a, ms, vh@.items[id]@); lemma_rr_turn(m0, ks, a, vh@.rr[id]@); }
%at loop 1 after: proof { lemma_rr_done(m0, ks, vh@.items[id]@, vh@.rr[id]@); }
@fn ParserState::is_recovery_state_for_token
%opt heap
%requires vh@.has(self.id()), vh@.recov[self.id()] matches Some(s) ==> vh@.has(s.id())
%ensures r == (vh@.recov[self.id()] matches Some(s) && recovers_on(vh@.items[s.id()]@, *token))
@fn ParserState::look_ahead_set
%opt heap
%requires vh@.has(self.id())
%at start: let ghost d = vh@.shifts[self.id()]@.dom(); let ghost items = vh@.items[self.id()]@;
%ensures is_look_ahead(vh@, self.id(), r@)
%loop 2 invariant
    d == vh@.shifts[self.id()]@.dom(),
    lists(__it2@, vh@.shifts[self.id()]@.dom()), __i2 <= __it2@.len(),
    forall|a: int| 0 <= a < __r2@.len() ==> vh@.shifts[self.id()]@.dom().contains(#[trigger] __r2@[a]),
    forall|b: int| 0 <= b < __i2 ==> __r2@.contains(*(#[trigger] __it2@[b])),
%loop 2 decreases __it2.len() - __i2
%at loop 2 after: proof { assert forall|r: TokenSet| #[trigger] <TokenSet as VFrom<Token>>::vmade(__r2@, r) implies r@ == d by { assert(r@ =~= d); } }
%loop 1 invariant
    forall|t: Token| #[trigger] __t1@.contains(t) <==> reduces_on(items, t), items == vh@.items[self.id()]@, __t2@ == d, d == vh@.shifts[self.id()]@.dom(),
    lists(__it1@, __t1@.union(__t2@)), __i1 <= __it1@.len(),
    forall|a: int| 0 <= a < __r1@.len() ==> __t1@.union(__t2@).contains(#[trigger] __r1@[a]),
    forall|b: int| 0 <= b < __i1 ==> __r1@.contains(*(#[trigger] __it1@[b])),
%loop 1 decreases __it1.len() - __i1
%at loop 1 after: proof { assert forall|r: TokenSet| #[trigger] <TokenSet as VFrom<Token>>::vmade(__r1@, r) implies r@ == __t1@.union(__t2@) by { assert(r@ =~= __t1@.union(__t2@)); } }

# ---------------------------------------------------------------- symbols that are unused or undefined (C13)
@fn Token::name
%ensures r@ == tok_name(*self)
@fn Token::is_unused
%ensures self is End ==> !r
@fn Token::defined_at
%requires !(self is End)
@fn NonTerminal::name
%ensures r@ == nt_name(*self)
@fn NonTerminal::is_unused
%ensures r == nt_unused(*self)
@fn NonTerminal::is_undefined
%ensures r == undef(*self)
@fn NonTerminal::first_definition
%ensures *self is UserDefined && !undef(*self) ==> r is Some
@fn NonTerminal::used_at
%loop 1 decreases __it1.len() - __i1
@fn SymbolTable::unused_tokens
%ty __r1 Vec<&Token>
%ensures forall|a: int| 0 <= a < r@.len() ==> !(*(#[trigger] r@[a]) is End)
%loop 1 invariant
    __i1 <= __it1@.len(), forall|a: int| 0 <= a < __r1@.len() ==> !(*(#[trigger] __r1@[a]) is End),
%loop 1 decreases __it1.len() - __i1
@fn SymbolTable::unused_tags
%loop 1 decreases __it1.len() - __i1
@fn SymbolTable::unused_non_terminals
%ty __r1 Vec<&NonTerminal>
%ensures forall|a: int| 0 <= a < r@.len() ==> nt_unused(*(#[trigger] r@[a])) && in_table(*self, *r@[a])
%loop 1 invariant
    __i1 <= __it1@.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> in_table(*self, *(#[trigger] __it1@[i])),
    forall|a: int| 0 <= a < __r1@.len() ==> nt_unused(*(#[trigger] __r1@[a])) && in_table(*self, *__r1@[a]),
%loop 1 decreases __it1.len() - __i1
@fn SymbolTable::undefined_non_terminals
%ty __r1 Vec<&NonTerminal>
%ensures
    forall|a: int| 0 <= a < r@.len() ==> undef(*(#[trigger] r@[a])) && in_table(*self, *r@[a]),
    r@.len() == 0 <==> all_defined(*self),
    r@.len() < 0x4000_0000,
%loop 1 invariant
    __i1 <= __it1@.len(), __r1@.len() <= __i1,
    forall|i: int| 0 <= i < __it1@.len() ==> in_table(*self, *(#[trigger] __it1@[i])),
    forall|a: int| 0 <= a < __r1@.len() ==> undef(*(#[trigger] __r1@[a])) && in_table(*self, *__r1@[a]),
    __r1@.len() == 0 ==> forall|b: int| 0 <= b < __i1 ==> !undef(*(#[trigger] __it1@[b])),
%loop 1 decreases __it1.len() - __i1
%at loop 1 after: proof {
    if __r1@.len() == 0 {
        assert forall|k: Str| #[trigger] self.non_terminals@.dom().contains(k) implies !undef(self.non_terminals@[k]) by { let i = choose|i: int| 0 <= i < __it1@.len() && *#[trigger] __it1@[i] == self.non_terminals@[k]; }
    } else { let n = *__r1@[0]; assert(undef(n) && in_table(*self, n)); }
  }

# ---------------------------------------------------------------- the grammar (C11, C12, C13)
@heapfns new ParserState::new
@fn Grammar::new_parser_state
%opt heapmut
%requires forall|id: u32| #[trigger] old(vh)@.items.dom().contains(id) ==> id < old(self).parser_states@.len()
%ensures
    final(self).specification == old(self).specification, final(self).parser_states@ == old(self).parser_states@.push(r),
    r.id() == old(self).parser_states@.len(), final(self).parser_states@.len() < 0x4000_0000,
    allocated(old(vh)@, final(vh)@, r.id(), grammar_items),
%at start: proof { axiom_few_states(self.parser_states); }
%at call push: proof { axiom_few_states(self.parser_states); }
@fn Grammar::equivalent_state
%opt heap
%requires forall|c: int| 0 <= c < self.parser_states@.len() ==> (#[trigger] self.parser_states@[c]).id() == c && vh@.has(self.parser_states@[c].id())
%ensures
    r matches Some(e) ==> known(self.parser_states@, *e) && same_kernel(items(vh@, e.id()), item_set@),
    r is None ==> (forall|i: GrammarItemKey| #[trigger] item_set@.dom().contains(i) ==> !i.kernel())
        || (forall|c: int| 0 <= c < self.parser_states@.len() ==> !same_kernel(items(vh@, (#[trigger] self.parser_states@[c]).id()), item_set@)),
%loop 1 invariant
    forall|c: int| 0 <= c < self.parser_states@.len() ==> (#[trigger] self.parser_states@[c]).id() == c && vh@.has(self.parser_states@[c].id()),
    __it1@.len() == self.parser_states@.len(), __i1 <= __it1@.len(), forall|c: int| 0 <= c < __it1@.len() ==> *(#[trigger] __it1@[c]) == self.parser_states@[c],
    kernel_keys(item_set@, target_key_set),
    forall|c: int| 0 <= c < __i1 ==> !same_kernel(items(vh@, (#[trigger] self.parser_states@[c]).id()), item_set@),
%loop 1 decreases __it1.len() - __i1
%at let target_key_set: proof {
    if target_key_set@ == Set::<GrammarItemKey>::empty() {
        assert forall|i: GrammarItemKey| #[trigger] item_set@.dom().contains(i) implies !i.kernel() by { assert(!target_key_set@.contains(i)); }
    }
  }
%at loop 1 start: proof { let sb = self.parser_states@[__i1 - 1]; assert(*__it1@[__i1 - 1] == sb); lemma_kernel_sets(items(vh@, sb.id()), item_set@, target_key_set); }
@fn Grammar::first_unprocessed_state
%ty __r1 Option<&ParserState>
%opt heap
%requires forall|c: int| 0 <= c < self.parser_states@.len() ==> (#[trigger] self.parser_states@[c]).id() == c && vh@.has(self.parser_states@[c].id())
%ensures
    r matches Some(s) ==> known(self.parser_states@, s) && !(vh@.status[s.id()] is Processed),
    r is None ==> all_done(vh@, self.parser_states@),
%loop 1 invariant_except_break
    __r1 is None, forall|c: int| 0 <= c < __i1 ==> vh@.status[(#[trigger] self.parser_states@[c]).id()] is Processed,
%loop 1 invariant
    forall|c: int| 0 <= c < self.parser_states@.len() ==> (#[trigger] self.parser_states@[c]).id() == c && vh@.has(self.parser_states@[c].id()),
    __it1@.len() == self.parser_states@.len(), __i1 <= __it1@.len(), forall|c: int| 0 <= c < __it1@.len() ==> *(#[trigger] __it1@[c]) == self.parser_states@[c],
%loop 1 ensures
    __r1 matches Some(s) ==> known(self.parser_states@, *s) && !(vh@.status[s.id()] is Processed),
    __r1 is None ==> all_done(vh@, self.parser_states@),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: proof { assert(*__it1@[__i1 - 1] == self.parser_states@[__i1 - 1]); assert(self.parser_states@[__i1 - 1].id() == __i1 - 1); }
@fn Grammar::resolve_conflicts
%opt heapmut
%requires forall|c: int| 0 <= c < old(self).parser_states@.len() ==> fresh_state(old(vh)@, old(self).parser_states@, c)
%ensures
    *final(self) == *old(self),
    resolved(old(vh)@, final(vh)@, final(self).parser_states@, final(self).parser_states@.len() as int),
    r.0 == sum_sr(final(vh)@, final(self).parser_states@, final(self).parser_states@.len() as int),
    r.1 == sum_rr(final(vh)@, final(self).parser_states@, final(self).parser_states@.len() as int),
%at start: let ghost h0 = vh@; let ghost ps = self.parser_states@;
%loop 1 invariant
    h0 == old(vh)@, ps == old(self).parser_states@, *self == *old(self),
    forall|c: int| 0 <= c < ps.len() ==> fresh_state(h0, ps, c),
    __it1@.len() == ps.len(), __i1 <= __it1@.len(), forall|c: int| 0 <= c < __it1@.len() ==> *(#[trigger] __it1@[c]) == ps[c],
    resolved(h0, vh@, ps, __i1 as int),
    sr_conflicts == sum_sr(vh@, ps, __i1 as int), rr_conflicts == sum_rr(vh@, ps, __i1 as int),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { assert forall|c: int| 0 <= c < ps.len() implies untouched(h0, vh@, (#[trigger] ps[c]).id()) by { assert(fresh_state(h0, ps, c)); } }
%at loop 1 start: let ghost hb = vh@; let ghost b = __i1 - 1; let ghost id = ps[b].id(); proof {
    assert forall|c: int| 0 <= c <= b implies (#[trigger] ps[c]).id() == c by { assert(fresh_state(h0, ps, c)); }
    assert(fresh_state(h0, ps, b)); assert(*__it1@[b] == ps[b]); lemma_room(hb, ps, b); assert(untouched(h0, hb, ps[b].id())); }
%at call resolve_shift_reduce_conflicts: let ghost hm = vh@;
%at loop 1 end: proof {
    assert(vh@.items == hb.items.insert(id, vh@.items[id])) by { assert(hb.items.insert(id, hm.items[id]).insert(id, vh@.items[id]) =~= hb.items.insert(id, vh@.items[id])); }
    assert(vh@.rr == hb.rr.insert(id, vh@.rr[id])); assert(hm.sr == vh@.sr); assert(hm.shifts == vh@.shifts);
    assert(state_resolved(hb, vh@, id)) by { assert(sr_resolved(items(hb, id), hb.shifts[id]@, hm.items[id]@, vh@.shifts[id]@, vh@.sr[id]@)); }
    lemma_resolved_step(h0, hb, vh@, ps, b);
  }
@fn Grammar::error_recovery_state_set_for_token
%opt heap
%requires forall|c: int| 0 <= c < self.parser_states@.len() ==> vh@.has((#[trigger] self.parser_states@[c]).id()) && (vh@.recov[self.parser_states@[c].id()] matches Some(s) ==> vh@.has(s.id()))
%ensures forall|n: u32| #[trigger] r@.contains(n) <==> exists|c: int| 0 <= c < self.parser_states@.len() && (#[trigger] self.parser_states@[c]).id() == n && recovers_in(vh@, n, *token)
%loop 1 invariant
    forall|c: int| 0 <= c < self.parser_states@.len() ==> vh@.has((#[trigger] self.parser_states@[c]).id()) && (vh@.recov[self.parser_states@[c].id()] matches Some(s) ==> vh@.has(s.id())),
    __it1@.len() == self.parser_states@.len(), __i1 <= __it1@.len(), forall|c: int| 0 <= c < __it1@.len() ==> *(#[trigger] __it1@[c]) == self.parser_states@[c],
    forall|a: int| 0 <= a < __r1@.len() ==> exists|c: int| 0 <= c < self.parser_states@.len() && (#[trigger] self.parser_states@[c]).id() == #[trigger] __r1@[a] && recovers_in(vh@, __r1@[a], *token),
    forall|c: int| 0 <= c < __i1 && recovers_in(vh@, (#[trigger] self.parser_states@[c]).id(), *token) ==> __r1@.contains(self.parser_states@[c].id()),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: proof { assert(*__it1@[__i1 - 1] == self.parser_states@[__i1 - 1]); }
@fn Grammar::try_from
%opt heapmut
%attr #[verifier::exec_allows_no_decreases_clause]
%requires spec_ok(arg.0), forall|id: u32| !#[trigger] old(vh)@.items.dom().contains(id)
%ensures
    !all_defined(arg.0.symbol_table) ==> (r matches Err(Error::UndefinedSymbols(n)) && n > 0),
    all_defined(arg.0.symbol_table) && arg.0.error_count > 0 ==> (r matches Err(Error::TooManyErrors(n)) && n == arg.0.error_count),
    all_defined(arg.0.symbol_table) && arg.0.error_count == 0 ==> exists|ps: Seq<ParserState>, sr: u32, rr: u32|
        #[trigger] built(arg.0.productions@, final(vh)@, ps, sr, rr) && verdict(arg, r, ps, sr, rr),
%at start: hide(states_ok); hide(others_settled); hide(partly_settled); hide(all_settled); hide(is_goto); hide(is_closure); hide(targeted); hide(merged); hide(subsumes); hide(lists_irr); hide(wants); hide(same_kernel); hide(same_items); hide(resolved); hide(lalr); hide(fresh_state); hide(core); hide(keys_ok); hide(built); let ghost g = arg.0.productions@; let ghost sp = arg.0;
%ty undefined_symbols u32
%loop 1 invariant
    __i1 <= __it1@.len(), forall|a: int| 0 <= a < __it1@.len() ==> !(*(#[trigger] __it1@[a]) is End),
%loop 2 invariant __i2 <= __it2@.len()
%loop 3 invariant
    __i3 <= __it3@.len(), specification == sp, spec_ok(sp),
    forall|a: int| 0 <= a < __it3@.len() ==> nt_unused(*(#[trigger] __it3@[a])) && in_table(sp.symbol_table, *__it3@[a]),
%loop 4 invariant
    __i4 <= __it4@.len(), undefined_symbols == __i4, __it4@.len() < 0x4000_0000,
%loop 5 invariant __i5 <= __it5@.len()
%at let start_item_key: proof { assert(g_ok(g)); }
%at before let start_kernel: let ghost k0 = map@; proof { assert(g.contains(g[0])); assert(item0(g[0]) == start_item_key); assert(k0[item0(g[0])]@ =~= set![Token::End]); assert(keys_ok(g, k0)) by { reveal(keys_ok); } }
%at let start_kernel: let ghost r0 = start_kernel;
%at call new_parser_state: proof { lemma_first_state(g, old(vh)@, vh@, grammar.parser_states@, k0, r0); }
%loop 6 invariant
    g == sp.productions@, g_ok(g), grammar.specification == sp,
    states_ok(g, vh@, grammar.parser_states@), all_settled(vh@, grammar.parser_states@),
%loop 6 ensures
    all_done(vh@, grammar.parser_states@),
%at loop 6 start: proof { lemma_states_ok(g, vh@, grammar.parser_states@); }
%at let first_time: let ghost h1 = vh@; let ghost u = unprocessed_state.id();
%at call mark_as_processed: proof { lemma_marked(g, h1, vh@, grammar.parser_states@, u); lemma_state_ok(g, vh@, grammar.parser_states@, u); }
%at loop 7 before: proof { lemma_lists_irr(__it7@, items(vh@, u)); }
%loop 7 invariant
    g == sp.productions@, g_ok(g), grammar.specification == sp,
    u == unprocessed_state.id(), known(grammar.parser_states@, unprocessed_state),
    states_ok(g, vh@, grammar.parser_states@), others_settled(vh@, grammar.parser_states@, u),
    partly_settled(vh@, grammar.parser_states@, u, first_time, already_done@),
    __i7 <= __it7@.len(), lists_irr(__it7@, items(vh@, u)),
    forall|b: int| 0 <= b < __i7 ==> already_done@.contains((*(#[trigger] __it7@[b])).next().unwrap()),
%loop 7 decreases __it7.len() - __i7
%at loop 7 start: let ghost h2 = vh@; let ghost d2 = already_done@; let ghost ps2 = grammar.parser_states@; proof { lemma_processing(g, vh@, ps2, u, __it7@, __i7 - 1); let x0 = (*__it7@[__i7 - 1]).next().unwrap(); if d2.contains(x0) { assert(d2.insert(x0) =~= d2); } }
%at let kernel_x: let ghost kx = kernel_x@; proof { assert(keys_ok(g, kx)); }
%at let item_set_x: let ghost rx = item_set_x; proof { lemma_may_merge(g, h2, ps2, u, *symbol_x, kx, rx@); }
%at let goto_state: let ghost h3 = vh@; let ghost gs = goto_state; let ghost ps3 = grammar.parser_states@; proof {
    lemma_goto_done(g, h2, h3, ps2, ps3, u, first_time, d2, *symbol_x, kx, rx, gs);
    lemma_same_irr(__it7@, items(h2, u), items(h3, u));
  }
%at loop 7 end: proof { assert(items(vh@, u) == items(h3, u)); lemma_noted(g, h3, vh@, ps3, u, first_time, d2, *symbol_x, gs); }
%at loop 7 after: proof { lemma_all_wanted(vh@, u, __it7@, already_done@); lemma_processed(g, vh@, grammar.parser_states@, u, first_time, already_done@); }
%at loop 6 after: let ghost h4 = vh@; proof { lemma_lalr(g, vh@, grammar.parser_states@); lemma_fresh_states(g, vh@, grammar.parser_states@); }
%at let sr_conflicts: proof { assert(built(g, vh@, grammar.parser_states@, sr_conflicts, rr_conflicts)) by { reveal(built); assert(lalr(g, h4, grammar.parser_states@)); } }
