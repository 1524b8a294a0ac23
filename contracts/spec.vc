# Contracts for specifications: symbols, precedences, production numbers and FIRST sets (lalr1_lib and alalr1_lib): ${DIR}
@source ${DIR}/src/symbol/terminal.rs terminal
@source ${DIR}/src/symbol/non_terminal.rs non_terminal
@source ${DIR}/src/symbol.rs symbol
@source ${DIR}/src/symbol/tag.rs tag
@source ${DIR}/src/production.rs production
@source ${DIR}/src/grammar.rs grammar
@opts veq vord intoiter
@heapcells firsts_data used_at defined_at associativity precedence
@dropfield NonTerminalData.firsts_data NonTerminalData.used_at NonTerminalData.defined_at
@dropfield TokenData.used_at TokenData.associativity TokenData.precedence
@dropfield TagData.used_at TagData.associativity TagData.precedence
@alloc NonTerminalData name / defined_at used_at firsts_data
@alloc TokenData name text defined_at / used_at associativity precedence
@alloc TagData name defined_at / used_at associativity precedence
@heapfns default Specification::default SymbolTable::default parse_text
@include prelude.vc
@include bt.vc
@raw
global size_of usize == 8;
broadcast use {axiom_str, lemma_push_contains};

#[verifier::external_body]
pub struct Location { x: u8 }
#[verifier::external_body]
pub fn report_error(location: &Location, what: &Str) { unimplemented!() }
#[verifier::external_body]
pub fn report_warning(location: &Location, what: &Str) { unimplemented!() }
impl VOrd for Str { uninterp spec fn olt(self, o: Str) -> bool; }
@end
@type Associativity :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@type TokenData
@type Token
@type TokenSet
@type FirstsData
@type NonTerminalData
@type NonTerminal
@type TagData
@type Tag
@type TagOrToken
@type Symbol
@type SymbolTable
@type ProductionTailData
@type ProductionTail
@type ProductionId :: #[derive(Clone, Copy)]
@type ProductionData
@type Production
@type Specification
@type Error@symbol
@raw
impl VOrd for Token { uninterp spec fn olt(self, o: Token) -> bool; }
impl TokenSet {
    pub open spec fn view(&self) -> Set<Token> { self.0@ }
    #[verifier::external_body]
    pub fn default() -> (r: TokenSet) ensures r@ == Set::<Token>::empty() { unimplemented!() }
    pub fn viter(&self) -> (r: Vec<&Token>) ensures lists(r@, self@) { self.iter() }
}
impl VOr<&TokenSet> for TokenSet {
    fn vor(&mut self, r: &TokenSet) ensures final(self)@ == old(self)@.union(r@) { self.bitor_assign(r) }
}
pub proof fn lemma_tset_ext(a: TokenSet, b: TokenSet)
    requires a@ == b@
    ensures a == b
{
    axiom_bset_ext(a.0, b.0);
}
impl Production {
    pub open spec fn id(self) -> u32 { self.0.ident.0 }
    pub open spec fn lhs(self) -> NonTerminal { self.0.left_hand_side }
    pub open spec fn rhs(self) -> Seq<Symbol> { self.0.tail.0.right_hand_side@ }
}

// ------------------------------------------------------------------ the cells of shared symbols
pub enum Key { Nt(NonTerminalData), Tok(TokenData), Tag(TagData) }
pub ghost struct Cells {
    pub firsts: Map<NonTerminalData, Option<FirstsData>>,
    pub used: Map<Key, Vec<Location>>,
    pub defs: Map<NonTerminalData, Vec<Location>>,
    pub assoc: Map<Key, Associativity>,
    pub prec: Map<Key, u16>,
}
pub trait VKey: Sized { spec fn key(self) -> Key; }
impl<X: VKey> VKey for &X { open spec fn key(self) -> Key { (*self).key() } }
impl VKey for NonTerminalData { open spec fn key(self) -> Key { Key::Nt(self) } }
impl VKey for TokenData { open spec fn key(self) -> Key { Key::Tok(self) } }
impl VKey for TagData { open spec fn key(self) -> Key { Key::Tag(self) } }
#[verifier::external_body]
pub struct Heap { x: u8 }
impl Heap {
    pub uninterp spec fn view(&self) -> Cells;
    #[verifier::external_body]
    pub fn firsts_data(&self, o: &NonTerminalData) -> (r: &Option<FirstsData>) requires self@.firsts.dom().contains(*o) ensures *r == self@.firsts[*o] { unimplemented!() }
    #[verifier::external_body]
    pub fn firsts_data_set(&mut self, o: &NonTerminalData, v: Option<FirstsData>)
        requires old(self)@.firsts.dom().contains(*o)
        ensures final(self)@ == (Cells { firsts: old(self)@.firsts.insert(*o, v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn used_at<O: VKey>(&self, o: &O) -> (r: &Vec<Location>) requires self@.used.dom().contains(o.key()) ensures *r == self@.used[o.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn used_at_mut<O: VKey>(&mut self, o: &O) -> (r: &mut Vec<Location>)
        requires old(self)@.used.dom().contains(o.key())
        ensures *r == old(self)@.used[o.key()], final(self)@ == (Cells { used: old(self)@.used.insert(o.key(), *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn defined_at(&self, o: &NonTerminalData) -> (r: &Vec<Location>) requires self@.defs.dom().contains(*o) ensures *r == self@.defs[*o] { unimplemented!() }
    #[verifier::external_body]
    pub fn defined_at_mut(&mut self, o: &NonTerminalData) -> (r: &mut Vec<Location>)
        requires old(self)@.defs.dom().contains(*o)
        ensures *r == old(self)@.defs[*o], final(self)@ == (Cells { defs: old(self)@.defs.insert(*o, *final(r)), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn associativity_get<O: VKey>(&self, o: &O) -> (r: Associativity) requires self@.assoc.dom().contains(o.key()) ensures r == self@.assoc[o.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn associativity_set<O: VKey>(&mut self, o: &O, v: Associativity)
        requires old(self)@.assoc.dom().contains(o.key())
        ensures final(self)@ == (Cells { assoc: old(self)@.assoc.insert(o.key(), v), ..old(self)@ })
    { unimplemented!() }
    #[verifier::external_body]
    pub fn precedence_get<O: VKey>(&self, o: &O) -> (r: u16) requires self@.prec.dom().contains(o.key()) ensures r == self@.prec[o.key()] { unimplemented!() }
    #[verifier::external_body]
    pub fn precedence_set<O: VKey>(&mut self, o: &O, v: u16)
        requires old(self)@.prec.dom().contains(o.key())
        ensures final(self)@ == (Cells { prec: old(self)@.prec.insert(o.key(), v), ..old(self)@ })
    { unimplemented!() }
}
pub open spec fn vec_or_empty(v: Option<Vec<Location>>, r: Vec<Location>) -> bool { match v { Some(x) => r == x, None => r@.len() == 0 } }
// allocation: no live object is identical to the new one (its name, text and place of definition)
impl Heap {
    #[verifier::external_body]
    pub fn alloc_NonTerminalData(&mut self, o: NonTerminalData, defs: Option<Vec<Location>>, used: Option<Vec<Location>>, firsts: Option<Option<FirstsData>>) -> (r: NonTerminalData)
        requires !old(self)@.firsts.dom().contains(o)
        ensures
            r == o,
            final(self)@ == (Cells {
                firsts: old(self)@.firsts.insert(o, match firsts { Some(x) => x, None => None }),
                used: old(self)@.used.insert(o.key(), final(self)@.used[o.key()]),
                defs: old(self)@.defs.insert(o, final(self)@.defs[o]),
                ..old(self)@
            }),
            vec_or_empty(used, final(self)@.used[o.key()]), vec_or_empty(defs, final(self)@.defs[o]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_TokenData(&mut self, o: TokenData, used: Option<Vec<Location>>, assoc: Option<Associativity>, prec: Option<u16>) -> (r: TokenData)
        requires !old(self)@.prec.dom().contains(o.key())
        ensures
            r == o,
            final(self)@ == (Cells {
                used: old(self)@.used.insert(o.key(), final(self)@.used[o.key()]),
                assoc: old(self)@.assoc.insert(o.key(), match assoc { Some(x) => x, None => Associativity::NonAssoc }),
                prec: old(self)@.prec.insert(o.key(), match prec { Some(x) => x, None => 0 }),
                ..old(self)@
            }),
            vec_or_empty(used, final(self)@.used[o.key()]),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn alloc_TagData(&mut self, o: TagData, used: Option<Vec<Location>>, assoc: Option<Associativity>, prec: Option<u16>) -> (r: TagData)
        requires !old(self)@.prec.dom().contains(o.key())
        ensures
            r == o,
            final(self)@ == (Cells {
                used: old(self)@.used.insert(o.key(), final(self)@.used[o.key()]),
                assoc: old(self)@.assoc.insert(o.key(), match assoc { Some(x) => x, None => Associativity::NonAssoc }),
                prec: old(self)@.prec.insert(o.key(), match prec { Some(x) => x, None => 0 }),
                ..old(self)@
            }),
            vec_or_empty(used, final(self)@.used[o.key()]),
    { unimplemented!() }
}
impl VDefault for Associativity {
    open spec fn is_default(x: Associativity) -> bool { x == Associativity::NonAssoc }
    fn vdefault() -> (r: Associativity) { Associativity::default() }
}
impl VInto<Symbol> for &NonTerminal {
    open spec fn vinto_is(self, r: Symbol) -> bool { r == Symbol::NonTerminal(*self) }
    fn vinto(self) -> (r: Symbol) { Symbol::from_non_terminal(self) }
}
impl VInto<Symbol> for &Token {
    open spec fn vinto_is(self, r: Symbol) -> bool { r == Symbol::Terminal(*self) }
    fn vinto(self) -> (r: Symbol) { Symbol::from_token(self) }
}
impl Symbol {
    pub fn from<X: VInto<Symbol>>(x: X) -> (r: Symbol) ensures x.vinto_is(r) { x.vinto() }
}
pub open spec fn data(n: NonTerminal) -> NonTerminalData {
    match n { NonTerminal::UserDefined(d) => d, NonTerminal::Error(d) => d, NonTerminal::Start(d) => d }
}

// ------------------------------------------------------------------ FIRST and nullable (C10)
pub open spec fn is_nt(s: Symbol, n: NonTerminal) -> bool { s == Symbol::NonTerminal(n) }
pub open spec fn all_nul(g: Seq<Production>, s: Seq<Symbol>, d: nat) -> bool
    decreases d, 1nat
{
    forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches Symbol::NonTerminal(m) && nul(g, m, d))
}
// n derives the empty string, by a derivation tree of depth d at most
pub open spec fn nul(g: Seq<Production>, n: NonTerminal, d: nat) -> bool
    decreases d, 0nat
{
    d > 0 && exists|p: Production| #[trigger] g.contains(p) && p.lhs() == n && all_nul(g, p.rhs(), (d - 1) as nat)
}
pub open spec fn is_nul(g: Seq<Production>, n: NonTerminal) -> bool { exists|d: nat| nul(g, n, d) }
pub open spec fn is_nul_sym(g: Seq<Production>, s: Symbol) -> bool { s matches Symbol::NonTerminal(m) && is_nul(g, m) }
// the first i symbols derive the empty string
pub open spec fn pre(g: Seq<Production>, s: Seq<Symbol>, i: int) -> bool { forall|j: int| 0 <= j < i ==> is_nul_sym(g, #[trigger] s[j]) }
// symbol s can begin with token t
pub open spec fn fst_sym(g: Seq<Production>, s: Symbol, t: Token, d: nat) -> bool
    decreases d, 1nat
{
    match s { Symbol::Terminal(x) => x == t, Symbol::NonTerminal(m) => fst(g, m, t, d) }
}
pub open spec fn fst(g: Seq<Production>, n: NonTerminal, t: Token, d: nat) -> bool
    decreases d, 0nat
{
    d > 0 && exists|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && pre(g, p.rhs(), i) && fst_sym(g, p.rhs()[i], t, (d - 1) as nat)
}
pub open spec fn is_fst(g: Seq<Production>, n: NonTerminal, t: Token) -> bool { exists|d: nat| fst(g, n, t, d) }

// ---------------------------------------------- one step of the computation, from the data D of the other non terminals
pub open spec fn err_name() -> Seq<u8> { seq![65u8, 65u8, 69u8, 114u8, 114u8, 111u8, 114u8] }
pub open spec fn start_name() -> Seq<u8> { seq![65u8, 65u8, 83u8, 116u8, 97u8, 114u8, 116u8] }
// one non terminal per name: user's names do not start with AA (reported as errors of the specification otherwise)
pub open spec fn nt_wf(n: NonTerminal) -> bool {
    match n {
        NonTerminal::UserDefined(d) => d.name@ != err_name() && d.name@ != start_name(),
        NonTerminal::Error(d) => d.name@ == err_name(),
        NonTerminal::Start(d) => d.name@ == start_name(),
    }
}
pub proof fn lemma_one_nt(a: NonTerminal, b: NonTerminal)
    requires nt_wf(a), nt_wf(b), data(a) == data(b)
    ensures a == b
{
    assert(err_name()[2] != start_name()[2]);
}
pub type Firsts = Map<NonTerminalData, Option<FirstsData>>;
pub open spec fn nt_in(m: Firsts, n: NonTerminal) -> bool { nt_wf(n) && m.dom().contains(data(n)) }
pub open spec fn syms_in(m: Firsts, s: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches Symbol::NonTerminal(n) ==> nt_in(m, n)) }
pub open spec fn g_in(g: Seq<Production>, m: Firsts) -> bool { forall|p: Production| #[trigger] g.contains(p) ==> nt_in(m, p.lhs()) && syms_in(m, p.rhs()) }
pub open spec fn is_tr(m: Firsts, n: NonTerminal) -> bool { m[data(n)] is Some && m[data(n)].unwrap().transparent }
pub open spec fn in_ts(m: Firsts, n: NonTerminal, t: Token) -> bool { m[data(n)] is Some && m[data(n)].unwrap().token_set@.contains(t) }
pub open spec fn eff(m: Firsts, n: NonTerminal, tr: bool, s: Symbol) -> bool {
    s matches Symbol::NonTerminal(x) && (if x == n { tr } else { is_tr(m, x) })
}
pub open spec fn lpre(m: Firsts, n: NonTerminal, tr: bool, s: Seq<Symbol>, i: int) -> bool { forall|j: int| 0 <= j < i ==> eff(m, n, tr, #[trigger] s[j]) }
pub open spec fn lcon(m: Firsts, n: NonTerminal, s: Symbol, t: Token) -> bool {
    match s { Symbol::Terminal(x) => x == t, Symbol::NonTerminal(x) => x != n && in_ts(m, x, t) }
}
pub open spec fn sup_tr(g: Seq<Production>, m: Firsts, n: NonTerminal) -> bool {
    exists|p: Production| #[trigger] g.contains(p) && p.lhs() == n && lpre(m, n, false, p.rhs(), p.rhs().len() as int)
}
pub open spec fn sup_ts(g: Seq<Production>, m: Firsts, n: NonTerminal, tr: bool, t: Token) -> bool {
    exists|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && lpre(m, n, tr, p.rhs(), i) && lcon(m, n, p.rhs()[i], t)
}
pub open spec fn is_step(g: Seq<Production>, m: Firsts, n: NonTerminal, f: FirstsData) -> bool {
    &&& f.transparent <==> sup_tr(g, m, n)
    &&& forall|t: Token| #[trigger] f.token_set@.contains(t) <==> sup_ts(g, m, n, f.transparent, t)
}
// production p has been taken into account
pub open spec fn seen(m: Firsts, n: NonTerminal, tr: bool, ts: Set<Token>, p: Production) -> bool {
    &&& lpre(m, n, tr, p.rhs(), p.rhs().len() as int) ==> tr
    &&& forall|i: int, t: Token| #![trigger lcon(m, n, p.rhs()[i], t)] 0 <= i < p.rhs().len() && lpre(m, n, tr, p.rhs(), i) && lcon(m, n, p.rhs()[i], t) ==> ts.contains(t)
}
pub open spec fn ts_sup(g: Seq<Production>, m: Firsts, n: NonTerminal, tr: bool, ts: Set<Token>) -> bool {
    forall|t: Token| #[trigger] ts.contains(t) ==> sup_ts(g, m, n, tr, t)
}
pub proof fn lemma_flip(g: Seq<Production>, m: Firsts, n: NonTerminal, ts: Set<Token>)
    requires ts_sup(g, m, n, false, ts)
    ensures ts_sup(g, m, n, true, ts)
{
    assert forall|t: Token| #[trigger] ts.contains(t) implies sup_ts(g, m, n, true, t) by {
        let (p, i) = choose|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && lpre(m, n, false, p.rhs(), i) && lcon(m, n, p.rhs()[i], t);
        assert(lpre(m, n, true, p.rhs(), i)) by { assert forall|j: int| 0 <= j < i implies eff(m, n, true, #[trigger] p.rhs()[j]) by { assert(eff(m, n, false, p.rhs()[j])); } }
    }
}
pub proof fn lemma_stepped(g: Seq<Production>, r: Seq<Production>, m: Firsts, n: NonTerminal, tr: bool, ts: Set<Token>, f: FirstsData)
    requires
        forall|p: Production| #[trigger] r.contains(p) <==> g.contains(p) && p.lhs() == n,
        forall|k: int| 0 <= k < r.len() ==> seen(m, n, tr, ts, #[trigger] r[k]),
        tr ==> sup_tr(g, m, n), ts_sup(g, m, n, tr, ts), f.transparent == tr, f.token_set@ == ts,
    ensures is_step(g, m, n, f)
{
    if sup_tr(g, m, n) {
        let p = choose|p: Production| #[trigger] g.contains(p) && p.lhs() == n && lpre(m, n, false, p.rhs(), p.rhs().len() as int);
        assert(r.contains(p));
        let k = choose|k: int| 0 <= k < r.len() && r[k] == p;
        assert(seen(m, n, tr, ts, r[k]));
        assert(lpre(m, n, tr, p.rhs(), p.rhs().len() as int)) by { assert forall|j: int| 0 <= j < p.rhs().len() implies eff(m, n, tr, #[trigger] p.rhs()[j]) by { assert(eff(m, n, false, p.rhs()[j])); } }
    }
    assert forall|t: Token| sup_ts(g, m, n, tr, t) implies #[trigger] ts.contains(t) by {
        let (p, i) = choose|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && lpre(m, n, tr, p.rhs(), i) && lcon(m, n, p.rhs()[i], t);
        assert(r.contains(p));
        let k = choose|k: int| 0 <= k < r.len() && r[k] == p;
        assert(seen(m, n, tr, ts, r[k]));
        assert(lcon(m, n, p.rhs()[i], t));
    }
}

// ---------------------------------------------- changes of cells
pub open spec fn new_cells(a: Cells, b: Cells, k: Key) -> bool {
    &&& b == (Cells { used: a.used.insert(k, b.used[k]), assoc: a.assoc.insert(k, Associativity::NonAssoc), prec: a.prec.insert(k, 0), ..a })
    &&& b.used[k]@.len() == 0
}
pub open spec fn new_nt(a: Cells, b: Cells, d: NonTerminalData, used: Seq<Location>, defs: Seq<Location>) -> bool {
    &&& b == (Cells { firsts: a.firsts.insert(d, None), used: a.used.insert(d.key(), b.used[d.key()]), defs: a.defs.insert(d, b.defs[d]), ..a })
    &&& b.used[d.key()]@ =~= used
    &&& b.defs[d]@ =~= defs
}
pub open spec fn pushed(a: Cells, b: Cells, k: Key, l: Location) -> bool {
    b == (Cells { used: a.used.insert(k, b.used[k]), ..a }) && b.used[k]@ == a.used[k]@.push(l)
}
pub open spec fn defined_once_more(a: Cells, b: Cells, d: NonTerminalData, l: Location) -> bool {
    b == (Cells { defs: a.defs.insert(d, b.defs[d]), ..a }) && b.defs[d]@ == a.defs[d]@.push(l)
}
// ---------------------------------------------- the symbol table (C17)
pub open spec fn nt_has(h: Cells, d: NonTerminalData) -> bool { h.firsts.dom().contains(d) && h.used.dom().contains(d.key()) && h.defs.dom().contains(d) }
pub open spec fn tok_key(t: Token) -> Key {
    match t { Token::Literal(d) => Key::Tok(d), Token::Regex(d) => Key::Tok(d), Token::End => arbitrary() }
}
pub open spec fn tok_has(h: Cells, t: Token) -> bool { !(t is End) && h.used.dom().contains(tok_key(t)) && h.assoc.dom().contains(tok_key(t)) && h.prec.dom().contains(tok_key(t)) }
pub open spec fn tag_has(h: Cells, t: Tag) -> bool { h.used.dom().contains(t.0.key()) && h.assoc.dom().contains(t.0.key()) && h.prec.dom().contains(t.0.key()) }
pub open spec fn tok_data(t: Token) -> TokenData { match t { Token::Literal(d) => d, Token::Regex(d) => d, Token::End => arbitrary() } }
pub open spec fn tok_prec(h: Cells, t: Token) -> u16 { if t is End { 0 } else { h.prec[tok_key(t)] } }
pub open spec fn tok_assoc(h: Cells, t: Token) -> Associativity { if t is End { Associativity::NonAssoc } else { h.assoc[tok_key(t)] } }
pub open spec fn table_nt(t: SymbolTable, n: NonTerminal) -> bool {
    n == t.start_non_terminal || n == t.error_non_terminal || (n is UserDefined && t.non_terminals@.dom().contains(data(n).name) && t.non_terminals@[data(n).name] == n)
}
pub open spec fn names_wf(t: SymbolTable) -> bool {
    &&& t.start_non_terminal is Start && nt_wf(t.start_non_terminal)
    &&& t.error_non_terminal is Error && nt_wf(t.error_non_terminal)
    &&& forall|k: Str| #[trigger] t.non_terminals@.dom().contains(k) ==> t.non_terminals@[k] is UserDefined && data(t.non_terminals@[k]).name == k && nt_wf(t.non_terminals@[k])
    &&& forall|k: Str| #[trigger] t.tokens@.dom().contains(k) ==> !(t.tokens@[k] is End) && tok_data(t.tokens@[k]).name == k
    &&& forall|k: Str| #[trigger] t.literal_tokens@.dom().contains(k) ==> t.literal_tokens@[k] is Literal && tok_data(t.literal_tokens@[k]).text == k
    &&& forall|k: Str| #[trigger] t.regex_tokens@.dom().contains(k) ==> t.regex_tokens@[k] is Regex && tok_data(t.regex_tokens@[k]).text == k
    &&& forall|k: Str| #[trigger] t.tags@.dom().contains(k) ==> t.tags@[k].0.name == k
}
pub open spec fn cells_nt(t: SymbolTable, h: Cells) -> bool {
    &&& forall|n: NonTerminal| #[trigger] table_nt(t, n) ==> nt_has(h, data(n))
    &&& forall|d: NonTerminalData| #[trigger] h.firsts.dom().contains(d) ==> d == data(t.start_non_terminal) || d == data(t.error_non_terminal) || t.non_terminals@.dom().contains(d.name)
}
pub open spec fn cells_rest(t: SymbolTable, h: Cells) -> bool {
    &&& forall|k: Str| #[trigger] t.tokens@.dom().contains(k) ==> tok_has(h, t.tokens@[k])
    &&& forall|k: Str| #[trigger] t.literal_tokens@.dom().contains(k) ==> tok_has(h, t.literal_tokens@[k])
    &&& forall|k: Str| #[trigger] t.regex_tokens@.dom().contains(k) ==> tok_has(h, t.regex_tokens@[k])
    &&& forall|k: Str| #[trigger] t.tags@.dom().contains(k) ==> tag_has(h, t.tags@[k])
    &&& forall|k: Key| #[trigger] h.prec.dom().contains(k) ==> h.prec[k] <= t.last_precedence
}
pub open spec fn table_wf(t: SymbolTable, h: Cells) -> bool { names_wf(t) && cells_nt(t, h) && cells_rest(t, h) }
pub open spec fn grown(t0: SymbolTable, h0: Cells, t1: SymbolTable, h1: Cells) -> bool {
    &&& t1.start_non_terminal == t0.start_non_terminal && t1.error_non_terminal == t0.error_non_terminal
    &&& forall|k: Str| #[trigger] t1.non_terminals@.dom().contains(k) ==> t1.non_terminals@[k] == nt_of(k) && nt_has(h1, data(nt_of(k)))
    &&& forall|k: Str| #[trigger] t0.non_terminals@.dom().contains(k) ==> t1.non_terminals@.dom().contains(k)
    &&& nt_has(h1, data(t0.start_non_terminal)) && nt_has(h1, data(t0.error_non_terminal))
    &&& forall|d: NonTerminalData| #[trigger] h1.firsts.dom().contains(d) ==> h0.firsts.dom().contains(d) || t1.non_terminals@.dom().contains(d.name)
}
pub proof fn lemma_grown(t0: SymbolTable, h0: Cells)
    requires table_wf(t0, h0)
    ensures
        forall|t1: SymbolTable, h1: Cells| grown(t0, h0, t1, h1) ==> #[trigger] cells_nt(t1, h1),
        nt_has(h0, data(t0.start_non_terminal)), nt_has(h0, data(t0.error_non_terminal)),
        forall|k: Str| #[trigger] t0.non_terminals@.dom().contains(k) ==> t0.non_terminals@[k] == nt_of(k) && nt_has(h0, data(nt_of(k))),
{
    assert(table_nt(t0, t0.start_non_terminal));
    assert(table_nt(t0, t0.error_non_terminal));
    assert forall|k: Str| #[trigger] t0.non_terminals@.dom().contains(k) implies t0.non_terminals@[k] == nt_of(k) && nt_has(h0, data(nt_of(k))) by { assert(table_nt(t0, t0.non_terminals@[k])); }
    assert forall|t1: SymbolTable, h1: Cells| grown(t0, h0, t1, h1) implies #[trigger] cells_nt(t1, h1) by {
        assert forall|d: NonTerminalData| #[trigger] h1.firsts.dom().contains(d) implies d == data(t1.start_non_terminal) || d == data(t1.error_non_terminal) || t1.non_terminals@.dom().contains(d.name) by {
            if h0.firsts.dom().contains(d) {}
        }
    }
}

pub open spec fn member_key(m: TagOrToken, k: Key) -> bool {
    match m { TagOrToken::Tag(t) => k == Key::Tag(t.0), TagOrToken::Token(t) => k == tok_key(t), TagOrToken::Invalid => false }
}
pub open spec fn member(l: Seq<TagOrToken>, k: Key) -> bool { exists|i: int| 0 <= i < l.len() && member_key(#[trigger] l[i], k) }
pub open spec fn member_has(h: Cells, m: TagOrToken) -> bool {
    match m { TagOrToken::Tag(t) => tag_has(h, t), TagOrToken::Token(t) => tok_has(h, t), TagOrToken::Invalid => true }
}
pub open spec fn first_token(s: Seq<Symbol>) -> Option<Token>
    decreases s.len()
{
    if s.len() == 0 { None } else { match s[0] { Symbol::Terminal(t) => Some(t), Symbol::NonTerminal(n) => first_token(s.skip(1)) } }
}
pub open spec fn toks_has(h: Cells, s: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < s.len() ==> ((#[trigger] s[i]) matches Symbol::Terminal(t) ==> t is End || tok_has(h, t)) }
pub proof fn lemma_nt_of(t: SymbolTable, h: Cells, n: Str)
    requires table_wf(t, h), user_name(n)
    ensures
        nt_wf(nt_of(n)),
        t.non_terminals@.dom().contains(n) ==> t.non_terminals@[n] == nt_of(n) && table_nt(t, nt_of(n)) && nt_has(h, data(nt_of(n))),
        !t.non_terminals@.dom().contains(n) ==> !h.firsts.dom().contains(data(nt_of(n))),
{
}
pub proof fn lemma_member_next(l: Seq<TagOrToken>, i: int)
    requires 0 <= i < l.len()
    ensures forall|k: Key| member(l.take(i + 1), k) <==> #[trigger] member(l.take(i), k) || member_key(l[i], k)
{
    assert forall|k: Key| member(l.take(i + 1), k) <==> #[trigger] member(l.take(i), k) || member_key(l[i], k) by {
        if member(l.take(i), k) {
            let j = choose|j: int| 0 <= j < i && member_key(#[trigger] l.take(i)[j], k);
            assert(member_key(l.take(i + 1)[j], k));
        }
        if member_key(l[i], k) { assert(member_key(l.take(i + 1)[i], k)); }
        if member(l.take(i + 1), k) {
            let j = choose|j: int| 0 <= j < i + 1 && member_key(#[trigger] l.take(i + 1)[j], k);
            if j < i { assert(member_key(l.take(i)[j], k)); }
        }
    }
}
pub open spec fn user_name(n: Str) -> bool { n@ != err_name() && n@ != start_name() }
// the non terminal of name n gets an additional place where it is used / defined
pub open spec fn nt_of(n: Str) -> NonTerminal { NonTerminal::UserDefined(NonTerminalData { name: n }) }
pub open spec fn with_nt(t: SymbolTable, r: SymbolTable, n: Str) -> bool {
    &&& r == (SymbolTable { non_terminals: r.non_terminals, ..t })
    &&& r.non_terminals@ =~= t.non_terminals@.insert(n, nt_of(n))
}
pub open spec fn nt_uses(h: Cells, n: NonTerminal) -> Seq<Location> { h.used[data(n).key()]@ }
// ------------------------------------------------------------------ the fixed point: soundness
pub proof fn lemma_nul_mono(g: Seq<Production>, n: NonTerminal, d: nat, e: nat)
    requires nul(g, n, d), d <= e
    ensures nul(g, n, e)
    decreases d
{
    let p = choose|p: Production| #[trigger] g.contains(p) && p.lhs() == n && all_nul(g, p.rhs(), (d - 1) as nat);
    assert(all_nul(g, p.rhs(), (e - 1) as nat)) by {
        assert forall|i: int| 0 <= i < p.rhs().len() implies ((#[trigger] p.rhs()[i]) matches Symbol::NonTerminal(m) && nul(g, m, (e - 1) as nat)) by {
            match p.rhs()[i] { Symbol::NonTerminal(m) => { lemma_nul_mono(g, m, (d - 1) as nat, (e - 1) as nat); }, _ => {} }
        }
    }
}
// symbols that all derive the empty string do so within one depth
pub proof fn lemma_one_depth(g: Seq<Production>, s: Seq<Symbol>) -> (d: nat)
    requires pre(g, s, s.len() as int)
    ensures all_nul(g, s, d)
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        let r = s.drop_last();
        assert(pre(g, r, r.len() as int)) by { assert forall|j: int| 0 <= j < r.len() implies is_nul_sym(g, #[trigger] r[j]) by { assert(is_nul_sym(g, s[j])); } }
        let d0 = lemma_one_depth(g, r);
        let l = s[s.len() - 1];
        assert(is_nul_sym(g, l));
        let m = match l { Symbol::NonTerminal(m) => m, _ => arbitrary() };
        let d1 = choose|d: nat| nul(g, m, d);
        let d = if d0 < d1 { d1 } else { d0 };
        assert forall|i: int| 0 <= i < s.len() implies ((#[trigger] s[i]) matches Symbol::NonTerminal(x) && nul(g, x, d)) by {
            if i < r.len() {
                assert(r[i] == s[i]);
                match r[i] { Symbol::NonTerminal(x) => { lemma_nul_mono(g, x, d0, d); }, _ => {} }
            } else {
                lemma_nul_mono(g, m, d1, d);
            }
        }
        d
    }
}
pub proof fn lemma_nul_by(g: Seq<Production>, p: Production)
    requires g.contains(p), pre(g, p.rhs(), p.rhs().len() as int)
    ensures is_nul(g, p.lhs())
{
    let d = lemma_one_depth(g, p.rhs());
    assert(nul(g, p.lhs(), (d + 1) as nat));
}
pub open spec fn sound_at(g: Seq<Production>, n: NonTerminal, f: FirstsData) -> bool {
    &&& f.transparent ==> is_nul(g, n)
    &&& forall|t: Token| #[trigger] f.token_set@.contains(t) ==> is_fst(g, n, t)
}
pub open spec fn sound(g: Seq<Production>, m: Firsts) -> bool {
    forall|n: NonTerminal| #[trigger] nt_in(m, n) && m[data(n)] is Some ==> sound_at(g, n, m[data(n)].unwrap())
}
pub proof fn lemma_sound_step(g: Seq<Production>, m: Firsts, n: NonTerminal, f: FirstsData)
    requires sound(g, m), g_in(g, m), nt_in(m, n), is_step(g, m, n, f)
    ensures sound_at(g, n, f), sound(g, m.insert(data(n), Some(f)))
{
    if f.transparent {
        let p = choose|p: Production| #[trigger] g.contains(p) && p.lhs() == n && lpre(m, n, false, p.rhs(), p.rhs().len() as int);
        assert(pre(g, p.rhs(), p.rhs().len() as int)) by {
            assert forall|j: int| 0 <= j < p.rhs().len() implies is_nul_sym(g, #[trigger] p.rhs()[j]) by {
                assert(eff(m, n, false, p.rhs()[j]));
                assert(syms_in(m, p.rhs()));
            }
        }
        lemma_nul_by(g, p);
    }
    assert forall|t: Token| #[trigger] f.token_set@.contains(t) implies is_fst(g, n, t) by {
        assert(sup_ts(g, m, n, f.transparent, t));
        let (p, i) = choose|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && lpre(m, n, f.transparent, p.rhs(), i) && lcon(m, n, p.rhs()[i], t);
        assert(syms_in(m, p.rhs()));
        assert(pre(g, p.rhs(), i)) by {
            assert forall|j: int| 0 <= j < i implies is_nul_sym(g, #[trigger] p.rhs()[j]) by { assert(eff(m, n, f.transparent, p.rhs()[j])); }
        }
        let d: nat = match p.rhs()[i] {
            Symbol::Terminal(x) => 0,
            Symbol::NonTerminal(x) => { assert(nt_in(m, x)); assert(is_fst(g, x, t)); choose|d: nat| fst(g, x, t, d) },
        };
        assert(fst_sym(g, p.rhs()[i], t, d));
        assert(fst(g, n, t, (d + 1) as nat));
    }
    let m2 = m.insert(data(n), Some(f));
    assert forall|x: NonTerminal| #[trigger] nt_in(m2, x) && m2[data(x)] is Some implies sound_at(g, x, m2[data(x)].unwrap()) by {
        if data(x) == data(n) { lemma_one_nt(x, n); } else { assert(nt_in(m, x)); }
    }
}
// ------------------------------------------------------------------ the fixed point: completeness
// n's data is what its productions give
pub open spec fn settled(g: Seq<Production>, m: Firsts, n: NonTerminal) -> bool { m[data(n)] is Some && is_step(g, m, n, m[data(n)].unwrap()) }
pub open spec fn all_settled(g: Seq<Production>, m: Firsts) -> bool { forall|n: NonTerminal| #[trigger] nt_in(m, n) ==> settled(g, m, n) }
pub proof fn lemma_complete_nul(g: Seq<Production>, m: Firsts, n: NonTerminal, d: nat)
    requires all_settled(g, m), g_in(g, m), nt_in(m, n), nul(g, n, d)
    ensures is_tr(m, n)
    decreases d
{
    assert(settled(g, m, n));
    let p = choose|p: Production| #[trigger] g.contains(p) && p.lhs() == n && all_nul(g, p.rhs(), (d - 1) as nat);
    assert(syms_in(m, p.rhs()));
    assert forall|j: int| 0 <= j < p.rhs().len() implies ((#[trigger] p.rhs()[j]) matches Symbol::NonTerminal(x) && is_tr(m, x)) by {
        match p.rhs()[j] { Symbol::NonTerminal(x) => { lemma_complete_nul(g, m, x, (d - 1) as nat); }, _ => {} }
    }
    if !is_tr(m, n) {
        assert forall|j: int| 0 <= j < p.rhs().len() implies eff(m, n, false, #[trigger] p.rhs()[j]) by {}
        assert(lpre(m, n, false, p.rhs(), p.rhs().len() as int));
        assert(sup_tr(g, m, n));
    }
}
pub proof fn lemma_complete_fst(g: Seq<Production>, m: Firsts, n: NonTerminal, t: Token, d: nat)
    requires all_settled(g, m), g_in(g, m), nt_in(m, n), fst(g, n, t, d)
    ensures in_ts(m, n, t)
    decreases d
{
    assert(settled(g, m, n));
    let f = m[data(n)].unwrap();
    let (p, i) = choose|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && pre(g, p.rhs(), i) && fst_sym(g, p.rhs()[i], t, (d - 1) as nat);
    assert(syms_in(m, p.rhs()));
    assert forall|j: int| 0 <= j < i implies eff(m, n, f.transparent, #[trigger] p.rhs()[j]) by {
        assert(is_nul_sym(g, p.rhs()[j]));
        match p.rhs()[j] { Symbol::NonTerminal(x) => { let e = choose|e: nat| nul(g, x, e); lemma_complete_nul(g, m, x, e); }, _ => {} }
    }
    assert(lpre(m, n, f.transparent, p.rhs(), i));
    match p.rhs()[i] {
        Symbol::Terminal(x) => { assert(lcon(m, n, p.rhs()[i], t)); assert(sup_ts(g, m, n, f.transparent, t)); },
        Symbol::NonTerminal(x) => {
            lemma_complete_fst(g, m, x, t, (d - 1) as nat);
            if x != n { assert(lcon(m, n, p.rhs()[i], t)); assert(sup_ts(g, m, n, f.transparent, t)); }
        },
    }
}
// every non terminal's data is its FIRST set and whether it derives the empty string
pub open spec fn exact_at(g: Seq<Production>, m: Firsts, n: NonTerminal) -> bool {
    &&& m[data(n)] is Some
    &&& m[data(n)].unwrap().transparent <==> is_nul(g, n)
    &&& forall|t: Token| #[trigger] m[data(n)].unwrap().token_set@.contains(t) <==> is_fst(g, n, t)
}
pub open spec fn firsts_exact(g: Seq<Production>, m: Firsts) -> bool { forall|n: NonTerminal| #[trigger] nt_in(m, n) ==> exact_at(g, m, n) }
pub proof fn lemma_exact(g: Seq<Production>, m: Firsts)
    requires sound(g, m), all_settled(g, m), g_in(g, m)
    ensures firsts_exact(g, m)
{
    assert forall|n: NonTerminal| #[trigger] nt_in(m, n) implies exact_at(g, m, n) by {
        assert(settled(g, m, n));
        let f = m[data(n)].unwrap();
        if is_nul(g, n) { let d = choose|d: nat| nul(g, n, d); lemma_complete_nul(g, m, n, d); }
        assert forall|t: Token| is_fst(g, n, t) implies #[trigger] f.token_set@.contains(t) by { let d = choose|d: nat| fst(g, n, t, d); lemma_complete_fst(g, m, n, t, d); }
    }
}
// ------------------------------------------------------------------ the fixed point: termination
pub open spec fn le_data(a: Option<FirstsData>, b: Option<FirstsData>) -> bool {
    match a { None => true, Some(x) => match b { None => false, Some(y) => (x.transparent ==> y.transparent) && x.token_set@.subset_of(y.token_set@) } }
}
// what is known follows from what is known of the others
pub open spec fn grows_at(g: Seq<Production>, m: Firsts, n: NonTerminal) -> bool {
    m[data(n)] is Some ==> (m[data(n)].unwrap().transparent ==> sup_tr(g, m, n)) && (forall|t: Token| #[trigger] m[data(n)].unwrap().token_set@.contains(t) ==> sup_ts(g, m, n, m[data(n)].unwrap().transparent, t))
}
pub open spec fn grows(g: Seq<Production>, m: Firsts) -> bool { forall|n: NonTerminal| #[trigger] nt_in(m, n) ==> grows_at(g, m, n) }
pub open spec fn le_firsts(a: Firsts, b: Firsts) -> bool { forall|n: NonTerminal| #[trigger] nt_wf(n) ==> le_data(a[data(n)], b[data(n)]) }
pub proof fn lemma_sup_mono(g: Seq<Production>, a: Firsts, b: Firsts, n: NonTerminal)
    requires g_in(g, a), forall|x: NonTerminal| #[trigger] nt_in(a, x) && x != n ==> le_data(a[data(x)], b[data(x)])
    ensures
        sup_tr(g, a, n) ==> sup_tr(g, b, n),
        forall|t: Token, u: bool, v: bool| (u ==> v) && #[trigger] sup_ts(g, a, n, u, t) ==> #[trigger] sup_ts(g, b, n, v, t),
{
    assert forall|s: Symbol, u: bool, v: bool| (s matches Symbol::NonTerminal(x) ==> nt_in(a, x)) && (u ==> v) && #[trigger] eff(a, n, u, s) implies #[trigger] eff(b, n, v, s) by {}
    if sup_tr(g, a, n) {
        let p = choose|p: Production| #[trigger] g.contains(p) && p.lhs() == n && lpre(a, n, false, p.rhs(), p.rhs().len() as int);
        assert(syms_in(a, p.rhs()));
        assert forall|j: int| 0 <= j < p.rhs().len() implies eff(b, n, false, #[trigger] p.rhs()[j]) by { assert(eff(a, n, false, p.rhs()[j])); }
        assert(lpre(b, n, false, p.rhs(), p.rhs().len() as int));
    }
    assert forall|t: Token, u: bool, v: bool| (u ==> v) && #[trigger] sup_ts(g, a, n, u, t) implies #[trigger] sup_ts(g, b, n, v, t) by {
        let (p, i) = choose|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && lpre(a, n, u, p.rhs(), i) && lcon(a, n, p.rhs()[i], t);
        assert(syms_in(a, p.rhs()));
        assert forall|j: int| 0 <= j < i implies eff(b, n, v, #[trigger] p.rhs()[j]) by { assert(eff(a, n, u, p.rhs()[j])); }
        assert(lpre(b, n, v, p.rhs(), i));
        assert(lcon(b, n, p.rhs()[i], t));
    }
}
pub open spec fn rhs_toks(s: Seq<Symbol>) -> Set<Token>
    decreases s.len()
{
    if s.len() == 0 { Set::empty() } else { match s.last() { Symbol::Terminal(t) => rhs_toks(s.drop_last()).insert(t), Symbol::NonTerminal(n) => rhs_toks(s.drop_last()) } }
}
pub open spec fn g_toks(g: Seq<Production>) -> Set<Token>
    decreases g.len()
{
    if g.len() == 0 { Set::empty() } else { g_toks(g.drop_last()).union(rhs_toks(g.last().rhs())) }
}
pub proof fn lemma_rhs_toks(s: Seq<Symbol>, i: int, t: Token)
    requires 0 <= i < s.len(), s[i] == Symbol::Terminal(t)
    ensures rhs_toks(s).contains(t)
    decreases s.len()
{
    if i < s.len() - 1 { assert(s.drop_last()[i] == s[i]); lemma_rhs_toks(s.drop_last(), i, t); }
}
pub proof fn lemma_g_toks(g: Seq<Production>, p: Production, i: int, t: Token)
    requires g.contains(p), 0 <= i < p.rhs().len(), p.rhs()[i] == Symbol::Terminal(t)
    ensures g_toks(g).contains(t)
    decreases g.len()
{
    if g.last() == p { lemma_rhs_toks(p.rhs(), i, t); } else {
        let k = choose|k: int| 0 <= k < g.len() && g[k] == p;
        assert(g.drop_last()[k] == p);
        lemma_g_toks(g.drop_last(), p, i, t);
    }
}
pub open spec fn toks_in(g: Seq<Production>, m: Firsts) -> bool {
    forall|n: NonTerminal| #[trigger] nt_in(m, n) && m[data(n)] is Some ==> m[data(n)].unwrap().token_set@.subset_of(g_toks(g))
}
pub open spec fn size_of_data(f: Option<FirstsData>) -> int {
    match f { None => 0, Some(x) => 1 + (if x.transparent { 1int } else { 0int }) + x.token_set@.len() }
}
pub open spec fn room(g: Seq<Production>, m: Firsts, ks: Seq<NonTerminal>) -> int
    decreases ks.len()
{
    if ks.len() == 0 { 0 } else { room(g, m, ks.drop_last()) + 2 + g_toks(g).len() - size_of_data(m[data(ks.last())]) }
}
pub proof fn lemma_size(a: Option<FirstsData>, b: Option<FirstsData>)
    requires le_data(a, b)
    ensures size_of_data(a) <= size_of_data(b), a != b ==> size_of_data(a) < size_of_data(b)
{
    if a is Some {
        let x = a.unwrap();
        let y = b.unwrap();
        vstd::set_lib::lemma_len_subset(x.token_set@, y.token_set@);
        if a != b && x.transparent == y.transparent {
            if x.token_set@ == y.token_set@ { lemma_tset_ext(x.token_set, y.token_set); }
            let t = choose|t: Token| y.token_set@.contains(t) && !x.token_set@.contains(t);
            if !(exists|t: Token| y.token_set@.contains(t) && !x.token_set@.contains(t)) { assert(x.token_set@ =~= y.token_set@); }
            assert(x.token_set@.insert(t).subset_of(y.token_set@));
            vstd::set_lib::lemma_len_subset(x.token_set@.insert(t), y.token_set@);
        }
    }
}
pub proof fn lemma_room(g: Seq<Production>, a: Firsts, b: Firsts, ks: Seq<NonTerminal>)
    requires le_firsts(a, b), forall|i: int| 0 <= i < ks.len() ==> nt_wf(#[trigger] ks[i])
    ensures room(g, b, ks) <= room(g, a, ks), forall|n: NonTerminal| ks.contains(n) && #[trigger] a[data(n)] != b[data(n)] ==> room(g, b, ks) < room(g, a, ks)
    decreases ks.len()
{
    if ks.len() > 0 {
        assert forall|i: int| 0 <= i < ks.drop_last().len() implies nt_wf(#[trigger] ks.drop_last()[i]) by { assert(ks.drop_last()[i] == ks[i]); }
        lemma_room(g, a, b, ks.drop_last());
        assert(nt_wf(ks[ks.len() - 1]));
        lemma_size(a[data(ks.last())], b[data(ks.last())]);
        assert forall|n: NonTerminal| ks.contains(n) && #[trigger] a[data(n)] != b[data(n)] implies room(g, b, ks) < room(g, a, ks) by {
            let i = choose|i: int| 0 <= i < ks.len() && ks[i] == n;
            if i < ks.len() - 1 { assert(ks.drop_last()[i] == n); assert(ks.drop_last().contains(n)); }
        }
    }
}
pub proof fn lemma_room_pos(g: Seq<Production>, m: Firsts, ks: Seq<NonTerminal>)
    requires toks_in(g, m), forall|i: int| 0 <= i < ks.len() ==> nt_in(m, #[trigger] ks[i])
    ensures room(g, m, ks) >= 0
    decreases ks.len()
{
    if ks.len() > 0 {
        assert forall|i: int| 0 <= i < ks.drop_last().len() implies nt_in(m, #[trigger] ks.drop_last()[i]) by { assert(ks.drop_last()[i] == ks[i]); }
        lemma_room_pos(g, m, ks.drop_last());
        assert(nt_in(m, ks[ks.len() - 1]));
        if m[data(ks.last())] is Some { vstd::set_lib::lemma_len_subset(m[data(ks.last())].unwrap().token_set@, g_toks(g)); }
    }
}
// what holds before and after each step
pub open spec fn growing(g: Seq<Production>, m: Firsts) -> bool { sound(g, m) && grows(g, m) && toks_in(g, m) && g_in(g, m) }
pub proof fn lemma_growing(g: Seq<Production>, a: Firsts, b: Firsts, n: NonTerminal)
    requires
        growing(g, a), nt_in(a, n), b[data(n)] is Some, is_step(g, a, n, b[data(n)].unwrap()),
        b == a.insert(data(n), b[data(n)]),
    ensures
        growing(g, b), le_firsts(a, b), b.dom() =~= a.dom(), settled(g, b, n),
        forall|x: NonTerminal| #[trigger] nt_in(b, x) <==> nt_in(a, x),
{
    let f = b[data(n)].unwrap();
    lemma_sound_step(g, a, n, f);
    assert(grows_at(g, a, n));
    assert forall|t: Token| #[trigger] f.token_set@.contains(t) implies g_toks(g).contains(t) by {
        assert(sup_ts(g, a, n, f.transparent, t));
        let (p, i) = choose|p: Production, i: int| #![trigger g.contains(p), p.rhs()[i]] g.contains(p) && p.lhs() == n && 0 <= i < p.rhs().len() && lpre(a, n, f.transparent, p.rhs(), i) && lcon(a, n, p.rhs()[i], t);
        assert(syms_in(a, p.rhs()));
        match p.rhs()[i] {
            Symbol::Terminal(x) => { lemma_g_toks(g, p, i, t); },
            Symbol::NonTerminal(x) => { assert(nt_in(a, x)); },
        }
    }
    assert(b.dom() =~= a.dom());
    lemma_sup_mono(g, a, a, n);
    assert(le_data(a[data(n)], b[data(n)])) by {
        if a[data(n)] is Some {
            let e = a[data(n)].unwrap();
            assert(e.transparent ==> f.transparent);
            assert forall|t: Token| #[trigger] e.token_set@.contains(t) implies f.token_set@.contains(t) by {
                assert(sup_ts(g, a, n, e.transparent, t));
                assert(sup_ts(g, a, n, f.transparent, t));
            }
        }
    }
    assert forall|x: NonTerminal| #[trigger] nt_wf(x) implies le_data(a[data(x)], b[data(x)]) by { if data(x) == data(n) { lemma_one_nt(x, n); } }
    assert forall|x: NonTerminal| #[trigger] nt_in(b, x) implies grows_at(g, b, x) by {
        assert(nt_in(a, x));
        assert(grows_at(g, a, x));
        lemma_sup_mono(g, a, b, x);
    }
    assert(settled(g, b, n)) by {
        lemma_sup_mono(g, a, b, n);
        assert forall|x: NonTerminal| #[trigger] nt_in(b, x) && x != n implies le_data(b[data(x)], a[data(x)]) by { assert(nt_in(a, x)); if data(x) == data(n) { lemma_one_nt(x, n); } }
        assert(g_in(g, b)) by { lemma_g_in(g, a, b); }
        lemma_sup_mono(g, b, a, n);
    }
    lemma_g_in(g, a, b);
}
pub proof fn lemma_g_in(g: Seq<Production>, a: Firsts, b: Firsts)
    requires g_in(g, a), a.dom() == b.dom()
    ensures g_in(g, b)
{
    assert forall|p: Production| #[trigger] g.contains(p) implies nt_in(b, p.lhs()) && syms_in(b, p.rhs()) by {
        assert(nt_in(a, p.lhs()));
        assert(syms_in(a, p.rhs()));
        assert forall|i: int| 0 <= i < p.rhs().len() implies ((#[trigger] p.rhs()[i]) matches Symbol::NonTerminal(n) ==> nt_in(b, n)) by {}
    }
}
// the non terminals of a table one by one
pub proof fn lemma_listing<X>(s: Set<X>) -> (l: Seq<X>)
    ensures forall|x: X| #[trigger] s.contains(x) ==> l.contains(x), forall|i: int| 0 <= i < l.len() ==> s.contains(#[trigger] l[i])
    decreases s.len()
{
    if s.len() == 0 {
        assert(s =~= Set::<X>::empty());
        seq![]
    } else {
        let x = s.choose();
        let l = lemma_listing(s.remove(x));
        let r = l.push(x);
        assert forall|y: X| #[trigger] s.contains(y) implies r.contains(y) by {
            if y != x { assert(s.remove(x).contains(y)); let i = choose|i: int| 0 <= i < l.len() && l[i] == y; assert(r[i] == y); } else { assert(r[l.len() as int] == x); }
        }
        assert forall|i: int| 0 <= i < r.len() implies s.contains(#[trigger] r[i]) by { if i < l.len() { assert(s.remove(x).contains(l[i])); } }
        r
    }
}
pub open spec fn stepped(g: Seq<Production>, a: Firsts, n: NonTerminal, b: Firsts) -> bool {
    &&& b[data(n)] is Some && is_step(g, a, n, b[data(n)].unwrap())
    &&& b == a.insert(data(n), b[data(n)])
}
// a round that began at a has come to m
pub open spec fn round(a: Firsts, m: Firsts, changed: bool) -> bool {
    &&& le_firsts(a, m) && m.dom() == a.dom()
    &&& !changed ==> m == a
    &&& changed ==> exists|n: NonTerminal| nt_in(a, n) && #[trigger] a[data(n)] != m[data(n)]
}
pub proof fn lemma_round(g: Seq<Production>, a: Firsts, m: Firsts, changed: bool, n: NonTerminal, m2: Firsts)
    requires round(a, m, changed), growing(g, m), nt_in(a, n), stepped(g, m, n, m2)
    ensures round(a, m2, changed || m[data(n)] != m2[data(n)])
{
    assert(nt_in(m, n));
    lemma_growing(g, m, m2, n);
    assert forall|x: NonTerminal| #[trigger] nt_wf(x) implies le_data(a[data(x)], m2[data(x)]) by { assert(le_data(a[data(x)], m[data(x)])); assert(le_data(m[data(x)], m2[data(x)])); }
    if changed {
        let x = choose|x: NonTerminal| nt_in(a, x) && #[trigger] a[data(x)] != m[data(x)];
        assert(le_data(a[data(x)], m[data(x)])); 
        assert(le_data(m[data(x)], m2[data(x)]));
        lemma_size(a[data(x)], m[data(x)]);
        lemma_size(m[data(x)], m2[data(x)]);
        assert(a[data(x)] != m2[data(x)]);
    } else if m[data(n)] != m2[data(n)] {
        assert(a[data(n)] != m2[data(n)]);
    } else {
        assert(m2 =~= m);
    }
}
// every step at once
pub proof fn lemma_steps()
    ensures
        forall|g: Seq<Production>, a: Firsts, n: NonTerminal, b: Firsts| growing(g, a) && nt_in(a, n) && #[trigger] stepped(g, a, n, b) ==> growing(g, b) && settled(g, b, n) && (a[data(n)] == b[data(n)] ==> a == b),
        forall|g: Seq<Production>, a: Firsts, m: Firsts, c: bool, n: NonTerminal, m2: Firsts| #[trigger] round(a, m, c) && growing(g, m) && nt_in(a, n) && #[trigger] stepped(g, m, n, m2) ==> round(a, m2, c || m[data(n)] != m2[data(n)]),
        forall|a: Firsts| #[trigger] round(a, a, false),
{
    assert forall|g: Seq<Production>, a: Firsts, n: NonTerminal, b: Firsts| growing(g, a) && nt_in(a, n) && #[trigger] stepped(g, a, n, b) implies growing(g, b) && settled(g, b, n) && (a[data(n)] == b[data(n)] ==> a == b) by {
        lemma_growing(g, a, b, n);
        if a[data(n)] == b[data(n)] { assert(a =~= b); }
    }
    assert forall|g: Seq<Production>, a: Firsts, m: Firsts, c: bool, n: NonTerminal, m2: Firsts| #[trigger] round(a, m, c) && growing(g, m) && nt_in(a, n) && #[trigger] stepped(g, m, n, m2) implies round(a, m2, c || m[data(n)] != m2[data(n)]) by {
        lemma_round(g, a, m, c, n, m2);
    }
}
// the non terminals of a table
pub open spec fn covers(t: SymbolTable, m: Firsts, ks: Seq<NonTerminal>) -> bool {
    &&& forall|i: int| 0 <= i < ks.len() ==> nt_in(m, #[trigger] ks[i])
    &&& forall|n: NonTerminal| #[trigger] table_nt(t, n) ==> ks.contains(n)
}
pub proof fn lemma_covers(t: SymbolTable, h: Cells) -> (ks: Seq<NonTerminal>)
    requires names_wf(t), cells_nt(t, h)
    ensures covers(t, h.firsts, ks)
{
    let l = lemma_listing(t.non_terminals@.dom());
    let u = Seq::new(l.len(), |i: int| t.non_terminals@[l[i]]);
    let ks = u.push(t.start_non_terminal).push(t.error_non_terminal);
    assert(table_nt(t, t.start_non_terminal) && table_nt(t, t.error_non_terminal));
    assert forall|i: int| 0 <= i < ks.len() implies nt_in(h.firsts, #[trigger] ks[i]) by {
        if i < l.len() { assert(t.non_terminals@.dom().contains(l[i])); assert(table_nt(t, t.non_terminals@[l[i]])); }
    }
    assert forall|n: NonTerminal| #[trigger] table_nt(t, n) implies ks.contains(n) by {
        if n == t.start_non_terminal { assert(ks[l.len() as int] == n); }
        else if n == t.error_non_terminal { assert(ks[(l.len() + 1) as int] == n); }
        else {
            assert(l.contains(data(n).name));
            let i = choose|i: int| 0 <= i < l.len() && l[i] == data(n).name;
            assert(ks[i] == n);
        }
    }
    ks
}
pub open spec fn all_of_table(t: SymbolTable, s: Seq<&NonTerminal>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> table_nt(t, *#[trigger] s[i])
    &&& forall|n: NonTerminal| #[trigger] table_nt(t, n) && n is UserDefined ==> exists|i: int| 0 <= i < s.len() && *#[trigger] s[i] == n
}
// the end of a round: what remains to be found is less, or nothing remains
pub proof fn lemma_round_over(t: SymbolTable, h: Cells, g: Seq<Production>, a: Firsts, changed: bool, s: Seq<&NonTerminal>, ks: Seq<NonTerminal>)
    requires
        round(a, h.firsts, changed), growing(g, h.firsts), names_wf(t), cells_nt(t, h), all_of_table(t, s), covers(t, a, ks),
        !changed ==> settled(g, h.firsts, t.start_non_terminal) && settled(g, h.firsts, t.error_non_terminal) && forall|k: int| 0 <= k < s.len() ==> settled(g, h.firsts, *#[trigger] s[k]),
    ensures
        changed ==> 0 <= room(g, h.firsts, ks) < room(g, a, ks),
        !changed ==> h.firsts == a && firsts_exact(g, h.firsts),
{
    let m = h.firsts;
    assert forall|i: int| 0 <= i < ks.len() implies nt_in(m, #[trigger] ks[i]) && nt_wf(ks[i]) by { assert(nt_in(a, ks[i])); }
    lemma_room_pos(g, m, ks);
    lemma_room(g, a, m, ks);
    if changed {
        let n = choose|n: NonTerminal| nt_in(a, n) && #[trigger] a[data(n)] != m[data(n)];
        assert(nt_in(m, n));
        lemma_in_table(t, h, n);
        assert(ks.contains(n));
    } else {
        assert forall|n: NonTerminal| #[trigger] nt_in(m, n) implies settled(g, m, n) by { lemma_in_table(t, h, n); }
        lemma_exact(g, m);
    }
}
pub proof fn lemma_cells(t: SymbolTable, a: Cells, b: Cells)
    requires table_wf(t, a), b == (Cells { firsts: b.firsts, ..a }), b.firsts.dom() == a.firsts.dom()
    ensures table_wf(t, b)
{
    assert forall|n: NonTerminal| #[trigger] table_nt(t, n) implies nt_has(b, data(n)) by { assert(nt_has(a, data(n))); }
    assert forall|k: Str| #[trigger] t.tokens@.dom().contains(k) implies tok_has(b, t.tokens@[k]) by { assert(tok_has(a, t.tokens@[k])); }
    assert forall|k: Str| #[trigger] t.literal_tokens@.dom().contains(k) implies tok_has(b, t.literal_tokens@[k]) by { assert(tok_has(a, t.literal_tokens@[k])); }
    assert forall|k: Str| #[trigger] t.regex_tokens@.dom().contains(k) implies tok_has(b, t.regex_tokens@[k]) by { assert(tok_has(a, t.regex_tokens@[k])); }
    assert forall|k: Str| #[trigger] t.tags@.dom().contains(k) implies tag_has(b, t.tags@[k]) by { assert(tag_has(a, t.tags@[k])); }
}
pub proof fn lemma_table_in(t: SymbolTable, h: Cells)
    requires names_wf(t), cells_nt(t, h)
    ensures
        forall|n: NonTerminal| #[trigger] table_nt(t, n) ==> nt_in(h.firsts, n) && nt_has(h, data(n)),
        table_nt(t, t.start_non_terminal), table_nt(t, t.error_non_terminal), nt_in(h.firsts, t.start_non_terminal), nt_in(h.firsts, t.error_non_terminal),
        nt_has(h, data(t.error_non_terminal)),
{
    assert(table_nt(t, t.start_non_terminal) && table_nt(t, t.error_non_terminal));
}
pub proof fn lemma_none_yet(g: Seq<Production>, m: Firsts)
    requires none_yet(m), g_in(g, m)
    ensures growing(g, m)
{
}
pub proof fn lemma_in_table(t: SymbolTable, h: Cells, n: NonTerminal)
    requires names_wf(t), cells_nt(t, h), nt_in(h.firsts, n)
    ensures table_nt(t, n)
{
    let d = data(n);
    assert(h.firsts.dom().contains(d));
    if d == data(t.start_non_terminal) { lemma_one_nt(n, t.start_non_terminal); }
    else if d == data(t.error_non_terminal) { lemma_one_nt(n, t.error_non_terminal); }
    else {
        let x = t.non_terminals@[d.name];
        assert(data(x).name == d.name);
        assert(data(x) == d);
        lemma_one_nt(n, x);
    }
}
// what parsing a specification's text leaves behind
pub open spec fn none_yet(m: Firsts) -> bool { forall|d: NonTerminalData| #[trigger] m.dom().contains(d) ==> m[d] is None }
pub open spec fn parsed(s: Specification, h: Cells) -> bool {
    &&& table_wf(s.symbol_table, h) && numbered(s.productions@) && g_in(s.productions@, h.firsts) && none_yet(h.firsts)
    &&& s.productions@.len() < 0xFFFF_FFFF && no_error_production(s.productions@)
}
pub open spec fn no_error_production(g: Seq<Production>) -> bool { forall|i: int| 0 <= i < g.len() ==> !((#[trigger] g[i]).lhs() is Error) }
// the error symbol gets its production iff it is used, and it is the last
pub open spec fn error_production_last(t: SymbolTable, h: Cells, g: Seq<Production>) -> bool {
    if nt_uses(h, t.error_non_terminal).len() > 0 {
        g.len() > 0 && g.last().lhs() == t.error_non_terminal && g.last().rhs().len() == 0 && g.last().0.tail.0.precedence == 0 && no_error_production(g.drop_last())
    } else { no_error_production(g) }
}
#[verifier::external_body]
pub struct ParseError { x: u8 }
impl Specification {
    #[verifier::external_body]
    pub fn parse_text(&mut self, text: &Str, label: &Str, vh: &mut Heap) -> (r: Result<(), ParseError>)
        requires table_wf(old(self).symbol_table, old(vh)@), old(self).productions@.len() == 0
        ensures r is Ok ==> parsed(*final(self), final(vh)@)
    { unimplemented!() }
}
pub open spec fn built(s: Specification, h: Cells) -> bool {
    &&& table_wf(s.symbol_table, h) && numbered(s.productions@) && g_in(s.productions@, h.firsts)
    &&& firsts_exact(s.productions@, h.firsts) && error_production_last(s.symbol_table, h, s.productions@)
}
// productions are numbered by their places
pub open spec fn numbered(g: Seq<Production>) -> bool { forall|i: int| 0 <= i < g.len() ==> (#[trigger] g[i]).id() == i }
@end

# ---------------------------------------------------------------- token sets
@fn TokenSet::new
%ensures r@ == Set::<Token>::empty()
@fn TokenSet::insert
%ensures final(self)@ == old(self)@.insert(*token), r == !old(self)@.contains(*token)
@fn TokenSet::iter
%ensures lists(r@, self@)
@fn TokenSet::bitor_assign
%ensures final(self)@ == old(self)@.union(rhs@)
# ---------------------------------------------------------------- FIRST sets (C10)
@fn Production::len
%ensures r == self.rhs().len()
@fn Production::is_empty
%ensures r == (self.rhs().len() == 0)
@fn Production::left_hand_side
%ensures *r == self.lhs()
@fn Production::right_hand_side_symbols
%ensures r@.len() == self.rhs().len(), forall|i: int| 0 <= i < r@.len() ==> *(#[trigger] r@[i]) == self.rhs()[i]
@fn NonTerminal::name
%ensures *r == data(*self).name
@fn NonTerminal::firsts_data
%opt heap
%requires vh@.firsts.dom().contains(data(*self)), vh@.firsts[data(*self)] is Some
%ensures r == vh@.firsts[data(*self)].unwrap()
@fn NonTerminal::firsts_data_is_set
%opt heap
%requires vh@.firsts.dom().contains(data(*self))
%ensures r == (vh@.firsts[data(*self)] is Some)
@fn NonTerminal::set_firsts_data
%opt heapmut
%requires nt_in(old(vh)@.firsts, *self), g_in(productions@, old(vh)@.firsts)
%ensures
    final(vh)@.firsts[data(*self)] is Some,
    is_step(productions@, old(vh)@.firsts, *self, final(vh)@.firsts[data(*self)].unwrap()),
    stepped(productions@, old(vh)@.firsts, *self, final(vh)@.firsts),
    final(vh)@ == (Cells { firsts: old(vh)@.firsts.insert(data(*self), final(vh)@.firsts[data(*self)]), ..old(vh)@ }),
    r == (old(vh)@.firsts[data(*self)] != final(vh)@.firsts[data(*self)]),
%at start: let ghost g = productions@; let ghost m = vh@.firsts; let ghost n = *self; let ghost h0 = vh@;
%ty __r1 Vec<Production>
%loop 1 invariant
    g == productions@, n == *self, __i1 <= __it1@.len(), __it1@.len() == g.len(),
    forall|i: int| 0 <= i < g.len() ==> *(#[trigger] __it1@[i]) == g[i],
    forall|k: int| 0 <= k < __r1@.len() ==> g.contains(#[trigger] __r1@[k]) && __r1@[k].lhs() == n,
    forall|i: int| 0 <= i < __i1 && (#[trigger] g[i]).lhs() == n ==> __r1@.contains(g[i]),
%loop 1 decreases __it1.len() - __i1
%loop 2 invariant
    __i2 <= __it2@.len(), __it2@.len() == relevant_productions@.len(), n == *self, vh@ == h0, m == h0.firsts, g == productions@,
    forall|k: int| 0 <= k < __it2@.len() ==> *(#[trigger] __it2@[k]) == relevant_productions@[k],
    forall|p: Production| #[trigger] relevant_productions@.contains(p) <==> g.contains(p) && p.lhs() == n,
    __r2 ==> sup_tr(g, m, n),
%loop 2 decreases __it2.len() - __i2
%at loop 2 start: proof { let p1 = relevant_productions@[__i2 - 1]; assert(relevant_productions@.contains(p1)); if p1.rhs().len() == 0 { assert(lpre(m, n, false, p1.rhs(), p1.rhs().len() as int)); } }
%loop 3 invariant
    n == *self, vh@ == h0, m == h0.firsts, g == productions@, g_in(g, m), nt_in(m, n),
    forall|p: Production| #[trigger] relevant_productions@.contains(p) <==> g.contains(p) && p.lhs() == n,
    transparent ==> sup_tr(g, m, n),
    ts_sup(g, m, n, transparent, token_set@),
    !transparency_changed ==> forall|k: int| 0 <= k < relevant_productions@.len() ==> seen(m, n, transparent, token_set@, #[trigger] relevant_productions@[k]),
%loop 3 decreases (if transparency_changed { 1int } else { 0int }) + (if transparent { 0int } else { 1int })
%at loop 3 start: let ghost tr0 = transparent;
%loop 4 invariant
    n == *self, vh@ == h0, m == h0.firsts, g == productions@, g_in(g, m), nt_in(m, n),
    __i4 <= __it4@.len(), __it4@.len() == relevant_productions@.len(),
    forall|k: int| 0 <= k < __it4@.len() ==> *(#[trigger] __it4@[k]) == relevant_productions@[k],
    forall|p: Production| #[trigger] relevant_productions@.contains(p) <==> g.contains(p) && p.lhs() == n,
    transparent ==> sup_tr(g, m, n),
    ts_sup(g, m, n, transparent, token_set@),
    transparency_changed == (transparent && !tr0),
    !transparency_changed ==> transparent == tr0,
    !transparency_changed ==> forall|k: int| 0 <= k < __i4 ==> seen(m, n, transparent, token_set@, #[trigger] relevant_productions@[k]),
%loop 4 decreases __it4.len() - __i4
%at loop 4 start: let ghost p0 = relevant_productions@[__i4 - 1]; proof { assert(relevant_productions@.contains(p0)); }
%loop 5 invariant_except_break
    transparent_production, lpre(m, n, transparent, p0.rhs(), __i5 as int),
%loop 5 invariant
    n == *self, vh@ == h0, m == h0.firsts, g == productions@, g_in(g, m), nt_in(m, n), g.contains(p0), p0.lhs() == n, *production == p0,
    __i5 <= __it5@.len(), __it5@.len() == p0.rhs().len(),
    forall|k: int| 0 <= k < __it5@.len() ==> *(#[trigger] __it5@[k]) == p0.rhs()[k],
    ts_sup(g, m, n, transparent, token_set@),
    forall|k: int, t: Token| #![trigger lcon(m, n, p0.rhs()[k], t)] 0 <= k < __i5 && lcon(m, n, p0.rhs()[k], t) ==> token_set@.contains(t),
    !transparency_changed ==> forall|k: int| 0 <= k < __i4 - 1 && k < relevant_productions@.len() ==> seen(m, n, transparent, token_set@, #[trigger] relevant_productions@[k]),
%loop 5 ensures
    transparent_production ==> lpre(m, n, transparent, p0.rhs(), p0.rhs().len() as int) && __i5 == p0.rhs().len(),
    !transparent_production ==> 0 < __i5 && !eff(m, n, transparent, p0.rhs()[__i5 - 1]),
%loop 5 decreases __it5.len() - __i5
%at loop 4 end: proof { assert(seen(m, n, transparent, token_set@, p0)); }
%at before let firsts_data 2: let ghost tsv = token_set@;
%at let firsts_data 2: proof { lemma_stepped(g, relevant_productions@, m, n, transparent, tsv, firsts_data.unwrap()); }

# ---------------------------------------------------------------- symbols (C17)
@fn TokenData::new
%opt heapmut
%requires !old(vh)@.prec.dom().contains(Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at }))
%ensures
    r == (TokenData { name: *name, text: *text, defined_at: *defined_at }),
    new_cells(old(vh)@, final(vh)@, Key::Tok(r)),
@fn TagData::new
%opt heapmut
%requires !old(vh)@.prec.dom().contains(Key::Tag(TagData { name: *name, defined_at: *defined_at }))
%ensures
    r == (TagData { name: *name, defined_at: *defined_at }),
    new_cells(old(vh)@, final(vh)@, Key::Tag(r)),
@fn Tag::new
%opt heapmut
%requires !old(vh)@.prec.dom().contains(Key::Tag(TagData { name: *name, defined_at: *defined_at }))
%ensures
    r.0 == (TagData { name: *name, defined_at: *defined_at }),
    new_cells(old(vh)@, final(vh)@, Key::Tag(r.0)),
@fn Tag::name
%ensures *r == self.0.name
@fn Tag::defined_at
%ensures *r == self.0.defined_at
@fn Tag::associativity
%opt heap
%requires tag_has(vh@, *self)
%ensures r == vh@.assoc[Key::Tag(self.0)]
@fn Tag::precedence
%opt heap
%requires tag_has(vh@, *self)
%ensures r == vh@.prec[Key::Tag(self.0)]
@fn Tag::is_unused
%opt heap
%requires tag_has(vh@, *self)
%ensures r == (vh@.used[Key::Tag(self.0)]@.len() == 0)
@fn Tag::add_used_at
%opt heapmut
%requires tag_has(old(vh)@, *self)
%ensures pushed(old(vh)@, final(vh)@, Key::Tag(self.0), *used_at)
@fn Tag::set_associativity
%opt heapmut
%requires tag_has(old(vh)@, *self)
%ensures final(vh)@ == (Cells { assoc: old(vh)@.assoc.insert(Key::Tag(self.0), associativity), ..old(vh)@ })
@fn Tag::set_precedence
%opt heapmut
%requires tag_has(old(vh)@, *self)
%ensures final(vh)@ == (Cells { prec: old(vh)@.prec.insert(Key::Tag(self.0), precedence), ..old(vh)@ })
@fn Token::new_literal_token
%opt heapmut
%requires !old(vh)@.prec.dom().contains(Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at }))
%ensures
    r == Token::Literal(TokenData { name: *name, text: *text, defined_at: *defined_at }),
    new_cells(old(vh)@, final(vh)@, tok_key(r)),
@fn Token::new_regex_token
%opt heapmut
%requires !old(vh)@.prec.dom().contains(Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at }))
%ensures
    r == Token::Regex(TokenData { name: *name, text: *text, defined_at: *defined_at }),
    new_cells(old(vh)@, final(vh)@, tok_key(r)),
@fn Token::name
%ensures self is End || *r == tok_data(*self).name
@fn Token::text
%ensures self is End || *r == tok_data(*self).text
@fn Token::defined_at
%requires !(self is End)
%ensures *r == tok_data(*self).defined_at
@fn Token::associativity
%opt heap
%requires self is End || tok_has(vh@, *self)
%ensures r == tok_assoc(vh@, *self)
@fn Token::precedence
%opt heap
%requires self is End || tok_has(vh@, *self)
%ensures r == tok_prec(vh@, *self)
@fn Token::associativity_and_precedence
%opt heap
%requires self is End || tok_has(vh@, *self)
%ensures r == (tok_assoc(vh@, *self), tok_prec(vh@, *self))
@fn Token::precedence_has_been_set
%opt heap
%requires self is End || tok_has(vh@, *self)
%ensures r == (tok_prec(vh@, *self) > 0)
@fn Token::is_unused
%opt heap
%requires self is End || tok_has(vh@, *self)
%ensures r == (!(self is End) && vh@.used[tok_key(*self)]@.len() == 0)
@fn Token::add_used_at
%opt heapmut
%requires tok_has(old(vh)@, *self)
%ensures pushed(old(vh)@, final(vh)@, tok_key(*self), *used_at)
@fn Token::set_associativity
%opt heapmut
%requires tok_has(old(vh)@, *self)
%ensures final(vh)@ == (Cells { assoc: old(vh)@.assoc.insert(tok_key(*self), associativity), ..old(vh)@ })
@fn Token::set_precedence
%opt heapmut
%requires tok_has(old(vh)@, *self), precedence > 0
%ensures final(vh)@ == (Cells { prec: old(vh)@.prec.insert(tok_key(*self), precedence), ..old(vh)@ })
@fn NonTerminal::new_defined
%opt heapmut
%requires !old(vh)@.firsts.dom().contains(NonTerminalData { name: *name })
%ensures
    r == NonTerminal::UserDefined(NonTerminalData { name: *name }),
    new_nt(old(vh)@, final(vh)@, data(r), seq![], seq![*defined_at]),
@fn NonTerminal::new_used
%opt heapmut
%requires !old(vh)@.firsts.dom().contains(NonTerminalData { name: *name })
%ensures
    r == NonTerminal::UserDefined(NonTerminalData { name: *name }),
    new_nt(old(vh)@, final(vh)@, data(r), seq![*used_at], seq![]),
@fn NonTerminal::new_error
%opt heapmut
%requires forall|d: NonTerminalData| #[trigger] old(vh)@.firsts.dom().contains(d) ==> d.name@ != err_name()
%ensures
    r is Error, nt_wf(r),
    new_nt(old(vh)@, final(vh)@, data(r), seq![], seq![]),
@fn NonTerminal::new_start
%opt heapmut
%requires forall|d: NonTerminalData| #[trigger] old(vh)@.firsts.dom().contains(d) ==> d.name@ != start_name()
%ensures
    r is Start, nt_wf(r),
    new_nt(old(vh)@, final(vh)@, data(r), seq![], seq![]),
@fn NonTerminal::is_error
%ensures r == (self is Error)
@fn NonTerminal::is_start
%ensures r == (self is Start)
@fn NonTerminal::is_unused
%opt heap
%requires nt_has(vh@, data(*self))
%ensures r == (vh@.used[data(*self).key()]@.len() == 0)
@fn NonTerminal::is_undefined
%opt heap
%requires nt_has(vh@, data(*self))
%ensures r == (self is UserDefined && vh@.defs[data(*self)]@.len() == 0)
@fn NonTerminal::first_definition
%opt heap
%requires nt_has(vh@, data(*self))
%ensures match r { Some(l) => self is UserDefined && vh@.defs[data(*self)]@.len() > 0 && l == vh@.defs[data(*self)]@[0], None => !(self is UserDefined) || vh@.defs[data(*self)]@.len() == 0 }
@fn NonTerminal::add_defined_at
%opt heapmut
%requires nt_has(old(vh)@, data(*self)), self is UserDefined
%ensures defined_once_more(old(vh)@, final(vh)@, data(*self), *defined_at)
@fn NonTerminal::add_used_at
%opt heapmut
%requires nt_has(old(vh)@, data(*self))
%ensures pushed(old(vh)@, final(vh)@, data(*self).key(), *used_at)

@fn Symbol::From<&Token>.from =Symbol::from_token
%ensures r == Symbol::Terminal(*token)
@fn Symbol::From<&NonTerminal>.from =Symbol::from_non_terminal
%ensures r == Symbol::NonTerminal(*non_terminal)
@fn SymbolTable::start_non_terminal
%ensures *r == self.start_non_terminal
@fn SymbolTable::error_non_terminal
%ensures *r == self.error_non_terminal
@fn SymbolTable::Default.default
%opt heapmut
%requires old(vh)@.firsts.dom() == Set::<NonTerminalData>::empty(), old(vh)@.prec.dom() == Set::<Key>::empty()
%ensures table_wf(r, final(vh)@), r.non_terminals@.dom() == Set::<Str>::empty(), r.last_precedence == 0, nt_uses(final(vh)@, r.error_non_terminal).len() == 0
@fn SymbolTable::get_token
%ensures match r { Some(t) => self.tokens@.dom().contains(*name) && *t == self.tokens@[*name], None => !self.tokens@.dom().contains(*name) }
@fn SymbolTable::get_literal_token
%ensures match r { Some(t) => self.literal_tokens@.dom().contains(*lexeme) && *t == self.literal_tokens@[*lexeme], None => !self.literal_tokens@.dom().contains(*lexeme) }
@fn SymbolTable::get_tag
%ensures match r { Some(t) => self.tags@.dom().contains(*name) && *t == self.tags@[*name], None => !self.tags@.dom().contains(*name) }
@fn SymbolTable::new_tag
%opt heapmut
%requires table_wf(*old(self), old(vh)@), !old(vh)@.prec.dom().contains(Key::Tag(TagData { name: *name, defined_at: *defined_at }))
%ensures
    table_wf(*final(self), final(vh)@),
    *final(self) == (SymbolTable { tags: final(self).tags, ..*old(self) }),
    final(self).tags@ == old(self).tags@.insert(*name, Tag(TagData { name: *name, defined_at: *defined_at })),
    new_cells(old(vh)@, final(vh)@, Key::Tag(TagData { name: *name, defined_at: *defined_at })),
    match r { Ok(t) => !old(self).tags@.dom().contains(*name) && t == final(self).tags@[*name], Err(e) => old(self).tags@.dom().contains(*name) && e == Error::DuplicateTag(old(self).tags@[*name]) },
%at start: proof { lemma_grown(*self, vh@); }
@fn SymbolTable::new_literal_token
%opt heapmut
%requires table_wf(*old(self), old(vh)@), !old(vh)@.prec.dom().contains(Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at }))
%ensures
    table_wf(*final(self), final(vh)@),
    *final(self) == (SymbolTable { tokens: final(self).tokens, literal_tokens: final(self).literal_tokens, ..*old(self) }),
    final(self).tokens@ == old(self).tokens@.insert(*name, Token::Literal(TokenData { name: *name, text: *text, defined_at: *defined_at })),
    new_cells(old(vh)@, final(vh)@, Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at })),
    match r {
        Ok(t) => {
            &&& !old(self).tokens@.dom().contains(*name) && !old(self).literal_tokens@.dom().contains(*text)
            &&& t == final(self).tokens@[*name]
            &&& final(self).literal_tokens@ == old(self).literal_tokens@.insert(*text, t)
        },
        Err(e) => old(self).tokens@.dom().contains(*name) || old(self).literal_tokens@.dom().contains(*text),
    },
%at start: proof { lemma_grown(*self, vh@); }
@fn SymbolTable::new_regex_token
%opt heapmut
%requires table_wf(*old(self), old(vh)@), !old(vh)@.prec.dom().contains(Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at }))
%ensures
    table_wf(*final(self), final(vh)@),
    *final(self) == (SymbolTable { tokens: final(self).tokens, regex_tokens: final(self).regex_tokens, ..*old(self) }),
    final(self).tokens@ == old(self).tokens@.insert(*name, Token::Regex(TokenData { name: *name, text: *text, defined_at: *defined_at })),
    new_cells(old(vh)@, final(vh)@, Key::Tok(TokenData { name: *name, text: *text, defined_at: *defined_at })),
    match r {
        Ok(t) => {
            &&& !old(self).tokens@.dom().contains(*name) && !old(self).regex_tokens@.dom().contains(*text)
            &&& t == final(self).tokens@[*name]
            &&& final(self).regex_tokens@ == old(self).regex_tokens@.insert(*text, t)
        },
        Err(e) => old(self).tokens@.dom().contains(*name) || old(self).regex_tokens@.dom().contains(*text),
    },
%at start: proof { lemma_grown(*self, vh@); }
@fn SymbolTable::symbol_used_at
%opt heapmut
%requires table_wf(*old(self), old(vh)@), user_name(*name)
%ensures
    table_wf(*final(self), final(vh)@),
    old(self).tokens@.dom().contains(*name) ==> r == Symbol::Terminal(old(self).tokens@[*name]) && *final(self) == *old(self) && pushed(old(vh)@, final(vh)@, tok_key(old(self).tokens@[*name]), *used_at),
    !old(self).tokens@.dom().contains(*name) ==> {
        &&& r == Symbol::NonTerminal(nt_of(*name)) && with_nt(*old(self), *final(self), *name)
        &&& old(self).non_terminals@.dom().contains(*name) ==> pushed(old(vh)@, final(vh)@, data(nt_of(*name)).key(), *used_at)
        &&& !old(self).non_terminals@.dom().contains(*name) ==> new_nt(old(vh)@, final(vh)@, data(nt_of(*name)), seq![*used_at], seq![])
    },
%at start: proof { lemma_nt_of(*self, vh@, *name); lemma_grown(*self, vh@); }
@fn SymbolTable::non_terminal_defined_at
%opt heapmut
%requires table_wf(*old(self), old(vh)@), user_name(*name)
%ensures
    table_wf(*final(self), final(vh)@),
    match r {
        Ok(n) => {
            &&& n == nt_of(*name) && with_nt(*old(self), *final(self), *name)
            &&& old(self).non_terminals@.dom().contains(*name) ==> defined_once_more(old(vh)@, final(vh)@, data(n), *defined_at)
            &&& !old(self).non_terminals@.dom().contains(*name) ==> !old(self).tokens@.dom().contains(*name) && new_nt(old(vh)@, final(vh)@, data(n), seq![], seq![*defined_at])
        },
        Err(e) => !old(self).non_terminals@.dom().contains(*name) && old(self).tokens@.dom().contains(*name) && e == Error::ConflictsWithToken(old(self).tokens@[*name]) && *final(self) == *old(self) && final(vh)@ == old(vh)@,
    },
%at start: proof { lemma_nt_of(*self, vh@, *name); lemma_grown(*self, vh@); }
@fn SymbolTable::error_symbol_used_at
%opt heapmut
%requires table_wf(*self, old(vh)@)
%ensures table_wf(*self, final(vh)@), r == Symbol::NonTerminal(self.error_non_terminal), pushed(old(vh)@, final(vh)@, data(self.error_non_terminal).key(), *used_at)
%at start: proof { lemma_grown(*self, vh@); }
@fn SymbolTable::start_non_terminal_used_at
%opt heapmut
%requires table_wf(*self, old(vh)@)
%ensures table_wf(*self, final(vh)@), r == self.start_non_terminal, pushed(old(vh)@, final(vh)@, data(self.start_non_terminal).key(), *used_at)
%at start: proof { lemma_grown(*self, vh@); }
@fn SymbolTable::set_precedences
%opt heapmut
%requires
    table_wf(*old(self), old(vh)@), old(self).last_precedence < u16::MAX,
    forall|i: int| 0 <= i < tag_or_token_list@.len() ==> member_has(old(vh)@, #[trigger] tag_or_token_list@[i]),
%ensures
    table_wf(*final(self), final(vh)@),
    *final(self) == (SymbolTable { last_precedence: (old(self).last_precedence + 1) as u16, ..*old(self) }),
    final(vh)@ == (Cells { assoc: final(vh)@.assoc, prec: final(vh)@.prec, ..old(vh)@ }),
    final(vh)@.assoc.dom() == old(vh)@.assoc.dom(), final(vh)@.prec.dom() == old(vh)@.prec.dom(),
    forall|k: Key| #[trigger] final(vh)@.prec.dom().contains(k) ==> final(vh)@.prec[k] == (if member(tag_or_token_list@, k) { (old(self).last_precedence + 1) as u16 } else { old(vh)@.prec[k] }),
    forall|k: Key| #[trigger] final(vh)@.assoc.dom().contains(k) ==> final(vh)@.assoc[k] == (if member(tag_or_token_list@, k) { associativity } else { old(vh)@.assoc[k] }),
%at start: proof { lemma_grown(*self, vh@); } let ghost h0 = vh@; let ghost l = tag_or_token_list@; let ghost t0 = *self;
%loop 1 invariant
    l == tag_or_token_list@, __i1 <= __it1@.len(), __it1@.len() == l.len(),
    forall|i: int| 0 <= i < l.len() ==> *(#[trigger] __it1@[i]) == l[i],
    forall|i: int| 0 <= i < l.len() ==> member_has(h0, #[trigger] l[i]),
    table_wf(t0, h0), precedence == t0.last_precedence + 1, precedence > 0, *self == (SymbolTable { last_precedence: precedence, ..t0 }),
    vh@ == (Cells { assoc: vh@.assoc, prec: vh@.prec, ..h0 }),
    vh@.assoc.dom() == h0.assoc.dom(), vh@.prec.dom() == h0.prec.dom(),
    forall|k: Key| #[trigger] vh@.prec.dom().contains(k) ==> vh@.prec[k] == (if member(l.take(__i1 as int), k) { precedence } else { h0.prec[k] }),
    forall|k: Key| #[trigger] vh@.assoc.dom().contains(k) ==> vh@.assoc[k] == (if member(l.take(__i1 as int), k) { associativity } else { h0.assoc[k] }),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: let ghost hb = vh@; proof { lemma_member_next(l, __i1 - 1); assert(member_has(h0, l[__i1 - 1])); }
%at loop 1 end: proof { assert(vh@.prec.dom() =~= h0.prec.dom()); assert(vh@.assoc.dom() =~= h0.assoc.dom()); }
%at loop 1 after: proof { assert(l.take(l.len() as int) =~= l); }

# ---------------------------------------------------------------- productions (C16, C17)
@fn rhs_associated_precedence
%opt heap
%requires toks_has(vh@, symbols@)
%ensures r == match first_token(symbols@) { Some(t) => Some((tok_assoc(vh@, t), tok_prec(vh@, t))), None => None }
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@.len() == symbols@.len(), toks_has(vh@, symbols@),
    forall|i: int| 0 <= i < symbols@.len() ==> *(#[trigger] __it1@[i]) == symbols@[i],
    first_token(symbols@) == first_token(symbols@.skip(__i1 as int)),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { assert(symbols@.skip(0) =~= symbols@); }
%at loop 1 start: let ghost rest = symbols@.skip(__i1 - 1); proof { assert(rest[0] == symbols@[__i1 - 1]); assert(rest.skip(1) =~= symbols@.skip(__i1 as int)); }
@fn ProductionTail::new
%opt heap
%requires toks_has(vh@, right_hand_side@)
%ensures
    r.0.right_hand_side@ == right_hand_side@,
    (r.0.associativity, r.0.precedence) == (match associative_precedence { Some(p) => p, None => match first_token(right_hand_side@) { Some(t) => (tok_assoc(vh@, t), tok_prec(vh@, t)), None => (Associativity::NonAssoc, 0u16) } }),
    match o_action { Some(a) => r.0.action == Some(*a), None => r.0.action is None },
@if AUG=1
    match o_predicate { Some(a) => r.0.predicate == Some(*a), None => r.0.predicate is None },
@endif
@fn Production::new
%requires index < 0x1_0000_0000
%ensures r.id() == index, r.lhs() == left_hand_side, r.0.tail == tail
@fn Specification::new_production
%opt heapmut
%requires
    table_wf(old(self).symbol_table, old(vh)@), nt_has(old(vh)@, data(*left_hand_side)), numbered(old(self).productions@),
    old(self).productions@.len() < 0xFFFF_FFFF,
    old(self).productions@.len() == 0 ==> *left_hand_side is UserDefined && old(vh)@.defs[data(*left_hand_side)]@.len() > 0,
%ensures
    table_wf(final(self).symbol_table, final(vh)@), numbered(final(self).productions@),
    *final(self) == (Specification { productions: final(self).productions, ..*old(self) }),
    final(vh)@.firsts == old(vh)@.firsts, final(vh)@.assoc == old(vh)@.assoc, final(vh)@.prec == old(vh)@.prec, final(vh)@.defs == old(vh)@.defs, old(vh)@.used.dom().subset_of(final(vh)@.used.dom()),
    ({
        let n = (old(self).productions@.len() + if old(self).productions@.len() == 0 { 1int } else { 0int });
        &&& final(self).productions@.len() == n + 1
        &&& final(self).productions@[n].lhs() == *left_hand_side && final(self).productions@[n].0.tail == *tail
        &&& forall|i: int| 0 <= i < old(self).productions@.len() ==> #[trigger] final(self).productions@[i] == old(self).productions@[i]
        &&& old(self).productions@.len() == 0 ==> final(self).productions@[0].lhs() == old(self).symbol_table.start_non_terminal && final(self).productions@[0].rhs() =~= seq![Symbol::NonTerminal(*left_hand_side)]
    }),
    final(self).productions@.len() > 1 ==> nt_uses(final(vh)@, final(self).productions@[1].lhs()).len() >= nt_uses(old(vh)@, final(self).productions@[1].lhs()).len(),
%at start: proof { lemma_grown(self.symbol_table, vh@); }
@fn ProductionTailData::Default.default
%ensures
    r.right_hand_side@.len() == 0, r.associativity is NonAssoc, r.precedence == 0, r.action is None,
@if AUG=1
    r.predicate is None,
@endif
@fn ProductionTail::Default.default
%ensures
    r.0.right_hand_side@.len() == 0, r.0.associativity is NonAssoc, r.0.precedence == 0, r.0.action is None,
@if AUG=1
    r.0.predicate is None,
@endif
@fn SymbolTable::non_terminals
%ensures names_wf(*self) ==> all_of_table(*self, r@)
@fn Specification::Default.default
%opt heapmut
%requires old(vh)@.firsts.dom() == Set::<NonTerminalData>::empty(), old(vh)@.prec.dom() == Set::<Key>::empty()
%ensures table_wf(r.symbol_table, final(vh)@), r.productions@.len() == 0, r.error_count == 0
@fn Specification::new
%opt heapmut
%rettype Result<Self, ParseError>
%requires old(vh)@.firsts.dom() == Set::<NonTerminalData>::empty(), old(vh)@.prec.dom() == Set::<Key>::empty()
%ensures match r { Ok(s) => built(s, final(vh)@), Err(_) => true }
%at let tail: let ghost g0 = spec.productions@; proof { lemma_table_in(spec.symbol_table, vh@); }
%at loop 1 before: let ghost h1 = vh@; let ghost s1 = spec; let ghost t = spec.symbol_table; let ghost g = spec.productions@; let ghost ks = lemma_covers(t, h1); proof { lemma_steps(); lemma_table_in(t, h1); assert(g_in(g, h1.firsts)) by { assert forall|p: Production| #[trigger] g.contains(p) implies nt_in(h1.firsts, p.lhs()) && syms_in(h1.firsts, p.rhs()) by { if g0.contains(p) {} } } assert(error_production_last(t, h1, g)) by { if g.len() > g0.len() { assert(g.drop_last() =~= g0); } } lemma_none_yet(g, h1.firsts); }
%loop 1 invariant
    spec == s1, g == s1.productions@, t == s1.symbol_table, table_wf(t, h1), numbered(g), error_production_last(t, h1, g), covers(t, h1.firsts, ks), nt_in(h1.firsts, t.start_non_terminal), nt_in(h1.firsts, t.error_non_terminal), forall|n: NonTerminal| #[trigger] table_nt(t, n) ==> nt_in(h1.firsts, n),
    vh@ == (Cells { firsts: vh@.firsts, ..h1 }), vh@.firsts.dom() == h1.firsts.dom(), growing(g, vh@.firsts),
    !firsts_changed ==> firsts_exact(g, vh@.firsts),
%loop 1 decreases room(g, vh@.firsts, ks), if firsts_changed { 1int } else { 0int }
%at loop 1 start: let ghost a = vh@.firsts; proof { lemma_steps(); assert(round(a, a, false)); }
%loop 2 invariant
    spec == s1, g == s1.productions@, t == s1.symbol_table, table_wf(t, h1), all_of_table(t, __it2@), forall|n: NonTerminal| #[trigger] table_nt(t, n) ==> nt_in(h1.firsts, n), __i2 <= __it2@.len(),
    vh@ == (Cells { firsts: vh@.firsts, ..h1 }), vh@.firsts.dom() == h1.firsts.dom(), growing(g, vh@.firsts), a.dom() == h1.firsts.dom(),
    round(a, vh@.firsts, firsts_changed),
    !firsts_changed ==> settled(g, vh@.firsts, t.start_non_terminal) && settled(g, vh@.firsts, t.error_non_terminal) && forall|k: int| 0 <= k < __i2 ==> settled(g, vh@.firsts, *#[trigger] __it2@[k]),
%loop 2 decreases __it2.len() - __i2
%at loop 2 start: proof { lemma_steps(); assert(table_nt(t, *__it2@[__i2 - 1])); }
%at loop 2 after: proof { lemma_cells(t, h1, vh@); lemma_round_over(t, vh@, g, a, firsts_changed, __it2@, ks); }
%at loop 1 after: proof { lemma_cells(t, h1, vh@); }

# ------------------------------------------------------------------ placeholders in actions and predicates
@raw
pub open spec fn is_at(s: Seq<u8>, i: int, w: Seq<u8>) -> bool { i + w.len() <= s.len() && s.subrange(i, i + w.len()) == w }
// str::replace: the occurrences of w from left to right
pub open spec fn replaced(s: Seq<u8>, i: int, w: Seq<u8>, by: Seq<u8>) -> Seq<u8>
    decreases s.len() - i
{
    if i >= s.len() || w.len() == 0 { Seq::empty() } else if is_at(s, i, w) { by + replaced(s, i + w.len(), w, by) } else { seq![s[i]] + replaced(s, i + 1, w, by) }
}
// decimal digits: those of ASCII and those that only \d of regex knows
pub open spec fn ascii_digit(b: u8) -> bool { 48 <= b <= 57 }
pub uninterp spec fn unicode_digit(c: Seq<u8>) -> bool;
// length of the digit at i, 0 if there is none
pub open spec fn digit_at(s: Seq<u8>, i: int) -> int {
    if i < 0 || i >= s.len() { 0 } else if s[i] < 0x80 { if ascii_digit(s[i]) { 1 } else { 0 } } else if width(s[i]) >= 2 && i + width(s[i]) <= s.len() && unicode_digit(s.subrange(i, i + width(s[i]))) { width(s[i]) } else { 0 }
}
pub open spec fn digits_end(s: Seq<u8>, i: int) -> int
    decreases s.len() - i
{
    if digit_at(s, i) > 0 { digits_end(s, i + digit_at(s, i)) } else { i }
}
pub open spec fn number(s: Seq<u8>) -> int
    decreases s.len()
{
    if s.len() == 0 { 0 } else { number(s.drop_last()) * 10 + (s.last() - 48) }
}
pub open spec fn is_number(s: Seq<u8>) -> bool { s.len() > 0 && forall|k: int| 0 <= k < s.len() ==> ascii_digit(#[trigger] s[k]) }
// the text of a number
pub open spec fn dec(n: int) -> Seq<u8>
    decreases n
{
    if n < 10 { seq![(48 + n) as u8] } else { dec(n / 10).push((48 + n % 10) as u8) }
}
pub trait VDisp {
    spec fn disp(&self) -> Seq<u8>;
    fn vdisp(&self) -> (r: Str) ensures r@ == self.disp();
}
impl VDisp for usize {
    open spec fn disp(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl VDisp for u32 {
    open spec fn disp(&self) -> Seq<u8> { dec(*self as int) }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl VDisp for Str {
    open spec fn disp(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl<X: VDisp> VDisp for &X {
    open spec fn disp(&self) -> Seq<u8> { (**self).disp() }
    #[verifier::external_body]
    fn vdisp(&self) -> (r: Str) { unimplemented!() }
}
impl Str {
    #[verifier::external_body]
    pub fn replace(&self, w: &Str, by: &Str) -> (r: Str)
        requires w@.len() > 0
        ensures r@ == replaced(self@, 0, w@, by@)
    { unimplemented!() }
}
#[derive(Debug)]
pub struct NumberError {}
#[verifier::external_body]
pub fn vusize_from_str(s: &Str) -> (r: Result<usize, NumberError>)
    ensures
        is_number(s@) && number(s@) <= usize::MAX ==> match r { Ok(n) => n as int == number(s@), Err(_) => false },
        is_number(s@) && number(s@) > usize::MAX ==> r is Err,
        !is_number(s@) && !(s@.len() > 0 && s@[0] == 43) ==> r is Err,
{ unimplemented!() }

// regular expressions: only the one for placeholders has a meaning here
pub open spec fn mark_at(s: Seq<u8>, i: int) -> bool { 0 <= i < s.len() && s[i] == 36 && digit_at(s, i + 1) > 0 }
#[verifier::external_body]
pub struct Regex { x: u8 }
#[verifier::external_body]
#[derive(Debug)]
pub struct RegexError { x: u8 }
pub struct Caps { pub from: usize, pub to: usize, pub before: Str, pub g0: Str, pub g1: Str }
// the end of the match before the k-th
pub open spec fn end_before(ms: Seq<Caps>, k: int) -> int { if k <= 0 { 0 } else { ms[k - 1].to as int } }
pub open spec fn mark_ok(s: Seq<u8>, ms: Seq<Caps>, k: int) -> bool {
    let m = ms[k];
    let a = end_before(ms, k);
    &&& a <= m.from && m.from + 1 < m.to <= s.len()
    &&& mark_at(s, m.from as int) && m.to == digits_end(s, m.from + 1)
    &&& m.before@ == s.subrange(a, m.from as int) && m.g0@ == s.subrange(m.from as int, m.to as int) && m.g1@ == s.subrange(m.from + 1, m.to as int)
    &&& forall|i: int| a <= i < m.from ==> !#[trigger] mark_at(s, i)
}
pub open spec fn marks(s: Seq<u8>, ms: Seq<Caps>) -> bool {
    &&& forall|k: int| 0 <= k < ms.len() ==> #[trigger] mark_ok(s, ms, k)
    &&& forall|i: int| end_before(ms, ms.len() as int) <= i < s.len() ==> !#[trigger] mark_at(s, i)
}
// a regular expression of the regex crate
pub uninterp spec fn is_regex(s: Seq<u8>) -> bool;
pub open spec fn pattern_ok(s: Seq<u8>) -> bool { s == t"\\$(\\d+)" || is_regex(s) }
impl Regex {
    pub uninterp spec fn view(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(p: &Str) -> (r: Result<Regex, RegexError>)
        ensures r is Ok <==> pattern_ok(p@), match r { Ok(x) => x@ == p@, Err(_) => true }
    { unimplemented!() }
    // the matches of "\$(\d+)", leftmost longest, with the text before each
    #[verifier::external_body]
    pub fn vcaptures(&self, s: &Str) -> (r: Vec<Caps>)
        requires self@ == t"\\$(\\d+)"
        ensures marks(s@, r@)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn vrest(&self, s: &Str) -> (r: &Str)
        requires self@ == t"\\$(\\d+)"
        ensures forall|ms: Seq<Caps>| #[trigger] marks(s@, ms) ==> r@ == s@.skip(end_before(ms, ms.len() as int))
    { unimplemented!() }
}
impl Caps {
    pub fn vbefore(&self) -> (r: &Str) ensures *r == self.before { &self.before }
    pub fn vgroup(&self, i: usize) -> (r: &Str)
        requires i <= 1
        ensures *r == (if i == 0 { self.g0 } else { self.g1 })
    { if i == 0 { &self.g0 } else { &self.g1 } }
}

// what stands for $n where the right hand side has `len` symbols
pub open spec fn names_symbol(d: Seq<u8>, len: int) -> bool { is_number(d) && 1 <= number(d) <= len }
pub open spec fn action_piece(m: Seq<u8>, len: int) -> Seq<u8> {
    if names_symbol(m.skip(1), len) { t"aa_rhs[" + dec(number(m.skip(1)) - 1) + t"]" } else { m }
}
pub open spec fn predicate_piece(m: Seq<u8>, len: int) -> Seq<u8> {
    if names_symbol(m.skip(1), len) { t"aa_attributes.at_len_minus_n(" + dec(len + 1 - number(m.skip(1))) + t")" } else { m }
}
pub open spec fn piece(m: Seq<u8>, len: int, pred: bool) -> Seq<u8> { if pred { predicate_piece(m, len) } else { action_piece(m, len) } }
// every $n from i on replaced
pub open spec fn numbered_from(s: Seq<u8>, i: int, len: int, pred: bool) -> Seq<u8>
    decreases s.len() - i
{
    if i >= s.len() || i < 0 { Seq::empty() } else if mark_at(s, i) && i < digits_end(s, i + 1) <= s.len() { piece(s.subrange(i, digits_end(s, i + 1)), len, pred) + numbered_from(s, digits_end(s, i + 1), len, pred) } else { seq![s[i]] + numbered_from(s, i + 1, len, pred) }
}
pub open spec fn action_text(a: Seq<u8>, len: int) -> Seq<u8> {
    numbered_from(replaced(replaced(a, 0, t"$$", t"aa_lhs"), 0, t"$INJECT", t"aa_inject"), 0, len, false)
}
pub open spec fn predicate_text(a: Seq<u8>, len: int) -> Seq<u8> {
    replaced(numbered_from(a, 0, len, true), 0, t"$?", t"aa_tag")
}
pub proof fn lemma_unmarked(s: Seq<u8>, a: int, b: int, len: int, pred: bool)
    requires 0 <= a <= b <= s.len(), forall|i: int| a <= i < b ==> !#[trigger] mark_at(s, i)
    ensures numbered_from(s, a, len, pred) == s.subrange(a, b) + numbered_from(s, b, len, pred)
    decreases b - a
{
    if a == b {
        assert(s.subrange(a, b) =~= Seq::<u8>::empty());
        assert(Seq::<u8>::empty() + numbered_from(s, b, len, pred) =~= numbered_from(s, b, len, pred));
    } else {
        assert(!mark_at(s, a));
        lemma_unmarked(s, a + 1, b, len, pred);
        assert(seq![s[a]] + (s.subrange(a + 1, b) + numbered_from(s, b, len, pred)) =~= s.subrange(a, b) + numbered_from(s, b, len, pred));
    }
}
// `out` is the text up to `at`
pub open spec fn so_far(out: Seq<u8>, s: Seq<u8>, at: int, len: int, pred: bool) -> bool {
    out + numbered_from(s, at, len, pred) == numbered_from(s, 0, len, pred)
}
pub proof fn lemma_one_mark(out: Seq<u8>, s: Seq<u8>, ms: Seq<Caps>, k: int, p: Seq<u8>, len: int, pred: bool)
    requires marks(s, ms), 0 <= k < ms.len(), so_far(out, s, end_before(ms, k), len, pred), p == piece(ms[k].g0@, len, pred)
    ensures so_far(out + ms[k].before@ + p, s, end_before(ms, k + 1), len, pred)
{
    hide(piece);
    let a = end_before(ms, k);
    let m = ms[k];
    assert(mark_ok(s, ms, k));
    if k > 0 { assert(mark_ok(s, ms, k - 1)); }
    lemma_unmarked(s, a, m.from as int, len, pred);
    let t = numbered_from(s, m.to as int, len, pred);
    assert(numbered_from(s, m.from as int, len, pred) == p + t);
    assert(out + (m.before@ + (p + t)) =~= out + m.before@ + p + t);
}
pub broadcast proof fn lemma_empty_plus(a: Seq<u8>)
    ensures #[trigger] (Seq::<u8>::empty() + a) == a
{ assert(Seq::<u8>::empty() + a =~= a); }
// no allocation has more than isize::MAX bytes
#[verifier::external_body]
pub proof fn axiom_vec_len(v: Vec<Symbol>)
    ensures v@.len() < 0x8000_0000_0000_0000
{ unimplemented!() }
pub proof fn lemma_one_piece(s: Seq<u8>, ms: Seq<Caps>, k: int)
    requires marks(s, ms), 0 <= k < ms.len()
    ensures ms[k].g0@.skip(1) == ms[k].g1@, ms[k].g1@.len() > 0, ms[k].g1@[0] != 43
{
    assert(mark_ok(s, ms, k));
    let m = ms[k];
    assert(m.g0@.skip(1) =~= m.g1@);
}
pub proof fn lemma_rest(out: Seq<u8>, s: Seq<u8>, ms: Seq<Caps>, len: int, pred: bool)
    requires marks(s, ms), so_far(out, s, end_before(ms, ms.len() as int), len, pred)
    ensures out + s.skip(end_before(ms, ms.len() as int)) == numbered_from(s, 0, len, pred)
{
    let a = end_before(ms, ms.len() as int);
    if ms.len() > 0 { assert(mark_ok(s, ms, ms.len() - 1)); }
    lemma_unmarked(s, a, s.len() as int, len, pred);
    assert(s.subrange(a, s.len() as int) + numbered_from(s, s.len() as int, len, pred) =~= s.skip(a));
}
@end
@fn RHS_CRE
%ensures r@ == t"\\$(\\d+)"
@fn Production::expanded_action
%opt fmt
%attr #[verifier::loop_isolation(false)]
%at start: hide(marks); hide(numbered_from); hide(dec); hide(number); broadcast use lemma_empty_plus; proof { axiom_vec_len(self.0.tail.0.right_hand_side); }
%ensures match r { Some(x) => self.0.tail.0.action is Some && x@ == action_text(self.0.tail.0.action->Some_0@, self.rhs().len() as int), None => self.0.tail.0.action is None }
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@.len() == __ms@.len(), forall|k: int| 0 <= k < __ms@.len() ==> *#[trigger] __it1@[k] == __ms@[k], marks(__rs@, __ms@),
    so_far(__out@, __rs@, end_before(__ms@, __i1 as int), self.rhs().len() as int, false),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { assert(Seq::<u8>::empty() + numbered_from(__rs@, 0, self.rhs().len() as int, false) =~= numbered_from(__rs@, 0, self.rhs().len() as int, false)); }
%at loop 1 start: let ghost o0 = __out@; proof { lemma_one_piece(__rs@, __ms@, __i1 - 1); }
%at loop 1 end: proof { lemma_one_mark(o0, __rs@, __ms@, __i1 - 1, __p@, self.rhs().len() as int, false); }
%at loop 1 after: proof { lemma_rest(__out@, __rs@, __ms@, self.rhs().len() as int, false); }
@if AUG=1
@fn Production::expanded_predicate
%opt fmt
%attr #[verifier::loop_isolation(false)]
%at start: hide(marks); hide(numbered_from); hide(dec); hide(number); broadcast use lemma_empty_plus; proof { axiom_vec_len(self.0.tail.0.right_hand_side); }
%ensures match r { Some(x) => self.0.tail.0.predicate is Some && x@ == predicate_text(self.0.tail.0.predicate->Some_0@, self.rhs().len() as int), None => self.0.tail.0.predicate is None }
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@.len() == __ms@.len(), forall|k: int| 0 <= k < __ms@.len() ==> *#[trigger] __it1@[k] == __ms@[k], marks(__rs@, __ms@),
    so_far(__out@, __rs@, end_before(__ms@, __i1 as int), self.rhs().len() as int, true),
%loop 1 decreases __it1.len() - __i1
%at loop 1 before: proof { assert(Seq::<u8>::empty() + numbered_from(__rs@, 0, self.rhs().len() as int, true) =~= numbered_from(__rs@, 0, self.rhs().len() as int, true)); }
%at loop 1 start: let ghost o0 = __out@; proof { lemma_one_piece(__rs@, __ms@, __i1 - 1); }
%at loop 1 end: proof { lemma_one_mark(o0, __rs@, __ms@, __i1 - 1, __p@, self.rhs().len() as int, true); }
%at loop 1 after: proof { lemma_rest(__out@, __rs@, __ms@, self.rhs().len() as int, true); }
@endif
