# The tables of the parser of specifications (${DIR}/src/parser.rs): whatever the text, a production is reduced only
# with its right hand side on the stack, every state has the go to that is asked of it, and no table is asked for a
# state it doesn't have. So the semantic actions are applied only to attributes they expect (`fits`, unit front).
@import front.vc
@raw
pub type T = AATerminal;
pub type N = AANonTerminal;
pub type A = AttributeData;
pub type Er = ParserError<AATerminal>;
impl<T> LexToken<T> { pub fn tag(&self) -> (r: &T) ensures *r == self.tag { &self.tag } }
pub enum Action { Shift(u32), Reduce(u32), Accept, SyntaxError }
// the specification as it is built, with the contents of its cells
pub struct P { pub s: Specification, pub h: Cells }

// ------------------------------------------------------------------ what stands on the stack
// (the end token and other tokens without a text of their own do not occur in a right hand side)
pub open spec fn typ(y: Sy, a: AttributeData) -> bool {
    match y {
        Sy::Terminal(t) => a is Token && a->Token_0.tag == t,
        Sy::NonTerminal(m) => match m {
            AANonTerminal::Number => a is Number,
            AANonTerminal::RegularExpression | AANonTerminal::NewTokenName | AANonTerminal::InjectionHead => has_text(a),
            AANonTerminal::TagList => a is TagOrTokenList, AANonTerminal::Tag => a is TagOrToken,
            AANonTerminal::ProductionGroupHead => a is LeftHandSide,
            AANonTerminal::ProductionTailList => a is ProductionTailList, AANonTerminal::ProductionTail => a is ProductionTail,
            AANonTerminal::Action => a is Action, AANonTerminal::TaggedPrecedence => a is AssociativityAndPrecedence,
            AANonTerminal::SymbolList => a is SymbolList, AANonTerminal::Symbol => a is Symbol,
            _ => m.is_predicate() ==> is_predicate(a),
        },
        _ => false,
    }
}
// of the tokens at least, whatever the semantic actions do
pub open spec fn typ_tok(y: Sy, a: AttributeData) -> bool { y is Terminal ==> typ(y, a) }
// a state on top of another
pub open spec fn edge(s: u32, x: Sy, q: u32) -> bool {
    &&& gh_state(q) && 1 <= gh_depth(q) <= gh_depth(s) + 1 && gh_past(q, 0) == x && gh_under(q, 0, s)
    &&& forall|j: int| 0 <= j < gh_depth(q) - 1 ==> #[trigger] gh_past(s, j) == gh_past(q, j + 1)
    &&& forall|j: int, u: u32| 0 <= j < gh_depth(q) - 1 && #[trigger] gh_under(s, j, u) ==> gh_under(q, j + 1, u)
}
pub open spec fn reducible(s: u32, p: u32) -> bool {
    let k = gh_len(p);
    &&& 0 < p <= last_rule() && 0 <= k <= gh_depth(s)
    &&& forall|i: int| 0 <= i < k ==> #[trigger] gh_sym(p, i) == gh_past(s, k - 1 - i)
    &&& if k == 0 { gh_has(s, gh_lhs(p)) } else { forall|u: u32| #[trigger] gh_under(s, k - 1, u) ==> gh_has(u, gh_lhs(p)) }
}
pub open spec fn act_ok(s: u32, t: AATerminal, a: Action) -> bool {
    match a { Action::Shift(q) => edge(s, Sy::Terminal(t), q), Action::Reduce(p) => reducible(s, p), _ => true }
}
// the attributes on top of the stack in state s
pub open spec fn shaped(s: u32, attrs: Seq<AttributeData>) -> bool {
    gh_depth(s) <= attrs.len() && forall|j: int| 0 <= j < gh_depth(s) ==> typ_tok(#[trigger] gh_past(s, j), attrs[attrs.len() - 1 - j])
}
@end
@if AUG=1
@raw
pub struct ParseStack<T, N, A> { pub states: Vec<(T, N)>, pub attributes: Vec<A> }
impl<T, N, A> ParseStack<T, N, A> {
    // proved in unit driver_alalr1
    #[verifier::external_body]
    pub fn at_len_minus_n(&self, n: usize) -> (r: &A) requires 1 <= n <= self.attributes@.len() ensures *r == self.attributes@[self.attributes@.len() - n] { unimplemented!() }
}
@end
@endif
# ---------------------------------------------------------------- the tables
@fn Specification::next_action
@if AUG=0
%requires gh_state(aa_state)
@endif
@if AUG=1
%requires gh_state(aa_state), shaped(aa_state, aa_attributes.attributes@),
@endif
%ensures act_ok(aa_state, aa_token.tag, r), r is SyntaxError <==> !gh_expects(aa_state, aa_token.tag),
%at start: let ghost below = gh_past(aa_state, 0);
@fn Specification::look_ahead_set
%requires gh_state(state)
@fn Specification::viable_error_recovery_states
%ensures r@ == Set::<u32>::empty()
@fn Specification::goto_state
%requires gh_has(current_state, *lhs)
%ensures edge(current_state, Sy::NonTerminal(*lhs), r)
@raw
// ------------------------------------------------------------------ the machine with these tables
#[verifier::external_body]
pub struct TsV { x: u8 }
pub uninterp spec fn ts_front(v: TsV) -> Result<LexToken<AATerminal>, LexError<AATerminal>>;
pub uninterp spec fn ts_empty(v: TsV) -> bool;
pub uninterp spec fn ts_adv(v: TsV) -> TsV;
pub uninterp spec fn ts_inj(v: TsV, text: Seq<u8>, label: Seq<u8>) -> TsV;
pub uninterp spec fn ts_new(la: LexicalAnalyzer, text: Seq<u8>, label: Seq<u8>) -> TsV;
pub uninterp spec fn ts_len(v: TsV) -> nat;
#[verifier::external_body]
pub proof fn axiom_ts_progress(v: TsV)
    requires !ts_empty(v)
    ensures ts_len(ts_adv(v)) < ts_len(v)
{ unimplemented!() }
#[verifier::external_body]
pub struct LexicalAnalyzer { x: u8 }
pub uninterp spec fn la_of(p: P) -> LexicalAnalyzer;
pub open spec fn a_tok(t: LexToken<AATerminal>) -> AttributeData { AttributeData::Token(t) }
pub uninterp spec fn a_err(e: Er) -> AttributeData;
pub uninterp spec fn look_ahead(state: u32) -> OrderedSet<AATerminal>;
pub uninterp spec fn rep(p: P, e: Er) -> P;
pub uninterp spec fn err_goto(state: u32) -> u32;
// what the functions above return, as functions of their arguments: they satisfy their contracts
pub uninterp spec fn act(p: P, state: u32, attrs: Seq<AttributeData>, tok: LexToken<AATerminal>) -> Action;
pub uninterp spec fn goto_(lhs: AANonTerminal, state: u32) -> u32;
pub uninterp spec fn viable(tag: AATerminal) -> OrderedSet<u32>;
pub uninterp spec fn sem(p: P, pid: u32, attrs: Seq<AttributeData>) -> (P, AttributeData, Seq<(Str, Str)>);
pub open spec fn prod(pid: u32) -> (AANonTerminal, usize) { (gh_lhs(pid), gh_len(pid) as usize) }
#[verifier::external_body]
pub proof fn contract_next_action(p: P, state: u32, attrs: Seq<AttributeData>, tok: LexToken<AATerminal>)
    requires gh_state(state), shaped(state, attrs)
    ensures act_ok(state, tok.tag, act(p, state, attrs, tok))
{ unimplemented!() }
#[verifier::external_body]
pub proof fn contract_goto_state(lhs: AANonTerminal, state: u32)
    requires gh_has(state, lhs)
    ensures edge(state, Sy::NonTerminal(lhs), goto_(lhs, state))
{ unimplemented!() }
#[verifier::external_body]
pub proof fn contract_viable(tag: AATerminal)
    ensures viable(tag)@ == Set::<u32>::empty()
{ unimplemented!() }
#[verifier::external_body]
pub proof fn contract_production_data(p: u32)
    requires 0 < p <= last_rule()
    ensures arity(rule(p)) matches Some(k) ==> gh_len(p) == k, makes(rule(p), gh_lhs(p)), 0 <= gh_len(p) <= usize::MAX
{ unimplemented!() }
pub open spec fn called(pid: u32, attrs: Seq<AttributeData>, p: P) -> bool {
    &&& front_ok(p.s, p.h) && fits(rule(pid), attrs, p.s, p.h)
    &&& forall|i: int| 0 <= i < attrs.len() ==> attr_ok(#[trigger] attrs[i], p.h)
    &&& p.s.error_count < 0xFFFF_FFFF && p.s.warning_count < 0xFFFF_FFFF
}
#[verifier::external_body]
pub proof fn contract_do_semantic_action(p: P, pid: u32, attrs: Seq<AttributeData>)
    requires called(pid, attrs, p)
    ensures ({
        let (q, r, j) = sem(p, pid, attrs);
        let ru = rule(pid);
        &&& denotes(ru, attrs, p.s, p.h, q.s, q.h, r) && produces(ru, attrs, p.s, q.s, r) && copies(ru, attrs, p.s, q.s, r)
        &&& exists|i0: Seq<(Seq<u8>, Seq<u8>)>, i1: Seq<(Seq<u8>, Seq<u8>)>| #[trigger] reports(ru, attrs, p.s, p.h, q.s, i0, i1, r) && passes(ru, attrs, i0, i1, r)
        &&& !conflict(ru, attrs, p.s) ==> front_ok(q.s, q.h) && attr_ok(r, q.h)
        &&& later(p.h, q.h)
    })
{ unimplemented!() }
impl<X: VOrd> OrderedSet<X> { pub open spec fn has(&self, x: X) -> bool { self@.contains(x) } }
@end
@include machine.vc
@raw
// ------------------------------------------------------------------ no state is entered, no token sought, after an error
pub proof fn lemma_no_recovery(states: Seq<(Sy, u32)>, last: Option<u32>, v: TsV)
    ensures seek(states, last, v) is None
    decreases ts_len(v)
{
    if !ts_empty(v) {
        axiom_ts_progress(v);
        lemma_no_recovery(states, last, ts_adv(v));
        match ts_front(v) {
            Ok(t) => {
                lemma_nearest(states, last, viable(t.tag), 1);
                contract_viable(t.tag);
                if let Some(k) = nearest(states, last, viable(t.tag), 1) { assert(usable(states, last, viable(t.tag), k)); }
            },
            Err(_) => {},
        }
    }
}
// ------------------------------------------------------------------ the stack
pub open spec fn stacked(st: Seq<(Sy, u32)>, i: int) -> bool {
    let s = st[i].1;
    &&& gh_state(s) && gh_depth(s) <= i
    &&& forall|j: int| 0 <= j < gh_depth(s) ==> #[trigger] gh_past(s, j) == st[i - j].0 && gh_under(s, j, st[i - j - 1].1)
}
pub open spec fn stack_ok(st: Seq<(Sy, u32)>) -> bool { st.len() > 0 && forall|i: int| 0 <= i < st.len() ==> #[trigger] stacked(st, i) }
pub proof fn lemma_start(st: Seq<(Sy, u32)>)
    requires st.len() == 1, st[0].1 == 0
    ensures stack_ok(st)
{}
pub proof fn lemma_stack_push(st: Seq<(Sy, u32)>, x: Sy, q: u32)
    requires stack_ok(st), edge(top(st), x, q)
    ensures stack_ok(st.push((x, q)))
{
    let t = st.push((x, q));
    let n = st.len() as int;
    let s = top(st);
    assert(stacked(st, n - 1));
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] stacked(t, i) by {
        if i < n {
            assert(stacked(st, i));
            assert forall|j: int| 0 <= j < gh_depth(st[i].1) implies #[trigger] gh_past(st[i].1, j) == t[i - j].0 && gh_under(st[i].1, j, t[i - j - 1].1) by {}
        } else {
            assert forall|j: int| 0 <= j < gh_depth(q) implies #[trigger] gh_past(q, j) == t[i - j].0 && gh_under(q, j, t[i - j - 1].1) by {
                if j > 0 {
                    assert(gh_past(s, j - 1) == gh_past(q, j - 1 + 1));
                    assert(gh_under(s, j - 1, st[n - 1 - (j - 1) - 1].1));
                }
            }
        }
    }
}
pub proof fn lemma_stack_take(st: Seq<(Sy, u32)>, n: int)
    requires stack_ok(st), 0 < n <= st.len()
    ensures stack_ok(st.take(n))
{
    let t = st.take(n);
    assert forall|i: int| 0 <= i < t.len() implies #[trigger] stacked(t, i) by {
        assert(stacked(st, i));
        assert forall|j: int| 0 <= j < gh_depth(st[i].1) implies #[trigger] gh_past(st[i].1, j) == t[i - j].0 && gh_under(st[i].1, j, t[i - j - 1].1) by {}
    }
}
// every attribute of a token is that token
pub open spec fn base(c: Cfg) -> bool {
    &&& stack_ok(c.states) && c.states.len() == c.attrs.len() + 1
    &&& forall|i: int| 0 <= i < c.attrs.len() ==> typ_tok(c.states[i + 1].0, #[trigger] c.attrs[i])
}
pub proof fn lemma_shaped(c: Cfg)
    requires base(c)
    ensures gh_state(top(c.states)), shaped(top(c.states), c.attrs)
{
    let n = c.attrs.len() as int;
    assert(stacked(c.states, n));
    let s = top(c.states);
    assert forall|j: int| 0 <= j < gh_depth(s) implies typ_tok(#[trigger] gh_past(s, j), c.attrs[n - 1 - j]) by { assert(gh_past(s, j) == c.states[n - j].0); }
}
// the right hand side is on the stack, and what is under it has a go to
pub proof fn lemma_reducible(c: Cfg, p: u32)
    requires base(c), reducible(top(c.states), p)
    ensures ({
        let k = gh_len(p);
        let n = c.attrs.len() as int;
        &&& 0 <= k <= n && prod(p).1 == k
        &&& forall|i: int| 0 <= i < k ==> #[trigger] gh_sym(p, i) == c.states[n - k + i + 1].0
        &&& gh_has(top(c.states.take(c.states.len() - k)), gh_lhs(p))
    })
{
    let n = c.attrs.len() as int;
    let k = gh_len(p);
    let s = top(c.states);
    lemma_shaped(c);
    contract_production_data(p);
    assert(stacked(c.states, n));
    if k > 0 {
        assert(gh_past(s, k - 1) == c.states[n - (k - 1)].0);
        assert(gh_under(s, k - 1, c.states[n - k].1));
    }
    assert(top(c.states.take(c.states.len() - k)) == c.states[n - k].1);
    assert forall|i: int| 0 <= i < k implies #[trigger] gh_sym(p, i) == c.states[n - k + i + 1].0 by { assert(gh_sym(p, i) == gh_past(s, k - 1 - i)); }
}
pub open spec fn reducing(c: Cfg) -> Option<u32> {
    if c.done || met(c) is Some { None } else {
        match act(c.p, top(c.states), c.attrs, ts_front(c.toks)->Ok_0) { Action::Reduce(p) => Some(p), _ => None }
    }
}
pub open spec fn rhs(c: Cfg, p: u32) -> Seq<AttributeData> { c.attrs.skip(c.attrs.len() - prod(p).1) }
// what is to be reduced is reducible
pub proof fn lemma_acts(c: Cfg)
    requires base(c), !c.done, met(c) is None
    ensures act_ok(top(c.states), ts_front(c.toks)->Ok_0.tag, act(c.p, top(c.states), c.attrs, ts_front(c.toks)->Ok_0)), reduce_ok(c)
{
    lemma_shaped(c);
    contract_next_action(c.p, top(c.states), c.attrs, ts_front(c.toks)->Ok_0);
    if let Some(p) = reducing(c) { lemma_reducible(c, p); }
}
pub proof fn lemma_base_step(c: Cfg)
    requires base(c)
    ensures reduce_ok(c), base(step(c))
{
    if !c.done {
        match met(c) {
            Some(e) => lemma_no_recovery(c.states, c.last, c.toks),
            None => {
                lemma_acts(c);
                let t = ts_front(c.toks)->Ok_0;
                match act(c.p, top(c.states), c.attrs, t) {
                    Action::Shift(q) => lemma_stack_push(c.states, Sy::Terminal(t.tag), q),
                    Action::Reduce(p) => {
                        lemma_reducible(c, p);
                        let below = c.states.take(c.states.len() - gh_len(p));
                        lemma_stack_take(c.states, c.states.len() - gh_len(p));
                        contract_goto_state(gh_lhs(p), top(below));
                        lemma_stack_push(below, Sy::NonTerminal(gh_lhs(p)), goto_(gh_lhs(p), top(below)));
                    },
                    _ => {},
                }
            },
        }
    }
}
// C17: parse_text of unit driver may be called with the tables of the parser of specifications, whatever the text
pub proof fn lemma_c17_tables(c0: Cfg, n: nat)
    requires c0.states == seq![(Sy::Start, 0u32)], c0.attrs.len() == 0
    ensures base(steps(c0, n)), reduce_ok(steps(c0, n))
    decreases n
{
    if n > 0 {
        lemma_c17_tables(c0, (n - 1) as nat);
        lemma_base_step(steps(c0, (n - 1) as nat));
    } else {
        lemma_start(c0.states);
    }
    lemma_base_step(steps(c0, n));
}
// ------------------------------------------------------------------ the semantic actions get the attributes they expect
// what the lexer's patterns say of the texts of tokens; what is asked of the text as a whole
pub open spec fn plain(pid: u32, a: Seq<AttributeData>, s: Specification, h: Cells) -> bool {
    &&& s.error_count < 0xFFFF_FFFF && s.warning_count < 0xFFFF_FFFF
    &&& match rule(pid) {
        Rule::Preamble => delimited(text(a[1])@),
        Rule::Action | Rule::Predicate => delimited(text(a[0])@),
        Rule::TokLit | Rule::TokRegex => !h.prec.dom().contains(new_tok_key(a[1], a[2])),
        Rule::TagName => !h.prec.dom().contains(new_tag_key(a[0])),
        Rule::Prec(_) => s.symbol_table.last_precedence < u16::MAX,
        Rule::Group => s.productions@.len() + a[1]->ProductionTailList_0@.len() < 0xFFFF_FFFE,
        Rule::Lhs => user_name(text(a[0])) && !lhs_taken(s, a[0]),
        Rule::SymName => user_name(text(a[0])),
        _ => true,
    }
}
pub proof fn lemma_fits(pid: u32, a: Seq<AttributeData>, s: Specification, h: Cells)
    requires
        0 < pid <= last_rule(), a.len() == gh_len(pid), plain(pid, a, s, h),
        forall|i: int| 0 <= i < a.len() ==> typ(#[trigger] gh_sym(pid, i), a[i]),
    ensures fits(rule(pid), a, s, h)
{
    let s0 = gh_sym(pid, 0);
    let s1 = gh_sym(pid, 1);
    let s2 = gh_sym(pid, 2);
    let s3 = gh_sym(pid, 3);
    contract_production_data(pid);
}
// productions without an action stand for nothing in particular, or for what they pass on
pub proof fn lemma_kept_type(pid: u32, r: AttributeData)
    requires 0 < pid <= last_rule(), rule(pid) is Keep || rule(pid) is Empty, gh_len(pid) > 0 ==> typ(gh_sym(pid, 0), r)
    ensures typ(Sy::NonTerminal(gh_lhs(pid)), r)
{
}
pub proof fn lemma_made(p: P, pid: u32, a: Seq<AttributeData>)
    requires 0 < pid <= last_rule(), called(pid, a, p), a.len() == gh_len(pid), a.len() > 0 ==> typ(gh_sym(pid, 0), a[0])
    ensures typ(Sy::NonTerminal(gh_lhs(pid)), sem(p, pid, a).1)
{
    let (q, r, j) = sem(p, pid, a);
    let ru = rule(pid);
    contract_production_data(pid);
    contract_do_semantic_action(p, pid, a);
    if ru is Keep || ru is Empty { lemma_kept_type(pid, r); }
}
pub open spec fn full(c: Cfg) -> bool {
    &&& base(c) && front_ok(c.p.s, c.p.h)
    &&& forall|i: int| 0 <= i < c.attrs.len() ==> typ(c.states[i + 1].0, #[trigger] c.attrs[i])
    &&& forall|i: int| 0 <= i < c.attrs.len() ==> attr_ok(#[trigger] c.attrs[i], c.p.h)
}
pub open spec fn step_plain(c: Cfg) -> bool { match reducing(c) { Some(p) => plain(p, rhs(c, p), c.p.s, c.p.h), None => true } }
pub open spec fn step_called(c: Cfg) -> bool { match reducing(c) { Some(p) => called(p, rhs(c, p), c.p), None => true } }
pub proof fn lemma_called(c: Cfg)
    requires full(c), step_plain(c)
    ensures step_called(c)
{
    if let Some(p) = reducing(c) {
        lemma_acts(c);
        lemma_reducible(c, p);
        let a = rhs(c, p);
        let k = gh_len(p);
        let n = c.attrs.len() as int;
        assert forall|i: int| 0 <= i < a.len() implies typ(#[trigger] gh_sym(p, i), a[i]) by { assert(a[i] == c.attrs[n - k + i]); }
        assert forall|i: int| 0 <= i < a.len() implies attr_ok(#[trigger] a[i], c.p.h) by { assert(a[i] == c.attrs[n - k + i]); }
        lemma_fits(p, a, c.p.s, c.p.h);
    }
}
pub proof fn lemma_full_step(c: Cfg)
    requires full(c), step_plain(c), !c.done, met(c) is None
    ensures full(step(c))
{
    lemma_called(c);
    lemma_base_step(c);
    lemma_acts(c);
    let t = ts_front(c.toks)->Ok_0;
    let d = step(c);
    let n = c.attrs.len() as int;
    if let Some(p) = reducing(c) {
        lemma_reducible(c, p);
        let k = gh_len(p);
        let a = rhs(c, p);
        if a.len() > 0 { assert(a[0] == c.attrs[n - k]); assert(gh_sym(p, 0) == c.states[n - k + 0 + 1].0); }
        lemma_made(c.p, p, a);
        contract_do_semantic_action(c.p, p, a);
        assert(!conflict(rule(p), a, c.p.s));
        assert forall|i: int| 0 <= i < d.attrs.len() implies typ(d.states[i + 1].0, #[trigger] d.attrs[i]) && attr_ok(d.attrs[i], d.p.h) by {
            if i < n - k {
                assert(d.attrs[i] == c.attrs[i] && d.states[i + 1] == c.states[i + 1]);
                lemma_attributes_stay(c.attrs[i], c.p.h, d.p.h);
            }
        }
    } else {
        assert forall|i: int| 0 <= i < d.attrs.len() implies typ(d.states[i + 1].0, #[trigger] d.attrs[i]) && attr_ok(d.attrs[i], d.p.h) by {
            if i < n { assert(d.attrs[i] == c.attrs[i] && d.states[i + 1] == c.states[i + 1]); }
        }
    }
}
// C17: until an error is met, every semantic action is applied to attributes that fit its production
pub proof fn lemma_c17_fits(c0: Cfg, n: nat)
    requires
        c0.states == seq![(Sy::Start, 0u32)], c0.attrs.len() == 0, front_ok(c0.p.s, c0.p.h),
        forall|m: nat| m <= n ==> step_plain(#[trigger] steps(c0, m)),
    ensures
        step_called(steps(c0, n)),
        (forall|m: nat| m < n ==> !(#[trigger] steps(c0, m)).done && met(steps(c0, m)) is None) ==> full(steps(c0, n)),
    decreases n
{
    let c = steps(c0, n);
    if n > 0 {
        let m = (n - 1) as nat;
        let d = steps(c0, m);
        lemma_c17_fits(c0, m);
        assert(step_plain(d));
        if d.done { assert(c == d); }
        else if met(d) is Some { lemma_c17_tables(c0, m); lemma_no_recovery(d.states, d.last, d.toks); assert(c.done); }
        else {
            assert forall|k: nat| k < m implies !(#[trigger] steps(c0, k)).done && met(steps(c0, k)) is None by {
                lemma_stays(c0, k, m);
            }
            lemma_full_step(d);
        }
    } else {
        lemma_start(c0.states);
    }
    assert(step_plain(c));
    if full(c) { lemma_called(c); }
}
pub proof fn lemma_stays(c0: Cfg, k: nat, m: nat)
    requires k < m, !steps(c0, m).done, c0.states == seq![(Sy::Start, 0u32)], c0.attrs.len() == 0
    ensures !steps(c0, k).done, met(steps(c0, k)) is None
    decreases m
{
    let l = (m - 1) as nat;
    let d = steps(c0, l);
    lemma_c17_tables(c0, l);
    if !d.done && met(d) is Some { lemma_no_recovery(d.states, d.last, d.toks); }
    if k < l { lemma_stays(c0, k, l); }
}
@end
# ---------------------------------------------------------------- the language of specifications
@raw
pub open spec fn tm(t: AATerminal) -> Sy { Sy::Terminal(t) }
pub open spec fn nt(m: AANonTerminal) -> Sy { Sy::NonTerminal(m) }
@end
@if AUG=0
@raw
pub open spec fn gr(p: u32) -> (AANonTerminal, Seq<Sy>) {
    match p {
        0 => (AANonTerminal::AAStart, seq![nt(AANonTerminal::Specification)]),
        1 => (AANonTerminal::Specification, seq![nt(AANonTerminal::Preamble), nt(AANonTerminal::Configuration), tm(AATerminal::NewSection), nt(AANonTerminal::Definitions), tm(AATerminal::NewSection), nt(AANonTerminal::ProductionRules)]),
        2 => (AANonTerminal::OptionalInjection, seq![]),
        3 => (AANonTerminal::OptionalInjection, seq![nt(AANonTerminal::Injection)]),
        4 => (AANonTerminal::InjectionHead, seq![tm(AATerminal::Inject), tm(AATerminal::Literal)]),
        5 => (AANonTerminal::Injection, seq![nt(AANonTerminal::InjectionHead), tm(AATerminal::Dot)]),
        6 => (AANonTerminal::Preamble, seq![]),
        7 => (AANonTerminal::Preamble, seq![nt(AANonTerminal::OptionalInjection), tm(AATerminal::RustCode), nt(AANonTerminal::OptionalInjection)]),
        8 => (AANonTerminal::Configuration, seq![nt(AANonTerminal::AttributeType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::TargetType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedConflicts), nt(AANonTerminal::OptionalInjection)]),
        9 => (AANonTerminal::Configuration, seq![nt(AANonTerminal::TargetType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::AttributeType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedConflicts), nt(AANonTerminal::OptionalInjection)]),
        10 => (AANonTerminal::AttributeType, seq![tm(AATerminal::Attr), tm(AATerminal::Ident)]),
        11 => (AANonTerminal::TargetType, seq![tm(AATerminal::Target), tm(AATerminal::Ident)]),
        12 => (AANonTerminal::ExpectedConflicts, seq![]),
        13 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedRRConflicts), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedSRConflicts)]),
        14 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedSRConflicts), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedRRConflicts)]),
        15 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedRRConflicts)]),
        16 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedSRConflicts)]),
        17 => (AANonTerminal::ExpectedRRConflicts, seq![tm(AATerminal::ReduceReduce), nt(AANonTerminal::Number)]),
        18 => (AANonTerminal::ExpectedSRConflicts, seq![tm(AATerminal::ShiftReduce), nt(AANonTerminal::Number)]),
        19 => (AANonTerminal::Number, seq![tm(AATerminal::NumberExpr)]),
        20 => (AANonTerminal::Definitions, seq![nt(AANonTerminal::TokenDefinitions), nt(AANonTerminal::SkipDefinitions), nt(AANonTerminal::PrecedenceDefinitions)]),
        21 => (AANonTerminal::TokenDefinitions, seq![nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::TokenDefinition)]),
        22 => (AANonTerminal::TokenDefinitions, seq![nt(AANonTerminal::TokenDefinitions), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::TokenDefinition), nt(AANonTerminal::OptionalInjection)]),
        23 => (AANonTerminal::TokenDefinition, seq![tm(AATerminal::Token), nt(AANonTerminal::NewTokenName), tm(AATerminal::Literal)]),
        24 => (AANonTerminal::TokenDefinition, seq![tm(AATerminal::Token), nt(AANonTerminal::NewTokenName), nt(AANonTerminal::RegularExpression)]),
        25 => (AANonTerminal::RegularExpression, seq![tm(AATerminal::RegEx)]),
        26 => (AANonTerminal::NewTokenName, seq![tm(AATerminal::Ident)]),
        27 => (AANonTerminal::SkipDefinitions, seq![]),
        28 => (AANonTerminal::SkipDefinitions, seq![nt(AANonTerminal::SkipDefinitions), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::SkipDefinition), nt(AANonTerminal::OptionalInjection)]),
        29 => (AANonTerminal::SkipDefinition, seq![tm(AATerminal::Skip), nt(AANonTerminal::RegularExpression)]),
        30 => (AANonTerminal::PrecedenceDefinitions, seq![]),
        31 => (AANonTerminal::PrecedenceDefinitions, seq![nt(AANonTerminal::PrecedenceDefinitions), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::PrecedenceDefinition), nt(AANonTerminal::OptionalInjection)]),
        32 => (AANonTerminal::PrecedenceDefinition, seq![tm(AATerminal::Left), nt(AANonTerminal::TagList)]),
        33 => (AANonTerminal::PrecedenceDefinition, seq![tm(AATerminal::Right), nt(AANonTerminal::TagList)]),
        34 => (AANonTerminal::PrecedenceDefinition, seq![tm(AATerminal::NonAssoc), nt(AANonTerminal::TagList)]),
        35 => (AANonTerminal::TagList, seq![nt(AANonTerminal::Tag)]),
        36 => (AANonTerminal::TagList, seq![nt(AANonTerminal::TagList), nt(AANonTerminal::Tag)]),
        37 => (AANonTerminal::Tag, seq![tm(AATerminal::Literal)]),
        38 => (AANonTerminal::Tag, seq![tm(AATerminal::Ident)]),
        39 => (AANonTerminal::ProductionRules, seq![nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ProductionGroup), nt(AANonTerminal::OptionalInjection)]),
        40 => (AANonTerminal::ProductionRules, seq![nt(AANonTerminal::ProductionRules), nt(AANonTerminal::ProductionGroup), nt(AANonTerminal::OptionalInjection)]),
        41 => (AANonTerminal::ProductionGroup, seq![nt(AANonTerminal::ProductionGroupHead), nt(AANonTerminal::ProductionTailList), tm(AATerminal::Dot)]),
        42 => (AANonTerminal::ProductionGroupHead, seq![tm(AATerminal::Ident), tm(AATerminal::Colon)]),
        43 => (AANonTerminal::ProductionTailList, seq![nt(AANonTerminal::ProductionTail)]),
        44 => (AANonTerminal::ProductionTailList, seq![nt(AANonTerminal::ProductionTailList), tm(AATerminal::VerticalBar), nt(AANonTerminal::ProductionTail)]),
        45 => (AANonTerminal::ProductionTail, seq![]),
        46 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::Action)]),
        47 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::TaggedPrecedence), nt(AANonTerminal::Action)]),
        48 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::TaggedPrecedence)]),
        49 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Action)]),
        50 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList)]),
        51 => (AANonTerminal::Action, seq![tm(AATerminal::ActionCode)]),
        52 => (AANonTerminal::TaggedPrecedence, seq![tm(AATerminal::Precedence), tm(AATerminal::Ident)]),
        53 => (AANonTerminal::TaggedPrecedence, seq![tm(AATerminal::Precedence), tm(AATerminal::Literal)]),
        54 => (AANonTerminal::SymbolList, seq![nt(AANonTerminal::Symbol)]),
        55 => (AANonTerminal::SymbolList, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Symbol)]),
        56 => (AANonTerminal::Symbol, seq![tm(AATerminal::Ident)]),
        57 => (AANonTerminal::Symbol, seq![tm(AATerminal::Literal)]),
        58 => (AANonTerminal::Symbol, seq![tm(AATerminal::Error)]),
        _ => arbitrary(),
    }
}
@end
@endif
@if AUG=1
@raw
pub open spec fn gr(p: u32) -> (AANonTerminal, Seq<Sy>) {
    match p {
        0 => (AANonTerminal::AAStart, seq![nt(AANonTerminal::Specification)]),
        1 => (AANonTerminal::Specification, seq![nt(AANonTerminal::Preamble), nt(AANonTerminal::Configuration), tm(AATerminal::NewSection), nt(AANonTerminal::Definitions), tm(AATerminal::NewSection), nt(AANonTerminal::ProductionRules)]),
        2 => (AANonTerminal::OptionalInjection, seq![]),
        3 => (AANonTerminal::OptionalInjection, seq![nt(AANonTerminal::Injection)]),
        4 => (AANonTerminal::InjectionHead, seq![tm(AATerminal::Inject), tm(AATerminal::Literal)]),
        5 => (AANonTerminal::Injection, seq![nt(AANonTerminal::InjectionHead), tm(AATerminal::Dot)]),
        6 => (AANonTerminal::Preamble, seq![]),
        7 => (AANonTerminal::Preamble, seq![nt(AANonTerminal::OptionalInjection), tm(AATerminal::RustCode), nt(AANonTerminal::OptionalInjection)]),
        8 => (AANonTerminal::Configuration, seq![nt(AANonTerminal::AttributeType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::TargetType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedConflicts), nt(AANonTerminal::OptionalInjection)]),
        9 => (AANonTerminal::Configuration, seq![nt(AANonTerminal::TargetType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::AttributeType), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedConflicts), nt(AANonTerminal::OptionalInjection)]),
        10 => (AANonTerminal::AttributeType, seq![tm(AATerminal::Attr), tm(AATerminal::Ident)]),
        11 => (AANonTerminal::TargetType, seq![tm(AATerminal::Target), tm(AATerminal::Ident)]),
        12 => (AANonTerminal::ExpectedConflicts, seq![]),
        13 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedRRConflicts), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedSRConflicts)]),
        14 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedSRConflicts), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ExpectedRRConflicts)]),
        15 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedRRConflicts)]),
        16 => (AANonTerminal::ExpectedConflicts, seq![nt(AANonTerminal::ExpectedSRConflicts)]),
        17 => (AANonTerminal::ExpectedRRConflicts, seq![tm(AATerminal::ReduceReduce), nt(AANonTerminal::Number)]),
        18 => (AANonTerminal::ExpectedSRConflicts, seq![tm(AATerminal::ShiftReduce), nt(AANonTerminal::Number)]),
        19 => (AANonTerminal::Number, seq![tm(AATerminal::NumberExpr)]),
        20 => (AANonTerminal::Definitions, seq![nt(AANonTerminal::TokenDefinitions), nt(AANonTerminal::SkipDefinitions), nt(AANonTerminal::PrecedenceDefinitions)]),
        21 => (AANonTerminal::TokenDefinitions, seq![nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::TokenDefinition)]),
        22 => (AANonTerminal::TokenDefinitions, seq![nt(AANonTerminal::TokenDefinitions), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::TokenDefinition), nt(AANonTerminal::OptionalInjection)]),
        23 => (AANonTerminal::TokenDefinition, seq![tm(AATerminal::Token), nt(AANonTerminal::NewTokenName), tm(AATerminal::Literal)]),
        24 => (AANonTerminal::TokenDefinition, seq![tm(AATerminal::Token), nt(AANonTerminal::NewTokenName), nt(AANonTerminal::RegularExpression)]),
        25 => (AANonTerminal::RegularExpression, seq![tm(AATerminal::RegEx)]),
        26 => (AANonTerminal::NewTokenName, seq![tm(AATerminal::Ident)]),
        27 => (AANonTerminal::NewTokenName, seq![tm(AATerminal::Ident)]),
        28 => (AANonTerminal::SkipDefinitions, seq![]),
        29 => (AANonTerminal::SkipDefinitions, seq![nt(AANonTerminal::SkipDefinitions), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::SkipDefinition), nt(AANonTerminal::OptionalInjection)]),
        30 => (AANonTerminal::SkipDefinition, seq![tm(AATerminal::Skip), nt(AANonTerminal::RegularExpression)]),
        31 => (AANonTerminal::PrecedenceDefinitions, seq![]),
        32 => (AANonTerminal::PrecedenceDefinitions, seq![nt(AANonTerminal::PrecedenceDefinitions), nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::PrecedenceDefinition), nt(AANonTerminal::OptionalInjection)]),
        33 => (AANonTerminal::PrecedenceDefinition, seq![tm(AATerminal::Left), nt(AANonTerminal::TagList)]),
        34 => (AANonTerminal::PrecedenceDefinition, seq![tm(AATerminal::Right), nt(AANonTerminal::TagList)]),
        35 => (AANonTerminal::PrecedenceDefinition, seq![tm(AATerminal::NonAssoc), nt(AANonTerminal::TagList)]),
        36 => (AANonTerminal::TagList, seq![nt(AANonTerminal::Tag)]),
        37 => (AANonTerminal::TagList, seq![nt(AANonTerminal::TagList), nt(AANonTerminal::Tag)]),
        38 => (AANonTerminal::Tag, seq![tm(AATerminal::Literal)]),
        39 => (AANonTerminal::Tag, seq![tm(AATerminal::Ident)]),
        40 => (AANonTerminal::ProductionRules, seq![nt(AANonTerminal::OptionalInjection), nt(AANonTerminal::ProductionGroup), nt(AANonTerminal::OptionalInjection)]),
        41 => (AANonTerminal::ProductionRules, seq![nt(AANonTerminal::ProductionRules), nt(AANonTerminal::ProductionGroup), nt(AANonTerminal::OptionalInjection)]),
        42 => (AANonTerminal::ProductionGroup, seq![nt(AANonTerminal::ProductionGroupHead), nt(AANonTerminal::ProductionTailList), tm(AATerminal::Dot)]),
        43 => (AANonTerminal::ProductionGroupHead, seq![tm(AATerminal::Ident), tm(AATerminal::Colon)]),
        44 => (AANonTerminal::ProductionTailList, seq![nt(AANonTerminal::ProductionTail)]),
        45 => (AANonTerminal::ProductionTailList, seq![nt(AANonTerminal::ProductionTailList), tm(AATerminal::VerticalBar), nt(AANonTerminal::ProductionTail)]),
        46 => (AANonTerminal::ProductionTail, seq![]),
        47 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::Action)]),
        48 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::Predicate), nt(AANonTerminal::Action)]),
        49 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::Predicate)]),
        50 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Predicate), nt(AANonTerminal::TaggedPrecedence), nt(AANonTerminal::Action)]),
        51 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Predicate), nt(AANonTerminal::TaggedPrecedence)]),
        52 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Predicate), nt(AANonTerminal::Action)]),
        53 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Predicate)]),
        54 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::TaggedPrecedence), nt(AANonTerminal::Action)]),
        55 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::TaggedPrecedence)]),
        56 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Action)]),
        57 => (AANonTerminal::ProductionTail, seq![nt(AANonTerminal::SymbolList)]),
        58 => (AANonTerminal::Action, seq![tm(AATerminal::ActionCode)]),
        59 => (AANonTerminal::Predicate, seq![tm(AATerminal::PredicateExpr)]),
        60 => (AANonTerminal::TaggedPrecedence, seq![tm(AATerminal::Precedence), tm(AATerminal::Ident)]),
        61 => (AANonTerminal::TaggedPrecedence, seq![tm(AATerminal::Precedence), tm(AATerminal::Literal)]),
        62 => (AANonTerminal::SymbolList, seq![nt(AANonTerminal::Symbol)]),
        63 => (AANonTerminal::SymbolList, seq![nt(AANonTerminal::SymbolList), nt(AANonTerminal::Symbol)]),
        64 => (AANonTerminal::Symbol, seq![tm(AATerminal::Ident)]),
        65 => (AANonTerminal::Symbol, seq![tm(AATerminal::Literal)]),
        66 => (AANonTerminal::Symbol, seq![tm(AATerminal::Error)]),
        _ => arbitrary(),
    }
}
@end
@endif
@raw
// the tables' productions are those of the language
pub proof fn lemma_c17_grammar(p: u32)
    requires 0 < p <= last_rule()
    ensures gh_lhs(p) == gr(p).0, gh_len(p) == gr(p).1.len(), forall|i: int| 0 <= i < gh_len(p) ==> #[trigger] gh_sym(p, i) == gr(p).1[i]
{}
@end
