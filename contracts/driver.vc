# Contracts for the parser runtimes (lalr1 and alalr1): ${DIR}
@source ${DIR}/src/lib.rs lib
@strip T N A F
@map lexan::Error=LexErr
@mutclosure do_semantic_action
@closureparam ParseStack::distance_to_viable_state viable_error_recovery_states P::viable_error_recovery_states
@opts intoiter
@include prelude.vc
@raw
broadcast use {axiom_str};

// the types and functions that a generated parser supplies: any of them
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct T { pub id: u64 }
#[verifier::external_body]
pub struct N { x: u8 }
#[verifier::external_body]
pub struct A { x: u8 }
#[verifier::external_body]
pub struct P { x: u8 }

// ---------------------------------------------------------------- lexan, as specified (and proved) in unit lexan
pub struct Token { pub tag: T, pub lexeme: Str, pub location: Location }
#[verifier::external_body]
pub struct Location { x: u8 }
#[verifier::external_body]
pub struct LexErr { x: u8 }
impl Token {
    pub fn tag(&self) -> (r: &T) ensures *r == self.tag { &self.tag }
}
#[verifier::external_body]
pub struct TsV { x: u8 }
#[verifier::external_body]
pub struct TokenStream { x: u8 }
#[verifier::external_body]
pub struct LexicalAnalyzer { x: u8 }
pub uninterp spec fn ts_front(v: TsV) -> Result<Token, LexErr>;
pub uninterp spec fn ts_empty(v: TsV) -> bool;
pub uninterp spec fn ts_adv(v: TsV) -> TsV;
pub uninterp spec fn ts_inj(v: TsV, text: Seq<u8>, label: Seq<u8>) -> TsV;
pub uninterp spec fn ts_new(la: LexicalAnalyzer, text: Seq<u8>, label: Seq<u8>) -> TsV;
// number of tokens and errors still to come (finite: C04, C06)
pub uninterp spec fn ts_len(v: TsV) -> nat;
#[verifier::external_body]
pub proof fn axiom_ts_progress(v: TsV)
    requires !ts_empty(v)
    ensures ts_len(ts_adv(v)) < ts_len(v)
{ unimplemented!() }
impl TokenStream {
    pub uninterp spec fn view(&self) -> TsV;
    #[verifier::external_body]
    pub fn front(&self) -> (r: Result<Token, LexErr>) ensures r == ts_front(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == ts_empty(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn advance(&mut self) ensures final(self)@ == ts_adv(old(self)@) { unimplemented!() }
    #[verifier::external_body]
    pub fn inject(&mut self, text: &Str, label: &Str) ensures final(self)@ == ts_inj(old(self)@, text@, label@) { unimplemented!() }
}
impl LexicalAnalyzer {
    #[verifier::external_body]
    pub fn token_stream(&self, text: &Str, label: &Str) -> (r: TokenStream) ensures r@ == ts_new(*self, text@, label@) { unimplemented!() }
}

// ---------------------------------------------------------------- ordered sets (proved in unit data)
#[verifier::external_body]
#[verifier::reject_recursive_types(X)]
pub struct OrderedSet<X> { x: Vec<X> }
impl<X> OrderedSet<X> {
    pub uninterp spec fn has(&self, x: X) -> bool;
    #[verifier::external_body]
    pub fn contains(&self, x: &X) -> (r: bool) ensures r == self.has(*x) { unimplemented!() }
}
@end
@type Error
@type Symbol
@type Action
@type ParseStack
@raw
// no vector of states has usize::MAX elements
#[verifier::external_body]
pub proof fn axiom_vec_len<X>(v: &Vec<X>)
    ensures v@.len() < usize::MAX
{ unimplemented!() }

pub uninterp spec fn a_tok(t: Token) -> A;
pub uninterp spec fn a_err(e: Error) -> A;
pub trait IntoA { spec fn to_a(&self) -> A; }
impl IntoA for Token { open spec fn to_a(&self) -> A { a_tok(*self) } }
impl IntoA for Error { open spec fn to_a(&self) -> A { a_err(*self) } }
impl A {
    #[verifier::external_body]
    pub fn from<X: IntoA>(x: X) -> (r: A) ensures r == x.to_a() { unimplemented!() }
}
// the tables and the user's code
pub uninterp spec fn la_of(p: P) -> LexicalAnalyzer;
pub uninterp spec fn act(p: P, state: u32, attrs: Seq<A>, tok: Token) -> Action;
pub uninterp spec fn prod(pid: u32) -> (N, usize);
pub uninterp spec fn goto_(lhs: N, state: u32) -> u32;
pub uninterp spec fn sem(p: P, pid: u32, attrs: Seq<A>) -> (P, A, Seq<(Str, Str)>);
pub uninterp spec fn viable(tag: T) -> OrderedSet<u32>;
pub uninterp spec fn err_goto(state: u32) -> u32;
pub uninterp spec fn look_ahead(state: u32) -> OrderedSet<T>;
pub uninterp spec fn rep(p: P, e: Error) -> P;
impl P {
    #[verifier::external_body]
    pub fn lexical_analyzer(&self) -> (r: &LexicalAnalyzer) ensures *r == la_of(*self) { unimplemented!() }
@end
@if AUG=0
@raw
    // the plain runtime's tables do not see the attributes
    #[verifier::external_body]
    pub fn next_action(&self, state: u32, tok: &Token) -> (r: Action) ensures forall|attrs: Seq<A>| r == #[trigger] act(*self, state, attrs, *tok) { unimplemented!() }
@end
@endif
@if AUG=1
@raw
    #[verifier::external_body]
    pub fn next_action(&self, state: u32, stack: &ParseStack, tok: &Token) -> (r: Action) ensures r == act(*self, state, stack.attributes@, *tok) { unimplemented!() }
@end
@endif
@raw
    #[verifier::external_body]
    pub fn production_data(pid: u32) -> (r: (N, usize)) ensures r == prod(pid) { unimplemented!() }
    #[verifier::external_body]
    pub fn goto_state(lhs: &N, state: u32) -> (r: u32) ensures r == goto_(*lhs, state) { unimplemented!() }
    // the calls of the closure are returned (see vlift: mutclosure)
    #[verifier::external_body]
    pub fn do_semantic_action(&mut self, pid: u32, attributes: Vec<A>) -> (r: (A, Vec<(Str, Str)>))
        ensures (*final(self), r.0, r.1@) == sem(*old(self), pid, attributes@) { unimplemented!() }
    #[verifier::external_body]
    pub fn viable_error_recovery_states(tag: &T) -> (r: OrderedSet<u32>) ensures r == viable(*tag) { unimplemented!() }
    #[verifier::external_body]
    pub fn error_goto_state(state: u32) -> (r: u32) ensures r == err_goto(state) { unimplemented!() }
    #[verifier::external_body]
    pub fn look_ahead_set(state: u32) -> (r: OrderedSet<T>) ensures r == look_ahead(state) { unimplemented!() }
    #[verifier::external_body]
    pub fn report_error(&mut self, e: &Error) ensures *final(self) == rep(*old(self), *e) { unimplemented!() }
}

pub type Sy = Symbol;
pub type Er = Error;
@end
@include machine.vc
@raw
// the errors met on the way, in order
pub open spec fn errs(c: Cfg, n: nat) -> Seq<Error>
    decreases n
{
    if n == 0 { Seq::empty() } else {
        let d = steps(c, (n - 1) as nat);
        let before = errs(c, (n - 1) as nat);
        match met(d) { Some(e) => if d.done { before } else { before.push(e) }, None => before }
    }
}

// ================================================================ what the machine guarantees
pub open spec fn adv_n(v: TsV, n: nat) -> TsV
    decreases n
{ if n == 0 { v } else { adv_n(ts_adv(v), (n - 1) as nat) } }
pub open spec fn none_usable(states: Seq<(Symbol, u32)>, last: Option<u32>, v: TsV) -> bool {
    match ts_front(v) { Ok(t) => forall|j: int| 1 <= j <= states.len() ==> !usable(states, last, viable(t.tag), j), Err(_) => true }
}
// C09: the first token for which some state is usable, and the usable state nearest the top; nothing else is
// popped or discarded, and if there is no such token then the input runs out
pub proof fn lemma_c09_seek(states: Seq<(Symbol, u32)>, last: Option<u32>, v: TsV) -> (n: nat)
    ensures match seek(states, last, v) {
        Some((w, k)) => w == adv_n(v, n) && !ts_empty(w) && ts_front(w) is Ok && 1 <= k <= states.len()
            && usable(states, last, viable(ts_front(w)->Ok_0.tag), k)
            && (forall|j: int| 1 <= j < k ==> !usable(states, last, viable(ts_front(w)->Ok_0.tag), j))
            && (forall|m: nat| m < n ==> none_usable(states, last, #[trigger] adv_n(v, m)) && !ts_empty(adv_n(v, m))),
        None => ts_empty(adv_n(v, n)) && (forall|m: nat| m < n ==> none_usable(states, last, #[trigger] adv_n(v, m))),
    }
    decreases ts_len(v), 0nat
{
    if ts_empty(v) {
        0
    } else {
        axiom_ts_progress(v);
        match ts_front(v) {
            Ok(t) => {
                lemma_nearest(states, last, viable(t.tag), 1);
                match nearest(states, last, viable(t.tag), 1) {
                    Some(k) => 0,
                    None => lemma_c09_next(states, last, v),
                }
            },
            Err(_) => lemma_c09_next(states, last, v),
        }
    }
}
pub proof fn lemma_c09_next(states: Seq<(Symbol, u32)>, last: Option<u32>, v: TsV) -> (n: nat)
    requires !ts_empty(v), none_usable(states, last, v), seek(states, last, v) == seek(states, last, ts_adv(v)), ts_len(ts_adv(v)) < ts_len(v)
    ensures match seek(states, last, v) {
        Some((w, k)) => w == adv_n(v, n) && !ts_empty(w) && ts_front(w) is Ok && 1 <= k <= states.len()
            && usable(states, last, viable(ts_front(w)->Ok_0.tag), k)
            && (forall|j: int| 1 <= j < k ==> !usable(states, last, viable(ts_front(w)->Ok_0.tag), j))
            && (forall|m: nat| m < n ==> none_usable(states, last, #[trigger] adv_n(v, m)) && !ts_empty(adv_n(v, m))),
        None => ts_empty(adv_n(v, n)) && (forall|m: nat| m < n ==> none_usable(states, last, #[trigger] adv_n(v, m))),
    }
    decreases ts_len(ts_adv(v)), 1nat
{
    let q = lemma_c09_seek(states, last, ts_adv(v));
    assert forall|m: nat| m < q + 1 implies none_usable(states, last, #[trigger] adv_n(v, m)) && (seek(states, last, v) is Some ==> !ts_empty(adv_n(v, m))) by {
        if m > 0 { assert(adv_n(v, m) == adv_n(ts_adv(v), (m - 1) as nat)); }
    }
    assert(adv_n(v, (q + 1) as nat) == adv_n(ts_adv(v), q));
    (q + 1) as nat
}
// C07: one attribute for every state above the initial one, at every step
pub proof fn lemma_c07_stack(c0: Cfg, n: nat)
    requires tables_ok(c0), c0.states.len() == c0.attrs.len() + 1
    ensures steps(c0, n).states.len() == steps(c0, n).attrs.len() + 1
    decreases n
{
    if n > 0 {
        let d = steps(c0, (n - 1) as nat);
        lemma_c07_stack(c0, (n - 1) as nat);
        assert(reduce_ok(d));
        if !d.done && met(d) is Some {
            let m = lemma_c09_seek(d.states, d.last, d.toks);
        }
    }
}
// C08: the result is the last error met, Ok if none was; and the parse fails only after an error
pub proof fn lemma_c08_result(c0: Cfg, n: nat)
    requires c0.result == Ok::<(), Error>(()), !c0.done
    ensures
        steps(c0, n).result == (if errs(c0, n).len() == 0 { Ok::<(), Error>(()) } else { Err(errs(c0, n).last()) }),
    decreases n
{
    if n > 0 {
        let m = (n - 1) as nat;
        lemma_c08_result(c0, m);
        let d = steps(c0, m);
        if !d.done {
            match met(d) {
                Some(e) => {
                    assert(steps(c0, n) == recover(d, e));
                    assert(errs(c0, n) == errs(c0, m).push(e));
                    assert(errs(c0, n).last() == e);
                    assert(steps(c0, n).result == Err::<(), Error>(e));
                },
                None => {
                    assert(steps(c0, n).result == d.result);
                    assert(errs(c0, n) == errs(c0, m));
                },
            }
        } else {
            assert(steps(c0, n) == d);
            assert(errs(c0, n) == errs(c0, m));
        }
    }
}
// C08: what the user's object has been told is exactly the errors met and the reductions made, in order
pub open spec fn told(c: Cfg, n: nat) -> P
    decreases n
{
    if n == 0 { c.p } else {
        let d = steps(c, (n - 1) as nat);
        let p = told(c, (n - 1) as nat);
        if d.done { p } else {
            match met(d) {
                Some(e) => rep(p, e),
                None => match act(d.p, top(d.states), d.attrs, ts_front(d.toks)->Ok_0) {
                    Action::Reduce(pid) => sem(p, pid, d.attrs.skip(d.attrs.len() - prod(pid).1)).0,
                    _ => p,
                },
            }
        }
    }
}
pub proof fn lemma_c08_told(c0: Cfg, n: nat)
    ensures steps(c0, n).p == told(c0, n)
    decreases n
{
    if n > 0 { lemma_c08_told(c0, (n - 1) as nat); }
}
// C07: injected text comes before the current token, the last injection first
pub proof fn lemma_inj_push(v: TsV, s: Seq<(Str, Str)>, x: (Str, Str))
    ensures inj_all(v, s.push(x)) == ts_inj(inj_all(v, s), x.0@, x.1@)
{
    assert(s.push(x).drop_last() =~= s);
}
pub open spec fn same(st: ParseStack, tk: TokenStream, c: Cfg) -> bool {
    st.states@ == c.states && st.attributes@ == c.attrs && st.last_error_state == c.last && tk@ == c.toks
}
@end

@fn ParseStack::new
%ensures
    r.states@ == seq![(Symbol::Start, 0u32)], r.attributes@ == Seq::<A>::empty(), r.last_error_state.is_none(),

@fn ParseStack::current_state
%requires
    self.states@.len() > 0
%ensures
    r == top(self.states@)

@fn ParseStack::at_len_minus_n
%requires
    1 <= n <= self.attributes@.len()
%ensures
    *r == self.attributes@[self.attributes@.len() - n]

@fn ParseStack::pop_n
%requires
    n <= old(self).attributes@.len(), old(self).states@.len() == old(self).attributes@.len() + 1,
%ensures
    final(self).states@ == old(self).states@.take(old(self).states@.len() - n),
    final(self).attributes@ == old(self).attributes@.take(old(self).attributes@.len() - n),
    final(self).last_error_state == old(self).last_error_state,
    r@ == old(self).attributes@.skip(old(self).attributes@.len() - n),

@fn ParseStack::push_error
%ensures
    final(self).states@ == old(self).states@.push((Symbol::Error, state)),
    final(self).attributes@ == old(self).attributes@.push(a_err(error)),
    final(self).last_error_state == old(self).last_error_state,

@fn ParseStack::push_terminal
%ensures
    final(self).states@ == old(self).states@.push((Symbol::Terminal(token.tag), new_state)),
    final(self).attributes@ == old(self).attributes@.push(a_tok(token)),
    final(self).last_error_state.is_none(),

@fn ParseStack::push_non_terminal
%ensures
    final(self).states@ == old(self).states@.push((Symbol::NonTerminal(non_terminal), new_state)),
    final(self).attributes@ == old(self).attributes@.push(attribute),
    final(self).last_error_state == old(self).last_error_state,

@fn ParseStack::is_last_error_state
%ensures
    r == (self.last_error_state == Some(state))

@fn ParseStack::distance_to_viable_state
%opt drop:viable_error_recovery_states
%ensures
    match seek(old(self).states@, old(self).last_error_state, old(tokens)@) {
        None => r.is_none() && *final(self) == *old(self),
        Some((v, k)) => r == Some((k - 1) as usize) && 1 <= k <= old(self).states@.len() && final(tokens)@ == v
            && final(self).states@ == old(self).states@ && final(self).attributes@ == old(self).attributes@
            && final(self).last_error_state == Some(old(self).states@[old(self).states@.len() - k].1),
    }
%at start:
    let ghost s0 = *self;
    let ghost v0 = tokens@;
    proof { axiom_vec_len(&self.states); }
%loop 1 invariant
    *self == s0, s0 == *old(self), v0 == old(tokens)@, seek(s0.states@, s0.last_error_state, tokens@) == seek(s0.states@, s0.last_error_state, v0), s0.states@.len() < usize::MAX,
%loop 1 ensures
    ts_empty(tokens@)
%loop 1 decreases
    ts_len(tokens@)
%at loop 1 start:
    proof { axiom_ts_progress(tokens@); }
%loop 2 invariant
    *self == s0, s0 == *old(self), v0 == old(tokens)@, s0.states@.len() < usize::MAX, __hi2 == s0.states@.len(), 1 <= __i2 <= __hi2 + 1, !ts_empty(tokens@), ts_front(tokens@) == Ok::<Token, LexErr>(token),
    viable_states == viable(token.tag),
    nearest(s0.states@, s0.last_error_state, viable(token.tag), __i2 as int) == nearest(s0.states@, s0.last_error_state, viable(token.tag), 1),
    seek(s0.states@, s0.last_error_state, tokens@) == seek(s0.states@, s0.last_error_state, v0),
%loop 2 decreases
    __hi2 + 1 - __i2
%at ret 1:
    proof {
        assert(usable(s0.states@, s0.last_error_state, viable(token.tag), sub as int));
        assert(nearest(s0.states@, s0.last_error_state, viable(token.tag), 1) == Some(sub as int));
        assert(seek(s0.states@, s0.last_error_state, tokens@) == Some((tokens@, sub as int)));
        assert(__ret == Some((sub - 1) as usize));
    }

@fn Parser::recover_from_error =P::recover_from_error
%requires
    old(parse_stack).states@.len() == old(parse_stack).attributes@.len() + 1,
%ensures
    match seek(old(parse_stack).states@, old(parse_stack).last_error_state, old(tokens)@) {
        None => !r,
        Some((v, k)) => {
            let below = old(parse_stack).states@.take(old(parse_stack).states@.len() - k + 1);
            r && 1 <= k <= old(parse_stack).states@.len()
            && final(parse_stack).states@ == below.push((Symbol::Error, err_goto(top(below))))
            && final(parse_stack).attributes@ == old(parse_stack).attributes@.take(old(parse_stack).attributes@.len() - k + 1).push(a_err(error))
            && final(parse_stack).last_error_state == Some(top(below)) && final(tokens)@ == v
        },
    }
%at start:
    let ghost st0 = parse_stack.states@;
    let ghost at0 = parse_stack.attributes@;
    proof { axiom_vec_len(&parse_stack.states); }
%at call push_error:
    proof {
        let k = distance + 1;
        let below = st0.take(st0.len() - k + 1);
        assert(parse_stack.states@ =~= below.push((Symbol::Error, err_goto(top(below)))));
        assert(parse_stack.attributes@ =~= at0.take(at0.len() - k + 1).push(a_err(error)));
        assert(top(below) == st0[st0.len() - k].1);
    }

@fn Parser::parse_text =P::parse_text
%attr #[verifier::exec_allows_no_decreases_clause]
%requires
    tables_ok(start(*old(self), text@, label@)),
%ensures
    exists|n: nat| (#[trigger] steps(start(*old(self), text@, label@), n)).done && r == steps(start(*old(self), text@, label@), n).result
        && *final(self) == steps(start(*old(self), text@, label@), n).p,
%at start:
    let ghost c0 = start(*self, text@, label@);
    let ghost mut n: nat = 0;
%loop 1 invariant
    tables_ok(c0), c0 == start(*old(self), text@, label@), same(parse_stack, tokens, steps(c0, n)), !steps(c0, n).done, result == steps(c0, n).result, *self == steps(c0, n).p,
%at loop 1 start:
    let ghost c = steps(c0, n);
    proof {
        lemma_c07_stack(c0, n);
        assert(reduce_ok(c));
        assert(steps(c0, n + 1) == step(c));
        n = n + 1;
    }
%loop 2 invariant
    __i2 <= __it2@.len(), tokens@ == inj_all(tk0, __it2@.take(__i2 as int)),
%loop 2 decreases
    __it2@.len() - __i2
%at loop 2 before:
    let ghost tk0 = tokens@;
    proof { assert(__it2@.take(0) =~= Seq::<(Str, Str)>::empty()); }
%at loop 2 end:
    proof {
        assert(__it2@.take(__i2 as int) =~= __it2@.take(__i2 - 1).push(__it2@[__i2 - 1]));
        lemma_inj_push(tk0, __it2@.take(__i2 - 1), __it2@[__i2 - 1]);
    }
%at loop 2 after:
    proof { assert(__it2@.take(__it2@.len() as int) =~= __it2@); }
