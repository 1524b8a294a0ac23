# The machine that the run times (unit driver) implement, over any tables; the includer supplies
# Sy (symbols), Er (errors), A, P, N, Token, TsV and the tables act, prod, goto_, sem, viable, err_goto, look_ahead, rep
@raw
// ================================================================ the LR machine
pub struct Cfg {
    pub p: P,
    pub states: Seq<(Sy, u32)>,
    pub attrs: Seq<A>,
    pub last: Option<u32>,
    pub toks: TsV,
    pub result: Result<(), Er>,
    pub done: bool,
}
pub open spec fn top(s: Seq<(Sy, u32)>) -> u32 { s.last().1 }
pub open spec fn usable(states: Seq<(Sy, u32)>, last: Option<u32>, ok: OrderedSet<u32>, sub: int) -> bool {
    let c = states[states.len() - sub].1;
    last != Some(c) && ok.has(c)
}
// distance (from the top, counted from 1) of the nearest usable state at or beyond sub
pub open spec fn nearest(states: Seq<(Sy, u32)>, last: Option<u32>, ok: OrderedSet<u32>, sub: int) -> Option<int>
    decreases states.len() - sub + 1
{
    if sub > states.len() || sub < 1 { None }
    else if usable(states, last, ok, sub) { Some(sub) }
    else { nearest(states, last, ok, sub + 1) }
}
// the first token for which there is a usable state
pub open spec fn seek(states: Seq<(Sy, u32)>, last: Option<u32>, v: TsV) -> Option<(TsV, int)>
    decreases ts_len(v) via seek_dec
{
    if ts_empty(v) { None }
    else {
        match ts_front(v) {
            Ok(t) => match nearest(states, last, viable(t.tag), 1) {
                Some(k) => Some((v, k)),
                None => seek(states, last, ts_adv(v)),
            },
            Err(_) => seek(states, last, ts_adv(v)),
        }
    }
}
#[via_fn]
proof fn seek_dec(states: Seq<(Sy, u32)>, last: Option<u32>, v: TsV) {
    if !ts_empty(v) { axiom_ts_progress(v); }
}
// the error that is met in a configuration
pub open spec fn met(c: Cfg) -> Option<Er> {
    match ts_front(c.toks) {
        Err(e) => Some(Er::LexicalError(e, look_ahead(top(c.states)))),
        Ok(t) => match act(c.p, top(c.states), c.attrs, t) {
            Action::SyntaxError => Some(Er::SyntaxError(t, look_ahead(top(c.states)))),
            _ => None,
        },
    }
}
pub open spec fn recover(c: Cfg, e: Er) -> Cfg {
    let c1 = Cfg { p: rep(c.p, e), result: Err(e), ..c };
    match seek(c.states, c.last, c.toks) {
        None => Cfg { done: true, ..c1 },
        Some((v, k)) => {
            let below = c.states.take(c.states.len() - k + 1);
            Cfg {
                states: below.push((Sy::Error, err_goto(top(below)))),
                attrs: c.attrs.take(c.attrs.len() - k + 1).push(a_err(e)),
                last: Some(top(below)),
                toks: v,
                ..c1
            }
        },
    }
}
pub open spec fn inj_all(v: TsV, s: Seq<(Str, Str)>) -> TsV
    decreases s.len()
{
    if s.len() == 0 { v } else { ts_inj(inj_all(v, s.drop_last()), s.last().0@, s.last().1@) }
}
pub open spec fn step(c: Cfg) -> Cfg {
    if c.done { c } else {
        match met(c) {
            Some(e) => recover(c, e),
            None => {
                let t = ts_front(c.toks)->Ok_0;
                match act(c.p, top(c.states), c.attrs, t) {
                    Action::Accept => Cfg { done: true, ..c },
                    Action::Shift(s) => Cfg { states: c.states.push((Sy::Terminal(t.tag), s)), attrs: c.attrs.push(a_tok(t)), last: None, toks: ts_adv(c.toks), ..c },
                    Action::Reduce(pid) => {
                        let (lhs, n) = prod(pid);
                        let below = c.states.take(c.states.len() - n);
                        let (p2, a, inj) = sem(c.p, pid, c.attrs.skip(c.attrs.len() - n));
                        Cfg { p: p2, states: below.push((Sy::NonTerminal(lhs), goto_(lhs, top(below)))), attrs: c.attrs.take(c.attrs.len() - n).push(a), toks: inj_all(c.toks, inj), ..c }
                    },
                    Action::SyntaxError => c,
                }
            },
        }
    }
}
pub open spec fn steps(c: Cfg, n: nat) -> Cfg
    decreases n
{
    if n == 0 { c } else { step(steps(c, (n - 1) as nat)) }
}
pub open spec fn start(p: P, text: Seq<u8>, label: Seq<u8>) -> Cfg {
    Cfg { p, states: seq![(Sy::Start, 0u32)], attrs: Seq::empty(), last: None, toks: ts_new(la_of(p), text, label), result: Ok(()), done: false }
}
// the tables never reduce by more than there is on the stack
pub open spec fn reduce_ok(c: Cfg) -> bool {
    match ts_front(c.toks) {
        Ok(t) => match act(c.p, top(c.states), c.attrs, t) {
            Action::Reduce(pid) => !c.done ==> prod(pid).1 <= c.attrs.len(),
            _ => true,
        },
        Err(_) => true,
    }
}
pub open spec fn tables_ok(c0: Cfg) -> bool { forall|n: nat| reduce_ok(#[trigger] steps(c0, n)) }
// ================================================================ what the machine guarantees
pub proof fn lemma_nearest(states: Seq<(Sy, u32)>, last: Option<u32>, ok: OrderedSet<u32>, sub: int)
    requires 1 <= sub
    ensures match nearest(states, last, ok, sub) {
        Some(k) => sub <= k <= states.len() && usable(states, last, ok, k) && (forall|j: int| sub <= j < k ==> !usable(states, last, ok, j)),
        None => forall|j: int| sub <= j <= states.len() ==> !usable(states, last, ok, j),
    }
    decreases states.len() - sub + 1
{
    if sub <= states.len() && !usable(states, last, ok, sub) {
        lemma_nearest(states, last, ok, sub + 1);
    }
}
@end
