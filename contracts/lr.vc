# The LALR(1) automaton of a grammar, and the lemmas for its construction (C11)
@raw
// ------------------------------------------------------------------ viable prefixes and valid items
// i is a valid LR(0) item for the viable prefix p, shown in n steps
pub open spec fn v0(g: Seq<Production>, p: Seq<Symbol>, i: GrammarItemKey, n: nat) -> bool
    decreases n
{
    n > 0 && (
        (p.len() == 0 && i == item0(g[0]))
        || (p.len() > 0 && i.dot > 0 && i.before().next() == Some(p.last()) && v0(g, p.drop_last(), i.before(), (n - 1) as nat))
        || (i.dot == 0 && g.contains(i.production) && exists|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, p, j, (n - 1) as nat)))
}
// [i, t] is a valid LR(1) item for the viable prefix p, shown in n steps
pub open spec fn v1(g: Seq<Production>, p: Seq<Symbol>, i: GrammarItemKey, t: Token, n: nat) -> bool
    decreases n
{
    n > 0 && (
        (p.len() == 0 && i == item0(g[0]) && t is End)
        || (p.len() > 0 && i.dot > 0 && i.before().next() == Some(p.last()) && v1(g, p.drop_last(), i.before(), t, (n - 1) as nat))
        || (i.dot == 0 && g.contains(i.production) && exists|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && v1(g, p, j, u, (n - 1) as nat)
            && #[trigger] first_str(j.tail(), u).contains(t)))
}
pub open spec fn in_v0(g: Seq<Production>, p: Seq<Symbol>, i: GrammarItemKey) -> bool { exists|n: nat| v0(g, p, i, n) }
pub open spec fn in_v1(g: Seq<Production>, p: Seq<Symbol>, i: GrammarItemKey, t: Token) -> bool { exists|n: nat| v1(g, p, i, t, n) }
// the items of m are exactly the LR(0) items valid for p
pub open spec fn core(g: Seq<Production>, p: Seq<Symbol>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> in_v0(g, p, i)
}
pub open spec fn viable(g: Seq<Production>, p: Seq<Symbol>) -> bool { exists|i: GrammarItemKey| in_v0(g, p, i) }
// t is a look ahead of i in some canonical LR(1) state whose core is the set of the items of m
pub open spec fn la(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token) -> bool {
    exists|p: Seq<Symbol>| #[trigger] core(g, p, m) && in_v1(g, p, i, t)
}
pub open spec fn la_sound(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey, t: Token| m.dom().contains(i) && #[trigger] m[i]@.contains(t) ==> la(g, m, i, t)
}
pub open spec fn la_exact(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey, t: Token| m.dom().contains(i) ==> (#[trigger] m[i]@.contains(t) <==> la(g, m, i, t))
}
pub proof fn lemma_v0_start(g: Seq<Production>)
    ensures in_v0(g, Seq::<Symbol>::empty(), item0(g[0]))
{
    assert(v0(g, Seq::<Symbol>::empty(), item0(g[0]), 1));
}
pub proof fn lemma_v1_start(g: Seq<Production>)
    ensures in_v1(g, Seq::<Symbol>::empty(), item0(g[0]), Token::End)
{
    assert(v1(g, Seq::<Symbol>::empty(), item0(g[0]), Token::End, 1));
}
pub proof fn lemma_v0_goto(g: Seq<Production>, p: Seq<Symbol>, x: Symbol, i: GrammarItemKey)
    requires i.dot > 0, i.before().next() == Some(x), in_v0(g, p, i.before())
    ensures in_v0(g, p.push(x), i)
{
    let n = choose|n: nat| v0(g, p, i.before(), n);
    assert(p.push(x).drop_last() =~= p);
    assert(v0(g, p.push(x).drop_last(), i.before(), (n + 1 - 1) as nat));
    assert(v0(g, p.push(x), i, n + 1));
}
pub proof fn lemma_v1_goto(g: Seq<Production>, p: Seq<Symbol>, x: Symbol, i: GrammarItemKey, t: Token)
    requires i.dot > 0, i.before().next() == Some(x), in_v1(g, p, i.before(), t)
    ensures in_v1(g, p.push(x), i, t)
{
    let n = choose|n: nat| v1(g, p, i.before(), t, n);
    assert(p.push(x).drop_last() =~= p);
    assert(v1(g, p.push(x).drop_last(), i.before(), t, (n + 1 - 1) as nat));
    assert(v1(g, p.push(x), i, t, n + 1));
}
pub proof fn lemma_v0_close(g: Seq<Production>, p: Seq<Symbol>, j: GrammarItemKey, i: GrammarItemKey)
    requires in_v0(g, p, j), i.dot == 0, g.contains(i.production), next_is(j, i.production.lhs())
    ensures in_v0(g, p, i)
{
    let n = choose|n: nat| v0(g, p, j, n);
    assert(v0(g, p, j, (n + 1 - 1) as nat));
    assert(v0(g, p, i, n + 1));
}
pub proof fn lemma_v1_close(g: Seq<Production>, p: Seq<Symbol>, j: GrammarItemKey, u: Token, i: GrammarItemKey, t: Token)
    requires in_v1(g, p, j, u), i.dot == 0, g.contains(i.production), next_is(j, i.production.lhs()), first_str(j.tail(), u).contains(t)
    ensures in_v1(g, p, i, t)
{
    let n = choose|n: nat| v1(g, p, j, u, n);
    assert(v1(g, p, j, u, (n + 1 - 1) as nat));
    assert(v1(g, p, i, t, n + 1));
}
pub proof fn lemma_v1_v0(g: Seq<Production>, p: Seq<Symbol>, i: GrammarItemKey, t: Token, n: nat)
    requires v1(g, p, i, t, n)
    ensures in_v0(g, p, i)
    decreases n
{
    if p.len() == 0 && i == item0(g[0]) {
        assert(p =~= Seq::<Symbol>::empty());
        lemma_v0_start(g);
    } else if p.len() > 0 && i.dot > 0 && i.before().next() == Some(p.last()) && v1(g, p.drop_last(), i.before(), t, (n - 1) as nat) {
        lemma_v1_v0(g, p.drop_last(), i.before(), t, (n - 1) as nat);
        lemma_v0_goto(g, p.drop_last(), p.last(), i);
        assert(p.drop_last().push(p.last()) =~= p);
    } else {
        let (j, u) = choose|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && v1(g, p, j, u, (n - 1) as nat) && #[trigger] first_str(j.tail(), u).contains(t);
        lemma_v1_v0(g, p, j, u, (n - 1) as nat);
        lemma_v0_close(g, p, j, i);
    }
}
// ------------------------------------------------------------------ the states for the viable prefixes
pub proof fn lemma_start_c0(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires forall|x: GrammarItemKey| #[trigger] k.dom().contains(x) <==> x == item0(g[0]), c0(g, k, i, n)
    ensures in_v0(g, Seq::<Symbol>::empty(), i)
    decreases n
{
    if k.dom().contains(i) {
        lemma_v0_start(g);
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && c0(g, k, j, (n - 1) as nat);
        lemma_start_c0(g, k, j, (n - 1) as nat);
        lemma_v0_close(g, Seq::<Symbol>::empty(), j, i);
    }
}
pub proof fn lemma_start_v0(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires forall|x: GrammarItemKey| #[trigger] k.dom().contains(x) <==> x == item0(g[0]), v0(g, Seq::<Symbol>::empty(), i, n)
    ensures in_c0(g, k, i)
    decreases n
{
    if i == item0(g[0]) {
        assert(c0(g, k, i, 1));
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, Seq::<Symbol>::empty(), j, (n - 1) as nat);
        lemma_start_v0(g, k, j, (n - 1) as nat);
        lemma_c0_step(g, k, j, i.production);
        assert(i == item0(i.production));
    }
}
pub proof fn lemma_start_c1(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token, n: nat)
    requires forall|x: GrammarItemKey| #[trigger] k.dom().contains(x) <==> x == item0(g[0]), k[item0(g[0])]@ == set![Token::End], c1(g, k, i, t, n)
    ensures in_v1(g, Seq::<Symbol>::empty(), i, t)
    decreases n
{
    if k.dom().contains(i) && k[i]@.contains(t) {
        lemma_v1_start(g);
    } else {
        let (j, u) = choose|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && c1(g, k, j, u, (n - 1) as nat) && #[trigger] first_str(j.tail(), u).contains(t);
        lemma_start_c1(g, k, j, u, (n - 1) as nat);
        lemma_v1_close(g, Seq::<Symbol>::empty(), j, u, i, t);
    }
}
pub proof fn lemma_start_state(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>)
    requires
        g_ok(g), forall|x: GrammarItemKey| #[trigger] k.dom().contains(x) <==> x == item0(g[0]), k[item0(g[0])]@ == set![Token::End],
        is_closure(g, k, m),
    ensures core(g, Seq::<Symbol>::empty(), m), la_sound(g, m), m.dom().contains(item0(g[0])), m[item0(g[0])]@.contains(Token::End)
{
    let e = Seq::<Symbol>::empty();
    assert forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> in_v0(g, e, i) by {
        if in_c0(g, k, i) { let n = choose|n: nat| c0(g, k, i, n); lemma_start_c0(g, k, i, n); }
        if in_v0(g, e, i) { let n = choose|n: nat| v0(g, e, i, n); lemma_start_v0(g, k, i, n); }
    }
    assert forall|i: GrammarItemKey, t: Token| m.dom().contains(i) && #[trigger] m[i]@.contains(t) implies la(g, m, i, t) by {
        let n = choose|n: nat| c1(g, k, i, t, n);
        lemma_start_c1(g, k, i, t, n);
        assert(core(g, e, m) && in_v1(g, e, i, t));
    }
    lemma_v0_start(g);
    assert(c1(g, k, item0(g[0]), Token::End, 1));
    assert(in_c1(g, k, item0(g[0]), Token::End));
}
pub proof fn lemma_goto_c0(g: Seq<Production>, p: Seq<Symbol>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires core(g, p, m), is_goto(m, x, k), c0(g, k, i, n)
    ensures in_v0(g, p.push(x), i)
    decreases n
{
    if k.dom().contains(i) {
        assert(m.dom().contains(i.before()));
        lemma_v0_goto(g, p, x, i);
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && c0(g, k, j, (n - 1) as nat);
        lemma_goto_c0(g, p, m, x, k, j, (n - 1) as nat);
        lemma_v0_close(g, p.push(x), j, i);
    }
}
pub proof fn lemma_goto_v0(g: Seq<Production>, p: Seq<Symbol>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires core(g, p, m), is_goto(m, x, k), v0(g, p.push(x), i, n)
    ensures in_c0(g, k, i)
    decreases n
{
    assert(p.push(x).drop_last() =~= p);
    if i.dot > 0 && i.before().next() == Some(x) && v0(g, p, i.before(), (n - 1) as nat) {
        assert(in_v0(g, p, i.before()));
        assert(m.dom().contains(i.before()));
        assert(k.dom().contains(i));
        assert(c0(g, k, i, 1));
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, p.push(x), j, (n - 1) as nat);
        lemma_goto_v0(g, p, m, x, k, j, (n - 1) as nat);
        lemma_c0_step(g, k, j, i.production);
        assert(i == item0(i.production));
    }
}
pub proof fn lemma_goto_core(g: Seq<Production>, p: Seq<Symbol>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>)
    requires core(g, p, m), is_goto(m, x, k), is_closure(g, k, r)
    ensures core(g, p.push(x), r)
{
    assert forall|i: GrammarItemKey| #[trigger] r.dom().contains(i) <==> in_v0(g, p.push(x), i) by {
        if in_c0(g, k, i) { let n = choose|n: nat| c0(g, k, i, n); lemma_goto_c0(g, p, m, x, k, i, n); }
        if in_v0(g, p.push(x), i) { let n = choose|n: nat| v0(g, p.push(x), i, n); lemma_goto_v0(g, p, m, x, k, i, n); }
    }
}
pub proof fn lemma_goto_c1(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, t: Token, n: nat) -> (p: Seq<Symbol>)
    requires la_sound(g, m), is_goto(m, x, k), c1(g, k, i, t, n)
    ensures core(g, p, m), in_v1(g, p.push(x), i, t)
    decreases n
{
    if k.dom().contains(i) && k[i]@.contains(t) {
        assert(m.dom().contains(i.before()));
        assert(m[i.before()]@.contains(t));
        assert(la(g, m, i.before(), t));
        let p = choose|p: Seq<Symbol>| #[trigger] core(g, p, m) && in_v1(g, p, i.before(), t);
        lemma_v1_goto(g, p, x, i, t);
        p
    } else {
        let (j, u) = choose|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && c1(g, k, j, u, (n - 1) as nat) && #[trigger] first_str(j.tail(), u).contains(t);
        let p = lemma_goto_c1(g, m, x, k, j, u, (n - 1) as nat);
        lemma_v1_close(g, p.push(x), j, u, i, t);
        p
    }
}
// the state reached from m by x
pub proof fn lemma_goto_state(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>)
    requires has_core(g, m), la_sound(g, m), is_goto(m, x, k), is_closure(g, k, r)
    ensures has_core(g, r), la_sound(g, r)
{
    let p = choose|p: Seq<Symbol>| core(g, p, m);
    lemma_goto_core(g, p, m, x, k, r);
    assert forall|i: GrammarItemKey, t: Token| r.dom().contains(i) && #[trigger] r[i]@.contains(t) implies la(g, r, i, t) by {
        assert(in_c1(g, k, i, t));
        let n = choose|n: nat| c1(g, k, i, t, n);
        let q = lemma_goto_c1(g, m, x, k, i, t, n);
        lemma_goto_core(g, q, m, x, k, r);
    }
}
pub open spec fn has_core(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>) -> bool { exists|p: Seq<Symbol>| core(g, p, m) }
pub open spec fn same_kernel(a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] i.kernel() ==> (a.dom().contains(i) <==> b.dom().contains(i))
}
pub open spec fn same_items(a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] a.dom().contains(i) <==> b.dom().contains(i)
}
pub proof fn lemma_kernel_in(g: Seq<Production>, p: Seq<Symbol>, a: Map<GrammarItemKey, TokenSet>, q: Seq<Symbol>, b: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires g_ok(g), core(g, p, a), core(g, q, b), same_kernel(a, b), v0(g, p, i, n)
    ensures b.dom().contains(i)
    decreases n
{
    assert(in_v0(g, p, i));
    assert(a.dom().contains(i));
    if !i.kernel() {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, p, j, (n - 1) as nat);
        lemma_kernel_in(g, p, a, q, b, j, (n - 1) as nat);
        lemma_v0_close(g, q, j, i);
    }
}
// the kernel items of a state determine its items
pub proof fn lemma_kernel(g: Seq<Production>, a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>)
    requires g_ok(g), has_core(g, a), has_core(g, b), same_kernel(a, b)
    ensures same_items(a, b)
{
    let p = choose|p: Seq<Symbol>| core(g, p, a);
    let q = choose|q: Seq<Symbol>| core(g, q, b);
    assert forall|i: GrammarItemKey| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] a.dom().contains(i) <==> b.dom().contains(i) by {
        if a.dom().contains(i) { let n = choose|n: nat| v0(g, p, i, n); lemma_kernel_in(g, p, a, q, b, i, n); }
        if b.dom().contains(i) { let n = choose|n: nat| v0(g, q, i, n); lemma_kernel_in(g, q, b, p, a, i, n); }
    }
}
// merging the look aheads of two states with the same items
pub proof fn lemma_merge(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, o: Map<GrammarItemKey, TokenSet>, m2: Map<GrammarItemKey, TokenSet>)
    requires same_items(m, o), has_core(g, m), la_sound(g, m), la_sound(g, o), closed(g, m), closed(g, o), keys_ok(g, m), merged(m, o, m2)
    ensures same_items(m, m2), has_core(g, m2), la_sound(g, m2), closed(g, m2), keys_ok(g, m2)
{
    let p = choose|p: Seq<Symbol>| core(g, p, m);
    assert(core(g, p, m2));
    assert forall|i: GrammarItemKey, t: Token| m2.dom().contains(i) && #[trigger] m2[i]@.contains(t) implies la(g, m2, i, t) by {
        assert(m.dom().contains(i) && o.dom().contains(i));
        if m[i]@.contains(t) {
            assert(la(g, m, i, t));
            let q = choose|q: Seq<Symbol>| #[trigger] core(g, q, m) && in_v1(g, q, i, t);
            assert(core(g, q, m2));
        } else {
            assert(o[i]@.contains(t));
            assert(la(g, o, i, t));
            let q = choose|q: Seq<Symbol>| #[trigger] core(g, q, o) && in_v1(g, q, i, t);
            assert(core(g, q, m2));
        }
    }
    assert forall|j: GrammarItemKey, q: Production| #[trigger] m2.dom().contains(j) && #[trigger] g.contains(q) && next_is(j, q.lhs()) implies fed(m2, j, m2[j]@, q) by {
        assert(m.dom().contains(j) && o.dom().contains(j));
        assert(fed(m, j, m[j]@, q) && fed(o, j, o[j]@, q));
        assert forall|u: Token, t: Token| #[trigger] m2[j]@.contains(u) && #[trigger] first_str(j.tail(), u).contains(t) implies m2[item0(q)]@.contains(t) by {
            if m[j]@.contains(u) { assert(m[item0(q)]@.contains(t)); } else { assert(o[j]@.contains(u)); assert(o[item0(q)]@.contains(t)); }
        }
    }
}
// the kernel of m2 is what the items of m become by x
pub open spec fn leads(m: Map<GrammarItemKey, TokenSet>, x: Symbol, m2: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|i: GrammarItemKey| i.kernel() ==> (#[trigger] m2.dom().contains(i) <==> i.dot > 0 && m.dom().contains(i.before()) && i.before().next() == Some(x))
}
pub proof fn lemma_leads(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>)
    requires g_ok(g), is_goto(m, x, k), is_closure(g, k, r), keys_ok(g, k)
    ensures leads(m, x, r), extends(k, r)
{
    assert forall|i: GrammarItemKey| i.kernel() implies (#[trigger] r.dom().contains(i) <==> i.dot > 0 && m.dom().contains(i.before()) && i.before().next() == Some(x)) by {
        if k.dom().contains(i) { assert(c0(g, k, i, 1)); }
        if in_c0(g, k, i) && !k.dom().contains(i) {
            let n = choose|n: nat| c0(g, k, i, n);
            let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && c0(g, k, j, (n - 1) as nat);
            // the start symbol is on no right hand side
            lemma_c0_keys(g, k, j, (n - 1) as nat);
            lemma_rhs_ok(g, j);
        }
    }
    assert forall|i: GrammarItemKey| #[trigger] k.dom().contains(i) implies r.dom().contains(i) && k[i]@.subset_of(r[i]@) by {
        assert(c0(g, k, i, 1));
        assert forall|t: Token| k[i]@.contains(t) implies #[trigger] r[i]@.contains(t) by { assert(c1(g, k, i, t, 1)); }
    }
}
pub proof fn lemma_c0_keys(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey, n: nat)
    requires keys_ok(g, k), c0(g, k, i, n)
    ensures key_ok(g, i)
{
}
pub proof fn lemma_closure_keys(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>)
    requires keys_ok(g, k), is_closure(g, k, r)
    ensures keys_ok(g, r)
{
    assert forall|i: GrammarItemKey| #[trigger] r.dom().contains(i) implies key_ok(g, i) by {
        let n = choose|n: nat| c0(g, k, i, n);
        lemma_c0_keys(g, k, i, n);
    }
}
pub proof fn lemma_closure_closed(g: Seq<Production>, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>)
    requires is_closure(g, k, r)
    ensures closed(g, r)
{
    assert forall|j: GrammarItemKey, p: Production| #[trigger] r.dom().contains(j) && #[trigger] g.contains(p) && next_is(j, p.lhs()) implies fed(r, j, r[j]@, p) by {
        lemma_c0_step(g, k, j, p);
        assert forall|u: Token, t: Token| #[trigger] r[j]@.contains(u) && #[trigger] first_str(j.tail(), u).contains(t) implies r[item0(p)]@.contains(t) by {
            lemma_c1_step(g, k, j, u, p, t);
        }
    }
}

// ------------------------------------------------------------------ the automaton under construction
pub open spec fn items(h: Cells, s: u32) -> Map<GrammarItemKey, TokenSet> { h.items[s]@ }
pub open spec fn trans(h: Cells, s: u32, x: Symbol) -> Option<ParserState> {
    match x {
        Symbol::Terminal(t) => if h.shifts[s]@.dom().contains(t) { Some(h.shifts[s]@[t]) } else { None },
        Symbol::NonTerminal(n) => if h.gotos[s]@.dom().contains(n) { Some(h.gotos[s]@[n]) } else { None },
    }
}
pub open spec fn wants(m: Map<GrammarItemKey, TokenSet>, x: Symbol) -> bool { exists|i: GrammarItemKey| #[trigger] m.dom().contains(i) && i.next() == Some(x) }
pub open spec fn known(ps: Seq<ParserState>, q: ParserState) -> bool { q.id() < ps.len() && ps[q.id() as int] == q }
pub open spec fn state_ok(g: Seq<Production>, h: Cells, s: u32) -> bool {
    h.has(s) && keys_ok(g, items(h, s)) && has_core(g, items(h, s)) && la_sound(g, items(h, s)) && closed(g, items(h, s)) && h.sr[s]@.len() == 0 && h.rr[s]@.len() == 0
}
pub open spec fn states_ok(g: Seq<Production>, h: Cells, ps: Seq<ParserState>) -> bool {
    &&& 0 < ps.len() < 0x4000_0000
    &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).id() == k && state_ok(g, h, ps[k].id())
    &&& forall|id: u32| #[trigger] h.items.dom().contains(id) ==> id < ps.len()
    &&& forall|k: int, l: int| 0 <= k < l < ps.len() ==> !same_kernel(items(h, (#[trigger] ps[k]).id()), items(h, (#[trigger] ps[l]).id()))
    &&& core(g, Seq::<Symbol>::empty(), items(h, 0)) && items(h, 0).dom().contains(item0(g[0])) && items(h, 0)[item0(g[0])]@.contains(Token::End)
}
pub open spec fn told(all: bool, d: Set<Symbol>, x: Symbol) -> bool { all || d.contains(x) }
// there is a transition on x to the state that x leads to
pub open spec fn moves_on(h: Cells, ps: Seq<ParserState>, s: u32, x: Symbol) -> bool {
    trans(h, s, x) matches Some(q) && known(ps, q) && leads(items(h, s), x, items(h, q.id()))
}
pub open spec fn moves(h: Cells, ps: Seq<ParserState>, s: u32, all: bool, d: Set<Symbol>) -> bool {
    forall|x: Symbol| #[trigger] wants(items(h, s), x) && told(all, d, x) ==> moves_on(h, ps, s, x)
}
// i's look aheads have arrived in m2
pub open spec fn arrives(las: Set<Token>, m2: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey) -> bool { m2.dom().contains(i.after()) && las.subset_of(m2[i.after()]@) }
pub open spec fn carries(h: Cells, s: u32, all: bool, d: Set<Symbol>) -> bool {
    forall|i: GrammarItemKey| #[trigger] items(h, s).dom().contains(i) && (i.next() matches Some(x) && told(all, d, x)) ==>
        (trans(h, s, i.next().unwrap()) matches Some(q) && arrives(items(h, s)[i]@, items(h, q.id()), i))
}
// no transition goes elsewhere, and the error recovery state is the one for the error symbol
pub open spec fn only(h: Cells, s: u32) -> bool {
    &&& forall|t: Token| #[trigger] h.shifts[s]@.dom().contains(t) ==> wants(items(h, s), Symbol::Terminal(t))
    &&& forall|n: NonTerminal| #[trigger] h.gotos[s]@.dom().contains(n) ==> wants(items(h, s), Symbol::NonTerminal(n))
    &&& match h.recov[s] {
            Some(q) => exists|n: NonTerminal| #[trigger] h.gotos[s]@.dom().contains(n) && n is Error && h.gotos[s]@[n] == q,
            None => forall|n: NonTerminal| #[trigger] h.gotos[s]@.dom().contains(n) ==> !(n is Error),
        }
}
pub open spec fn settled(h: Cells, ps: Seq<ParserState>, s: u32) -> bool {
    &&& only(h, s)
    &&& !(h.status[s] is Unprocessed) ==> moves(h, ps, s, true, Set::<Symbol>::empty())
    &&& h.status[s] is Processed ==> carries(h, s, true, Set::<Symbol>::empty())
}
// while the state u is being processed: the symbols in d have been dealt with
pub open spec fn partly_settled(h: Cells, ps: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>) -> bool {
    &&& only(h, u)
    &&& !(h.status[u] is Unprocessed)
    &&& moves(h, ps, u, !first, d)
    &&& h.status[u] is Processed ==> carries(h, u, false, d)
}
pub open spec fn all_settled(h: Cells, ps: Seq<ParserState>) -> bool {
    forall|k: int| 0 <= k < ps.len() ==> settled(h, ps, (#[trigger] ps[k]).id())
}
pub open spec fn others_settled(h: Cells, ps: Seq<ParserState>, u: u32) -> bool {
    forall|k: int| 0 <= k < ps.len() && k != u ==> settled(h, ps, (#[trigger] ps[k]).id())
}
// h2 differs from h in the look aheads of existing states (which only grow), their status, and new states
pub open spec fn grown(h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>) -> bool {
    &&& ps.len() <= ps2.len()
    &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]) == ps2[k]
    &&& forall|s: u32| s < ps.len() ==> #[trigger] grown_in(h, h2, s)
}
pub open spec fn grown_in(h: Cells, h2: Cells, s: u32) -> bool {
    &&& same_items(items(h, s), items(h2, s))
    &&& forall|i: GrammarItemKey| #[trigger] items(h, s).dom().contains(i) ==> items(h, s)[i]@.subset_of(items(h2, s)[i]@)
    &&& h2.shifts[s] == h.shifts[s] && h2.gotos[s] == h.gotos[s] && h2.recov[s] == h.recov[s]
    &&& h2.status[s] is Processed ==> h.status[s] is Processed && forall|i: GrammarItemKey| #[trigger] items(h, s).dom().contains(i) ==> items(h, s)[i]@ == items(h2, s)[i]@
    &&& h2.status[s] is Unprocessed <==> h.status[s] is Unprocessed
}
pub proof fn lemma_moves_grown(h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, s: u32, all: bool, d: Set<Symbol>)
    requires grown(h, h2, ps, ps2), s < ps.len(), moves(h, ps, s, all, d)
    ensures moves(h2, ps2, s, all, d)
{
    assert(grown_in(h, h2, s));
    assert forall|x: Symbol| #[trigger] wants(items(h2, s), x) && told(all, d, x) implies moves_on(h2, ps2, s, x) by {
        let i = choose|i: GrammarItemKey| #[trigger] items(h2, s).dom().contains(i) && i.next() == Some(x);
        assert(items(h, s).dom().contains(i));
        assert(wants(items(h, s), x));
        assert(moves_on(h, ps, s, x));
        let q = trans(h, s, x).unwrap();
        assert(ps[q.id() as int] == ps2[q.id() as int]);
        assert(grown_in(h, h2, q.id()));
        assert forall|i: GrammarItemKey| i.kernel() implies (#[trigger] items(h2, q.id()).dom().contains(i) <==> i.dot > 0 && items(h2, s).dom().contains(i.before()) && i.before().next() == Some(x)) by {
            assert(items(h, q.id()).dom().contains(i) <==> items(h2, q.id()).dom().contains(i));
            assert(items(h, s).dom().contains(i.before()) <==> items(h2, s).dom().contains(i.before()));
        }
    }
}
pub proof fn lemma_carries_grown(h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, s: u32, all: bool, d: Set<Symbol>, all0: bool)
    requires grown(h, h2, ps, ps2), s < ps.len(), carries(h, s, all, d), moves(h, ps, s, all0, d), all ==> all0, h2.status[s] is Processed
    ensures carries(h2, s, all, d)
{
    assert(grown_in(h, h2, s));
    assert forall|i: GrammarItemKey| #[trigger] items(h2, s).dom().contains(i) && (i.next() matches Some(x) && told(all, d, x)) implies
        (trans(h2, s, i.next().unwrap()) matches Some(q) && arrives(items(h2, s)[i]@, items(h2, q.id()), i)) by {
        assert(items(h, s).dom().contains(i));
        let x = i.next().unwrap();
        assert(wants(items(h, s), x));
        assert(moves_on(h, ps, s, x));
        let q = trans(h, s, x).unwrap();
        assert(grown_in(h, h2, q.id()));
        assert(arrives(items(h, s)[i]@, items(h, q.id()), i));
        assert(items(h, q.id()).dom().contains(i.after()));
    }
}
pub proof fn lemma_only_grown(h: Cells, h2: Cells, s: u32)
    requires grown_in(h, h2, s), only(h, s)
    ensures only(h2, s)
{
    assert forall|x: Symbol| #[trigger] wants(items(h, s), x) implies wants(items(h2, s), x) by {
        let i = choose|i: GrammarItemKey| #[trigger] items(h, s).dom().contains(i) && i.next() == Some(x);
        assert(items(h2, s).dom().contains(i));
    }
}
pub proof fn lemma_settled_grown(h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, s: u32)
    requires grown(h, h2, ps, ps2), s < ps.len(), settled(h, ps, s)
    ensures settled(h2, ps2, s)
{
    assert(grown_in(h, h2, s));
    lemma_only_grown(h, h2, s);
    if !(h2.status[s] is Unprocessed) { lemma_moves_grown(h, h2, ps, ps2, s, true, Set::<Symbol>::empty()); }
    if h2.status[s] is Processed { lemma_carries_grown(h, h2, ps, ps2, s, true, Set::<Symbol>::empty(), true); }
}
pub proof fn lemma_partly_grown(h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>)
    requires grown(h, h2, ps, ps2), u < ps.len(), partly_settled(h, ps, u, first, d)
    ensures partly_settled(h2, ps2, u, first, d)
{
    assert(grown_in(h, h2, u));
    lemma_only_grown(h, h2, u);
    lemma_moves_grown(h, h2, ps, ps2, u, !first, d);
    if h2.status[u] is Processed { lemma_carries_grown(h, h2, ps, ps2, u, false, d, !first); }
}
pub proof fn lemma_same_kernel_trans(a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>, c: Map<GrammarItemKey, TokenSet>)
    requires same_kernel(a, b), same_kernel(b, c)
    ensures same_kernel(a, c)
{
    assert forall|i: GrammarItemKey| i.kernel() implies (a.dom().contains(i) <==> c.dom().contains(i)) by { assert(a.dom().contains(i) <==> b.dom().contains(i)); }
}
pub proof fn lemma_same_kernel_sym(a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>)
    requires same_kernel(a, b)
    ensures same_kernel(b, a)
{
}
pub proof fn lemma_state_ok(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, s: u32)
    requires states_ok(g, h, ps), s < ps.len()
    ensures ps[s as int].id() == s, state_ok(g, h, s)
{
    assert(ps[s as int].id() == s as int);
    assert(state_ok(g, h, ps[s as int].id()));
}
// what is known of the target when x is dealt with in state u
pub open spec fn targeted(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, u: u32, x: Symbol, q: ParserState) -> bool {
    &&& known(ps, q)
    &&& leads(items(h, u), x, items(h, q.id()))
    &&& h.status[u] is Processed ==> forall|i: GrammarItemKey| #[trigger] items(h, u).dom().contains(i) && i.next() == Some(x) ==> arrives(items(h, u)[i]@, items(h, q.id()), i)
}
pub proof fn lemma_distinct(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, a: u32, b: u32)
    requires states_ok(g, h, ps), a < ps.len(), b < ps.len(), same_kernel(items(h, a), items(h, b))
    ensures a == b
{
    assert(ps[a as int].id() == a && ps[b as int].id() == b);
    lemma_same_kernel_sym(items(h, a), items(h, b));
}
pub proof fn lemma_arrives(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>, i: GrammarItemKey)
    requires is_goto(m, x, k), extends(k, r), keys_ok(g, m), m.dom().contains(i), i.next() == Some(x)
    ensures arrives(m[i]@, r, i)
{
    lemma_rhs_len(i);
    assert(i.after().before() == i);
    assert(k.dom().contains(i.after()));
}
// the state with the same kernel has had the look aheads of the new one merged into its own
// one symbol of the state u: the state it leads to, found or made
pub open spec fn goto_found(h: Cells, h2: Cells, ps: Seq<ParserState>, r: Map<GrammarItemKey, TokenSet>, e: ParserState) -> bool {
    &&& known(ps, e) && same_kernel(items(h, e.id()), r)
    &&& h2 == (Cells { items: h2.items, status: h2.status, ..h })
    &&& h2.items == h.items.insert(e.id(), h2.items[e.id()])
    &&& h2.status == h.status.insert(e.id(), h2.status[e.id()])
    &&& merged(items(h, e.id()), r, items(h2, e.id()))
    &&& h2.status[e.id()] == (if h.status[e.id()] is Processed && !subsumes(items(h, e.id()), r) { ProcessedState::NeedsReprocessing } else { h.status[e.id()] })
}
pub proof fn lemma_found_in(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>, e: ParserState, s: u32)
    requires
        g_ok(g), states_ok(g, h, ps), u < ps.len(), s < ps.len(), is_goto(items(h, u), x, k), is_closure(g, k, r), keys_ok(g, k), goto_found(h, h2, ps, r, e),
    ensures grown_in(h, h2, s), state_ok(g, h2, s), s == e.id() ==> same_items(items(h, s), r)
{
    let (id, m, m2) = (e.id(), items(h, e.id()), items(h2, e.id()));
    lemma_state_ok(g, h, ps, s);
    if s == id {
        lemma_state_ok(g, h, ps, u);
        lemma_goto_state(g, items(h, u), x, k, r);
        lemma_closure_keys(g, k, r);
        lemma_closure_closed(g, k, r);
        lemma_kernel(g, m, r);
        lemma_merge(g, m, r, m2);
        assert forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) implies m[i]@.subset_of(m2[i]@) && (subsumes(m, r) ==> m[i]@ == m2[i]@) by {
            assert(r.dom().contains(i));
            assert(m2[i]@ == m[i]@.union(r[i]@));
            if subsumes(m, r) { assert(m[i]@.union(r[i]@) =~= m[i]@); }
        }
    } else {
        assert(items(h2, s) == items(h, s));
    }
}
pub proof fn lemma_found_states(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>, e: ParserState)
    requires
        g_ok(g), states_ok(g, h, ps), u < ps.len(), is_goto(items(h, u), x, k), is_closure(g, k, r), keys_ok(g, k), goto_found(h, h2, ps, r, e),
    ensures grown(h, h2, ps, ps), states_ok(g, h2, ps)
{
    assert forall|s: u32| s < ps.len() implies #[trigger] grown_in(h, h2, s) by { lemma_found_in(g, h, h2, ps, u, x, k, r, e, s); }
    assert forall|c: int| 0 <= c < ps.len() implies (#[trigger] ps[c]).id() == c && state_ok(g, h2, ps[c].id()) by {
        lemma_found_in(g, h, h2, ps, u, x, k, r, e, ps[c].id());
    }
    assert forall|a: int, b: int| 0 <= a < b < ps.len() implies !same_kernel(items(h2, (#[trigger] ps[a]).id()), items(h2, (#[trigger] ps[b]).id())) by {
        let (ia, ib) = (ps[a].id(), ps[b].id());
        assert(grown_in(h, h2, ia) && grown_in(h, h2, ib));
        if same_kernel(items(h2, ia), items(h2, ib)) {
            lemma_same_kernel_trans(items(h, ia), items(h2, ia), items(h2, ib));
            lemma_same_kernel_trans(items(h, ia), items(h2, ib), items(h, ib));
        }
    }
    assert(grown_in(h, h2, 0));
    assert(core(g, Seq::<Symbol>::empty(), items(h2, 0))) by {
        assert forall|i: GrammarItemKey| #[trigger] items(h2, 0).dom().contains(i) <==> in_v0(g, Seq::<Symbol>::empty(), i) by { assert(items(h, 0).dom().contains(i) <==> items(h2, 0).dom().contains(i)); }
    }
}
pub proof fn lemma_found_target(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>, e: ParserState)
    requires
        g_ok(g), states_ok(g, h, ps), u < ps.len(), is_goto(items(h, u), x, k), is_closure(g, k, r), keys_ok(g, k), goto_found(h, h2, ps, r, e),
        grown(h, h2, ps, ps),
    ensures targeted(g, h2, ps, u, x, e)
{
    let (id, m, m2) = (e.id(), items(h, e.id()), items(h2, e.id()));
    lemma_found_in(g, h, h2, ps, u, x, k, r, e, id);
    lemma_state_ok(g, h, ps, u);
    lemma_leads(g, items(h, u), x, k, r);
    assert(grown_in(h, h2, u));
    assert forall|i: GrammarItemKey| i.kernel() implies (#[trigger] m2.dom().contains(i) <==> i.dot > 0 && items(h2, u).dom().contains(i.before()) && i.before().next() == Some(x)) by {
        assert(m2.dom().contains(i) <==> m.dom().contains(i));
        assert(r.dom().contains(i) <==> m.dom().contains(i));
        assert(items(h, u).dom().contains(i.before()) <==> items(h2, u).dom().contains(i.before()));
    }
    if h2.status[u] is Processed {
        assert forall|i: GrammarItemKey| #[trigger] items(h2, u).dom().contains(i) && i.next() == Some(x) implies arrives(items(h2, u)[i]@, m2, i) by {
            assert(items(h, u).dom().contains(i));
            lemma_arrives(g, items(h, u), x, k, r, i);
            assert(m.dom().contains(i.after()));
            assert(m2[i.after()]@ == m[i.after()]@.union(r[i.after()]@));
        }
    }
}
pub proof fn lemma_merged_state(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>, e: ParserState)
    requires
        g_ok(g), states_ok(g, h, ps), others_settled(h, ps, u), partly_settled(h, ps, u, first, d), u < ps.len(),
        is_goto(items(h, u), x, k), is_closure(g, k, r), keys_ok(g, k), goto_found(h, h2, ps, r, e),
    ensures
        grown(h, h2, ps, ps), states_ok(g, h2, ps), others_settled(h2, ps, u), partly_settled(h2, ps, u, first, d), targeted(g, h2, ps, u, x, e),
{
    lemma_found_states(g, h, h2, ps, u, x, k, r, e);
    lemma_found_target(g, h, h2, ps, u, x, k, r, e);
    assert forall|c: int| 0 <= c < ps.len() && c != u implies settled(h2, ps, (#[trigger] ps[c]).id()) by {
        assert(ps[c].id() == c);
        lemma_settled_grown(h, h2, ps, ps, ps[c].id());
    }
    lemma_partly_grown(h, h2, ps, ps, u, first, d);
}
// the new state
pub open spec fn allocated(h: Cells, h2: Cells, id: u32, m: GrammarItemSet) -> bool {
    &&& h2.has(id)
    &&& h2.items == h.items.insert(id, m)
    &&& h2.shifts == h.shifts.insert(id, h2.shifts[id]) && h2.shifts[id]@ == Map::<Token, ParserState>::empty()
    &&& h2.gotos == h.gotos.insert(id, h2.gotos[id]) && h2.gotos[id]@ == Map::<NonTerminal, ParserState>::empty()
    &&& h2.recov == h.recov.insert(id, None)
    &&& h2.status == h.status.insert(id, ProcessedState::Unprocessed)
    &&& h2.sr == h.sr.insert(id, h2.sr[id]) && h2.sr[id]@.len() == 0
    &&& h2.rr == h.rr.insert(id, h2.rr[id]) && h2.rr[id]@.len() == 0
}
pub proof fn lemma_new_state(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: GrammarItemSet, e: ParserState)
    requires
        g_ok(g), states_ok(g, h, ps), others_settled(h, ps, u), partly_settled(h, ps, u, first, d), u < ps.len(),
        is_goto(items(h, u), x, k), is_closure(g, k, r@), keys_ok(g, k),
        forall|c: int| 0 <= c < ps.len() ==> !same_kernel(items(h, (#[trigger] ps[c]).id()), r@),
        ps2 == ps.push(e), e.id() == ps.len(), ps2.len() < 0x4000_0000, allocated(h, h2, e.id(), r),
    ensures
        grown(h, h2, ps, ps2), states_ok(g, h2, ps2), others_settled(h2, ps2, u), partly_settled(h2, ps2, u, first, d), targeted(g, h2, ps2, u, x, e),
{
    let id = e.id();
    lemma_state_ok(g, h, ps, u);
    lemma_goto_state(g, items(h, u), x, k, r@);
    lemma_leads(g, items(h, u), x, k, r@);
    lemma_closure_keys(g, k, r@);
    lemma_closure_closed(g, k, r@);
    assert(!h.items.dom().contains(id));
    assert forall|s: u32| s < ps.len() implies #[trigger] grown_in(h, h2, s) by {
        lemma_state_ok(g, h, ps, s);
        assert(items(h2, s) == items(h, s));
    }
    assert forall|c: int| 0 <= c < ps2.len() implies (#[trigger] ps2[c]).id() == c && state_ok(g, h2, ps2[c].id()) by {
        if c < ps.len() { assert(ps2[c] == ps[c]); assert(state_ok(g, h, ps[c].id())); }
    }
    assert forall|a: int, b: int| 0 <= a < b < ps2.len() implies !same_kernel(items(h2, (#[trigger] ps2[a]).id()), items(h2, (#[trigger] ps2[b]).id())) by {
        assert(ps2[a] == ps[a]);
        if b < ps.len() { assert(ps2[b] == ps[b]); }
    }
    assert(grown_in(h, h2, 0));
    assert forall|c: int| 0 <= c < ps2.len() && c != u implies settled(h2, ps2, (#[trigger] ps2[c]).id()) by {
        if c < ps.len() {
            assert(ps2[c] == ps[c]);
            lemma_settled_grown(h, h2, ps, ps2, ps[c].id());
        }
    }
    lemma_partly_grown(h, h2, ps, ps2, u, first, d);
    if h2.status[u] is Processed {
        assert forall|i: GrammarItemKey| #[trigger] items(h2, u).dom().contains(i) && i.next() == Some(x) implies arrives(items(h2, u)[i]@, r@, i) by {
            lemma_arrives(g, items(h, u), x, k, r@, i);
        }
    }
}
// x has been dealt with and its transition noted
pub open spec fn notes(h: Cells, h2: Cells, u: u32, x: Symbol, q: ParserState) -> bool {
    match x {
        Symbol::Terminal(t) => h2 == (Cells { shifts: h.shifts.insert(u, h2.shifts[u]), ..h }) && h2.shifts[u]@ == h.shifts[u]@.insert(t, q),
        Symbol::NonTerminal(n) => h2 == (Cells { gotos: h.gotos.insert(u, h2.gotos[u]), recov: h2.recov, ..h }) && h2.gotos[u]@ == h.gotos[u]@.insert(n, q)
            && h2.recov == (if n is Error { h.recov.insert(u, Some(q)) } else { h.recov }),
    }
}
// h2 differs from h only in the transitions of u
pub open spec fn only_u(h: Cells, h2: Cells, u: u32) -> bool {
    &&& h2.items == h.items && h2.status == h.status && h2.sr == h.sr && h2.rr == h.rr
    &&& forall|id: u32| #[trigger] h.has(id) ==> h2.has(id)
    &&& forall|s: u32| s != u ==> #[trigger] h2.shifts[s] == h.shifts[s]
    &&& forall|s: u32| s != u ==> #[trigger] h2.gotos[s] == h.gotos[s]
    &&& forall|s: u32| s != u ==> #[trigger] h2.recov[s] == h.recov[s]
}
pub proof fn lemma_notes_only_u(h: Cells, h2: Cells, u: u32, x: Symbol, q: ParserState)
    requires notes(h, h2, u, x, q), h.has(u)
    ensures only_u(h, h2, u), trans(h2, u, x) == Some(q), forall|y: Symbol| y != x ==> #[trigger] trans(h2, u, y) == trans(h, u, y)
{
}
pub proof fn lemma_noted_states(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32)
    requires states_ok(g, h, ps), only_u(h, h2, u)
    ensures states_ok(g, h2, ps)
{
    assert forall|c: int| 0 <= c < ps.len() implies (#[trigger] ps[c]).id() == c && state_ok(g, h2, ps[c].id()) by { assert(state_ok(g, h, ps[c].id())); }
    assert forall|a: int, b: int| 0 <= a < b < ps.len() implies !same_kernel(items(h2, (#[trigger] ps[a]).id()), items(h2, (#[trigger] ps[b]).id())) by {
        assert(items(h2, ps[a].id()) == items(h, ps[a].id()));
        assert(items(h2, ps[b].id()) == items(h, ps[b].id()));
    }
}
pub proof fn lemma_noted_settled(h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, s: u32)
    requires only_u(h, h2, u), settled(h, ps, s), s != u
    ensures settled(h2, ps, s)
{
    assert(h2.shifts[s] == h.shifts[s] && h2.gotos[s] == h.gotos[s] && h2.recov[s] == h.recov[s]);
    assert(items(h2, s) == items(h, s));
    assert forall|y: Symbol| #[trigger] trans(h2, s, y) == trans(h, s, y) by { }
    if !(h2.status[s] is Unprocessed) {
        assert forall|y: Symbol| #[trigger] wants(items(h2, s), y) implies moves_on(h2, ps, s, y) by { assert(told(true, Set::<Symbol>::empty(), y)); assert(moves_on(h, ps, s, y)); assert(trans(h2, s, y) == trans(h, s, y)); }
    }
    if h2.status[s] is Processed {
        assert forall|i: GrammarItemKey| #[trigger] items(h2, s).dom().contains(i) && i.next() is Some implies
            (trans(h2, s, i.next().unwrap()) matches Some(q) && arrives(items(h2, s)[i]@, items(h2, q.id()), i)) by {
            assert(items(h, s).dom().contains(i));
            assert(told(true, Set::<Symbol>::empty(), i.next().unwrap()));
            assert(trans(h2, s, i.next().unwrap()) == trans(h, s, i.next().unwrap()));
        }
    }
}
// the transitions of u itself
pub proof fn lemma_noted_u(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>, x: Symbol, q: ParserState)
    requires
        partly_settled(h, ps, u, first, d), u < ps.len(), targeted(g, h, ps, u, x, q), wants(items(h, u), x),
        only_u(h, h2, u), only(h2, u), trans(h2, u, x) == Some(q), forall|y: Symbol| y != x ==> #[trigger] trans(h2, u, y) == trans(h, u, y),
    ensures partly_settled(h2, ps, u, first, d.insert(x))
{
    assert(items(h2, u) == items(h, u));
    assert forall|y: Symbol| #[trigger] wants(items(h2, u), y) && told(!first, d.insert(x), y) implies moves_on(h2, ps, u, y) by {
        if y != x {
            assert(trans(h2, u, y) == trans(h, u, y));
            assert(told(!first, d, y));
            assert(moves_on(h, ps, u, y));
        }
    }
    if h2.status[u] is Processed {
        assert forall|i: GrammarItemKey| #[trigger] items(h2, u).dom().contains(i) && (i.next() matches Some(y) && told(false, d.insert(x), y)) implies
            (trans(h2, u, i.next().unwrap()) matches Some(q) && arrives(items(h2, u)[i]@, items(h2, q.id()), i)) by {
            assert(items(h, u).dom().contains(i));
            let y = i.next().unwrap();
            if y != x { assert(trans(h2, u, y) == trans(h, u, y)); assert(told(false, d, y)); }
        }
    }
}
pub proof fn lemma_noted_only(h: Cells, h2: Cells, u: u32, x: Symbol, q: ParserState)
    requires only(h, u), notes(h, h2, u, x, q), h.has(u), wants(items(h, u), x)
    ensures only(h2, u)
{
    match x {
        Symbol::Terminal(t) => {
            assert(h2.gotos[u] == h.gotos[u] && h2.recov[u] == h.recov[u]);
            assert forall|y: Token| #[trigger] h2.shifts[u]@.dom().contains(y) implies wants(items(h2, u), Symbol::Terminal(y)) by { if y != t { assert(h.shifts[u]@.dom().contains(y)); } }
        }
        Symbol::NonTerminal(n) => {
            assert(h2.shifts[u] == h.shifts[u]);
            assert forall|y: NonTerminal| #[trigger] h2.gotos[u]@.dom().contains(y) implies wants(items(h2, u), Symbol::NonTerminal(y)) by { if y != n { assert(h.gotos[u]@.dom().contains(y)); } }
            assert(h2.gotos[u]@.dom().contains(n) && h2.gotos[u]@[n] == q);
            if !(n is Error) {
                assert(h2.recov[u] == h.recov[u]);
                match h.recov[u] {
                    Some(o) => {
                        let n0 = choose|n0: NonTerminal| #[trigger] h.gotos[u]@.dom().contains(n0) && n0 is Error && h.gotos[u]@[n0] == o;
                        assert(h2.gotos[u]@.dom().contains(n0) && h2.gotos[u]@[n0] == o);
                    }
                    None => {
                        assert forall|y: NonTerminal| #[trigger] h2.gotos[u]@.dom().contains(y) implies !(y is Error) by { if y != n { assert(h.gotos[u]@.dom().contains(y)); } }
                    }
                }
            }
        }
    }
}
pub proof fn lemma_noted(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>, x: Symbol, q: ParserState)
    requires
        states_ok(g, h, ps), others_settled(h, ps, u), partly_settled(h, ps, u, first, d), u < ps.len(), targeted(g, h, ps, u, x, q), wants(items(h, u), x),
        !first ==> h2 == h,
        first ==> notes(h, h2, u, x, q),
    ensures
        states_ok(g, h2, ps), others_settled(h2, ps, u), partly_settled(h2, ps, u, first, d.insert(x)),
{
    lemma_state_ok(g, h, ps, u);
    if first {
        lemma_notes_only_u(h, h2, u, x, q);
        lemma_noted_only(h, h2, u, x, q);
    } else {
        assert(told(true, d, x));
        assert(moves_on(h, ps, u, x));
        let e = trans(h, u, x).unwrap();
        assert(same_kernel(items(h, e.id()), items(h, q.id()))) by {
            assert forall|i: GrammarItemKey| #![trigger items(h, e.id()).dom().contains(i)] #![trigger items(h, q.id()).dom().contains(i)] i.kernel() implies (items(h, e.id()).dom().contains(i) <==> items(h, q.id()).dom().contains(i)) by { }
        }
        lemma_distinct(g, h, ps, e.id(), q.id());
        assert(e == q);
    }
    lemma_noted_states(g, h, h2, ps, u);
    assert forall|c: int| 0 <= c < ps.len() && c != u implies settled(h2, ps, (#[trigger] ps[c]).id()) by {
        assert(ps[c].id() == c);
        assert(settled(h, ps, ps[c].id()));
        lemma_noted_settled(h, h2, ps, u, ps[c].id());
    }
    lemma_noted_u(g, h, h2, ps, u, first, d, x, q);
}
// all the symbols have been dealt with
pub proof fn lemma_processed(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>)
    requires states_ok(g, h, ps), others_settled(h, ps, u), partly_settled(h, ps, u, first, d), u < ps.len(), forall|x: Symbol| #[trigger] wants(items(h, u), x) ==> d.contains(x)
    ensures all_settled(h, ps)
{
    assert(ps[u as int].id() == u);
    assert(settled(h, ps, u)) by {
        assert forall|x: Symbol| #[trigger] wants(items(h, u), x) implies moves_on(h, ps, u, x) by { assert(told(!first, d, x)); }
        if h.status[u] is Processed {
            assert forall|i: GrammarItemKey| #[trigger] items(h, u).dom().contains(i) && i.next() is Some implies
                (trans(h, u, i.next().unwrap()) matches Some(q) && arrives(items(h, u)[i]@, items(h, q.id()), i)) by { assert(wants(items(h, u), i.next().unwrap())); assert(told(false, d, i.next().unwrap())); }
        }
    }
}
// u is marked as processed before its symbols are dealt with
pub proof fn lemma_marked(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, u: u32)
    requires states_ok(g, h, ps), all_settled(h, ps), u < ps.len(), !(h.status[u] is Processed), h2 == (Cells { status: h.status.insert(u, ProcessedState::Processed), ..h })
    ensures states_ok(g, h2, ps), others_settled(h2, ps, u), partly_settled(h2, ps, u, !(h.status[u] is NeedsReprocessing), Set::<Symbol>::empty())
{
    lemma_state_ok(g, h, ps, u);
    assert(settled(h, ps, ps[u as int].id()));
    assert forall|c: int| 0 <= c < ps.len() implies (#[trigger] ps[c]).id() == c && state_ok(g, h2, ps[c].id()) by { assert(state_ok(g, h, ps[c].id())); }
    assert forall|a: int, b: int| 0 <= a < b < ps.len() implies !same_kernel(items(h2, (#[trigger] ps[a]).id()), items(h2, (#[trigger] ps[b]).id())) by {
        assert(items(h2, ps[a].id()) == items(h, ps[a].id()));
    }
    assert forall|s: u32, x: Symbol| moves_on(h, ps, s, x) implies #[trigger] moves_on(h2, ps, s, x) by { }
    assert forall|c: int| 0 <= c < ps.len() && c != u implies settled(h2, ps, (#[trigger] ps[c]).id()) by {
        let s = ps[c].id();
        assert(settled(h, ps, s));
        if h2.status[s] is Processed {
            assert forall|i: GrammarItemKey| #[trigger] items(h2, s).dom().contains(i) && i.next() is Some implies
                (trans(h2, s, i.next().unwrap()) matches Some(q) && arrives(items(h2, s)[i]@, items(h2, q.id()), i)) by { assert(items(h, s).dom().contains(i)); assert(told(true, Set::<Symbol>::empty(), i.next().unwrap())); }
        }
    }
}
// ------------------------------------------------------------------ C11: it is the LALR(1) automaton
pub open spec fn lalr(g: Seq<Production>, h: Cells, ps: Seq<ParserState>) -> bool {
    &&& forall|k: int| 0 <= k < ps.len() ==> (#[trigger] ps[k]).id() == k
    // every state is the set of the items valid for some viable prefix, every viable prefix has its state, and no two are the same
    &&& forall|k: int| 0 <= k < ps.len() ==> has_core(g, items(h, (#[trigger] ps[k]).id()))
    &&& forall|p: Seq<Symbol>| #[trigger] viable(g, p) ==> has_state(g, h, ps, p)
    &&& forall|k: int, l: int| 0 <= k < l < ps.len() ==> !same_items(items(h, (#[trigger] ps[k]).id()), items(h, (#[trigger] ps[l]).id()))
    // with exactly the LALR(1) look aheads
    &&& forall|k: int| 0 <= k < ps.len() ==> la_exact(g, items(h, (#[trigger] ps[k]).id()))
    // and exactly the transitions of the automaton
    &&& forall|k: int, x: Symbol| 0 <= k < ps.len() ==> #[trigger] trans_exact(g, h, ps, ps[k].id(), x)
    &&& forall|k: int| 0 <= k < ps.len() ==> only(h, (#[trigger] ps[k]).id())
    // the first state is the initial one
    &&& 0 < ps.len() && core(g, Seq::<Symbol>::empty(), items(h, 0))
}
pub open spec fn has_state(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, p: Seq<Symbol>) -> bool {
    exists|k: int| 0 <= k < ps.len() && core(g, p, items(h, (#[trigger] ps[k]).id()))
}
pub open spec fn trans_exact(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, s: u32, x: Symbol) -> bool {
    &&& trans(h, s, x) is Some <==> wants(items(h, s), x)
    &&& trans(h, s, x) matches Some(q) ==> known(ps, q) && forall|p: Seq<Symbol>| #[trigger] core(g, p, items(h, s)) ==> core(g, p.push(x), items(h, q.id()))
}
pub proof fn lemma_trans_core(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, s: u32, x: Symbol, q: u32, p: Seq<Symbol>)
    requires g_ok(g), states_ok(g, h, ps), s < ps.len(), q < ps.len(), leads(items(h, s), x, items(h, q)), core(g, p, items(h, s))
    ensures core(g, p.push(x), items(h, q))
{
    lemma_state_ok(g, h, ps, s);
    lemma_state_ok(g, h, ps, q);
    let m = items(h, q);
    let o = choose|o: Seq<Symbol>| core(g, o, m);
    assert forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) <==> in_v0(g, p.push(x), i) by {
        if m.dom().contains(i) { let n = choose|n: nat| v0(g, o, i, n); lemma_trans_to(g, items(h, s), x, m, o, p, i, n); }
        if in_v0(g, p.push(x), i) { let n = choose|n: nat| v0(g, p.push(x), i, n); lemma_trans_from(g, items(h, s), x, m, o, p, i, n); }
    }
}
pub proof fn lemma_trans_to(g: Seq<Production>, m0: Map<GrammarItemKey, TokenSet>, x: Symbol, m: Map<GrammarItemKey, TokenSet>, o: Seq<Symbol>, p: Seq<Symbol>, i: GrammarItemKey, n: nat)
    requires g_ok(g), core(g, p, m0), core(g, o, m), leads(m0, x, m), v0(g, o, i, n)
    ensures in_v0(g, p.push(x), i)
    decreases n
{
    assert(in_v0(g, o, i));
    assert(m.dom().contains(i));
    if i.kernel() {
        assert(m0.dom().contains(i.before()));
        lemma_v0_goto(g, p, x, i);
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, o, j, (n - 1) as nat);
        lemma_trans_to(g, m0, x, m, o, p, j, (n - 1) as nat);
        lemma_v0_close(g, p.push(x), j, i);
    }
}
pub proof fn lemma_trans_from(g: Seq<Production>, m0: Map<GrammarItemKey, TokenSet>, x: Symbol, m: Map<GrammarItemKey, TokenSet>, o: Seq<Symbol>, p: Seq<Symbol>, i: GrammarItemKey, n: nat)
    requires g_ok(g), core(g, p, m0), core(g, o, m), leads(m0, x, m), v0(g, p.push(x), i, n)
    ensures m.dom().contains(i)
    decreases n
{
    assert(p.push(x).drop_last() =~= p);
    if i.dot > 0 && i.before().next() == Some(x) && v0(g, p, i.before(), (n - 1) as nat) {
        assert(in_v0(g, p, i.before()));
        assert(m0.dom().contains(i.before()));
        assert(i.kernel());
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, p.push(x), j, (n - 1) as nat);
        lemma_trans_from(g, m0, x, m, o, p, j, (n - 1) as nat);
        assert(in_v0(g, o, j));
        lemma_v0_close(g, o, j, i);
    }
}
pub open spec fn all_done(h: Cells, ps: Seq<ParserState>) -> bool {
    forall|k: int| 0 <= k < ps.len() ==> h.status[(#[trigger] ps[k]).id()] is Processed
}
pub proof fn lemma_v0_kernel(g: Seq<Production>, p: Seq<Symbol>, i: GrammarItemKey, n: nat) -> (j: GrammarItemKey)
    requires p.len() > 0, v0(g, p, i, n)
    ensures j.dot > 0, j.before().next() == Some(p.last()), in_v0(g, p.drop_last(), j.before())
    decreases n
{
    if i.dot > 0 && i.before().next() == Some(p.last()) && v0(g, p.drop_last(), i.before(), (n - 1) as nat) {
        i
    } else {
        let j = choose|j: GrammarItemKey| #[trigger] next_is(j, i.production.lhs()) && v0(g, p, j, (n - 1) as nat);
        lemma_v0_kernel(g, p, j, (n - 1) as nat)
    }
}
pub proof fn lemma_moves_on(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, s: u32, i: GrammarItemKey) -> (q: ParserState)
    requires g_ok(g), states_ok(g, h, ps), all_settled(h, ps), all_done(h, ps), s < ps.len(), items(h, s).dom().contains(i), i.next() is Some
    ensures trans(h, s, i.next().unwrap()) == Some(q), known(ps, q), leads(items(h, s), i.next().unwrap(), items(h, q.id())), arrives(items(h, s)[i]@, items(h, q.id()), i)
{
    lemma_state_ok(g, h, ps, s);
    assert(settled(h, ps, ps[s as int].id()) && h.status[ps[s as int].id()] is Processed);
    assert(wants(items(h, s), i.next().unwrap()));
    assert(told(true, Set::<Symbol>::empty(), i.next().unwrap()));
    assert(moves_on(h, ps, s, i.next().unwrap()));
    trans(h, s, i.next().unwrap()).unwrap()
}
pub proof fn lemma_has_state(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, p: Seq<Symbol>) -> (s: u32)
    requires g_ok(g), states_ok(g, h, ps), all_settled(h, ps), all_done(h, ps), viable(g, p)
    ensures s < ps.len(), core(g, p, items(h, s))
    decreases p.len()
{
    if p.len() == 0 {
        assert(p =~= Seq::<Symbol>::empty());
        0
    } else {
        let i = choose|i: GrammarItemKey| in_v0(g, p, i);
        let n = choose|n: nat| v0(g, p, i, n);
        let j = lemma_v0_kernel(g, p, i, n);
        let s = lemma_has_state(g, h, ps, p.drop_last());
        assert(items(h, s).dom().contains(j.before()));
        let q = lemma_moves_on(g, h, ps, s, j.before());
        lemma_trans_core(g, h, ps, s, p.last(), q.id(), p.drop_last());
        assert(p.drop_last().push(p.last()) =~= p);
        q.id()
    }
}
pub proof fn lemma_same_core(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, a: u32, b: u32, p: Seq<Symbol>)
    requires states_ok(g, h, ps), a < ps.len(), b < ps.len(), core(g, p, items(h, a)), core(g, p, items(h, b))
    ensures a == b
{
    assert forall|i: GrammarItemKey| i.kernel() implies (items(h, a).dom().contains(i) <==> items(h, b).dom().contains(i)) by { assert(items(h, a).dom().contains(i) <==> in_v0(g, p, i)); }
    lemma_distinct(g, h, ps, a, b);
}
pub proof fn lemma_la_complete(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, p: Seq<Symbol>, s: u32, i: GrammarItemKey, t: Token, n: nat)
    requires g_ok(g), states_ok(g, h, ps), all_settled(h, ps), all_done(h, ps), s < ps.len(), core(g, p, items(h, s)), v1(g, p, i, t, n)
    ensures items(h, s).dom().contains(i), items(h, s)[i]@.contains(t)
    decreases n
{
    lemma_v1_v0(g, p, i, t, n);
    assert(items(h, s).dom().contains(i));
    if p.len() == 0 && i == item0(g[0]) && t is End {
        assert(p =~= Seq::<Symbol>::empty());
        lemma_same_core(g, h, ps, 0, s, p);
    } else if p.len() > 0 && i.dot > 0 && i.before().next() == Some(p.last()) && v1(g, p.drop_last(), i.before(), t, (n - 1) as nat) {
        let b = i.before();
        lemma_v1_v0(g, p.drop_last(), b, t, (n - 1) as nat);
        assert(viable(g, p.drop_last()));
        let s1 = lemma_has_state(g, h, ps, p.drop_last());
        lemma_la_complete(g, h, ps, p.drop_last(), s1, b, t, (n - 1) as nat);
        let q = lemma_moves_on(g, h, ps, s1, b);
        lemma_trans_core(g, h, ps, s1, p.last(), q.id(), p.drop_last());
        assert(p.drop_last().push(p.last()) =~= p);
        lemma_same_core(g, h, ps, q.id(), s, p);
        assert(b.after() == i);
    } else {
        let (j, u) = choose|j: GrammarItemKey, u: Token| #[trigger] next_is(j, i.production.lhs()) && v1(g, p, j, u, (n - 1) as nat) && #[trigger] first_str(j.tail(), u).contains(t);
        lemma_la_complete(g, h, ps, p, s, j, u, (n - 1) as nat);
        lemma_state_ok(g, h, ps, s);
        assert(fed(items(h, s), j, items(h, s)[j]@, i.production));
        assert(item0(i.production) == i);
    }
}
pub proof fn lemma_lalr(g: Seq<Production>, h: Cells, ps: Seq<ParserState>)
    requires g_ok(g), states_ok(g, h, ps), all_settled(h, ps), all_done(h, ps)
    ensures lalr(g, h, ps)
{
    assert forall|k: int| 0 <= k < ps.len() implies has_core(g, items(h, (#[trigger] ps[k]).id())) && la_exact(g, items(h, ps[k].id())) && only(h, ps[k].id()) by {
        let s = ps[k].id();
        assert(state_ok(g, h, s) && settled(h, ps, s));
        assert forall|i: GrammarItemKey, t: Token| items(h, s).dom().contains(i) implies (#[trigger] items(h, s)[i]@.contains(t) <==> la(g, items(h, s), i, t)) by {
            if la(g, items(h, s), i, t) {
                let p = choose|p: Seq<Symbol>| #[trigger] core(g, p, items(h, s)) && in_v1(g, p, i, t);
                let n = choose|n: nat| v1(g, p, i, t, n);
                lemma_la_complete(g, h, ps, p, s, i, t, n);
            }
        }
    }
    assert forall|p: Seq<Symbol>| #[trigger] viable(g, p) implies has_state(g, h, ps, p) by {
        let s = lemma_has_state(g, h, ps, p);
        assert(ps[s as int].id() == s);
    }
    assert forall|k: int, l: int| 0 <= k < l < ps.len() implies !same_items(items(h, (#[trigger] ps[k]).id()), items(h, (#[trigger] ps[l]).id())) by {
        let (a, b) = (items(h, ps[k].id()), items(h, ps[l].id()));
        if same_items(a, b) {
            assert(same_kernel(a, b)) by { assert forall|i: GrammarItemKey| i.kernel() implies (a.dom().contains(i) <==> b.dom().contains(i)) by { } }
        }
    }
    assert forall|k: int, x: Symbol| 0 <= k < ps.len() implies #[trigger] trans_exact(g, h, ps, ps[k].id(), x) by {
        let s = ps[k].id();
        assert(settled(h, ps, s));
        if wants(items(h, s), x) {
            let i = choose|i: GrammarItemKey| #[trigger] items(h, s).dom().contains(i) && i.next() == Some(x);
            let q = lemma_moves_on(g, h, ps, s, i);
            assert forall|p: Seq<Symbol>| #[trigger] core(g, p, items(h, s)) implies core(g, p.push(x), items(h, q.id())) by {
                lemma_trans_core(g, h, ps, s, x, q.id(), p);
            }
        }
    }
}
// ------------------------------------------------------------------ used by the construction
pub proof fn lemma_states_ok(g: Seq<Production>, h: Cells, ps: Seq<ParserState>)
    requires states_ok(g, h, ps)
    ensures forall|c: int| 0 <= c < ps.len() ==> (#[trigger] ps[c]).id() == c && h.has(ps[c].id()), forall|id: u32| #[trigger] h.items.dom().contains(id) ==> id < ps.len()
{
    assert forall|c: int| 0 <= c < ps.len() implies (#[trigger] ps[c]).id() == c && h.has(ps[c].id()) by { assert(state_ok(g, h, ps[c].id())); }
}
pub open spec fn kernel_keys(m: Map<GrammarItemKey, TokenSet>, ks: OrderedSet<GrammarItemKey>) -> bool {
    forall|k: GrammarItemKey| #[trigger] ks@.contains(k) <==> m.dom().contains(k) && k.kernel()
}
pub proof fn lemma_kernel_sets(a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>, kb: OrderedSet<GrammarItemKey>)
    requires kernel_keys(b, kb)
    ensures forall|ka: OrderedSet<GrammarItemKey>| #[trigger] kernel_keys(a, ka) ==> (kb == ka <==> same_kernel(a, b))
{
    assert forall|ka: OrderedSet<GrammarItemKey>| #[trigger] kernel_keys(a, ka) implies (kb == ka <==> same_kernel(a, b)) by {
        if same_kernel(a, b) {
            assert(ka@ =~= kb@) by { assert forall|k: GrammarItemKey| ka@.contains(k) <==> kb@.contains(k) by { assert(k.kernel() ==> (a.dom().contains(k) <==> b.dom().contains(k))); } }
            axiom_oset_ext(ka, kb);
        }
        if kb == ka {
            assert forall|i: GrammarItemKey| #![trigger a.dom().contains(i)] #![trigger b.dom().contains(i)] i.kernel() implies (a.dom().contains(i) <==> b.dom().contains(i)) by { assert(ka@.contains(i) <==> kb@.contains(i)); }
        }
    }
}
pub open spec fn goto_made(h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, r: GrammarItemSet, e: ParserState) -> bool {
    &&& (forall|i: GrammarItemKey| #[trigger] r@.dom().contains(i) ==> !i.kernel()) || (forall|c: int| 0 <= c < ps.len() ==> !same_kernel(items(h, (#[trigger] ps[c]).id()), r@))
    &&& ps2 == ps.push(e) && e.id() == ps.len() && ps2.len() < 0x4000_0000 && allocated(h, h2, e.id(), r)
}
pub proof fn lemma_goto_done(g: Seq<Production>, h: Cells, h2: Cells, ps: Seq<ParserState>, ps2: Seq<ParserState>, u: u32, first: bool, d: Set<Symbol>, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: GrammarItemSet, e: ParserState)
    requires
        g_ok(g), states_ok(g, h, ps), others_settled(h, ps, u), partly_settled(h, ps, u, first, d), u < ps.len(), wants(items(h, u), x),
        is_goto(items(h, u), x, k), is_closure(g, k, r@),
        ps2 == ps && goto_found(h, h2, ps, r@, e) || goto_made(h, h2, ps, ps2, r, e),
    ensures
        states_ok(g, h2, ps2), others_settled(h2, ps2, u), partly_settled(h2, ps2, u, first, d), targeted(g, h2, ps2, u, x, e),
        u < ps2.len(), ps2[u as int] == ps[u as int], h2.has(u), wants(items(h2, u), x), same_items(items(h, u), items(h2, u)),
{
    lemma_state_ok(g, h, ps, u);
    lemma_kernel_keys(g, items(h, u), x, k);
    lemma_leads(g, items(h, u), x, k, r@);
    let i = choose|i: GrammarItemKey| #[trigger] items(h, u).dom().contains(i) && i.next() == Some(x);
    assert(key_ok(g, i));
    lemma_rhs_len(i);
    assert(i.after().before() == i);
    assert(k.dom().contains(i.after()));
    assert(r@.dom().contains(i.after()) && i.after().kernel());
    if ps2.len() == ps.len() {
        lemma_merged_state(g, h, h2, ps, u, first, d, x, k, r@, e);
    } else {
        lemma_new_state(g, h, h2, ps, ps2, u, first, d, x, k, r, e);
    }
    assert(ps[u as int] == ps2[u as int]);
    assert(grown_in(h, h2, u));
    lemma_state_ok(g, h2, ps2, u);
    assert(items(h2, u).dom().contains(i));
}
pub proof fn lemma_same_irr(l: Seq<&GrammarItemKey>, a: Map<GrammarItemKey, TokenSet>, b: Map<GrammarItemKey, TokenSet>)
    requires lists_irr(l, a), same_items(a, b)
    ensures lists_irr(l, b)
{
    assert forall|i: GrammarItemKey| #[trigger] b.dom().contains(i) && !i.red() implies exists|x: int| 0 <= x < l.len() && *(#[trigger] l[x]) == i by { assert(a.dom().contains(i)); }
}
// what is known of the state that is being processed
pub proof fn lemma_processing(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, u: u32, l: Seq<&GrammarItemKey>, b: int)
    requires g_ok(g), states_ok(g, h, ps), u < ps.len(), lists_irr(l, items(h, u)), 0 <= b < l.len()
    ensures
        h.has(u), keys_ok(g, items(h, u)), (*l[b]).dot < (*l[b]).rhs().len(), (*l[b]).next() is Some, wants(items(h, u), (*l[b]).next().unwrap()),
        forall|c: int| 0 <= c < ps.len() ==> (#[trigger] ps[c]).id() == c && h.has(ps[c].id()),
        forall|id: u32| #[trigger] h.items.dom().contains(id) ==> id < ps.len(),
        forall|k: GrammarItemKey| #[trigger] items(h, u).dom().contains(k) ==> k.dot <= k.rhs().len(),
        forall|k: Map<GrammarItemKey, TokenSet>, x: Symbol| #[trigger] is_goto(items(h, u), x, k) ==> keys_ok(g, k),
{
    lemma_state_ok(g, h, ps, u);
    lemma_states_ok(g, h, ps);
    assert(items(h, u).dom().contains(*l[b]));
    assert(key_ok(g, *l[b]));
    assert forall|k: GrammarItemKey| #[trigger] items(h, u).dom().contains(k) implies k.dot <= k.rhs().len() by { assert(key_ok(g, k)); }
    assert forall|k: Map<GrammarItemKey, TokenSet>, x: Symbol| #[trigger] is_goto(items(h, u), x, k) implies keys_ok(g, k) by { lemma_kernel_keys(g, items(h, u), x, k); }
}
pub open spec fn within(r: Map<GrammarItemKey, TokenSet>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    forall|k: GrammarItemKey| #[trigger] r.dom().contains(k) ==> m.dom().contains(k)
}
pub proof fn lemma_may_merge(g: Seq<Production>, h: Cells, ps: Seq<ParserState>, u: u32, x: Symbol, k: Map<GrammarItemKey, TokenSet>, r: Map<GrammarItemKey, TokenSet>)
    requires g_ok(g), states_ok(g, h, ps), u < ps.len(), is_goto(items(h, u), x, k), is_closure(g, k, r)
    ensures forall|e: ParserState| known(ps, e) && #[trigger] same_kernel(items(h, e.id()), r) ==> within(r, items(h, e.id()))
{
    lemma_state_ok(g, h, ps, u);
    lemma_goto_state(g, items(h, u), x, k, r);
    assert forall|e: ParserState| known(ps, e) && #[trigger] same_kernel(items(h, e.id()), r) implies within(r, items(h, e.id())) by {
        lemma_state_ok(g, h, ps, e.id());
        lemma_kernel(g, items(h, e.id()), r);
    }
}
// the keys of the items with a symbol after the dot
pub open spec fn lists_irr(l: Seq<&GrammarItemKey>, m: Map<GrammarItemKey, TokenSet>) -> bool {
    &&& forall|b: int| 0 <= b < l.len() ==> m.dom().contains(*(#[trigger] l[b])) && !(*l[b]).red()
    &&& forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) && !i.red() ==> exists|b: int| 0 <= b < l.len() && *(#[trigger] l[b]) == i
}
pub open spec fn irr_keys(m: Map<GrammarItemKey, TokenSet>, ks: OrderedSet<GrammarItemKey>) -> bool {
    forall|k: GrammarItemKey| #[trigger] ks@.contains(k) <==> m.dom().contains(k) && !k.red()
}
pub proof fn lemma_lists_irr(l: Seq<&GrammarItemKey>, m: Map<GrammarItemKey, TokenSet>)
    ensures forall|ks: OrderedSet<GrammarItemKey>| #[trigger] irr_keys(m, ks) && lists(l, ks@) ==> lists_irr(l, m)
{
    assert forall|ks: OrderedSet<GrammarItemKey>| #[trigger] irr_keys(m, ks) && lists(l, ks@) implies lists_irr(l, m) by {
        assert forall|b: int| 0 <= b < l.len() implies m.dom().contains(*(#[trigger] l[b])) && !(*l[b]).red() by { assert(ks@.contains(*l[b])); }
        assert forall|i: GrammarItemKey| #[trigger] m.dom().contains(i) && !i.red() implies exists|b: int| 0 <= b < l.len() && *(#[trigger] l[b]) == i by { assert(ks@.contains(i)); }
    }
}
pub proof fn lemma_all_wanted(h: Cells, u: u32, l: Seq<&GrammarItemKey>, d: Set<Symbol>)
    requires lists_irr(l, items(h, u)), forall|b: int| 0 <= b < l.len() ==> d.contains((*(#[trigger] l[b])).next().unwrap())
    ensures forall|x: Symbol| #[trigger] wants(items(h, u), x) ==> d.contains(x)
{
    assert forall|x: Symbol| #[trigger] wants(items(h, u), x) implies d.contains(x) by {
        let i = choose|i: GrammarItemKey| #[trigger] items(h, u).dom().contains(i) && i.next() == Some(x);
        let b = choose|b: int| 0 <= b < l.len() && *(#[trigger] l[b]) == i;
        assert(d.contains((*l[b]).next().unwrap()));
    }
}
pub proof fn lemma_kernel_keys(g: Seq<Production>, m: Map<GrammarItemKey, TokenSet>, x: Symbol, k: Map<GrammarItemKey, TokenSet>)
    requires keys_ok(g, m), is_goto(m, x, k)
    ensures keys_ok(g, k)
{
    assert forall|i: GrammarItemKey| #[trigger] k.dom().contains(i) implies key_ok(g, i) by { assert(m.dom().contains(i.before())); assert(key_ok(g, i.before())); }
}
// the automaton with only the start state
pub proof fn lemma_first_state(g: Seq<Production>, h0: Cells, h: Cells, ps: Seq<ParserState>, k: Map<GrammarItemKey, TokenSet>, r: GrammarItemSet)
    requires
        g_ok(g), forall|id: u32| !#[trigger] h0.items.dom().contains(id),
        forall|x: GrammarItemKey| #[trigger] k.dom().contains(x) <==> x == item0(g[0]), k[item0(g[0])]@ == set![Token::End],
        is_closure(g, k, r@), keys_ok(g, r@), ps.len() == 1, ps[0].id() == 0, allocated(h0, h, 0, r),
    ensures states_ok(g, h, ps), all_settled(h, ps)
{
    lemma_start_state(g, k, r@);
    lemma_closure_closed(g, k, r@);
    assert(items(h, 0) == r@);
    assert(state_ok(g, h, 0));
    assert forall|c: int| 0 <= c < ps.len() implies (#[trigger] ps[c]).id() == c && state_ok(g, h, ps[c].id()) by { assert(c == 0); }
    assert forall|c: int| 0 <= c < ps.len() implies settled(h, ps, (#[trigger] ps[c]).id()) by { assert(c == 0); }
}
// ------------------------------------------------------------------ C12: what becomes of the conflicts
pub open spec fn state_resolved(h: Cells, h2: Cells, s: u32) -> bool {
    &&& h2.has(s)
    &&& exists|mid: Map<GrammarItemKey, TokenSet>|
            #[trigger] sr_resolved(items(h, s), h.shifts[s]@, mid, h2.shifts[s]@, h2.sr[s]@) && rr_resolved(mid, items(h2, s), h2.rr[s]@)
}
pub open spec fn untouched(h: Cells, h2: Cells, s: u32) -> bool {
    h2.has(s) && h2.items[s] == h.items[s] && h2.shifts[s] == h.shifts[s] && h2.sr[s] == h.sr[s] && h2.rr[s] == h.rr[s]
}
pub open spec fn resolved(h: Cells, h2: Cells, ps: Seq<ParserState>, n: int) -> bool {
    &&& h2.gotos == h.gotos && h2.recov == h.recov && h2.status == h.status
    &&& forall|c: int| 0 <= c < n ==> state_resolved(h, h2, (#[trigger] ps[c]).id())
    &&& forall|c: int| n <= c < ps.len() ==> untouched(h, h2, (#[trigger] ps[c]).id())
}
pub open spec fn fresh_state(h: Cells, ps: Seq<ParserState>, c: int) -> bool {
    ps[c].id() == c && h.has(ps[c].id()) && h.sr[ps[c].id()]@.len() == 0 && h.rr[ps[c].id()]@.len() == 0
}
pub open spec fn sum_sr(h: Cells, ps: Seq<ParserState>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { sum_sr(h, ps, n - 1) + h.sr[ps[n - 1].id()]@.len() }
}
pub open spec fn sum_rr(h: Cells, ps: Seq<ParserState>, n: int) -> nat
    decreases n
{
    if n <= 0 { 0 } else { sum_rr(h, ps, n - 1) + h.rr[ps[n - 1].id()]@.len() }
}
pub proof fn lemma_sums_same(h: Cells, h2: Cells, ps: Seq<ParserState>, n: int)
    requires 0 <= n <= ps.len(), forall|c: int| 0 <= c < n ==> h2.sr[(#[trigger] ps[c]).id()] == h.sr[ps[c].id()] && h2.rr[ps[c].id()] == h.rr[ps[c].id()]
    ensures sum_sr(h2, ps, n) == sum_sr(h, ps, n), sum_rr(h2, ps, n) == sum_rr(h, ps, n)
    decreases n
{
    if n > 0 { lemma_sums_same(h, h2, ps, n - 1); assert(h2.sr[ps[n - 1].id()] == h.sr[ps[n - 1].id()]); }
}
// TRUSTED: the lists of conflicts of all the states together hold fewer than 2^32 entries, as they are held in memory
#[verifier::external_body]
pub proof fn axiom_few_conflicts(h: &Heap, ps: Seq<ParserState>, n: int)
    ensures sum_sr(h@, ps, n) < 0x1_0000_0000, sum_rr(h@, ps, n) < 0x1_0000_0000
{ }
// TRUSTED: there are fewer than 2^30 states
#[verifier::external_body]
pub proof fn axiom_few_states(v: Vec<ParserState>)
    ensures v@.len() < 0x4000_0000
{ }
pub open spec fn room(hb: Cells, ps: Seq<ParserState>, b: int, h: Cells) -> bool {
    sum_sr(hb, ps, b) + h.sr[ps[b].id()]@.len() < 0x1_0000_0000 && sum_rr(hb, ps, b) + h.rr[ps[b].id()]@.len() < 0x1_0000_0000
}
pub proof fn lemma_room(hb: Cells, ps: Seq<ParserState>, b: int)
    requires 0 <= b < ps.len(), forall|c: int| 0 <= c <= b ==> (#[trigger] ps[c]).id() == c
    ensures
        forall|h: &Heap| (forall|s: u32| s != ps[b].id() ==> #[trigger] h@.sr[s] == hb.sr[s]) && (forall|s: u32| s != ps[b].id() ==> #[trigger] h@.rr[s] == hb.rr[s])
            ==> room(hb, ps, b, #[trigger] h@),
{
    assert forall|h: &Heap| (forall|s: u32| s != ps[b].id() ==> #[trigger] h@.sr[s] == hb.sr[s]) && (forall|s: u32| s != ps[b].id() ==> #[trigger] h@.rr[s] == hb.rr[s])
        implies room(hb, ps, b, #[trigger] h@) by {
        axiom_few_conflicts(h, ps, b + 1);
        lemma_sums_same(hb, h@, ps, b);
    }
}
pub proof fn lemma_resolved_step(h0: Cells, hb: Cells, h: Cells, ps: Seq<ParserState>, b: int)
    requires
        0 <= b < ps.len(), forall|c: int| 0 <= c < ps.len() ==> fresh_state(h0, ps, c), resolved(h0, hb, ps, b),
        h == (Cells { items: hb.items.insert(ps[b].id(), h.items[ps[b].id()]), shifts: hb.shifts.insert(ps[b].id(), h.shifts[ps[b].id()]), sr: hb.sr.insert(ps[b].id(), h.sr[ps[b].id()]), rr: hb.rr.insert(ps[b].id(), h.rr[ps[b].id()]), ..hb }),
        state_resolved(hb, h, ps[b].id()),
    ensures
        resolved(h0, h, ps, b + 1),
        sum_sr(h, ps, b + 1) == sum_sr(hb, ps, b) + h.sr[ps[b].id()]@.len(),
        sum_rr(h, ps, b + 1) == sum_rr(hb, ps, b) + h.rr[ps[b].id()]@.len(),
{
    assert(fresh_state(h0, ps, b));
    let id = ps[b].id();
    assert(untouched(h0, hb, id));
    assert forall|c: int| 0 <= c < ps.len() && c != b implies (#[trigger] ps[c]).id() != id && ps[c].id() == c by { assert(fresh_state(h0, ps, c)); }
    lemma_sums_same(hb, h, ps, b);
    assert forall|c: int| 0 <= c < b + 1 implies state_resolved(h0, h, (#[trigger] ps[c]).id()) by {
        let s = ps[c].id();
        if c < b {
            assert(state_resolved(h0, hb, s));
            let mid = choose|mid: Map<GrammarItemKey, TokenSet>| #[trigger] sr_resolved(items(h0, s), h0.shifts[s]@, mid, hb.shifts[s]@, hb.sr[s]@) && rr_resolved(mid, items(hb, s), hb.rr[s]@);
            assert(sr_resolved(items(h0, s), h0.shifts[s]@, mid, h.shifts[s]@, h.sr[s]@));
        } else {
            let mid = choose|mid: Map<GrammarItemKey, TokenSet>| #[trigger] sr_resolved(items(hb, s), hb.shifts[s]@, mid, h.shifts[s]@, h.sr[s]@) && rr_resolved(mid, items(h, s), h.rr[s]@);
            assert(sr_resolved(items(h0, s), h0.shifts[s]@, mid, h.shifts[s]@, h.sr[s]@));
        }
    }
    assert forall|c: int| b + 1 <= c < ps.len() implies untouched(h0, h, (#[trigger] ps[c]).id()) by { assert(untouched(h0, hb, ps[c].id())); }
}
pub proof fn lemma_fresh_states(g: Seq<Production>, h: Cells, ps: Seq<ParserState>)
    requires states_ok(g, h, ps)
    ensures forall|c: int| 0 <= c < ps.len() ==> fresh_state(h, ps, c)
{
    assert forall|c: int| 0 <= c < ps.len() implies fresh_state(h, ps, c) by { assert(state_ok(g, h, ps[c].id())); }
}
// C11, C12: the automaton with its conflicts resolved
pub open spec fn built(g: Seq<Production>, h2: Cells, ps: Seq<ParserState>, sr: u32, rr: u32) -> bool {
    &&& exists|h: Cells| #[trigger] lalr(g, h, ps) && resolved(h, h2, ps, ps.len() as int)
    &&& sr == sum_sr(h2, ps, ps.len() as int)
    &&& rr == sum_rr(h2, ps, ps.len() as int)
}
// C13: conflicts are reported unless their number is expected or they are ignored
pub open spec fn verdict(arg: (Specification, bool, bool), r: Result<Grammar, Error>, ps: Seq<ParserState>, sr: u32, rr: u32) -> bool {
    if !arg.1 && sr != arg.0.expected_sr_conflicts {
        r matches Err(Error::UnexpectedSRConflicts(n, e, _)) && n == sr && e == arg.0.expected_sr_conflicts
    } else if !arg.2 && rr != arg.0.expected_rr_conflicts {
        r matches Err(Error::UnexpectedRRConflicts(n, e, _)) && n == rr && e == arg.0.expected_rr_conflicts
    } else {
        r matches Ok(g) && g.specification == arg.0 && g.parser_states@ == ps
    }
}
// C18: the error recovery states
pub open spec fn recovers_in(h: Cells, n: u32, t: Token) -> bool { h.recov[n] matches Some(s) && recovers_on(items(h, s.id()), t) }
// ------------------------------------------------------------------ C13: what is required of a specification
pub open spec fn undef(n: NonTerminal) -> bool { n matches NonTerminal::UserDefined(d) && d.defined_at@.len() == 0 }
pub open spec fn nt_unused(n: NonTerminal) -> bool {
    match n { NonTerminal::UserDefined(d) => d.used_at@.len() == 0, NonTerminal::Error(d) => d.used_at@.len() == 0, NonTerminal::Start(d) => d.used_at@.len() == 0 }
}
pub open spec fn in_table(t: SymbolTable, n: NonTerminal) -> bool { exists|k: Str| #[trigger] t.non_terminals@.dom().contains(k) && t.non_terminals@[k] == n }
pub open spec fn all_defined(t: SymbolTable) -> bool { forall|k: Str| #[trigger] t.non_terminals@.dom().contains(k) ==> !undef(t.non_terminals@[k]) }
pub open spec fn spec_ok(s: Specification) -> bool {
    // a non terminal of the table has been defined or used, and one without errors is a grammar
    &&& forall|n: NonTerminal| #[trigger] in_table(s.symbol_table, n) ==> n is UserDefined && (nt_unused(n) ==> !undef(n))
    &&& all_defined(s.symbol_table) && s.error_count == 0 ==> g_ok(s.productions@)
}
impl Tag {
    #[verifier::external_body]
    pub fn is_unused(&self) -> bool { unimplemented!() }
    #[verifier::external_body]
    pub fn name(&self) -> &Str { unimplemented!() }
    #[verifier::external_body]
    pub fn defined_at(&self) -> &Location { unimplemented!() }
}
impl Grammar {
    // text for the messages
    #[verifier::external_body]
    pub fn describe_sr_conflict_states(&self) -> Str { unimplemented!() }
    #[verifier::external_body]
    pub fn describe_rr_conflict_states(&self) -> Str { unimplemented!() }
}
@end
