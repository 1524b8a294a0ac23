# Contracts for the lexan crate
@source lexan/src/error.rs error
@source lexan/src/matcher.rs matcher
@source lexan/src/lexicon.rs lexicon
@source lexan/src/analyzer.rs analyzer
@source lexan/src/lib.rs lib
@strip T
@keeplt LexanError
@opts intoiter
@include prelude.vc
@raw
broadcast use {axiom_str, axiom_vsorted_short};

// the type of token tags: any type with a lawful equality
#[derive(Clone, Copy, PartialEq, Eq, Structural)]
pub struct T { pub id: u64 }

// ------------------------------------------------------------------ UTF-8 lemmas
pub proof fn lemma_utf8_prefix(a: Seq<u8>, b: Seq<u8>)
    requires utf8(a), utf8(b), a.len() <= b.len(), a == b.take(a.len() as int)
    ensures bound(b, a.len() as int)
    decreases a.len()
{
    if a.len() == 0 {
    } else {
        assert(a[0] == b[0]);
        let w = width(a[0]);
        let a2 = a.skip(w);
        let b2 = b.skip(w);
        assert(a2 =~= b2.take(a2.len() as int));
        lemma_utf8_prefix(a2, b2);
        if a.len() < b.len() {
            assert(b[a.len() as int] == b2[a2.len() as int]);
            if a2.len() == 0 {
                assert(b2.len() > 0);
                assert(width(b2[0]) >= 1);
            }
        }
    }
}
pub proof fn lemma_utf8_first(s: Seq<u8>)
    requires utf8(s), s.len() > 0
    ensures !cont(s[0])
{
}
// the position after an ASCII byte is a boundary
pub proof fn lemma_ascii_bound(s: Seq<u8>, j: int)
    requires utf8(s), 0 <= j < s.len(), s[j] < 0x80
    ensures bound(s, j + 1), bound(s, j)
    decreases s.len()
{
    let w = width(s[0]);
    if j >= w {
        let s2 = s.skip(w);
        assert(s2[j - w] == s[j]);
        lemma_ascii_bound(s2, j - w);
        if j + 1 < s.len() {
            assert(s2[j + 1 - w] == s[j + 1]);
        }
    } else {
        assert(j == 0);
        if s.len() > 1 {
            assert(s.skip(1)[0] == s[1]);
            lemma_utf8_first(s.skip(1));
        }
    }
}
pub proof fn lemma_bound_skip(s: Seq<u8>, a: int, i: int)
    requires 0 <= a <= s.len(), 0 <= i <= s.len() - a
    ensures bound(s, a) && bound(s.skip(a), i) ==> bound(s, a + i),
        bound(s, a + i) ==> bound(s.skip(a), i)
{
    if 0 < i < s.len() - a {
        assert(s.skip(a)[i] == s[a + i]);
    }
}
@end

# ---------------------------------------------------------------- regex engine (assumed)
@raw
// What the regex engine finds: leftmost match (start, end) of a pattern in a text
pub uninterp spec fn rx_find(pat: Seq<u8>, text: Seq<u8>) -> Option<(int, int)>;
// The user's notion: the match of the pattern that begins at the start of the text (its end)
pub uninterp spec fn rx_at0(pat: Seq<u8>, text: Seq<u8>) -> Option<int>;
pub open spec fn rx_ok(pat: Seq<u8>) -> bool { rx_compiles(pat) }
pub uninterp spec fn rx_compiles(pat: Seq<u8>) -> bool;
pub open spec fn anch() -> Seq<u8> { seq![92u8, 65u8] }
pub open spec fn ganch() -> Seq<u8> { seq![92u8, 65u8, 40u8, 63u8, 58u8] }
// `\A` + pattern, and `\A(?:` + pattern + `)`: a match that starts at 0 is the pattern's match there
#[verifier::external_body]
pub proof fn axiom_rx(p: Seq<u8>, text: Seq<u8>)
    ensures
        rx_compiles(p) ==> match rx_find(p, text) { Some((s, e)) => (s == 0 ==> rx_at0(p, text) == Some(e)) && (s != 0 ==> rx_at0(p, text).is_none()), None => rx_at0(p, text).is_none() },
        rx_compiles(p) ==> match rx_find(anch() + p, text) { Some((s, e)) => (s == 0 ==> rx_at0(p, text) == Some(e)) && (s != 0 ==> rx_at0(p, text).is_none()), None => rx_at0(p, text).is_none() },
        rx_compiles(p) && rx_compiles(ganch() + p + seq![41u8]) ==> match rx_find(ganch() + p + seq![41u8], text) { Some((s, e)) => s == 0 && rx_at0(p, text) == Some(e), None => rx_at0(p, text).is_none() },
{ unimplemented!() }
#[verifier::external_body]
pub proof fn axiom_rx_compiles(p: Seq<u8>)
    ensures rx_compiles(p) ==> rx_compiles(anch() + p),
{ unimplemented!() }
#[verifier::external_body]
pub struct Regex { r: u8 }
#[verifier::external_body]
pub struct RegexErr { r: u8 }
#[verifier::external_body]
pub struct Match { r: u8 }
impl Match {
    pub uninterp spec fn s(&self) -> int;
    pub uninterp spec fn e(&self) -> int;
    #[verifier::external_body]
    pub fn start(&self) -> (r: usize) ensures r == self.s() { unimplemented!() }
    #[verifier::external_body]
    pub fn end(&self) -> (r: usize) ensures r == self.e() { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self.e() - self.s() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self.s() == self.e()) { unimplemented!() }
}
impl Regex {
    pub uninterp spec fn pat(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn new(p: &Str) -> (r: Result<Regex, RegexErr>)
        ensures match r { Ok(x) => x.pat() == p@ && rx_compiles(p@), Err(_) => !rx_compiles(p@) }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn find(&self, text: &Str) -> (r: Option<Match>)
        ensures match r {
            Some(m) => rx_find(self.pat(), text@) == Some((m.s(), m.e())) && 0 <= m.s() <= m.e() <= text@.len() && bound(text@, m.s()) && bound(text@, m.e()),
            None => rx_find(self.pat(), text@).is_none(),
        }
    { unimplemented!() }
}
impl RegexErr {
    #[verifier::external_body]
    pub fn vfrom_err<'a>(self) -> (r: LexanError<'a>) ensures r is RegexError { unimplemented!() }
}
@end
@map regex::Error=RegexErr
@type LexanError
@type LiteralMatcherNode
@type LiteralMatcher
@type RegexMatcher
@type SkipMatcher
@type Lexicon

@raw
// ------------------------------------------------------------------ literals: the trie
pub open spec fn at(n: LiteralMatcherNode, s: Seq<u8>) -> Option<LiteralMatcherNode>
    decreases s.len()
{
    if s.len() == 0 { Some(n) }
    else if n.tails@.dom().contains(s[0]) { at(n.tails@[s[0]], s.skip(1)) }
    else { None }
}
pub open spec fn at_tag(n: LiteralMatcherNode, s: Seq<u8>) -> Option<T> {
    match at(n, s) { Some(x) => x.tag, None => None }
}
// every tagged node records the length of its literal
pub open spec fn lens(n: LiteralMatcherNode, d: int) -> bool {
    forall|s: Seq<u8>| (#[trigger] at_tag(n, s)).is_some() ==> at(n, s).unwrap().length == d + s.len()
}
pub open spec fn lit_node(m: Map<u8, LiteralMatcherNode>, s: Seq<u8>) -> Option<LiteralMatcherNode> {
    if s.len() > 0 && m.dom().contains(s[0]) { at(m[s[0]], s.skip(1)) } else { None }
}
// the tag of the literal `s`, if it is one
pub open spec fn lit_tag(m: Map<u8, LiteralMatcherNode>, s: Seq<u8>) -> Option<T> {
    match lit_node(m, s) { Some(x) => x.tag, None => None }
}
pub open spec fn lit_wf(m: Map<u8, LiteralMatcherNode>) -> bool {
    &&& (forall|b: u8| m.dom().contains(b) ==> lens(#[trigger] m[b], 1))
    &&& (forall|s: Seq<u8>| (#[trigger] lit_tag(m, s)).is_some() ==> utf8(s))
}
// the longest literal that the first n bytes of text begin with
pub open spec fn lit_best(m: Map<u8, LiteralMatcherNode>, text: Seq<u8>, n: int) -> Option<(T, int)>
    decreases n
{
    if n <= 0 { None }
    else if lit_tag(m, text.take(n)).is_some() { Some((lit_tag(m, text.take(n)).unwrap(), n)) }
    else { lit_best(m, text, n - 1) }
}
pub proof fn lemma_lit_best(m: Map<u8, LiteralMatcherNode>, text: Seq<u8>, n: int)
    requires 0 <= n <= text.len(), lit_wf(m)
    ensures
        match lit_best(m, text, n) {
            Some((t, k)) => 0 < k <= n && lit_tag(m, text.take(k)) == Some(t) && (forall|j: int| k < j <= n ==> (#[trigger] lit_tag(m, text.take(j))).is_none()),
            None => forall|j: int| 0 < j <= n ==> (#[trigger] lit_tag(m, text.take(j))).is_none(),
        }
    decreases n
{
    if n > 0 && lit_tag(m, text.take(n)).is_none() { lemma_lit_best(m, text, n - 1); }
}
pub proof fn lemma_lit_best_bound(m: Map<u8, LiteralMatcherNode>, text: Seq<u8>)
    requires lit_wf(m), utf8(text)
    ensures match lit_best(m, text, text.len() as int) { Some((t, k)) => bound(text, k) && 0 < k <= text.len(), None => true }
{
    lemma_lit_best(m, text, text.len() as int);
    if let Some((t, k)) = lit_best(m, text, text.len() as int) {
        lemma_utf8_prefix(text.take(k), text);
    }
}
// going down one byte at a time
pub proof fn lemma_lit_node_step(m: Map<u8, LiteralMatcherNode>, text: Seq<u8>, k: int)
    requires 0 <= k < text.len()
    ensures
        lit_node(m, text.take(k + 1)) == (if k == 0 {
            if m.dom().contains(text[0]) { Some(m[text[0]]) } else { None }
        } else {
            match lit_node(m, text.take(k)) {
                Some(n) => if n.tails@.dom().contains(text[k]) { Some(n.tails@[text[k]]) } else { None },
                None => None,
            }
        })
{
    let a = text.take(k + 1);
    assert(a[0] == text[0]);
    if k == 0 {
        assert(a.skip(1) =~= Seq::<u8>::empty());
    } else {
        let b = text.take(k);
        assert(b[0] == text[0]);
        assert(a.skip(1) =~= b.skip(1).push(text[k]));
        if m.dom().contains(text[0]) {
            lemma_at_push(m[text[0]], b.skip(1), text[k]);
        }
    }
}
pub proof fn lemma_at_push(n: LiteralMatcherNode, s: Seq<u8>, b: u8)
    ensures at(n, s.push(b)) == (match at(n, s) { Some(x) => if x.tails@.dom().contains(b) { Some(x.tails@[b]) } else { None }, None => None })
    decreases s.len()
{
    let p = s.push(b);
    if s.len() == 0 {
        assert(p.skip(1) =~= Seq::<u8>::empty());
        assert(p[0] == b);
        if n.tails@.dom().contains(b) {
            assert(at(n.tails@[b], p.skip(1)) == Some(n.tails@[b]));
        }
    } else {
        assert(p[0] == s[0]);
        assert(p.skip(1) =~= s.skip(1).push(b));
        if n.tails@.dom().contains(s[0]) {
            lemma_at_push(n.tails@[s[0]], s.skip(1), b);
        }
    }
}
// no literal begins with text.take(k) when there is no node there
pub proof fn lemma_lit_dead(m: Map<u8, LiteralMatcherNode>, text: Seq<u8>, k: int, j: int)
    requires 0 < k <= j <= text.len(), lit_node(m, text.take(k)).is_none()
    ensures lit_node(m, text.take(j)).is_none()
    decreases j - k
{
    if j > k {
        lemma_lit_dead(m, text, k, j - 1);
        lemma_lit_node_step(m, text, j - 1);
    }
}
@end

@raw
pub proof fn lemma_at_unfold(n: LiteralMatcherNode, s: Seq<u8>)
    requires s.len() > 0
    ensures
        at_tag(n, s) == (if n.tails@.dom().contains(s[0]) { at_tag(n.tails@[s[0]], s.skip(1)) } else { None::<T> }),
        at(n, s) == (if n.tails@.dom().contains(s[0]) { at(n.tails@[s[0]], s.skip(1)) } else { None::<LiteralMatcherNode> }),
{
}
pub proof fn lemma_skip_eq(x: Seq<u8>, s: Seq<u8>)
    requires s.len() > 0, x.len() > 0, s[0] == x[0]
    ensures s.skip(1) == x.skip(1) <==> s == x
{
    if s.skip(1) == x.skip(1) {
        assert(s.len() == s.skip(1).len() + 1);
        assert(x.len() == x.skip(1).len() + 1);
        assert forall|i: int| 0 <= i < s.len() implies s[i] == x[i] by {
            if i > 0 { assert(s.skip(1)[i - 1] == x.skip(1)[i - 1]); }
        }
        assert(s =~= x);
    }
}
@end
@fn LiteralMatcherNode::new
%requires
    s_index <= string@.len(), string@.len() > 0,
%ensures
    forall|s: Seq<u8>| #[trigger] at_tag(r, s) == (if s == string@.skip(s_index as int) { Some(tag) } else { None::<T> }),
    lens(r, s_index as int),
%decreases
    string@.len() - s_index
%at result:
    proof {
        let x = string@.skip(s_index as int);
        assert forall|s: Seq<u8>| #[trigger] at_tag(__ret, s) == (if s == x { Some(tag) } else { None::<T> })
            && (at_tag(__ret, s).is_some() ==> at(__ret, s).unwrap().length == s_index + s.len()) by {
            if s.len() > 0 {
                lemma_at_unfold(__ret, s);
                if x.len() > 0 {
                    assert(x.skip(1) =~= string@.skip(s_index as int + 1));
                    if s[0] == x[0] {
                        lemma_skip_eq(x, s);
                        let c = __ret.tails@[s[0]];
                        assert(at_tag(c, s.skip(1)) == (if s.skip(1) == x.skip(1) { Some(tag) } else { None::<T> }));
                    }
                }
            } else {
                if x.len() == 0 { assert(s =~= x); }
            }
        }
    }
@fn LiteralMatcherNode::add
%requires
    s_index <= string@.len(), string@.len() > 0, lens(*old(self), s_index as int),
%ensures
    match r {
        Ok(_) => at_tag(*old(self), string@.skip(s_index as int)).is_none()
            && (forall|s: Seq<u8>| #[trigger] at_tag(*final(self), s) == (if s == string@.skip(s_index as int) { Some(tag) } else { at_tag(*old(self), s) }))
            && lens(*final(self), s_index as int),
        Err(e) => at_tag(*old(self), string@.skip(s_index as int)).is_some() && e == LexanError::DuplicatePattern(string),
    }
%decreases
    string@.len() - s_index
%at start:
    let ghost x = string@.skip(s_index as int);
    proof {
        if x.len() > 0 {
            assert(x.skip(1) =~= string@.skip(s_index as int + 1));
            lemma_at_unfold(*self, x);
            assert(x[0] == string@[s_index as int]);
        } else { assert(x =~= Seq::<u8>::empty()); }
        if x.len() > 0 && self.tails@.dom().contains(x[0]) {
            let c = self.tails@[x[0]];
            assert forall|s: Seq<u8>| (#[trigger] at_tag(c, s)).is_some() implies at(c, s).unwrap().length == s_index + 1 + s.len() by {
                let p = seq![x[0]] + s;
                assert(p.skip(1) =~= s);
                lemma_at_unfold(*self, p);
                assert(at_tag(*self, p).is_some());
            }
            assert(lens(c, s_index + 1));
        }
    }
%at result:
    proof {
        assert forall|s: Seq<u8>| #[trigger] at_tag(*self, s) == (if s == x { Some(tag) } else { at_tag(*old(self), s) })
            && (at_tag(*self, s).is_some() ==> at(*self, s).unwrap().length == s_index + s.len()) by {
            if s.len() > 0 {
                lemma_at_unfold(*self, s);
                lemma_at_unfold(*old(self), s);
                if x.len() > 0 {
                    if s[0] == x[0] {
                        lemma_skip_eq(x, s);
                        let c = self.tails@[s[0]];
                        let t = at_tag(c, s.skip(1));
                        assert(old(self).tails@.dom().contains(x[0]) ==> lens(c, s_index + 1));
                        if !old(self).tails@.dom().contains(x[0]) {
                            assert(t == (if s.skip(1) == string@.skip(s_index as int + 1) { Some(tag) } else { None::<T> }));
                        }
                    } else {
                        assert(at_tag(*old(self), s).is_some() ==> at(*old(self), s).unwrap().length == s_index + s.len());
                    }
                } else {
                    assert(at_tag(*old(self), s).is_some() ==> at(*old(self), s).unwrap().length == s_index + s.len());
                }
            } else {
                assert(at_tag(*old(self), s).is_some() ==> at(*old(self), s).unwrap().length == s_index + s.len());
                if x.len() == 0 { assert(s =~= x); }
            }
        }
    }

@raw
pub open spec fn dv(l: Seq<(T, &Str)>) -> Seq<(T, Seq<u8>)> { Seq::new(l.len(), |i: int| (l[i].0, l[i].1@)) }
pub open spec fn sv(l: Seq<&Str>) -> Seq<Seq<u8>> { Seq::new(l.len(), |i: int| l[i]@) }
// the tag that the definitions give the literal s
pub open spec fn lit_def(d: Seq<(T, Seq<u8>)>, s: Seq<u8>) -> Option<T>
    decreases d.len()
{
    if d.len() == 0 { None } else if d.last().1 == s { Some(d.last().0) } else { lit_def(d.drop_last(), s) }
}
pub proof fn lemma_lit_def(d: Seq<(T, Seq<u8>)>, s: Seq<u8>)
    ensures
        lit_def(d, s).is_some() <==> exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).1 == s,
    decreases d.len()
{
    if d.len() > 0 {
        lemma_lit_def(d.drop_last(), s);
        if lit_def(d, s).is_some() {
            if d.last().1 == s { assert(d[d.len() - 1].1 == s); }
            else {
                let i = choose|i: int| 0 <= i < d.drop_last().len() && (#[trigger] d.drop_last()[i]).1 == s;
                assert(d[i].1 == s);
            }
        }
        if exists|i: int| 0 <= i < d.len() && (#[trigger] d[i]).1 == s {
            let i = choose|i: int| 0 <= i < d.len() && (#[trigger] d[i]).1 == s;
            if i < d.len() - 1 { assert(d.drop_last()[i].1 == s); }
        }
    }
}
pub open spec fn pats_distinct(d: Seq<(T, Seq<u8>)>) -> bool {
    forall|i: int, j: int| 0 <= i < j < d.len() ==> (#[trigger] d[i]).1 != (#[trigger] d[j]).1
}
pub open spec fn pats_nonempty(d: Seq<(T, Seq<u8>)>) -> bool {
    forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).1.len() > 0
}
pub open spec fn lits_are(m: Map<u8, LiteralMatcherNode>, d: Seq<(T, Seq<u8>)>) -> bool {
    forall|s: Seq<u8>| #[trigger] lit_tag(m, s) == lit_def(d, s)
}
@end
@fn LiteralMatcher::new
%ensures
    match r {
        Ok(x) => pats_nonempty(dv(lexemes@)) && pats_distinct(dv(lexemes@)) && lits_are(x.lexemes@, dv(lexemes@)) && lit_wf(x.lexemes@),
        Err(LexanError::EmptyPattern(_)) => !pats_nonempty(dv(lexemes@)),
        Err(LexanError::DuplicatePattern(_)) => !pats_distinct(dv(lexemes@)),
        Err(_) => false,
    }
%at start:
    let ghost d = dv(lexemes@);
%at loop 1 before:
    proof { assert(lits_are(lexes@, d.take(0))) by {
        assert forall|s: Seq<u8>| #[trigger] lit_tag(lexes@, s) == lit_def(d.take(0), s) by {} } }
%loop 1 invariant
    __i1 <= __it1@.len(), d == dv(lexemes@), __it1@.len() == d.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == lexemes@[i],
    lits_are(lexes@, d.take(__i1 as int)), lit_wf(lexes@),
    pats_nonempty(d.take(__i1 as int)), pats_distinct(d.take(__i1 as int)),
%loop 1 decreases
    __it1@.len() - __i1
%at loop 1 body:
    let ghost pre = lexes@;
    let ghost n = __i1 - 1;
    proof {
        assert(pattern@ == d[n].1);
        assert(tag == d[n].0);
        assert(d.take(n + 1).drop_last() =~= d.take(n));
    }
%at before let key:
    proof {
        let p = pattern@;
        assert(p.len() > 0);
        lemma_lit_def(d.take(n), p);
    }
%at let key:
    proof {
        assert(key == pattern@[0]);
        if pre.dom().contains(key) {
            let c = pre[key];
            assert(lens(c, 1));
            // an error of add means that the pattern is there already
            assert(at_tag(c, pattern@.skip(1)) == lit_tag(pre, pattern@));
            if lit_tag(pre, pattern@).is_some() {
                let i = choose|i: int| 0 <= i < d.take(n).len() && (#[trigger] d.take(n)[i]).1 == pattern@;
                assert(d[i].1 == d[n].1);
                assert(!pats_distinct(d));
            }
        } else {
            assert(lit_tag(pre, pattern@).is_none());
        }
    }
%at loop 1 end:
    proof {
        let p = pattern@;
        let d1 = d.take(n + 1);
        assert(lit_tag(pre, p).is_none());
        assert forall|s: Seq<u8>| #[trigger] lit_tag(lexes@, s) == lit_def(d1, s) by {
            assert(d1.last() == d[n]);
            assert(lit_tag(pre, s) == lit_def(d.take(n), s));
            if s.len() > 0 && s[0] == p[0] {
                lemma_skip_eq(p, s);
                assert(lit_tag(lexes@, s) == at_tag(lexes@[s[0]], s.skip(1)));
            }
        }
        assert forall|b: u8| lexes@.dom().contains(b) implies lens(#[trigger] lexes@[b], 1) by {
            if b != p[0] { assert(lexes@[b] == pre[b]); }
        }
        assert forall|s: Seq<u8>| (#[trigger] lit_tag(lexes@, s)).is_some() implies utf8(s) by {
            assert(lit_tag(lexes@, s) == lit_def(d1, s));
            assert(lit_tag(pre, s) == lit_def(d.take(n), s));
            assert(s != p ==> lit_def(d1, s) == lit_tag(pre, s));
        }
        assert forall|i: int, j: int| 0 <= i < j < d1.len() implies (#[trigger] d1[i]).1 != (#[trigger] d1[j]).1 by {
            if j == n {
                if d1[i].1 == d1[j].1 {
                    assert(d.take(n)[i].1 == p);
                }
            } else { assert(d.take(n)[i].1 != d.take(n)[j].1); }
        }
        assert forall|i: int| 0 <= i < d1.len() implies (#[trigger] d1[i]).1.len() > 0 by {
            if i < n { assert(d.take(n)[i].1.len() > 0); }
        }
    }
%at result:
    proof {
        assert(d.take(d.len() as int) =~= d);
    }
%at ret 1:
    proof { assert(d[n].1.len() == 0); }

@fn LiteralMatcher::longest_match
%requires
    lit_wf(self.lexemes@),
%ensures
    match r {
        Some((t, k)) => lit_best(self.lexemes@, string@, string@.len() as int) == Some((t, k as int)),
        None => lit_best(self.lexemes@, string@, string@.len() as int).is_none(),
    }
%at start:
    let ghost m = self.lexemes@;
    let ghost s = string@;
%at loop 1 before:
    proof { reveal_with_fuel(lit_best, 2); }
%loop 1 invariant_except_break
    __i1 == 0 ==> lexemes@ == m,
    __i1 > 0 ==> lit_node(m, s.take(__i1 as int)).is_some() && lexemes@ == lit_node(m, s.take(__i1 as int)).unwrap().tails@,
    match rval { Some((t, k)) => lit_best(m, s, __i1 as int) == Some((t, k as int)), None => lit_best(m, s, __i1 as int).is_none() },
%loop 1 invariant
    __i1 <= s.len(), s == string@, m == self.lexemes@, lit_wf(m), __it1@.len() == s.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == s[i],
%loop 1 ensures
    match rval { Some((t, k)) => lit_best(m, s, s.len() as int) == Some((t, k as int)), None => lit_best(m, s, s.len() as int).is_none() },
%loop 1 decreases
    s.len() - __i1
%at loop 1 start:
    proof {
        let k = __i1 - 1;
        lemma_lit_node_step(m, s, k);
        reveal_with_fuel(lit_best, 2);
        if !lexemes@.dom().contains(s[k]) {
            assert forall|j: int| k < j <= s.len() implies (#[trigger] lit_tag(m, s.take(j))).is_none() by {
                lemma_lit_dead(m, s, k + 1, j);
            }
            lemma_lit_best_const(m, s, k, s.len() as int);
        } else {
            let nd = lit_node(m, s.take(k + 1)).unwrap();
            lemma_lens(m, s.take(k + 1));
        }
    }

@fn LiteralMatcher::matches
%requires
    lit_wf(self.lexemes@),
%ensures
    r == lit_best(self.lexemes@, string@, string@.len() as int).is_some(),
%at start:
    let ghost m = self.lexemes@;
    let ghost s = string@;
    proof { lemma_lit_best(m, s, s.len() as int); }
%loop 1 invariant_except_break
    __i1 == 0 ==> lexemes@ == m,
    __i1 > 0 ==> lit_node(m, s.take(__i1 as int)).is_some() && lexemes@ == lit_node(m, s.take(__i1 as int)).unwrap().tails@,
    forall|j: int| 0 < j <= __i1 ==> (#[trigger] lit_tag(m, s.take(j))).is_none(),
%loop 1 invariant
    __i1 <= s.len(), s == string@, m == self.lexemes@, lit_wf(m), __it1@.len() == s.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == s[i],
    match lit_best(m, s, s.len() as int) {
        Some((t, k)) => 0 < k <= s.len() && lit_tag(m, s.take(k)) == Some(t),
        None => forall|j: int| 0 < j <= s.len() ==> (#[trigger] lit_tag(m, s.take(j))).is_none(),
    },
%loop 1 ensures
    forall|j: int| 0 < j <= s.len() ==> (#[trigger] lit_tag(m, s.take(j))).is_none(),
%loop 1 decreases
    s.len() - __i1
%at loop 1 start:
    proof {
        let k = __i1 - 1;
        lemma_lit_node_step(m, s, k);
        if !lexemes@.dom().contains(s[k]) {
            assert forall|j: int| k < j <= s.len() implies (#[trigger] lit_tag(m, s.take(j))).is_none() by {
                lemma_lit_dead(m, s, k + 1, j);
            }
        } else {
            assert(lit_tag(m, s.take(k + 1)) == lexemes@[s[k]].tag);
        }
    }
@raw
pub proof fn lemma_lit_best_const(m: Map<u8, LiteralMatcherNode>, s: Seq<u8>, k: int, n: int)
    requires 0 <= k <= n <= s.len(), forall|j: int| k < j <= n ==> (#[trigger] lit_tag(m, s.take(j))).is_none()
    ensures lit_best(m, s, n) == lit_best(m, s, k)
    decreases n - k
{
    if n > k { lemma_lit_best_const(m, s, k, n - 1); }
}
pub proof fn lemma_lens(m: Map<u8, LiteralMatcherNode>, s: Seq<u8>)
    requires lit_wf(m), s.len() > 0
    ensures lit_tag(m, s).is_some() ==> lit_node(m, s).unwrap().length == s.len()
{
    if lit_tag(m, s).is_some() {
        assert(at_tag(m[s[0]], s.skip(1)).is_some());
    }
}
@end

# ================================================================ regexes
@raw
// length of the non empty match that the compiled regex finds at the very start of the text (0: none)
pub open spec fn crx(r: Regex, text: Seq<u8>) -> int {
    match rx_find(r.pat(), text) {
        Some((s, e)) => if s == 0 && 0 < e <= text.len() && bound(text, e) { e } else { 0 },
        None => 0,
    }
}
// the same, for the pattern as the user wrote it
pub open spec fn urx(p: Seq<u8>, text: Seq<u8>) -> int {
    match rx_at0(p, text) {
        Some(e) => if 0 < e <= text.len() && bound(text, e) { e } else { 0 },
        None => 0,
    }
}
pub open spec fn recognises(r: Regex, p: Seq<u8>) -> bool {
    forall|text: Seq<u8>| #[trigger] crx(r, text) == urx(p, text)
}
pub proof fn lemma_recognises(r: Regex, p: Seq<u8>)
    requires rx_compiles(p), r.pat() == p || r.pat() == anch() + p || (r.pat() == ganch() + p + seq![41u8] && rx_compiles(r.pat()))
    ensures recognises(r, p)
{
    assert forall|text: Seq<u8>| #[trigger] crx(r, text) == urx(p, text) by { axiom_rx(p, text); }
}
pub open spec fn rx_max(l: Seq<(T, Regex)>, text: Seq<u8>, k: int) -> int
    decreases k
{
    if k <= 0 { 0 } else {
        let a = rx_max(l, text, k - 1);
        let b = crx(l[k - 1].1, text);
        if b > a { b } else { a }
    }
}
pub open spec fn rx_tags(l: Seq<(T, Regex)>, text: Seq<u8>, k: int, m: int) -> Seq<T>
    decreases k
{
    if k <= 0 || m <= 0 { Seq::empty() }
    else if crx(l[k - 1].1, text) == m { rx_tags(l, text, k - 1, m).push(l[k - 1].0) }
    else { rx_tags(l, text, k - 1, m) }
}
pub proof fn lemma_rx_tags_above(l: Seq<(T, Regex)>, text: Seq<u8>, k: int, m: int)
    requires m > rx_max(l, text, k)
    ensures rx_tags(l, text, k, m) == Seq::<T>::empty()
    decreases k
{
    if k > 0 { lemma_rx_tags_above(l, text, k - 1, m); }
}
pub proof fn lemma_rx_max(l: Seq<(T, Regex)>, text: Seq<u8>, k: int)
    requires 0 <= k <= l.len()
    ensures 0 <= rx_max(l, text, k) <= text.len(), bound(text, rx_max(l, text, k)),
        rx_max(l, text, k) == 0 <==> (forall|i: int| 0 <= i < k ==> crx(#[trigger] l[i].1, text) == 0),
        (rx_max(l, text, k) == 0) == (rx_tags(l, text, k, rx_max(l, text, k)).len() == 0),
        rx_tags(l, text, k, 0).len() == 0,
    decreases k
{
    if k > 0 {
        lemma_rx_max(l, text, k - 1);
        lemma_rx_tags_above(l, text, k - 1, rx_max(l, text, k - 1) + 1);
        if rx_max(l, text, k) == 0 {
            assert forall|i: int| 0 <= i < k implies crx(#[trigger] l[i].1, text) == 0 by {}
        } else {
            if forall|i: int| 0 <= i < k ==> crx(#[trigger] l[i].1, text) == 0 {
                assert(crx(l[k - 1].1, text) == 0);
                assert(forall|i: int| 0 <= i < k - 1 ==> crx(#[trigger] l[i].1, text) == 0);
            }
        }
    }
}
pub open spec fn skip_first(l: Seq<Regex>, text: Seq<u8>, j: int) -> int
    decreases l.len() - j
{
    if j < 0 || j >= l.len() { 0 } else if crx(l[j], text) > 0 { crx(l[j], text) } else { skip_first(l, text, j + 1) }
}
pub proof fn lemma_skip_first(l: Seq<Regex>, text: Seq<u8>, j: int)
    requires 0 <= j <= l.len()
    ensures 0 <= skip_first(l, text, j) <= text.len(), bound(text, skip_first(l, text, j)),
        skip_first(l, text, j) == 0 <==> (forall|i: int| j <= i < l.len() ==> crx(#[trigger] l[i], text) == 0),
    decreases l.len() - j
{
    if j < l.len() { lemma_skip_first(l, text, j + 1); }
}
// the position reached by skipping from position i
pub open spec fn skip_end(l: Seq<Regex>, text: Seq<u8>, i: int) -> int
    decreases text.len() - i
{
    if i < 0 || i >= text.len() { i } else {
        let k = skip_first(l, text.skip(i), 0);
        if 0 < k <= text.len() - i { skip_end(l, text, i + k) } else { i }
    }
}
pub proof fn lemma_skip_end(l: Seq<Regex>, text: Seq<u8>, i: int)
    requires 0 <= i <= text.len(), bound(text, i)
    ensures i <= skip_end(l, text, i) <= text.len(), bound(text, skip_end(l, text, i)),
        skip_end(l, text, i) < text.len() ==> skip_first(l, text.skip(skip_end(l, text, i)), 0) == 0,
        skip_end(l, text.skip(i), 0) == skip_end(l, text, i) - i,
    decreases text.len() - i
{
    lemma_skip_shift(l, text, i, 0);
    if i < text.len() {
        lemma_skip_first(l, text.skip(i), 0);
        let k = skip_first(l, text.skip(i), 0);
        if k > 0 {
            lemma_bound_skip(text, i, k);
            lemma_skip_end(l, text, i + k);
        }
    }
}
pub proof fn lemma_skip_shift(l: Seq<Regex>, text: Seq<u8>, i: int, j: int)
    requires 0 <= i <= text.len(), 0 <= j <= text.len() - i
    ensures skip_end(l, text.skip(i), j) == skip_end(l, text, i + j) - i
    decreases text.len() - i - j
{
    if i + j < text.len() {
        assert(text.skip(i).skip(j) =~= text.skip(i + j));
        lemma_skip_first(l, text.skip(i + j), 0);
        let k = skip_first(l, text.skip(i + j), 0);
        if k > 0 { lemma_skip_shift(l, text, i, j + k); }
    }
}
@end
@fn match_at_start
%ensures
    match r {
        Some(m) => m.s() == 0 && m.e() == crx(*regex, text@) && m.e() > 0,
        None => crx(*regex, text@) == 0,
    }

@fn RegexMatcher::new
%ty lexemes Vec<(T, Regex)>
%opt tryconv
%ensures
    match r {
        Ok(x) => pats_nonempty(dv(lexeme_patterns@)) && x.lexemes@.len() == lexeme_patterns@.len()
            && (forall|i: int| 0 <= i < lexeme_patterns@.len() ==> (#[trigger] x.lexemes@[i]).0 == lexeme_patterns@[i].0
                && recognises(x.lexemes@[i].1, lexeme_patterns@[i].1@) && rx_ok(lexeme_patterns@[i].1@)),
        Err(LexanError::EmptyPattern(_)) => !pats_nonempty(dv(lexeme_patterns@)),
        Err(LexanError::RegexError(_)) => exists|i: int| 0 <= i < lexeme_patterns@.len() && !rx_ok(#[trigger] lexeme_patterns@[i].1@),
        Err(_) => false,
    }
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@.len() == lexeme_patterns@.len(), lexemes@.len() == __i1,
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == lexeme_patterns@[i],
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] lexeme_patterns@[i]).1@.len() > 0,
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] lexemes@[i]).0 == lexeme_patterns@[i].0
                && recognises(lexemes@[i].1, lexeme_patterns@[i].1@) && rx_ok(lexeme_patterns@[i].1@),
%loop 1 decreases
    __it1@.len() - __i1
%at loop 1 body:
    proof { assert(pattern@ == dv(lexeme_patterns@)[__i1 - 1].1); axiom_rx_compiles(pattern@); }
%at loop 1 end:
    proof {
        let x = lexemes@[__i1 - 1];
        assert(x.1.pat() =~= pattern@ || x.1.pat() =~= anch() + pattern@ || x.1.pat() =~= ganch() + pattern@ + seq![41u8]);
        lemma_recognises(x.1, pattern@);
    }
%at let anchored_pattern:
    proof { assert(anchored_pattern@ =~= anch() || anchored_pattern@ =~= ganch()); }
%at call push_str:
    proof { assert(anchored_pattern@ =~= anch() + pattern@ || anchored_pattern@ =~= ganch() + pattern@); }

@fn RegexMatcher::longest_matches
%ty matches Vec<T>
%ensures
    r.1 == rx_max(self.lexemes@, text@, self.lexemes@.len() as int),
    r.0@ == rx_tags(self.lexemes@, text@, self.lexemes@.len() as int, r.1 as int),
%at start:
    let ghost l = self.lexemes@;
    let ghost t = text@;
%loop 1 invariant
    l == self.lexemes@, t == text@, __i1 <= __it1@.len(), __it1@.len() == l.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == l[i],
    largest_end == rx_max(l, t, __i1 as int),
    matches@ == rx_tags(l, t, __i1 as int, largest_end as int),
%loop 1 decreases
    __it1@.len() - __i1
%at loop 1 body:
    proof {
        lemma_rx_max(l, t, __i1 - 1);
        if crx(*regex, t) > largest_end { lemma_rx_tags_above(l, t, __i1 - 1, crx(*regex, t)); }
    }
%at loop 1 end:
    proof { assert(matches@ =~= rx_tags(l, t, __i1 as int, largest_end as int)); }

@fn RegexMatcher::matches
%ensures
    r == (rx_max(self.lexemes@, text@, self.lexemes@.len() as int) > 0),
%at start:
    proof { lemma_rx_max(self.lexemes@, text@, self.lexemes@.len() as int); }
    let ghost l = self.lexemes@;
%loop 1 invariant
    l == self.lexemes@, __i1 <= __it1@.len(), __it1@.len() == l.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == l[i],
    forall|i: int| 0 <= i < __i1 ==> crx(#[trigger] l[i].1, text@) == 0,
    rx_max(l, text@, l.len() as int) == 0 <==> (forall|i: int| 0 <= i < l.len() ==> crx(#[trigger] l[i].1, text@) == 0),
    rx_max(l, text@, l.len() as int) >= 0,
%loop 1 decreases
    __it1@.len() - __i1

@fn SkipMatcher::new
%ty regexes Vec<Regex>
%opt tryconv
%ensures
    match r {
        Ok(x) => x.regexes@.len() == regex_strs@.len()
            && (forall|i: int| 0 <= i < regex_strs@.len() ==> (#[trigger] regex_strs@[i])@.len() > 0)
            && (forall|i: int| 0 <= i < regex_strs@.len() ==> recognises(#[trigger] x.regexes@[i], regex_strs@[i]@) && rx_ok(regex_strs@[i]@)),
        Err(LexanError::EmptyPattern(_)) => exists|i: int| 0 <= i < regex_strs@.len() && (#[trigger] regex_strs@[i])@.len() == 0,
        Err(LexanError::RegexError(_)) => exists|i: int| 0 <= i < regex_strs@.len() && !rx_ok((#[trigger] regex_strs@[i])@),
        Err(_) => false,
    }
%loop 1 invariant
    __i1 <= __it1@.len(), __it1@.len() == regex_strs@.len(), regexes@.len() == __i1,
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == regex_strs@[i],
    forall|i: int| 0 <= i < __i1 ==> (#[trigger] regex_strs@[i])@.len() > 0,
    forall|i: int| 0 <= i < __i1 ==> recognises(#[trigger] regexes@[i], regex_strs@[i]@) && rx_ok(regex_strs@[i]@),
%loop 1 decreases
    __it1@.len() - __i1
%at loop 1 body:
    proof { axiom_rx_compiles(regex_str@); assert(regex_str@ == regex_strs@[__i1 - 1]@); }
%at let anchored_pattern:
    proof { assert(anchored_pattern@ =~= anch() || anchored_pattern@ =~= ganch()); }
%at call push_str:
    proof { assert(anchored_pattern@ =~= anch() + regex_str@ || anchored_pattern@ =~= ganch() + regex_str@); }
%at loop 1 end:
    proof {
        let x = regexes@[__i1 - 1];
        assert(x.pat() =~= regex_str@ || x.pat() =~= anch() + regex_str@ || x.pat() =~= ganch() + regex_str@ + seq![41u8]);
        lemma_recognises(x, regex_str@);
    }

@fn SkipMatcher::skippable_count
%ensures
    r == skip_end(self.regexes@, text@, 0),
%at start:
    let ghost l = self.regexes@;
    let ghost t = text@;
%loop 1 invariant
    l == self.regexes@, t == text@, index <= t.len(), bound(t, index as int),
%loop 1 invariant_except_break
    skip_end(l, t, index as int) == skip_end(l, t, 0),
%loop 1 ensures
    index == skip_end(l, t, 0),
%loop 1 decreases
    t.len() - index
%at loop 1 start:
    let ghost i0 = index as int;
    proof { lemma_skip_first(l, t.skip(i0), 0); }
%loop 2 invariant
    l == self.regexes@, t == text@, __i2 <= __it2@.len(), __it2@.len() == l.len(),
    forall|i: int| 0 <= i < __it2@.len() ==> *(#[trigger] __it2@[i]) == l[i],
    i0 < t.len(), bound(t, i0), skip_end(l, t, i0) == skip_end(l, t, 0),
%loop 2 invariant_except_break
    index == i0, !__cont, skip_first(l, t.skip(i0), 0) == skip_first(l, t.skip(i0), __i2 as int),
%loop 2 ensures
    __cont ==> i0 < index <= t.len() && bound(t, index as int) && skip_end(l, t, index as int) == skip_end(l, t, 0),
    !__cont ==> index == i0 && skip_first(l, t.skip(i0), 0) == 0,
%loop 2 decreases
    __it2@.len() - __i2
%at loop 2 start:
    proof {
        let k = crx(l[__i2 - 1], t.skip(i0));
        if k > 0 {
            assert(skip_first(l, t.skip(i0), 0) == k);
            lemma_bound_skip(t, i0, k);
        }
    }

@fn SkipMatcher::matches
%ensures
    r == (skip_first(self.regexes@, text@, 0) > 0),
%at start:
    proof { lemma_skip_first(self.regexes@, text@, 0); }
    let ghost l = self.regexes@;
%loop 1 invariant
    l == self.regexes@, __i1 <= __it1@.len(), __it1@.len() == l.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == l[i],
    forall|i: int| 0 <= i < __i1 ==> crx(#[trigger] l[i], text@) == 0,
    skip_first(l, text@, 0) == 0 <==> (forall|i: int| 0 <= i < l.len() ==> crx(#[trigger] l[i], text@) == 0),
    skip_first(l, text@, 0) >= 0,
%loop 1 decreases
    __it1@.len() - __i1

# ================================================================ lexicon
@raw
pub open spec fn valid_here(lx: Lexicon, t: Seq<u8>) -> bool {
    ||| lit_best(lx.literal_matcher.lexemes@, t, t.len() as int).is_some()
    ||| rx_max(lx.regex_matcher.lexemes@, t, lx.regex_matcher.lexemes@.len() as int) > 0
    ||| skip_first(lx.skip_matcher.regexes@, t, 0) > 0
}
// the next character at or after i where something matches, or the end of the text
pub open spec fn next_valid(lx: Lexicon, t: Seq<u8>, i: int) -> int
    decreases t.len() - i
{
    if i < 0 || i >= t.len() { t.len() as int }
    else if bound(t, i) && valid_here(lx, t.skip(i)) { i }
    else { next_valid(lx, t, i + 1) }
}
pub proof fn lemma_next_valid(lx: Lexicon, t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures i <= next_valid(lx, t, i) <= t.len(), bound(t, next_valid(lx, t, i)),
        forall|j: int| i <= j < next_valid(lx, t, i) && #[trigger] bound(t, j) ==> !valid_here(lx, t.skip(j)),
        next_valid(lx, t, i) < t.len() ==> valid_here(lx, t.skip(next_valid(lx, t, i))),
    decreases t.len() - i
{
    if i < t.len() && !(bound(t, i) && valid_here(lx, t.skip(i))) { lemma_next_valid(lx, t, i + 1); }
}
pub proof fn lemma_next_valid_step(lx: Lexicon, t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|j: int| a <= j < b && #[trigger] bound(t, j) ==> !valid_here(lx, t.skip(j))
    ensures next_valid(lx, t, a) == next_valid(lx, t, b)
    decreases b - a
{
    if a < b { lemma_next_valid_step(lx, t, a + 1, b); }
}
pub open spec fn lx_wf(lx: Lexicon) -> bool { lit_wf(lx.literal_matcher.lexemes@) }
pub open spec fn lx_regexes(lx: Lexicon, d: Seq<(T, Seq<u8>)>) -> bool {
    let l = lx.regex_matcher.lexemes@;
    l.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> (#[trigger] l[i]).0 == d[i].0 && recognises(l[i].1, d[i].1)
}
pub open spec fn lx_skips(lx: Lexicon, d: Seq<Seq<u8>>) -> bool {
    let l = lx.skip_matcher.regexes@;
    l.len() == d.len() && forall|i: int| 0 <= i < d.len() ==> recognises(#[trigger] l[i], d[i])
}
// the tag of definition k occurs earlier (or is the end marker)
pub open spec fn tag_taken(d: Seq<(T, Seq<u8>)>, end: T, k: int) -> bool {
    d[k].0 == end || exists|j: int| 0 <= j < k && (#[trigger] d[j]).0 == d[k].0
}
pub open spec fn pat_taken(p: Seq<Seq<u8>>, k: int) -> bool {
    exists|j: int| 0 <= j < k && #[trigger] p[j] == p[k]
}
pub open spec fn allpats(d: Seq<(T, Seq<u8>)>, sk: Seq<Seq<u8>>) -> Seq<Seq<u8>> {
    Seq::new(d.len() + sk.len(), |i: int| if i < d.len() { d[i].1 } else { sk[i - d.len()] })
}
// nothing wrong with the first k of the definitions followed by the skips
pub open spec fn clean(d: Seq<(T, Seq<u8>)>, sk: Seq<Seq<u8>>, end: T, k: int) -> bool {
    &&& forall|i: int| 0 <= i < k && i < d.len() ==> !#[trigger] tag_taken(d, end, i)
    &&& forall|i: int| 0 <= i < k ==> !#[trigger] pat_taken(allpats(d, sk), i)
}
pub open spec fn all_ok(d: Seq<(T, Seq<u8>)>, rx: Seq<(T, Seq<u8>)>, sk: Seq<Seq<u8>>) -> bool {
    &&& forall|i: int| 0 <= i < d.len() ==> (#[trigger] d[i]).1.len() > 0
    &&& forall|i: int| 0 <= i < sk.len() ==> (#[trigger] sk[i]).len() > 0
    &&& forall|i: int| 0 <= i < rx.len() ==> rx_ok((#[trigger] rx[i]).1)
    &&& forall|i: int| 0 <= i < sk.len() ==> rx_ok(#[trigger] sk[i])
}
@end
@fn Lexicon::new
%ty tags Vec<T>
%ty patterns Vec<&Str>
%ensures
    ({
        let d = dv(literal_lexemes@) + dv(regex_lexemes@);
        let sk = sv(skip_regex_strs@);
        let n = (d.len() + sk.len()) as int;
        match r {
            Ok(x) => clean(d, sk, end_marker, n) && all_ok(d, dv(regex_lexemes@), sk)
                && lx_wf(x) && x.end_marker == end_marker
                && lits_are(x.literal_matcher.lexemes@, dv(literal_lexemes@))
                && lx_regexes(x, dv(regex_lexemes@)) && lx_skips(x, sk),
            Err(LexanError::DuplicateHandle(t)) => exists|k: int| 0 <= k < d.len() && d[k].0 == t && #[trigger] tag_taken(d, end_marker, k) && clean(d, sk, end_marker, k),
            Err(LexanError::DuplicatePattern(p)) => exists|k: int| 0 <= k < n && allpats(d, sk)[k] == p@ && #[trigger] pat_taken(allpats(d, sk), k) && clean(d, sk, end_marker, k)
                && (k < d.len() ==> !tag_taken(d, end_marker, k)),
            Err(_) => clean(d, sk, end_marker, n) && !all_ok(d, dv(regex_lexemes@), sk),
        }
    }),
%at start:
    let ghost d = dv(literal_lexemes@) + dv(regex_lexemes@);
    let ghost sk = sv(skip_regex_strs@);
    let ghost ap = allpats(d, sk);
%loop 1 invariant
    d == dv(literal_lexemes@) + dv(regex_lexemes@), sk == sv(skip_regex_strs@), ap == allpats(d, sk),
    __i1 <= __it1@.len(), __it1@.len() == d.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> (#[trigger] __it1@[i]).0 == d[i].0 && __it1@[i].1@ == d[i].1,
    vsorted(tags@), vsorted(patterns@),
    forall|t: T| #[trigger] tags@.contains(t) <==> (t == end_marker || exists|j: int| 0 <= j < __i1 && (#[trigger] d[j]).0 == t),
    pats_are(patterns@, ap, __i1 as int),
    clean(d, sk, end_marker, __i1 as int),
%loop 1 decreases
    __it1@.len() - __i1
%at loop 1 before:
    proof { assert(tags@.len() == 1); assert(tags@[0] == end_marker); }
%at loop 1 body:
    let ghost k = __i1 - 1;
    let ghost tags0 = tags@;
    let ghost pats0 = patterns@;
    proof {
        assert(*tag == d[k].0);
        assert(pattern@ == ap[k]);
        assert(tags0.contains(*tag) <==> tag_taken(d, end_marker, k));
        lemma_pats_has(pats0, pattern, ap, k);
    }
%at loop 1 end:
    proof {
        lemma_insert(tags0, tags@, d[k].0);
        lemma_insert(pats0, patterns@, *pattern);
        assert(pats0.contains(*pattern) == pat_taken(ap, k));
        assert(!tag_taken(d, end_marker, k));
        assert forall|t: T| #[trigger] tags@.contains(t) <==> (t == end_marker || exists|j: int| 0 <= j < k + 1 && (#[trigger] d[j]).0 == t) by {
            assert(tags@.contains(t) <==> tags0.contains(t) || t == d[k].0);
        }
        lemma_pats_next(pats0, patterns@, *pattern, ap, k);
    }
%loop 2 invariant
    d == dv(literal_lexemes@) + dv(regex_lexemes@), sk == sv(skip_regex_strs@), ap == allpats(d, sk),
    __i2 <= __it2@.len(), __it2@.len() == sk.len(),
    forall|i: int| 0 <= i < __it2@.len() ==> (#[trigger] __it2@[i])@ == sk[i],
    vsorted(patterns@),
    pats_are(patterns@, ap, (d.len() + __i2) as int),
    clean(d, sk, end_marker, d.len() + __i2),
%loop 2 decreases
    __it2@.len() - __i2
%at loop 2 body:
    let ghost k = d.len() + __i2 - 1;
    let ghost pats0 = patterns@;
    proof {
        assert(regex@ == ap[k]);
        lemma_pats_has(pats0, regex, ap, k);
    }
%at loop 2 end:
    proof {
        lemma_insert(pats0, patterns@, *regex);
        lemma_pats_next(pats0, patterns@, *regex, ap, k);
    }
%at before let literal_matcher:
    proof {
        let dl = dv(literal_lexemes@);
        let dr = dv(regex_lexemes@);
        assert(dl + dr == d);
        assert forall|i: int| 0 <= i < dl.len() implies d[i] == #[trigger] dl[i] by {}
        assert forall|i: int| 0 <= i < dr.len() implies d[dl.len() + i] == #[trigger] dr[i] by {}
        assert forall|i: int, j: int| 0 <= i < j < dl.len() implies (#[trigger] dl[i]).1 != (#[trigger] dl[j]).1 by {
            assert(ap[i] == dl[i].1);
            assert(ap[j] == dl[j].1);
            assert(!pat_taken(ap, j));
        }
        assert(pats_distinct(dl));
        if !pats_nonempty(dl) {
            let i = choose|i: int| 0 <= i < dl.len() && (#[trigger] dl[i]).1.len() == 0;
            assert(d[i].1.len() == 0);
        }
        if !pats_nonempty(dr) {
            let i = choose|i: int| 0 <= i < dr.len() && (#[trigger] dr[i]).1.len() == 0;
            assert(d[dl.len() + i].1.len() == 0);
        }
        assert forall|i: int| 0 <= i < dr.len() implies dr[i].1 == (#[trigger] regex_lexemes@[i]).1@ by {}
        assert forall|i: int| 0 <= i < sk.len() implies sk[i] == (#[trigger] skip_regex_strs@[i])@ by {}
    }
%at result:
    proof {
        if let Ok(x) = &__ret {
            let dl = dv(literal_lexemes@);
            let dr = dv(regex_lexemes@);
            assert forall|i: int| 0 <= i < d.len() implies (#[trigger] d[i]).1.len() > 0 by {
                if i < dl.len() { assert(dl[i].1.len() > 0); } else { assert(dr[i - dl.len()].1.len() > 0); }
            }
            assert forall|i: int| 0 <= i < sk.len() implies rx_ok(#[trigger] sk[i]) && sk[i].len() > 0 by {
                assert(recognises(x.skip_matcher.regexes@[i], skip_regex_strs@[i]@));
                assert(skip_regex_strs@[i]@.len() > 0);
            }
            assert forall|i: int| 0 <= i < dr.len() implies rx_ok((#[trigger] dr[i]).1) by {
                assert(x.regex_matcher.lexemes@[i].0 == regex_lexemes@[i].0);
            }
        }
    }
@raw
pub proof fn lemma_insert<X>(a: Seq<X>, b: Seq<X>, x: X)
    ensures (exists|i: int| 0 <= i <= a.len() && b == #[trigger] a.insert(i, x)) ==> (forall|y: X| #[trigger] b.contains(y) <==> a.contains(y) || y == x)
{
    if exists|i: int| 0 <= i <= a.len() && b == #[trigger] a.insert(i, x) {
        let i = choose|i: int| 0 <= i <= a.len() && b == #[trigger] a.insert(i, x);
        assert forall|y: X| #[trigger] b.contains(y) <==> a.contains(y) || y == x by {
            if a.contains(y) {
                let j = choose|j: int| 0 <= j < a.len() && a[j] == y;
                if j < i { assert(b[j] == y); } else { assert(b[j + 1] == y); }
            }
            assert(b[i] == x);
            if b.contains(y) {
                let j = choose|j: int| 0 <= j < b.len() && b[j] == y;
                if j < i { assert(a[j] == y); } else if j > i { assert(a[j - 1] == y); }
            }
        }
    }
}
pub open spec fn ap_has(ap: Seq<Seq<u8>>, k: int, s: Seq<u8>) -> bool { exists|j: int| 0 <= j < k && #[trigger] ap[j] == s }
pub open spec fn pats_are(pats: Seq<&Str>, ap: Seq<Seq<u8>>, k: int) -> bool {
    forall|x: &Str| #[trigger] pats.contains(x) <==> ap_has(ap, k, x@)
}
pub proof fn lemma_pats_has(pats: Seq<&Str>, p: &Str, ap: Seq<Seq<u8>>, k: int)
    requires 0 <= k < ap.len(), p@ == ap[k], pats_are(pats, ap, k)
    ensures pats.contains(p) == pat_taken(ap, k)
{
    assert(pat_taken(ap, k) == ap_has(ap, k, p@));
}
pub proof fn lemma_pats_next(a: Seq<&Str>, b: Seq<&Str>, p: &Str, ap: Seq<Seq<u8>>, k: int)
    requires 0 <= k < ap.len(), p@ == ap[k],
        exists|i: int| 0 <= i <= a.len() && b == #[trigger] a.insert(i, p),
        pats_are(a, ap, k),
    ensures pats_are(b, ap, k + 1)
{
    lemma_insert(a, b, p);
    assert forall|x: &Str| #[trigger] b.contains(x) <==> ap_has(ap, k + 1, x@) by {
        assert(b.contains(x) <==> a.contains(x) || x == p);
        if x@ == ap[k] { axiom_str_ext(x, p); assert(x == p); }
        if ap_has(ap, k, x@) { let j = choose|j: int| 0 <= j < k && #[trigger] ap[j] == x@; assert(ap[j] == x@); }
        assert(ap[k] == p@);
        if ap_has(ap, k + 1, x@) { let j = choose|j: int| 0 <= j < k + 1 && #[trigger] ap[j] == x@; if j < k { assert(ap[j] == x@); } }
    }
}
@end
@fn Lexicon::end_marker
%ensures
    r == self.end_marker,
@fn Lexicon::skippable_count
%ensures
    r == skip_end(self.skip_matcher.regexes@, text@, 0),
@fn Lexicon::longest_literal_match
%requires
    lx_wf(*self),
%ensures
    match r {
        Some((t, k)) => lit_best(self.literal_matcher.lexemes@, text@, text@.len() as int) == Some((t, k as int)),
        None => lit_best(self.literal_matcher.lexemes@, text@, text@.len() as int).is_none(),
    }
@fn Lexicon::longest_regex_matches
%ensures
    r.1 == rx_max(self.regex_matcher.lexemes@, text@, self.regex_matcher.lexemes@.len() as int),
    r.0@ == rx_tags(self.regex_matcher.lexemes@, text@, self.regex_matcher.lexemes@.len() as int, r.1 as int),
@fn Lexicon::distance_to_next_valid_byte
%requires
    lx_wf(*self),
%ensures
    r == next_valid(*self, text@, 0),
%at start:
    let ghost t = text@;
%loop 1 invariant
    t == text@, lx_wf(*self), __i1 <= __it1@.len(),
    forall|k: int| 0 <= k < __it1@.len() ==> (#[trigger] __it1@[k]).0 < t.len() && bound(t, __it1@[k].0 as int),
    forall|j: int, k: int| 0 <= j < k < __it1@.len() ==> (#[trigger] __it1@[j]).0 < (#[trigger] __it1@[k]).0,
    forall|i: int| 0 <= i < t.len() && #[trigger] bound(t, i) ==> exists|k: int| 0 <= k < __it1@.len() && #[trigger] __it1@[k].0 == i,
    forall|k: int| 0 <= k < __i1 ==> !#[trigger] valid_here(*self, t.skip(__it1@[k].0 as int)),
%loop 1 decreases
    __it1@.len() - __i1
%at loop 1 body:
    proof {
        assert forall|j: int| 0 <= j < index && #[trigger] bound(t, j) implies !valid_here(*self, t.skip(j)) by {
            let k = choose|k: int| 0 <= k < __it1@.len() && #[trigger] __it1@[k].0 == j;
            if k >= __i1 - 1 {
                if k > __i1 - 1 { assert(__it1@[__i1 - 1].0 < __it1@[k].0); }
                assert(false);
            }
            assert(!valid_here(*self, t.skip(__it1@[k].0 as int)));
        }
        lemma_next_valid_step(*self, t, 0, index as int);
    }
%at loop 1 after:
    proof {
        assert forall|j: int| 0 <= j < t.len() && #[trigger] bound(t, j) implies !valid_here(*self, t.skip(j)) by {
            let k = choose|k: int| 0 <= k < __it1@.len() && #[trigger] __it1@[k].0 == j;
            assert(!valid_here(*self, t.skip(__it1@[k].0 as int)));
        }
        lemma_next_valid_step(*self, t, 0, t.len() as int);
    }

# ================================================================ analyzer
@type Location
@type List
@type Error
@type Token
@type BasicTokenStream
@type TokenStream
@raw
pub struct LocV { pub label: Seq<u8>, pub line: int, pub off: int }
pub enum TokV {
    Tok(T, Seq<u8>, LocV),
    Unexp(Seq<u8>, LocV),
    Ambig(Seq<T>, Seq<u8>, LocV),
    Adv(LocV),
}
pub open spec fn locv(l: Location) -> LocV { LocV { label: l.label@, line: l.line_number as int, off: l.offset as int } }
pub open spec fn tokv(r: Result<Token, Error>) -> TokV {
    match r {
        Ok(t) => TokV::Tok(t.tag, t.lexeme@, locv(t.location)),
        Err(Error::UnexpectedText(s, l)) => TokV::Unexp(s@, locv(l)),
        Err(Error::AmbiguousMatches(ts, s, l)) => TokV::Ambig(ts.0@, s@, locv(l)),
        Err(Error::AdvancedWhenEmpty(l)) => TokV::Adv(locv(l)),
    }
}
// position i of a text as (line, offset): both count from one
pub open spec fn line_at(t: Seq<u8>, i: int) -> int
    decreases i
{
    if i <= 0 { 1 } else { line_at(t, i - 1) + (if t[i - 1] == 10u8 { 1int } else { 0int }) }
}
pub open spec fn off_at(t: Seq<u8>, i: int) -> int
    decreases i
{
    if i <= 0 { 1 } else if t[i - 1] == 10u8 { 1 } else { off_at(t, i - 1) + 1 }
}
pub open spec fn loc_at(label: Seq<u8>, t: Seq<u8>, i: int) -> LocV { LocV { label, line: line_at(t, i), off: off_at(t, i) } }
pub proof fn lemma_loc_small(t: Seq<u8>, i: int)
    requires 0 <= i
    ensures 1 <= line_at(t, i) <= i + 1, 1 <= off_at(t, i) <= i + 1
    decreases i
{
    if i > 0 { lemma_loc_small(t, i - 1); }
}
// no newline in t[a..b]
pub proof fn lemma_loc_run(t: Seq<u8>, a: int, b: int)
    requires 0 <= a <= b <= t.len(), forall|j: int| a <= j < b ==> t[j] != 10u8
    ensures line_at(t, b) == line_at(t, a), off_at(t, b) == off_at(t, a) + (b - a)
    decreases b - a
{
    if a < b { lemma_loc_run(t, a, b - 1); }
}
// meaning of line_at/off_at in closed form
pub open spec fn newlines(t: Seq<u8>, i: int) -> int { t.take(i).filter(|b: u8| b == 10u8).len() as int }
pub open spec fn is_line_start(t: Seq<u8>, b: int, i: int) -> bool {
    0 <= b <= i && (b == 0 || t[b - 1] == 10u8) && forall|j: int| b <= j < i ==> t[j] != 10u8
}
pub proof fn lemma_c03_offset(t: Seq<u8>, b: int, i: int)
    requires 0 <= i <= t.len(), is_line_start(t, b, i)
    ensures off_at(t, i) == 1 + (i - b)
{
    lemma_loc_run(t, b, i);
}
pub proof fn lemma_c03_line(t: Seq<u8>, i: int)
    requires 0 <= i <= t.len()
    ensures line_at(t, i) == 1 + newlines(t, i)
    decreases i
{
    reveal(Seq::filter);
    if i > 0 {
        lemma_c03_line(t, i - 1);
        assert(t.take(i).drop_last() =~= t.take(i - 1));
        assert(t.take(i).last() == t[i - 1]);
    }
}

// One lexing step from position i: the token or error delivered and the position after it.
pub open spec fn lex1(lx: Lexicon, text: Seq<u8>, label: Seq<u8>, i: int) -> Option<(TokV, int)> {
    let s = skip_end(lx.skip_matcher.regexes@, text, i);
    if s >= text.len() { None } else {
        let t = text.skip(s);
        let loc = loc_at(label, text, s);
        let lit = lit_best(lx.literal_matcher.lexemes@, t, t.len() as int);
        let n = lx.regex_matcher.lexemes@.len() as int;
        let m = rx_max(lx.regex_matcher.lexemes@, t, n);
        let tags = rx_tags(lx.regex_matcher.lexemes@, t, n, m);
        match lit {
            Some((tag, k)) if k >= m => Some((TokV::Tok(tag, text.subrange(s, s + k), loc), s + k)),
            _ => if m > 0 {
                if tags.len() == 1 { Some((TokV::Tok(tags[0], text.subrange(s, s + m), loc), s + m)) }
                else { Some((TokV::Ambig(tags, text.subrange(s, s + m), loc), s + m)) }
            } else {
                let d = next_valid(lx, t, 0);
                Some((TokV::Unexp(text.subrange(s, s + d), loc), s + d))
            },
        }
    }
}
pub open spec fn body(v: TokV) -> Seq<u8> {
    match v { TokV::Tok(_, s, _) => s, TokV::Unexp(s, _) => s, TokV::Ambig(_, s, _) => s, TokV::Adv(_) => Seq::empty() }
}
pub open spec fn vloc(v: TokV) -> LocV {
    match v { TokV::Tok(_, _, l) => l, TokV::Unexp(_, l) => l, TokV::Ambig(_, _, l) => l, TokV::Adv(l) => l }
}
// everything that is still to come from position i
pub open spec fn lex_all(lx: Lexicon, text: Seq<u8>, label: Seq<u8>, i: int) -> Seq<TokV>
    decreases text.len() - i
{
    match lex1(lx, text, label, i) {
        None => Seq::empty(),
        Some((v, j)) => if i < j <= text.len() { seq![v] + lex_all(lx, text, label, j) } else { seq![v] },
    }
}
pub proof fn lemma_lex1(lx: Lexicon, text: Seq<u8>, label: Seq<u8>, i: int)
    requires lx_wf(lx), utf8(text), 0 <= i <= text.len(), bound(text, i)
    ensures
        i <= skip_end(lx.skip_matcher.regexes@, text, i) <= text.len(),
        match lex1(lx, text, label, i) {
            None => skip_end(lx.skip_matcher.regexes@, text, i) == text.len(),
            Some((v, j)) => i <= skip_end(lx.skip_matcher.regexes@, text, i) < j <= text.len() && bound(text, j)
                && body(v) == text.subrange(skip_end(lx.skip_matcher.regexes@, text, i), j)
                && vloc(v) == loc_at(label, text, skip_end(lx.skip_matcher.regexes@, text, i)) && !(v is Adv),
        }
{
    let l = lx.skip_matcher.regexes@;
    lemma_skip_end(l, text, i);
    let s = skip_end(l, text, i);
    if s < text.len() {
        let t = text.skip(s);
        lemma_utf8_skip(text, s);
        let n = lx.regex_matcher.lexemes@.len() as int;
        lemma_rx_max(lx.regex_matcher.lexemes@, t, n);
        lemma_lit_best_bound(lx.literal_matcher.lexemes@, t);
        lemma_next_valid(lx, t, 0);
        let (v, j) = lex1(lx, text, label, i).unwrap();
        lemma_bound_skip(text, s, j - s);
        assert(t.skip(0) =~= t);
    }
}
pub proof fn lemma_utf8_skip(s: Seq<u8>, i: int)
    requires utf8(s), bound(s, i)
    ensures utf8(s.skip(i))
    decreases s.len()
{
    if i == 0 { assert(s.skip(0) =~= s); }
    else if i == s.len() { assert(s.skip(i) =~= Seq::<u8>::empty()); }
    else {
        let w = width(s[0]);
        if i < w { assert(cont(s[i])); }
        else {
            lemma_bound_skip(s, w, i - w);
            if w < s.len() { assert(s.skip(w)[0] == s[w]); lemma_utf8_first(s.skip(w)); }
            lemma_utf8_skip(s.skip(w), i - w);
            assert(s.skip(w).skip(i - w) =~= s.skip(i));
        }
    }
}
// C01: skipped text and the bodies of tokens and errors, in order, are the text
pub open spec fn covered(lx: Lexicon, text: Seq<u8>, label: Seq<u8>, i: int) -> Seq<u8>
    decreases text.len() - i
{
    let s = skip_end(lx.skip_matcher.regexes@, text, i);
    match lex1(lx, text, label, i) {
        None => text.subrange(i, s),
        Some((v, j)) => if i < j <= text.len() { text.subrange(i, s) + body(v) + covered(lx, text, label, j) } else { Seq::empty() },
    }
}
pub proof fn lemma_c01_partition(lx: Lexicon, text: Seq<u8>, label: Seq<u8>, i: int)
    requires lx_wf(lx), utf8(text), 0 <= i <= text.len(), bound(text, i)
    ensures covered(lx, text, label, i) == text.skip(i),
        forall|k: int| 0 <= k < lex_all(lx, text, label, i).len() ==> body(#[trigger] lex_all(lx, text, label, i)[k]).len() > 0,
        lex_all(lx, text, label, i).len() <= text.len() - i,
    decreases text.len() - i
{
    lemma_lex1(lx, text, label, i);
    match lex1(lx, text, label, i) {
        None => { assert(covered(lx, text, label, i) =~= text.skip(i)); }
        Some((v, j)) => {
            lemma_c01_partition(lx, text, label, j);
            assert(covered(lx, text, label, i) =~= text.skip(i));
            let a = lex_all(lx, text, label, i);
            let b = lex_all(lx, text, label, j);
            assert(a == seq![v] + b);
            assert forall|k: int| 0 <= k < a.len() implies body(#[trigger] a[k]).len() > 0 by {
                if k > 0 { assert(a[k] == b[k - 1]); }
            }
        }
    }
}
// C02: the choice made by lex1 is the one the property states
pub proof fn lemma_c02_longest(lx: Lexicon, text: Seq<u8>, label: Seq<u8>, i: int)
    requires lx_wf(lx), utf8(text), 0 <= i <= text.len(), bound(text, i), lex1(lx, text, label, i).is_some()
    ensures ({
        let s = skip_end(lx.skip_matcher.regexes@, text, i);
        let t = text.skip(s);
        let rl = lx.regex_matcher.lexemes@;
        let (v, j) = lex1(lx, text, label, i).unwrap();
        // no literal and no regex matches more than what is delivered (unless nothing matches)
        &&& (!(v is Unexp) ==> (forall|k: int| 0 < k <= t.len() && (#[trigger] lit_tag(lx.literal_matcher.lexemes@, t.take(k))).is_some() ==> k <= j - s))
        &&& (!(v is Unexp) ==> (forall|k: int| 0 <= k < rl.len() ==> crx((#[trigger] rl[k]).1, t) <= j - s))
        // a token is a literal of exactly that text, or the only longest regex with no literal as long
        &&& (match v {
            TokV::Tok(tag, b, _) => b == t.take(j - s) && (lit_tag(lx.literal_matcher.lexemes@, b) == Some(tag)
                || (lit_tag(lx.literal_matcher.lexemes@, b).is_none() && (exists|k: int| 0 <= k < rl.len() && (#[trigger] rl[k]).0 == tag && crx(rl[k].1, t) == j - s
                    && forall|k2: int| 0 <= k2 < rl.len() && k2 != k ==> crx((#[trigger] rl[k2]).1, t) < j - s))),
            TokV::Ambig(tags, b, _) => b == t.take(j - s) && tags.len() > 1 && tags == rx_tags(rl, t, rl.len() as int, j - s),
            TokV::Unexp(b, _) => !valid_here(lx, t) && j - s == next_valid(lx, t, 0),
            TokV::Adv(_) => false,
        })
    })
{
    let s = skip_end(lx.skip_matcher.regexes@, text, i);
    lemma_lex1(lx, text, label, i);
    lemma_skip_end(lx.skip_matcher.regexes@, text, i);
    let t = text.skip(s);
    let rl = lx.regex_matcher.lexemes@;
    let n = rl.len() as int;
    let m = rx_max(rl, t, n);
    let (v, j) = lex1(lx, text, label, i).unwrap();
    lemma_rx_max(rl, t, n);
    lemma_lit_best(lx.literal_matcher.lexemes@, t, t.len() as int);
    lemma_rx_all_le(rl, t, n);
    assert(text.subrange(s, j) =~= t.take(j - s));
    let lb = lit_best(lx.literal_matcher.lexemes@, t, t.len() as int);
    assert forall|k: int| 0 < k <= t.len() && (#[trigger] lit_tag(lx.literal_matcher.lexemes@, t.take(k))).is_some() implies lb.is_some() && k <= lb.unwrap().1 by {
        if lb.is_some() && k > lb.unwrap().1 { assert(lit_tag(lx.literal_matcher.lexemes@, t.take(k)).is_none()); }
    }
    if m > 0 { lemma_rx_tags_one(rl, t, n, m); }
}
pub proof fn lemma_rx_all_le(l: Seq<(T, Regex)>, text: Seq<u8>, k: int)
    requires 0 <= k <= l.len()
    ensures forall|i: int| 0 <= i < k ==> crx((#[trigger] l[i]).1, text) <= rx_max(l, text, k)
    decreases k
{
    if k > 0 {
        lemma_rx_all_le(l, text, k - 1);
    }
}
pub proof fn lemma_rx_tags_one(l: Seq<(T, Regex)>, text: Seq<u8>, k: int, m: int)
    requires 0 <= k <= l.len(), m > 0
    ensures
        rx_tags(l, text, k, m).len() == 0 ==> forall|i: int| 0 <= i < k ==> crx((#[trigger] l[i]).1, text) != m,
        rx_tags(l, text, k, m).len() == 1 ==> exists|i: int| 0 <= i < k && (#[trigger] l[i]).0 == rx_tags(l, text, k, m)[0] && crx(l[i].1, text) == m
            && forall|i2: int| 0 <= i2 < k && i2 != i ==> crx((#[trigger] l[i2]).1, text) != m,
    decreases k
{
    if k > 0 {
        lemma_rx_tags_one(l, text, k - 1, m);
        let a = rx_tags(l, text, k - 1, m);
        let b = rx_tags(l, text, k, m);
        if b.len() == 1 {
            if crx(l[k - 1].1, text) == m {
                assert(a.len() == 0);
                assert(b[0] == l[k - 1].0);
                assert(forall|i2: int| 0 <= i2 < k && i2 != k - 1 ==> crx((#[trigger] l[i2]).1, text) != m);
            } else {
                let i = choose|i: int| 0 <= i < k - 1 && (#[trigger] l[i]).0 == a[0] && crx(l[i].1, text) == m
                    && forall|i2: int| 0 <= i2 < k - 1 && i2 != i ==> crx((#[trigger] l[i2]).1, text) != m;
                assert(forall|i2: int| 0 <= i2 < k && i2 != i ==> crx((#[trigger] l[i2]).1, text) != m);
            }
        }
    }
}

// ------------------------------------------------------------------ streams
pub open spec fn bts_wf(b: BasicTokenStream) -> bool { bts_pre(b) && (b.front.is_none() ==> b.index == b.text@.len()) }
pub open spec fn bts_pre(b: BasicTokenStream) -> bool {
    &&& lx_wf(b.lexicon)
    &&& b.index <= b.text@.len()
    &&& bound(b.text@, b.index as int)
    &&& locv(b.location) == loc_at(b.location.label@, b.text@, b.index as int)
}
pub open spec fn bts_next(b: BasicTokenStream) -> Seq<TokV> { lex_all(b.lexicon, b.text@, b.location.label@, b.index as int) }
pub open spec fn bts_rem(b: BasicTokenStream) -> Seq<TokV> {
    match b.front { None => Seq::empty(), Some(f) => seq![tokv(f)] + bts_next(b) }
}
pub open spec fn rem(st: Seq<BasicTokenStream>, k: int) -> Seq<TokV>
    decreases k
{
    if k <= 0 { Seq::empty() } else { bts_rem(st[k - 1]) + rem(st, k - 1) }
}
pub open spec fn ts_rem(t: TokenStream) -> Seq<TokV> { rem(t.token_stream_stack@, t.token_stream_stack@.len() as int) }
pub open spec fn ts_wf(t: TokenStream) -> bool {
    let st = t.token_stream_stack@;
    &&& lx_wf(t.lexicon)
    &&& forall|k: int| 0 <= k < st.len() ==> bts_wf(#[trigger] st[k]) && st[k].front.is_some() && st[k].lexicon == t.lexicon
    &&& (st.len() > 0 ==> tokv(t.front) == ts_rem(t)[0])
    // nothing left: the front is the end token or the "advanced when empty" error
    &&& (st.len() == 0 ==> match tokv(t.front) { TokV::Tok(tag, s, _) => tag == t.lexicon.end_marker && s.len() == 0, TokV::Adv(_) => true, _ => false })
}
// the location just after the last byte of the text at the bottom of the stack
pub open spec fn end_loc(b: BasicTokenStream) -> LocV { loc_at(b.location.label@, b.text@, b.text@.len() as int) }
pub proof fn lemma_rem_same(a: Seq<BasicTokenStream>, b: Seq<BasicTokenStream>, k: int)
    requires 0 <= k <= a.len(), k <= b.len(), forall|i: int| 0 <= i < k ==> a[i] == b[i]
    ensures rem(a, k) == rem(b, k)
    decreases k
{
    if k > 0 { lemma_rem_same(a, b, k - 1); }
}
impl Location {
    // derived Default
    #[verifier::external_body]
    pub fn default() -> (r: Location) ensures r.label@ == Seq::<u8>::empty(), r.line_number == 0, r.offset == 0 { unimplemented!() }
}
@end
@fn Location::new
%ensures
    locv(r) == loc_at(label@, Seq::empty(), 0), r.label@ == label@,
@fn Location::line_number
%ensures
    r == self.line_number,
@fn Location::offset
%ensures
    r == self.offset,
@fn Location::label
%ensures
    r == self.label,
@fn Token::tag
%ensures
    *r == self.tag,
@fn Token::lexeme
%ensures
    *r == self.lexeme,
@fn Token::location
%ensures
    *r == self.location,
@fn BasicTokenStream::front
%ensures
    r == self.front,
@fn BasicTokenStream::is_empty
%ensures
    r == self.front.is_none(),
@fn BasicTokenStream::location
%ensures
    r == self.location,
@fn BasicTokenStream::incr_index_and_location
%requires
    old(self).index + length <= old(self).text@.len(),
    bound(old(self).text@, old(self).index as int), bound(old(self).text@, old(self).index + length),
    locv(old(self).location) == loc_at(old(self).location.label@, old(self).text@, old(self).index as int),
%ensures
    final(self).index == old(self).index + length, final(self).text == old(self).text, final(self).lexicon == old(self).lexicon,
    final(self).front == old(self).front, final(self).location.label == old(self).location.label,
    locv(final(self).location) == loc_at(old(self).location.label@, old(self).text@, old(self).index + length),
%at start:
    let ghost t = self.text@;
    let ghost i0 = self.index as int;
    let ghost lab = self.location.label;
    proof { lemma_loc_small(t, i0); }
%at let slice:
    let ghost sl = slice@;
    proof {
        assert(t.skip(0) =~= t);
    }
%loop 1 invariant
    sl == slice@, sl == t.subrange(i0, i0 + length), t == old(self).text@, i0 == old(self).index, 0 <= i0, i0 + length <= t.len(), i <= length,
    next_index == i0 + length,
    utf8(t), bound(t, i0), utf8(sl), t.len() < 0x4000_0000,
    i > 0 && i < length ==> bound(sl, i as int),
    self.location.label == lab, lab == old(self).location.label, self.text == old(self).text, self.lexicon == old(self).lexicon, self.front == old(self).front, self.index == old(self).index,
    self.location.line_number == line_at(t, i0 + i), self.location.offset == off_at(t, i0 + i),
%loop 1 decreases
    length - i
%at loop 1 start:
    let ghost i1 = i as int;
    proof { lemma_loc_small(t, i0 + i1); lemma_loc_small(t, i0 + length); }
%at loop 1 end:
    proof {
        let w = sl.skip(i1);
        let e = i - 1;
        assert forall|j: int| i1 <= j < length implies w[j - i1] == #[trigger] t[i0 + j] by {}
        assert forall|j: int| i0 + i1 <= j < i0 + e implies #[trigger] t[j] != 10u8 by { assert(w[j - i0 - i1] == t[i0 + (j - i0)]); }
        lemma_loc_run(t, i0 + i1, i0 + e);
        assert(sl[e] == t[i0 + e]);
        assert(w[e - i1] == t[i0 + e]);
        if sl[e] == 10u8 {
            lemma_ascii_bound(sl, e);
        } else {
            lemma_loc_run(t, i0 + i1, i0 + length);
        }
    }
@fn BasicTokenStream::next
%requires
    lx_wf(old(self).lexicon), old(self).index <= old(self).text@.len(), bound(old(self).text@, old(self).index as int),
    locv(old(self).location) == loc_at(old(self).location.label@, old(self).text@, old(self).index as int),
%ensures
    final(self).text == old(self).text, final(self).lexicon == old(self).lexicon, final(self).front == old(self).front, final(self).location.label == old(self).location.label,
    final(self).index <= final(self).text@.len(), bound(final(self).text@, final(self).index as int),
    locv(final(self).location) == loc_at(final(self).location.label@, final(self).text@, final(self).index as int),
    match r {
        None => lex1(old(self).lexicon, old(self).text@, old(self).location.label@, old(self).index as int).is_none() && final(self).index == final(self).text@.len(),
        Some(x) => lex1(old(self).lexicon, old(self).text@, old(self).location.label@, old(self).index as int) == Some((tokv(x), final(self).index as int))
            && final(self).index > old(self).index,
    }
%at start:
    let ghost t = self.text@;
    let ghost i0 = self.index as int;
    let ghost lx = self.lexicon;
    proof {
        lemma_skip_end(lx.skip_matcher.regexes@, t, i0);
        lemma_lex1(lx, t, self.location.label@, i0);
    }
%at let start:
    let ghost rest = t.skip(start as int);
    proof {
        lemma_utf8_skip(t, start as int);
        lemma_rx_max(lx.regex_matcher.lexemes@, rest, lx.regex_matcher.lexemes@.len() as int);
        lemma_lit_best_bound(lx.literal_matcher.lexemes@, rest);
        lemma_next_valid(lx, rest, 0);
        lemma_bound_skip(t, start as int, rx_max(lx.regex_matcher.lexemes@, rest, lx.regex_matcher.lexemes@.len() as int));
        lemma_bound_skip(t, start as int, next_valid(lx, rest, 0));
        match lit_best(lx.literal_matcher.lexemes@, rest, rest.len() as int) { Some((tag, k)) => { lemma_bound_skip(t, start as int, k); } None => {} }
        assert(rest.skip(0) =~= rest);
    }
@fn BasicTokenStream::advance
%requires
    bts_pre(*old(self)),
%ensures
    bts_wf(*final(self)), final(self).text == old(self).text, final(self).lexicon == old(self).lexicon, final(self).location.label == old(self).location.label,
    bts_rem(*final(self)) == bts_next(*old(self)),
@fn BasicTokenStream::new
%requires
    lx_wf(*lexicon),
%ensures
    bts_wf(r), r.text@ == text@, r.lexicon == *lexicon, r.location.label@ == label@,
    bts_rem(r) == lex_all(*lexicon, text@, label@, 0),
%at let bts:
    proof {
        assert(bound(bts.text@, 0));
        reveal_with_fuel(line_at, 1);
    }

@fn TokenStream::is_empty
%ensures
    r == (self.token_stream_stack@.len() == 0),
@fn TokenStream::front
%ensures
    r == self.front,
@fn TokenStream::inject
%requires
    ts_wf(*old(self)),
%ensures
    ts_wf(*final(self)), final(self).lexicon == old(self).lexicon,
    ts_rem(*final(self)) == lex_all(old(self).lexicon, text@, label@, 0) + ts_rem(*old(self)),
    lex_all(old(self).lexicon, text@, label@, 0).len() == 0 ==> *final(self) == *old(self),
    lex_all(old(self).lexicon, text@, label@, 0).len() > 0 ==> final(self).token_stream_stack@.len() == old(self).token_stream_stack@.len() + 1
        && end_loc(final(self).token_stream_stack@.last()) == loc_at(label@, text@, text@.len() as int),
    // the texts beneath are untouched
    final(self).token_stream_stack@.len() >= old(self).token_stream_stack@.len(),
    forall|k: int| 0 <= k < old(self).token_stream_stack@.len() ==> final(self).token_stream_stack@[k] == old(self).token_stream_stack@[k],
%at start:
    let ghost st0 = self.token_stream_stack@;
%at end:
    proof {
        lemma_rem_same(st0, self.token_stream_stack@, st0.len() as int);
        let la = lex_all(old(self).lexicon, text@, label@, 0);
        if la.len() > 0 {
            assert(self.token_stream_stack@.drop_last() =~= st0);
            assert(ts_rem(*self) == la + ts_rem(*old(self)));
        } else {
            assert(ts_rem(*self) =~= la + ts_rem(*old(self)));
        }
    }
@fn TokenStream::advance
%requires
    ts_wf(*old(self)),
%ensures
    ts_wf(*final(self)), final(self).lexicon == old(self).lexicon,
    old(self).token_stream_stack@.len() > 0 ==> ts_rem(*old(self)).len() > 0 && ts_rem(*final(self)) == ts_rem(*old(self)).skip(1),
    final(self).token_stream_stack@.len() <= old(self).token_stream_stack@.len(),
    // the end token, once, at the end of the text that was exhausted last
    old(self).token_stream_stack@.len() > 0 && ts_rem(*final(self)).len() == 0 ==>
        tokv(final(self).front) == TokV::Tok(old(self).lexicon.end_marker, Seq::empty(), end_loc(old(self).token_stream_stack@[0])),
    ts_rem(*final(self)).len() == 0 <==> final(self).token_stream_stack@.len() == 0,
    old(self).token_stream_stack@.len() == 0 ==> final(self).token_stream_stack@.len() == 0 && tokv(final(self).front) is Adv,
    old(self).token_stream_stack@.len() == 0 ==> tokv(final(self).front) == TokV::Adv(vloc(tokv(old(self).front))),
    final(self).token_stream_stack@.len() > 0 ==> end_loc(final(self).token_stream_stack@[0]) == end_loc(old(self).token_stream_stack@[0]),
%at start:
    let ghost st0 = self.token_stream_stack@;
    let ghost n0 = st0.len() as int;
    let ghost r0 = ts_rem(*self);
    let ghost lx = self.lexicon;
%at call advance:
    let ghost st1 = self.token_stream_stack@;
    proof {
        lemma_rem_same(st0, st1, n0 - 1);
        assert(rem(st1, n0) =~= r0.skip(1));
    }
%loop 1 invariant
    lx == self.lexicon, self.front == old(self).front, lx_wf(lx), n0 > 0, i <= n0, i == self.token_stream_stack@.len(), st1.len() == n0, st0.len() == n0,
    self.token_stream_stack@ == st1.take(i as int),
    forall|k: int| 0 <= k < n0 ==> bts_wf(#[trigger] st1[k]) && st1[k].lexicon == lx,
    forall|k: int| 0 <= k < n0 - 1 ==> (#[trigger] st1[k]).front.is_some() && st1[k] == st0[k],
    st1[0].text == st0[0].text && st1[0].location.label == st0[0].location.label,
    rem(st1, i as int) == rem(st1, n0),
    i < n0 ==> popped == Some(st1[i as int]) && st1[i as int].front.is_none(),
%loop 1 decreases
    i
%at loop 1 after:
    proof {
        lemma_rem_same(st1, self.token_stream_stack@, i as int);
    }
@fn TokenStream::new
%requires
    lx_wf(*lexicon),
%ensures
    ts_wf(r), r.lexicon == *lexicon,
    ts_rem(r) == lex_all(*lexicon, text@, label@, 0),
    ts_rem(r).len() > 0 ==> r.token_stream_stack@.len() == 1 && end_loc(r.token_stream_stack@[0]) == loc_at(label@, text@, text@.len() as int),
    ts_rem(r).len() == 0 ==> tokv(r.front) is Adv && r.token_stream_stack@.len() == 0,
@fn TokenStream::front_advance
%requires
    ts_wf(*old(self)),
%ensures
    ts_wf(*final(self)), r == old(self).front,
    old(self).token_stream_stack@.len() > 0 ==> ts_rem(*final(self)) == ts_rem(*old(self)).skip(1),
@fn TokenStream::advance_front
%requires
    ts_wf(*old(self)),
%ensures
    ts_wf(*final(self)), r == final(self).front,
    old(self).token_stream_stack@.len() > 0 ==> ts_rem(*final(self)) == ts_rem(*old(self)).skip(1),
@type LexicalAnalyzer
@fn LexicalAnalyzer::token_stream
%requires
    lx_wf(self.lexicon),
%ensures
    ts_wf(r), r.lexicon == self.lexicon,
    ts_rem(r) == lex_all(self.lexicon, text@, label@, 0),
