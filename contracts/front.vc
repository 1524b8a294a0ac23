# Contracts for the meaning of a specification's text (${DIR}): attributes and semantic actions
# The tables of parser.rs decide which production is reduced when; what the reduction of each production then does to
# the specification is stated here for every attribute and every state of the specification.
@import spec.vc
@source ${DIR}/src/attributes.rs attributes
@source ${DIR}/src/parser.rs parser
@map lexan::Token=LexToken lexan::Error=LexError lalr1::Error=ParserError alalr1::Error=ParserError
@strip F
@closureparam Specification::do_semantic_action aa_inject +inject_text
@raw
// ------------------------------------------------------------------ what the actions use of the lexer, of files, of regex
@end
@type AATerminal :: #[derive(Clone, Copy)]
@raw
impl VOrd for AATerminal { uninterp spec fn olt(self, o: AATerminal) -> bool; }
pub struct LexToken<T> { pub tag: T, pub text: Str, pub at: Location }
impl Location {
    pub uninterp spec fn of_text(&self) -> Str;
    #[verifier::external_body]
    pub fn label(&self) -> (r: &Str) ensures *r == self.of_text() { unimplemented!() }
}
impl<T> LexToken<T> {
    pub fn lexeme(&self) -> (r: &Str) ensures *r == self.text { &self.text }
    pub fn location(&self) -> (r: &Location) ensures *r == self.at { &self.at }
}
pub enum LexError<T> { UnexpectedText(Str, Location), AmbiguousMatches(Vec<T>, Str, Location), AdvancedWhenEmpty(Location) }
#[verifier::reject_recursive_types(T)]
pub enum ParserError<T> { LexicalError(LexError<T>, OrderedSet<T>), SyntaxError(LexToken<T>, OrderedSet<T>) }
#[verifier::external_body]
pub struct IoError { x: u8 }
#[verifier::external_body]
pub struct File { x: u8 }
// the text of the file of that name
pub uninterp spec fn disk(path: Seq<u8>) -> Seq<u8>;
impl File {
    pub uninterp spec fn path(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open(p: &Str) -> (r: Result<File, IoError>) ensures match r { Ok(f) => f.path() == p@, Err(_) => true } { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, b: &mut Str) -> (r: Result<usize, IoError>)
        ensures r is Ok ==> final(b)@ == old(b)@ + disk(old(self).path())
    { unimplemented!() }
}
// the texts injected so far; an empty text adds no token to the stream
#[verifier::external_body]
pub struct Inject { x: u8 }
impl Inject { pub uninterp spec fn view(&self) -> Seq<(Seq<u8>, Seq<u8>)>; }
#[verifier::external_body]
pub fn inject_text(f: &mut Inject, text: Str, label: Str)
    ensures final(f)@ == (if text@.len() == 0 { old(f)@ } else { old(f)@.push((text@, label@)) })
{ unimplemented!() }
pub open spec fn trim_start(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() { if s.len() > 0 && s[0] == c { trim_start(s.skip(1), c) } else { s } }
pub open spec fn trim_end(s: Seq<u8>, c: u8) -> Seq<u8> decreases s.len() { if s.len() > 0 && s.last() == c { trim_end(s.drop_last(), c) } else { s } }
pub open spec fn unquoted(s: Seq<u8>) -> Seq<u8> { trim_end(trim_start(s, 34), 34) }
pub trait VTrim { fn trim_matches(&self, c: char) -> (r: &Str); }
impl VTrim for Str {
    #[verifier::external_body]
    fn trim_matches(&self, c: char) -> (r: &Str) ensures (c as u32) < 128 ==> r@ == trim_end(trim_start(self@, c as u8), c as u8) { unimplemented!() }
}
pub trait VPrefix { fn starts_with(&self, p: &Str) -> (r: bool); }
impl VPrefix for Str {
    #[verifier::external_body]
    fn starts_with(&self, p: &Str) -> (r: bool) ensures r == (p@.len() <= self@.len() && self@.take(p@.len() as int) == p@) { unimplemented!() }
}
pub trait VText { fn to_string(&self) -> Str; }
impl VText for IoError { #[verifier::external_body] fn to_string(&self) -> Str { unimplemented!() } }
impl VText for Error { #[verifier::external_body] fn to_string(&self) -> Str { unimplemented!() } }
impl VText for NumberError { #[verifier::external_body] fn to_string(&self) -> Str { unimplemented!() } }
impl VText for RegexError { #[verifier::external_body] fn to_string(&self) -> Str { unimplemented!() } }
pub trait VHas<X> { fn contains(&self, x: &X) -> (r: bool); }
impl VHas<Str> for Vec<Str> {
    #[verifier::external_body]
    fn contains(&self, x: &Str) -> (r: bool) ensures r == self@.contains(*x) { unimplemented!() }
}
#[verifier::external_body]
pub fn vu32_from_str(s: &Str) -> (r: Result<u32, NumberError>)
    ensures
        is_number(s@) && number(s@) <= u32::MAX ==> match r { Ok(n) => n as int == number(s@), Err(_) => false },
        is_number(s@) && number(s@) > u32::MAX ==> r is Err,
        !is_number(s@) && !(s@.len() > 0 && s@[0] == 43) ==> r is Err,
{ unimplemented!() }
impl VInto<TagOrToken> for &Tag {
    open spec fn vinto_is(self, r: TagOrToken) -> bool { r == TagOrToken::Tag(*self) }
    fn vinto(self) -> (r: TagOrToken) { TagOrToken::from_tag(self) }
}
impl VInto<TagOrToken> for &Token {
    open spec fn vinto_is(self, r: TagOrToken) -> bool { r == TagOrToken::Token(*self) }
    fn vinto(self) -> (r: TagOrToken) { TagOrToken::from_token(self) }
}
impl TagOrToken {
    pub fn from<X: VInto<TagOrToken>>(x: X) -> (r: TagOrToken) ensures x.vinto_is(r) { x.vinto() }
}
@end
@type AttributeData
@type AANonTerminal :: #[derive(Clone, Copy)]
@raw
// the symbols on the stack of the parser of specifications, and (untrusted) tables about it: see vlift/src/tables.rs
pub enum Sy { Terminal(AATerminal), NonTerminal(AANonTerminal), Start, Error }
@end
@lrtables Specification
@raw
// ------------------------------------------------------------------ attributes
pub open spec fn has_text(x: AttributeData) -> bool {
    match x { AttributeData::Token(_) => true, AttributeData::SyntaxError(_, _) => true, AttributeData::LexicalError(e, _) => !(e is AdvancedWhenEmpty), _ => false }
}
pub open spec fn text(x: AttributeData) -> Str {
    match x {
        AttributeData::Token(t) => t.text, AttributeData::SyntaxError(t, _) => t.text,
        AttributeData::LexicalError(e, _) => match e { LexError::UnexpectedText(s, _) => s, LexError::AmbiguousMatches(_, s, _) => s, _ => arbitrary() },
        _ => arbitrary(),
    }
}
pub open spec fn has_place(x: AttributeData) -> bool { x is Token || x is SyntaxError || x is LexicalError }
pub open spec fn place(x: AttributeData) -> Location {
    match x {
        AttributeData::Token(t) => t.at, AttributeData::SyntaxError(t, _) => t.at,
        AttributeData::LexicalError(e, _) => match e { LexError::UnexpectedText(_, l) => l, LexError::AmbiguousMatches(_, _, l) => l, LexError::AdvancedWhenEmpty(l) => l },
        _ => arbitrary(),
    }
}
pub open spec fn nt_ok(h: Cells, n: NonTerminal) -> bool { nt_wf(n) && nt_has(h, data(n)) }
pub open spec fn sym_ok(h: Cells, y: Symbol) -> bool { match y { Symbol::Terminal(t) => tok_has(h, t), Symbol::NonTerminal(n) => nt_ok(h, n) } }
pub open spec fn syms_ok(h: Cells, l: Seq<Symbol>) -> bool { forall|i: int| 0 <= i < l.len() ==> sym_ok(h, #[trigger] l[i]) }
pub open spec fn lhs_ok(h: Cells, n: NonTerminal) -> bool { n is UserDefined && nt_ok(h, n) && h.defs[data(n)]@.len() > 0 }
pub open spec fn tail_ok(h: Cells, t: ProductionTail) -> bool { syms_ok(h, t.0.right_hand_side@) }
// the symbols that an attribute mentions are those of the specification's table
pub open spec fn attr_ok(x: AttributeData, h: Cells) -> bool {
    match x {
        AttributeData::Symbol(y) => sym_ok(h, y),
        AttributeData::SymbolList(l) => syms_ok(h, l@),
        AttributeData::LeftHandSide(n) => lhs_ok(h, n),
        AttributeData::TagOrToken(m) => member_has(h, m),
        AttributeData::TagOrTokenList(l) => forall|i: int| 0 <= i < l@.len() ==> member_has(h, #[trigger] l@[i]),
        AttributeData::ProductionTail(t) => tail_ok(h, t),
        AttributeData::ProductionTailList(l) => forall|i: int| 0 <= i < l@.len() ==> tail_ok(h, #[trigger] l@[i]),
        _ => true,
    }
}
// symbols never leave the table, definitions are never forgotten
pub open spec fn later(a: Cells, b: Cells) -> bool {
    &&& a.firsts.dom().subset_of(b.firsts.dom()) && a.used.dom().subset_of(b.used.dom()) && a.defs.dom().subset_of(b.defs.dom())
    &&& a.assoc.dom().subset_of(b.assoc.dom()) && a.prec.dom().subset_of(b.prec.dom())
    &&& forall|d: NonTerminalData| a.firsts.dom().contains(d) && a.defs[d]@.len() > 0 ==> (#[trigger] b.defs[d])@.len() > 0
}
pub proof fn lemma_attributes_stay(x: AttributeData, a: Cells, b: Cells)
    requires attr_ok(x, a), later(a, b)
    ensures attr_ok(x, b)
{
    assert forall|y: Symbol| sym_ok(a, y) implies #[trigger] sym_ok(b, y) by {}
    assert forall|m: TagOrToken| member_has(a, m) implies #[trigger] member_has(b, m) by {}
    assert forall|t: ProductionTail| tail_ok(a, t) implies #[trigger] tail_ok(b, t) by {}
}
// the specification while its text is read
pub open spec fn front_ok(s: Specification, h: Cells) -> bool {
    &&& table_wf(s.symbol_table, h) && numbered(s.productions@) && g_in(s.productions@, h.firsts) && none_yet(h.firsts)
    &&& no_error_production(s.productions@)
}
pub proof fn lemma_parsed(s: Specification, h: Cells)
    requires front_ok(s, h), s.productions@.len() < 0xFFFF_FFFF
    ensures parsed(s, h)
{}

// ------------------------------------------------------------------ the productions
pub enum Rule {
    Empty, Keep, InjectHead, Inject, Preamble, AttrType, Target, ExpectRR, ExpectSR, Number,
    TokLit, TokRegex, Pattern, NewName, Skip, Prec(Associativity), Tags1, TagsMore, TagLit, TagName,
    Group, Lhs, Tails1, TailsMore, Tail(bool, bool, bool, bool), Action, Predicate, PrecName, PrecLit,
    Syms1, SymsMore, SymName, SymLit, SymError,
}
@end
@if AUG=0
@raw
pub open spec fn rule(id: u32) -> Rule {
    match id {
        2 => Rule::Empty, 4 => Rule::InjectHead, 5 => Rule::Inject, 6 => Rule::Empty, 7 => Rule::Preamble, 10 => Rule::AttrType, 11 => Rule::Target,
        17 => Rule::ExpectRR, 18 => Rule::ExpectSR, 19 => Rule::Number,
        23 => Rule::TokLit, 24 => Rule::TokRegex, 25 => Rule::Pattern, 26 => Rule::NewName, 27 => Rule::Empty, 29 => Rule::Skip, 30 => Rule::Empty,
        32 => Rule::Prec(Associativity::Left), 33 => Rule::Prec(Associativity::Right), 34 => Rule::Prec(Associativity::NonAssoc),
        35 => Rule::Tags1, 36 => Rule::TagsMore, 37 => Rule::TagLit, 38 => Rule::TagName,
        41 => Rule::Group, 42 => Rule::Lhs, 43 => Rule::Tails1, 44 => Rule::TailsMore,
        45 => Rule::Tail(false, false, false, false), 46 => Rule::Tail(false, false, false, true),
        47 => Rule::Tail(true, false, true, true), 48 => Rule::Tail(true, false, true, false), 49 => Rule::Tail(true, false, false, true), 50 => Rule::Tail(true, false, false, false),
        51 => Rule::Action, 52 => Rule::PrecName, 53 => Rule::PrecLit,
        54 => Rule::Syms1, 55 => Rule::SymsMore, 56 => Rule::SymName, 57 => Rule::SymLit, 58 => Rule::SymError,
        _ => Rule::Keep,
    }
}
pub open spec fn tail_predicate(t: ProductionTail) -> Option<Str> { None }
pub open spec fn is_predicate(x: AttributeData) -> bool { false }
impl AANonTerminal { pub open spec fn is_predicate(self) -> bool { false } }
pub open spec fn last_rule() -> u32 { 58 }
pub open spec fn predicate_of(x: AttributeData) -> Str { arbitrary() }
@end
@endif
@if AUG=1
@raw
pub open spec fn rule(id: u32) -> Rule {
    match id {
        2 => Rule::Empty, 4 => Rule::InjectHead, 5 => Rule::Inject, 6 => Rule::Empty, 7 => Rule::Preamble, 10 => Rule::AttrType, 11 => Rule::Target,
        17 => Rule::ExpectRR, 18 => Rule::ExpectSR, 19 => Rule::Number,
        23 => Rule::TokLit, 24 => Rule::TokRegex, 25 => Rule::Pattern, 26 => Rule::NewName, 28 => Rule::Empty, 30 => Rule::Skip, 31 => Rule::Empty,
        33 => Rule::Prec(Associativity::Left), 34 => Rule::Prec(Associativity::Right), 35 => Rule::Prec(Associativity::NonAssoc),
        36 => Rule::Tags1, 37 => Rule::TagsMore, 38 => Rule::TagLit, 39 => Rule::TagName,
        42 => Rule::Group, 43 => Rule::Lhs, 44 => Rule::Tails1, 45 => Rule::TailsMore,
        46 => Rule::Tail(false, false, false, false), 47 => Rule::Tail(false, false, false, true),
        48 => Rule::Tail(false, true, false, true), 49 => Rule::Tail(false, true, false, false),
        50 => Rule::Tail(true, true, true, true), 51 => Rule::Tail(true, true, true, false), 52 => Rule::Tail(true, true, false, true), 53 => Rule::Tail(true, true, false, false),
        54 => Rule::Tail(true, false, true, true), 55 => Rule::Tail(true, false, true, false), 56 => Rule::Tail(true, false, false, true), 57 => Rule::Tail(true, false, false, false),
        58 => Rule::Action, 59 => Rule::Predicate, 60 => Rule::PrecName, 61 => Rule::PrecLit,
        62 => Rule::Syms1, 63 => Rule::SymsMore, 64 => Rule::SymName, 65 => Rule::SymLit, 66 => Rule::SymError,
        _ => Rule::Keep,
    }
}
pub open spec fn tail_predicate(t: ProductionTail) -> Option<Str> { t.0.predicate }
pub open spec fn is_predicate(x: AttributeData) -> bool { x is Predicate }
impl AANonTerminal { pub open spec fn is_predicate(self) -> bool { self is Predicate } }
pub open spec fn last_rule() -> u32 { 66 }
pub open spec fn predicate_of(x: AttributeData) -> Str { x->Predicate_0 }
@end
@endif
@raw
pub open spec fn n(b: bool) -> int { if b { 1 } else { 0 } }
pub open spec fn delimited(s: Seq<u8>) -> bool { s.len() >= 4 && bound(s, 2) && bound(s, s.len() - 2) }
pub open spec fn inner(s: Seq<u8>) -> Seq<u8> { s.subrange(2, s.len() - 2) }
pub open spec fn new_tok_key(name: AttributeData, def: AttributeData) -> Key { Key::Tok(TokenData { name: text(name), text: text(def), defined_at: place(name) }) }
pub open spec fn new_tag_key(name: AttributeData) -> Key { Key::Tag(TagData { name: text(name), defined_at: place(name) }) }
// the attributes of the production's right hand side
pub open spec fn fits(r: Rule, a: Seq<AttributeData>, s: Specification, h: Cells) -> bool {
    match r {
        Rule::Empty => true, Rule::Keep => true,
        Rule::InjectHead | Rule::AttrType | Rule::Target | Rule::Skip => a.len() == 2 && has_text(a[1]),
        Rule::Inject => a.len() == 2 && has_text(a[0]),
        Rule::Preamble => a.len() == 3 && has_text(a[1]) && delimited(text(a[1])@),
        Rule::ExpectRR | Rule::ExpectSR => a.len() == 2 && a[1] is Number,
        Rule::Number => a.len() == 1 && has_text(a[0]),
        Rule::TokLit | Rule::TokRegex => a.len() == 3 && has_text(a[1]) && has_text(a[2]) && !h.prec.dom().contains(new_tok_key(a[1], a[2])),
        Rule::Pattern | Rule::NewName => a.len() == 1 && has_text(a[0]),
        Rule::Prec(_) => a.len() == 2 && a[1] is TagOrTokenList && s.symbol_table.last_precedence < u16::MAX,
        Rule::Tags1 => a.len() == 1 && a[0] is TagOrToken,
        Rule::TagsMore => a.len() == 2 && a[0] is TagOrTokenList && a[1] is TagOrToken,
        Rule::TagLit => a.len() == 1 && has_text(a[0]),
        Rule::TagName => a.len() == 1 && has_text(a[0]) && !h.prec.dom().contains(new_tag_key(a[0])),
        Rule::Group => a.len() == 3 && a[0] is LeftHandSide && a[1] is ProductionTailList && s.productions@.len() + a[1]->ProductionTailList_0@.len() < 0xFFFF_FFFE,
        Rule::Lhs => a.len() == 2 && has_text(a[0]) && user_name(text(a[0])),
        Rule::Tails1 => a.len() == 1 && a[0] is ProductionTail,
        Rule::TailsMore => a.len() == 3 && a[0] is ProductionTailList && a[2] is ProductionTail,
        Rule::Tail(sy, pd, pc, ac) => {
            &&& a.len() == n(sy) + n(pd) + n(pc) + n(ac)
            &&& sy ==> a[0] is SymbolList
            &&& pd ==> is_predicate(a[n(sy)])
            &&& pc ==> a[n(sy) + n(pd)] is AssociativityAndPrecedence
            &&& ac ==> a[n(sy) + n(pd) + n(pc)] is Action
        },
        Rule::Action | Rule::Predicate => a.len() == 1 && has_text(a[0]) && delimited(text(a[0])@),
        Rule::PrecName | Rule::PrecLit => a.len() == 2 && has_text(a[1]),
        Rule::Syms1 => a.len() == 1 && a[0] is Symbol,
        Rule::SymsMore => a.len() == 2 && a[0] is SymbolList && a[1] is Symbol,
        Rule::SymName => a.len() == 1 && has_text(a[0]) && user_name(text(a[0])),
        Rule::SymLit => a.len() == 1 && has_text(a[0]),
        Rule::SymError => a.len() == 1 && has_text(a[0]),
    }
}
pub open spec fn error_of(s: Specification, t: Specification) -> bool { t == (Specification { error_count: (s.error_count + 1) as u32, ..s }) }
pub open spec fn first_or_default(a: Seq<AttributeData>, r: AttributeData) -> bool { if a.len() > 0 { r == a[0] } else { r is Default } }
// C17: the symbols, and what the names, literals and precedences of the text denote
// a name or text that is in use already is reported (reports, below) and nothing else
pub open spec fn token_defined(a: SymbolTable, h: Cells, b: SymbolTable, h1: Cells, nm: AttributeData, df: AttributeData, lit: bool) -> bool {
    let d = TokenData { name: text(nm), text: text(df), defined_at: place(nm) };
    let tok = if lit { Token::Literal(d) } else { Token::Regex(d) };
    &&& new_cells(h, h1, Key::Tok(d))
    &&& b.tokens@ == a.tokens@.insert(text(nm), tok)
    &&& lit ==> b == (SymbolTable { tokens: b.tokens, literal_tokens: b.literal_tokens, ..a })
    &&& !lit ==> b == (SymbolTable { tokens: b.tokens, regex_tokens: b.regex_tokens, ..a })
    &&& !token_taken(a, nm, df, lit) && lit ==> b.literal_tokens@ == a.literal_tokens@.insert(text(df), tok)
    &&& !token_taken(a, nm, df, lit) && !lit ==> b.regex_tokens@ == a.regex_tokens@.insert(text(df), tok)
}
pub open spec fn token_taken(a: SymbolTable, nm: AttributeData, df: AttributeData, lit: bool) -> bool {
    a.tokens@.dom().contains(text(nm)) || (if lit { a.literal_tokens@ } else { a.regex_tokens@ }).dom().contains(text(df))
}
pub open spec fn denotes(ru: Rule, a: Seq<AttributeData>, s: Specification, h: Cells, t: Specification, h1: Cells, r: AttributeData) -> bool {
    let tab = s.symbol_table;
    let b = t.symbol_table;
    match ru {
        Rule::TokLit => token_defined(tab, h, b, h1, a[1], a[2], true),
        Rule::TokRegex => token_defined(tab, h, b, h1, a[1], a[2], false),
        Rule::Skip => h1 == h && b == (SymbolTable { skip_rules: b.skip_rules, ..tab }),
        Rule::Prec(asc) => {
            let l = a[1]->TagOrTokenList_0@;
            let p = (tab.last_precedence + 1) as u16;
            &&& b == (SymbolTable { last_precedence: p, ..tab })
            &&& h1 == (Cells { assoc: h1.assoc, prec: h1.prec, ..h })
            &&& h1.assoc.dom() == h.assoc.dom() && h1.prec.dom() == h.prec.dom()
            &&& forall|k: Key| #[trigger] h1.prec.dom().contains(k) ==> h1.prec[k] == (if member(l, k) { p } else { h.prec[k] })
            &&& forall|k: Key| #[trigger] h1.assoc.dom().contains(k) ==> h1.assoc[k] == (if member(l, k) { asc } else { h.assoc[k] })
        },
        Rule::Tags1 => b == tab && h1 == h && r is TagOrTokenList && r->TagOrTokenList_0@ =~= seq![a[0]->TagOrToken_0],
        Rule::TagsMore => b == tab && h1 == h && r is TagOrTokenList && r->TagOrTokenList_0@ =~= a[0]->TagOrTokenList_0@.push(a[1]->TagOrToken_0),
        Rule::TagLit => b == tab && h1 == h && r is TagOrToken && r->TagOrToken_0 == (if tab.literal_tokens@.dom().contains(text(a[0])) { TagOrToken::Token(tab.literal_tokens@[text(a[0])]) } else { TagOrToken::Invalid }),
        Rule::TagName => {
            let w = text(a[0]);
            let g = TagData { name: w, defined_at: place(a[0]) };
            &&& r is TagOrToken
            &&& if tab.tokens@.dom().contains(w) { b == tab && h1 == h && r->TagOrToken_0 == TagOrToken::Token(tab.tokens@[w]) } else {
                &&& new_cells(h, h1, Key::Tag(g))
                &&& b == (SymbolTable { tags: b.tags, ..tab }) && b.tags@ == tab.tags@.insert(w, Tag(g))
                &&& r->TagOrToken_0 == (if tab.tags@.dom().contains(w) { TagOrToken::Invalid } else { TagOrToken::Tag(Tag(g)) })
            }
        },
        Rule::Group => b == tab && h1 == (Cells { used: h1.used, ..h }),
        Rule::Lhs => {
            let w = text(a[0]);
            &&& r == AttributeData::LeftHandSide(nt_of(w))
            &&& if lhs_taken(s, a[0]) { b == tab } else {
                &&& b == (SymbolTable { non_terminals: b.non_terminals, ..tab })
                &&& b.non_terminals@ =~= tab.non_terminals@.insert(w, nt_of(w))
                &&& tab.non_terminals@.dom().contains(w) ==> defined_once_more(h, h1, data(nt_of(w)), place(a[0]))
                &&& !tab.non_terminals@.dom().contains(w) ==> new_nt(h, h1, data(nt_of(w)), seq![], seq![place(a[0])])
            }
        },
        Rule::Tail(sy, pd, pc, ac) => {
            let l = if sy { a[0]->SymbolList_0@ } else { Seq::<Symbol>::empty() };
            let p = a[n(sy) + n(pd)];
            &&& b == tab && h1 == h && r is ProductionTail
            &&& (r->ProductionTail_0.0.associativity, r->ProductionTail_0.0.precedence) == (if pc { (p->AssociativityAndPrecedence_0, p->AssociativityAndPrecedence_1) } else { match first_token(l) { Some(k) => (tok_assoc(h, k), tok_prec(h, k)), None => (Associativity::NonAssoc, 0u16) } })
        },
        Rule::PrecName => {
            let w = text(a[1]);
            &&& b == tab && r is AssociativityAndPrecedence
            &&& if tab.tags@.dom().contains(w) {
                let g = tab.tags@[w];
                pushed(h, h1, Key::Tag(g.0), place(a[1])) && r == AttributeData::AssociativityAndPrecedence(h.assoc[Key::Tag(g.0)], h.prec[Key::Tag(g.0)])
            } else {
                h1 == h && (tab.tokens@.dom().contains(w) ==> r == AttributeData::AssociativityAndPrecedence(tok_assoc(h, tab.tokens@[w]), tok_prec(h, tab.tokens@[w])))
            }
        },
        Rule::PrecLit => {
            let w = text(a[1]);
            &&& b == tab && h1 == h && r is AssociativityAndPrecedence
            &&& tab.literal_tokens@.dom().contains(w) ==> r == AttributeData::AssociativityAndPrecedence(tok_assoc(h, tab.literal_tokens@[w]), tok_prec(h, tab.literal_tokens@[w]))
        },
        Rule::SymName => {
            let w = text(a[0]);
            &&& r is Symbol
            &&& if tab.tokens@.dom().contains(w) {
                b == tab && r->Symbol_0 == Symbol::Terminal(tab.tokens@[w]) && pushed(h, h1, tok_key(tab.tokens@[w]), place(a[0]))
            } else {
                &&& r->Symbol_0 == Symbol::NonTerminal(nt_of(w)) && with_nt(tab, b, w)
                &&& tab.non_terminals@.dom().contains(w) ==> pushed(h, h1, data(nt_of(w)).key(), place(a[0]))
                &&& !tab.non_terminals@.dom().contains(w) ==> new_nt(h, h1, data(nt_of(w)), seq![place(a[0])], seq![])
            }
        },
        Rule::SymLit => {
            let w = text(a[0]);
            &&& b == tab && r is Symbol
            &&& if tab.literal_tokens@.dom().contains(w) {
                r->Symbol_0 == Symbol::Terminal(tab.literal_tokens@[w]) && pushed(h, h1, tok_key(tab.literal_tokens@[w]), place(a[0]))
            } else { r->Symbol_0 == Symbol::NonTerminal(tab.error_non_terminal) && pushed(h, h1, data(tab.error_non_terminal).key(), place(a[0])) }
        },
        Rule::SymError => b == tab && r == AttributeData::Symbol(Symbol::NonTerminal(tab.error_non_terminal)) && pushed(h, h1, data(tab.error_non_terminal).key(), place(a[0])),
        _ => b == tab && h1 == h,
    }
}
// C16: the productions and their order
// what stands in the tails of a production group becomes its productions, in their order
pub open spec fn group_added(s: Specification, t: Specification, l: NonTerminal, tails: Seq<ProductionTail>, k: int) -> bool {
    let p0 = s.productions@;
    let p1 = t.productions@;
    let b = if p0.len() == 0 && k > 0 { 1int } else { p0.len() as int };
    &&& p1.len() == b + k
    &&& forall|i: int| 0 <= i < p0.len() ==> #[trigger] p1[i] == p0[i]
    &&& forall|i: int| b <= i < b + k ==> (#[trigger] p1[i]).lhs() == l && p1[i].0.tail == tails[i - b]
    &&& p0.len() == 0 && k > 0 ==> p1[0].lhs() == s.symbol_table.start_non_terminal && p1[0].rhs() =~= seq![Symbol::NonTerminal(l)]
}
pub open spec fn produces(ru: Rule, a: Seq<AttributeData>, s: Specification, t: Specification, r: AttributeData) -> bool {
    match ru {
        Rule::Group => group_added(s, t, a[0]->LeftHandSide_0, a[1]->ProductionTailList_0@, a[1]->ProductionTailList_0@.len() as int),
        Rule::Tails1 => t.productions == s.productions && r is ProductionTailList && r->ProductionTailList_0@ =~= seq![a[0]->ProductionTail_0],
        Rule::TailsMore => t.productions == s.productions && r is ProductionTailList && r->ProductionTailList_0@ =~= a[0]->ProductionTailList_0@.push(a[2]->ProductionTail_0),
        Rule::Tail(sy, pd, pc, ac) => {
            let l = if sy { a[0]->SymbolList_0@ } else { Seq::<Symbol>::empty() };
            t.productions == s.productions && r is ProductionTail && r->ProductionTail_0.0.right_hand_side@ =~= l
        },
        Rule::Syms1 => t.productions == s.productions && r is SymbolList && r->SymbolList_0@ =~= seq![a[0]->Symbol_0],
        Rule::SymsMore => t.productions == s.productions && r is SymbolList && r->SymbolList_0@ =~= a[0]->SymbolList_0@.push(a[1]->Symbol_0),
        _ => t.productions == s.productions,
    }
}
// C13: the errors, and the expected numbers of conflicts
// (a number that isn't one: whatever u32::from_str takes or refuses)
pub open spec fn errors(ru: Rule, a: Seq<AttributeData>, s: Specification, h: Cells) -> int {
    let tab = s.symbol_table;
    match ru {
        Rule::Number => n(is_number(text(a[0])@) && number(text(a[0])@) > u32::MAX),
        Rule::TokLit => n(token_taken(tab, a[1], a[2], true)),
        Rule::TokRegex => n(token_taken(tab, a[1], a[2], false)),
        Rule::Pattern => n(!pattern_ok(text(a[0])@)),
        Rule::Skip => n(tab.skip_rules@.contains(text(a[1]))),
        Rule::TagLit => n(!tab.literal_tokens@.dom().contains(text(a[0])) || tok_prec(h, tab.literal_tokens@[text(a[0])]) > 0),
        Rule::TagName => n(if tab.tokens@.dom().contains(text(a[0])) { tok_prec(h, tab.tokens@[text(a[0])]) > 0 } else { tab.tags@.dom().contains(text(a[0])) }),
        Rule::Lhs => n(lhs_taken(s, a[0])),
        Rule::PrecName => n(!tab.tags@.dom().contains(text(a[1])) && !tab.tokens@.dom().contains(text(a[1]))),
        Rule::PrecLit => n(!tab.literal_tokens@.dom().contains(text(a[1]))),
        Rule::SymLit => n(!tab.literal_tokens@.dom().contains(text(a[0]))),
        _ => 0,
    }
}
pub open spec fn reports(ru: Rule, a: Seq<AttributeData>, s: Specification, h: Cells, t: Specification, i0: Seq<(Seq<u8>, Seq<u8>)>, i1: Seq<(Seq<u8>, Seq<u8>)>, r: AttributeData) -> bool {
    &&& t.error_count == s.error_count + errors(ru, a, s, h) || (ru is Number && !is_number(text(a[0])@) && t.error_count == s.error_count + 1) || (ru is Inject && t.error_count == s.error_count + 1)
    &&& ru is Inject ==> (t.error_count == s.error_count <==> i1.len() > i0.len())
    &&& t.expected_rr_conflicts == (if ru is ExpectRR { a[1]->Number_0 } else { s.expected_rr_conflicts })
    &&& t.expected_sr_conflicts == (if ru is ExpectSR { a[1]->Number_0 } else { s.expected_sr_conflicts })
    &&& ru is Number ==> r is Number && (is_number(text(a[0])@) && number(text(a[0])@) <= u32::MAX ==> r->Number_0 as int == number(text(a[0])@))
}
// C14, C15: the texts that are copied to the output
pub open spec fn copies(ru: Rule, a: Seq<AttributeData>, s: Specification, t: Specification, r: AttributeData) -> bool {
    &&& if ru is Preamble { t.preamble@ == inner(text(a[1])@) } else { t.preamble == s.preamble }
    &&& t.attribute_type == (if ru is AttrType { text(a[1]) } else { s.attribute_type })
    &&& t.target_type == (if ru is Target { text(a[1]) } else { s.target_type })
    &&& if ru is Skip && !s.symbol_table.skip_rules@.contains(text(a[1])) { t.symbol_table.skip_rules@ == s.symbol_table.skip_rules@.push(text(a[1])) } else { t.symbol_table.skip_rules == s.symbol_table.skip_rules }
    &&& match ru {
        Rule::Tail(sy, pd, pc, ac) => {
            &&& r is ProductionTail
            &&& r->ProductionTail_0.0.action == (if ac { Some(a[n(sy) + n(pd) + n(pc)]->Action_0) } else { None::<Str> })
            &&& tail_predicate(r->ProductionTail_0) == (if pd { Some(predicate_of(a[n(sy)])) } else { None::<Str> })
        },
        Rule::Action => r is Action && r->Action_0@ == inner(text(a[0])@),
        Rule::Predicate => is_predicate(r) && predicate_of(r)@ == inner(text(a[0])@),
        _ => true,
    }
}
// the texts within which the text of that label stands, and that text
pub open spec fn being_injected(s: Specification, label: Str) -> Seq<Str> {
    (if s.injected_within@.dom().contains(label) { s.injected_within@[label]@ } else { Seq::empty() }).push(label)
}
// C17: an injected file's text stands in the specification's place where it is injected; other attributes are passed on
pub open spec fn passes(ru: Rule, a: Seq<AttributeData>, i0: Seq<(Seq<u8>, Seq<u8>)>, i1: Seq<(Seq<u8>, Seq<u8>)>, r: AttributeData) -> bool {
    &&& match ru {
        Rule::Inject => i1 == i0 || ({ let p = unquoted(text(a[0])@); disk(p).len() > 0 && i1 == i0.push((disk(p), p)) }),
        _ => i1 == i0,
    }
    &&& ru is InjectHead ==> r == a[1]
    &&& match ru {
        Rule::Empty | Rule::Keep | Rule::Inject | Rule::Preamble | Rule::AttrType | Rule::Target | Rule::ExpectRR | Rule::ExpectSR | Rule::TokLit | Rule::TokRegex
        | Rule::Pattern | Rule::NewName | Rule::Skip | Rule::Prec(_) | Rule::Group => first_or_default(a, r),
        _ => true,
    }
}
// the left hand side has the name of a token (reported as an error)
pub open spec fn lhs_taken(s: Specification, x: AttributeData) -> bool { s.symbol_table.tokens@.dom().contains(text(x)) && !s.symbol_table.non_terminals@.dom().contains(text(x)) }
pub open spec fn conflict(ru: Rule, a: Seq<AttributeData>, s: Specification) -> bool { ru is Lhs && lhs_taken(s, a[0]) }
@end
@raw
// the place of a symbol is recorded; a symbol is new; precedences are set: all as before otherwise
pub proof fn lemma_kept(s: Specification, h: Cells, t: Specification, h1: Cells)
    requires front_ok(s, h), t.productions == s.productions, table_wf(t.symbol_table, h1), h.firsts.dom().subset_of(h1.firsts.dom()), none_yet(h1.firsts)
    ensures front_ok(t, h1)
{
    let g = s.productions@;
    assert forall|p: Production| #[trigger] g.contains(p) implies nt_in(h1.firsts, p.lhs()) && syms_in(h1.firsts, p.rhs()) by {}
}
pub proof fn lemma_group(s: Specification, h: Cells, t: Specification, h1: Cells, l: NonTerminal, tails: Seq<ProductionTail>, k: int)
    requires
        front_ok(s, h), lhs_ok(h, l), t.symbol_table == s.symbol_table, group_added(s, t, l, tails, k), 0 <= k <= tails.len(),
        forall|i: int| 0 <= i < tails.len() ==> tail_ok(h, #[trigger] tails[i]),
        h1 == (Cells { used: h1.used, ..h }), table_wf(t.symbol_table, h1), numbered(t.productions@),
    ensures front_ok(t, h1)
{
    let g = s.productions@;
    let g1 = t.productions@;
    let b = if g.len() == 0 && k > 0 { 1int } else { g.len() as int };
    lemma_table_in(s.symbol_table, h);
    assert forall|p: Production| #[trigger] g1.contains(p) implies nt_in(h1.firsts, p.lhs()) && syms_in(h1.firsts, p.rhs()) && !(p.lhs() is Error) by {
        let i = choose|i: int| 0 <= i < g1.len() && g1[i] == p;
        if i < g.len() { assert(g.contains(g[i])); }
        else if i >= b {
            assert(tail_ok(h, tails[i - b]));
            assert forall|j: int| 0 <= j < p.rhs().len() implies ((#[trigger] p.rhs()[j]) matches Symbol::NonTerminal(m) ==> nt_in(h1.firsts, m)) by { assert(sym_ok(h, p.rhs()[j])); }
        }
    }
    assert forall|i: int| 0 <= i < g1.len() implies !((#[trigger] g1[i]).lhs() is Error) by { assert(g1.contains(g1[i])); }
}
@end
# ---------------------------------------------------------------- tags or tokens
@fn TagOrToken::From<&Tag>.from =TagOrToken::from_tag
%ensures r == TagOrToken::Tag(*tag)
@fn TagOrToken::From<&Token>.from =TagOrToken::from_token
%ensures r == TagOrToken::Token(*token)
# ---------------------------------------------------------------- attributes
@fn AttributeData::matched_text
%requires has_text(*self)
%ensures *r == text(*self)
@fn AttributeData::location
%requires has_place(*self)
%ensures *r == place(*self)
@fn AttributeData::text_and_location
%requires has_text(*self)
%ensures *r.0 == text(*self), *r.1 == place(*self)
@fn AttributeData::number
%requires self is Number
%ensures r == self->Number_0
@fn AttributeData::symbol
%requires self is Symbol
%ensures *r == self->Symbol_0
@fn AttributeData::symbol_list
%requires self is SymbolList
%ensures *r == self->SymbolList_0
@fn AttributeData::symbol_list_mut
%requires *old(self) is SymbolList
%ensures *r == (*old(self))->SymbolList_0, *final(self) == AttributeData::SymbolList(*final(r))
@fn AttributeData::left_hand_side
%requires self is LeftHandSide
%ensures *r == self->LeftHandSide_0
@fn AttributeData::tag_or_token
%requires self is TagOrToken
%ensures *r == self->TagOrToken_0
@fn AttributeData::tag_or_token_list
%requires self is TagOrTokenList
%ensures *r == self->TagOrTokenList_0
@fn AttributeData::tag_or_token_list_mut
%requires *old(self) is TagOrTokenList
%ensures *r == (*old(self))->TagOrTokenList_0, *final(self) == AttributeData::TagOrTokenList(*final(r))
@fn AttributeData::production_tail
%requires self is ProductionTail
%ensures *r == self->ProductionTail_0
@fn AttributeData::production_tail_list
%requires self is ProductionTailList
%ensures *r == self->ProductionTailList_0
@fn AttributeData::production_tail_list_mut
%requires *old(self) is ProductionTailList
%ensures *r == (*old(self))->ProductionTailList_0, *final(self) == AttributeData::ProductionTailList(*final(r))
@fn AttributeData::action
%requires self is Action
%ensures *r == self->Action_0
@fn AttributeData::associativity_and_precedence
%opt heap
%requires self is AssociativityAndPrecedence
%ensures r == (self->AssociativityAndPrecedence_0, self->AssociativityAndPrecedence_1)
@if AUG=1
@fn AttributeData::predicate
%requires self is Predicate
%ensures *r == self->Predicate_0
@endif
@fn AttributeData::From<lexan::Token<AATerminal>>.from =AttributeData::from_token
%ensures r == AttributeData::Token(token)
@if AUG=0
@fn AttributeData::From<lalr1::Error<AATerminal>>.from =AttributeData::from_error
@endif
@if AUG=1
@fn AttributeData::From<alalr1::Error<AATerminal>>.from =AttributeData::from_error
@endif
%ensures match error { ParserError::LexicalError(e, x) => r == AttributeData::LexicalError(e, x), ParserError::SyntaxError(t, x) => r == AttributeData::SyntaxError(t, x) }
# ---------------------------------------------------------------- the specification
@fn Specification::is_allowable_name
%at result: proof { let n2 = name@.take(2); if name@.len() >= 2 { assert(n2[0] == name@[0] && n2[1] == name@[1]); assert(n2 == seq![97u8, 97u8] || n2[0] != 97 || n2[1] != 97) by { if n2[0] == 97 && n2[1] == 97 { assert(n2 =~= seq![97u8, 97u8]); } } assert(n2 == seq![65u8, 65u8] || n2[0] != 65 || n2[1] != 65) by { if n2[0] == 65 && n2[1] == 65 { assert(n2 =~= seq![65u8, 65u8]); } } } }
%ensures r == !(name@.len() >= 2 && ((name@[0] == 97 && name@[1] == 97) || (name@[0] == 65 && name@[1] == 65)))
@fn Specification::error
%requires old(self).error_count < u32::MAX
%ensures error_of(*old(self), *final(self))
@fn Specification::warning
%requires old(self).warning_count < u32::MAX
%ensures *final(self) == (Specification { warning_count: (old(self).warning_count + 1) as u32, ..*old(self) })
@fn Specification::start_injection
%loop 1 invariant
    __i1 <= __it1@.len(), within@ == being_injected(*old(self), *label), __it1@.len() == within@.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == within@[i],
    __r1 ==> within@.contains(*file_path), !__r1 ==> !within@.take(__i1 as int).contains(*file_path),
    *self == *old(self),
%loop 1 ensures __r1 || __i1 == __it1@.len()
%loop 1 decreases __it1.len() - __i1
%at loop 1 after: proof { if !__r1 && within@.contains(*file_path) { let i = within@.index_of(*file_path); assert(within@.take(__i1 as int)[i] == *file_path); } }
%ensures
    r == !being_injected(*old(self), *label).contains(*file_path),
    *final(self) == (Specification { injected_within: final(self).injected_within, ..*old(self) }),
    final(self).injected_within@.dom() == (if r { old(self).injected_within@.dom().insert(*file_path) } else { old(self).injected_within@.dom() }),
    forall|k: Str| old(self).injected_within@.dom().contains(k) && !(r && k == *file_path) ==> #[trigger] final(self).injected_within@[k] == old(self).injected_within@[k],
    r ==> final(self).injected_within@[*file_path]@ == being_injected(*old(self), *label),
@fn Specification::set_preamble
%ensures *final(self) == (Specification { preamble: *preamble, ..*old(self) })
@fn SymbolTable::add_skip_rule
%ensures
    match r {
        Ok(_) => !old(self).skip_rules@.contains(*skip_rule) && *final(self) == (SymbolTable { skip_rules: final(self).skip_rules, ..*old(self) }) && final(self).skip_rules@ == old(self).skip_rules@.push(*skip_rule),
        Err(_) => old(self).skip_rules@.contains(*skip_rule) && *final(self) == *old(self),
    },
# ---------------------------------------------------------------- semantic actions
@fn Specification::do_semantic_action
%opt heapmut nogen
%pty aa_inject &mut Inject
%requires
    front_ok(*old(self), old(vh)@), fits(rule(aa_production_id), aa_rhs@, *old(self), old(vh)@),
    forall|i: int| 0 <= i < aa_rhs@.len() ==> attr_ok(#[trigger] aa_rhs@[i], old(vh)@),
    old(self).error_count < 0xFFFF_FFFF, old(self).warning_count < 0xFFFF_FFFF,
%ensures
    denotes(rule(aa_production_id), aa_rhs@, *old(self), old(vh)@, *final(self), final(vh)@, r),
    produces(rule(aa_production_id), aa_rhs@, *old(self), *final(self), r),
    reports(rule(aa_production_id), aa_rhs@, *old(self), old(vh)@, *final(self), old(aa_inject__0)@, final(aa_inject__0)@, r),
    copies(rule(aa_production_id), aa_rhs@, *old(self), *final(self), r),
    passes(rule(aa_production_id), aa_rhs@, old(aa_inject__0)@, final(aa_inject__0)@, r),
    !conflict(rule(aa_production_id), aa_rhs@, *old(self)) ==> front_ok(*final(self), final(vh)@) && attr_ok(r, final(vh)@),
    later(old(vh)@, final(vh)@),
%at result: proof {
        let ru = rule(aa_production_id);
        if !conflict(ru, a0, s0) { if !(ru is Group) { lemma_kept(s0, h0, *self, vh@); } }
    }
%at start: let ghost s0 = *self; let ghost h0 = vh@; let ghost a0 = aa_rhs@; let ghost j0 = aa_inject__0@;
    proof {
        let ru = rule(aa_production_id);
        lemma_grown(s0.symbol_table, h0); lemma_table_in(s0.symbol_table, h0);
        if a0.len() > 0 && (ru is Lhs || ru is SymName) { lemma_nt_of(s0.symbol_table, h0, text(a0[0])); }
        assert forall|i: int| 0 <= i < a0.len() implies attr_ok(#[trigger] a0[i], h0) by {}
    }
%loop 1 invariant
    __i1 <= __it1@.len(), a0 == aa_rhs@, __it1@.len() == a0[1]->ProductionTailList_0@.len(),
    forall|i: int| 0 <= i < __it1@.len() ==> *(#[trigger] __it1@[i]) == a0[1]->ProductionTailList_0@[i],
    a0.len() == 3, a0[1] is ProductionTailList, *lhs == a0[0]->LeftHandSide_0, aa_lhs == a0[0], a0[0] is LeftHandSide, aa_inject@ == j0,
    s0.productions@.len() + a0[1]->ProductionTailList_0@.len() < 0xFFFF_FFFE,
    *self == (Specification { productions: self.productions, ..s0 }), group_added(s0, *self, *lhs, a0[1]->ProductionTailList_0@, __i1 as int),
    vh@ == (Cells { used: vh@.used, ..h0 }), later(h0, vh@), attr_ok(a0[0], h0), attr_ok(a0[1], h0), front_ok(s0, h0),
    front_ok(*self, vh@),
%loop 1 decreases __it1.len() - __i1
%at loop 1 start: proof { lemma_attributes_stay(a0[0], h0, vh@); }
%at loop 1 end: proof { assert forall|i: int| 0 <= i < a0[1]->ProductionTailList_0@.len() implies tail_ok(h0, #[trigger] a0[1]->ProductionTailList_0@[i]) by {} lemma_group(s0, h0, *self, vh@, *lhs, a0[1]->ProductionTailList_0@, __i1 as int); }
@raw
// the length of the right hand side, and what it is reduced to
pub open spec fn arity(r: Rule) -> Option<int> {
    match r {
        Rule::Keep | Rule::Empty => None,
        Rule::Number | Rule::Pattern | Rule::NewName | Rule::Tags1 | Rule::TagLit | Rule::TagName | Rule::Tails1 | Rule::Action | Rule::Predicate | Rule::Syms1 | Rule::SymName | Rule::SymLit | Rule::SymError => Some(1),
        Rule::InjectHead | Rule::Inject | Rule::AttrType | Rule::Target | Rule::Skip | Rule::ExpectRR | Rule::ExpectSR | Rule::Prec(_) | Rule::TagsMore | Rule::Lhs | Rule::PrecName | Rule::PrecLit | Rule::SymsMore => Some(2),
        Rule::Preamble | Rule::TokLit | Rule::TokRegex | Rule::Group | Rule::TailsMore => Some(3),
        Rule::Tail(sy, pd, pc, ac) => Some(n(sy) + n(pd) + n(pc) + n(ac)),
    }
}
pub open spec fn makes(r: Rule, l: AANonTerminal) -> bool {
    match r {
        Rule::Keep | Rule::Empty => true,
        Rule::Number => l is Number, Rule::Pattern => l is RegularExpression, Rule::NewName => l is NewTokenName,
        Rule::Tags1 | Rule::TagsMore => l is TagList, Rule::TagLit | Rule::TagName => l is Tag,
        Rule::Tails1 | Rule::TailsMore => l is ProductionTailList, Rule::Tail(_, _, _, _) => l is ProductionTail,
        Rule::Action => l is Action, Rule::Predicate => l.is_predicate(), Rule::Syms1 | Rule::SymsMore => l is SymbolList,
        Rule::SymName | Rule::SymLit | Rule::SymError => l is Symbol, Rule::InjectHead => l is InjectionHead, Rule::Inject => l is Injection,
        Rule::AttrType => l is AttributeType, Rule::Target => l is TargetType, Rule::Skip => l is SkipDefinition,
        Rule::ExpectRR => l is ExpectedRRConflicts, Rule::ExpectSR => l is ExpectedSRConflicts, Rule::Prec(_) => l is PrecedenceDefinition,
        Rule::Lhs => l is ProductionGroupHead, Rule::PrecName | Rule::PrecLit => l is TaggedPrecedence, Rule::Preamble => l is Preamble,
        Rule::TokLit | Rule::TokRegex => l is TokenDefinition, Rule::Group => l is ProductionGroup,
    }
}
@end
@fn Specification::production_data
%requires production_id <= last_rule()
%ensures
    arity(rule(production_id)) matches Some(k) ==> r.1 == k, makes(rule(production_id), r.0),
    r.0 == gh_lhs(production_id) && r.1 == gh_len(production_id),
