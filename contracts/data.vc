# Contracts for what the other units assume of the small data types: comparison, clones and lalr1::OrderedSet: ${DIR}
@source ${DIR}/src/symbol/terminal.rs terminal
@source ${DIR}/src/symbol/non_terminal.rs non_terminal
@source ${DIR}/src/symbol.rs symbol
@source ${DIR}/src/symbol/tag.rs tag
@source ${DIR}/src/production.rs production
@source ${DIR}/src/state.rs state
@source lalr1/src/lib.rs run
@strip T I
@opts veq vord intoiter
@heapcells grammar_items shift_list goto_table error_recovery_state processed_state shift_reduce_conflicts reduce_reduce_conflicts
@dropfield ParserStateData.grammar_items ParserStateData.shift_list ParserStateData.goto_table ParserStateData.error_recovery_state ParserStateData.processed_state ParserStateData.shift_reduce_conflicts ParserStateData.reduce_reduce_conflicts
@include prelude.vc
@include bt.vc
@raw
global size_of usize == 8;
broadcast use {axiom_str, lemma_push_contains};

#[verifier::external_body]
pub struct Location { x: u8 }
impl VOrd for Str { uninterp spec fn olt(self, o: Str) -> bool; }
// elements of ordered sets: any type
#[verifier::external_body]
pub struct T { x: u8 }
impl VOrd for T { uninterp spec fn olt(self, o: T) -> bool; }

// comparison of texts and numbers (assumed of std)
pub uninterp spec fn text_order(a: Seq<u8>, b: Seq<u8>) -> Ordering;
pub open spec fn int_order(a: int, b: int) -> Ordering {
    if a < b { Ordering::Less } else if a == b { Ordering::Equal } else { Ordering::Greater }
}
impl Str {
    #[verifier::external_body]
    pub fn cmp(&self, o: &Str) -> (r: Ordering) ensures r == text_order(self@, o@) { unimplemented!() }
}
@end
@type Associativity :: #[derive(Clone, Copy, PartialEq, Eq, Structural)]
@type TokenData
@type Token
@type TokenSet
@type FirstsData
@type NonTerminalData
@type NonTerminal
@type TagData
@type Tag
@type TagOrToken
@type Symbol
@type ProductionTailData
@type ProductionTail
@type ProductionId :: #[derive(Clone, Copy)]
@type ProductionData
@type Production
@type ParserStateData
@type ParserState
@type OrderedSet
@raw
impl VOrd for Token { uninterp spec fn olt(self, o: Token) -> bool; }
impl ProductionId {
    // derived
    #[verifier::external_body]
    pub fn cmp(&self, o: &ProductionId) -> (r: Ordering) ensures r == int_order(self.0 as int, o.0 as int) { unimplemented!() }
}
@end
@fn TokenData::PartialEq.eq
%ret r
%ensures
    r == (self.name == other.name),
@fn TokenData::Ord.cmp
%ret r
%ensures
    r == text_order(self.name@, other.name@),
@fn TokenData::PartialOrd.partial_cmp
%ret r
%ensures
    r == Some(text_order(self.name@, other.name@)),
@fn NonTerminalData::PartialEq.eq
%ret r
%ensures
    r == (self.name == other.name),
@fn NonTerminalData::Ord.cmp
%ret r
%ensures
    r == text_order(self.name@, other.name@),
@fn NonTerminalData::PartialOrd.partial_cmp
%ret r
%ensures
    r == Some(text_order(self.name@, other.name@)),
@fn Production::ident
%ret r
%ensures
    r == self.0.ident,
@fn ParserState::ident
%ret r
%ensures
    r == self.0.ident,
@fn Production::PartialEq.eq
%ret r
%ensures
    r == (self.0.ident == other.0.ident),
@fn Production::Ord.cmp
%ret r
%ensures
    r == int_order(self.0.ident.0 as int, other.0.ident.0 as int),
@fn Production::PartialOrd.partial_cmp
%ret r
%ensures
    r == Some(int_order(self.0.ident.0 as int, other.0.ident.0 as int)),
@fn ParserState::PartialEq.eq
%ret r
%ensures
    r == (self.0.ident == other.0.ident),
@fn ParserState::Ord.cmp
%ret r
%ensures
    r == int_order(self.0.ident as int, other.0.ident as int),
@fn ParserState::PartialOrd.partial_cmp
%ret r
%ensures
    r == Some(int_order(self.0.ident as int, other.0.ident as int)),
@fn Token::clone
%ret r
%ensures
    r == *self,
@fn NonTerminal::clone
%ret r
%ensures
    r == *self,
@fn Tag::clone
%ret r
%ensures
    r == *self,
@fn ProductionTail::clone
%ret r
%ensures
    r == *self,
@fn Production::clone
%ret r
%ensures
    r == *self,
@fn ParserState::clone
%ret r
%ensures
    r == *self,
@fn OrderedSet::new
%ret r
%ensures
    r.0@ == Set::<T>::empty(),
@fn OrderedSet::len
%ret r
%ensures
    r == self.0@.len(),
@fn OrderedSet::is_empty
%ret r
%ensures
    r == (self.0@ == Set::<T>::empty()),
@fn OrderedSet::contains
%ret r
%ensures
    r == self.0@.contains(*item),
@fn OrderedSet::insert
%ret r
%ensures
    final(self).0@ == old(self).0@.insert(item),
    r == !old(self).0@.contains(item),
@fn OrderedSet::iter
%ret r
%ensures
    lists(r@, self.0@),
    ascending(r@),
@fn OrderedSet::FromIterator.from_iter
%pty iter Vec<T>
%ret r
%ensures
    forall|x: T| #[trigger] r.0@.contains(x) <==> iter@.contains(x),
@fn OrderedSet::IntoIterator.into_iter
%pty self &Self
%rettype Vec<&T>
%ret r
%ensures
    lists(r@, self.0@),
    ascending(r@),
