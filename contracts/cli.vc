# Contracts for the command line tools: ${DIR}_gen and the functions of ${DIR}_lib that write files
@source ${DIR}_gen/src/main.rs main
@source ${DIR}_lib/src/grammar.rs grammar
@source ${DIR}_lib/src/lib.rs lib
@map PathBuf=PBuf Path=PBuf
@heapfns exists from_args CLOptions::from_args create File::create open File::open read_to_string Specification::new new Grammar::try_from try_from write_parser_code write_all write_fmt
@heapfree exit read_to_string
@include prelude.vc
@include bt.vc
@raw
global size_of usize == 8;
broadcast use {axiom_str};

// ------------------------------------------------------------------ paths
#[verifier::external_body]
pub struct PBuf { x: u8 }
pub struct Stem { pub o: Option<PBuf> }
pub uninterp spec fn p_empty() -> PBuf;
pub uninterp spec fn p_parent(p: PBuf) -> Option<PBuf>;
pub uninterp spec fn p_stem(p: PBuf) -> Option<PBuf>;
pub uninterp spec fn p_push(p: PBuf, q: PBuf) -> PBuf;
pub uninterp spec fn p_ext(p: PBuf, e: Seq<u8>) -> PBuf;
impl Stem {
    // a path without a file name ends the run here, before anything is written
    #[verifier::external_body]
    pub fn unwrap(self) -> (r: PBuf) ensures self.o == Some(r) { unimplemented!() }
}
pub trait VPath { spec fn path(self) -> PBuf; }
impl VPath for PBuf { open spec fn path(self) -> PBuf { self } }
impl VPath for &PBuf { open spec fn path(self) -> PBuf { *self } }
impl PBuf {
    #[verifier::external_body]
    pub fn new() -> (r: PBuf) ensures r == p_empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn parent(&self) -> (r: Option<&PBuf>)
        ensures match r { Some(q) => p_parent(*self) == Some(*q), None => p_parent(*self) is None } { unimplemented!() }
    #[verifier::external_body]
    pub fn file_stem(&self) -> (r: Stem) ensures r.o == p_stem(*self) { unimplemented!() }
    #[verifier::external_body]
    pub fn push<P: VPath>(&mut self, q: P) ensures *final(self) == p_push(*old(self), q.path()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension(&mut self, e: &Str) -> (r: bool) ensures *final(self) == p_ext(*old(self), e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn to_string_lossy(&self) -> (r: Str) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, vh: &mut Heap) -> (r: bool)
        ensures *final(vh) == *old(vh), r == (old(vh)@.start.contains(*self) || old(vh)@.written.contains(*self)) { unimplemented!() }
}

// ------------------------------------------------------------------ the file system and the command line
pub ghost struct Fs {
    pub opts: CLOptions,            // the command line
    pub start: Set<PBuf>,           // the files that exist when the tool is started
    pub written: Set<PBuf>,         // the files it has created or overwritten
    pub failed: bool,               // a step (reading, generating, writing) has failed
    pub content: Map<PBuf, Seq<u8>>, // what the files say that can be read
    pub text: Option<Seq<u8>>,      // the text that was taken for the specification last
    pub ignored: Option<(bool, bool)>, // the conflicts to ignore, as the generator was told last
}
#[verifier::external_body]
pub struct Heap { x: u8 }
impl Heap { pub uninterp spec fn view(&self) -> Fs; }
pub open spec fn step(f: Fs, g: Fs, failed: bool) -> bool { g == (Fs { failed: f.failed || failed, ..f }) }
pub open spec fn wrote(f: Fs, g: Fs, p: PBuf, failed: bool) -> bool {
    &&& g.opts == f.opts && g.start == f.start && g.content == f.content && g.text == f.text && g.ignored == f.ignored && g.failed == (f.failed || failed)
    &&& f.written.subset_of(g.written)
    &&& g.written.subset_of(f.written.insert(p))
    &&& !failed ==> g.written.contains(p)
}
// path with another extension
pub open spec fn changed(p: PBuf, e: Seq<u8>) -> PBuf {
    p_ext(p_push(match p_parent(p) { Some(d) => p_push(p_empty(), d), None => p_empty() }, p_stem(p).unwrap()), e)
}
// the two output files
pub open spec fn out_file(o: CLOptions) -> PBuf {
    match o.output { Some(p) => p, None => changed(o.specification, t"rs") }
}
pub open spec fn states_file(o: CLOptions) -> PBuf { changed(out_file(o), t"states") }
pub open spec fn blocked(f: Fs) -> bool {
    !f.opts.force && (f.start.contains(out_file(f.opts)) || f.start.contains(states_file(f.opts)))
}
pub open spec fn may_write(f: Fs, p: PBuf) -> bool {
    !blocked(f) && !f.failed && (p == out_file(f.opts) || p == states_file(f.opts))
}
// the generator was given the content of the specification
pub open spec fn right_text(f: Fs) -> bool {
    f.text is Some ==> f.content.dom().contains(f.opts.specification) && f.text == Some(f.content[f.opts.specification])
}
// and told to ignore the conflicts that the options say
pub open spec fn right_options(f: Fs) -> bool {
    f.ignored is Some ==> f.ignored == Some((f.opts.ignore_sr_conflicts, f.opts.ignore_rr_conflicts))
}
pub open spec fn success(f: Fs) -> bool {
    &&& f.text is Some && f.ignored is Some
    &&& !blocked(f)
    &&& f.written.contains(out_file(f.opts))
    &&& f.written.contains(states_file(f.opts))
}
#[verifier::external_body]
pub fn exit(code: i32, vh: &mut Heap) -> !
    requires
        code == 0 ==> success(old(vh)@),
        code != 0 ==> blocked(old(vh)@) || old(vh)@.failed,
        right_text(old(vh)@),
        right_options(old(vh)@),
{ unimplemented!() }
impl CLOptions {
    #[verifier::external_body]
    pub fn from_args(vh: &mut Heap) -> (r: CLOptions)
        ensures *final(vh) == *old(vh), r == old(vh)@.opts { unimplemented!() }
}

#[verifier::external_body]
pub struct IoError { x: u8 }
#[verifier::external_body]
pub struct File { x: u8 }
impl File {
    // what has not been read yet
    pub uninterp spec fn rest(&self) -> Seq<u8>;
    #[verifier::external_body]
    pub fn open(p: &PBuf, vh: &mut Heap) -> (r: Result<File, IoError>)
        ensures
            step(old(vh)@, final(vh)@, r is Err),
            match r { Ok(f) => old(vh)@.content.dom().contains(*p) && f.rest() == old(vh)@.content[*p], Err(_) => true },
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read_to_string(&mut self, s: &mut Str, vh: &mut Heap) -> (r: Result<usize, IoError>)
        ensures
            step(old(vh)@, final(vh)@, r is Err),
            r is Ok ==> final(s)@ == old(s)@ + old(self).rest() && final(self).rest() == Seq::<u8>::empty(),
    { unimplemented!() }
    // creates the file or empties it
    #[verifier::external_body]
    pub fn create(p: &PBuf, vh: &mut Heap) -> (r: Result<File, IoError>)
        requires may_write(old(vh)@, *p)
        ensures wrote(old(vh)@, final(vh)@, *p, r is Err)
    { unimplemented!() }
    #[verifier::external_body]
    pub fn write_all<B: ?Sized>(&mut self, t: &B, vh: &mut Heap) -> (r: Result<(), IoError>) ensures step(old(vh)@, final(vh)@, r is Err) { unimplemented!() }
    #[verifier::external_body]
    pub fn vwrite_str(&mut self, t: Str, vh: &mut Heap) -> (r: Result<(), IoError>) ensures step(old(vh)@, final(vh)@, r is Err) { unimplemented!() }
}

#[verifier::external_body]
pub fn read_to_string(p: &PBuf, vh: &mut Heap) -> (r: Result<Str, IoError>)
    ensures
        step(old(vh)@, final(vh)@, r is Err),
        match r { Ok(t) => old(vh)@.content.dom().contains(*p) && t@ == old(vh)@.content[*p], Err(_) => true },
{ unimplemented!() }
// ------------------------------------------------------------------ the library
#[verifier::external_body]
pub struct SymbolTable { x: u8 }
#[verifier::external_body]
pub struct Production { x: u8 }
#[verifier::external_body]
pub struct ParserState { x: u8 }
impl SymbolTable {
    #[verifier::external_body]
    pub fn description(&self) -> (r: Str) { unimplemented!() }
}
impl ParserState {
    #[verifier::external_body]
    pub fn description(&self) -> (r: Str) { unimplemented!() }
}
#[verifier::external_body]
pub struct SpecError { x: u8 }
impl Specification {
    #[verifier::external_body]
    pub fn new(text: &Str, label: &Str, vh: &mut Heap) -> (r: Result<Specification, SpecError>)
        ensures
            final(vh)@ == (Fs { failed: old(vh)@.failed || r is Err, text: Some(text@), ..old(vh)@ }),
            match r { Ok(s) => s.src() == text@, Err(_) => true },
    { unimplemented!() }
    // the text it was read from
    pub uninterp spec fn src(&self) -> Seq<u8>;
}
impl Grammar {
    #[verifier::external_body]
    pub fn try_from(a: (Specification, bool, bool), vh: &mut Heap) -> (r: Result<Grammar, Error>)
        ensures
            final(vh)@ == (Fs { failed: old(vh)@.failed || r is Err, ignored: Some((a.1, a.2)), ..old(vh)@ }),
            match r { Ok(g) => g.made() == (a.0.src(), a.1, a.2), Err(_) => true },
    { unimplemented!() }
    // the text and the conflicts ignored
    pub uninterp spec fn made(&self) -> (Seq<u8>, bool, bool);
    // writes to the given file only
    #[verifier::external_body]
    pub fn write_parser_code(&self, f: &mut File, vh: &mut Heap) -> (r: Result<(), IoError>) ensures step(old(vh)@, final(vh)@, r is Err) { unimplemented!() }
}
@end
@type CLOptions
@type Error@grammar
@type Specification@grammar
@type Grammar@grammar
@type ParserGenerator
@raw
pub struct GenError { x: u8 }
pub trait VFromErr: Sized { fn vfrom_err(self) -> GenError; }
impl VFromErr for IoError { #[verifier::external_body] fn vfrom_err(self) -> GenError { unimplemented!() } }
impl VFromErr for SpecError { #[verifier::external_body] fn vfrom_err(self) -> GenError { unimplemented!() } }
impl VFromErr for Error { #[verifier::external_body] fn vfrom_err(self) -> GenError { unimplemented!() } }
impl PBuf { pub fn as_ref(&self) -> (r: &PBuf) ensures r == self { self } }
pub proof fn lemma_nothing_before() ensures forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s {
    assert forall|s: Seq<u8>| #[trigger] (Seq::<u8>::empty() + s) == s by { assert(Seq::<u8>::empty() + s =~= s); }
}
pub open spec fn made_from(files: Map<PBuf, Seq<u8>>, path: PBuf, r: Result<ParserGenerator, GenError>) -> bool {
    match r { Ok(g) => files.dom().contains(path) && g.0.made() == (files[path], false, false), Err(_) => true }
}
@end
@fn with_changed_extension
%ret r
%ensures
    r == changed(*path, new_extension@),
@fn Grammar::write_parser_code_to_file
%opt heapmut
%rettype Result<(), IoError>
%requires
    may_write(old(vh)@, *file_path),
%ensures
    wrote(old(vh)@, final(vh)@, *file_path, r is Err),
@fn Grammar::write_description
%opt heapmut
%rettype Result<(), IoError>
%requires
    may_write(old(vh)@, *file_path),
%ensures
    wrote(old(vh)@, final(vh)@, *file_path, r is Err),
%loop 1 decreases __it1.len() - __i1
%loop 1 invariant
    __i1 <= __it1.len(),
    wrote(old(vh)@, vh@, *file_path, false),
%loop 2 decreases __it2.len() - __i2
%loop 2 invariant
    __i2 <= __it2.len(),
    wrote(old(vh)@, vh@, *file_path, false),
@fn main =cli_main
%opt heapmut
%requires
    old(vh)@.written == Set::<PBuf>::empty(),
    !old(vh)@.failed,
    old(vh)@.text is None,
    old(vh)@.ignored is None,
%ensures
    success(final(vh)@),
    right_text(final(vh)@),
    right_options(final(vh)@),
%at start:
    proof { lemma_nothing_before(); }

@fn ParserGenerator::new
%opt heapmut tryconv
%pty path &PBuf
%rettype Result<ParserGenerator, GenError>
%ret r
%requires
    !old(vh)@.failed,
%ensures
    made_from(old(vh)@.content, *path, r),
    r is Err <==> final(vh)@.failed,
    final(vh)@.written == old(vh)@.written,
@fn ParserGenerator::try_from
%opt heapmut tryconv
%rettype Result<ParserGenerator, GenError>
%ret r
%requires
    !old(vh)@.failed,
%ensures
    match r { Ok(g) => g.0.made() == (text@, false, false), Err(_) => true },
    r is Err <==> final(vh)@.failed,
    final(vh)@.written == old(vh)@.written,
@fn ParserGenerator::write_parser_code_to_file
%opt heapmut
%pty output_path &PBuf
%rettype Result<(), IoError>
%requires
    may_write(old(vh)@, *output_path),
%ensures
    wrote(old(vh)@, final(vh)@, *output_path, r is Err),
