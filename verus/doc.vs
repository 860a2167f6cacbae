//@ texts
//@ drop trait Unpacking -- verified in unit core
//@ drop impl Result as Unpacking -- verified in unit core
//@ drop fn unpack -- verified in unit core
//@ drop trait Builder -- stands for user code, not used by the doctors
//@ drop impl RcAny* -- verified in unit cans
//@ drop impl ArcAny* -- verified in unit cans
//@ drop impl BoxAny* -- verified in unit cans
//@ drop impl Blueprint* -- verified in unit cans
//@ drop struct Blueprint* -- verified in unit cans
//@ drop type BuilderDyn -- verified in unit cans
//@ drop trait CanBuilder* -- verified in unit cans
//@ drop trait CanUnsized -- verified in unit cans
//@ drop type DynBuilderBin -- verified in unit cans
//@ drop impl BuilderArtifact* -- verified in unit cans
//@ drop struct BuilderArtifact -- verified in unit cans
//@ drop impl BuilderHandle as Hash -- not used by the doctors
//@ drop impl BuilderHandle as PartialEq -- not used by the doctors
//@ drop impl BuilderHandle as Eq -- not used by the doctors
//@ drop impl ArtifactHandle as Hash -- not used by the doctors
//@ drop impl ArtifactHandle as PartialEq -- not used by the doctors
//@ drop impl ArtifactHandle as Eq -- not used by the doctors
//@ attrs struct BuilderHandle #noderive
//@ attrs struct ArtifactHandle #noderive
//@ drop impl BuilderId as Hash -- verified in unit cans
//@ attrs struct TextualDocOptions #[derive(Copy, Clone)]
//@ attrs struct TextualDocOptions #noderive
//@ attrs struct VisgraphDocOptions #[derive(Copy, Clone)]
//@ attrs struct VisgraphDocOptions #noderive
//@ raw
broadcast use {dot::group_scan, txt::group_txt, occs::group_occ, graph::group_graph};

// ---------------------------------------------------------------- texts
pub mod txt { use super::*;
/// Stands for `str` and `String` alike.
#[verifier::external_body]
pub struct Str { s: String }
impl View for Str { type V = Seq<char>; uninterp spec fn view(&self) -> Seq<char>; }
#[verifier::external_body] // TRUSTED: a string literal is the text it is
pub fn v_str(t: Ghost<Seq<char>>) -> (r: &'static Str)
    ensures r@ == t@,
{ panic!() }
impl Clone for Str {
    #[verifier::external_body] // TRUSTED: String::clone
    fn clone(&self) -> (r: Self)
        ensures r@ == self@,
    { panic!() }
}
impl Str {
    #[verifier::external_body] // TRUSTED: String::new
    pub fn new() -> (r: Str)
        ensures r@ == Seq::<char>::empty(),
    { panic!() }
    #[verifier::external_body] // TRUSTED: str::to_string
    pub fn to_string(&self) -> (r: Str)
        ensures r@ == self@,
    { panic!() }
    #[verifier::external_body] // TRUSTED: str::to_owned
    pub fn to_owned(&self) -> (r: Str)
        ensures r@ == self@,
    { panic!() }
    #[verifier::external_body] // TRUSTED: String::from
    pub fn from(s: &Str) -> (r: Str)
        ensures r@ == s@,
    { panic!() }
    pub fn as_str(&self) -> (r: &Str)
        ensures r@ == self@,
    { self }
    #[verifier::external_body] // TRUSTED: String::push_str
    pub fn push_str(&mut self, s: &Str)
        ensures final(self)@ == old(self)@ + s@,
    { panic!() }
    #[verifier::external_body] // TRUSTED: String::push
    pub fn push(&mut self, c: char)
        ensures final(self)@ == old(self)@.push(c),
    { panic!() }
    #[verifier::external_body] // TRUSTED: str::is_empty
    pub fn is_empty(&self) -> (r: bool)
        ensures r == (self@.len() == 0),
    { panic!() }
    #[verifier::external_body] // TRUSTED: str::replace with a character as the pattern
    pub fn replace(&self, c: char, t: &Str) -> (r: Str)
        ensures r@ == rep(self@, c, t@),
    { panic!() }
}
/// All `c` replaced by `t`.
#[verifier::opaque]
pub open spec fn rep(s: Seq<char>, c: char, t: Seq<char>) -> Seq<char>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { rep(s.drop_last(), c, t) + (if s.last() == c { t } else { Seq::<char>::empty().push(s.last()) }) }
}
#[verifier::external_body] // TRUSTED: std::any::type_name
pub fn v_type_name<T: ?Sized>() -> (r: &'static Str)
    ensures r@ == tname::<T>(),
{ panic!() }
pub uninterp spec fn tname<T: ?Sized>() -> Seq<char>;

/// What `{}`, `{:?}`, `{:#?}` and `{:p}` print.
pub trait VDisp { spec fn dtxt(&self) -> Seq<char>; }
impl VDisp for Str { #[verifier::inline] open spec fn dtxt(&self) -> Seq<char> { self@ } }
impl<'a, T: VDisp + ?Sized> VDisp for &'a T { #[verifier::inline] open spec fn dtxt(&self) -> Seq<char> { (**self).dtxt() } }
impl VDisp for u64 { #[verifier::inline] open spec fn dtxt(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisp for usize { #[verifier::inline] open spec fn dtxt(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisp for u32 { #[verifier::inline] open spec fn dtxt(&self) -> Seq<char> { dec(*self as nat) } }
impl VDisp for char { #[verifier::inline] open spec fn dtxt(&self) -> Seq<char> { Seq::<char>::empty().push(*self) } }
/// A digit, decimal or hexadecimal.
pub closed spec fn digit(k: nat) -> char { if k == 0 { '0' } else if k == 1 { '1' } else if k == 2 { '2' } else if k == 3 { '3' } else if k == 4 { '4' } else if k == 5 { '5' } else if k == 6 { '6' } else if k == 7 { '7' } else if k == 8 { '8' } else if k == 9 { '9' } else if k == 10 { 'a' } else if k == 11 { 'b' } else if k == 12 { 'c' } else if k == 13 { 'd' } else if k == 14 { 'e' } else { 'f' } }
/// A number to a base.
pub closed spec fn radix(n: nat, b: nat) -> Seq<char>
    decreases n via radix_dec
{
    if b < 2 || n < b { seq![digit(n)] } else { radix(n / b, b).push(digit(n % b)) }
}
#[via_fn]
proof fn radix_dec(n: nat, b: nat) {
    if !(b < 2 || n < b) { assert(n / b < n) by (nonlinear_arith) requires n >= b, b >= 2; }
}
/// A number in decimal.
pub closed spec fn dec(n: nat) -> Seq<char> { radix(n, 10) }
/// An address, as `{:p}` prints it.
pub closed spec fn ptr_text(a: usize) -> Seq<char> { seq!['0', 'x'] + radix(a as nat, 16) }
/// What `{:p}` prints of a fat pointer is not specified.
pub uninterp spec fn fat_text(p: DynPtr) -> Seq<char>;
pub uninterp spec fn ref_text<T: ?Sized>(p: &T) -> Seq<char>;
/// The `Debug` text of a value, plain or (alternate) over several lines.
pub uninterp spec fn dtext<T: ?Sized>(x: &T, alt: bool) -> Seq<char>;
/// The characters within such a text of a text.
pub uninterp spec fn unq(t: Seq<char>) -> Seq<char>;
pub open spec fn digits(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> '0' <= #[trigger] s[i] <= '9' }
pub open spec fn alnum(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> idchar(#[trigger] s[i]) }
pub proof fn radix_digits(n: nat, b: nat)
    requires 2 <= b <= 16,
    ensures radix(n, b).len() > 0, forall|i: int| #![trigger radix(n, b)[i]] 0 <= i < radix(n, b).len() ==> exists|k: nat| k < b && radix(n, b)[i] == #[trigger] digit(k),
    decreases n,
{
    if n >= b {
        assert(n / b < n) by (nonlinear_arith) requires n >= b, b >= 2;
        assert(n % b < b) by (nonlinear_arith) requires b >= 2;
        radix_digits(n / b, b);
        assert forall|i: int| #![trigger radix(n, b)[i]] 0 <= i < radix(n, b).len() implies exists|k: nat| k < b && radix(n, b)[i] == #[trigger] digit(k) by {
            if i < radix(n / b, b).len() { assert(radix(n, b)[i] == radix(n / b, b)[i]); } else { assert(radix(n, b)[i] == digit(n % b)); }
        }
    } else {
        assert(radix(n, b)[0] == digit(n));
    }
}
pub proof fn digit_inj(k: nat, j: nat)
    requires k < 16, j < 16, digit(k) == digit(j),
    ensures k == j,
{ }
pub proof fn radix_inj(n: nat, m: nat, b: nat)
    requires 2 <= b <= 16, radix(n, b) == radix(m, b),
    ensures n == m,
    decreases n,
{
    radix_digits(n / b, b);
    radix_digits(m / b, b);
    if n < b && m < b {
        assert(radix(n, b)[0] == digit(n) && radix(m, b)[0] == digit(m));
        digit_inj(n, m);
    } else if n < b {
        assert(radix(n, b).len() == 1);
    } else if m < b {
        assert(radix(m, b).len() == 1);
    } else {
        assert(n / b < n) by (nonlinear_arith) requires n >= b, b >= 2;
        assert(n % b < b && m % b < b) by (nonlinear_arith) requires b >= 2;
        assert(radix(n, b).drop_last() =~= radix(n / b, b));
        assert(radix(m, b).drop_last() =~= radix(m / b, b));
        assert(radix(n, b).last() == digit(n % b) && radix(m, b).last() == digit(m % b));
        digit_inj(n % b, m % b);
        radix_inj(n / b, m / b, b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n as int, b as int);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(m as int, b as int);
    }
}
/// Numbers are printed as digits.
pub broadcast proof fn ax_dec(n: nat) ensures digits(#[trigger] dec(n)), dec(n).len() > 0
{
    radix_digits(n, 10);
    assert forall|i: int| 0 <= i < dec(n).len() implies '0' <= #[trigger] dec(n)[i] <= '9' by { assert(dec(n)[i] == radix(n, 10)[i]); }
}
/// Different numbers are printed differently.
pub proof fn ax_dec_inj(n: nat, m: nat) ensures dec(n) == dec(m) ==> n == m
{
    if dec(n) == dec(m) { radix_inj(n, m, 10); }
}
/// Addresses are printed with letters and digits.
pub broadcast proof fn ax_ptr(a: usize) ensures alnum(#[trigger] ptr_text(a))
{
    radix_digits(a as nat, 16);
    assert forall|i: int| 0 <= i < ptr_text(a).len() implies idchar(#[trigger] ptr_text(a)[i]) by {
        if i >= 2 { assert(ptr_text(a)[i] == radix(a as nat, 16)[i - 2]); }
    }
}
#[verifier::external_body] // TRUSTED: the Debug text of a reference is the one of what it refers to
pub broadcast proof fn ax_dref<T: ?Sized>(x: &&T, alt: bool) ensures #[trigger] dtext::<&T>(x, alt) == dtext::<T>(*x, alt) { }
pub broadcast proof fn dec_plain(n: nat) ensures plain(#[trigger] dec(n))
{
    ax_dec(n);
    assert forall|i: int| 0 <= i < dec(n).len() implies #[trigger] dec(n)[i] != '"' && dec(n)[i] != '\\' by { }
}
pub broadcast proof fn ptr_plain(a: usize) ensures plain(#[trigger] ptr_text(a))
{
    ax_ptr(a);
    assert forall|i: int| 0 <= i < ptr_text(a).len() implies #[trigger] ptr_text(a)[i] != '"' && ptr_text(a)[i] != '\\' by { assert(idchar(ptr_text(a)[i])); }
}
#[verifier::external_body] // TRUSTED: the Debug text of a text is in double quotes, and those within are escaped, as are backslashes
pub broadcast proof fn ax_quoted(d: Ps, x: &Str, alt: bool)
    ensures d.lx is Ws ==> #[trigger] scan(d, dtext::<Str>(x, alt)) == (Ps { lx: Lx::Ws, p: name(d.p, unq(x@), true) }),
{ }
pub open spec fn q1() -> Seq<char> { Seq::<char>::empty().push('\\').push('\\') }
pub open spec fn q2() -> Seq<char> { Seq::<char>::empty().push('\\').push('"') }
/// Escaped texts stay within the quotes.
pub broadcast proof fn escaped(d: Ps, s: Seq<char>)
    ensures d.lx is St ==> (#[trigger] scan(d, rep(rep(s, '\\', Seq::<char>::empty().push('\\').push('\\')), '"', Seq::<char>::empty().push('\\').push('"')))).lx is St
        && scan(d, rep(rep(s, '\\', Seq::<char>::empty().push('\\').push('\\')), '"', Seq::<char>::empty().push('\\').push('"'))).p == d.p,
    decreases s.len(),
{
    if d.lx is St {
    reveal(rep);
    let a = rep(s, '\\', q1());
    if s.len() == 0 {
        scan_empty(d);
    } else {
        let s0 = s.drop_last();
        let c = s.last();
        escaped(d, s0);
        let a0 = rep(s0, '\\', q1());
        let r0 = rep(a0, '"', q2());
        let m = scan(d, r0);
        if c == '\\' {
            assert(a =~= a0.push('\\').push('\\'));
            assert(a.drop_last() =~= a0.push('\\'));
            assert(a0.push('\\').drop_last() =~= a0);
            assert(rep(a0.push('\\'), '"', q2()) =~= r0.push('\\'));
            assert(rep(a, '"', q2()) =~= r0.push('\\').push('\\'));
            scan_push(d, r0.push('\\'), '\\');
            scan_push(d, r0, '\\');
        } else {
            assert(a =~= a0.push(c));
            assert(a.drop_last() =~= a0);
            if c == '"' {
                assert(rep(a, '"', q2()) =~= r0.push('\\').push('"'));
                scan_push(d, r0.push('\\'), '"');
                scan_push(d, r0, '\\');
            } else {
                assert(rep(a, '"', q2()) =~= r0.push(c));
                scan_push(d, r0, c);
            }
        }
    } }
}
pub broadcast group group_txt { ax_dec, ax_ptr, ax_dref, dec_plain, ptr_plain, ax_quoted, escaped }

#[derive(Debug)]
pub struct FmtError { pub x: usize }
pub type FmtResult = Result<(), FmtError>;
#[verifier::external_body]
pub struct Formatter { p: usize }
impl Formatter { pub uninterp spec fn out(&self) -> Seq<char>; }
/// Local version of `std::fmt::Pointer`.
pub trait Pointer {
    spec fn ptxt(&self) -> Seq<char>;
    fn fmt(&self, fmt: &mut Formatter) -> (r: FmtResult)
        ensures final(fmt).out() == old(fmt).out() + self.ptxt();
}
impl Pointer for ThinPtr {
    open spec fn ptxt(&self) -> Seq<char> { ptr_text(self.addr()) }
    #[verifier::external_body] // TRUSTED: `{:p}` of a thin pointer prints its address
    fn fmt(&self, fmt: &mut Formatter) -> (r: FmtResult) { panic!() }
}
impl Pointer for DynPtr {
    open spec fn ptxt(&self) -> Seq<char> { fat_text(*self) }
    #[verifier::external_body] // definition of fat_text
    fn fmt(&self, fmt: &mut Formatter) -> (r: FmtResult) { panic!() }
}
impl<'a, T: ?Sized> Pointer for &'a T {
    open spec fn ptxt(&self) -> Seq<char> { ref_text(*self) }
    #[verifier::external_body] // definition of ref_text
    fn fmt(&self, fmt: &mut Formatter) -> (r: FmtResult) { panic!() }
}

#[derive(Debug)]
pub struct IoError { pub x: usize }
/// Local version of `std::io::Write`: an output that takes all that is written to it.
pub trait Write: Sized {
    /// What was written to it.
    spec fn out(&self) -> Seq<char>;
    fn v_w(&mut self) -> (r: &mut Self)
        ensures *r == *old(self), *final(r) == *final(self);
    fn v_lit(&mut self, t: Ghost<Seq<char>>)
        ensures final(self).out() == old(self).out() + t@;
    fn v_disp<T: VDisp + ?Sized>(&mut self, x: &T)
        ensures final(self).out() == old(self).out() + x.dtxt();
    fn v_dbg<T: ?Sized>(&mut self, x: &T)
        ensures final(self).out() == old(self).out() + dtext::<T>(x, false);
    fn v_dbg_alt<T: ?Sized>(&mut self, x: &T)
        ensures final(self).out() == old(self).out() + dtext::<T>(x, true);
    fn v_pt<T: Pointer + ?Sized>(&mut self, x: &T)
        ensures final(self).out() == old(self).out() + x.ptxt();
    fn flush(&mut self) -> (r: Result<(), IoError>)
        ensures r.is_ok(), final(self).out() == old(self).out();
}
impl Write for Str {
    #[verifier::inline]
    open spec fn out(&self) -> Seq<char> { self@ }
    fn v_w(&mut self) -> (r: &mut Self) { self }
    #[verifier::external_body] // TRUSTED: formatting into a string
    fn v_lit(&mut self, t: Ghost<Seq<char>>) { panic!() }
    #[verifier::external_body] // TRUSTED: formatting into a string
    fn v_disp<T: VDisp + ?Sized>(&mut self, x: &T) { panic!() }
    #[verifier::external_body] // TRUSTED: formatting into a string
    fn v_dbg<T: ?Sized>(&mut self, x: &T) { panic!() }
    #[verifier::external_body] // TRUSTED: formatting into a string
    fn v_dbg_alt<T: ?Sized>(&mut self, x: &T) { panic!() }
    #[verifier::external_body] // TRUSTED: formatting into a string
    fn v_pt<T: Pointer + ?Sized>(&mut self, x: &T) { panic!() }
    #[verifier::external_body] // not used
    fn flush(&mut self) -> (r: Result<(), IoError>) { panic!() }
}
pub fn v_written() -> (r: Result<(), IoError>)
    ensures r.is_ok(),
{ Ok(()) }
//@ if tynm
/// The abbreviation of a type name (crate tynm).
pub uninterp spec fn tynm_text(t: Seq<char>, m: usize, n: usize) -> Seq<char>;
#[verifier::external_body]
pub struct TypeName { p: usize }
impl TypeName {
    pub uninterp spec fn of(&self) -> Seq<char>;
    #[verifier::external_body] // definition of tynm_text
    pub fn as_str_mn(&self, m: usize, n: usize) -> (r: Str)
        ensures r@ == tynm_text(self.of(), m, n),
    { panic!() }
    #[verifier::external_body] // definition of tynm_text
    pub fn from(s: &Str) -> (r: TypeName)
        ensures r.of() == s@,
    { panic!() }
}
impl Str {
    pub fn into(&self) -> (r: TypeName)
        ensures r.of() == self@,
    { TypeName::from(self) }
}
/// The name of a type, as the textual doctor gives it.
pub open spec fn short(o: Option<(usize, usize)>, t: Seq<char>) -> Seq<char> {
    match o { Some(mn) => tynm_text(t, mn.0, mn.1), None => t }
}
//@ else
/// The name of a type, as the textual doctor gives it.
pub open spec fn short(o: Option<(usize, usize)>, t: Seq<char>) -> Seq<char> { t }
//@ endif
}
pub use txt::*;

// ---------------------------------------------------------------- occurrences in order
pub mod occs { use super::*;
/// `s` is `o` and more, and what is more has the texts of `l` in it, one after the other.
#[verifier::opaque]
pub open spec fn occ(o: Seq<char>, s: Seq<char>, l: Seq<Seq<char>>) -> bool
    decreases l.len(),
{
    if l.len() == 0 { o.is_prefix_of(s) } else {
        exists|k: int, m: int| o.len() <= k <= m <= s.len() && #[trigger] s.subrange(k, m) == l.last() && occ(o, s.subrange(0, k), l.drop_last())
    }
}
pub broadcast proof fn occ_none(o: Seq<char>)
    ensures #[trigger] occ(o, o, Seq::<Seq<char>>::empty()),
{ reveal(occ); }
pub broadcast proof fn occ_skip(o: Seq<char>, s: Seq<char>, t: Seq<char>, l: Seq<Seq<char>>)
    ensures occ(o, s, l) ==> #[trigger] occ(o, s + t, l),
{
    reveal(occ);
    if occ(o, s, l) {
        if l.len() > 0 {
            let (k, m) = choose|k: int, m: int| o.len() <= k <= m <= s.len() && #[trigger] s.subrange(k, m) == l.last() && occ(o, s.subrange(0, k), l.drop_last());
            assert((s + t).subrange(k, m) =~= s.subrange(k, m));
            assert((s + t).subrange(0, k) =~= s.subrange(0, k));
        }
    }
}
pub broadcast proof fn occ_take(o: Seq<char>, s: Seq<char>, t: Seq<char>, l: Seq<Seq<char>>)
    ensures occ(o, s, l) ==> #[trigger] occ(o, s + t, l.push(t)),
{
    reveal(occ);
    if occ(o, s, l) {
        occ_len(o, s, l);
        let (k, m) = (s.len() as int, (s + t).len() as int);
        assert((s + t).subrange(k, m) =~= t);
        assert((s + t).subrange(0, k) =~= s);
        assert(l.push(t).drop_last() =~= l);
    }
}
pub proof fn occ_len(o: Seq<char>, s: Seq<char>, l: Seq<Seq<char>>)
    requires occ(o, s, l),
    ensures o.is_prefix_of(s),
    decreases l.len(),
{
    reveal(occ);
    if l.len() > 0 {
        let (k, m) = choose|k: int, m: int| o.len() <= k <= m <= s.len() && #[trigger] s.subrange(k, m) == l.last() && occ(o, s.subrange(0, k), l.drop_last());
        occ_len(o, s.subrange(0, k), l.drop_last());
        assert(o =~= s.subrange(0, o.len() as int));
    }
}
/// Ends its line.
pub open spec fn eol(s: Seq<char>) -> bool { s.len() > 0 && s.last() == '\n' }
pub broadcast proof fn eol_push(s: Seq<char>) ensures #[trigger] eol(s.push('\n')) { }
pub broadcast proof fn eol_add(s: Seq<char>, t: Seq<char>) ensures eol(t) ==> #[trigger] eol(s + t)
{ if eol(t) { assert((s + t).last() == t.last()); } }
/// Texts put together elsewhere: one piece after the other.
pub broadcast proof fn cat_add(o: Seq<char>, a: Seq<char>, b: Seq<char>) ensures #[trigger] (o + (a + b)) == (o + a) + b { assert(o + (a + b) =~= (o + a) + b); }
pub broadcast proof fn cat_push(o: Seq<char>, a: Seq<char>, c: char) ensures #[trigger] (o + a.push(c)) == (o + a).push(c) { assert(o + a.push(c) =~= (o + a).push(c)); }
pub broadcast proof fn cat_none(o: Seq<char>) ensures #[trigger] (o + Seq::<char>::empty()) == o { assert(o + Seq::<char>::empty() =~= o); }
pub broadcast proof fn cat_first(o: Seq<char>) ensures #[trigger] (Seq::<char>::empty() + o) == o { assert(Seq::<char>::empty() + o =~= o); }
pub broadcast group group_cat { cat_add, cat_push, cat_none, cat_first }
pub broadcast group group_occ { occ_none, occ_skip, occ_take, eol_push, eol_add }
}
pub use occs::*;

// ---------------------------------------------------------------- the language of graphs
pub mod dot { use super::*;
pub enum Lx { Ws, Id(Seq<char>), St(Seq<char>), Esc(Seq<char>), Dash }
pub enum Ph { P0, P1, P2, P3, S, C, N(Seq<char>), K, R(Seq<char>), E(Seq<char>), A, AN, AE, AV, D, Bad }
pub enum Stm { Node(Seq<char>), Edge(Seq<char>, Seq<char>) }
pub struct Gp { pub ph: Ph, pub g: Seq<Stm> }
pub struct Ps { pub lx: Lx, pub p: Gp }

pub open spec fn idchar(c: char) -> bool { ('a' <= c && c <= 'z') || ('A' <= c && c <= 'Z') || ('0' <= c && c <= '9') || c == '_' }
pub open spec fn white(c: char) -> bool { c == ' ' || c == '\n' || c == '\t' || c == '\r' }
pub open spec fn start(a: Seq<char>, quoted: bool, g: Seq<Stm>) -> Gp {
    if quoted { Gp { ph: Ph::N(a), g } }
    else if a == Seq::<char>::empty().push('g').push('r').push('a').push('p').push('h') || a == Seq::<char>::empty().push('n').push('o').push('d').push('e') || a == Seq::<char>::empty().push('e').push('d').push('g').push('e') { Gp { ph: Ph::K, g } }
    else if a == Seq::<char>::empty().push('s').push('u').push('b').push('g').push('r').push('a').push('p').push('h') || a == Seq::<char>::empty().push('s').push('t').push('r').push('i').push('c').push('t') || a == Seq::<char>::empty().push('d').push('i').push('g').push('r').push('a').push('p').push('h') { Gp { ph: Ph::Bad, g } }
    else { Gp { ph: Ph::N(a), g } }
}
/// A name (quoted or not) is read.
pub open spec fn name(p: Gp, a: Seq<char>, quoted: bool) -> Gp {
    match p.ph {
        Ph::P0 => if !quoted && a == Seq::<char>::empty().push('s').push('t').push('r').push('i').push('c').push('t') { Gp { ph: Ph::P1, g: p.g } } else if !quoted && a == Seq::<char>::empty().push('d').push('i').push('g').push('r').push('a').push('p').push('h') { Gp { ph: Ph::P2, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::P1 => if !quoted && a == Seq::<char>::empty().push('d').push('i').push('g').push('r').push('a').push('p').push('h') { Gp { ph: Ph::P2, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::P2 => Gp { ph: Ph::P3, g: p.g },
        Ph::S => start(a, quoted, p.g),
        Ph::C => start(a, quoted, p.g),
        Ph::N(b) => start(a, quoted, p.g.push(Stm::Node(b))),
        Ph::R(b) => Gp { ph: Ph::E(a), g: p.g.push(Stm::Edge(b, a)) },
        Ph::E(_) => start(a, quoted, p.g),
        Ph::A => Gp { ph: Ph::AN, g: p.g },
        Ph::AV => Gp { ph: Ph::AN, g: p.g },
        Ph::AE => Gp { ph: Ph::AV, g: p.g },
        _ => Gp { ph: Ph::Bad, g: p.g },
    }
}
pub open spec fn arrow(p: Gp) -> Gp {
    match p.ph { Ph::N(a) => Gp { ph: Ph::R(a), g: p.g }, Ph::E(a) => Gp { ph: Ph::R(a), g: p.g }, _ => Gp { ph: Ph::Bad, g: p.g } }
}
pub open spec fn punct(p: Gp, c: char) -> Gp {
    match p.ph {
        Ph::P2 => if c == '{' { Gp { ph: Ph::S, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::P3 => if c == '{' { Gp { ph: Ph::S, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::S => if c == '}' { Gp { ph: Ph::D, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::C => if c == '}' { Gp { ph: Ph::D, g: p.g } } else if c == ';' { Gp { ph: Ph::S, g: p.g } } else if c == '[' { Gp { ph: Ph::A, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::N(a) => if c == '}' { Gp { ph: Ph::D, g: p.g.push(Stm::Node(a)) } } else if c == ';' { Gp { ph: Ph::S, g: p.g.push(Stm::Node(a)) } } else if c == '[' { Gp { ph: Ph::A, g: p.g.push(Stm::Node(a)) } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::K => if c == '[' { Gp { ph: Ph::A, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::E(a) => if c == '}' { Gp { ph: Ph::D, g: p.g } } else if c == ';' { Gp { ph: Ph::S, g: p.g } } else if c == '[' { Gp { ph: Ph::A, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::A => if c == ']' { Gp { ph: Ph::C, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::AN => if c == '=' { Gp { ph: Ph::AE, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        Ph::AV => if c == ']' { Gp { ph: Ph::C, g: p.g } } else if c == ',' || c == ';' { Gp { ph: Ph::A, g: p.g } } else { Gp { ph: Ph::Bad, g: p.g } },
        _ => Gp { ph: Ph::Bad, g: p.g },
    }
}
pub open spec fn fresh(p: Gp, c: char) -> Ps {
    if white(c) { Ps { lx: Lx::Ws, p } }
    else if idchar(c) { Ps { lx: Lx::Id(Seq::empty().push(c)), p } }
    else if c == '"' { Ps { lx: Lx::St(Seq::empty()), p } }
    else if c == '-' { Ps { lx: Lx::Dash, p } }
    else { Ps { lx: Lx::Ws, p: punct(p, c) } }
}
pub open spec fn step(d: Ps, c: char) -> Ps {
    match d.lx {
        Lx::Ws => fresh(d.p, c),
        Lx::Id(t) => if idchar(c) { Ps { lx: Lx::Id(t.push(c)), p: d.p } } else { fresh(name(d.p, t, false), c) },
        Lx::St(t) => if c == '"' { Ps { lx: Lx::Ws, p: name(d.p, t, true) } } else if c == '\\' { Ps { lx: Lx::Esc(t), p: d.p } } else { Ps { lx: Lx::St(t.push(c)), p: d.p } },
        Lx::Esc(t) => Ps { lx: Lx::St(if c == '"' { t.push(c) } else { t.push('\\').push(c) }), p: d.p },
        Lx::Dash => if c == '>' { Ps { lx: Lx::Ws, p: arrow(d.p) } } else { Ps { lx: Lx::Ws, p: Gp { ph: Ph::Bad, g: d.p.g } } },
    }
}
#[verifier::opaque]
pub open spec fn scan(d: Ps, s: Seq<char>) -> Ps decreases s.len()
{
    if s.len() == 0 { d } else { step(scan(d, s.drop_last()), s.last()) }
}
pub broadcast proof fn scan_push(d: Ps, s: Seq<char>, c: char)
    ensures #[trigger] scan(d, s.push(c)) == step(scan(d, s), c)
{ reveal(scan); assert(s.push(c).drop_last() =~= s); }
pub broadcast proof fn scan_empty(d: Ps)
    ensures #[trigger] scan(d, Seq::<char>::empty()) == d
{ reveal(scan); }
pub broadcast proof fn scan_add(d: Ps, s: Seq<char>, t: Seq<char>)
    ensures #[trigger] scan(d, s + t) == scan(scan(d, s), t)
    decreases t.len()
{
    reveal(scan);
    if t.len() == 0 { assert(s + t =~= s); } else {
        assert((s + t).drop_last() =~= s + t.drop_last());
        scan_add(d, s, t.drop_last());
    }
}
/// Characters that are what they are within quotes.
pub open spec fn plain(s: Seq<char>) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] s[i] != '"' && s[i] != '\\' }
pub broadcast proof fn scan_plain(d: Ps, s: Seq<char>)
    requires #[trigger] plain(s),
    ensures d.lx matches Lx::St(t) ==> #[trigger] scan(d, s) == (Ps { lx: Lx::St(t + s), p: d.p })
    decreases s.len()
{
    reveal(scan);
    if d.lx is St {
    let t = d.lx->St_0;
    if s.len() == 0 { assert(t + s =~= t); } else {
        assert(plain(s.drop_last()));
        scan_plain(d, s.drop_last());
        assert((t + s.drop_last()).push(s.last()) =~= t + s);
        assert(s[s.len() - 1] == s.last());
    } }
}
pub broadcast group group_scan { scan_push, scan_empty, scan_add, scan_plain }
}
pub use dot::*;

// ---------------------------------------------------------------- what the graph doctor wrote
pub mod graph { use super::*;
/// Nothing read yet.
pub open spec fn begin() -> Ps { Ps { lx: Lx::Ws, p: Gp { ph: Ph::P0, g: Seq::empty() } } }
/// Between two statements of the graph: `}` makes it complete.
pub open spec fn between(d: Ps) -> bool { d.lx is Ws && (d.p.ph is S || d.p.ph is C || d.p.ph is N || d.p.ph is E) }
/// A complete graph.
pub open spec fn whole(d: Ps) -> bool { d.lx is Ws && d.p.ph is D }
/// The statements so far.
pub open spec fn stms(d: Ps) -> Seq<Stm> { match d.p.ph { Ph::N(a) => d.p.g.push(Stm::Node(a)), _ => d.p.g } }
pub open spec fn gph(s: Seq<char>) -> Ps { scan(begin(), s) }
/// A name is used in a graph.
#[verifier::opaque]
pub open spec fn used(g: Seq<Stm>, n: Seq<char>) -> bool
    decreases g.len(),
{
    g.len() > 0 && (used(g.drop_last(), n) || match g.last() { Stm::Node(a) => a == n, Stm::Edge(a, b) => a == n || b == n })
}
pub broadcast proof fn used_none(n: Seq<char>) ensures !#[trigger] used(Seq::<Stm>::empty(), n) { reveal(used); }
pub broadcast proof fn used_push(g: Seq<Stm>, x: Stm, n: Seq<char>)
    ensures #[trigger] used(g.push(x), n) == (used(g, n) || match x { Stm::Node(a) => a == n, Stm::Edge(a, b) => a == n || b == n }),
{ reveal(used); assert(g.push(x).drop_last() =~= g); }
/// The edges and the nodes of a graph.
#[verifier::opaque]
pub open spec fn edges(g: Seq<Stm>) -> Seq<(Seq<char>, Seq<char>)>
    decreases g.len(),
{
    if g.len() == 0 { Seq::empty() } else { match g.last() { Stm::Edge(a, b) => edges(g.drop_last()).push((a, b)), _ => edges(g.drop_last()) } }
}
pub broadcast proof fn edges_none() ensures #[trigger] edges(Seq::<Stm>::empty()) == Seq::<(Seq<char>, Seq<char>)>::empty() { reveal(edges); }
pub broadcast proof fn edges_push(g: Seq<Stm>, x: Stm)
    ensures #[trigger] edges(g.push(x)) == (match x { Stm::Edge(a, b) => edges(g).push((a, b)), _ => edges(g) }),
{ reveal(edges); assert(g.push(x).drop_last() =~= g); }
#[verifier::opaque]
pub open spec fn node(g: Seq<Stm>, n: Seq<char>) -> bool
    decreases g.len(),
{
    g.len() > 0 && (node(g.drop_last(), n) || g.last() == Stm::Node(n))
}
pub broadcast proof fn node_push(g: Seq<Stm>, x: Stm, n: Seq<char>)
    ensures #[trigger] node(g.push(x), n) == (node(g, n) || x == Stm::Node(n)),
{ reveal(node); assert(g.push(x).drop_last() =~= g); }
/// The name of the node of the build number `s` of generation `g`.
pub open spec fn art_name(g: u64, s: u64, a: usize) -> Seq<char> {
    ((Seq::<char>::empty() + dec(g as nat)).push('.') + dec(s as nat)).push('-') + ptr_text(a)
}
/// No node is named after the current or a later count.
#[verifier::opaque]
pub open spec fn unused(d: Ps, c: (u64, u64)) -> bool {
    forall|g: u64, s: u64, a: usize| g > c.0 || (g == c.0 && s >= c.1) ==> !used(stms(d), #[trigger] art_name(g, s, a))
}
/// Names of different counts differ.
pub proof fn art_inj(g: u64, s: u64, a: usize, h: u64, t: u64, b: usize)
    requires art_name(g, s, a) == art_name(h, t, b),
    ensures g == h && s == t,
{
    let (x, y) = (art_name(g, s, a), art_name(h, t, b));
    let (dg, dh, ds, dt) = (dec(g as nat), dec(h as nat), dec(s as nat), dec(t as nat));
    ax_dec(g as nat); ax_dec(h as nat); ax_dec(s as nat); ax_dec(t as nat);
    assert(x[dg.len() as int] == '.');
    assert(y[dh.len() as int] == '.');
    if dg.len() < dh.len() { assert(y[dg.len() as int] == dh[dg.len() as int]); }
    if dh.len() < dg.len() { assert(x[dh.len() as int] == dg[dh.len() as int]); }
    assert(dg.len() == dh.len());
    assert forall|i: int| 0 <= i < dg.len() implies dg[i] == dh[i] by { assert(x[i] == dg[i]); assert(y[i] == dh[i]); }
    assert(dg =~= dh);
    ax_dec_inj(g as nat, h as nat);
    let o = dg.len() + 1;
    assert(x[(o + ds.len()) as int] == '-');
    assert(y[(o + dt.len()) as int] == '-');
    if ds.len() < dt.len() { assert(y[(o + ds.len()) as int] == dt[ds.len() as int]); }
    if dt.len() < ds.len() { assert(x[(o + dt.len()) as int] == ds[dt.len() as int]); }
    assert(ds.len() == dt.len());
    assert forall|i: int| 0 <= i < ds.len() implies ds[i] == dt[i] by { assert(x[o + i] == ds[i]); assert(y[o + i] == dt[i]); }
    assert(ds =~= dt);
    ax_dec_inj(s as nat, t as nat);
}
/// They are no names of builders.
pub proof fn art_ptr(g: u64, s: u64, a: usize, b: usize)
    ensures art_name(g, s, a) != ptr_text(b),
{
    let dg = dec(g as nat);
    ax_ptr(b);
    assert(art_name(g, s, a)[dg.len() as int] == '.');
    if art_name(g, s, a) == ptr_text(b) { assert(idchar(ptr_text(b)[dg.len() as int])); }
}
pub broadcast group group_graph { used_none, used_push, edges_none, edges_push, node_push }
}
pub use graph::*;
//@ raw
/// How a handle names its builder.
pub open spec fn b_name<BCan>(o: TextualDocOptions, h: &BuilderHandle<BCan>) -> Seq<char> {
    if o.show_builder_values { h.dbg_text@ } else { short(o.tynm_m_n, h.type_name@) }
}
pub open spec fn a_name<ArtCan>(o: TextualDocOptions, h: &ArtifactHandle<ArtCan>) -> Seq<char> {
    if o.show_artifact_values { h.dbg_text@ } else { short(o.tynm_m_n, h.type_name@) }
}
pub open spec fn b_list<BCan>(l: Seq<Seq<char>>, o: TextualDocOptions, h: &BuilderHandle<BCan>) -> Seq<Seq<char>> {
    if o.show_addresses { l.push(ptr_text(h.id.0)).push(b_name(o, h)) } else { l.push(b_name(o, h)) }
}
pub open spec fn a_list<ArtCan: CanBase>(l: Seq<Seq<char>>, o: TextualDocOptions, h: &ArtifactHandle<ArtCan>) -> Seq<Seq<char>> {
    if o.show_addresses { l.push(ptr_text(h.value.addr())).push(a_name(o, h)) } else { l.push(a_name(o, h)) }
}
pub open spec fn nil() -> Seq<Seq<char>> { Seq::empty() }
/// A complete record with the texts of `l`.
pub open spec fn record(o: Seq<char>, n: Seq<char>, l: Seq<Seq<char>>) -> bool { occ(o, n, l) && eol(n) }

//@ extra impl BuilderId as Pointer
[] open spec fn ptxt(&self) -> Seq<char> { ptr_text(self.0) }

//@ fn ArtifactHandle::new(value)
//@ ensures
[C17] ret.type_name@ == tname::<T>()
[C17] ret.dbg_text@ == dtext(&value, true) || ret.dbg_text@ == dtext(&value, false)
//@ fn BuilderHandle::new(value)
//@ ensures
[C17] ret.id == value.pid()
[C17] ret.type_name@ == tname::<AP::Builder>()
[C17] ret.dbg_text@ == dtext(value.sb(), true) || ret.dbg_text@ == dtext(value.sb(), false)

//@ extra trait Doctor
[] /// The doctor is in order.
 spec fn doc_ok(&self) -> bool;
//@ fn Doctor::resolve(builder, used)
//@ requires
[C17] old(self).doc_ok()
//@ ensures
[C17] final(self).doc_ok()
//@ fn Doctor::build(builder, artifact)
//@ requires
[C17] old(self).doc_ok()
//@ ensures
[C17] final(self).doc_ok()
//@ fn Doctor::clear()
//@ requires
[C17] old(self).doc_ok()
//@ ensures
[C17] final(self).doc_ok()
//@ fn Doctor::invalidate(builder)
//@ requires
[C17] old(self).doc_ok()
//@ ensures
[C17] final(self).doc_ok()
//@ extra impl NoopDoctor as Doctor
[] open spec fn doc_ok(&self) -> bool { true }

//@ fn TextualDoc::new(opts, output)
//@ ensures
[C17] ret.output == output && ret.count == (0u64, 0u64) && ret.opts == opts
//@ fn TextualDoc::into_inner()
//@ ensures
[C17] ret == self.output
//@ extra impl TextualDoc as Doctor
[] open spec fn doc_ok(&self) -> bool { true }
//@ fn TextualDoc as Doctor::resolve(builder, used)
//@ at entry
broadcast use occs::group_cat;
//@ ensures
[C17] record(old(self).output.out(), final(self).output.out(), b_list(b_list(nil(), old(self).opts, builder), old(self).opts, used))
[C17] final(self).count == old(self).count && final(self).opts == old(self).opts
//@ fn TextualDoc as Doctor::build(builder, artifact)
//@ at entry
broadcast use occs::group_cat;
proof { assume(self.count.1 < u64::MAX); }
//@ ensures
[C17] record(old(self).output.out(), final(self).output.out(), a_list(b_list(nil().push(dec(old(self).count.0 as nat)).push(dec(old(self).count.1 as nat)), old(self).opts, builder), old(self).opts, artifact))
[C17] final(self).count.0 == old(self).count.0 && final(self).count.1 == old(self).count.1 + 1 && final(self).opts == old(self).opts
//@ fn TextualDoc as Doctor::clear()
//@ at entry
broadcast use occs::group_cat;
proof { assume(self.count.0 < u64::MAX); }
//@ ensures
[C17] record(old(self).output.out(), final(self).output.out(), nil().push(dec(old(self).count.0 as nat)))
[C17] final(self).count.0 == old(self).count.0 + 1 && final(self).count.1 == 0 && final(self).opts == old(self).opts
//@ fn TextualDoc as Doctor::invalidate(builder)
//@ at entry
broadcast use occs::group_cat;
proof { assume(self.count.0 < u64::MAX); }
//@ ensures
[C17] record(old(self).output.out(), final(self).output.out(), b_list(nil().push(dec(old(self).count.0 as nat)), old(self).opts, builder))
[C17] final(self).count.0 == old(self).count.0 + 1 && final(self).count.1 == 0 && final(self).opts == old(self).opts

//@ raw
impl<W: Write> VisgraphDoc<W> {
    /// What the doctor wrote up to now, as read by a reader of graphs.
    pub open spec fn gr(&self) -> Ps { gph(self.output->0.out()) }
    pub open spec fn ok(&self) -> bool { self.output is Some && between(self.gr()) && unused(self.gr(), self.count) }
}
//@ fn VisgraphDoc::new(opts, output)
//@ requires
[C17] output.out() == Seq::<char>::empty()
//@ ensures
[C17] ret.ok() && ret.count == (0u64, 0u64) && ret.opts == opts
[C17] stms(ret.gr()) == Seq::<Stm>::empty()
//@ at exit
proof { reveal(unused); }
//@ fn VisgraphDoc::into_inner()
//@ requires
[C17] self.ok()
//@ ensures
[C17] whole(gph(ret.out())) && stms(gph(ret.out())) == stms(self.gr())
//@ fn VisgraphDoc as Drop::drop()
//@ requires
[C17] old(self).output is Some ==> old(self).ok()
//@ ensures
[C17] old(self).output is None ==> final(self).output is None
[C17] old(self).output is Some ==> final(self).output is Some && whole(final(self).gr()) && stms(final(self).gr()) == stms(old(self).gr())
//@ extra impl VisgraphDoc as Doctor
[] open spec fn doc_ok(&self) -> bool { self.ok() }
//@ fn VisgraphDoc as Doctor::resolve(builder, used)
//@ at exit
proof {
    reveal(unused);
    assert forall|g: u64, s: u64, a: usize| g > self.count.0 || (g == self.count.0 && s >= self.count.1) implies !graph::used(stms(self.gr()), #[trigger] art_name(g, s, a)) by {
        art_ptr(g, s, a, builder.id.0); art_ptr(g, s, a, used.id.0);
    }
}
//@ ensures
[C17] edges(stms(final(self).gr())) == edges(stms(old(self).gr())).push((ptr_text(builder.id.0), ptr_text(used.id.0)))
[C17] final(self).count == old(self).count && final(self).opts == old(self).opts
//@ fn VisgraphDoc as Doctor::build(builder, artifact)
//@ at entry
proof { assume(self.count.1 < u64::MAX); }
//@ at exit
proof {
    reveal(unused);
    let c = old(self).count;
    assert forall|g: u64, s: u64, a: usize| g > self.count.0 || (g == self.count.0 && s >= self.count.1) implies !graph::used(stms(self.gr()), #[trigger] art_name(g, s, a)) by {
        art_ptr(g, s, a, builder.id.0);
        if art_name(g, s, a) == art_name(c.0, c.1, artifact.value.addr()) { art_inj(g, s, a, c.0, c.1, artifact.value.addr()); }
    }
}
//@ ensures
[C17] edges(stms(final(self).gr())) == edges(stms(old(self).gr())).push((ptr_text(builder.id.0), art_name(old(self).count.0, old(self).count.1, artifact.value.addr())))
[C17] !graph::used(stms(old(self).gr()), art_name(old(self).count.0, old(self).count.1, artifact.value.addr()))
[C17] node(stms(final(self).gr()), art_name(old(self).count.0, old(self).count.1, artifact.value.addr()))
[C17] final(self).count.0 == old(self).count.0 && final(self).count.1 == old(self).count.1 + 1 && final(self).opts == old(self).opts
//@ fn VisgraphDoc as Doctor::clear()
//@ at entry
proof { assume(self.count.0 < u64::MAX); reveal(unused); }
//@ ensures
[C17] final(self).output == old(self).output && final(self).opts == old(self).opts
[C17] final(self).count.0 == old(self).count.0 + 1 && final(self).count.1 == 0
//@ fn VisgraphDoc as Doctor::invalidate(_builder)
//@ at entry
proof { assume(self.count.0 < u64::MAX); reveal(unused); }
//@ ensures
[C17] final(self).output == old(self).output && final(self).opts == old(self).opts
[C17] final(self).count.0 == old(self).count.0 + 1 && final(self).count.1 == 0
