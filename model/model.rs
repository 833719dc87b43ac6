// The trusted model: specification functions, and contracts for what lies outside /repo.
//
// Everything marked external_body, uninterp or axiom in this file is an ASSUMPTION; the checks scan for these words and
// list every one of them in the evidence.  What can be run of them is tried on the real dependencies on every run
// (harness/src/model.rs): what is about values; not the model of memory, nor that there are no other ways to a value.
#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_assignments)]
#![allow(non_camel_case_types, unused_must_use, path_statements, unused_labels)]
#![feature(const_destruct)]
#![feature(const_trait_impl)]
use vstd::prelude::*;

verus! {

pub mod spec {
use vstd::prelude::*;
use crate::litids::lit_chal;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;

// ---- the scalars are a commutative ring -----------------------------------------------------------------------------
pub uninterp spec fn sadd(a: Scalar, b: Scalar) -> Scalar;
pub uninterp spec fn smul(a: Scalar, b: Scalar) -> Scalar;
pub uninterp spec fn sneg(a: Scalar) -> Scalar;
pub uninterp spec fn s0() -> Scalar;
pub uninterp spec fn s1() -> Scalar;
pub uninterp spec fn sinv(a: Scalar) -> Scalar;
pub type Sc = Scalar;
pub type Pt = RistrettoPoint;
pub open spec fn ssub(a: Scalar, b: Scalar) -> Scalar { sadd(a, sneg(b)) }

pub broadcast axiom fn ax_add_comm(a: Scalar, b: Scalar) ensures #[trigger] sadd(a, b) == sadd(b, a);
pub broadcast axiom fn ax_add_assoc(a: Scalar, b: Scalar, c: Scalar) ensures #[trigger] sadd(sadd(a, b), c) == sadd(a, sadd(b, c));
pub broadcast axiom fn ax_mul_comm(a: Scalar, b: Scalar) ensures #[trigger] smul(a, b) == smul(b, a);
pub broadcast axiom fn ax_mul_assoc(a: Scalar, b: Scalar, c: Scalar) ensures #[trigger] smul(smul(a, b), c) == smul(a, smul(b, c));
pub broadcast axiom fn ax_dist(a: Scalar, b: Scalar, c: Scalar) ensures #[trigger] smul(a, sadd(b, c)) == sadd(smul(a, b), smul(a, c));
pub broadcast axiom fn ax_add_zero(a: Scalar) ensures #[trigger] sadd(s0(), a) == a;
pub broadcast axiom fn ax_mul_one(a: Scalar) ensures #[trigger] smul(s1(), a) == a;
pub broadcast axiom fn ax_neg(a: Scalar) ensures sadd(a, #[trigger] sneg(a)) == s0();
pub broadcast proof fn lem_mul_zero(a: Scalar) ensures #[trigger] smul(s0(), a) == s0()
{
    broadcast use {ax_add_comm, ax_mul_comm, ax_add_zero};
    // 0a = (0+0)a = 0a + 0a
    let z = smul(a, s0());
    assert(sadd(s0(), s0()) == s0());
    assert(smul(a, sadd(s0(), s0())) == sadd(z, z)) by { ax_dist(a, s0(), s0()); }
    assert(sadd(sadd(z, z), sneg(z)) == sadd(z, sadd(z, sneg(z)))) by { ax_add_assoc(z, z, sneg(z)); }
    ax_neg(z);
}
pub proof fn lem_neg_unique(a: Scalar, b: Scalar) requires sadd(a, b) == s0() ensures b == sneg(a)
{
    broadcast use {ax_add_comm, ax_add_zero};
    ax_neg(a);
    ax_add_assoc(sneg(a), a, b);
    assert(sadd(sadd(sneg(a), a), b) == b);
    assert(sadd(sneg(a), sadd(a, b)) == sneg(a));
}
pub broadcast proof fn lem_mul_neg(a: Scalar, b: Scalar) ensures #[trigger] smul(sneg(a), b) == sneg(smul(a, b))
{
    broadcast use {ax_mul_comm, lem_mul_zero};
    ax_dist(b, a, sneg(a));
    ax_neg(a);
    lem_neg_unique(smul(a, b), smul(sneg(a), b));
}
pub broadcast proof fn lem_neg_neg(a: Scalar) ensures #[trigger] sneg(sneg(a)) == a
{
    broadcast use ax_add_comm;
    ax_neg(a);
    lem_neg_unique(sneg(a), a);
}
pub broadcast proof fn lem_neg_add(a: Scalar, b: Scalar) ensures #[trigger] sneg(sadd(a, b)) == sadd(sneg(a), sneg(b))
{
    broadcast use {ax_add_comm, ax_add_assoc, ax_add_zero};
    ax_neg(a); ax_neg(b);
    assert(sadd(sadd(a, b), sadd(sneg(a), sneg(b))) == sadd(a, sadd(b, sadd(sneg(b), sneg(a)))));
    assert(sadd(b, sadd(sneg(b), sneg(a))) == sadd(sadd(b, sneg(b)), sneg(a)));
    lem_neg_unique(sadd(a, b), sadd(sneg(a), sneg(b)));
}
pub broadcast proof fn lem_cancel1(a: Scalar, b: Scalar) ensures #[trigger] ssub(sadd(a, b), b) == a
{ broadcast use {ax_add_comm, ax_add_zero}; ax_add_assoc(a, b, sneg(b)); ax_neg(b); }
pub broadcast proof fn lem_cancel2(a: Scalar, b: Scalar) ensures #[trigger] sadd(ssub(a, b), b) == a
{ broadcast use {ax_add_comm, ax_add_zero}; ax_add_assoc(a, sneg(b), b); ax_neg(b); }
pub broadcast group cancel { lem_cancel1, lem_cancel2 }
pub broadcast group ac { ax_add_comm, ax_add_assoc, ax_mul_comm, ax_mul_assoc, ax_add_zero, ax_mul_one, lem_mul_zero }
pub broadcast group ring { ax_add_comm, ax_add_assoc, ax_mul_comm, ax_mul_assoc, ax_dist, ax_add_zero, ax_mul_one, ax_neg, lem_mul_zero, lem_mul_neg, lem_neg_neg, lem_neg_add }
// it is a field
pub axiom fn ax_inv(a: Scalar) requires a != s0() ensures smul(a, sinv(a)) == s1();
pub axiom fn ax_zero_not_one() ensures s0() != s1();

// ---- the group is cyclic of the same prime order: a point is the scalar it is the multiple of the basepoint by --------
pub uninterp spec fn dl(p: RistrettoPoint) -> Scalar;
pub uninterp spec fn pt(s: Scalar) -> RistrettoPoint;
pub broadcast axiom fn ax_dl_pt(s: Scalar) ensures #[trigger] dl(pt(s)) == s;
pub broadcast axiom fn ax_pt_dl(p: RistrettoPoint) ensures pt(#[trigger] dl(p)) == p;
pub open spec fn basepoint() -> RistrettoPoint { pt(s1()) }
pub open spec fn ident() -> RistrettoPoint { pt(s0()) }
pub broadcast group group_ax { ax_dl_pt, ax_pt_dl }

// ---- encodings ------------------------------------------------------------------------------------------------------
pub uninterp spec fn enc_s(s: Scalar) -> Seq<u8>;
pub uninterp spec fn enc_p(p: RistrettoPoint) -> Seq<u8>;
pub uninterp spec fn dec_s(b: Seq<u8>) -> Scalar;
pub uninterp spec fn dec_p(b: Seq<u8>) -> RistrettoPoint;
pub open spec fn ok_s(b: Seq<u8>) -> bool { b.len() == 32 && enc_s(dec_s(b)) == b }
pub open spec fn ok_p(b: Seq<u8>) -> bool { b.len() == 32 && enc_p(dec_p(b)) == b }
pub broadcast axiom fn ax_enc_s(s: Scalar) ensures (#[trigger] enc_s(s)).len() == 32, dec_s(enc_s(s)) == s;
pub broadcast axiom fn ax_enc_p(p: RistrettoPoint) ensures (#[trigger] enc_p(p)).len() == 32, dec_p(enc_p(p)) == p;
pub broadcast group encs { ax_enc_s, ax_enc_p }
pub open spec fn zeros(n: nat) -> Seq<u8> { Seq::new(n, |i: int| 0u8) }
pub axiom fn ax_enc_zero() ensures enc_s(s0()) == zeros(32), enc_p(ident()) == zeros(32);
/// Numbers below 2^252 are below the order of the group.
pub open spec fn canonical(b: Seq<u8>) -> bool { b.len() == 32 && b[31] < 16 }
pub axiom fn ax_canonical(b: Seq<u8>) requires canonical(b) ensures ok_s(b);
/// Reduction modulo the order of the group, of 32 and of 64 bytes.
pub uninterp spec fn red(b: Seq<u8>) -> Scalar;
pub uninterp spec fn wide(b: Seq<u8>) -> Scalar;
pub axiom fn ax_red(b: Seq<u8>) requires ok_s(b) ensures enc_s(red(b)) == b;
pub uninterp spec fn hash_s(b: Seq<u8>) -> Scalar;
pub uninterp spec fn utf8(s: Seq<char>) -> Seq<u8>;
pub open spec fn is_digit(c: char) -> bool { '0' <= c && c <= '9' }
/// UTF-8 agrees with ASCII on strings of decimal digits, and every byte of a multi-byte sequence is above 127.
pub axiom fn ax_utf8_digits(s: Seq<char>)
    ensures
        (forall|i: int| 0 <= i < s.len() ==> is_digit(#[trigger] s[i])) ==>
            utf8(s).len() == s.len() && forall|i: int| 0 <= i < s.len() ==> #[trigger] utf8(s)[i] == s[i] as u8;

// ---- bincode: a scalar is a byte string with its length before it ------------------------------------------------------
pub open spec fn len32() -> Seq<u8> { seq![32u8, 0, 0, 0, 0, 0, 0, 0] }
pub open spec fn wire_s(s: Scalar) -> Seq<u8> { len32() + enc_s(s) }
pub trait Wire: Sized {
    spec fn wire(self) -> Seq<u8>;
}
impl Wire for Scalar {
    open spec fn wire(self) -> Seq<u8> { wire_s(self) }
}
pub open spec fn is_prefix(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && b.subrange(0, a.len() as int) == a }
pub open spec fn wire_ok<T: Wire>(b: Seq<u8>) -> bool { exists|x: T| is_prefix(#[trigger] x.wire(), b) }

// ---- transcripts and random numbers -----------------------------------------------------------------------------------
/// What a transcript has absorbed.
pub enum Ev {
    New(Seq<u8>),
    Commit(Seq<u8>, Seq<u8>),
    Chal(Seq<u8>, int),
}
pub open spec fn tnew(l: Seq<u8>) -> Seq<Ev> { seq![Ev::New(l)] }
pub open spec fn tcom(t: Seq<Ev>, l: Seq<u8>, m: Seq<u8>) -> Seq<Ev> { t.push(Ev::Commit(l, m)) }
/// The bytes the transcript answers a challenge with.
pub uninterp spec fn chal(t: Seq<Ev>, l: Seq<u8>, n: int) -> Seq<u8>;
pub open spec fn challenge(t: Seq<Ev>) -> Scalar { wide(chal(t, lits(lit_chal()), 64)) }
pub uninterp spec fn lits(id: int) -> Seq<u8>;

pub struct Ctor { pub t: Seq<Ev>, pub w: Seq<(Seq<u8>, Seq<u8>)> }
/// A generator: who it belongs to, and how much was drawn from it.
pub struct Rng { pub src: int, pub pos: int }
pub uninterp spec fn draw_s(src: int, pos: int) -> Scalar;
pub uninterp spec fn draw_b(src: int, pos: int, n: int) -> Seq<u8>;
/// The generator a transcript makes from its state, witnesses and another generator.
pub uninterp spec fn seeded(c: Ctor, r: Rng) -> int;
/// The generator which the operating system seeds.
pub uninterp spec fn is_system(src: int) -> bool;
pub open spec fn drawn(s: Scalar, src: int, i: int) -> bool { s == draw_s(src, i) }

// ---- sums of products --------------------------------------------------------------------------------------------------
pub open spec fn dot(x: Seq<Scalar>, m: Seq<Scalar>) -> Scalar
    decreases x.len()
{
    if x.len() == 0 { s0() } else { sadd(dot(x.drop_last(), m), smul(x.last(), m[x.len() - 1])) }
}
pub open spec fn msm(x: Seq<Scalar>, m: Seq<RistrettoPoint>) -> Scalar
    decreases x.len()
{
    if x.len() == 0 { s0() } else { sadd(msm(x.drop_last(), m), smul(x.last(), dl(m[x.len() - 1]))) }
}
/// Encodings of sequences, one after the other.
pub open spec fn enc_ss(x: Seq<Scalar>) -> Seq<u8>
    decreases x.len()
{
    if x.len() == 0 { Seq::empty() } else { enc_ss(x.drop_last()) + enc_s(x.last()) }
}
pub open spec fn enc_ps(x: Seq<RistrettoPoint>) -> Seq<u8>
    decreases x.len()
{
    if x.len() == 0 { Seq::empty() } else { enc_ps(x.drop_last()) + enc_p(x.last()) }
}
pub broadcast proof fn lem_enc_ss_push(x: Seq<Scalar>, s: Scalar) ensures #[trigger] enc_ss(x.push(s)) == enc_ss(x) + enc_s(s)
{ assert(x.push(s).drop_last() =~= x); }
pub broadcast proof fn lem_enc_ps_push(x: Seq<RistrettoPoint>, s: RistrettoPoint) ensures #[trigger] enc_ps(x.push(s)) == enc_ps(x) + enc_p(s)
{ assert(x.push(s).drop_last() =~= x); }
pub broadcast proof fn lem_enc_ss_len(x: Seq<Scalar>) ensures #[trigger] enc_ss(x).len() == 32 * x.len()
    decreases x.len()
{ broadcast use ax_enc_s; if x.len() > 0 { lem_enc_ss_len(x.drop_last()); } }
pub broadcast proof fn lem_enc_ps_len(x: Seq<RistrettoPoint>) ensures #[trigger] enc_ps(x).len() == 32 * x.len()
    decreases x.len()
{ broadcast use ax_enc_p; if x.len() > 0 { lem_enc_ps_len(x.drop_last()); } }
pub broadcast proof fn lem_dot_push(x: Seq<Scalar>, s: Scalar, m: Seq<Scalar>) ensures #[trigger] dot(x.push(s), m) == sadd(dot(x, m), smul(s, m[x.len() as int]))
{ assert(x.push(s).drop_last() =~= x); }
pub broadcast proof fn lem_take_push<T>(x: Seq<T>, i: int) requires 0 <= i < x.len() ensures #[trigger] x.take(i + 1) == x.take(i).push(x[i])
{ assert(x.take(i + 1) =~= x.take(i).push(x[i])); }
pub broadcast proof fn lem_take_all<T>(x: Seq<T>) ensures #[trigger] x.take(x.len() as int) == x
{ assert(x.take(x.len() as int) =~= x); }
/// Whether a list of witnesses has this one.
pub open spec fn w_has(w: Seq<(Seq<u8>, Seq<u8>)>, x: Seq<u8>) -> bool
    decreases w.len()
{
    w.len() > 0 && (w.last().1 == x || w_has(w.drop_last(), x))
}
pub broadcast proof fn lem_w_has(w: Seq<(Seq<u8>, Seq<u8>)>, e: (Seq<u8>, Seq<u8>), x: Seq<u8>)
    ensures #[trigger] w_has(w.push(e), x) == (e.1 == x || w_has(w, x))
{ assert(w.push(e).drop_last() =~= w); }
pub broadcast group seqs { lem_w_has, lem_enc_ss_push, lem_enc_ps_push, lem_enc_ss_len, lem_enc_ps_len, lem_dot_push, lem_take_push, lem_take_all }
/// The nth piece of 32 bytes.
pub open spec fn piece(b: Seq<u8>, i: int) -> Seq<u8> { b.subrange(32 * i, 32 * i + 32) }
pub axiom fn ax_vec_ext<T>(a: Vec<T>, b: Vec<T>) requires a@ =~= b@ ensures a == b;
pub broadcast axiom fn ax_vec_len_s(v: Vec<Scalar>) ensures (#[trigger] v@).len() * 32 <= isize::MAX;
pub broadcast axiom fn ax_vec_len_p(v: Vec<RistrettoPoint>) ensures (#[trigger] v@).len() * 160 <= isize::MAX;
pub broadcast group sizes { ax_vec_len_s, ax_vec_len_p }

// ---- memory shared with C -------------------------------------------------------------------------------------------
pub uninterp spec fn is_nil(p: *const u8) -> bool;
/// What the n bytes at p hold, while a function runs which was given them.
pub uninterp spec fn mem(p: *const u8, n: int) -> Seq<u8>;
/// Whether the n bytes at p may be read.
pub uninterp spec fn readable(p: *const u8, n: int) -> bool;
/// The bytes b are at p, and stay there until whoever has the pointer gives them back.
pub uninterp spec fn lives(p: *const u8, b: Seq<u8>) -> bool;
pub uninterp spec fn as_const(p: *mut u8) -> *const u8;
/// No more memory than can be addressed; and what may be read may be read in part.
pub broadcast axiom fn ax_readable(p: *const u8, n: int) ensures #[trigger] readable(p, n) ==> 0 <= n <= isize::MAX;
pub broadcast axiom fn ax_readable_part(p: *const u8, n: int, m: int)
    ensures #![trigger readable(p, n), readable(p, m)] readable(p, n) && 0 <= m <= n ==> readable(p, m) && mem(p, m) == mem(p, n).take(m);
pub broadcast group memory { ax_readable, ax_readable_part }
/// The numbers of a generator, by its seed.
pub uninterp spec fn chacha(seed: Seq<u8>) -> int;
} // mod spec

pub mod rt {
use vstd::prelude::*;
use crate::spec::*;
use crate::ext::curve25519_dalek::scalar::Scalar;
use crate::ext::curve25519_dalek::ristretto::RistrettoPoint;

/// A byte string constant of the source.
#[verifier::external_body]
pub fn lit(id: usize) -> (r: &'static [u8])
    ensures r@ == lits(id as int)
{ unimplemented!() }

pub trait Branch: Sized {
    type Out;
    type Res;
    spec fn bspec(self) -> Result<Self::Out, Self::Res>;
    fn branch(self) -> (r: Result<Self::Out, Self::Res>)
        ensures r == self.bspec();
}
impl<T> Branch for Option<T> {
    type Out = T;
    type Res = crate::ext::NoneError;
    open spec fn bspec(self) -> Result<T, crate::ext::NoneError> {
        match self { Some(x) => Ok(x), None => Err(crate::ext::NoneError) }
    }
    fn branch(self) -> (r: Result<T, crate::ext::NoneError>) {
        match self { Some(x) => Ok(x), None => Err(crate::ext::NoneError) }
    }
}
impl<T, E> Branch for Result<T, E> {
    type Out = T;
    type Res = E;
    open spec fn bspec(self) -> Result<T, E> { self }
    fn branch(self) -> (r: Result<T, E>) { self }
}

/// `Clone`: derived implementations copy the value.
pub trait VClone: Sized {
    fn vclone(&self) -> (r: Self) ensures r == *self;
}
impl<T: Clone> VClone for T {
    #[verifier::external_body]
    fn vclone(&self) -> (r: Self) { self.clone() }
}
pub trait VExtend<T> {
    fn vextend(&mut self, s: &[T]);
}
impl<T: Copy> VExtend<T> for Vec<T> {
    #[verifier::external_body]
    fn vextend(&mut self, s: &[T])
        ensures final(self)@ == old(self)@ + s@
    { self.extend_from_slice(s) }
}
pub trait ToVec<T> {
    fn vto_vec(&self) -> Vec<T>;
}
impl<const N: usize> ToVec<u8> for [u8; N] {
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}
impl ToVec<u8> for [u8] {
    #[verifier::external_body]
    fn vto_vec(&self) -> (r: Vec<u8>) ensures r@ == self@ { unimplemented!() }
}

/// `&x[..]`
pub trait Whole {
    type Item;
    spec fn wseq(&self) -> Seq<Self::Item>;
    fn whole(&self) -> (r: &[Self::Item]) ensures r@ == self.wseq();
}
impl<T> Whole for Vec<T> {
    type Item = T;
    open spec fn wseq(&self) -> Seq<T> { self@ }
    fn whole(&self) -> (r: &[T]) { self.as_slice() }
}
impl<T, const N: usize> Whole for [T; N] {
    type Item = T;
    open spec fn wseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn whole(&self) -> (r: &[T]) { unimplemented!() }
}
impl<T> Whole for [T] {
    type Item = T;
    open spec fn wseq(&self) -> Seq<T> { self@ }
    fn whole(&self) -> (r: &[T]) { self }
}
impl<'a, I: Whole + ?Sized> Whole for &'a I {
    type Item = I::Item;
    open spec fn wseq(&self) -> Seq<I::Item> { (**self).wseq() }
    fn whole(&self) -> (r: &[I::Item]) { (**self).whole() }
}

/// `Vec::from(x)`
pub trait IntoBytes {
    spec fn ibytes(&self) -> Seq<u8>;
    fn into_vec(self) -> (r: Vec<u8>) where Self: Sized ensures r@ == self.ibytes();
}
impl<'a> IntoBytes for &'a [u8] {
    open spec fn ibytes(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn into_vec(self) -> (r: Vec<u8>) { unimplemented!() }
}
impl IntoBytes for Vec<u8> {
    open spec fn ibytes(&self) -> Seq<u8> { self@ }
    fn into_vec(self) -> (r: Vec<u8>) { self }
}
pub trait IntoBoxedSlice {
    fn vinto_boxed_slice(self) -> crate::ext::mem::boxed::Box<[u8]>;
}
impl IntoBoxedSlice for Vec<u8> {
    #[verifier::external_body]
    fn vinto_boxed_slice(self) -> (r: crate::ext::mem::boxed::Box<[u8]>) ensures r@ == self@ { unimplemented!() }
}

// ---- pointers ---------------------------------------------------------------------------------------------------------
pub trait PtrCast<T> {
    spec fn cast_to(self) -> T where Self: Sized;
    fn ptr_cast(self) -> (r: T) where Self: Sized ensures r == self.cast_to();
}
impl PtrCast<*const u8> for *const u8 {
    open spec fn cast_to(self) -> *const u8 { self }
    fn ptr_cast(self) -> (r: *const u8) { self }
}
impl PtrCast<*const u8> for *mut u8 {
    open spec fn cast_to(self) -> *const u8 { as_const(self) }
    #[verifier::external_body]
    fn ptr_cast(self) -> (r: *const u8) { unimplemented!() }
}
impl PtrCast<*mut u8> for *const u8 {
    uninterp spec fn cast_to(self) -> *mut u8;
    #[verifier::external_body]
    fn ptr_cast(self) -> (r: *mut u8) ensures as_const(r) == self { unimplemented!() }
}
#[verifier::external_body]
pub fn is_null(p: *const u8) -> (r: bool) ensures r == is_nil(p) { unimplemented!() }

/// The value which overwriting leaves.
pub trait Cleared {
    spec fn is_cleared(&self) -> bool;
}
impl Cleared for Scalar {
    open spec fn is_cleared(&self) -> bool { *self == s0() }
}
impl<T> Cleared for Vec<T> {
    open spec fn is_cleared(&self) -> bool { self@.len() == 0 }
}

/// What a `for` loop goes over.
pub trait Iterable {
    type Item;
    spec fn vseq(&self) -> Seq<Self::Item>;
    fn vlen(&self) -> (r: usize) ensures r == self.vseq().len();
    fn vat(&self, i: usize) -> (r: &Self::Item) requires i < self.vseq().len() ensures *r == self.vseq()[i as int];
}
impl<T> Iterable for Vec<T> {
    type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn vlen(&self) -> (r: usize) { self.len() }
    fn vat(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T> Iterable for [T] {
    type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    fn vlen(&self) -> (r: usize) { self.len() }
    fn vat(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<T, const N: usize> Iterable for [T; N] {
    type Item = T;
    open spec fn vseq(&self) -> Seq<T> { self@ }
    #[verifier::external_body]
    fn vlen(&self) -> (r: usize) { N }
    fn vat(&self, i: usize) -> (r: &T) { &self[i] }
}
impl<'a, I: Iterable + ?Sized> Iterable for &'a I {
    type Item = I::Item;
    open spec fn vseq(&self) -> Seq<I::Item> { (**self).vseq() }
    fn vlen(&self) -> (r: usize) { (**self).vlen() }
    fn vat(&self, i: usize) -> (r: &I::Item) { (**self).vat(i) }
}
pub open spec fn nchunks_spec(len: int, k: int) -> int { if len % k == 0 { len / k } else { len / k + 1 } }
pub fn nchunks(b: &[u8], k: usize) -> (r: usize)
    requires k > 0
    ensures r == nchunks_spec(b@.len() as int, k as int)
{
    if b.len() % k == 0 { b.len() / k } else {
        assert(b@.len() / (k as nat) < usize::MAX) by(nonlinear_arith) requires b@.len() <= usize::MAX, k > 0, b@.len() % (k as nat) != 0;
        b.len() / k + 1
    }
}
pub fn nchunks_exact(b: &[u8], k: usize) -> (r: usize)
    requires k > 0
    ensures r == b@.len() / (k as nat), r <= nchunks_spec(b@.len() as int, k as int)
{
    b.len() / k
}
pub open spec fn chunk_spec(b: Seq<u8>, k: int, i: int) -> Seq<u8> {
    b.subrange(k * i, if k * i + k <= b.len() { k * i + k } else { b.len() as int })
}
#[verifier::external_body]
pub fn chunk_at(b: &[u8], k: usize, i: usize) -> (r: &[u8])
    requires k > 0, i < nchunks_spec(b@.len() as int, k as int)
    ensures r@ == chunk_spec(b@, k as int, i as int), r@.len() <= k,
{ &b[k * i..core::cmp::min(k * i + k, b.len())] }
#[verifier::external_body]
pub fn bytes_eq(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ =~= b@) { a == b }
pub fn bytes_all(a: &[u8], c: u8) -> (r: bool)
    ensures r == (forall|j: int| 0 <= j < a@.len() ==> a@[j] == c), c == 0 ==> r == (a@ == zeros(a@.len())),
{
    let mut i: usize = 0;
    while i < a.len()
        invariant i <= a@.len(), forall|j: int| 0 <= j < i ==> a@[j] == c,
        decreases a@.len() - i,
    {
        if a[i] != c {
            proof { if c == 0 && a@ == zeros(a@.len()) { assert(a@[i as int] == 0); } }
            return false;
        }
        i += 1;
    }
    proof { if c == 0 { assert(a@ =~= zeros(a@.len())); } }
    true
}
pub fn umin(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { a } else { b } { if a <= b { a } else { b } }
pub fn usub(a: usize, b: usize) -> (r: usize) ensures r == if a >= b { a - b } else { 0 } { if a >= b { a - b } else { 0 } }
pub fn range_len(a: usize, b: usize) -> (r: usize) ensures r == if a <= b { b - a } else { 0 } { if a <= b { b - a } else { 0 } }

#[verifier::external_body]
pub fn msm_mismatch() -> RistrettoPoint requires false { unimplemented!() }
#[verifier::external_body]
pub fn msm(x: &[Scalar], p: &[RistrettoPoint]) -> (r: RistrettoPoint)
    requires x@.len() == p@.len()
    ensures dl(r) == crate::spec::msm(x@, p@)
{ unimplemented!() }
#[verifier::external_body]
pub fn msm1(a: Scalar, p: RistrettoPoint) -> (r: RistrettoPoint)
    ensures dl(r) == smul(a, dl(p))
{ unimplemented!() }
#[verifier::external_body]
pub fn msm2(a: Scalar, b: Scalar, p: RistrettoPoint, q: RistrettoPoint) -> (r: RistrettoPoint)
    ensures dl(r) == sadd(smul(a, dl(p)), smul(b, dl(q)))
{ unimplemented!() }
#[verifier::external_body]
pub fn msm3(a: Scalar, b: Scalar, c: Scalar, p: RistrettoPoint, q: RistrettoPoint, s: RistrettoPoint) -> (r: RistrettoPoint)
    ensures dl(r) == sadd(sadd(smul(a, dl(p)), smul(b, dl(q))), smul(c, dl(s)))
{ unimplemented!() }
#[verifier::external_body]
pub fn msm4(a: Scalar, b: Scalar, c: Scalar, d: Scalar, p: RistrettoPoint, q: RistrettoPoint, s: RistrettoPoint, t: RistrettoPoint) -> (r: RistrettoPoint)
    ensures dl(r) == sadd(sadd(sadd(smul(a, dl(p)), smul(b, dl(q))), smul(c, dl(s))), smul(d, dl(t)))
{ unimplemented!() }

pub assume_specification<T, E, F>[ Result::<T, E>::or ](r: Result<T, E>, res: Result<T, F>) -> (o: Result<T, F>)
    where T: core::marker::Destruct, E: core::marker::Destruct, F: core::marker::Destruct
    ensures o == match r { Ok(v) => Ok(v), Err(_) => res };
pub assume_specification<T>[ core::mem::drop ](x: T) where T: core::marker::Destruct;
pub assume_specification[ String::as_bytes ](s: &String) -> (r: &[u8])
    ensures r@ == utf8(s@);
pub assume_specification[ String::with_capacity ](n: usize) -> (r: String)
    ensures r@ == Seq::<char>::empty();
} // mod rt

pub mod ext {
use vstd::prelude::*;
pub struct NoneError;

pub mod clear_on_drop { pub mod clear {
    use vstd::prelude::*;
    pub trait Clear {
        spec fn cleared(&self) -> bool;
        fn clear(&mut self) ensures final(self).cleared();
    }
    impl Clear for crate::ext::curve25519_dalek::scalar::Scalar {
        open spec fn cleared(&self) -> bool { *self == crate::spec::s0() }
        #[verifier::external_body]
        fn clear(&mut self) { unimplemented!() }
    }
} }

pub mod libc {
    pub type size_t = usize;
    pub type uint8_t = u8;
    pub type uint64_t = u64;
}
/// Memory shared with C.
pub mod mem {
    pub mod ptr {
        use vstd::prelude::*;
        use crate::spec::*;
        #[verifier::external_body]
        pub fn null() -> (r: *const u8) ensures is_nil(r) { unimplemented!() }
    }
    pub mod slice {
        use vstd::prelude::*;
        use crate::spec::*;
        #[verifier::external_body]
        pub fn from_raw_parts<'a>(p: *const u8, n: usize) -> (r: &'a [u8])
            requires !is_nil(p), readable(p, n as int)
            ensures r@ == mem(p, n as int), r@.len() == n { unimplemented!() }
        #[verifier::external_body]
        pub fn from_raw_parts_mut(p: *mut u8, n: usize) -> (r: crate::ext::mem::boxed::Block)
            requires !is_nil(as_const(p))
            ensures r.at() == as_const(p), r.len() == n { unimplemented!() }
    }
    pub mod boxed {
        use vstd::prelude::*;
        use crate::spec::*;
        /// The owner of some bytes of the heap.
        #[verifier::external_body]
        #[verifier::reject_recursive_types(T)]
        pub struct Box<T: ?Sized> { x: core::marker::PhantomData<T> }
        impl View for Box<[u8]> {
            type V = Seq<u8>;
            uninterp spec fn view(&self) -> Seq<u8>;
        }
        /// A place of the heap, and how many bytes are there.
        #[verifier::external_body]
        pub struct Block { x: u8 }
        impl Block {
            pub uninterp spec fn at(&self) -> *const u8;
            pub uninterp spec fn len(&self) -> int;
        }
        impl Box<[u8]> {
            #[verifier::external_body]
            pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
            #[verifier::external_body]
            pub fn as_ptr(&self) -> (r: *const u8) ensures !is_nil(r) { unimplemented!() }
            #[verifier::external_body]
            pub fn into_raw(b: Box<[u8]>) -> (r: *mut u8) ensures !is_nil(as_const(r)), lives(as_const(r), b@) { unimplemented!() }
            /// Only what was handed out may be taken back, and all of it.
            #[verifier::external_body]
            pub fn from_raw(b: Block) -> (r: Box<[u8]>) requires exists|s: Seq<u8>| #[trigger] lives(b.at(), s) && s.len() == b.len() { unimplemented!() }
        }
    }
}
pub mod sha2 { pub struct Sha512 { pub x: u8 } }

pub mod rand_core {
    use vstd::prelude::*;
    use crate::spec::*;
    pub trait RngCore {
        spec fn rng(&self) -> Rng;
        fn fill_bytes(&mut self, b: &mut [u8])
            ensures final(b)@.len() == old(b)@.len(),
                    final(b)@ == draw_b(old(self).rng().src, old(self).rng().pos, old(b)@.len() as int),
                    final(self).rng() == (Rng { src: old(self).rng().src, pos: old(self).rng().pos + 1 });
    }
    pub trait CryptoRng {}
}
pub mod rand {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::ext::rand_core::*;
    #[verifier::external_body]
    pub struct ThreadRng { x: u8 }
    impl CryptoRng for ThreadRng {}
    impl RngCore for ThreadRng {
        uninterp spec fn rng(&self) -> Rng;
        #[verifier::external_body]
        fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn thread_rng() -> (r: ThreadRng) ensures is_system(r.rng().src) { unimplemented!() }
    #[verifier::external_body]
    pub struct ChaChaRng { x: u8 }
    impl CryptoRng for ChaChaRng {}
    impl RngCore for ChaChaRng {
        uninterp spec fn rng(&self) -> Rng;
        #[verifier::external_body]
        fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() }
    }
    pub trait SeedableRng {
        fn from_seed(seed: [u8; 32]) -> Self where Self: Sized;
    }
    impl SeedableRng for ChaChaRng {
        #[verifier::external_body]
        fn from_seed(seed: [u8; 32]) -> (r: ChaChaRng) ensures r.rng() == (Rng { src: chacha(seed@), pos: 0 }) { unimplemented!() }
    }
}
pub mod merlin {
    use vstd::prelude::*;
    use crate::spec::*;
    use crate::ext::rand_core::*;
    #[verifier::external_body]
    pub struct Transcript { x: u8 }
    #[verifier::external_body]
    pub struct TranscriptRngConstructor { x: u8 }
    #[verifier::external_body]
    pub struct TranscriptRng { x: u8 }
    impl View for Transcript { type V = Seq<Ev>; uninterp spec fn view(&self) -> Seq<Ev>; }
    impl View for TranscriptRngConstructor { type V = Ctor; uninterp spec fn view(&self) -> Ctor; }
    impl Transcript {
        #[verifier::external_body]
        pub fn new(label: &'static [u8]) -> (r: Transcript) ensures r@ == tnew(label@) { unimplemented!() }
        #[verifier::external_body]
        pub fn commit_bytes(&mut self, label: &'static [u8], message: &[u8])
            ensures final(self)@ == tcom(old(self)@, label@, message@) { unimplemented!() }
        #[verifier::external_body]
        pub fn challenge_bytes(&mut self, label: &'static [u8], dest: &mut [u8])
            ensures final(dest)@.len() == old(dest)@.len(),
                    final(dest)@ == chal(old(self)@, label@, old(dest)@.len() as int),
                    final(self)@ == old(self)@.push(Ev::Chal(label@, old(dest)@.len() as int)) { unimplemented!() }
        #[verifier::external_body]
        pub fn fork_transcript(&self) -> (r: TranscriptRngConstructor)
            ensures r@ == (Ctor { t: self@, w: Seq::empty() }) { unimplemented!() }
    }
    impl TranscriptRngConstructor {
        #[verifier::external_body]
        pub fn commit_witness_bytes(self, label: &'static [u8], witness: &[u8]) -> (r: TranscriptRngConstructor)
            ensures r@ == (Ctor { t: self@.t, w: self@.w.push((label@, witness@)) }) { unimplemented!() }
        #[verifier::external_body]
        pub fn reseed_from_rng<R: RngCore + CryptoRng>(self, rng: &mut R) -> (r: TranscriptRng)
            ensures r.rng() == (Rng { src: seeded(self@, old(rng).rng()), pos: 0 }),
                    final(rng).rng() == (Rng { src: old(rng).rng().src, pos: old(rng).rng().pos + 1 }) { unimplemented!() }
    }
    impl CryptoRng for TranscriptRng {}
    impl RngCore for TranscriptRng {
        uninterp spec fn rng(&self) -> Rng;
        #[verifier::external_body]
        fn fill_bytes(&mut self, b: &mut [u8]) { unimplemented!() }
    }
}
pub mod bincode {
    use vstd::prelude::*;
    use crate::spec::*;
    #[verifier::external_body]
    pub struct Error { x: u8 }
    /// Trailing bytes are ignored; the bytes of each scalar must be its canonical encoding.
    #[verifier::external_body]
    pub fn deserialize<T: Wire>(b: &[u8]) -> (r: Result<T, Error>)
        ensures r matches Ok(x) ==> is_prefix(x.wire(), b@),
                r is Err ==> !wire_ok::<T>(b@),
    { unimplemented!() }
    #[verifier::external_body]
    pub fn serialize<T: Wire>(x: &T) -> (r: Result<Vec<u8>, Error>)
        ensures r matches Ok(v) && v@ == x.wire()
    { unimplemented!() }
}
/// serde's data model, as far as byte strings go: a format takes one, and has one when it is read, either as such or as
/// a sequence of numbers.
pub mod serde {
    use vstd::prelude::*;
    pub enum Given { Bytes(Seq<u8>), Nums(Seq<u8>), Other }
    pub mod ser { pub trait Error: Sized {} }
    pub trait Serializer: Sized {
        type Ok;
        type Error: ser::Error;
        /// `r` is what the format answers when it is given the byte string `b`.
        spec fn wrote(self, b: Seq<u8>, r: Result<Self::Ok, Self::Error>) -> bool;
        fn serialize_bytes(self, v: &[u8]) -> (r: Result<Self::Ok, Self::Error>) ensures self.wrote(v@, r);
    }
    pub trait Serialize {
        spec fn encoding(&self) -> Seq<u8>;
        fn serialize<S>(&self, serializer: S) -> (r: Result<S::Ok, S::Error>) where S: Serializer
            ensures serializer.wrote(self.encoding(), r);
    }
    pub mod de {
        use vstd::prelude::*;
        pub trait Error: Sized {
            fn invalid_length<X>(n: usize, e: &X) -> Self;
            fn custom<T>(t: T) -> Self;
        }
        pub trait Elem: Sized { spec fn elem(self) -> u8; }
        impl Elem for u8 { open spec fn elem(self) -> u8 { self } }
        pub trait SeqAccess<'de>: Sized {
            type Error: Error;
            /// the numbers yet to come, and whether something else than a number, or a failure, comes after them
            spec fn left(&self) -> Seq<u8>;
            spec fn bad(&self) -> bool;
            fn next_element<T: Elem>(&mut self) -> (r: Result<Option<T>, Self::Error>)
                ensures
                    final(self).bad() == old(self).bad(),
                    r matches Ok(Some(x)) ==> old(self).left().len() > 0 && x.elem() == old(self).left()[0] && final(self).left() == old(self).left().skip(1),
                    r matches Ok(None) ==> old(self).left().len() == 0 && final(self).left() == old(self).left() && !old(self).bad(),
                    r is Err ==> old(self).left().len() == 0 && final(self).left() == old(self).left() && old(self).bad();
            fn size_hint(&self) -> (r: Option<usize>);
        }
        pub trait Visitor<'de>: Sized {
            type Value;
            /// the byte strings, and the sequences of numbers, it takes; and what it makes of them
            spec fn takes(self, b: Seq<u8>) -> bool;
            spec fn takes_nums(self, b: Seq<u8>) -> bool;
            spec fn makes(self, b: Seq<u8>, x: Self::Value) -> bool;
            fn visit_bytes<E>(self, v: &[u8]) -> (r: Result<Self::Value, E>) where E: Error
                ensures r is Ok <==> self.takes(v@), r matches Ok(x) ==> self.makes(v@, x);
            fn visit_seq<A>(self, a: A) -> (r: Result<Self::Value, A::Error>) where A: SeqAccess<'de>
                ensures r is Ok <==> !a.bad() && self.takes_nums(a.left()), r matches Ok(x) ==> self.makes(a.left(), x);
        }
        pub use super::{Deserialize, Deserializer};
    }
    pub use de::Visitor;
    pub trait Deserializer<'de>: Sized {
        type Error: de::Error;
        spec fn given(self) -> Given;
        fn deserialize_bytes<V>(self, visitor: V) -> (r: Result<V::Value, Self::Error>) where V: de::Visitor<'de>
            ensures
                self.given() matches Given::Bytes(b) ==> (r is Ok <==> visitor.takes(b)) && (r matches Ok(x) ==> visitor.makes(b, x)),
                self.given() matches Given::Nums(b) ==> (r is Ok <==> visitor.takes_nums(b)) && (r matches Ok(x) ==> visitor.makes(b, x)),
                self.given() is Other ==> r is Err;
        fn deserialize_byte_buf<V>(self, visitor: V) -> (r: Result<V::Value, Self::Error>) where V: de::Visitor<'de>
            ensures
                self.given() matches Given::Bytes(b) ==> (r is Ok <==> visitor.takes(b)) && (r matches Ok(x) ==> visitor.makes(b, x)),
                self.given() matches Given::Nums(b) ==> (r is Ok <==> visitor.takes_nums(b)) && (r matches Ok(x) ==> visitor.makes(b, x)),
                self.given() is Other ==> r is Err;
    }
    pub trait Deserialize<'de>: Sized {
        /// the byte strings that decode, and what one decodes to
        spec fn decodes(b: Seq<u8>) -> bool;
        spec fn decoded(b: Seq<u8>, x: Self) -> bool;
        fn deserialize<D>(deserializer: D) -> (r: Result<Self, D::Error>) where D: Deserializer<'de>
            ensures
                deserializer.given() matches Given::Bytes(b) ==> (r is Ok <==> Self::decodes(b)) && (r matches Ok(x) ==> Self::decoded(b, x)),
                deserializer.given() matches Given::Nums(b) ==> (r is Ok <==> Self::decodes(b)) && (r matches Ok(x) ==> Self::decoded(b, x)),
                deserializer.given() is Other ==> r is Err;
    }
}
/// Values of JavaScript. They are read and written as JSON: what is given to `deserialize` is what JSON has for the value
/// (a string is a byte string, an array of numbers a sequence of them, and anything else neither), and a byte string is
/// written as an array of its numbers.
pub mod wasm_bindgen {
    use vstd::prelude::*;
    use super::serde::{Serialize, Deserialize, Given};
    #[verifier::external_body]
    pub struct JsValue { x: u8 }
    #[verifier::external_body]
    pub struct Error { x: u8 }
    pub uninterp spec fn js_number(n: i32) -> JsValue;
    impl JsValue {
        pub uninterp spec fn given(self) -> Given;
        #[verifier::external_body]
        pub fn from(n: i32) -> (r: JsValue) ensures r == js_number(n) { unimplemented!() }
        #[verifier::external_body]
        pub fn into_serde<'a, T>(&self) -> (r: Result<T, Error>) where T: Deserialize<'a>
            ensures
                self.given() matches Given::Bytes(b) ==> (r is Ok <==> T::decodes(b)) && (r matches Ok(x) ==> T::decoded(b, x)),
                self.given() matches Given::Nums(b) ==> (r is Ok <==> T::decodes(b)) && (r matches Ok(x) ==> T::decoded(b, x)),
                self.given() is Other ==> r is Err { unimplemented!() }
        #[verifier::external_body]
        pub fn from_serde<T>(t: &T) -> (r: Result<JsValue, Error>) where T: Serialize
            ensures r matches Ok(v) && v.given() == Given::Nums(t.encoding()) { unimplemented!() }
    }
    pub mod prelude { pub use super::JsValue; }
}
pub mod curve25519_dalek {
    pub mod traits {
        use vstd::prelude::*;
        pub trait Identity: Sized {
            spec fn ident_spec() -> Self;
            fn identity() -> (r: Self) ensures r == Self::ident_spec();
        }
        pub trait IsIdentity: Sized {
            spec fn is_ident_spec(&self) -> bool;
            fn is_identity(&self) -> (r: bool) ensures r == self.is_ident_spec();
        }
        pub struct MultiscalarMul;
        pub struct VartimeMultiscalarMul;
    }
    pub mod constants {
        use vstd::prelude::*;
        use crate::spec::*;
        use super::ristretto::*;
        #[verifier::external_body]
        pub exec const RISTRETTO_BASEPOINT_POINT: RistrettoPoint ensures RISTRETTO_BASEPOINT_POINT == basepoint() { RistrettoPoint { x: 0 } }
        #[verifier::external_body]
        pub exec const RISTRETTO_BASEPOINT_COMPRESSED: CompressedRistretto ensures RISTRETTO_BASEPOINT_COMPRESSED.0@ == enc_p(basepoint()) { CompressedRistretto([0u8; 32]) }
        #[verifier::external_body]
        pub exec const RISTRETTO_BASEPOINT_TABLE: RistrettoBasepointTable ensures tbl(RISTRETTO_BASEPOINT_TABLE) == basepoint() { RistrettoBasepointTable { x: 0 } }
    }
    pub mod scalar {
        use vstd::prelude::*;
        use crate::spec::*;
        use crate::ext::rand_core::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct Scalar { x: [u8; 32] }
        impl Scalar {
            #[verifier::external_body]
            pub fn random<R: RngCore + CryptoRng>(r: &mut R) -> (s: Scalar)
                ensures s == draw_s(old(r).rng().src, old(r).rng().pos),
                        final(r).rng() == (Rng { src: old(r).rng().src, pos: old(r).rng().pos + 1 }) { unimplemented!() }
            #[verifier::external_body]
            pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == enc_s(*self) { unimplemented!() }
            #[verifier::external_body]
            pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == enc_s(*self) { unimplemented!() }
            #[verifier::external_body]
            pub fn from_canonical_bytes(b: [u8; 32]) -> (r: Option<Scalar>)
                ensures r matches Some(x) ==> ok_s(b@) && x == dec_s(b@), r is None ==> !ok_s(b@) { unimplemented!() }
            #[verifier::external_body]
            pub fn from_bytes_mod_order(b: [u8; 32]) -> (r: Scalar) ensures r == red(b@) { unimplemented!() }
            #[verifier::external_body]
            pub fn from_bytes_mod_order_wide(b: &[u8; 64]) -> (r: Scalar) ensures r == wide(b@) { unimplemented!() }
            #[verifier::external_body]
            pub fn from_bits(b: [u8; 32]) -> (r: Scalar) ensures ok_s(b@) ==> r == dec_s(b@) { unimplemented!() }
            #[verifier::external_body]
            pub fn hash_from_bytes<D>(b: &[u8]) -> (r: Scalar) ensures r == hash_s(b@) { unimplemented!() }
            #[verifier::external_body]
            pub fn zero() -> (r: Scalar) ensures r == s0() { unimplemented!() }
            #[verifier::external_body]
            pub fn one() -> (r: Scalar) ensures r == s1() { unimplemented!() }
            #[verifier::external_body]
            pub fn invert(&self) -> (r: Scalar) ensures *self != s0() ==> smul(*self, r) == s1() { unimplemented!() }
            #[verifier::external_body]
            pub fn reduce(&self) -> (r: Scalar) ensures r == *self { unimplemented!() }
        }
        impl core::ops::Index<usize> for Scalar {
            type Output = u8;
            #[verifier::external_body]
            fn index(&self, i: usize) -> (r: &u8) ensures *r == enc_s(*self)[i as int] { unimplemented!() }
        }
        impl vstd::std_specs::core::IndexSpecImpl<usize> for Scalar {
            open spec fn index_req(&self, i: &usize) -> bool { *i < 32 }
        }
    }
    pub mod ristretto {
        use vstd::prelude::*;
        use crate::spec::*;
        use super::scalar::Scalar;
        use super::traits::*;
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct RistrettoPoint { pub x: u8 }
        #[verifier::external_body]
        #[derive(Clone, Copy)]
        pub struct RistrettoBasepointTable { pub x: u8 }
        pub uninterp spec fn tbl(t: RistrettoBasepointTable) -> RistrettoPoint;
        #[derive(Clone, Copy)]
        pub struct CompressedRistretto(pub [u8; 32]);
        impl RistrettoPoint {
            #[verifier::external_body]
            pub fn compress(&self) -> (r: CompressedRistretto) ensures r.0@ == enc_p(*self) { unimplemented!() }
        }
        impl Identity for RistrettoPoint {
            open spec fn ident_spec() -> RistrettoPoint { ident() }
            #[verifier::external_body]
            fn identity() -> (r: RistrettoPoint) { unimplemented!() }
        }
        impl IsIdentity for RistrettoPoint {
            open spec fn is_ident_spec(&self) -> bool { *self == ident() }
            #[verifier::external_body]
            fn is_identity(&self) -> (r: bool) { unimplemented!() }
        }
        pub uninterp spec fn compressed_ident() -> CompressedRistretto;
        impl Identity for CompressedRistretto {
            uninterp spec fn ident_spec() -> CompressedRistretto;
            #[verifier::external_body]
            fn identity() -> (r: CompressedRistretto) ensures r.0@ == enc_p(ident()) { unimplemented!() }
        }
        impl CompressedRistretto {
            #[verifier::external_body]
            pub fn to_bytes(&self) -> (r: [u8; 32]) ensures r@ == self.0@ { unimplemented!() }
            #[verifier::external_body]
            pub fn as_bytes(&self) -> (r: &[u8; 32]) ensures r@ == self.0@ { unimplemented!() }
            #[verifier::external_body]
            pub fn from_slice(b: &[u8]) -> (r: CompressedRistretto) requires b@.len() == 32 ensures r.0@ == b@ { unimplemented!() }
            #[verifier::external_body]
            pub fn decompress(&self) -> (r: Option<RistrettoPoint>)
                ensures r matches Some(x) ==> ok_p(self.0@) && x == dec_p(self.0@), r is None ==> !ok_p(self.0@) { unimplemented!() }
        }
        //@OPS
    }
}
} // mod ext
