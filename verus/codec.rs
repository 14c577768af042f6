pub mod codec {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::thrift::protocol::TType;
use crate::theory::*;
broadcast use {crate::theory::def_w_raw, crate::theory::def_w_hdr, crate::theory::def_w_struct_begin, crate::theory::def_w_struct_end};

// ------------------------------------------------------------------ reading and writing of typed values
/// what decoding gives, what encoding emits, and which values the wire format can carry
pub trait Codec: DV {
    spec fn dec(st: St) -> PR<Self::V>;
    spec fn enc(v: Self::V) -> Seq<u8>;
    spec fn wfits(v: Self::V) -> bool;
}
pub open spec fn decf<P: Codec>() -> spec_fn(St) -> PR<P::V> { |s: St| P::dec(s) }
impl Codec for bool {
    open spec fn dec(st: St) -> PR<bool> { p_bool(st) }
    open spec fn enc(v: bool) -> Seq<u8> { seq![if v { 1u8 } else { 2u8 }] }
    open spec fn wfits(v: bool) -> bool { true }
}
impl Codec for u8 {
    open spec fn dec(st: St) -> PR<u8> { p_byte(st) }
    open spec fn enc(v: u8) -> Seq<u8> { seq![v] }
    open spec fn wfits(v: u8) -> bool { true }
}
impl Codec for i8 {
    open spec fn dec(st: St) -> PR<i8> { p_i8(st) }
    open spec fn enc(v: i8) -> Seq<u8> { seq![v as u8] }
    open spec fn wfits(v: i8) -> bool { true }
}
impl Codec for i16 {
    open spec fn dec(st: St) -> PR<i16> { p_vi::<i16>(st) }
    open spec fn enc(v: i16) -> Seq<u8> { ienc(v as int) }
    open spec fn wfits(v: i16) -> bool { true }
}
impl Codec for i32 {
    open spec fn dec(st: St) -> PR<i32> { p_vi::<i32>(st) }
    open spec fn enc(v: i32) -> Seq<u8> { ienc(v as int) }
    open spec fn wfits(v: i32) -> bool { true }
}
impl Codec for i64 {
    open spec fn dec(st: St) -> PR<i64> { p_vi::<i64>(st) }
    open spec fn enc(v: i64) -> Seq<u8> { ienc(v as int) }
    open spec fn wfits(v: i64) -> bool { true }
}
impl Codec for String {
    open spec fn dec(st: St) -> PR<Seq<char>> { p_string(st) }
    open spec fn enc(v: Seq<char>) -> Seq<u8> { bytes_enc(encode_utf8(v)) }
    open spec fn wfits(v: Seq<char>) -> bool { fits(encode_utf8(v).len()) }
}
/// Vec<u8> is the wire form `binary`; lists of other types are read by read_list (p_list) and never reach this impl
impl Codec for Vec<u8> {
    open spec fn dec(st: St) -> PR<Seq<u8>> { p_vecu8(st) }
    open spec fn enc(v: Seq<u8>) -> Seq<u8> { bytes_enc(v) }
    open spec fn wfits(v: Seq<u8>) -> bool { fits(v.len()) }
}

// ------------------------------------------------------------------ structs: reading
/// the fields of a struct up to its stop byte; `step` gives what one field does
pub open spec fn p_fields<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>) -> PR<A> decreases st.inp.len() {
    match p_field_begin(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(f, s) => if f.ty == TType::Stop { PR::Ok(a, s) } else {
            match step(f, s, a) {
                PR::Err(e) => PR::Err(e),
                PR::Ok(a2, s2) => if s2.inp.len() < st.inp.len() { p_fields(s2, a2, step) } else { PR::Err(EK::Fuel) },
            }
        },
    }
}
// ------------------------------------------------------------------ structs: writing
/// one field as it goes on the wire
pub enum WF { F(TType, i16, Seq<u8>), B(i16, bool) }
pub open spec fn w_of(o: OSt, f: Option<WF>) -> OSt {
    match f {
        None => o,
        Some(WF::F(ty, id, b)) => w_raw(w_hdr(o, tcode(ty), id), b),
        Some(WF::B(id, b)) => w_hdr(o, if b { 1 } else { 2 }, id),
    }
}
#[verifier::opaque]
pub open spec fn w_ofk(o: OSt, fs: Seq<Option<WF>>, k: nat) -> OSt decreases k {
    if k == 0 { o } else { w_of(w_ofk(o, fs, (k - 1) as nat), fs[k - 1]) }
}
pub open spec fn of_bytes(last: i16, f: Option<WF>) -> Seq<u8> {
    match f {
        None => Seq::empty(),
        Some(WF::F(ty, id, b)) => hdr(last, tcode(ty), id) + b,
        Some(WF::B(id, b)) => hdr(last, if b { 1 } else { 2 }, id),
    }
}
pub open spec fn of_last(last: i16, f: Option<WF>) -> i16 {
    match f { None => last, Some(WF::F(ty, id, b)) => id, Some(WF::B(id, b)) => id }
}
/// the bytes of the first k fields, and the id the next delta counts from
pub open spec fn lastk(fs: Seq<Option<WF>>, k: nat) -> i16 decreases k {
    if k == 0 { 0 } else { of_last(lastk(fs, (k - 1) as nat), fs[k - 1]) }
}
pub open spec fn enc_pre(fs: Seq<Option<WF>>, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { enc_pre(fs, (k - 1) as nat) + of_bytes(lastk(fs, (k - 1) as nat), fs[k - 1]) }
}
#[verifier::opaque]
pub open spec fn enc_struct(fs: Seq<Option<WF>>) -> Seq<u8> { enc_pre(fs, fs.len()) + seq![0u8] }
/// elements 0..k of a list
#[verifier::opaque]
pub open spec fn cat<P: Codec>(xs: Seq<P::V>, k: nat) -> Seq<u8> decreases k {
    if k == 0 { Seq::empty() } else { cat::<P>(xs, (k - 1) as nat) + P::enc(xs[k - 1]) }
}
pub open spec fn list_enc<P: Codec>(ty: TType, xs: Seq<P::V>) -> Seq<u8> { list_hdr(ty, xs.len()) + cat::<P>(xs, xs.len()) }
pub open spec fn list_fits<P: Codec>(xs: Seq<P::V>) -> bool { fits(xs.len()) && forall|i: int| 0 <= i < xs.len() ==> P::wfits(#[trigger] xs[i]) }

pub broadcast proof fn lemma_w_raw2(o: OSt, a: Seq<u8>, b: Seq<u8>)
    ensures #[trigger] w_raw(w_raw(o, a), b) == w_raw(o, a + b),
{ assert(o.out + a + b =~= o.out + (a + b)); }
pub broadcast proof fn w_list_pfx<P: Codec>(h: OSt, ty: TType, xs: Seq<P::V>)
    ensures pfx(w_raw(h, list_hdr(ty, xs.len())).out, (#[trigger] w_raw(h, list_enc::<P>(ty, xs))).out),
{ lemma_w_raw2(h, list_hdr(ty, xs.len()), cat::<P>(xs, xs.len())); broadcast use w_raw_pfx; }
/// o is ob with the first k elements of xs written
#[verifier::opaque]
pub open spec fn lst<P: Codec>(o: OSt, ob: OSt, xs: Seq<P::V>, k: int) -> bool { o == w_raw(ob, cat::<P>(xs, k as nat)) }
pub proof fn lemma_lst0<P: Codec>(ob: OSt, xs: Seq<P::V>)
    ensures lst::<P>(ob, ob, xs, 0),
        forall|h: OSt, ty: TType| ob == #[trigger] w_raw(h, list_hdr(ty, xs.len())) ==> w_raw(ob, cat::<P>(xs, xs.len())) == w_raw(h, list_enc::<P>(ty, xs)),
{
    reveal(lst); reveal(cat); assert(w_raw(ob, Seq::empty()) =~= ob);
    assert forall|h: OSt, ty: TType| ob == #[trigger] w_raw(h, list_hdr(ty, xs.len())) implies w_raw(ob, cat::<P>(xs, xs.len())) == w_raw(h, list_enc::<P>(ty, xs)) by {
        lemma_w_raw2(h, list_hdr(ty, xs.len()), cat::<P>(xs, xs.len()));
    }
}
proof fn lemma_cat_pfx<P: Codec>(ob: OSt, xs: Seq<P::V>, k: nat, n: nat)
    requires k <= n <= xs.len(),
    ensures pfx(w_raw(ob, cat::<P>(xs, k)).out, w_raw(ob, cat::<P>(xs, n)).out),
    decreases n - k,
{
    reveal(pfx);
    if k < n { lemma_cat_pfx::<P>(ob, xs, k, (n - 1) as nat); reveal_with_fuel(cat, 2); }
}
pub proof fn lemma_lst_step<P: Codec>(o: OSt, ob: OSt, xs: Seq<P::V>, k: int)
    requires lst::<P>(o, ob, xs, k), 0 <= k < xs.len(),
    ensures lst::<P>(w_raw(o, P::enc(xs[k])), ob, xs, k + 1), o.pend == ob.pend,
        pfx(ob.out, o.out), pfx(w_raw(o, P::enc(xs[k])).out, w_raw(ob, cat::<P>(xs, xs.len())).out),
{
    reveal(lst); reveal_with_fuel(cat, 2); lemma_w_raw2(ob, cat::<P>(xs, k as nat), P::enc(xs[k]));
    lemma_cat_pfx::<P>(ob, xs, (k + 1) as nat, xs.len()); broadcast use w_raw_pfx;
}
pub proof fn lemma_lst_end<P: Codec>(o: OSt, ob: OSt, ty: TType, xs: Seq<P::V>)
    requires lst::<P>(o, ob, xs, xs.len() as int),
    ensures o.pend == ob.pend,
        forall|h: OSt| ob == #[trigger] w_raw(h, list_hdr(ty, xs.len())) ==> o == w_raw(h, list_enc::<P>(ty, xs)),
{
    reveal(lst);
    assert forall|h: OSt| ob == #[trigger] w_raw(h, list_hdr(ty, xs.len())) implies o == w_raw(h, list_enc::<P>(ty, xs)) by {
        lemma_w_raw2(h, list_hdr(ty, xs.len()), cat::<P>(xs, xs.len()));
    }
}
pub proof fn lemma_w_raw2_all()
    ensures forall|o: OSt, a: Seq<u8>, b: Seq<u8>| #[trigger] w_raw(w_raw(o, a), b) == w_raw(o, a + b),
{ assert forall|o: OSt, a: Seq<u8>, b: Seq<u8>| #[trigger] w_raw(w_raw(o, a), b) == w_raw(o, a + b) by { lemma_w_raw2(o, a, b); } }
pub proof fn lemma_w_ofk(o: OSt, fs: Seq<Option<WF>>, k: nat)
    requires o.last == 0,
    ensures w_ofk(o, fs, k) == (OSt { out: o.out + enc_pre(fs, k), last: lastk(fs, k), ..o }),
    decreases k,
{
    reveal_with_fuel(w_ofk, 2);
    if k == 0 { assert(o.out + Seq::<u8>::empty() =~= o.out); } else {
        lemma_w_ofk(o, fs, (k - 1) as nat);
        let p = enc_pre(fs, (k - 1) as nat);
        let l = lastk(fs, (k - 1) as nat);
        match fs[k - 1] {
            None => { assert(o.out + p =~= o.out + (p + Seq::<u8>::empty())); },
            Some(WF::F(ty, id, b)) => { assert(o.out + p + hdr(l, tcode(ty), id) + b =~= o.out + (p + (hdr(l, tcode(ty), id) + b))); },
            Some(WF::B(id, b)) => { let c: u8 = if b { 1 } else { 2 }; assert(o.out + p + hdr(l, c, id) =~= o.out + (p + hdr(l, c, id))); },
        }
    }
}
/// one more field
pub proof fn lemma_w_step(o: OSt, fs: Seq<Option<WF>>, k: nat)
    requires k < fs.len(),
    ensures w_ofk(w_struct_begin(o), fs, k + 1) == w_of(w_ofk(w_struct_begin(o), fs, k), fs[k as int]),
        w_ofk(w_struct_begin(o), fs, k).pend == o.pend,
        pfx(o.out, w_ofk(w_struct_begin(o), fs, k).out), pfx(w_ofk(w_struct_begin(o), fs, k + 1).out, w_raw(o, enc_struct(fs)).out),
{
    reveal_with_fuel(w_ofk, 2); lemma_w_ofk(w_struct_begin(o), fs, k);
    reveal(enc_struct); reveal(pfx);
    lemma_ofk_pfx(w_struct_begin(o), fs, 0, k); lemma_ofk_pfx(w_struct_begin(o), fs, k + 1, fs.len());
    lemma_w_ofk(w_struct_begin(o), fs, fs.len());
}
proof fn lemma_ofk_pfx(o: OSt, fs: Seq<Option<WF>>, k: nat, n: nat)
    requires k <= n <= fs.len(),
    ensures pfx(w_ofk(o, fs, k).out, w_ofk(o, fs, n).out),
    decreases n - k,
{
    broadcast use pfxs;
    if k < n {
        lemma_ofk_pfx(o, fs, k, (n - 1) as nat); reveal_with_fuel(w_ofk, 2);
        let p = w_ofk(o, fs, (n - 1) as nat);
        match fs[n - 1] { None => {}, Some(WF::F(ty, id, b)) => { assert(pfx(p.out, w_hdr(p, tcode(ty), id).out)); }, Some(WF::B(id, b)) => {} }
    }
}
pub proof fn lemma_w_first(o: OSt, fs: Seq<Option<WF>>)
    ensures w_ofk(w_struct_begin(o), fs, 0) == w_struct_begin(o),
{ reveal(w_ofk); }
/// a struct written field by field leaves nothing but its bytes
pub proof fn lemma_w_struct(o: OSt, fs: Seq<Option<WF>>)
    ensures w_ofk(w_struct_begin(o), fs, fs.len()).pend == o.pend, w_ofk(w_struct_begin(o), fs, fs.len()).stack.len() > 0,
        w_struct_end(w_byte(w_ofk(w_struct_begin(o), fs, fs.len()), 0)) == w_raw(o, enc_struct(fs)),
        pfx(o.out, w_ofk(w_struct_begin(o), fs, fs.len()).out), w_byte(w_ofk(w_struct_begin(o), fs, fs.len()), 0).out == w_raw(o, enc_struct(fs)).out,
{
    reveal(enc_struct);
    lemma_ofk_pfx(w_struct_begin(o), fs, 0, fs.len()); reveal_with_fuel(w_ofk, 1);
    lemma_w_ofk(w_struct_begin(o), fs, fs.len());
    assert(o.out + enc_pre(fs, fs.len()) + seq![0u8] =~= o.out + enc_struct(fs));
    assert(o.stack.push(o.last).drop_last() =~= o.stack);
}
} // codec
