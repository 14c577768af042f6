// The listed properties as lemmas over the specifications the code is proved to meet (theory.rs, codec.rs and, for the
// Parquet types, the generated tspec).  Nothing here looks at the code: the contracts connect the two.
pub mod thm {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::theory::*;
use crate::codec::*;
use crate::lemmas::*;
use crate::plemmas::*;
use crate::thrift::protocol::TType;
use crate::thrift::varint::VarInt;
use crate::shim::io::ErrorKind;
use crate::shim::{f64_le, le_f64, f64_le_len, f64_le_inv};
broadcast use {crate::theory::defs, crate::shim::f64_le_len, crate::shim::f64_le_inv};

// ------------------------------------------------------------------ more input, more budget
/// the same reader with `e` appended to its input and `b` added to its budget
pub open spec fn ext(st: St, e: Seq<u8>, b: nat) -> St { St { inp: st.inp + e, rem: (st.rem + b) as usize, ..st } }
pub open spec fn okb(st: St, b: nat) -> bool { st.rem + b <= usize::MAX }
/// p is what a parser gives at st, q what it gives at ext(st, e, b): the same, but for an end of file before e or a size limit
/// that the larger budget would have passed only by taking more than p had
pub open spec fn mono<V>(p: PR<V>, q: PR<V>, st: St, e: Seq<u8>, b: nat) -> bool {
    match p {
        PR::Ok(v, s) => q == PR::Ok(v, ext(s, e, b)) && s.inp.len() <= st.inp.len() && s.rem <= st.rem,
        PR::Err(x) => q == p || (x == e_eof() && e.len() > 0) || (x == e_size() && b > 0 && (q is Ok ==> q->Ok_1.rem < b)),
    }
}
pub proof fn lemma_adv_ext(st: St, e: Seq<u8>, b: nat, k: int)
    requires 0 <= k <= st.inp.len(),
    ensures adv(ext(st, e, b), k) == ext(adv(st, k), e, b), (st.inp + e).take(k) == st.inp.take(k),
{ assert((st.inp + e).skip(k) =~= st.inp.skip(k) + e); assert((st.inp + e).take(k) =~= st.inp.take(k)); }
pub proof fn m_byte(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_byte(st), p_byte(ext(st, e, b)), st, e, b),
{ if st.inp.len() >= 1 { lemma_adv_ext(st, e, b, 1); } else { if e.len() == 0 { assert(st.inp + e =~= st.inp); } } }
pub proof fn lemma_vscan_ext(s: Seq<u8>, e: Seq<u8>, i: nat, max: nat)
    requires i <= s.len(),
    ensures
        vscan(s, i, max) is Done ==> vscan(s + e, i, max) == vscan(s, i, max) && vscan(s, i, max)->Done_0 <= s.len(),
        vscan(s, i, max) is TooLong ==> vscan(s + e, i, max) is TooLong,
    decreases max - i,
{
    reveal_with_fuel(vscan, 2);
    if i > 0 && s[i - 1] < 128 { assert((s + e)[i - 1] == s[i - 1]); }
    else if i < s.len() && i < max { if i > 0 { assert((s + e)[i - 1] == s[i - 1]); } lemma_vscan_ext(s, e, i + 1, max); }
}
pub proof fn m_vi<VI: VarInt>(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_vi::<VI>(st), p_vi::<VI>(ext(st, e, b)), st, e, b),
{
    lemma_vscan_ext(st.inp, e, 0, vi_max::<VI>());
    match vscan(st.inp, 0, vi_max::<VI>()) {
        VS::Done(k) => { lemma_adv_ext(st, e, b, k as int); },
        VS::Eof => { if e.len() == 0 { assert(st.inp + e =~= st.inp); } },
        VS::TooLong => {},
    }
}
pub proof fn m_charge(st: St, e: Seq<u8>, b: nat, n: nat)
    requires okb(st, b),
    ensures mono(p_charge(st, n), p_charge(ext(st, e, b), n), st, e, b),
{ }
pub proof fn m_i8(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_i8(st), p_i8(ext(st, e, b)), st, e, b),
{ m_byte(st, e, b); }
pub proof fn m_bytes(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_bytes(st), p_bytes(ext(st, e, b)), st, e, b),
{
    m_vi::<u32>(st, e, b);
    if let PR::Ok(n, s) = p_vi::<u32>(st) {
        m_charge(s, e, b, n as nat);
        if let PR::Ok(_, s) = p_charge(s, n as nat) {
            if s.inp.len() >= n { lemma_adv_ext(s, e, b, n as int); } else if e.len() == 0 { assert(s.inp + e =~= s.inp); }
        }
    }
}
pub proof fn m_string(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_string(st), p_string(ext(st, e, b)), st, e, b),
{ m_bytes(st, e, b); }
pub proof fn m_double(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_double(st), p_double(ext(st, e, b)), st, e, b),
{ if st.inp.len() >= 8 { lemma_adv_ext(st, e, b, 8); } else if e.len() == 0 { assert(st.inp + e =~= st.inp); } }
pub proof fn m_bool(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_bool(st), p_bool(ext(st, e, b)), st, e, b),
{ m_byte(st, e, b); }
pub proof fn m_struct_begin(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_struct_begin(st), p_struct_begin(ext(st, e, b)), st, e, b),
{ }
pub proof fn m_struct_end(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_struct_end(st), p_struct_end(ext(st, e, b)), st, e, b),
{ }
pub proof fn m_field_begin(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_field_begin(st), p_field_begin(ext(st, e, b)), st, e, b),
{
    m_byte(st, e, b);
    if let PR::Ok(h, s) = p_byte(st) {
        let lo = (h % 16) as u8;
        let s = if lo == 1 { St { pend: Some(true), ..s } } else if lo == 2 { St { pend: Some(false), ..s } } else { s };
        m_vi::<i16>(s, e, b);
    }
}
/// no piece gives input back
proof fn lemma_lens(st: St)
    ensures
        shrinks(p_byte(st), st), shrinks(p_bool(st), st), shrinks(p_i8(st), st), shrinks(p_vi::<i16>(st), st), shrinks(p_vi::<i32>(st), st), shrinks(p_vi::<i64>(st), st),
        shrinks(p_double(st), st), shrinks(p_bytes(st), st), shrinks(p_struct_begin(st), st), shrinks(p_list_begin(st), st), shrinks(p_map_begin(st), st), shrinks(p_field_begin(st), st),
{
    let e = Seq::<u8>::empty();
    m_byte(st, e, 0); m_bool(st, e, 0); m_i8(st, e, 0); m_vi::<i16>(st, e, 0); m_vi::<i32>(st, e, 0); m_vi::<i64>(st, e, 0); m_double(st, e, 0); m_bytes(st, e, 0);
    m_struct_begin(st, e, 0); m_list_begin(st, e, 0); m_map_begin(st, e, 0); m_field_begin(st, e, 0);
}
/// the field header is at least one byte
pub proof fn lemma_field_begin_len(st: St)
    ensures p_field_begin(st) matches PR::Ok(_, s) ==> s.inp.len() < st.inp.len(),
{
    if let PR::Ok(h, s) = p_byte(st) {
        let lo = (h % 16) as u8;
        let s = if lo == 1 { St { pend: Some(true), ..s } } else if lo == 2 { St { pend: Some(false), ..s } } else { s };
        m_vi::<i16>(s, Seq::empty(), 0);
    }
}
pub proof fn m_list_begin(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_list_begin(st), p_list_begin(ext(st, e, b)), st, e, b),
{
    m_byte(st, e, b);
    if let PR::Ok(h, s) = p_byte(st) { m_vi::<u32>(s, e, b); }
}
pub proof fn m_map_begin(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_map_begin(st), p_map_begin(ext(st, e, b)), st, e, b),
{
    m_vi::<u32>(st, e, b);
    if let PR::Ok(n, s) = p_vi::<u32>(st) { m_byte(s, e, b); }
}
pub proof fn m_msg_begin(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_msg_begin(st), p_msg_begin(ext(st, e, b)), st, e, b),
{
    m_byte(st, e, b);
    if let PR::Ok(h, s) = p_byte(st) {
        m_byte(s, e, b);
        if let PR::Ok(h, s) = p_byte(s) {
            m_vi::<u32>(s, e, b);
            if let PR::Ok(h, s) = p_vi::<u32>(s) { m_string(s, e, b); }
        }
    }
}
// ------------------------------------------------------------------ skipping
pub open spec fn shrinks<V>(p: PR<V>, st: St) -> bool { p is Ok ==> p->Ok_1.rem <= st.rem && p->Ok_1.inp.len() <= st.inp.len() }
/// the nesting state is as before
pub open spec fn framed<V>(p: PR<V>, st: St) -> bool { p is Ok ==> p->Ok_1.stack == st.stack && p->Ok_1.last == st.last }
pub open spec fn unpend<V>(p: PR<V>, st: St) -> bool { p is Ok && st.pend is None ==> p->Ok_1.pend is None }
/// C14: whatever the input, a value skipped leaves the nesting state as before
pub proof fn k_skip(st: St, ty: TType, d: nat)
    ensures shrinks(p_skip(st, ty, d), st), framed(p_skip(st, ty, d), st), unpend(p_skip(st, ty, d), if ty == TType::Bool { St { pend: None, ..st } } else { st }),
    decreases d, 0nat, 0nat,
{
    if d == 0 { lemma_skip0(st, ty); } else {
        lemma_skip(st, ty, d);
        lemma_lens(st);
        match ty {
            TType::Struct => { if let PR::Ok(_, s) = p_struct_begin(st) { k_skip_fields(s, (d - 1) as nat); assert(st.stack.push(st.last).drop_last() =~= st.stack); } },
            TType::List | TType::Set => { if let PR::Ok(l, s) = p_list_begin(st) { k_skip_n(s, l.size as nat, l.ty, (d - 1) as nat); } },
            TType::Map => { if let PR::Ok(m, s) = p_map_begin(st) { k_skip_kv(s, m.size as nat, m.k->0, m.v->0, (d - 1) as nat); } },
            _ => {},
        }
    }
}
proof fn k_skip_fields(st: St, d: nat)
    ensures shrinks(p_skip_fields(st, d), st), p_skip_fields(st, d) is Ok ==> p_skip_fields(st, d)->Ok_1.stack == st.stack.drop_last() && p_skip_fields(st, d)->Ok_1.last == st.stack.last(),
        unpend(p_skip_fields(st, d), st),
    decreases d, 1nat, st.inp.len(),
{
    lemma_skip_fields(st, d);
    lemma_lens(st);
    lemma_field_begin_len(st);
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty != TType::Stop { k_skip(s, f.ty, d); if let PR::Ok(_, s2) = p_skip(s, f.ty, d) { if s2.inp.len() < st.inp.len() { k_skip_fields(s2, d); } } }
    }
}
proof fn k_skip_n(st: St, n: nat, ty: TType, d: nat)
    ensures shrinks(p_skip_n(st, n, ty, d), st), framed(p_skip_n(st, n, ty, d), st), unpend(p_skip_n(st, n, ty, d), st),
    decreases d, 1nat, n,
{ lemma_skip_n(st, n, ty, d); if n > 0 { k_skip(st, ty, d); if let PR::Ok(_, s) = p_skip(st, ty, d) { k_skip_n(s, (n - 1) as nat, ty, d); } } }
proof fn k_skip_kv(st: St, n: nat, k: TType, v: TType, d: nat)
    ensures shrinks(p_skip_kv(st, n, k, v, d), st), framed(p_skip_kv(st, n, k, v, d), st), unpend(p_skip_kv(st, n, k, v, d), st),
    decreases d, 1nat, n,
{
    lemma_skip_kv(st, n, k, v, d);
    if n > 0 { k_skip(st, k, d); if let PR::Ok(_, s) = p_skip(st, k, d) { k_skip(s, v, d); if let PR::Ok(_, s) = p_skip(s, v, d) { k_skip_kv(s, (n - 1) as nat, k, v, d); } } }
}
pub proof fn m_skip(st: St, e: Seq<u8>, b: nat, ty: TType, d: nat)
    requires okb(st, b),
    ensures mono(p_skip(st, ty, d), p_skip(ext(st, e, b), ty, d), st, e, b),
    decreases d, 0nat, 0nat,
{
    let q = ext(st, e, b);
    if d == 0 { lemma_skip0(st, ty); lemma_skip0(q, ty); } else {
        lemma_skip(st, ty, d); lemma_skip(q, ty, d);
        match ty {
            TType::Bool => { m_bool(st, e, b); },
            TType::I08 => { m_i8(st, e, b); },
            TType::I16 => { m_vi::<i16>(st, e, b); },
            TType::I32 => { m_vi::<i32>(st, e, b); },
            TType::I64 => { m_vi::<i64>(st, e, b); },
            TType::Double => { m_double(st, e, b); },
            TType::String => { m_bytes(st, e, b); },
            TType::Struct => {
                m_struct_begin(st, e, b);
                if let PR::Ok(_, s) = p_struct_begin(st) { m_skip_fields(s, e, b, (d - 1) as nat); } else if let PR::Ok(_, s) = p_struct_begin(q) { k_skip_fields(s, (d - 1) as nat); }
            },
            TType::List | TType::Set => {
                m_list_begin(st, e, b);
                if let PR::Ok(l, s) = p_list_begin(st) { m_skip_n(s, e, b, l.size as nat, l.ty, (d - 1) as nat); } else if let PR::Ok(l, s) = p_list_begin(q) { k_skip_n(s, l.size as nat, l.ty, (d - 1) as nat); }
            },
            TType::Map => {
                m_map_begin(st, e, b);
                if let PR::Ok(m, s) = p_map_begin(st) { m_skip_kv(s, e, b, m.size as nat, m.k->0, m.v->0, (d - 1) as nat); } else if let PR::Ok(m, s) = p_map_begin(q) { k_skip_kv(s, m.size as nat, m.k->0, m.v->0, (d - 1) as nat); }
            },
            _ => {},
        }
    }
}
pub proof fn m_skip_fields(st: St, e: Seq<u8>, b: nat, d: nat)
    requires okb(st, b),
    ensures mono(p_skip_fields(st, d), p_skip_fields(ext(st, e, b), d), st, e, b),
    decreases d, 1nat, st.inp.len(),
{
    lemma_skip_fields(st, d); lemma_skip_fields(ext(st, e, b), d);
    m_field_begin(st, e, b);
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty == TType::Stop { m_struct_end(s, e, b); } else {
            m_skip(s, e, b, f.ty, d);
            if let PR::Ok(_, s2) = p_skip(s, f.ty, d) { if s2.inp.len() < st.inp.len() { m_skip_fields(s2, e, b, d); } }
            else if let PR::Ok(_, s2) = p_skip(ext(s, e, b), f.ty, d) { k_skip_fields(s2, d); }
        }
    }
}
pub proof fn m_skip_n(st: St, e: Seq<u8>, b: nat, n: nat, ty: TType, d: nat)
    requires okb(st, b),
    ensures mono(p_skip_n(st, n, ty, d), p_skip_n(ext(st, e, b), n, ty, d), st, e, b),
    decreases d, 1nat, n,
{
    lemma_skip_n(st, n, ty, d); lemma_skip_n(ext(st, e, b), n, ty, d);
    if n > 0 {
        m_skip(st, e, b, ty, d);
        if let PR::Ok(_, s) = p_skip(st, ty, d) { m_skip_n(s, e, b, (n - 1) as nat, ty, d); } else if let PR::Ok(_, s) = p_skip(ext(st, e, b), ty, d) { k_skip_n(s, (n - 1) as nat, ty, d); }
    }
}
pub proof fn m_skip_kv(st: St, e: Seq<u8>, b: nat, n: nat, k: TType, v: TType, d: nat)
    requires okb(st, b),
    ensures mono(p_skip_kv(st, n, k, v, d), p_skip_kv(ext(st, e, b), n, k, v, d), st, e, b),
    decreases d, 1nat, n,
{
    lemma_skip_kv(st, n, k, v, d); lemma_skip_kv(ext(st, e, b), n, k, v, d);
    if n > 0 {
        m_skip(st, e, b, k, d);
        if let PR::Ok(_, s) = p_skip(st, k, d) {
            m_skip(s, e, b, v, d);
            if let PR::Ok(_, s2) = p_skip(s, v, d) { m_skip_kv(s2, e, b, (n - 1) as nat, k, v, d); }
            else if let PR::Ok(_, s2) = p_skip(ext(s, e, b), v, d) { k_skip_kv(s2, (n - 1) as nat, k, v, d); }
        } else if let PR::Ok(_, s) = p_skip(ext(st, e, b), k, d) {
            k_skip(s, v, d);
            if let PR::Ok(_, s2) = p_skip(s, v, d) { k_skip_kv(s2, (n - 1) as nat, k, v, d); }
        }
    }
}

// ------------------------------------------------------------------ round trips of the pieces
/// the input starts with b
#[verifier::opaque]
pub open spec fn pre(b: Seq<u8>, s: Seq<u8>) -> bool { b.len() <= s.len() && s.take(b.len() as int) =~= b }
/// st after n bytes of input and c of budget
pub open spec fn after(st: St, n: nat, c: nat) -> St { St { inp: st.inp.skip(n as int), rem: (st.rem - c) as usize, ..st } }
pub proof fn lemma_pre_cat(a: Seq<u8>, b: Seq<u8>, s: Seq<u8>)
    requires pre(a + b, s),
    ensures pre(a, s), pre(b, s.skip(a.len() as int)), s.skip(a.len() as int).skip(b.len() as int) == s.skip((a + b).len() as int),
        a.len() + b.len() <= s.len(),
{
    reveal(pre);
    assert forall|i: int| 0 <= i < (a + b).len() implies s[i] == (a + b)[i] by { assert(s.take((a + b).len() as int)[i] == (a + b)[i]); }
    assert(s.take(a.len() as int) =~= a);
    assert(s.skip(a.len() as int).take(b.len() as int) =~= b) by {
        assert forall|i: int| 0 <= i < b.len() implies s.skip(a.len() as int).take(b.len() as int)[i] == b[i] by { assert(s[a.len() + i] == (a + b)[a.len() + i]); }
    }
    assert(s.skip(a.len() as int).skip(b.len() as int) =~= s.skip((a + b).len() as int));
}
pub proof fn lemma_pre_at(a: Seq<u8>, s: Seq<u8>)
    requires pre(a, s),
    ensures a.len() <= s.len(), forall|i: int| 0 <= i < a.len() ==> s[i] == #[trigger] a[i], s.take(a.len() as int) == a,
{ reveal(pre); assert forall|i: int| 0 <= i < a.len() implies s[i] == #[trigger] a[i] by { assert(s.take(a.len() as int)[i] == a[i]); } }
pub proof fn lemma_pre_app(a: Seq<u8>, t: Seq<u8>)
    ensures pre(a, a + t), (a + t).skip(a.len() as int) == t,
{ reveal(pre); assert((a + t).take(a.len() as int) =~= a); assert((a + t).skip(a.len() as int) =~= t); }
pub proof fn r_byte(st: St, b: u8)
    requires pre(seq![b], st.inp),
    ensures p_byte(st) == PR::Ok(b, adv(st, 1)),
{ lemma_pre_at(seq![b], st.inp); assert(seq![b][0] == b); }
/// a varint in front of any bytes
pub proof fn lemma_uenc_pre(n: nat, s: Seq<u8>, max: nat)
    requires pre(uenc(n), s), uenc(n).len() <= max, max <= 10, n < 0x1_0000_0000_0000_0000,
    ensures vscan(s, 0, max) == VS::Done(uenc(n).len()), udec(s.take(uenc(n).len() as int)) == Some((n as u64, uenc(n).len())), uenc(n).len() > 0,
{
    let k = uenc(n).len();
    lemma_uenc_shape(n);
    lemma_pre_at(uenc(n), s);
    assert(s[k - 1] == uenc(n)[k - 1]);
    assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] s[j]) >= 128 by { assert(uenc(n)[j] >= 128); assert(s[j] == uenc(n)[j]); }
    lemma_vscan_at(s, 0, k, max);
    lemma_vend_at(uenc(n), 0, k);
    assert(uenc(n).take(k as int) =~= uenc(n));
}
pub proof fn r_u32(st: St, n: u32)
    requires pre(uenc(n as nat), st.inp),
    ensures p_vi::<u32>(st) == PR::Ok(n, adv(st, uenc(n as nat).len() as int)), uenc(n as nat).len() > 0,
{ broadcast use vstd::layout::group_layout_axioms; lemma_uenc_len(n as nat); lemma_uenc_pre(n as nat, st.inp, 5); assert(vi_max::<u32>() == 5); assert(u32::vi_dec(st.inp.take(uenc(n as nat).len() as int)) == Some((n, uenc(n as nat).len()))); }
pub proof fn r_i16(st: St, v: i16)
    requires pre(ienc(v as int), st.inp),
    ensures p_vi::<i16>(st) == PR::Ok(v, adv(st, ienc(v as int).len() as int)), ienc(v as int).len() > 0,
{ broadcast use vstd::layout::group_layout_axioms; let n = zz(v as int); lemma_zz_bound(v as int); lemma_uenc_len(n); lemma_uenc_pre(n, st.inp, 3); assert(vi_max::<i16>() == 3); assert(i16::vi_dec(st.inp.take(uenc(n).len() as int)) == Some((v, uenc(n).len()))); }
pub proof fn r_i32(st: St, v: i32)
    requires pre(ienc(v as int), st.inp),
    ensures p_vi::<i32>(st) == PR::Ok(v, adv(st, ienc(v as int).len() as int)), ienc(v as int).len() > 0,
{ broadcast use vstd::layout::group_layout_axioms; let n = zz(v as int); lemma_zz_bound(v as int); lemma_uenc_len(n); lemma_uenc_pre(n, st.inp, 5); assert(vi_max::<i32>() == 5); assert(i32::vi_dec(st.inp.take(uenc(n).len() as int)) == Some((v, uenc(n).len()))); }
pub proof fn r_i64(st: St, v: i64)
    requires pre(ienc(v as int), st.inp),
    ensures p_vi::<i64>(st) == PR::Ok(v, adv(st, ienc(v as int).len() as int)), ienc(v as int).len() > 0,
{ broadcast use vstd::layout::group_layout_axioms; let n = zz(v as int); lemma_zz_bound(v as int); lemma_uenc_len(n); lemma_uenc_pre(n, st.inp, 10); assert(vi_max::<i64>() == 10); assert(i64::vi_dec(st.inp.take(uenc(n).len() as int)) == Some((v, uenc(n).len()))); }
pub proof fn r_i8(st: St, v: i8)
    requires pre(seq![v as u8], st.inp),
    ensures p_i8(st) == PR::Ok(v, adv(st, 1)),
{ r_byte(st, v as u8); assert((v as u8) as i8 == v) by (bit_vector); }
pub proof fn r_double(st: St, f: f64)
    requires pre(f64_le(f), st.inp),
    ensures p_double(st) == PR::Ok(f, adv(st, 8)),
{ lemma_pre_at(f64_le(f), st.inp); }
pub proof fn r_bytes(st: St, b: Seq<u8>)
    requires pre(bytes_enc(b), st.inp), fits(b.len()), b.len() <= st.rem,
    ensures p_bytes(st) == PR::Ok(b, after(st, bytes_enc(b).len(), b.len())), bytes_enc(b).len() > 0,
{
    let h = uenc(b.len());
    lemma_pre_cat(h, b, st.inp);
    r_u32(st, b.len() as u32);
    lemma_pre_at(b, st.inp.skip(h.len() as int));
}
pub proof fn r_string(st: St, v: Seq<char>)
    requires pre(bytes_enc(encode_utf8(v)), st.inp), fits(encode_utf8(v).len()), encode_utf8(v).len() <= st.rem,
    ensures p_string(st) == PR::Ok(v, after(st, bytes_enc(encode_utf8(v)).len(), encode_utf8(v).len())), bytes_enc(encode_utf8(v)).len() > 0,
{ broadcast use vstd::utf8::group_utf8_lib; r_bytes(st, encode_utf8(v)); }
/// a boolean outside a field
pub proof fn r_bool(st: St, v: bool)
    requires pre(seq![if v { 1u8 } else { 2u8 }], st.inp), st.pend is None,
    ensures p_bool(st) == PR::Ok(v, adv(st, 1)),
{ r_byte(st, if v { 1u8 } else { 2u8 }); }
/// a field header; a boolean field's value is in it
pub proof fn r_field(st: St, ty: TType, id: i16)
    requires pre(hdr(st.last, tcode(ty), id), st.inp), tvalid(ty), ty != TType::Stop, ty != TType::Bool,
    ensures p_field_begin(st) == PR::Ok(FV { ty, id: Some(id) }, St { last: id, ..adv(st, hdr(st.last, tcode(ty), id).len() as int) }), hdr(st.last, tcode(ty), id).len() > 0,
{
    let c = tcode(ty);
    let d = id - st.last;
    if 0 < d < 15 {
        let h = (d * 16 + c) as u8;
        r_byte(st, h);
        assert(h % 16 == c && h / 16 == d) by (nonlinear_arith) requires h == d * 16 + c, 0 <= c < 16, 0 < d < 15;
    } else {
        lemma_pre_cat(seq![c], ienc(id as int), st.inp);
        r_byte(st, c);
        r_i16(adv(st, 1), id);
        assert(c % 16 == c && c / 16 == 0) by (nonlinear_arith) requires 0 <= c < 16;
    }
}
pub proof fn r_field_bool(st: St, v: bool, id: i16)
    requires pre(hdr(st.last, if v { 1 } else { 2 }, id), st.inp),
    ensures p_field_begin(st) == PR::Ok(FV { ty: TType::Bool, id: Some(id) }, St { last: id, pend: Some(v), ..adv(st, hdr(st.last, if v { 1 } else { 2 }, id).len() as int) }), hdr(st.last, if v { 1 } else { 2 }, id).len() > 0,
{
    let c: u8 = if v { 1 } else { 2 };
    let d = id - st.last;
    if 0 < d < 15 {
        let h = (d * 16 + c) as u8;
        r_byte(st, h);
        assert(h % 16 == c && h / 16 == d) by (nonlinear_arith) requires h == d * 16 + c, 0 <= c < 16, 0 < d < 15;
    } else {
        lemma_pre_cat(seq![c], ienc(id as int), st.inp);
        r_byte(st, c);
        r_i16(St { pend: Some(v), ..adv(st, 1) }, id);
        assert(c % 16 == c && c / 16 == 0) by (nonlinear_arith) requires 0 <= c < 16;
    }
}
pub proof fn r_stop(st: St)
    requires pre(seq![0u8], st.inp),
    ensures p_field_begin(st) == PR::Ok(FV { ty: TType::Stop, id: None }, adv(st, 1)),
{ r_byte(st, 0); }
pub proof fn r_list_begin(st: St, ty: TType, n: nat)
    requires pre(list_hdr(ty, n), st.inp), cvalid(ty), fits(n), 8 * n <= st.rem,
    ensures p_list_begin(st) == PR::Ok(LV { ty, size: n as u32 }, after(st, list_hdr(ty, n).len(), 8 * n)), list_hdr(ty, n).len() > 0,
{
    let c = ccode(ty);
    if n <= 14 {
        let h = (n * 16 + c) as u8;
        r_byte(st, h);
        assert(h % 16 == c && h / 16 == n) by (nonlinear_arith) requires h == n * 16 + c, 0 <= c < 16, 0 <= n <= 14;
    } else {
        let h = (0xF0 + c) as u8;
        lemma_pre_cat(seq![h], uenc(n), st.inp);
        r_byte(st, h);
        r_u32(adv(st, 1), n as u32);
    }
}
pub proof fn r_map_begin(st: St, k: TType, v: TType, n: nat)
    requires pre(map_hdr(Some(k), Some(v), n), st.inp), cvalid(k), cvalid(v), fits(n), 8 * n <= st.rem,
    ensures p_map_begin(st) == PR::Ok(if n == 0 { MV { k: None, v: None, size: 0 } } else { MV { k: Some(k), v: Some(v), size: n as u32 } }, after(st, map_hdr(Some(k), Some(v), n).len(), 8 * n)),
        map_hdr(Some(k), Some(v), n).len() > 0,
{
    if n == 0 { assert(uenc(0) =~= seq![0u8]); r_u32(st, 0); } else {
        let h = (ccode(k) * 16 + ccode(v)) as u8;
        lemma_pre_cat(uenc(n), seq![h], st.inp);
        r_u32(st, n as u32);
        r_byte(adv(st, uenc(n).len() as int), h);
        assert(h % 16 == ccode(v) && h / 16 == ccode(k)) by (nonlinear_arith) requires h == ccode(k) * 16 + ccode(v), 0 <= ccode(v) < 16, 0 <= ccode(k) < 16;
    }
}
pub proof fn r_msg_begin(st: St, ty: crate::thrift::protocol::TMessageType, seq: u32, name: Seq<char>)
    requires pre(msg_hdr(ty, seq, name), st.inp), fits(encode_utf8(name).len()), encode_utf8(name).len() <= st.rem,
    ensures p_msg_begin(st) == PR::Ok(MsgV { name, ty, seq }, St { last: 0, ..after(st, msg_hdr(ty, seq, name).len(), encode_utf8(name).len()) }),
{
    let b1 = (mcode(ty) * 32 + 1) as u8;
    let nm = bytes_enc(encode_utf8(name));
    lemma_pre_cat(seq![0x82u8], seq![b1] + (uenc(seq as nat) + nm), st.inp);
    r_byte(st, 0x82);
    let s1 = adv(st, 1);
    lemma_pre_cat(seq![b1], uenc(seq as nat) + nm, s1.inp);
    r_byte(s1, b1);
    let s2 = adv(s1, 1);
    lemma_pre_cat(uenc(seq as nat), nm, s2.inp);
    r_u32(s2, seq);
    let s3 = adv(s2, uenc(seq as nat).len() as int);
    r_string(s3, name);
    assert(b1 % 32 == 1 && b1 / 32 == mcode(ty)) by (nonlinear_arith) requires b1 == mcode(ty) * 32 + 1, 1 <= mcode(ty) <= 4;
    assert(s3.inp.skip(nm.len() as int) =~= st.inp.skip(msg_hdr(ty, seq, name).len() as int));
}

// ------------------------------------------------------------------ typed values
/// what is proved of every type the format uses
pub trait Thm: Codec {
    /// the value's declared sizes
    spec fn cost(v: Self::V) -> nat;
    /// how deep it nests
    spec fn depth(v: Self::V) -> nat;
    spec fn tt() -> TType;
    /// a longer input or a larger budget changes nothing but end-of-file and size-limit errors
    proof fn mono(st: St, e: Seq<u8>, b: nat)
        requires okb(st, b),
        ensures mono(Self::dec(st), Self::dec(ext(st, e, b)), st, e, b);
    /// reading what was written gives the value, and takes exactly its bytes and its declared sizes
    proof fn rt(v: Self::V, st: St)
        requires Self::wfits(v), pre(Self::enc(v), st.inp), st.pend is None, Self::cost(v) <= st.rem,
        ensures Self::dec(st) == PR::<Self::V>::Ok(v, after(st, Self::enc(v).len(), Self::cost(v)));
    /// skipping it takes as much, or is refused for its depth
    proof fn skip_rt(v: Self::V, st: St, d: nat)
        requires Self::wfits(v), pre(Self::enc(v), st.inp), st.pend is None, Self::cost(v) <= st.rem,
        ensures p_skip(st, Self::tt(), d) == sk_res(st, Self::enc(v).len(), Self::cost(v), Self::depth(v), d);
    /// on any input, reading leaves the nesting state as it was
    proof fn frame(st: St)
        ensures framed(Self::dec(st), st);
    proof fn facts(v: Self::V)
        ensures Self::enc(v).len() > 0, Self::depth(v) > 0, cvalid(Self::tt());
}
pub open spec fn sk_res(st: St, n: nat, c: nat, dep: nat, d: nat) -> PR<()> { if d >= dep { PR::Ok((), after(st, n, c)) } else { PR::Err(e_depth()) } }
impl Thm for bool {
    open spec fn cost(v: bool) -> nat { 0 }
    open spec fn depth(v: bool) -> nat { 1 }
    open spec fn tt() -> TType { TType::Bool }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_bool(st, e, b); }
    proof fn rt(v: bool, st: St) { r_bool(st, v); }
    proof fn skip_rt(v: bool, st: St, d: nat) { Self::rt(v, st); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: bool) { }
}
impl Thm for u8 {
    open spec fn cost(v: u8) -> nat { 0 }
    open spec fn depth(v: u8) -> nat { 1 }
    open spec fn tt() -> TType { TType::I08 }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_byte(st, e, b); }
    proof fn rt(v: u8, st: St) { r_byte(st, v); }
    proof fn skip_rt(v: u8, st: St, d: nat) { Self::rt(v, st); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: u8) { }
}
impl Thm for i8 {
    open spec fn cost(v: i8) -> nat { 0 }
    open spec fn depth(v: i8) -> nat { 1 }
    open spec fn tt() -> TType { TType::I08 }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_i8(st, e, b); }
    proof fn rt(v: i8, st: St) { r_i8(st, v); }
    proof fn skip_rt(v: i8, st: St, d: nat) { Self::rt(v, st); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: i8) { }
}
impl Thm for i16 {
    open spec fn cost(v: i16) -> nat { 0 }
    open spec fn depth(v: i16) -> nat { 1 }
    open spec fn tt() -> TType { TType::I16 }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_vi::<i16>(st, e, b); }
    proof fn rt(v: i16, st: St) { r_i16(st, v); }
    proof fn skip_rt(v: i16, st: St, d: nat) { Self::rt(v, st); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: i16) { lemma_uenc_shape(zz(v as int)); }
}
impl Thm for i32 {
    open spec fn cost(v: i32) -> nat { 0 }
    open spec fn depth(v: i32) -> nat { 1 }
    open spec fn tt() -> TType { TType::I32 }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_vi::<i32>(st, e, b); }
    proof fn rt(v: i32, st: St) { r_i32(st, v); }
    proof fn skip_rt(v: i32, st: St, d: nat) { Self::rt(v, st); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: i32) { lemma_uenc_shape(zz(v as int)); }
}
impl Thm for i64 {
    open spec fn cost(v: i64) -> nat { 0 }
    open spec fn depth(v: i64) -> nat { 1 }
    open spec fn tt() -> TType { TType::I64 }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_vi::<i64>(st, e, b); }
    proof fn rt(v: i64, st: St) { r_i64(st, v); }
    proof fn skip_rt(v: i64, st: St, d: nat) { Self::rt(v, st); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: i64) { lemma_uenc_shape(zz(v as int)); }
}
impl Thm for String {
    open spec fn cost(v: Seq<char>) -> nat { encode_utf8(v).len() }
    open spec fn depth(v: Seq<char>) -> nat { 1 }
    open spec fn tt() -> TType { TType::String }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_string(st, e, b); }
    proof fn rt(v: Seq<char>, st: St) { r_string(st, v); }
    proof fn skip_rt(v: Seq<char>, st: St, d: nat) { r_bytes(st, encode_utf8(v)); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: Seq<char>) { lemma_uenc_shape(encode_utf8(v).len()); }
}
impl Thm for Vec<u8> {
    open spec fn cost(v: Seq<u8>) -> nat { v.len() }
    open spec fn depth(v: Seq<u8>) -> nat { 1 }
    open spec fn tt() -> TType { TType::String }
    proof fn mono(st: St, e: Seq<u8>, b: nat) { m_bytes(st, e, b); }
    proof fn rt(v: Seq<u8>, st: St) { r_bytes(st, v); }
    proof fn skip_rt(v: Seq<u8>, st: St, d: nat) { r_bytes(st, v); if d == 0 { lemma_skip0(st, Self::tt()); } else { lemma_skip(st, Self::tt(), d); } }
    proof fn frame(st: St) { }
    proof fn facts(v: Seq<u8>) { lemma_uenc_shape(v.len()); }
}
// ------------------------------------------------------------------ lists
pub open spec fn catr<P: Codec>(xs: Seq<P::V>, k: nat) -> Seq<u8> decreases xs.len() - k {
    if k >= xs.len() { Seq::empty() } else { P::enc(xs[k as int]) + catr::<P>(xs, k + 1) }
}
pub open spec fn lcost<P: Thm>(xs: Seq<P::V>, k: nat) -> nat decreases xs.len() - k {
    if k >= xs.len() { 0 } else { P::cost(xs[k as int]) + lcost::<P>(xs, k + 1) }
}
pub open spec fn ldepth<P: Thm>(xs: Seq<P::V>, k: nat) -> nat decreases xs.len() - k {
    if k >= xs.len() { 0 } else { let a = P::depth(xs[k as int]); let b = ldepth::<P>(xs, k + 1); if a > b { a } else { b } }
}
pub open spec fn list_cost<P: Thm>(xs: Seq<P::V>) -> nat { 8 * xs.len() + lcost::<P>(xs, 0) }
pub open spec fn list_depth<P: Thm>(xs: Seq<P::V>) -> nat { 1 + ldepth::<P>(xs, 0) }
pub proof fn lemma_catr<P: Codec>(xs: Seq<P::V>, k: nat)
    requires k <= xs.len(),
    ensures cat::<P>(xs, k) + catr::<P>(xs, k) == cat::<P>(xs, xs.len()),
    decreases xs.len() - k,
{
    reveal_with_fuel(cat, 2);
    if k < xs.len() {
        lemma_catr::<P>(xs, k + 1);
        assert(cat::<P>(xs, k) + (P::enc(xs[k as int]) + catr::<P>(xs, k + 1)) =~= cat::<P>(xs, k) + P::enc(xs[k as int]) + catr::<P>(xs, k + 1));
    } else { assert(cat::<P>(xs, k) + Seq::<u8>::empty() =~= cat::<P>(xs, k)); }
}
pub proof fn lemma_catr0<P: Codec>(xs: Seq<P::V>)
    ensures cat::<P>(xs, xs.len()) == catr::<P>(xs, 0),
{ reveal(cat); lemma_catr::<P>(xs, 0); assert(Seq::<u8>::empty() + catr::<P>(xs, 0) =~= catr::<P>(xs, 0)); }
pub proof fn r_n<P: Thm>(st: St, xs: Seq<P::V>, k: nat)
    requires k <= xs.len(), pre(catr::<P>(xs, k), st.inp), st.pend is None, lcost::<P>(xs, k) <= st.rem, forall|i: int| 0 <= i < xs.len() ==> P::wfits(#[trigger] xs[i]),
    ensures p_n(st, (xs.len() - k) as nat, xs.take(k as int), decf::<P>()) == PR::Ok(xs, after(st, catr::<P>(xs, k).len(), lcost::<P>(xs, k))),
    decreases xs.len() - k,
{
    if k == xs.len() { assert(xs.take(k as int) =~= xs); assert(st.inp.skip(0) =~= st.inp); } else {
        let a = P::enc(xs[k as int]);
        lemma_pre_cat(a, catr::<P>(xs, k + 1), st.inp);
        P::rt(xs[k as int], st);
        let s = after(st, a.len(), P::cost(xs[k as int]));
        r_n::<P>(s, xs, k + 1);
        assert(xs.take(k as int).push(xs[k as int]) =~= xs.take(k as int + 1));
        assert(decf::<P>()(st) == P::dec(st));
    }
}
pub proof fn r_list<P: Thm>(st: St, ty: TType, xs: Seq<P::V>)
    requires list_fits::<P>(xs), pre(list_enc::<P>(ty, xs), st.inp), st.pend is None, list_cost::<P>(xs) <= st.rem, cvalid(ty),
    ensures p_list(st, decf::<P>()) == PR::Ok(xs, after(st, list_enc::<P>(ty, xs).len(), list_cost::<P>(xs))), list_enc::<P>(ty, xs).len() > 0,
{
    let h = list_hdr(ty, xs.len());
    lemma_catr0::<P>(xs);
    lemma_pre_cat(h, catr::<P>(xs, 0), st.inp);
    r_list_begin(st, ty, xs.len());
    let s = after(st, h.len(), 8 * xs.len());
    r_n::<P>(s, xs, 0);
    assert(xs.take(0) =~= Seq::<P::V>::empty());
}
pub proof fn m_n<P: Thm>(st: St, e: Seq<u8>, b: nat, n: nat, acc: Seq<P::V>)
    requires okb(st, b),
    ensures mono(p_n(st, n, acc, decf::<P>()), p_n(ext(st, e, b), n, acc, decf::<P>()), st, e, b),
    decreases n,
{
    if n > 0 {
        P::mono(st, e, b);
        assert(decf::<P>()(st) == P::dec(st) && decf::<P>()(ext(st, e, b)) == P::dec(ext(st, e, b)));
        if let PR::Ok(v, s) = P::dec(st) { m_n::<P>(s, e, b, (n - 1) as nat, acc.push(v)); }
        else if let PR::Ok(v, s) = P::dec(ext(st, e, b)) { k_n::<P>(s, (n - 1) as nat, acc.push(v)); }
    }
}
pub proof fn k_n<P: Thm>(st: St, n: nat, acc: Seq<P::V>)
    ensures shrinks(p_n(st, n, acc, decf::<P>()), st), framed(p_n(st, n, acc, decf::<P>()), st),
    decreases n,
{
    if n > 0 {
        P::mono(st, Seq::empty(), 0);
        P::frame(st);
        assert(decf::<P>()(st) == P::dec(st));
        if let PR::Ok(v, s) = P::dec(st) { k_n::<P>(s, (n - 1) as nat, acc.push(v)); }
    }
}
pub proof fn m_list<P: Thm>(st: St, e: Seq<u8>, b: nat)
    requires okb(st, b),
    ensures mono(p_list(st, decf::<P>()), p_list(ext(st, e, b), decf::<P>()), st, e, b),
{
    m_list_begin(st, e, b);
    if let PR::Ok(l, s) = p_list_begin(st) { m_n::<P>(s, e, b, l.size as nat, Seq::empty()); }
    else if let PR::Ok(l, s) = p_list_begin(ext(st, e, b)) { k_n::<P>(s, l.size as nat, Seq::empty()); }
}
pub proof fn k_list<P: Thm>(st: St)
    ensures framed(p_list(st, decf::<P>()), st),
{ if let PR::Ok(l, s) = p_list_begin(st) { k_n::<P>(s, l.size as nat, Seq::empty()); } }
pub proof fn r_skip_n<P: Thm>(st: St, xs: Seq<P::V>, k: nat, d: nat)
    requires k <= xs.len(), pre(catr::<P>(xs, k), st.inp), st.pend is None, lcost::<P>(xs, k) <= st.rem, forall|i: int| 0 <= i < xs.len() ==> P::wfits(#[trigger] xs[i]),
    ensures p_skip_n(st, (xs.len() - k) as nat, P::tt(), d) == sk_res(st, catr::<P>(xs, k).len(), lcost::<P>(xs, k), ldepth::<P>(xs, k), d),
    decreases xs.len() - k,
{
    lemma_skip_n(st, (xs.len() - k) as nat, P::tt(), d);
    if k == xs.len() { assert(st.inp.skip(0) =~= st.inp); } else {
        let a = P::enc(xs[k as int]);
        lemma_pre_cat(a, catr::<P>(xs, k + 1), st.inp);
        P::skip_rt(xs[k as int], st, d);
        r_skip_n::<P>(after(st, a.len(), P::cost(xs[k as int])), xs, k + 1, d);
    }
}
pub proof fn r_skip_list<P: Thm>(st: St, xs: Seq<P::V>, d: nat)
    requires list_fits::<P>(xs), pre(list_enc::<P>(P::tt(), xs), st.inp), st.pend is None, list_cost::<P>(xs) <= st.rem, cvalid(P::tt()),
    ensures p_skip(st, TType::List, d) == sk_res(st, list_enc::<P>(P::tt(), xs).len(), list_cost::<P>(xs), list_depth::<P>(xs), d),
{
    if d == 0 { lemma_skip0(st, TType::List); } else {
        lemma_skip(st, TType::List, d);
        let h = list_hdr(P::tt(), xs.len());
        lemma_catr0::<P>(xs);
        lemma_pre_cat(h, catr::<P>(xs, 0), st.inp);
        r_list_begin(st, P::tt(), xs.len());
        r_skip_n::<P>(after(st, h.len(), 8 * xs.len()), xs, 0, (d - 1) as nat);
    }
}
// ------------------------------------------------------------------ structs
pub open spec fn post(fs: Seq<Option<WF>>, k: nat) -> Seq<u8> decreases fs.len() - k {
    if k >= fs.len() { seq![0u8] } else { of_bytes(lastk(fs, k), fs[k as int]) + post(fs, k + 1) }
}
pub open spec fn sum(cs: Seq<nat>, k: nat) -> nat decreases cs.len() - k { if k >= cs.len() { 0 } else { cs[k as int] + sum(cs, k + 1) } }
pub open spec fn maxd(ds: Seq<nat>, k: nat) -> nat decreases ds.len() - k { if k >= ds.len() { 0 } else { let a = ds[k as int]; let b = maxd(ds, k + 1); if a > b { a } else { b } } }
pub proof fn lemma_post(fs: Seq<Option<WF>>, k: nat)
    requires k <= fs.len(),
    ensures enc_pre(fs, k) + post(fs, k) == enc_struct(fs),
    decreases fs.len() - k,
{
    reveal(enc_struct);
    if k < fs.len() { lemma_post(fs, k + 1); let b = of_bytes(lastk(fs, k), fs[k as int]); assert(enc_pre(fs, k) + (b + post(fs, k + 1)) =~= enc_pre(fs, k) + b + post(fs, k + 1)); }
}
pub proof fn lemma_post0(fs: Seq<Option<WF>>)
    ensures enc_struct(fs) == post(fs, 0),
{ lemma_post(fs, 0); assert(Seq::<u8>::empty() + post(fs, 0) =~= post(fs, 0)); }
/// `step` reads field f, in whatever follows its header, from accumulator a to a2, at cost c
#[verifier::opaque]
pub open spec fn fld_ok<A>(f: Option<WF>, a: A, a2: A, c: nat, step: spec_fn(FV, St, A) -> PR<A>) -> bool {
    match f {
        None => a2 == a && c == 0,
        Some(WF::F(ty, id, b)) => tvalid(ty) && ty != TType::Stop && ty != TType::Bool
            && forall|s: St| pre(b, s.inp) && s.pend is None && c <= s.rem ==> #[trigger] step(FV { ty, id: Some(id) }, s, a) == PR::Ok(a2, after(s, b.len(), c)),
        Some(WF::B(id, v)) => c == 0 && forall|s: St| s.pend == Some(v) ==> #[trigger] step(FV { ty: TType::Bool, id: Some(id) }, s, a) == PR::Ok(a2, St { pend: None, ..s }),
    }
}
/// its payload is skipped at the same cost, or refused for its depth
#[verifier::opaque]
pub open spec fn sk_ok(f: Option<WF>, c: nat, dep: nat) -> bool {
    match f {
        None => c == 0 && dep == 0,
        Some(WF::F(ty, id, b)) => tvalid(ty) && ty != TType::Stop && ty != TType::Bool
            && forall|s: St, d: nat| pre(b, s.inp) && s.pend is None && c <= s.rem ==> #[trigger] p_skip(s, ty, d) == sk_res(s, b.len(), c, dep, d),
        Some(WF::B(id, v)) => c == 0 && dep == 1,
    }
}
pub proof fn r_fields<A>(st: St, fs: Seq<Option<WF>>, accs: Seq<A>, cs: Seq<nat>, k: nat, step: spec_fn(FV, St, A) -> PR<A>)
    requires
        k <= fs.len(), accs.len() == fs.len() + 1, cs.len() == fs.len(),
        forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> fld_ok(fs[i], accs[i], accs[i + 1], cs[i], step),
        pre(post(fs, k), st.inp), st.pend is None, st.last == lastk(fs, k), sum(cs, k) <= st.rem,
    ensures p_fields(st, accs[k as int], step) == PR::Ok(accs[fs.len() as int], St { last: lastk(fs, fs.len()), ..after(st, post(fs, k).len(), sum(cs, k)) }),
    decreases fs.len() - k,
{
    if k == fs.len() { r_stop(st); } else {
        let f = fs[k as int];
        let b = of_bytes(st.last, f);
        lemma_pre_cat(b, post(fs, k + 1), st.inp);
        assert(fld_ok(fs[k as int], accs[k as int], accs[k as int + 1], cs[k as int], step));
        reveal(fld_ok);
        match f {
            None => {
                assert(st.inp.skip(0) =~= st.inp);
                r_fields(st, fs, accs, cs, k + 1, step);
            },
            Some(WF::F(ty, id, p)) => {
                let h = hdr(st.last, tcode(ty), id);
                lemma_pre_cat(h, p, st.inp);
                r_field(st, ty, id);
                let s = St { last: id, ..adv(st, h.len() as int) };
                let s2 = after(s, p.len(), cs[k as int]);
                assert(step(FV { ty, id: Some(id) }, s, accs[k as int]) == PR::Ok(accs[k as int + 1], s2));
                r_fields(s2, fs, accs, cs, k + 1, step);
            },
            Some(WF::B(id, v)) => {
                let h = hdr(st.last, if v { 1 } else { 2 }, id);
                r_field_bool(st, v, id);
                let s = St { last: id, pend: Some(v), ..adv(st, h.len() as int) };
                let s2 = St { pend: None, ..s };
                assert(step(FV { ty: TType::Bool, id: Some(id) }, s, accs[k as int]) == PR::Ok(accs[k as int + 1], s2));
                r_fields(s2, fs, accs, cs, k + 1, step);
            },
        }
    }
}
pub proof fn r_skip_fields(st: St, fs: Seq<Option<WF>>, cs: Seq<nat>, ds: Seq<nat>, k: nat, d: nat)
    requires
        k <= fs.len(), cs.len() == fs.len(), ds.len() == fs.len(),
        forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> sk_ok(fs[i], cs[i], ds[i]),
        pre(post(fs, k), st.inp), st.pend is None, st.last == lastk(fs, k), sum(cs, k) <= st.rem,
    ensures p_skip_fields(st, d) == (if d >= maxd(ds, k) { PR::<()>::Ok((), St { last: st.stack.last(), stack: st.stack.drop_last(), ..after(st, post(fs, k).len(), sum(cs, k)) }) } else { PR::<()>::Err(e_depth()) }),
    decreases fs.len() - k,
{
    lemma_skip_fields(st, d);
    if k == fs.len() { r_stop(st); } else {
        let f = fs[k as int];
        let b = of_bytes(st.last, f);
        lemma_pre_cat(b, post(fs, k + 1), st.inp);
        assert(sk_ok(fs[k as int], cs[k as int], ds[k as int]));
        reveal(sk_ok);
        match f {
            None => {
                assert(st.inp.skip(0) =~= st.inp);
                r_skip_fields(st, fs, cs, ds, k + 1, d);
            },
            Some(WF::F(ty, id, p)) => {
                let h = hdr(st.last, tcode(ty), id);
                lemma_pre_cat(h, p, st.inp);
                r_field(st, ty, id);
                let s = St { last: id, ..adv(st, h.len() as int) };
                let s2 = after(s, p.len(), cs[k as int]);
                assert(p_skip(s, ty, d) == sk_res(s, p.len(), cs[k as int], ds[k as int], d));
                r_skip_fields(s2, fs, cs, ds, k + 1, d);
            },
            Some(WF::B(id, v)) => {
                let h = hdr(st.last, if v { 1 } else { 2 }, id);
                r_field_bool(st, v, id);
                let s = St { last: id, pend: Some(v), ..adv(st, h.len() as int) };
                let s2 = St { pend: None, ..s };
                if d == 0 { lemma_skip0(s, TType::Bool); } else { lemma_skip(s, TType::Bool, d); r_skip_fields(s2, fs, cs, ds, k + 1, d); }
            },
        }
    }
}
/// a whole struct, read
pub proof fn r_struct<A>(st: St, fs: Seq<Option<WF>>, accs: Seq<A>, cs: Seq<nat>, step: spec_fn(FV, St, A) -> PR<A>)
    requires
        accs.len() == fs.len() + 1, cs.len() == fs.len(),
        forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> fld_ok(fs[i], accs[i], accs[i + 1], cs[i], step),
        pre(enc_struct(fs), st.inp), st.pend is None, 2 + sum(cs, 0) <= st.rem,
    ensures ({
        let s0 = St { rem: (st.rem - 2) as usize, stack: st.stack.push(st.last), last: 0, ..st };
        let s1 = St { last: lastk(fs, fs.len()), ..after(s0, enc_struct(fs).len(), sum(cs, 0)) };
        p_struct_begin(st) == PR::<Option<()>>::Ok(None, s0) && p_fields(s0, accs[0], step) == PR::Ok(accs[fs.len() as int], s1)
            && p_struct_end(s1) == PR::<()>::Ok((), after(st, enc_struct(fs).len(), 2 + sum(cs, 0)))
    }),
{
    let s0 = St { rem: (st.rem - 2) as usize, stack: st.stack.push(st.last), last: 0, ..st };
    lemma_post0(fs);
    r_fields(s0, fs, accs, cs, 0, step);
    assert(st.stack.push(st.last).drop_last() =~= st.stack);
}
/// a whole struct, skipped
pub proof fn r_skip_struct(st: St, fs: Seq<Option<WF>>, cs: Seq<nat>, ds: Seq<nat>, d: nat)
    requires
        cs.len() == fs.len(), ds.len() == fs.len(),
        forall|i: int| #![trigger fs[i]] 0 <= i < fs.len() ==> sk_ok(fs[i], cs[i], ds[i]),
        pre(enc_struct(fs), st.inp), st.pend is None, 2 + sum(cs, 0) <= st.rem,
    ensures p_skip(st, TType::Struct, d) == sk_res(st, enc_struct(fs).len(), 2 + sum(cs, 0), 1 + maxd(ds, 0), d),
{
    if d == 0 { lemma_skip0(st, TType::Struct); } else {
        lemma_skip(st, TType::Struct, d);
        let s0 = St { rem: (st.rem - 2) as usize, stack: st.stack.push(st.last), last: 0, ..st };
        lemma_post0(fs);
        r_skip_fields(s0, fs, cs, ds, 0, (d - 1) as nat);
        assert(st.stack.push(st.last).drop_last() =~= st.stack);
    }
}
pub proof fn m_fields<A>(st: St, e: Seq<u8>, b: nat, a: A, step: spec_fn(FV, St, A) -> PR<A>)
    requires okb(st, b), forall|f: FV, s: St, a: A| okb(s, b) ==> mono(#[trigger] step(f, s, a), step(f, ext(s, e, b), a), s, e, b),
        forall|f: FV, s: St, a: A| okb(s, 0) ==> mono(#[trigger] step(f, s, a), step(f, ext(s, Seq::empty(), 0), a), s, Seq::empty(), 0),
    ensures mono(p_fields(st, a, step), p_fields(ext(st, e, b), a, step), st, e, b),
    decreases st.inp.len(),
{
    m_field_begin(st, e, b);
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty != TType::Stop {
            assert(mono(step(f, s, a), step(f, ext(s, e, b), a), s, e, b));
            if let PR::Ok(a2, s2) = step(f, s, a) { if s2.inp.len() < st.inp.len() { m_fields(s2, e, b, a2, step); } }
            else if let PR::Ok(a2, s2) = step(f, ext(s, e, b), a) { k_fields(s2, a2, step); }
        }
    }
}
pub proof fn k_fields<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>)
    requires forall|f: FV, s: St, a: A| okb(s, 0) ==> mono(#[trigger] step(f, s, a), step(f, ext(s, Seq::empty(), 0), a), s, Seq::empty(), 0),
    ensures shrinks(p_fields(st, a, step), st),
    decreases st.inp.len(),
{
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty != TType::Stop {
            assert(mono(step(f, s, a), step(f, ext(s, Seq::empty(), 0), a), s, Seq::empty(), 0));
            if let PR::Ok(a2, s2) = step(f, s, a) { if s2.inp.len() < st.inp.len() { k_fields(s2, a2, step); } }
        }
    }
}
pub proof fn s_fields<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>)
    requires forall|f: FV, s: St, a: A| framed(#[trigger] step(f, s, a), s),
    ensures p_fields(st, a, step) is Ok ==> p_fields(st, a, step)->Ok_1.stack == st.stack,
    decreases st.inp.len(),
{
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty != TType::Stop {
            assert(framed(step(f, s, a), s));
            if let PR::Ok(a2, s2) = step(f, s, a) { if s2.inp.len() < st.inp.len() { s_fields(s2, a2, step); } }
        }
    }
}
/// the begin and the end of a struct leave the nesting state as it was
pub proof fn s_struct<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>)
    requires forall|f: FV, s: St, a: A| framed(#[trigger] step(f, s, a), s),
    ensures p_struct_begin(st) matches PR::Ok(_, s) ==> (p_fields(s, a, step) matches PR::Ok(_, s1) ==> framed(p_struct_end(s1), st)),
{
    if let PR::Ok(_, s) = p_struct_begin(st) { s_fields(s, a, step); assert(st.stack.push(st.last).drop_last() =~= st.stack); }
}

// ------------------------------------------------------------------ what each property says, of every type
/// C01, C21: reading gives the value back, takes exactly its bytes whatever follows them, and leaves the rest of the reader alone
pub proof fn thm_round_trip<P: Thm>(v: P::V, st: St, tail: Seq<u8>)
    requires P::wfits(v), st.pend is None, st.inp == P::enc(v) + tail, P::cost(v) <= st.rem,
    ensures P::dec(st) == PR::<P::V>::Ok(v, St { inp: tail, rem: (st.rem - P::cost(v)) as usize, ..st }),
{ lemma_pre_app(P::enc(v), tail); P::rt(v, st); }
/// C21: two values of any types, one after the other; so, by induction, any number
pub proof fn thm_sequence<P: Thm, Q: Thm>(v: P::V, w: Q::V, st: St, tail: Seq<u8>)
    requires P::wfits(v), Q::wfits(w), st.pend is None, st.inp == P::enc(v) + Q::enc(w) + tail, P::cost(v) + Q::cost(w) <= st.rem,
    ensures ({
        let s = St { inp: Q::enc(w) + tail, rem: (st.rem - P::cost(v)) as usize, ..st };
        P::dec(st) == PR::<P::V>::Ok(v, s) && Q::dec(s) == PR::<Q::V>::Ok(w, St { inp: tail, rem: (s.rem - Q::cost(w)) as usize, ..st })
    }),
{
    let s = St { inp: Q::enc(w) + tail, rem: (st.rem - P::cost(v)) as usize, ..st };
    assert(P::enc(v) + Q::enc(w) + tail =~= P::enc(v) + (Q::enc(w) + tail));
    thm_round_trip::<P>(v, st, Q::enc(w) + tail);
    thm_round_trip::<Q>(w, s, tail);
}
/// C01: no two values have the same encoding
pub proof fn thm_injective<P: Thm>(v: P::V, w: P::V)
    requires P::wfits(v), P::wfits(w), P::enc(v) == P::enc(w), P::cost(v) <= usize::MAX, P::cost(w) <= usize::MAX,
    ensures v == w,
{
    let st = St { inp: P::enc(v) + Seq::empty(), last: 0, stack: Seq::empty(), pend: None, rem: usize::MAX };
    thm_round_trip::<P>(v, st, Seq::empty());
    thm_round_trip::<P>(w, st, Seq::empty());
}
/// C12: every strict prefix of an encoding is an end of file
pub proof fn thm_truncated<P: Thm>(v: P::V, st: St, k: int)
    requires P::wfits(v), st.pend is None, 0 <= k < P::enc(v).len(), st.inp == P::enc(v).take(k), P::cost(v) <= st.rem,
    ensures P::dec(st) == PR::<P::V>::Err(e_eof()),
{
    let e = P::enc(v).skip(k);
    let full = ext(st, e, 0);
    assert(st.inp + e =~= P::enc(v) + Seq::<u8>::empty());
    thm_round_trip::<P>(v, full, Seq::empty());
    P::mono(st, e, 0);
}
/// C05: with less budget than its declared sizes, a value is refused with a size-limit error
pub proof fn thm_budget<P: Thm>(v: P::V, st: St, tail: Seq<u8>)
    requires P::wfits(v), st.pend is None, st.inp == P::enc(v) + tail, st.rem < P::cost(v) <= usize::MAX,
    ensures P::dec(st) == PR::<P::V>::Err(e_size()),
{
    let b = (P::cost(v) - st.rem) as nat;
    assert(st.inp + Seq::<u8>::empty() =~= st.inp);
    thm_round_trip::<P>(v, ext(st, Seq::empty(), b), tail);
    P::mono(st, Seq::empty(), b);
}
/// C05, C22: on any input, the budget that a read takes is the same under every budget; exactly the smaller ones are refused
pub proof fn thm_budget_exact<P: Thm>(st: St, v: P::V, s: St, rem: usize)
    requires P::dec(st) == PR::<P::V>::Ok(v, s),
    ensures s.rem <= st.rem, P::dec(St { rem, ..st }) == (if rem >= st.rem - s.rem { PR::Ok(v, St { rem: (rem - (st.rem - s.rem)) as usize, ..s }) } else { PR::<P::V>::Err(e_size()) }),
{
    assert(forall|x: Seq<u8>| x + Seq::<u8>::empty() =~= x);
    P::mono(st, Seq::empty(), 0);
    if rem >= st.rem { P::mono(st, Seq::empty(), (rem - st.rem) as nat); } else {
        P::mono(St { rem, ..st }, Seq::empty(), (st.rem - rem) as nat);
    }
}
/// C22: a larger budget keeps every result but a size-limit error
pub proof fn thm_larger_budget<P: Thm>(st: St, rem: usize)
    requires rem >= st.rem,
    ensures match P::dec(st) {
        PR::Ok(v, s) => P::dec(St { rem, ..st }) == PR::<P::V>::Ok(v, St { rem: (s.rem + (rem - st.rem)) as usize, ..s }),
        PR::Err(x) => x == e_size() || P::dec(St { rem, ..st }) == PR::<P::V>::Err(x),
    },
{ assert(forall|x: Seq<u8>| x + Seq::<u8>::empty() =~= x); P::mono(st, Seq::empty(), (rem - st.rem) as nat); }
/// C21: what follows a value has no influence on reading it, and is left over
pub proof fn thm_no_over_reading<P: Thm>(st: St, tail: Seq<u8>, v: P::V, s: St)
    requires P::dec(st) == PR::<P::V>::Ok(v, s),
    ensures P::dec(St { inp: st.inp + tail, ..st }) == PR::<P::V>::Ok(v, St { inp: s.inp + tail, ..s }),
{ P::mono(st, tail, 0); }
/// C14: skipping a value takes what reading it takes
pub proof fn thm_skip<P: Thm>(v: P::V, st: St, tail: Seq<u8>, d: nat)
    requires P::wfits(v), st.pend is None, st.inp == P::enc(v) + tail, P::cost(v) <= st.rem,
    ensures p_skip(st, P::tt(), d) == (if d >= P::depth(v) { un(P::dec(st)) } else { PR::<()>::Err(e_depth()) }),
{ lemma_pre_app(P::enc(v), tail); P::rt(v, st); P::skip_rt(v, st, d); }
/// C23: message headers
pub proof fn thm_message(o: OSt, st: St, ty: crate::thrift::protocol::TMessageType, seq: u32, name: Seq<char>, tail: Seq<u8>)
    requires fits(encode_utf8(name).len()), encode_utf8(name).len() <= st.rem, w_msg_begin(o, ty, seq, name).out + tail == o.out + st.inp,
    ensures p_msg_begin(st) == PR::Ok(MsgV { name, ty, seq }, St { inp: tail, last: 0, rem: (st.rem - encode_utf8(name).len()) as usize, ..st }),
{
    let h = msg_hdr(ty, seq, name);
    assert(st.inp =~= (o.out + st.inp).skip(o.out.len() as int));
    assert(st.inp =~= h + tail);
    lemma_pre_app(h, tail);
    r_msg_begin(st, ty, seq, name);
}
/// C10: the canonical form is the shortest one with this value
pub proof fn thm_shortest(s: Seq<u8>, n: nat)
    requires s.len() > 0, vval(s) == n,
    ensures uenc(n).len() <= s.len(),
{ lemma_vval_bound(s); lemma_uenc_bound(n, s.len()); }
proof fn lemma_vval_bound(s: Seq<u8>)
    ensures vval(s) < p128(s.len()),
    decreases s.len(),
{
    reveal_with_fuel(vval, 2); reveal_with_fuel(p128, 2);
    if s.len() > 0 {
        lemma_vval_bound(s.drop_last());
        let x = (s.last() % 128) as nat;
        let y = p128((s.len() - 1) as nat);
        assert(vval(s.drop_last()) + x * y < 128 * y) by (nonlinear_arith) requires vval(s.drop_last()) < y, x <= 127;
    }
}
/// C10: zigzag is a bijection between the integers and the naturals, and keeps the widths
pub proof fn thm_zigzag(v: int, n: nat)
    ensures unzz(zz(v)) == v, zz(unzz(n)) == n,
        -0x8000_0000_0000_0000 <= v < 0x8000_0000_0000_0000 <==> zz(v) < 0x1_0000_0000_0000_0000,
        -0x8000_0000 <= v < 0x8000_0000 <==> zz(v) < 0x1_0000_0000, -0x8000 <= v < 0x8000 <==> zz(v) < 0x1_0000,
{ }
/// C10: an encoding in front of any bytes decodes to its integer and exactly its length
pub proof fn thm_varint(n: nat, tail: Seq<u8>)
    requires n < 0x1_0000_0000_0000_0000,
    ensures udec(uenc(n) + tail) == Some((n as u64, uenc(n).len())), uenc(n).len() <= 10,
{
    let s = uenc(n) + tail;
    lemma_uenc_len(n);
    lemma_uenc_shape(n);
    let k = uenc(n).len();
    assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] s[j]) >= 128 by { assert(uenc(n)[j] >= 128); }
    assert(s[k - 1] == uenc(n)[k - 1]);
    lemma_vend_at(s, 0, k);
    assert(s.take(k as int) =~= uenc(n));
}
// ------------------------------------------------------------------ C02, C03: two implementations of one contract
/// two readers that meet the same specification agree, if no source fails and no allocation is refused
pub proof fn thm_agree<T: DV>(r1: Result<T, crate::thrift::Error>, r2: Result<T, crate::thrift::Error>, p: PR<T::V>, s1: St, s2: St)
    requires !crate::shim::oom(), ok_val(r1, p, s1), ok_err(r1, p, None), ok_val(r2, p, s2), ok_err(r2, p, None),
    ensures r1 is Ok <==> r2 is Ok, r1 is Ok ==> r1->Ok_0.dv() == r2->Ok_0.dv() && s1 == s2, r1 is Err ==> ek(r1->Err_0) == ek(r2->Err_0),
{ }
/// two writers that meet the same specification agree, if no sink fails
pub proof fn thm_agree_w(r1: Result<usize, crate::thrift::Error>, r2: Result<usize, crate::thrift::Error>, o: OSt, full: OSt, o1: OSt, o2: OSt, ft: bool)
    requires
        r1 is Ok ==> o1 == full && ft, r2 is Ok ==> o2 == full && ft, grew(r1, o, o1), grew(r2, o, o2),
        r1 is Err ==> w_err(r1->Err_0, Set::empty(), ft), r2 is Err ==> w_err(r2->Err_0, Set::empty(), ft),
    ensures r1 is Ok <==> r2 is Ok, r1 is Ok ==> o1 == o2 && r1->Ok_0 == r2->Ok_0, r1 is Err ==> ek(r1->Err_0) == ek(r2->Err_0),
{ }
// ------------------------------------------------------------------ C15: any sequence of protocol calls
/// one step of a conversation in the compact protocol, with all that it carries
pub enum Ev {
    StructBegin, StructEnd, Field(TType, i16), BoolField(i16, bool), FieldStop,
    Bool(bool), Byte(u8), I8(i8), I16(i16), I32(i32), I64(i64), Double(f64), Str(Seq<char>), Bin(Seq<u8>),
    List(TType, nat), Set(TType, nat), Map(TType, TType, nat), EmptyMap, Msg(crate::thrift::protocol::TMessageType, u32, Seq<char>),
}
/// the calls that may be made: declared sizes fit the wire, kinds have a code, structs are closed only if open
#[verifier::opaque]
pub open spec fn ev_ok(o: OSt, e: Ev) -> bool {
    match e {
        Ev::StructEnd => o.stack.len() > 0,
        Ev::Field(ty, _) => tvalid(ty) && ty != TType::Stop && ty != TType::Bool,
        Ev::Str(s) => fits(encode_utf8(s).len()), Ev::Bin(b) => fits(b.len()),
        Ev::List(ty, n) => cvalid(ty) && fits(n), Ev::Set(ty, n) => cvalid(ty) && fits(n), Ev::Map(k, v, n) => cvalid(k) && cvalid(v) && fits(n) && n > 0,
        Ev::Msg(_, _, name) => fits(encode_utf8(name).len()) && o.last == 0,
        _ => true,
    }
}
/// what the writer's contract says of them
#[verifier::opaque]
pub open spec fn ev_w(o: OSt, e: Ev) -> OSt {
    match e {
        Ev::StructBegin => w_struct_begin(o), Ev::StructEnd => w_struct_end(o), Ev::Field(ty, id) => w_field_begin(o, ty, id), Ev::BoolField(id, v) => w_bool(w_field_begin(o, TType::Bool, id), v),
        Ev::FieldStop => w_byte(o, 0), Ev::Bool(v) => w_bool(o, v), Ev::Byte(v) => w_byte(o, v), Ev::I8(v) => w_i8(o, v), Ev::I16(v) => w_int(o, v as int), Ev::I32(v) => w_int(o, v as int),
        Ev::I64(v) => w_int(o, v as int), Ev::Double(v) => w_double(o, v), Ev::Str(v) => w_string(o, v), Ev::Bin(v) => w_bytes(o, v),
        Ev::List(ty, n) => w_list_begin(o, ty, n), Ev::Set(ty, n) => w_list_begin(o, ty, n), Ev::Map(k, v, n) => w_map_begin(o, Some(k), Some(v), n), Ev::EmptyMap => w_map_begin(o, None, None, 0),
        Ev::Msg(ty, seq, name) => w_msg_begin(o, ty, seq, name),
    }
}
#[verifier::opaque]
pub open spec fn ev_cost(e: Ev) -> nat {
    match e {
        Ev::StructBegin => 2, Ev::Str(s) => encode_utf8(s).len(), Ev::Bin(b) => b.len(), Ev::List(_, n) => 8 * n, Ev::Set(_, n) => 8 * n, Ev::Map(_, _, n) => 8 * n, Ev::Msg(_, _, name) => encode_utf8(name).len(),
        _ => 0,
    }
}
pub open spec fn emap<V>(p: PR<V>, f: spec_fn(V) -> Ev) -> PR<Ev> { match p { PR::Err(e) => PR::Err(e), PR::Ok(v, s) => PR::Ok(f(v), s) } }
/// what the reader's contract says of the matching call
#[verifier::opaque]
pub open spec fn ev_r(st: St, e: Ev) -> PR<Ev> {
    match e {
        Ev::StructBegin => emap(p_struct_begin(st), |v: Option<()>| Ev::StructBegin),
        Ev::StructEnd => emap(p_struct_end(st), |v: ()| Ev::StructEnd),
        Ev::Field(_, _) => emap(p_field_begin(st), |f: FV| Ev::Field(f.ty, f.id->0)),
        Ev::FieldStop => emap(p_field_begin(st), |f: FV| if f.ty == TType::Stop { Ev::FieldStop } else { Ev::Field(f.ty, f.id->0) }),
        Ev::BoolField(_, _) => match p_field_begin(st) {
            PR::Err(e) => PR::Err(e),
            PR::Ok(f, s) => if f.ty == TType::Bool { emap(p_bool(s), |v: bool| Ev::BoolField(f.id->0, v)) } else { PR::Ok(Ev::Field(f.ty, f.id->0), s) },
        },
        Ev::Bool(_) => emap(p_bool(st), |v: bool| Ev::Bool(v)), Ev::Byte(_) => emap(p_byte(st), |v: u8| Ev::Byte(v)), Ev::I8(_) => emap(p_i8(st), |v: i8| Ev::I8(v)),
        Ev::I16(_) => emap(p_vi::<i16>(st), |v: i16| Ev::I16(v)), Ev::I32(_) => emap(p_vi::<i32>(st), |v: i32| Ev::I32(v)), Ev::I64(_) => emap(p_vi::<i64>(st), |v: i64| Ev::I64(v)),
        Ev::Double(_) => emap(p_double(st), |v: f64| Ev::Double(v)), Ev::Str(_) => emap(p_string(st), |v: Seq<char>| Ev::Str(v)), Ev::Bin(_) => emap(p_bytes(st), |v: Seq<u8>| Ev::Bin(v)),
        Ev::List(_, _) => emap(p_list_begin(st), |l: LV| Ev::List(l.ty, l.size as nat)), Ev::Set(_, _) => emap(p_list_begin(st), |l: LV| Ev::Set(l.ty, l.size as nat)),
        Ev::Map(_, _, _) | Ev::EmptyMap => emap(p_map_begin(st), |m: MV| if m.size == 0 { Ev::EmptyMap } else { Ev::Map(m.k->0, m.v->0, m.size as nat) }),
        Ev::Msg(_, _, _) => emap(p_msg_begin(st), |m: MsgV| Ev::Msg(m.ty, m.seq, m.name)),
    }
}
/// the bytes one call emits
#[verifier::opaque]
pub open spec fn ev_b(o: OSt, e: Ev) -> Seq<u8> {
    match e {
        Ev::StructBegin | Ev::StructEnd => Seq::empty(), Ev::Field(ty, id) => hdr(o.last, tcode(ty), id), Ev::BoolField(id, v) => hdr(o.last, if v { 1 } else { 2 }, id),
        Ev::FieldStop => seq![0u8], Ev::Bool(v) => seq![if v { 1u8 } else { 2u8 }], Ev::Byte(v) => seq![v], Ev::I8(v) => seq![v as u8], Ev::I16(v) => ienc(v as int), Ev::I32(v) => ienc(v as int),
        Ev::I64(v) => ienc(v as int), Ev::Double(v) => f64_le(v), Ev::Str(v) => bytes_enc(encode_utf8(v)), Ev::Bin(v) => bytes_enc(v),
        Ev::List(ty, n) => list_hdr(ty, n), Ev::Set(ty, n) => list_hdr(ty, n), Ev::Map(k, v, n) => map_hdr(Some(k), Some(v), n), Ev::EmptyMap => seq![0u8],
        Ev::Msg(ty, seq, name) => msg_hdr(ty, seq, name),
    }
}
/// reader and writer stand at the same place
pub open spec fn synced(o: OSt, st: St) -> bool { o.last == st.last && o.stack == st.stack && o.pend is None && st.pend is None }
#[verifier::spinoff_prover]
#[verifier::rlimit(60)]
proof fn lemma_ev(o: OSt, st: St, e: Ev)
    requires ev_ok(o, e), synced(o, st), pre(ev_b(o, e), st.inp), ev_cost(e) <= st.rem,
    ensures ev_w(o, e).out == o.out + ev_b(o, e), ev_r(st, e) is Ok, ev_r(st, e)->Ok_0 == e, synced(ev_w(o, e), ev_r(st, e)->Ok_1),
        ev_r(st, e)->Ok_1.inp == st.inp.skip(ev_b(o, e).len() as int), ev_r(st, e)->Ok_1.rem == st.rem - ev_cost(e),
{
    reveal(ev_ok); reveal(ev_w); reveal(ev_r); reveal(ev_b); reveal(ev_cost);
    match e {
        Ev::StructBegin => { assert(o.out + Seq::<u8>::empty() =~= o.out); assert(st.inp.skip(0) =~= st.inp); },
        Ev::StructEnd => { assert(o.out + Seq::<u8>::empty() =~= o.out); assert(st.inp.skip(0) =~= st.inp); },
        Ev::Field(ty, id) => { r_field(st, ty, id); }, Ev::BoolField(id, v) => { r_field_bool(st, v, id); }, Ev::FieldStop => { r_stop(st); },
        Ev::Bool(v) => { r_bool(st, v); }, Ev::Byte(v) => { r_byte(st, v); }, Ev::I8(v) => { r_i8(st, v); }, Ev::I16(v) => { r_i16(st, v); }, Ev::I32(v) => { r_i32(st, v); }, Ev::I64(v) => { r_i64(st, v); },
        Ev::Double(v) => { r_double(st, v); }, Ev::Str(v) => { r_string(st, v); }, Ev::Bin(v) => { r_bytes(st, v); },
        Ev::List(ty, n) => { r_list_begin(st, ty, n); }, Ev::Set(ty, n) => { r_list_begin(st, ty, n); }, Ev::Map(k, v, n) => { r_map_begin(st, k, v, n); },
        Ev::EmptyMap => { assert(map_hdr(Some(TType::I32), Some(TType::I32), 0) == seq![0u8]); r_map_begin(st, TType::I32, TType::I32, 0); },
        Ev::Msg(ty, seq, name) => { r_msg_begin(st, ty, seq, name); },
    }
}
/// the writer after the first k calls, and the bytes of the calls from k on
pub open spec fn run_w(o: OSt, evs: Seq<Ev>, k: nat) -> OSt decreases k { if k == 0 { o } else { ev_w(run_w(o, evs, (k - 1) as nat), evs[k - 1]) } }
pub open spec fn run_b(o: OSt, evs: Seq<Ev>, k: nat) -> Seq<u8> decreases evs.len() - k { if k >= evs.len() { Seq::empty() } else { ev_b(run_w(o, evs, k), evs[k as int]) + run_b(o, evs, k + 1) } }
pub open spec fn run_cost(evs: Seq<Ev>, k: nat) -> nat decreases evs.len() - k { if k >= evs.len() { 0 } else { ev_cost(evs[k as int]) + run_cost(evs, k + 1) } }
/// reading the calls from k on gives them all back, and what is left
pub open spec fn run_r(st: St, evs: Seq<Ev>, k: nat) -> Option<St> decreases evs.len() - k {
    if k >= evs.len() { Some(st) } else { match ev_r(st, evs[k as int]) { PR::Ok(e, s) => if e == evs[k as int] { run_r(s, evs, k + 1) } else { None }, PR::Err(_) => None } }
}
proof fn lemma_run(o: OSt, evs: Seq<Ev>, k: nat, st: St)
    requires k <= evs.len(), forall|i: int| 0 <= i < evs.len() ==> ev_ok(run_w(o, evs, i as nat), #[trigger] evs[i]), synced(run_w(o, evs, k), st), pre(run_b(o, evs, k), st.inp), run_cost(evs, k) <= st.rem,
    ensures run_r(st, evs, k) is Some, run_r(st, evs, k)->0.inp == st.inp.skip(run_b(o, evs, k).len() as int), run_w(o, evs, evs.len()).out == run_w(o, evs, k).out + run_b(o, evs, k),
        synced(run_w(o, evs, evs.len()), run_r(st, evs, k)->0), run_r(st, evs, k)->0.rem == st.rem - run_cost(evs, k),
    decreases evs.len() - k,
{
    let ok = run_w(o, evs, k);
    if k == evs.len() { assert(st.inp.skip(0) =~= st.inp); assert(ok.out + Seq::<u8>::empty() =~= ok.out); } else {
        let e = evs[k as int];
        let b = ev_b(ok, e);
        lemma_pre_cat(b, run_b(o, evs, k + 1), st.inp);
        lemma_ev(ok, st, e);
        lemma_run(o, evs, k + 1, ev_r(st, e)->Ok_1);
        assert(ok.out + b + run_b(o, evs, k + 1) =~= ok.out + (b + run_b(o, evs, k + 1)));
    }
}
/// C15: what a sequence of calls wrote, whatever was written before it and whatever follows it, the same sequence of calls reads back
pub proof fn thm_calls(o: OSt, evs: Seq<Ev>, st: St, tail: Seq<u8>)
    requires forall|i: int| 0 <= i < evs.len() ==> ev_ok(run_w(o, evs, i as nat), #[trigger] evs[i]), synced(o, st), o.out + st.inp == run_w(o, evs, evs.len()).out + tail, run_cost(evs, 0) <= st.rem,
    ensures run_r(st, evs, 0) is Some, run_r(st, evs, 0)->0.inp == tail, synced(run_w(o, evs, evs.len()), run_r(st, evs, 0)->0),
{
    let b = run_b(o, evs, 0);
    let big = run_cost(evs, 0);
    lemma_run_out(o, evs, 0);
    assert(st.inp =~= (o.out + st.inp).skip(o.out.len() as int));
    assert(st.inp =~= b + tail);
    lemma_pre_app(b, tail);
    lemma_run(o, evs, 0, st);
}
proof fn lemma_ev_out(o: OSt, e: Ev)
    requires o.pend is None, ev_ok(o, e),
    ensures ev_w(o, e).out == o.out + ev_b(o, e), ev_w(o, e).pend is None,
{ reveal(ev_ok); reveal(ev_w); reveal(ev_b); match e { Ev::StructBegin => { assert(o.out + Seq::<u8>::empty() =~= o.out); }, Ev::StructEnd => { assert(o.out + Seq::<u8>::empty() =~= o.out); }, _ => {} } }
proof fn lemma_run_pend(o: OSt, evs: Seq<Ev>, k: nat)
    requires k <= evs.len(), o.pend is None, forall|i: int| 0 <= i < evs.len() ==> ev_ok(run_w(o, evs, i as nat), #[trigger] evs[i]),
    ensures run_w(o, evs, k).pend is None,
    decreases k,
{ if k > 0 { lemma_run_pend(o, evs, (k - 1) as nat); assert(ev_ok(run_w(o, evs, (k - 1) as nat), evs[k - 1])); lemma_ev_out(run_w(o, evs, (k - 1) as nat), evs[k - 1]); } }
proof fn lemma_run_out(o: OSt, evs: Seq<Ev>, k: nat)
    requires k <= evs.len(), o.pend is None, forall|i: int| 0 <= i < evs.len() ==> ev_ok(run_w(o, evs, i as nat), #[trigger] evs[i]),
    ensures run_w(o, evs, evs.len()).out == run_w(o, evs, k).out + run_b(o, evs, k),
    decreases evs.len() - k,
{
    let ok = run_w(o, evs, k);
    if k == evs.len() { assert(ok.out + Seq::<u8>::empty() =~= ok.out); } else {
        lemma_run_pend(o, evs, k);
        assert(ev_ok(run_w(o, evs, k), evs[k as int]));
        lemma_ev_out(ok, evs[k as int]);
        lemma_run_out(o, evs, k + 1);
        let b = ev_b(ok, evs[k as int]);
        assert(ok.out + b + run_b(o, evs, k + 1) =~= ok.out + (b + run_b(o, evs, k + 1)));
    }
}
// ------------------------------------------------------------------ C07: encodings other than the canonical one
/// decoder d takes the bytes b, at cost c, for the value v, whatever follows them
#[verifier::opaque]
pub open spec fn reads<V>(d: spec_fn(St) -> PR<V>, v: V, b: Seq<u8>, c: nat) -> bool {
    forall|s: St| pre(b, s.inp) && s.pend is None && c <= s.rem ==> #[trigger] d(s) == PR::Ok(v, after(s, b.len(), c))
}
pub open spec fn listf<P: Codec>() -> spec_fn(St) -> PR<Seq<P::V>> { |s: St| p_list(s, decf::<P>()) }
pub proof fn reads_canonical<P: Thm>(v: P::V)
    requires P::wfits(v),
    ensures reads(decf::<P>(), v, P::enc(v), P::cost(v)),
{
    reveal(reads);
    assert forall|s: St| pre(P::enc(v), s.inp) && s.pend is None && P::cost(v) <= s.rem implies #[trigger] decf::<P>()(s) == PR::Ok(v, after(s, P::enc(v).len(), P::cost(v))) by { P::rt(v, s); }
}
pub proof fn reads_canonical_list<P: Thm>(ty: TType, xs: Seq<P::V>)
    requires list_fits::<P>(xs), cvalid(ty),
    ensures reads(listf::<P>(), xs, list_enc::<P>(ty, xs), list_cost::<P>(xs)),
{
    reveal(reads);
    let b = list_enc::<P>(ty, xs);
    assert forall|s: St| pre(b, s.inp) && s.pend is None && list_cost::<P>(xs) <= s.rem implies #[trigger] listf::<P>()(s) == PR::Ok(xs, after(s, b.len(), list_cost::<P>(xs))) by { r_list::<P>(s, ty, xs); }
}
/// list headers, in the short or the long form
pub open spec fn list_hdrx(ty: TType, n: nat, long: bool) -> Seq<u8> { if long { seq![(0xF0 + ccode(ty)) as u8] + uenc(n) } else { list_hdr(ty, n) } }
pub proof fn r_list_beginx(st: St, ty: TType, n: nat, long: bool)
    requires pre(list_hdrx(ty, n, long), st.inp), cvalid(ty), fits(n), 8 * n <= st.rem,
    ensures p_list_begin(st) == PR::Ok(LV { ty, size: n as u32 }, after(st, list_hdrx(ty, n, long).len(), 8 * n)), list_hdrx(ty, n, long).len() > 0,
{
    if long {
        let h = (0xF0 + ccode(ty)) as u8;
        lemma_pre_cat(seq![h], uenc(n), st.inp);
        r_byte(st, h);
        r_u32(adv(st, 1), n as u32);
    } else { r_list_begin(st, ty, n); }
}
pub open spec fn flat(bs: Seq<Seq<u8>>, k: nat) -> Seq<u8> decreases bs.len() - k { if k >= bs.len() { Seq::empty() } else { bs[k as int] + flat(bs, k + 1) } }
proof fn r_nx<V>(st: St, d: spec_fn(St) -> PR<V>, xs: Seq<V>, bs: Seq<Seq<u8>>, cs: Seq<nat>, k: nat)
    requires k <= xs.len(), bs.len() == xs.len(), cs.len() == xs.len(), pre(flat(bs, k), st.inp), st.pend is None, sum(cs, k) <= st.rem,
        forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() ==> reads(d, xs[i], bs[i], cs[i]),
    ensures p_n(st, (xs.len() - k) as nat, xs.take(k as int), d) == PR::Ok(xs, after(st, flat(bs, k).len(), sum(cs, k))),
    decreases xs.len() - k,
{
    if k == xs.len() { assert(xs.take(k as int) =~= xs); assert(st.inp.skip(0) =~= st.inp); } else {
        let a = bs[k as int];
        lemma_pre_cat(a, flat(bs, k + 1), st.inp);
        assert(reads(d, xs[k as int], bs[k as int], cs[k as int]));
        reveal(reads);
        assert(d(st) == PR::Ok(xs[k as int], after(st, a.len(), cs[k as int])));
        r_nx(after(st, a.len(), cs[k as int]), d, xs, bs, cs, k + 1);
        assert(xs.take(k as int).push(xs[k as int]) =~= xs.take(k as int + 1));
    }
}
/// a list of such encodings, under either header
pub proof fn reads_list<P: Codec>(ty: TType, xs: Seq<P::V>, bs: Seq<Seq<u8>>, cs: Seq<nat>, long: bool)
    requires fits(xs.len()), cvalid(ty), bs.len() == xs.len(), cs.len() == xs.len(), forall|i: int| #![trigger xs[i]] 0 <= i < xs.len() ==> reads(decf::<P>(), xs[i], bs[i], cs[i]),
    ensures reads(listf::<P>(), xs, list_hdrx(ty, xs.len(), long) + flat(bs, 0), 8 * xs.len() + sum(cs, 0)),
{
    reveal(reads);
    let h = list_hdrx(ty, xs.len(), long);
    let b = h + flat(bs, 0);
    let c = 8 * xs.len() + sum(cs, 0);
    assert forall|s: St| pre(b, s.inp) && s.pend is None && c <= s.rem implies #[trigger] listf::<P>()(s) == PR::Ok(xs, after(s, b.len(), c)) by {
        lemma_pre_cat(h, flat(bs, 0), s.inp);
        r_list_beginx(s, ty, xs.len(), long);
        r_nx(after(s, h.len(), 8 * xs.len()), decf::<P>(), xs, bs, cs, 0);
        assert(xs.take(0) =~= Seq::<P::V>::empty());
    }
}
/// one field of such an encoding: its payload, header form, cost, and depth
pub struct It { pub f: WF, pub long: bool, pub c: nat, pub dep: nat }
pub open spec fn wid(f: WF) -> i16 { match f { WF::F(_, id, _) => id, WF::B(id, _) => id } }
pub open spec fn hdrx(last: i16, code: u8, id: i16, long: bool) -> Seq<u8> { if long { seq![code] + ienc(id as int) } else { hdr(last, code, id) } }
pub open spec fn it_bytes(last: i16, it: It) -> Seq<u8> {
    match it.f { WF::F(ty, id, b) => hdrx(last, tcode(ty), id, it.long) + b, WF::B(id, v) => hdrx(last, if v { 1 } else { 2 }, id, it.long) }
}
pub open spec fn its_bytes(its: Seq<It>, k: nat, last: i16) -> Seq<u8> decreases its.len() - k {
    if k >= its.len() { seq![0u8] } else { it_bytes(last, its[k as int]) + its_bytes(its, k + 1, wid(its[k as int].f)) }
}
pub open spec fn its_last(its: Seq<It>, k: nat, last: i16) -> i16 { if k >= its.len() { last } else { wid(its.last().f) } }
pub open spec fn its_cost(its: Seq<It>, k: nat) -> nat decreases its.len() - k { if k >= its.len() { 0 } else { its[k as int].c + its_cost(its, k + 1) } }
pub open spec fn its_depth(its: Seq<It>, k: nat) -> nat decreases its.len() - k { if k >= its.len() { 0 } else { let a = its[k as int].dep; let b = its_depth(its, k + 1); if a > b { a } else { b } } }
pub open spec fn struct_bytes(its: Seq<It>) -> Seq<u8> { its_bytes(its, 0, 0) }
proof fn r_fieldx(st: St, ty: TType, id: i16, long: bool)
    requires pre(hdrx(st.last, tcode(ty), id, long), st.inp), tvalid(ty), ty != TType::Stop, ty != TType::Bool,
    ensures p_field_begin(st) == PR::Ok(FV { ty, id: Some(id) }, St { last: id, ..adv(st, hdrx(st.last, tcode(ty), id, long).len() as int) }), hdrx(st.last, tcode(ty), id, long).len() > 0,
{
    if long {
        let c = tcode(ty);
        lemma_pre_cat(seq![c], ienc(id as int), st.inp);
        r_byte(st, c);
        r_i16(adv(st, 1), id);
        assert(c % 16 == c && c / 16 == 0) by (nonlinear_arith) requires 0 <= c < 16;
    } else { r_field(st, ty, id); }
}
proof fn r_field_boolx(st: St, v: bool, id: i16, long: bool)
    requires pre(hdrx(st.last, if v { 1 } else { 2 }, id, long), st.inp),
    ensures p_field_begin(st) == PR::Ok(FV { ty: TType::Bool, id: Some(id) }, St { last: id, pend: Some(v), ..adv(st, hdrx(st.last, if v { 1 } else { 2 }, id, long).len() as int) }), hdrx(st.last, if v { 1 } else { 2 }, id, long).len() > 0,
{
    if long {
        let c: u8 = if v { 1 } else { 2 };
        lemma_pre_cat(seq![c], ienc(id as int), st.inp);
        r_byte(st, c);
        r_i16(St { pend: Some(v), ..adv(st, 1) }, id);
        assert(c % 16 == c && c / 16 == 0) by (nonlinear_arith) requires 0 <= c < 16;
    } else { r_field_bool(st, v, id); }
}
pub proof fn r_its<A>(st: St, its: Seq<It>, accs: Seq<A>, k: nat, step: spec_fn(FV, St, A) -> PR<A>)
    requires
        k <= its.len(), accs.len() == its.len() + 1,
        forall|i: int| #![trigger its[i]] 0 <= i < its.len() ==> fld_ok(Some(its[i].f), accs[i], accs[i + 1], its[i].c, step),
        pre(its_bytes(its, k, st.last), st.inp), st.pend is None, its_cost(its, k) <= st.rem,
    ensures p_fields(st, accs[k as int], step) == PR::Ok(accs[its.len() as int], St { last: its_last(its, k, st.last), ..after(st, its_bytes(its, k, st.last).len(), its_cost(its, k)) }),
    decreases its.len() - k,
{
    if k == its.len() { r_stop(st); } else {
        let it = its[k as int];
        let b = it_bytes(st.last, it);
        lemma_pre_cat(b, its_bytes(its, k + 1, wid(it.f)), st.inp);
        assert(fld_ok(Some(its[k as int].f), accs[k as int], accs[k as int + 1], its[k as int].c, step));
        reveal(fld_ok);
        match it.f {
            WF::F(ty, id, p) => {
                let h = hdrx(st.last, tcode(ty), id, it.long);
                lemma_pre_cat(h, p, st.inp);
                r_fieldx(st, ty, id, it.long);
                let s = St { last: id, ..adv(st, h.len() as int) };
                let s2 = after(s, p.len(), it.c);
                assert(step(FV { ty, id: Some(id) }, s, accs[k as int]) == PR::Ok(accs[k as int + 1], s2));
                r_its(s2, its, accs, k + 1, step);
            },
            WF::B(id, v) => {
                let h = hdrx(st.last, if v { 1 } else { 2 }, id, it.long);
                r_field_boolx(st, v, id, it.long);
                let s = St { last: id, pend: Some(v), ..adv(st, h.len() as int) };
                let s2 = St { pend: None, ..s };
                assert(step(FV { ty: TType::Bool, id: Some(id) }, s, accs[k as int]) == PR::Ok(accs[k as int + 1], s2));
                r_its(s2, its, accs, k + 1, step);
            },
        }
    }
}
/// a struct of such fields, up to what its end makes of the accumulator
pub proof fn r_its_struct<A>(st: St, its: Seq<It>, accs: Seq<A>, step: spec_fn(FV, St, A) -> PR<A>)
    requires
        accs.len() == its.len() + 1,
        forall|i: int| #![trigger its[i]] 0 <= i < its.len() ==> fld_ok(Some(its[i].f), accs[i], accs[i + 1], its[i].c, step),
        pre(struct_bytes(its), st.inp), st.pend is None, 2 + its_cost(its, 0) <= st.rem,
    ensures ({
        let s0 = St { rem: (st.rem - 2) as usize, stack: st.stack.push(st.last), last: 0, ..st };
        let s1 = St { last: its_last(its, 0, 0), ..after(s0, struct_bytes(its).len(), its_cost(its, 0)) };
        p_struct_begin(st) == PR::<Option<()>>::Ok(None, s0) && p_fields(s0, accs[0], step) == PR::Ok(accs[its.len() as int], s1)
            && p_struct_end(s1) == PR::<()>::Ok((), after(st, struct_bytes(its).len(), 2 + its_cost(its, 0)))
    }),
{
    let s0 = St { rem: (st.rem - 2) as usize, stack: st.stack.push(st.last), last: 0, ..st };
    r_its(s0, its, accs, 0, step);
    assert(st.stack.push(st.last).drop_last() =~= st.stack);
}
/// some field among the first j has this id
#[verifier::opaque]
pub open spec fn seen(its: Seq<It>, j: int, id: i16) -> bool { exists|m: int| 0 <= m < j && wid((#[trigger] its[m]).f) == id }
pub proof fn lemma_seen(its: Seq<It>, j: int, id: i16)
    requires 0 <= j < its.len(),
    ensures seen(its, j + 1, id) == (seen(its, j, id) || wid(its[j].f) == id),
{
    reveal(seen);
    if wid(its[j].f) == id { assert(seen(its, j + 1, id)); }
    if seen(its, j, id) { let m = choose|m: int| 0 <= m < j && wid((#[trigger] its[m]).f) == id; assert(0 <= m < j + 1 && wid(its[m].f) == id); }
}
pub proof fn lemma_seen0(its: Seq<It>) ensures forall|id: i16| !#[trigger] seen(its, 0, id) { reveal(seen); }
/// a field no reader of the type knows, of any kind that can be skipped, nested no deeper than readers allow
pub open spec fn unknown_it(it: It) -> bool { sk_ok(Some(it.f), it.c, it.dep) && it.dep <= 64 }
/// it leaves an accumulator alone if the step skips it
pub proof fn fld_unknown<A>(it: It, a: A, step: spec_fn(FV, St, A) -> PR<A>)
    requires unknown_it(it), forall|f: FV, s: St| f.id == Some(wid(it.f)) ==> #[trigger] step(f, s, a) == (match p_skip(s, f.ty, 64) { PR::Err(e) => PR::<A>::Err(e), PR::Ok(_, s) => PR::<A>::Ok(a, s) }),
    ensures fld_ok(Some(it.f), a, a, it.c, step),
{
    reveal(fld_ok); reveal(sk_ok);
    match it.f {
        WF::F(ty, id, b) => {
            assert forall|s: St| pre(b, s.inp) && s.pend is None && it.c <= s.rem implies #[trigger] step(FV { ty, id: Some(id) }, s, a) == PR::Ok(a, after(s, b.len(), it.c)) by {
                assert(p_skip(s, ty, 64) == sk_res(s, b.len(), it.c, it.dep, 64));
            }
        },
        WF::B(id, v) => {
            assert forall|s: St| s.pend == Some(v) implies #[trigger] step(FV { ty: TType::Bool, id: Some(id) }, s, a) == PR::Ok(a, St { pend: None, ..s }) by { lemma_skip(s, TType::Bool, 64); }
        },
    }
}
// ------------------------------------------------------------------ C14: which byte strings skipping passes
/// the bytes b are a value of kind ty: skipping takes exactly them, or refuses them for their depth
#[verifier::opaque]
pub open spec fn skips(ty: TType, b: Seq<u8>, c: nat, dep: nat) -> bool {
    forall|s: St, d: nat| pre(b, s.inp) && s.pend is None && c <= s.rem ==> #[trigger] p_skip(s, ty, d) == sk_res(s, b.len(), c, dep, d)
}
pub proof fn skips_typed<P: Thm>(v: P::V)
    requires P::wfits(v),
    ensures skips(P::tt(), P::enc(v), P::cost(v), P::depth(v)),
{
    reveal(skips);
    assert forall|s: St, d: nat| pre(P::enc(v), s.inp) && s.pend is None && P::cost(v) <= s.rem implies #[trigger] p_skip(s, P::tt(), d) == sk_res(s, P::enc(v).len(), P::cost(v), P::depth(v), d) by { P::skip_rt(v, s, d); }
}
pub proof fn skips_double(f: f64)
    ensures skips(TType::Double, f64_le(f), 0, 1),
{
    reveal(skips);
    assert forall|s: St, d: nat| pre(f64_le(f), s.inp) && s.pend is None implies #[trigger] p_skip(s, TType::Double, d) == sk_res(s, f64_le(f).len(), 0, 1, d) by {
        r_double(s, f); if d == 0 { lemma_skip0(s, TType::Double); } else { lemma_skip(s, TType::Double, d); }
    }
}
pub open spec fn nmax(a: nat, b: nat) -> nat { if a > b { a } else { b } }
proof fn r_skip_nx(st: St, ty: TType, bs: Seq<Seq<u8>>, cs: Seq<nat>, ds: Seq<nat>, k: nat, d: nat)
    requires k <= bs.len(), cs.len() == bs.len(), ds.len() == bs.len(), pre(flat(bs, k), st.inp), st.pend is None, sum(cs, k) <= st.rem,
        forall|i: int| #![trigger bs[i]] 0 <= i < bs.len() ==> skips(ty, bs[i], cs[i], ds[i]),
    ensures p_skip_n(st, (bs.len() - k) as nat, ty, d) == sk_res(st, flat(bs, k).len(), sum(cs, k), maxd(ds, k), d),
    decreases bs.len() - k,
{
    lemma_skip_n(st, (bs.len() - k) as nat, ty, d);
    if k == bs.len() { assert(st.inp.skip(0) =~= st.inp); } else {
        lemma_pre_cat(bs[k as int], flat(bs, k + 1), st.inp);
        assert(skips(ty, bs[k as int], cs[k as int], ds[k as int]));
        reveal(skips);
        assert(p_skip(st, ty, d) == sk_res(st, bs[k as int].len(), cs[k as int], ds[k as int], d));
        r_skip_nx(after(st, bs[k as int].len(), cs[k as int]), ty, bs, cs, ds, k + 1, d);
    }
}
pub proof fn skips_list(set: bool, ty: TType, bs: Seq<Seq<u8>>, cs: Seq<nat>, ds: Seq<nat>, long: bool)
    requires cvalid(ty), fits(bs.len()), cs.len() == bs.len(), ds.len() == bs.len(), forall|i: int| #![trigger bs[i]] 0 <= i < bs.len() ==> skips(ty, bs[i], cs[i], ds[i]),
    ensures skips(if set { TType::Set } else { TType::List }, list_hdrx(ty, bs.len(), long) + flat(bs, 0), 8 * bs.len() + sum(cs, 0), 1 + maxd(ds, 0)),
{
    let lt = if set { TType::Set } else { TType::List };
    let h = list_hdrx(ty, bs.len(), long);
    let b = h + flat(bs, 0);
    let c = 8 * bs.len() + sum(cs, 0);
    reveal(skips);
    assert forall|s: St, d: nat| pre(b, s.inp) && s.pend is None && c <= s.rem implies #[trigger] p_skip(s, lt, d) == sk_res(s, b.len(), c, 1 + maxd(ds, 0), d) by {
        if d == 0 { lemma_skip0(s, lt); } else {
            lemma_skip(s, lt, d);
            lemma_pre_cat(h, flat(bs, 0), s.inp);
            r_list_beginx(s, ty, bs.len(), long);
            r_skip_nx(after(s, h.len(), 8 * bs.len()), ty, bs, cs, ds, 0, (d - 1) as nat);
        }
    }
}
/// keys and values, alternating
pub open spec fn flat2(ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, k: nat) -> Seq<u8> decreases ks.len() - k { if k >= ks.len() { Seq::empty() } else { ks[k as int] + (vs[k as int] + flat2(ks, vs, k + 1)) } }
proof fn r_skip_kvx(st: St, kt: TType, vt: TType, ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, kc: Seq<nat>, vc: Seq<nat>, kd: Seq<nat>, vd: Seq<nat>, k: nat, d: nat)
    requires k <= ks.len(), vs.len() == ks.len(), kc.len() == ks.len(), vc.len() == ks.len(), kd.len() == ks.len(), vd.len() == ks.len(),
        pre(flat2(ks, vs, k), st.inp), st.pend is None, sum(kc, k) + sum(vc, k) <= st.rem,
        forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() ==> skips(kt, ks[i], kc[i], kd[i]),
        forall|i: int| #![trigger vs[i]] 0 <= i < ks.len() ==> skips(vt, vs[i], vc[i], vd[i]),
    ensures p_skip_kv(st, (ks.len() - k) as nat, kt, vt, d) == sk_res(st, flat2(ks, vs, k).len(), sum(kc, k) + sum(vc, k), nmax(maxd(kd, k), maxd(vd, k)), d),
    decreases ks.len() - k,
{
    lemma_skip_kv(st, (ks.len() - k) as nat, kt, vt, d);
    if k == ks.len() { assert(st.inp.skip(0) =~= st.inp); } else {
        let (a, b) = (ks[k as int], vs[k as int]);
        lemma_pre_cat(a, b + flat2(ks, vs, k + 1), st.inp);
        assert(skips(kt, ks[k as int], kc[k as int], kd[k as int]));
        assert(skips(vt, vs[k as int], vc[k as int], vd[k as int]));
        reveal(skips);
        assert(p_skip(st, kt, d) == sk_res(st, a.len(), kc[k as int], kd[k as int], d));
        let s = after(st, a.len(), kc[k as int]);
        lemma_pre_cat(b, flat2(ks, vs, k + 1), s.inp);
        assert(p_skip(s, vt, d) == sk_res(s, b.len(), vc[k as int], vd[k as int], d));
        let s2 = after(s, b.len(), vc[k as int]);
        r_skip_kvx(s2, kt, vt, ks, vs, kc, vc, kd, vd, k + 1, d);
    }
}
pub proof fn skips_map(kt: TType, vt: TType, ks: Seq<Seq<u8>>, vs: Seq<Seq<u8>>, kc: Seq<nat>, vc: Seq<nat>, kd: Seq<nat>, vd: Seq<nat>)
    requires cvalid(kt), cvalid(vt), fits(ks.len()), vs.len() == ks.len(), kc.len() == ks.len(), vc.len() == ks.len(), kd.len() == ks.len(), vd.len() == ks.len(),
        forall|i: int| #![trigger ks[i]] 0 <= i < ks.len() ==> skips(kt, ks[i], kc[i], kd[i]),
        forall|i: int| #![trigger vs[i]] 0 <= i < ks.len() ==> skips(vt, vs[i], vc[i], vd[i]),
    ensures skips(TType::Map, map_hdr(Some(kt), Some(vt), ks.len()) + flat2(ks, vs, 0), 8 * ks.len() + sum(kc, 0) + sum(vc, 0), 1 + nmax(maxd(kd, 0), maxd(vd, 0))),
{
    let h = map_hdr(Some(kt), Some(vt), ks.len());
    let b = h + flat2(ks, vs, 0);
    let c = 8 * ks.len() + sum(kc, 0) + sum(vc, 0);
    let dep = 1 + nmax(maxd(kd, 0), maxd(vd, 0));
    reveal(skips);
    assert forall|s: St, d: nat| pre(b, s.inp) && s.pend is None && c <= s.rem implies #[trigger] p_skip(s, TType::Map, d) == sk_res(s, b.len(), c, dep, d) by {
        if d == 0 { lemma_skip0(s, TType::Map); } else {
            lemma_skip(s, TType::Map, d);
            lemma_pre_cat(h, flat2(ks, vs, 0), s.inp);
            r_map_begin(s, kt, vt, ks.len());
            let s1 = after(s, h.len(), 8 * ks.len());
            if ks.len() == 0 {
                let m = MV { k: None, v: None, size: 0 };
                lemma_skip_kv(s1, 0, m.k->0, m.v->0, (d - 1) as nat);
                assert(s1.inp.skip(0) =~= s1.inp);
            } else { r_skip_kvx(s1, kt, vt, ks, vs, kc, vc, kd, vd, 0, (d - 1) as nat); }
        }
    }
}
proof fn r_skip_its(st: St, its: Seq<It>, k: nat, d: nat)
    requires
        k <= its.len(), forall|i: int| #![trigger its[i]] 0 <= i < its.len() ==> sk_ok(Some(its[i].f), its[i].c, its[i].dep),
        pre(its_bytes(its, k, st.last), st.inp), st.pend is None, its_cost(its, k) <= st.rem,
    ensures p_skip_fields(st, d) == (if d >= its_depth(its, k) { PR::<()>::Ok((), St { last: st.stack.last(), stack: st.stack.drop_last(), ..after(st, its_bytes(its, k, st.last).len(), its_cost(its, k)) }) } else { PR::<()>::Err(e_depth()) }),
    decreases its.len() - k,
{
    lemma_skip_fields(st, d);
    if k == its.len() { r_stop(st); } else {
        let it = its[k as int];
        let b = it_bytes(st.last, it);
        lemma_pre_cat(b, its_bytes(its, k + 1, wid(it.f)), st.inp);
        assert(sk_ok(Some(its[k as int].f), its[k as int].c, its[k as int].dep));
        reveal(sk_ok);
        match it.f {
            WF::F(ty, id, p) => {
                let h = hdrx(st.last, tcode(ty), id, it.long);
                lemma_pre_cat(h, p, st.inp);
                r_fieldx(st, ty, id, it.long);
                let s = St { last: id, ..adv(st, h.len() as int) };
                assert(p_skip(s, ty, d) == sk_res(s, p.len(), it.c, it.dep, d));
                r_skip_its(after(s, p.len(), it.c), its, k + 1, d);
            },
            WF::B(id, v) => {
                let h = hdrx(st.last, if v { 1 } else { 2 }, id, it.long);
                r_field_boolx(st, v, id, it.long);
                let s = St { last: id, pend: Some(v), ..adv(st, h.len() as int) };
                if d == 0 { lemma_skip0(s, TType::Bool); } else { lemma_skip(s, TType::Bool, d); r_skip_its(St { pend: None, ..s }, its, k + 1, d); }
            },
        }
    }
}
pub proof fn skips_struct(its: Seq<It>)
    requires forall|i: int| #![trigger its[i]] 0 <= i < its.len() ==> sk_ok(Some(its[i].f), its[i].c, its[i].dep),
    ensures skips(TType::Struct, struct_bytes(its), 2 + its_cost(its, 0), 1 + its_depth(its, 0)),
{
    reveal(skips);
    let b = struct_bytes(its);
    let c = 2 + its_cost(its, 0);
    assert forall|s: St, d: nat| pre(b, s.inp) && s.pend is None && c <= s.rem implies #[trigger] p_skip(s, TType::Struct, d) == sk_res(s, b.len(), c, 1 + its_depth(its, 0), d) by {
        if d == 0 { lemma_skip0(s, TType::Struct); } else {
            lemma_skip(s, TType::Struct, d);
            let s0 = St { rem: (s.rem - 2) as usize, stack: s.stack.push(s.last), last: 0, ..s };
            r_skip_its(s0, its, 0, (d - 1) as nat);
            assert(s.stack.push(s.last).drop_last() =~= s.stack);
        }
    }
}
/// a field whose payload is such a value, or a boolean field, can be skipped
pub proof fn sk_field(it: It)
    requires match it.f { WF::F(ty, id, b) => tvalid(ty) && ty != TType::Stop && ty != TType::Bool && skips(ty, b, it.c, it.dep), WF::B(id, v) => it.c == 0 && it.dep == 1 },
    ensures sk_ok(Some(it.f), it.c, it.dep),
{ reveal(skips); reveal(sk_ok); }
/// a limit of zero refuses everything, whatever the input
pub proof fn thm_skip_zero(st: St, ty: TType) ensures p_skip(st, ty, 0) == PR::<()>::Err(e_depth()) { lemma_skip0(st, ty); }
// ------------------------------------------------------------------ C08, C09: which fields the input carries
/// the ids of the fields, in order, as far as reading gets
pub open spec fn p_ids<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>) -> Seq<i16> decreases st.inp.len() {
    match p_field_begin(st) {
        PR::Err(e) => Seq::empty(),
        PR::Ok(f, s) => if f.ty == TType::Stop { Seq::empty() } else {
            match step(f, s, a) {
                PR::Err(e) => Seq::empty(),
                PR::Ok(a2, s2) => if s2.inp.len() < st.inp.len() { seq![f.id->0] + p_ids(s2, a2, step) } else { Seq::empty() },
            }
        },
    }
}
pub proof fn lemma_trace<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>, known: spec_fn(i16) -> bool, has: spec_fn(A) -> bool)
    requires forall|f: FV, s: St, a: A| (#[trigger] step(f, s, a)) is Ok ==> has(step(f, s, a)->Ok_0) == (has(a) || known(f.id->0)),
    ensures p_fields(st, a, step) is Ok ==> has(p_fields(st, a, step)->Ok_0) == (has(a) || exists|i: int| 0 <= i < p_ids(st, a, step).len() && known(#[trigger] p_ids(st, a, step)[i])),
    decreases st.inp.len(),
{
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty != TType::Stop {
            if let PR::Ok(a2, s2) = step(f, s, a) {
                if s2.inp.len() < st.inp.len() {
                    lemma_trace(s2, a2, step, known, has);
                    let (x, y) = (p_ids(st, a, step), p_ids(s2, a2, step));
                    assert(x == seq![f.id->0] + y);
                    assert(has(a2) == (has(a) || known(f.id->0)));
                    if known(f.id->0) { assert(known(x[0])); }
                    if exists|i: int| 0 <= i < y.len() && known(#[trigger] y[i]) { let i = choose|i: int| 0 <= i < y.len() && known(#[trigger] y[i]); assert(x[i + 1] == y[i]); }
                    if exists|i: int| 0 <= i < x.len() && known(#[trigger] x[i]) { let i = choose|i: int| 0 <= i < x.len() && known(#[trigger] x[i]); if i > 0 { assert(y[i - 1] == x[i]); } }
                }
            }
        }
    }
}
/// the field of this id was carried exactly if the accumulator has it
pub proof fn lemma_carried<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>, id: i16, has: spec_fn(A) -> bool)
    requires has(a) == false, forall|f: FV, s: St, a: A| (#[trigger] step(f, s, a)) is Ok ==> has(step(f, s, a)->Ok_0) == (has(a) || f.id->0 == id),
    ensures p_fields(st, a, step) is Ok ==> has(p_fields(st, a, step)->Ok_0) == p_ids(st, a, step).contains(id),
{
    let known = |i: i16| i == id;
    let ids = p_ids(st, a, step);
    lemma_trace(st, a, step, known, has);
    if ids.contains(id) { let i = choose|i: int| 0 <= i < ids.len() && ids[i] == id; assert(known(ids[i])); }
}
pub proof fn lemma_count<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>, cnt: spec_fn(A) -> nat)
    requires forall|f: FV, s: St, a: A| (#[trigger] step(f, s, a)) is Ok ==> cnt(step(f, s, a)->Ok_0) == cnt(a) + 1,
    ensures p_fields(st, a, step) is Ok ==> cnt(p_fields(st, a, step)->Ok_0) == cnt(a) + p_ids(st, a, step).len(),
    decreases st.inp.len(),
{
    if let PR::Ok(f, s) = p_field_begin(st) {
        if f.ty != TType::Stop {
            if let PR::Ok(a2, s2) = step(f, s, a) {
                if s2.inp.len() < st.inp.len() { lemma_count(s2, a2, step, cnt); assert(p_ids(st, a, step) == seq![f.id->0] + p_ids(s2, a2, step)); }
            }
        }
    }
}
/// with one field only, what the step makes of it is the result
pub proof fn lemma_single<A>(st: St, a: A, step: spec_fn(FV, St, A) -> PR<A>)
    requires p_ids(st, a, step).len() == 1, p_fields(st, a, step) is Ok,
    ensures ({
        let f = p_field_begin(st)->Ok_0;
        let s = p_field_begin(st)->Ok_1;
        p_field_begin(st) is Ok && step(f, s, a) is Ok && p_fields(st, a, step)->Ok_0 == step(f, s, a)->Ok_0 && p_ids(st, a, step)[0] == f.id->0
    }),
{
    if let PR::Ok(f, s) = p_field_begin(st) { if f.ty != TType::Stop { if let PR::Ok(a2, s2) = step(f, s, a) { if s2.inp.len() < st.inp.len() {
        assert(p_ids(st, a, step) == seq![f.id->0] + p_ids(s2, a2, step));
        assert((seq![f.id->0] + p_ids(s2, a2, step))[0] == f.id->0);
        assert(p_fields(st, a, step) == p_fields(s2, a2, step));
        assert(p_ids(s2, a2, step).len() == 0);
        if let PR::Ok(f3, s3) = p_field_begin(s2) { if f3.ty != TType::Stop { if let PR::Ok(a4, s4) = step(f3, s3, a2) { if s4.inp.len() < s2.inp.len() { assert(p_ids(s2, a2, step) == seq![f3.id->0] + p_ids(s4, a4, step)); } } } }
    } } } }
}
// ------------------------------------------------------------------ C17: application errors
pub open spec fn app_its(a: AE) -> Seq<It> {
    seq![It { f: WF::F(TType::String, 1, bytes_enc(encode_utf8(a.message))), long: false, c: encode_utf8(a.message).len(), dep: 1 },
        It { f: WF::F(TType::I32, 2, ienc(acode(a.kind))), long: false, c: 0, dep: 1 }]
}
pub open spec fn app_step() -> spec_fn(FV, St, AE) -> PR<AE> {
    |f: FV, s: St, a: AE|
        if f.id->0 == 1 { match p_string(s) { PR::Err(e) => PR::Err(e), PR::Ok(m, s) => PR::Ok(AE { message: m, ..a }, s) } }
        else if f.id->0 == 2 { match p_vi::<i32>(s) { PR::Err(e) => PR::Err(e), PR::Ok(k, s) => PR::Ok(AE { kind: match akind_of(k) { Some(k) => k, None => crate::thrift::ApplicationErrorKind::Unknown }, ..a }, s) } }
        else { match p_skip(s, f.ty, 64) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(a, s) } }
}
/// the reader of application errors is the reader of a struct with two optional fields
pub proof fn lemma_app_loop(st: St, a: AE)
    ensures p_app_loop(st, a) == (match p_fields(st, a, app_step()) { PR::Err(e) => PR::<AE>::Err(e), PR::Ok(a, s) => match p_struct_end(s) { PR::Err(e) => PR::<AE>::Err(e), PR::Ok(_, s) => PR::<AE>::Ok(a, s) } }),
    decreases st.inp.len(),
{
    if let PR::Ok(f, s) = p_field_begin(st) { if f.ty != TType::Stop { if let PR::Ok(a2, s2) = app_step()(f, s, a) { if s2.inp.len() < st.inp.len() { lemma_app_loop(s2, a2); } } } }
}
pub open spec fn app0() -> AE { AE { kind: crate::thrift::ApplicationErrorKind::Unknown, message: general_msg() } }
/// one field of an application error: a message, a kind (or a code no kind has), or something unknown
pub open spec fn app_it(it: It, a: AE, a2: AE) -> bool {
    ||| exists|m: Seq<char>| it.f == WF::F(TType::String, 1, #[trigger] bytes_enc(encode_utf8(m))) && fits(encode_utf8(m).len()) && it.c == encode_utf8(m).len() && a2 == (AE { message: m, ..a })
    ||| exists|k: i32| it.f == WF::F(TType::I32, 2, #[trigger] ienc(k as int)) && it.c == 0 && a2 == (AE { kind: match akind_of(k) { Some(k) => k, None => crate::thrift::ApplicationErrorKind::Unknown }, ..a })
    ||| wid(it.f) != 1 && wid(it.f) != 2 && unknown_it(it) && a2 == a
}
proof fn lemma_app_it(it: It, a: AE, a2: AE)
    requires app_it(it, a, a2),
    ensures fld_ok(Some(it.f), a, a2, it.c, app_step()),
{
    if exists|m: Seq<char>| it.f == WF::F(TType::String, 1, #[trigger] bytes_enc(encode_utf8(m))) && fits(encode_utf8(m).len()) && it.c == encode_utf8(m).len() && a2 == (AE { message: m, ..a }) {
        reveal(fld_ok);
        let m = choose|m: Seq<char>| it.f == WF::F(TType::String, 1, #[trigger] bytes_enc(encode_utf8(m))) && fits(encode_utf8(m).len()) && it.c == encode_utf8(m).len() && a2 == (AE { message: m, ..a });
        let b = bytes_enc(encode_utf8(m));
        assert forall|s: St| pre(b, s.inp) && s.pend is None && it.c <= s.rem implies #[trigger] app_step()(FV { ty: TType::String, id: Some(1) }, s, a) == PR::Ok(a2, after(s, b.len(), it.c)) by { r_string(s, m); }
    } else if exists|k: i32| it.f == WF::F(TType::I32, 2, #[trigger] ienc(k as int)) && it.c == 0 && a2 == (AE { kind: match akind_of(k) { Some(k) => k, None => crate::thrift::ApplicationErrorKind::Unknown }, ..a }) {
        reveal(fld_ok);
        let k = choose|k: i32| it.f == WF::F(TType::I32, 2, #[trigger] ienc(k as int)) && it.c == 0 && a2 == (AE { kind: match akind_of(k) { Some(k) => k, None => crate::thrift::ApplicationErrorKind::Unknown }, ..a });
        let b = ienc(k as int);
        assert forall|s: St| pre(b, s.inp) && s.pend is None && it.c <= s.rem implies #[trigger] app_step()(FV { ty: TType::I32, id: Some(2) }, s, a) == PR::Ok(a2, after(s, b.len(), it.c)) by { r_i32(s, k); }
    } else { fld_unknown(it, a, app_step()); }
}
/// C17: fields in any order, any number of times, with unknown ones among them: the last message and the last kind count,
/// the defaults stand where there is none
pub proof fn thm_app(its: Seq<It>, accs: Seq<AE>, st: St)
    requires accs.len() == its.len() + 1, accs[0] == app0(), forall|i: int| #![trigger its[i]] 0 <= i < its.len() ==> app_it(its[i], accs[i], accs[i + 1]),
        pre(struct_bytes(its), st.inp), st.pend is None, 2 + its_cost(its, 0) <= st.rem,
    ensures p_app(st) == PR::Ok(accs[its.len() as int], after(st, struct_bytes(its).len(), 2 + its_cost(its, 0))),
{
    assert forall|i: int| #![trigger its[i]] 0 <= i < its.len() implies fld_ok(Some(its[i].f), accs[i], accs[i + 1], its[i].c, app_step()) by { lemma_app_it(its[i], accs[i], accs[i + 1]); }
    r_its_struct(st, its, accs, app_step());
    let s0 = p_struct_begin(st)->Ok_1;
    lemma_app_loop(s0, app0());
}
/// C17: what is written is read back
pub proof fn thm_app_round_trip(a: AE, o: OSt, st: St, tail: Seq<u8>)
    requires fits(encode_utf8(a.message).len()), w_app(o, a).out + tail == o.out + st.inp, st.pend is None, 2 + encode_utf8(a.message).len() <= st.rem, o.pend is None,
    ensures p_app(st) == PR::Ok(a, St { inp: tail, rem: (st.rem - 2 - encode_utf8(a.message).len()) as usize, ..st }),
{
    let its = app_its(a);
    let a1 = AE { message: a.message, ..app0() };
    let accs = seq![app0(), a1, a];
    let k = acode(a.kind) as i32;
    assert(akind_of(k) == Some(a.kind));
    assert(its[0].f == WF::F(TType::String, 1, bytes_enc(encode_utf8(a.message))));
    assert(its[1].f == WF::F(TType::I32, 2, ienc(k as int)));
    assert(app_it(its[0], accs[0], accs[1]));
    assert(app_it(its[1], accs[1], accs[2]));
    let b = struct_bytes(its);
    reveal_with_fuel(its_bytes, 4); reveal_with_fuel(its_cost, 4);
    let b0 = hdr(0, 8, 1); let b1 = bytes_enc(encode_utf8(a.message)); let b2 = hdr(1, 5, 2); let b3 = ienc(acode(a.kind));
    assert(b =~= (b0 + b1) + ((b2 + b3) + seq![0u8]));
    assert(w_app(o, a).out =~= o.out + b);
    assert(st.inp =~= (o.out + st.inp).skip(o.out.len() as int));
    assert(st.inp =~= b + tail);
    lemma_pre_app(b, tail);
    thm_app(its, accs, st);
}
} // thm
