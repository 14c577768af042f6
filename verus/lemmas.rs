pub mod lemmas {
use vstd::prelude::*;
use vstd::arithmetic::div_mod::*;
use crate::theory::*;
broadcast use crate::theory::def_ienc;
use crate::thrift::protocol::TType;

// ------------------------------------------------------------------ varint
pub proof fn lemma_uenc_bound(n: nat, k: nat)
    requires k >= 1, n < p128(k),
    ensures 1 <= uenc(n).len() <= k,
    decreases k,
{
    reveal_with_fuel(p128, 3);
    if n >= 128 {
        assert(k >= 2) by { if k == 1 { assert(p128(1) == 128); } }
        assert(n / 128 < p128((k - 1) as nat));
        lemma_uenc_bound(n / 128, (k - 1) as nat);
    }
}
pub proof fn lemma_p128_vals()
    ensures p128(0) == 1, p128(1) == 128, p128(2) == 16384, p128(3) == 0x20_0000, p128(4) == 0x1000_0000, p128(5) == 0x8_0000_0000,
        p128(6) == 0x400_0000_0000, p128(7) == 0x2_0000_0000_0000, p128(8) == 0x100_0000_0000_0000, p128(9) == 0x8000_0000_0000_0000,
        p128(10) == 0x40_0000_0000_0000_0000,
{
    reveal_with_fuel(p128, 11);
    assert(p128(1) == 128); assert(p128(2) == 16384); assert(p128(3) == 0x20_0000); assert(p128(4) == 0x1000_0000); assert(p128(5) == 0x8_0000_0000);
    assert(p128(6) == 0x400_0000_0000); assert(p128(7) == 0x2_0000_0000_0000); assert(p128(8) == 0x100_0000_0000_0000); assert(p128(9) == 0x8000_0000_0000_0000);
}
pub proof fn lemma_uenc_len(n: nat)
    ensures uenc(n).len() >= 1, n < 0x1_0000_0000_0000_0000 ==> uenc(n).len() <= 10, n < 0x1_0000_0000 ==> uenc(n).len() <= 5, n < 0x1_0000 ==> uenc(n).len() <= 3,
{
    lemma_p128_vals();
    if n < 0x1_0000_0000_0000_0000 { lemma_uenc_bound(n, 10); }
    if n < 0x1_0000_0000 { lemma_uenc_bound(n, 5); }
    if n < 0x1_0000 { lemma_uenc_bound(n, 3); }
}
pub proof fn lemma_or_shift(result: u64, m: u8, k: nat)
    requires k <= 9, result < p128(k), m < 128,
    ensures (result | ((m as u64) << ((7 * k) as u64))) as nat == (result + m * p128(k)) % 0x1_0000_0000_0000_0000,
{
    lemma_p128_vals();
    let r = result;
    let w = m as u64;
    if k == 0 { assert(r < 1 && w < 128 ==> (r | (w << 0u64)) == r + w) by (bit_vector); assert((7 * k) as u64 == 0u64); assert(p128(k) == 1); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 1 { assert(r < 0x80 && w < 128 ==> (r | (w << 7u64)) == r + w * 0x80) by (bit_vector); assert((7 * k) as u64 == 7u64); assert(p128(k) == 0x80); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 2 { assert(r < 0x4000 && w < 128 ==> (r | (w << 14u64)) == r + w * 0x4000) by (bit_vector); assert((7 * k) as u64 == 14u64); assert(p128(k) == 0x4000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 3 { assert(r < 0x20_0000 && w < 128 ==> (r | (w << 21u64)) == r + w * 0x20_0000) by (bit_vector); assert((7 * k) as u64 == 21u64); assert(p128(k) == 0x20_0000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 4 { assert(r < 0x1000_0000 && w < 128 ==> (r | (w << 28u64)) == r + w * 0x1000_0000) by (bit_vector); assert((7 * k) as u64 == 28u64); assert(p128(k) == 0x1000_0000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 5 { assert(r < 0x8_0000_0000 && w < 128 ==> (r | (w << 35u64)) == r + w * 0x8_0000_0000) by (bit_vector); assert((7 * k) as u64 == 35u64); assert(p128(k) == 0x8_0000_0000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 6 { assert(r < 0x400_0000_0000 && w < 128 ==> (r | (w << 42u64)) == r + w * 0x400_0000_0000) by (bit_vector); assert((7 * k) as u64 == 42u64); assert(p128(k) == 0x400_0000_0000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 7 { assert(r < 0x2_0000_0000_0000 && w < 128 ==> (r | (w << 49u64)) == r + w * 0x2_0000_0000_0000) by (bit_vector); assert((7 * k) as u64 == 49u64); assert(p128(k) == 0x2_0000_0000_0000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else if k == 8 { assert(r < 0x100_0000_0000_0000 && w < 128 ==> (r | (w << 56u64)) == r + w * 0x100_0000_0000_0000) by (bit_vector); assert((7 * k) as u64 == 56u64); assert(p128(k) == 0x100_0000_0000_0000); assert((r | (w << ((7 * k) as u64))) as nat == r + m * p128(k)); }
    else {
        assert(k == 9);
        assert((7 * k) as u64 == 63u64);
        assert(r < 0x8000_0000_0000_0000 && w < 128 ==> (r | (w << 63u64)) == r + (w % 2) * 0x8000_0000_0000_0000) by (bit_vector);
        assert(r + w * 0x8000_0000_0000_0000 == (w / 2) * 0x1_0000_0000_0000_0000 + (r + (w % 2) * 0x8000_0000_0000_0000)) by (nonlinear_arith) requires w == (w / 2) * 2 + w % 2;
        lemma_fundamental_div_mod_converse((r + w * 0x8000_0000_0000_0000) as int, 0x1_0000_0000_0000_0000, (w / 2) as int, (r + (w % 2) * 0x8000_0000_0000_0000) as int);
    }
}
/// one step of the base-128 decoder
pub proof fn lemma_decode_step(s: Seq<u8>, k: nat, result: u64, shift: u64)
    requires k <= 9, k < s.len(), shift == 7 * k, result as nat == vval(s.take(k as int)), vval(s.take(k as int)) < p128(k),
    ensures
        (result | (((s[k as int] & 0x7f) as u64) << shift)) as nat == vval(s.take(k as int + 1)) % 0x1_0000_0000_0000_0000,
        vval(s.take(k as int + 1)) < p128(k + 1),
        k < 9 ==> vval(s.take(k as int + 1)) < 0x1_0000_0000_0000_0000,
        (s[k as int] & 0x80 == 0) == (s[k as int] < 128),
        s[k as int] < 128 ==> vend(s, k) == Some(k + 1),
        s[k as int] >= 128 ==> vend(s, k) == vend(s, k + 1),
        k == 9 && s[k as int] >= 128 ==> vend(s, k) is None,
{
    let b = s[k as int];
    assert(b & 0x7f == b % 128 && (b & 0x80 == 0) == (b < 128)) by (bit_vector);
    lemma_p128_vals();
    lemma_or_shift(result, b & 0x7f, k);
    assert(s.take(k as int + 1).drop_last() =~= s.take(k as int));
    assert(s.take(k as int + 1).last() == b);
    assert(vval(s.take(k as int + 1)) == vval(s.take(k as int)) + (b % 128) as nat * p128(k));
    reveal_with_fuel(p128, 2);
    assert(p128(k + 1) == 128 * p128(k));
    assert(vval(s.take(k as int)) + (b % 128) as nat * p128(k) < 128 * p128(k)) by (nonlinear_arith)
        requires vval(s.take(k as int)) < p128(k), b % 128 <= 127;
    reveal_with_fuel(vend, 2);
}
/// appending the last group
pub proof fn lemma_vval_front(b: u8, s: Seq<u8>)
    ensures vval(seq![b] + s) == (b % 128) as nat + 128 * vval(s),
    decreases s.len(),
{
    let t = seq![b] + s;
    reveal_with_fuel(vval, 2);
    reveal_with_fuel(p128, 2);
    if s.len() == 0 {
        assert(s =~= Seq::<u8>::empty());
        assert(vval(t.drop_last()) == 0);
        assert(p128(0) == 1);
        assert((t.last() % 128) as nat * p128(0) == (b % 128) as nat) by (nonlinear_arith) requires p128(0) == 1, t.last() == b;
        assert(t.drop_last() =~= Seq::<u8>::empty());
        assert(t.last() == b);
        assert(t.len() - 1 == 0);
    } else {
        lemma_vval_front(b, s.drop_last());
        assert(t.drop_last() =~= seq![b] + s.drop_last());
        assert(t.last() == s.last());
        assert(p128((t.len() - 1) as nat) == 128 * p128((s.len() - 1) as nat));
        let x = (s.last() % 128) as nat;
        let y = p128((s.len() - 1) as nat);
        assert(x * (128 * y) == 128 * (x * y)) by (nonlinear_arith);
        assert(128 * (vval(s.drop_last()) + x * y) == 128 * vval(s.drop_last()) + 128 * (x * y));
    }
}
/// uenc(n): value n, every byte but the last has the continuation bit
pub proof fn lemma_uenc_shape(n: nat)
    ensures vval(uenc(n)) == n, uenc(n).len() >= 1, uenc(n).last() < 128,
        forall|i: int| 0 <= i < uenc(n).len() - 1 ==> (#[trigger] uenc(n)[i]) >= 128,
    decreases n,
{
    reveal_with_fuel(vval, 3);
    reveal_with_fuel(p128, 2);
    if n >= 128 {
        lemma_uenc_shape(n / 128);
        let b = (n % 128 + 128) as u8;
        lemma_vval_front(b, uenc(n / 128));
        assert(b % 128 == n % 128);
        let s = uenc(n / 128);
        assert(uenc(n) == seq![b] + s);
        assert forall|i: int| 0 <= i < uenc(n).len() - 1 implies (#[trigger] uenc(n)[i]) >= 128 by {
            if i > 0 { assert(uenc(n)[i] == s[i - 1]); }
        }
        assert(uenc(n).last() == s.last());
    } else {
        assert(uenc(n).drop_last() =~= Seq::<u8>::empty());
    }
}
pub proof fn lemma_vend_at(s: Seq<u8>, i: nat, k: nat)
    requires i < k <= s.len(), k <= 10, s[k - 1] < 128, forall|j: int| i <= j < k - 1 ==> (#[trigger] s[j]) >= 128,
    ensures vend(s, i) == Some(k),
    decreases k - i,
{
    reveal_with_fuel(vend, 2);
    if i + 1 < k { assert(s[i as int] >= 128); lemma_vend_at(s, i + 1, k); }
}
pub proof fn lemma_vscan_at(s: Seq<u8>, i: nat, k: nat, max: nat)
    requires i < k <= s.len(), k <= max, s[k - 1] < 128, forall|j: int| 0 <= j < k - 1 ==> (#[trigger] s[j]) >= 128,
    ensures vscan(s, i, max) == VS::Done(k),
    decreases k - i,
{
    reveal_with_fuel(vscan, 3);
    if i > 0 { assert(s[i - 1] >= 128); }
    if i + 1 < k { lemma_vscan_at(s, i + 1, k, max); }
}
pub proof fn lemma_vscan_eof(s: Seq<u8>, i: nat, max: nat)
    requires i <= s.len(), s.len() < max || s.len() <= max && true, forall|j: int| 0 <= j < s.len() ==> (#[trigger] s[j]) >= 128,
    ensures vscan(s, i, max) == VS::Eof,
    decreases s.len() - i,
{
    reveal_with_fuel(vscan, 2);
    if i > 0 { assert(s[i - 1] >= 128); }
    if i < s.len() { lemma_vscan_eof(s, i + 1, max); }
}
pub proof fn lemma_zz_bound(v: int)
    ensures -0x8000_0000_0000_0000 <= v < 0x8000_0000_0000_0000 ==> zz(v) < 0x1_0000_0000_0000_0000,
        -0x8000_0000 <= v < 0x8000_0000 ==> zz(v) < 0x1_0000_0000, -0x8000 <= v < 0x8000 ==> zz(v) < 0x1_0000,
        unzz(zz(v)) == v,
{}
pub proof fn lemma_vscan_cont(s: Seq<u8>, i: nat, k: nat, max: nat)
    requires i <= k <= s.len(), k <= max, forall|j: int| 0 <= j < k ==> (#[trigger] s[j]) >= 128,
    ensures vscan(s, i, max) == vscan(s, k, max),
    decreases k - i,
{
    if i < k { reveal_with_fuel(vscan, 2); if i > 0 { assert(s[i - 1] >= 128); } lemma_vscan_cont(s, i + 1, k, max); }
}
pub proof fn lemma_vend_take(s: Seq<u8>, k: nat)
    requires 0 < k <= s.len(), k <= 10, s[k - 1] < 128, forall|j: int| 0 <= j < k - 1 ==> (#[trigger] s[j]) >= 128,
    ensures vend(s.take(k as int), 0) == Some(k), vend(s, 0) == Some(k),
{
    lemma_vend_at(s, 0, k);
    assert forall|j: int| 0 <= j < k - 1 implies (#[trigger] s.take(k as int)[j]) >= 128 by { assert(s[j] >= 128); }
    lemma_vend_at(s.take(k as int), 0, k);
}
pub proof fn lemma_vend_none(s: Seq<u8>, i: nat)
    requires forall|j: int| i <= j < s.len() ==> (#[trigger] s[j]) >= 128,
    ensures vend(s, i) is None,
    decreases s.len() - i, 
{
    reveal_with_fuel(vend, 2);
    if i < s.len() && i < 10 { assert(s[i as int] >= 128); lemma_vend_none(s, i + 1); }
}
} // lemmas
pub mod plemmas {
use vstd::prelude::*;
use crate::theory::*;
use crate::thrift::protocol::TType;
// ------------------------------------------------------------------ one-step unfoldings of the skip semantics
pub proof fn lemma_skip0(st: St, ty: TType)
    ensures p_skip(st, ty, 0) == PR::<()>::Err(e_depth()),
{ reveal(p_skip); }
pub proof fn lemma_skip(st: St, ty: TType, d: nat)
    requires d > 0,
    ensures
        ty == TType::Bool ==> p_skip(st, ty, d) == un(p_bool(st)),
        ty == TType::I08 ==> p_skip(st, ty, d) == un(p_i8(st)),
        ty == TType::I16 ==> p_skip(st, ty, d) == un(p_vi::<i16>(st)),
        ty == TType::I32 ==> p_skip(st, ty, d) == un(p_vi::<i32>(st)),
        ty == TType::I64 ==> p_skip(st, ty, d) == un(p_vi::<i64>(st)),
        ty == TType::Double ==> p_skip(st, ty, d) == un(p_double(st)),
        ty == TType::String ==> p_skip(st, ty, d) == un(p_bytes(st)),
        ty == TType::Struct ==> p_skip(st, ty, d) == (match p_struct_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_skip_fields(s, (d - 1) as nat) }),
        ty == TType::List || ty == TType::Set ==> p_skip(st, ty, d) == (match p_list_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(l, s) => p_skip_n(s, l.size as nat, l.ty, (d - 1) as nat) }),
        ty == TType::Map ==> p_skip(st, ty, d) == (match p_map_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(m, s) => p_skip_kv(s, m.size as nat, m.k->0, m.v->0, (d - 1) as nat) }),
        ty == TType::Stop || ty == TType::Void || ty == TType::Utf7 || ty == TType::Utf8 || ty == TType::Utf16 ==> p_skip(st, ty, d) == PR::<()>::Err(e_unk()),
{ reveal_with_fuel(p_skip, 2); reveal_with_fuel(p_skip_fields, 1); reveal_with_fuel(p_skip_n, 1); reveal_with_fuel(p_skip_kv, 1); }
pub proof fn lemma_skip_fields(st: St, d: nat)
    ensures p_skip_fields(st, d) == (match p_field_begin(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(f, s) => if f.ty == TType::Stop { p_struct_end(s) } else {
            match p_skip(s, f.ty, d) {
                PR::Err(e) => PR::Err(e),
                PR::Ok(_, s2) => if s2.inp.len() < st.inp.len() { p_skip_fields(s2, d) } else { PR::Err(EK::Fuel) },
            }
        },
    }),
{ reveal_with_fuel(p_skip, 1); reveal_with_fuel(p_skip_fields, 2); reveal_with_fuel(p_skip_n, 1); reveal_with_fuel(p_skip_kv, 1); }
pub proof fn lemma_skip_n(st: St, n: nat, ty: TType, d: nat)
    ensures p_skip_n(st, n, ty, d) == (if n == 0 { PR::Ok((), st) } else { match p_skip(st, ty, d) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_skip_n(s, (n - 1) as nat, ty, d) } }),
{ reveal_with_fuel(p_skip, 1); reveal_with_fuel(p_skip_fields, 1); reveal_with_fuel(p_skip_n, 2); reveal_with_fuel(p_skip_kv, 1); }
pub proof fn lemma_skip_kv(st: St, n: nat, k: TType, v: TType, d: nat)
    ensures p_skip_kv(st, n, k, v, d) == (if n == 0 { PR::Ok((), st) } else { match p_skip(st, k, d) { PR::Err(e) => PR::Err(e),
        PR::Ok(_, s) => match p_skip(s, v, d) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_skip_kv(s, (n - 1) as nat, k, v, d) } } }),
{ reveal_with_fuel(p_skip, 1); reveal_with_fuel(p_skip_fields, 1); reveal_with_fuel(p_skip_n, 1); reveal_with_fuel(p_skip_kv, 2); }
pub proof fn lemma_nibbles()
    ensures
        forall|h: u8| #![trigger (h & 0x0F)] (h & 0x0F) == h % 16,
        forall|h: u8| #![trigger (h & 0x1F)] (h & 0x1F) == h % 32,
        forall|h: u8| #![trigger (h & 0xF0)] (h & 0xF0) == h - h % 16,
        forall|h: u8| #![trigger (h & 0xE0)] (h & 0xE0) == h - h % 32,
        forall|h: u8| #![trigger (h >> 4i32)] (h >> 4i32) == h / 16,
        forall|h: u8| #![trigger (h >> 5i32)] (h >> 5i32) == h / 32,
        forall|h: u8| #![trigger (h << 4i32)] h < 16 ==> (h << 4i32) == h * 16,
        forall|h: u8| #![trigger (h << 5i32)] h < 8 ==> (h << 5i32) == h * 32,
        forall|d: u8, t: u8| #![trigger (d | t)] d % 16 == 0 && t < 16 ==> (d | t) == d + t,
        forall|d: u8, t: u8| #![trigger (d | t)] t % 16 == 0 && d < 16 ==> (d | t) == d + t,
        forall|d: u8, t: u8| #![trigger (d | t)] d % 32 == 0 && t < 32 ==> (d | t) == d + t,
        forall|d: u8, t: u8| #![trigger (d | t)] t % 32 == 0 && d < 32 ==> (d | t) == d + t,
{
    assert(forall|h: u8| #![trigger (h & 0x0F)] (h & 0x0F) == h % 16) by (bit_vector);
    assert(forall|h: u8| #![trigger (h & 0x1F)] (h & 0x1F) == h % 32) by (bit_vector);
    assert(forall|h: u8| #![trigger (h & 0xF0)] (h & 0xF0) == sub(h, h % 16)) by (bit_vector);
    assert(forall|h: u8| #![trigger (h & 0xE0)] (h & 0xE0) == sub(h, h % 32)) by (bit_vector);
    assert(forall|h: u8| #![trigger (h >> 4i32)] (h >> 4i32) == h / 16) by (bit_vector);
    assert(forall|h: u8| #![trigger (h >> 5i32)] (h >> 5i32) == h / 32) by (bit_vector);
    assert(forall|h: u8| #![trigger (h << 4i32)] h < 16 ==> (h << 4i32) == mul(h, 16)) by (bit_vector);
    assert(forall|h: u8| #![trigger (h << 5i32)] h < 8 ==> (h << 5i32) == mul(h, 32)) by (bit_vector);
    assert(forall|d: u8, t: u8| #![trigger (d | t)] d % 16 == 0 && t < 16 ==> (d | t) == add(d, t)) by (bit_vector);
    assert(forall|d: u8, t: u8| #![trigger (d | t)] t % 16 == 0 && d < 16 ==> (d | t) == add(d, t)) by (bit_vector);
    assert(forall|d: u8, t: u8| #![trigger (d | t)] d % 32 == 0 && t < 32 ==> (d | t) == add(d, t)) by (bit_vector);
    assert(forall|d: u8, t: u8| #![trigger (d | t)] t % 32 == 0 && d < 32 ==> (d | t) == add(d, t)) by (bit_vector);
}
pub proof fn lemma_sizes()
    ensures vstd::layout::size_of::<u8>() == 1, vstd::layout::size_of::<i16>() == 2, vstd::layout::size_of::<usize>() == 8,
        vstd::layout::size_of::<u64>() == 8,
{
    broadcast use vstd::layout::group_layout_axioms;
}
} // plemmas
