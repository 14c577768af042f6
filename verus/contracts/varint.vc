#@ fn required_encoded_space_unsigned
    ensures r == uenc(${arg:0} as nat).len(), 1 <= r <= 10, //@space
#@ start
    let ghost v0 = ${arg:0};
    proof { reveal_with_fuel(uenc, 2); lemma_uenc_len(${arg:0} as nat); }
#@ loop 0 while
    invariant
        ${arg:0} == 0 ==> ${mut:0} == uenc(v0 as nat).len(),
        ${arg:0} > 0 ==> ${mut:0} + uenc(${arg:0} as nat).len() == uenc(v0 as nat).len(),
        0 <= ${mut:0}, uenc(v0 as nat).len() <= 10, v0 > 0,
    decreases ${arg:0},
#@ loopstart
    assert(${arg:0} >> 7 == ${arg:0} / 128) by (bit_vector);
    proof { reveal_with_fuel(uenc, 2); lemma_uenc_len(${arg:0} as nat); }
#@ fn required_encoded_space_signed
    ensures r == ienc(v as int).len(), 1 <= r <= 10, //@space
#@ fn zigzag_encode
    ensures r as nat == zz(from as int), //@zigzag
#@ start
    let ghost y: i64 = (-1 - from) as i64;
    assert(!from == sub(-1i64, from)) by (bit_vector);
    assert(from >= 0 ==> ((from << 1) ^ (from >> 63)) as u64 == mul(2, from as u64)) by (bit_vector);
    assert(from < 0 && y == !from ==> y >= 0 && ((from << 1) ^ (from >> 63)) as u64 == add(mul(2, y as u64), 1)) by (bit_vector);
    // the same function written otherwise
    assert(((from << 1) as u64) ^ ((from >> 63) as u64) == ((from << 1) ^ (from >> 63)) as u64) by (bit_vector);
    assert(((from as u64) << 1) ^ ((from >> 63) as u64) == ((from << 1) ^ (from >> 63)) as u64) by (bit_vector);
    assert((from >> 63) ^ (from << 1) == (from << 1) ^ (from >> 63)) by (bit_vector);
    assert(from >= 0 ==> (from << 1) as u64 == mul(2, from as u64) && (from as u64) << 1 == mul(2, from as u64)) by (bit_vector);
    assert(from < 0 ==> (!(from << 1)) as u64 == ((from << 1) ^ (from >> 63)) as u64 && !((from as u64) << 1) == ((from << 1) ^ (from >> 63)) as u64) by (bit_vector);
#@ fn zigzag_decode
    ensures r as int == unzz(from as nat), //@zigzag
#@ start
    let ghost h: i64 = (from / 2) as i64;
    let ghost e: i64 = ((from >> 1) ^ ((-((from & 1) as i64)) as u64)) as i64;
    assert(!h == sub(-1i64, h)) by (bit_vector);
    assert(from & 1 == 0 || from & 1 == 1) by (bit_vector);
    assert(from % 2 == 0 ==> e == h) by (bit_vector) requires h == (from / 2) as i64, e == ((from >> 1) ^ ((sub(0i64, ((from & 1) as i64))) as u64)) as i64;
    assert(from % 2 != 0 ==> e == !h) by (bit_vector) requires h == (from / 2) as i64, e == ((from >> 1) ^ ((sub(0i64, ((from & 1) as i64))) as u64)) as i64;
    // the same function written otherwise
    assert(((from >> 1) as i64) ^ sub(0i64, (from & 1) as i64) == ((from >> 1) ^ ((sub(0i64, ((from & 1) as i64))) as u64)) as i64) by (bit_vector);
    assert(from >> 1 == from / 2 && (from & 1 == 0) == (from % 2 == 0) && from & 1 == from % 2) by (bit_vector);
    assert((!(from / 2)) as i64 == !((from / 2) as i64)) by (bit_vector);
#@ body trait VarInt
    /// canonical encoding
    spec fn vi_enc(self) -> Seq<u8>;
    /// value and length of the encoding at the start of `s`
    spec fn vi_dec(s: Seq<u8>) -> Option<(Self, nat)>;
    proof fn vi_enc_len(self)
        ensures 1 <= self.vi_enc().len() <= 10;
    proof fn vi_facts(s: Seq<u8>)
        ensures vi_max::<Self>() <= 10, vstd::layout::size_of::<Self>() <= 8,
            Self::vi_dec(s) is Some <==> udec(s) is Some,
            udec(s) is Some ==> (Self::vi_dec(s)->0).1 == (udec(s)->0).1;
#@ fn trait VarInt::required_space
    ensures r == self.vi_enc().len(), 1 <= r <= 10, //@space
#@ fn trait VarInt::decode_var
    ensures
        r is Some <==> Self::vi_dec(src@) is Some, //@decode
        r is Some ==> (r->0).0 == (Self::vi_dec(src@)->0).0 && (r->0).1 == (Self::vi_dec(src@)->0).1, //@decode
#@ fn trait VarInt::encode_var
    requires old(${arg:0})@.len() >= self.vi_enc().len(),
    ensures r == self.vi_enc().len(), r <= 10, //@encode
        final(${arg:0})@ == self.vi_enc() + old(${arg:0})@.skip(r as int), //@encode
#@ fn trait VarInt::encode_var_vec
    ensures r@ == self.vi_enc(), //@encode
#@ body trait VarIntMaxSize
    spec fn vmax() -> nat;
#@ fn trait VarIntMaxSize::varint_max_size
    ensures r == Self::vmax(), r <= 10, //@max
#@ body impl VarIntMaxSize for VI
    open spec fn vmax() -> nat { vi_max::<VI>() }
#@ fn <VarIntMaxSize for VI>::varint_max_size
#@ start
    proof { VI::vi_facts(Seq::empty()); }
@@for T in u32 u16 u8
#@ body impl VarInt for @T
    open spec fn vi_enc(self) -> Seq<u8> { uenc(self as nat) }
    proof fn vi_enc_len(self) { lemma_uenc_len(self as nat); }
    open spec fn vi_dec(s: Seq<u8>) -> Option<(Self, nat)> { match udec(s) { Some((n, k)) => Some((n as @T, k)), None => None } }
    proof fn vi_facts(s: Seq<u8>) { broadcast use vstd::layout::group_layout_axioms; }
@@end
@@for T in i32 i16 i8
#@ body impl VarInt for @T
    open spec fn vi_enc(self) -> Seq<u8> { ienc(self as int) }
    proof fn vi_enc_len(self) { lemma_zz_bound(self as int); lemma_uenc_len(zz(self as int)); }
    open spec fn vi_dec(s: Seq<u8>) -> Option<(Self, nat)> { match udec(s) { Some((n, k)) => Some((unzz(n as nat) as @T, k)), None => None } }
    proof fn vi_facts(s: Seq<u8>) { broadcast use vstd::layout::group_layout_axioms; }
@@end
#@ body impl VarInt for u64
    open spec fn vi_enc(self) -> Seq<u8> { uenc(self as nat) }
    proof fn vi_enc_len(self) { lemma_uenc_len(self as nat); }
    open spec fn vi_dec(s: Seq<u8>) -> Option<(Self, nat)> { udec(s) }
    proof fn vi_facts(s: Seq<u8>) { broadcast use vstd::layout::group_layout_axioms; }
#@ body impl VarInt for i64
    open spec fn vi_enc(self) -> Seq<u8> { ienc(self as int) }
    proof fn vi_enc_len(self) { lemma_zz_bound(self as int); lemma_uenc_len(zz(self as int)); }
    open spec fn vi_dec(s: Seq<u8>) -> Option<(Self, nat)> { match udec(s) { Some((n, k)) => Some((unzz(n as nat) as i64, k)), None => None } }
    proof fn vi_facts(s: Seq<u8>) { broadcast use vstd::layout::group_layout_axioms; }
#@ fn <VarInt for u64>::decode_var
#@ start
    assert(<u64 as VarInt>::vi_dec(${arg:0}@) == udec(${arg:0}@));
    assert(${arg:0}@.take(0) =~= Seq::<u8>::empty());
    proof { reveal_with_fuel(p128, 12); reveal_with_fuel(vval, 2); }
#@ loop 0 for-ref
    invariant_except_break
        ${mut:1} == 7 * $it.index@, $it.index@ <= 9,
        vend(${arg:0}@, 0) == vend(${arg:0}@, $it.index@ as nat),
        !${mut:2},
        ${mut:0} as nat == vval(${arg:0}@.take($it.index@ as int)),
        vval(${arg:0}@.take($it.index@ as int)) < p128($it.index@ as nat),
    invariant
        $it.seq() == ${arg:0}@.map_values(|x: u8| &x),
    ensures
        ${mut:2} ==> udec(${arg:0}@) == Some((${mut:0}, (${mut:1} / 7) as nat)) && ${mut:1} % 7 == 0,
        !${mut:2} ==> udec(${arg:0}@) is None,
#@ loopstart
    let ghost k = $it.index@ as int;
    proof { lemma_decode_step(${arg:0}@, k as nat, ${mut:0}, ${mut:1} as u64); }
@@for T,C in u64,,uenc(self as nat) | i64,,ienc(self as int)
#@ fn <VarInt for @T>::encode_var
#@ start
    let ghost d0 = ${arg:0}@;
    let ghost full = @C;
    proof { lemma_uenc_len(0); lemma_zz_bound(self as int); lemma_uenc_len(self as nat); lemma_uenc_len(zz(self as int)); }
#@ loop 0 while
    invariant
        full.len() <= 10, full.len() <= d0.len(), ${arg:0}@.len() == d0.len(),
        ${mut:1} + uenc(${mut:0} as nat).len() == full.len(),
        ${arg:0}@.take(${mut:1} as int) + uenc(${mut:0} as nat) =~= full,
        ${arg:0}@.skip(${mut:1} as int) =~= d0.skip(${mut:1} as int),
    decreases ${mut:0},
#@ loopstart
    let ghost n0 = ${mut:0};
    let ghost i0 = ${mut:1};
    let ghost d1 = ${arg:0}@;
    assert(0x80u8 | (${mut:0} as u8) == ((${mut:0} % 128) + 128) as u8) by (bit_vector);
    assert((${mut:0} as u8) | 0x80u8 == ((${mut:0} % 128) + 128) as u8) by (bit_vector);
    assert(${mut:0} >> 7 == ${mut:0} / 128) by (bit_vector);
    proof { reveal_with_fuel(uenc, 2); lemma_uenc_len((${mut:0} / 128) as nat); }
#@ loopend
    assert(${arg:0}@.take(${mut:1} as int) =~= d1.take(i0 as int) + seq![((n0 % 128) + 128) as u8]);
    assert(${arg:0}@.skip(${mut:1} as int) =~= d1.skip(i0 as int).skip(1));
#@ loopafter
    proof { reveal_with_fuel(uenc, 2); }
    assert(uenc(${mut:0} as nat) =~= seq![${mut:0} as u8]);
    let ghost d2 = ${arg:0}@;
#@ end
    assert(${arg:0}@ =~= d2.take(${mut:1} as int) + seq![${mut:0} as u8] + d2.skip(${mut:1} as int).skip(1));
    assert(${arg:0}@ =~= full + d0.skip(full.len() as int));
@@end
#@ fn <VarInt for u64>::required_space
#@ fn <VarInt for i64>::required_space
#@ start
    proof { lemma_zz_bound(self as int); }
#@ fn <VarInt for i64>::decode_var
#@ start
    assert(<i64 as VarInt>::vi_dec(${arg:0}@) == (match udec(${arg:0}@) { Some((n, k)) => Some((unzz(n as nat) as i64, k)), None => None }));
    assert(<u64 as VarInt>::vi_dec(${arg:0}@) == udec(${arg:0}@));
#@ fn <VarIntProcessor>::new
    ensures r.maxsize == VI::vmax(), r.maxsize <= 10, r.i == 0,
#@ fn <VarIntProcessor>::push
    requires old(self).maxsize <= 10, old(self).i <= old(self).maxsize,
    ensures final(self).maxsize == old(self).maxsize,
        r is Ok <==> old(self).i < old(self).maxsize, //@push
        r is Ok ==> final(self).i == old(self).i + 1 && final(self).buf@ == old(self).buf@.update(old(self).i as int, ${arg:0}), //@push
        r is Err ==> r->Err_0.k == crate::shim::io::ErrorKind::InvalidData, //@push
#@ fn <VarIntProcessor>::finished
    requires self.i <= 10,
    ensures r == (self.i > 0 && self.buf@[self.i - 1] < 128), //@finished
#@ start
    assert(forall|b: u8| (#[trigger] (b & 0x80) == 0) == (b < 128)) by (bit_vector);
#@ fn <VarIntProcessor>::decode
    requires self.i <= 10,
    ensures r is Some <==> VI::vi_dec(self.buf@.take(self.i as int)) is Some, //@decode
        r is Some ==> r->0 == (VI::vi_dec(self.buf@.take(self.i as int))->0).0, //@decode
#@ start
    assert(self.buf@.subrange(0, self.i as int) =~= self.buf@.take(self.i as int));
#@ body trait VarIntReader
    spec fn vinp(&self) -> Seq<u8>;
    spec fn vfault(&self) -> Option<crate::shim::io::ErrorKind>;
#@ fn trait VarIntReader::read_varint
    ensures final(self).vfault() == old(self).vfault(),
        match r {
            Ok(v) => match vread::<VI>(old(self).vinp()) { VR::Ok(w, k) => v == w && k <= old(self).vinp().len() && k > 0 && final(self).vinp() == old(self).vinp().skip(k as int), VR::Err(_) => false }, //@val
            Err(e) => vread::<VI>(old(self).vinp()) == VR::<VI>::Err(e.k) || old(self).vfault() == Some(e.k), //@err
        },
#@ body impl VarIntReader for R
    open spec fn vinp(&self) -> Seq<u8> { self.inp() }
    open spec fn vfault(&self) -> Option<crate::shim::io::ErrorKind> { self.fault() }
#@ body trait VarIntAsyncReader
    spec fn vinp(&self) -> Seq<u8>;
    spec fn vfault(&self) -> Option<crate::shim::io::ErrorKind>;
#@ fn trait VarIntAsyncReader::read_varint_async
    ensures final(self).vfault() == old(self).vfault(),
        match r {
            Ok(v) => match vread::<VI>(old(self).vinp()) { VR::Ok(w, k) => v == w && k <= old(self).vinp().len() && k > 0 && final(self).vinp() == old(self).vinp().skip(k as int), VR::Err(_) => false }, //@val
            Err(e) => vread::<VI>(old(self).vinp()) == VR::<VI>::Err(e.k) || old(self).vfault() == Some(e.k), //@err
        },
#@ body impl VarIntAsyncReader for AR
    open spec fn vinp(&self) -> Seq<u8> { self.inp() }
    open spec fn vfault(&self) -> Option<crate::shim::io::ErrorKind> { self.fault() }
@@for F,DEC in <VarIntReader for R>::read_varint,,self.intr(), 10 - p.i | <VarIntAsyncReader for AR>::read_varint_async,,10 - p.i
#@ fn @F
#@ start
    let ghost s0 = self.inp();
#@ loop 0 while
    invariant
        self.fault() == old(self).fault(), s0 == old(self).inp(), buf@.len() == 1,
        p.maxsize == vi_max::<VI>(), p.maxsize <= 10, p.i <= p.maxsize, p.i <= s0.len(),
        p.buf@.take(p.i as int) == s0.take(p.i as int),
        self.inp() == s0.skip(p.i as int),
        forall|j: int| 0 <= j < p.i - 1 ==> (#[trigger] s0[j]) >= 128,
    ensures
        p.i > 0, (p.buf@[p.i - 1] < 128 || self.inp().len() == 0),
    decreases @DEC,
#@ loopstart
    let ghost i0 = p.i as int;
    let ghost b0 = p.buf@;
    proof {
        if i0 > 0 { assert(s0[i0 - 1] == s0.take(i0)[i0 - 1]); assert(p.buf@[i0 - 1] == p.buf@.take(i0)[i0 - 1]); }
        if i0 == s0.len() { lemma_vscan_eof(s0, 0, vi_max::<VI>()); }
        lemma_vscan_cont(s0, 0, i0 as nat, vi_max::<VI>());
        reveal_with_fuel(vscan, 2);
    }
#@ loopend
    proof {
        assert(p.buf@.take(p.i as int) =~= b0.take(i0).push(s0[i0]));
        assert(s0.take(p.i as int) =~= s0.take(i0).push(s0[i0]));
        assert(s0.skip(i0).skip(1) =~= s0.skip(i0 + 1));
    }
#@ loopafter
    proof {
        let k = p.i as int;
        assert(p.buf@[k - 1] == p.buf@.take(k)[k - 1]);
        assert(s0[k - 1] == s0.take(k)[k - 1]);
        VI::vi_facts(s0.take(k));
        if s0[k - 1] < 128 { lemma_vscan_at(s0, 0, k as nat, vi_max::<VI>()); lemma_vend_take(s0, k as nat); }
        else { assert(s0.take(k) =~= s0); lemma_vscan_eof(s0, 0, vi_max::<VI>()); lemma_vend_none(s0, 0); }
    }
@@end
@@for TR,F in VarIntWriter,,write_varint | VarIntAsyncWriter,,write_varint_async
#@ body trait @TR
    spec fn vout(&self) -> Seq<u8>;
    spec fn vwerr(&self) -> Set<crate::shim::io::ErrorKind>;
#@ fn trait @TR::@F
    ensures final(self).vwerr() == old(self).vwerr(), final(self).vout().len() <= usize::MAX,
        r is Ok ==> final(self).vout() == old(self).vout() + ${arg:0}.vi_enc(), //@val
        r is Ok ==> r->Ok_0 == ${arg:0}.vi_enc().len(), //@count
        r is Err ==> old(self).vwerr().contains(r->Err_0.k), //@err
        r is Err ==> between(old(self).vout(), final(self).vout(), old(self).vout() + ${arg:0}.vi_enc()), //@cut
@@end
@@for H in <VarIntWriter_for_Inner>::write_varint <VarIntAsyncWriter_for_AW>::write_varint_async
#@ fn @H
#@ start
    proof { ${arg:0}.vi_enc_len(); }
@@end
@@for H in VarIntWriter_for_Inner VarIntAsyncWriter_for_AW
#@ body impl @H
    open spec fn vout(&self) -> Seq<u8> { self.out() }
    open spec fn vwerr(&self) -> Set<crate::shim::io::ErrorKind> { self.werr() }
@@end
