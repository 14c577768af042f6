#@ body trait TInputProtocol
    /// what is still to be read, nesting state, and remaining budget
    spec fn st(&self) -> St;
    /// the error kind the source may fail with, if it is faulty
    spec fn fault(&self) -> Option<crate::shim::io::ErrorKind>;
    /// assumption on every source: it holds fewer than 2^64 bytes
    proof fn inp_bound(&self) ensures self.st().inp.len() <= u64::MAX;
@@for M,P in message_begin,,p_msg_begin | message_end,,p_unit | field_end,,p_unit | bool,,p_bool | bytes,,p_bytes | i8,,p_i8 | i16,,p_vi::<i16> | i32,,p_vi::<i32> | i64,,p_vi::<i64> | double,,p_double | string,,p_string | list_begin,,p_list_begin | list_end,,p_unit | set_begin,,p_list_begin | set_end,,p_unit | map_end,,p_unit | byte,,p_byte
#@ fn trait TInputProtocol::read_@M
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() <= old(self).st().inp.len() && final(self).st().stack == old(self).st().stack,
        ok_val(r, @P(old(self).st()), final(self).st()), //@val
        ok_err(r, @P(old(self).st()), old(self).fault()), //@err
@@end
#@ fn trait TInputProtocol::read_field_begin
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() < old(self).st().inp.len() && final(self).st().stack == old(self).st().stack && (r->Ok_0.field_type != TType::Stop ==> r->Ok_0.id is Some),
        ok_val(r, p_field_begin(old(self).st()), final(self).st()), //@val
        ok_err(r, p_field_begin(old(self).st()), old(self).fault()), //@err
#@ fn trait TInputProtocol::read_map_begin
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() <= old(self).st().inp.len() && final(self).st().stack == old(self).st().stack
            && (r->Ok_0.size > 0 ==> r->Ok_0.key_type is Some && r->Ok_0.value_type is Some),
        ok_val(r, p_map_begin(old(self).st()), final(self).st()), //@val
        ok_err(r, p_map_begin(old(self).st()), old(self).fault()), //@err
#@ fn trait TInputProtocol::read_struct_begin
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp == old(self).st().inp && final(self).st().stack.len() > 0 && final(self).st().stack.drop_last() == old(self).st().stack,
        ok_val(r, p_struct_begin(old(self).st()), final(self).st()), //@val
        ok_err(r, p_struct_begin(old(self).st()), old(self).fault()), //@err
#@ fn trait TInputProtocol::read_struct_end
    requires old(self).st().stack.len() > 0,
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp == old(self).st().inp && final(self).st().stack == old(self).st().stack.drop_last(),
        ok_val(r, p_struct_end(old(self).st()), final(self).st()), //@val
        ok_err(r, p_struct_end(old(self).st()), old(self).fault()), //@err
#@ fn trait TInputProtocol::skip
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() <= old(self).st().inp.len() && final(self).st().stack == old(self).st().stack,
        ok_val(r, p_skip(old(self).st(), ${arg:0}, 64), final(self).st()), //@skip
        ok_err(r, p_skip(old(self).st(), ${arg:0}, 64), old(self).fault()), //@skip
#@ fn trait TInputProtocol::skip_till_depth
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() <= old(self).st().inp.len() && final(self).st().stack == old(self).st().stack,
        ok_val(r, p_skip(old(self).st(), ${arg:0}, (if ${arg:1} > 0 { ${arg:1} as nat } else { 0 })), final(self).st()), //@skip
        ok_err(r, p_skip(old(self).st(), ${arg:0}, (if ${arg:1} > 0 { ${arg:1} as nat } else { 0 })), old(self).fault()), //@skip
    decreases (if ${arg:1} > 0 { ${arg:1} as int } else { 0 }),
#@ start
    let ghost d1 = (${arg:1} - 1) as nat;
    let ghost goal = p_skip(self.st(), ${arg:0}, (if ${arg:1} > 0 { ${arg:1} as nat } else { 0 }));
    let ghost stk = self.st().stack;
    let ghost len0 = self.st().inp.len();
    proof { lemma_skip0(self.st(), ${arg:0}); if ${arg:1} > 0 { lemma_skip(self.st(), ${arg:0}, ${arg:1} as nat); } }
#@ loop 0 loop
    invariant_except_break
        self.st().stack.len() > 0, self.st().stack.drop_last() == stk,
        goal == p_skip_fields(self.st(), d1),
    invariant
        self.fault() == old(self).fault(), ${arg:1} > 0, d1 == ${arg:1} - 1, stk == old(self).st().stack, self.st().inp.len() <= len0, len0 == old(self).st().inp.len(),
        goal == p_skip(old(self).st(), ${arg:0}, ${arg:1} as nat),
    ensures
        self.st().stack.len() > 0, self.st().stack.drop_last() == stk,
        goal == p_struct_end(self.st()),
    decreases self.st().inp.len(),
#@ loopstart
    proof { lemma_skip_fields(self.st(), d1); }
@@for N in 1 2
#@ loop @N for-range
    invariant
        self.fault() == old(self).fault(), ${arg:1} > 0, d1 == ${arg:1} - 1, stk == old(self).st().stack, self.st().inp.len() <= len0, len0 == old(self).st().inp.len(),
        self.st().stack == stk, goal == p_skip(old(self).st(), ${arg:0}, ${arg:1} as nat),
        goal == p_skip_n(self.st(), ($hi - $v) as nat, $hibase.element_type, d1),
#@ loopstart
    proof { lemma_skip_n(self.st(), ($hi - $v) as nat, $hibase.element_type, d1); }
#@ loopafter
    proof { lemma_skip_n(self.st(), 0, $hibase.element_type, d1); }
@@end
#@ loop 3 for-range
    invariant
        self.fault() == old(self).fault(), ${arg:1} > 0, d1 == ${arg:1} - 1, stk == old(self).st().stack, self.st().inp.len() <= len0, len0 == old(self).st().inp.len(),
        self.st().stack == stk, goal == p_skip(old(self).st(), ${arg:0}, ${arg:1} as nat),
        map_ident.size > 0 ==> map_ident.key_type is Some && map_ident.value_type is Some,
        goal == p_skip_kv(self.st(), (map_ident.size - $v) as nat, map_ident.key_type->0, map_ident.value_type->0, d1),
#@ loopstart
    proof { lemma_skip_kv(self.st(), ($hi - $v) as nat, map_ident.key_type->0, map_ident.value_type->0, d1); }
#@ loopafter
    proof { lemma_skip_kv(self.st(), 0, map_ident.key_type->0, map_ident.value_type->0, d1); }
#@ fn trait TInputProtocol::read_list
    ensures
        final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() <= old(self).st().inp.len() && final(self).st().stack == old(self).st().stack,
        ok_val(r, p_list(old(self).st(), decf::<P>()), final(self).st()), //@val
        ok_err(r, p_list(old(self).st(), decf::<P>()), old(self).fault()), //@err
#@ start
    broadcast use crate::theory::defs;
    let ghost d = decf::<P>();
    let ghost goal = p_list(self.st(), d);
    let ghost stk = self.st().stack;
    let ghost len0 = self.st().inp.len();
#@ alloc
    assert($n <= 0xFFFF_FFFF && 8 * $n <= old(self).st().rem);
    assert(self.st().rem == old(self).st().rem - 8 * $n);
    assert(self.st() == (match p_list_begin(old(self).st()) { PR::Ok(_, s) => s, _ => self.st() }));
    assert(forall|v: Vec<P>| #[trigger] v@.len() == 0 ==> v.dv() =~= Seq::empty());
#@ loop 0 for-range
    invariant
        self.fault() == old(self).fault(), stk == old(self).st().stack, self.st().inp.len() <= len0, len0 == old(self).st().inp.len(), self.st().stack == stk,
        d == decf::<P>(), goal == p_list(old(self).st(), d), val@.len() == $v,
        goal == p_n(self.st(), ($hi - $v) as nat, val.dv(), d),
#@ loopstart
    let ghost v0 = val;
    proof { reveal_with_fuel(p_n, 2); }
#@ loopend
    assert(val.dv() =~= v0.dv().push(val@.last().dv()));
#@ super ReadThrift Codec
#@ fn trait ReadThrift::read_from_in_protocol
    ensures
        final(${arg:0}).fault() == old(${arg:0}).fault(),
        r is Ok ==> final(${arg:0}).st().inp.len() <= old(${arg:0}).st().inp.len() && final(${arg:0}).st().stack == old(${arg:0}).st().stack,
        ok_val(r, Self::dec(old(${arg:0}).st()), final(${arg:0}).st()), //@val
        ok_err(r, Self::dec(old(${arg:0}).st()), old(${arg:0}).fault()), //@err
@@sync
#@ body impl TInputProtocol for Box<P>
    open spec fn st(&self) -> St { (**self).st() }
    open spec fn fault(&self) -> Option<crate::shim::io::ErrorKind> { (**self).fault() }
    proof fn inp_bound(&self) { (**self).inp_bound(); }
#@ body impl TOutputProtocol for Box<P>
    open spec fn ost(&self) -> OSt { (**self).ost() }
    open spec fn werr(&self) -> Set<crate::shim::io::ErrorKind> { (**self).werr() }
    open spec fn flushed(&self) -> bool { (**self).flushed() }
@@both
#@ body impl TInputProtocol for TCompactInputProtocol<R>
    open spec fn st(&self) -> St {
        St { inp: self.reader.inp(), last: self.last_read_field_id, stack: self.read_field_id_stack@, pend: self.pending_read_bool_value, rem: self.remaining }
    }
    open spec fn fault(&self) -> Option<crate::shim::io::ErrorKind> { self.reader.fault() }
    proof fn inp_bound(&self) { self.reader.inp_bound(); }
#@ fn <TCompactInputProtocol<R>>::new
    ensures r.st() =~= (St { inp: ${arg:0}.inp(), last: 0, stack: Seq::empty(), pend: None, rem: ${arg:1} }), r.fault() == ${arg:0}.fault(), //@val
#@ fn <TCompactInputProtocol<R>>::update_remaining
    requires ${arg:0} * vstd::layout::size_of::<T>() <= usize::MAX,
    ensures final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).reader == old(self).reader,
        ok_val(r, p_charge(old(self).st(), (${arg:0} * vstd::layout::size_of::<T>()) as nat), final(self).st()), //@charge
        ok_err(r, p_charge(old(self).st(), (${arg:0} * vstd::layout::size_of::<T>()) as nat), None), //@charge
#@ fn <TCompactInputProtocol<R>>::read_list_set_begin
    ensures final(self).fault() == old(self).fault(),
        r is Ok ==> final(self).st().inp.len() <= old(self).st().inp.len() && final(self).st().stack == old(self).st().stack,
        ok_val(r, p_list_begin(old(self).st()), final(self).st()), //@val
        ok_err(r, p_list_begin(old(self).st()), old(self).fault()), //@err
#@ start
    proof { lemma_nibbles(); lemma_sizes(); }
#@ fn <TInputProtocol for TCompactInputProtocol<R>>::read_message_begin
#@ start
    proof { crate::shim::into_id_all::<String>(); }
@@for M in message_begin field_begin map_begin struct_begin bytes
#@ fn <TInputProtocol_for_TCompactInputProtocol<R>>::read_@M
#@ start
    proof { lemma_nibbles(); lemma_sizes(); }
@@end
#@ fn <TInputProtocol for TCompactInputProtocol<R>>::read_bytes
#@ alloc
    assert($n <= old(self).st().rem && self.st().rem == old(self).st().rem - $n);
@@sync
#@ fn collection_u8_to_type
    ensures r is Ok ==> ctype_of(b) == Some(r->Ok_0), //@val
        r is Err ==> ctype_of(b) is None && ek(r->Err_0) == e_data(), //@err
#@ fn u8_to_type
    ensures r is Ok ==> ttype_of(b) == Some(r->Ok_0), //@val
        r is Err ==> ttype_of(b) is None && ek(r->Err_0) == e_data(), //@err
#@ fn collection_type_to_u8
    requires cvalid(field_type),
    ensures r == ccode(field_type), //@val
#@ fn type_to_u8
    requires tvalid(field_type),
    ensures r == tcode(field_type), //@val
@@both
#@ body trait TOutputProtocol
    /// bytes emitted so far and nesting state
    spec fn ost(&self) -> OSt;
    /// error kinds the sink may report
    spec fn werr(&self) -> Set<crate::shim::io::ErrorKind>;
    /// everything emitted so far has been handed on by the sink
    spec fn flushed(&self) -> bool;
@@for M,Q,W,F in message_begin,,true,,w_msg_begin(old(self).ost(), ${arg:0}.message_type, ${arg:0}.sequence_number, ${arg:0}.name@),,fits(vstd::utf8::encode_utf8(${arg:0}.name@).len()) | message_end,,old(self).ost().pend is None,,old(self).ost(),,true | struct_begin,,true,,w_struct_begin(old(self).ost()),,true | struct_end,,old(self).ost().pend is None && old(self).ost().stack.len() > 0,,w_struct_end(old(self).ost()),,true | field_begin,,${arg:0}.id is Some && (if ${arg:0}.field_type == TType::Bool { old(self).ost().pend is None } else { tvalid(${arg:0}.field_type) }),,w_field_begin(old(self).ost(), ${arg:0}.field_type, ${arg:0}.id->0),,true | field_end,,old(self).ost().pend is None,,old(self).ost(),,true | field_stop,,old(self).ost().pend is None,,w_byte(old(self).ost(), 0),,true | bool,,old(self).ost().pend != Some(None::<i16>),,w_bool(old(self).ost(), ${arg:0}),,true | bytes,,true,,w_bytes(old(self).ost(), ${arg:0}@),,fits(${arg:0}@.len()) | i8,,true,,w_i8(old(self).ost(), ${arg:0}),,true | i16,,true,,w_int(old(self).ost(), ${arg:0} as int),,true | i32,,true,,w_int(old(self).ost(), ${arg:0} as int),,true | i64,,true,,w_int(old(self).ost(), ${arg:0} as int),,true | double,,true,,w_double(old(self).ost(), ${arg:0}),,true | string,,true,,w_string(old(self).ost(), ${arg:0}@),,fits(vstd::utf8::encode_utf8(${arg:0}@).len()) | list_begin,,cvalid(${arg:0}.element_type),,w_list_begin(old(self).ost(), ${arg:0}.element_type, ${arg:0}.size as nat),,true | list_end,,true,,old(self).ost(),,true | set_begin,,cvalid(${arg:0}.element_type),,w_list_begin(old(self).ost(), ${arg:0}.element_type, ${arg:0}.size as nat),,true | set_end,,true,,old(self).ost(),,true | map_begin,,${arg:0}.size > 0 ==> ${arg:0}.key_type is Some && ${arg:0}.value_type is Some && cvalid(${arg:0}.key_type->0) && cvalid(${arg:0}.value_type->0),,w_map_begin(old(self).ost(), ${arg:0}.key_type, ${arg:0}.value_type, ${arg:0}.size as nat),,true | map_end,,true,,old(self).ost(),,true | byte,,true,,w_byte(old(self).ost(), ${arg:0}),,true
#@ fn trait TOutputProtocol::write_@M
    requires @Q,
    ensures
        final(self).werr() == old(self).werr(),
        out_ok(old(self).ost(), final(self).ost()),
        r is Ok ==> final(self).ost() == @W, //@val
        r is Ok ==> @F, //@fits
        grew(r, old(self).ost(), final(self).ost()), //@count
        r is Err ==> w_err(r->Err_0, old(self).werr(), @F), //@werr
        cut(r, old(self).ost(), final(self).ost(), @W), //@cut
@@end
#@ fn trait TOutputProtocol::flush
    ensures
        final(self).werr() == old(self).werr(),
        r is Ok ==> final(self).ost() == old(self).ost(), //@val
        r is Ok ==> final(self).flushed(), //@flush
        final(self).ost().out == old(self).ost().out, //@cut
        r is Err ==> w_err(r->Err_0, old(self).werr(), true), //@werr
#@ body impl TOutputProtocol for TCompactOutputProtocol<T>
    open spec fn ost(&self) -> OSt {
        OSt { out: self.transport.out(), last: self.last_write_field_id, stack: self.write_field_id_stack@,
            pend: match self.pending_write_bool_field_identifier { Some(f) => Some(f.id), None => None } }
    }
    open spec fn werr(&self) -> Set<crate::shim::io::ErrorKind> { self.transport.werr() }
    open spec fn flushed(&self) -> bool { self.transport.flushed() }
#@ fn <TCompactOutputProtocol<T>>::new
    ensures r.ost() =~= (OSt { out: ${arg:0}.out(), last: 0, stack: Seq::empty(), pend: None }), r.werr() == ${arg:0}.werr(), //@val
#@ fn <TCompactOutputProtocol<T>>::assert_no_pending_bool_write
    requires self.ost().pend is None,
#@ fn <TCompactOutputProtocol<T>>::write_field_header
    requires ${arg:0} <= 15,
    ensures
        final(self).werr() == old(self).werr(),
        out_ok(old(self).ost(), final(self).ost()),
        r is Ok ==> final(self).ost() == w_hdr(old(self).ost(), ${arg:0}, ${arg:1}), //@val
        cut(r, old(self).ost(), final(self).ost(), w_hdr(old(self).ost(), ${arg:0}, ${arg:1})), //@cut
        grew(r, old(self).ost(), final(self).ost()), //@count
        r is Err ==> w_err(r->Err_0, old(self).werr(), true), //@werr
#@ start
    proof { lemma_nibbles(); }
#@ fn <TCompactOutputProtocol<T>>::write_list_set_begin
    requires cvalid(${arg:0}),
    ensures
        final(self).werr() == old(self).werr(),
        out_ok(old(self).ost(), final(self).ost()),
        r is Ok ==> final(self).ost() == w_list_begin(old(self).ost(), ${arg:0}, ${arg:1} as nat), //@val
        cut(r, old(self).ost(), final(self).ost(), w_list_begin(old(self).ost(), ${arg:0}, ${arg:1} as nat)), //@cut
        grew(r, old(self).ost(), final(self).ost()), //@count
        r is Err ==> w_err(r->Err_0, old(self).werr(), true), //@werr
#@ start
    proof { lemma_nibbles(); }
@@for M in message_begin map_begin
#@ fn <TOutputProtocol_for_TCompactOutputProtocol<T>>::write_@M
#@ start
    proof { lemma_nibbles(); }
@@end
#@ fn <TInputProtocol for TCompactInputProtocol<R>>::read_double
#@ start
    broadcast use crate::shim::le_u64_inv, crate::shim::u64_le_inv, crate::shim::f64_le_len;
#@ fn <TOutputProtocol for TCompactOutputProtocol<T>>::write_double
#@ start
    broadcast use crate::shim::le_u64_inv, crate::shim::u64_le_inv, crate::shim::f64_le_len;
