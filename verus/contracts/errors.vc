@@for K,F in TransportErrorKind,,tkind_of | ProtocolErrorKind,,pkind_of | ApplicationErrorKind,,akind_of
#@ fn <TryFrom<i32>_for_@K>::try_from
    ensures r is Ok ==> @F(${arg:0}) == Some(r->Ok_0), //@val
        r is Err ==> @F(${arg:0}) is None, //@val
        r is Ok ==> (r->Ok_0) as i32 == ${arg:0}, //@val
@@end
#@ fn <From<TransportError> for Error>::from
    ensures r == Error::Transport(e), //@map
#@ fn <From<ProtocolError> for Error>::from
    ensures r == Error::Protocol(e), //@map
#@ fn <From<ApplicationError> for Error>::from
    ensures r == Error::Application(e), //@map
#@ fn <From<String> for Error>::from
    ensures ek(r) == EK::A(ApplicationErrorKind::Unknown), //@map
#@ fn <From<&'a str> for Error>::from
    ensures ek(r) == EK::A(ApplicationErrorKind::Unknown), //@map
#@ fn <From<io::Error> for Error>::from
    ensures ek(r) == io_ek(${arg:0}.k), //@map
#@ fn <From<string::FromUtf8Error> for Error>::from
    ensures ek(r) == e_data(), //@map
#@ fn <From<std::num::TryFromIntError> for Error>::from
    ensures ek(r) == e_data(), //@map
#@ fn <From<TryReserveError> for Error>::from
    ensures ek(r) == e_size(), crate::shim::oom(), //@map
#@ start
    proof { crate::shim::reserve_error_is_oom(${arg:0}); }
#@ fn <From<Infallible> for Error>::from
    ensures ek(r) == e_data(), //@map
#@ fn new_transport_error
    ensures ek(r) == EK::T(${arg:0}), //@map
#@ fn new_protocol_error
    ensures ek(r) == EK::P(${arg:0}), //@map
#@ fn new_application_error
    ensures ek(r) == EK::A(${arg:0}), //@map
@@for K in TransportError ProtocolError ApplicationError
#@ fn <@K>::new
    ensures r.kind == ${arg:0}, //@map
@@end
#@ fn <Error>::read_application_error_from_in_protocol
    ensures ok_val(r, p_app(old(${arg:0}).st()), final(${arg:0}).st()), //@val
        ok_err(r, p_app(old(${arg:0}).st()), old(${arg:0}).fault()), //@err
#@ start
    let ghost goal = p_app(${arg:0}.st());
    let ghost stk = ${arg:0}.st().stack;
    proof { reveal_strlit("general remote error"); }
#@ loop 0 loop
    invariant_except_break
        ${arg:0}.st().stack.len() > 0, ${arg:0}.st().stack.drop_last() == stk,
        goal == p_app_loop(${arg:0}.st(), AE { kind, message: message@ }),
    invariant
        ${arg:0}.fault() == old(${arg:0}).fault(), goal == p_app(old(${arg:0}).st()),
    ensures
        ${arg:0}.st().stack.len() > 0,
        goal == (match p_struct_end(${arg:0}.st()) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(AE { kind, message: message@ }, s) }),
    decreases ${arg:0}.st().inp.len(),
#@ loopstart
    proof { reveal_with_fuel(p_app_loop, 2); }
#@ fn <Error>::write_application_error_to_out_protocol
    requires old(${arg:1}).ost().pend is None,
    ensures r is Ok ==> final(${arg:1}).ost() == w_app(old(${arg:1}).ost(), ${arg:0}.dv()) && fits(vstd::utf8::encode_utf8(${arg:0}.message@).len()), //@val
        r is Err ==> w_err(r->Err_0, old(${arg:1}).werr(), fits(vstd::utf8::encode_utf8(${arg:0}.message@).len())), //@err
        r is Err ==> between(old(${arg:1}).ost().out, final(${arg:1}).ost().out, w_app(old(${arg:1}).ost(), ${arg:0}.dv()).out), //@cut
        r is Ok ==> final(${arg:1}).flushed(), //@flush
#@ start
    broadcast use crate::theory::pfxs;
