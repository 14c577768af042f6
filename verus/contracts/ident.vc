#@ fn <From<TMessageType> for u8>::from
    ensures r == mcode(${arg:0}), //@val
#@ fn <TryFrom<u8> for TMessageType>::try_from
    ensures r is Ok ==> mtype_of(${arg:0}) == Some(r->Ok_0), //@val
        r is Err ==> mtype_of(${arg:0}) is None && ek(r->Err_0) == e_data(), //@err
#@ fn <TMessageIdentifier>::new
    ensures <S as vstd::std_specs::convert::IntoSpec<String>>::obeys_into_spec() ==> r.name == vstd::std_specs::convert::IntoSpec::<String>::into_spec(${arg:0}), r.message_type == ${arg:1}, r.sequence_number == ${arg:2}, //@val
#@ fn <TListIdentifier>::new
    ensures r.element_type == ${arg:0}, r.size == ${arg:1}, //@val
#@ fn <TSetIdentifier>::new
    ensures r.element_type == ${arg:0}, r.size == ${arg:1}, //@val
#@ fn <TMapIdentifier>::new
    ensures r.size == ${arg:2}, //@val
        <K as vstd::std_specs::convert::IntoSpec<Option<TType>>>::obeys_into_spec() ==> r.key_type == vstd::std_specs::convert::IntoSpec::<Option<TType>>::into_spec(${arg:0}), //@val
        <V as vstd::std_specs::convert::IntoSpec<Option<TType>>>::obeys_into_spec() ==> r.value_type == vstd::std_specs::convert::IntoSpec::<Option<TType>>::into_spec(${arg:1}), //@val
#@ fn <TFieldIdentifier>::new
    ensures r.field_type == ${arg:1}, <I as vstd::std_specs::convert::IntoSpec<Option<i16>>>::obeys_into_spec() ==> r.id == vstd::std_specs::convert::IntoSpec::<Option<i16>>::into_spec(${arg:2}), //@val
#@ fn verify_expected_sequence_number
    ensures r is Ok <==> expected == actual, r is Err ==> ek(r->Err_0) == EK::A(crate::thrift::ApplicationErrorKind::BadSequenceId), //@verify
#@ fn verify_expected_service_call
    ensures r is Ok <==> expected@ == actual@, r is Err ==> ek(r->Err_0) == EK::A(crate::thrift::ApplicationErrorKind::WrongMethodName), //@verify
#@ fn verify_expected_message_type
    ensures r is Ok <==> expected == actual, r is Err ==> ek(r->Err_0) == EK::A(crate::thrift::ApplicationErrorKind::InvalidMessageType), //@verify
#@ fn verify_required_field_exists
    ensures r is Ok <==> ${arg:1} is Some, r is Err ==> ek(r->Err_0) == e_unk(), //@required
#@ fn field_id
    ensures r is Ok ==> ${arg:0}.id == Some(r->Ok_0), r is Err ==> ${arg:0}.id is None && ek(r->Err_0) == e_unk(), //@val
