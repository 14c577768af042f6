"""Contracts and specifications of the Parquet types, generated from schema.json (the format definition);
nothing is taken from /repo here."""
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
SCHEMA = json.load(open(os.path.join(HERE, '..', 'schema.json')))
KIND = {t['name']: t['kind'] for t in SCHEMA}
PF = 'crate::parquet_format::'
I32 = {'i8': 'I08', 'i16': 'I16', 'i32': 'I32', 'i64': 'I64'}

def is_list(ty):
    return isinstance(ty, dict)

def rty(ty):
    """the Rust type as seen from the specification module"""
    if is_list(ty):
        return f'Vec<{rty(ty["list"])}>'
    if ty in KIND:
        return PF + ty
    return ty

def lty(ty):
    """the Rust type as seen from parquet_format"""
    return f'Vec<{lty(ty["list"])}>' if is_list(ty) else ty

def vty(ty):
    if is_list(ty):
        return f'Seq<{vty(ty["list"])}>'
    if ty in KIND:
        return 'i32' if KIND[ty] == 'enum' else 'V_' + ty
    return {'String': 'Seq<char>', 'Vec<u8>': 'Seq<u8>'}.get(ty, ty)

def dec(ty, s):
    if is_list(ty):
        return f'p_list({s}, decf::<{rty(ty["list"])}>())'
    return f'<{rty(ty)} as Codec>::dec({s})'

def enc(f_ty, elem_tt, v):
    if is_list(f_ty):
        return f'list_enc::<{rty(f_ty["list"])}>(TType::{elem_tt}, {v})'
    return f'<{rty(f_ty)} as Codec>::enc({v})'

def fitsx(ty, v):
    if is_list(ty):
        return f'list_fits::<{rty(ty["list"])}>({v})'
    return f'<{rty(ty)} as Codec>::wfits({v})'

def wf(f, v):
    if f['ty'] == 'bool':
        return f'WF::B({f["id"]}, {v})'
    return f'WF::F(TType::{f["tt"]}, {f["id"]}, {enc(f["ty"], f.get("elem_tt"), v)})'

def spec_enum(t):
    T = t['name']
    return f'''
impl DV for {PF}{T} {{ type V = i32; open spec fn dv(&self) -> i32 {{ self.0 }} }}
impl Codec for {PF}{T} {{
    open spec fn dec(st: St) -> PR<i32> {{ p_vi::<i32>(st) }}
    open spec fn enc(v: i32) -> Seq<u8> {{ ienc(v as int) }}
    open spec fn wfits(v: i32) -> bool {{ true }}
}}
'''

def opaque_dv(T, body):
    return f'''#[verifier::opaque]
pub open spec fn dv_{T}(x: &{PF}{T}) -> V_{T} {{ {body} }}
impl DV for {PF}{T} {{ type V = V_{T}; open spec fn dv(&self) -> V_{T} {{ dv_{T}(self) }} }}
'''

def opaque_codec(T, fit):
    return f'''#[verifier::opaque]
pub open spec fn dec_{T}(st: St) -> PR<V_{T}> {{
    match p_struct_begin(st) {{ PR::Err(e) => PR::Err(e), PR::Ok(_, s) => fin_{T}(p_fields(s, a0_{T}(), stepf_{T}())) }}
}}
#[verifier::opaque]
pub open spec fn enc_{T}(v: V_{T}) -> Seq<u8> {{ enc_struct(fs_{T}(v)) }}
#[verifier::opaque]
pub open spec fn wf_{T}(v: V_{T}) -> bool {{ {fit} }}
impl Codec for {PF}{T} {{
    open spec fn dec(st: St) -> PR<V_{T}> {{ dec_{T}(st) }}
    open spec fn enc(v: V_{T}) -> Seq<u8> {{ enc_{T}(v) }}
    open spec fn wfits(v: V_{T}) -> bool {{ wf_{T}(v) }}
}}
'''

def spec_struct(t):
    T, fs = t['name'], t['fields']
    o = f'#[verifier::ext_equal]\npub struct V_{T} {{ {", ".join("pub " + f["name"] + ": " + (vty(f["ty"]) if f["req"] else "Option<" + vty(f["ty"]) + ">") for f in fs)} }}\n'
    o += f'/// the fields read so far\n#[verifier::ext_equal]\npub struct A_{T} {{ {", ".join("pub " + f["name"] + ": Option<" + vty(f["ty"]) + ">" for f in fs)} }}\n'
    o += opaque_dv(T, f'V_{T} {{ {", ".join(f["name"] + ": x." + f["name"] + ".dv()" for f in fs)} }}')
    o += f'pub open spec fn a0_{T}() -> A_{T} {{ A_{T} {{ {", ".join(f["name"] + ": None" for f in fs)} }} }}\n'
    o += f'pub open spec fn step_{T}(f: FV, s: St, a: A_{T}) -> PR<A_{T}> {{\n    '
    for f in fs:
        o += f'if f.id->0 == {f["id"]} {{ match {dec(f["ty"], "s")} {{ PR::Err(e) => PR::Err(e), PR::Ok(v, s) => PR::Ok(A_{T} {{ {f["name"]}: Some(v), ..a }}, s) }} }}\n    else '
    o += '{ match p_skip(s, f.ty, 64) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(a, s) } }\n}\n'
    o += f'pub open spec fn stepf_{T}() -> spec_fn(FV, St, A_{T}) -> PR<A_{T}> {{ |f: FV, s: St, a: A_{T}| step_{T}(f, s, a) }}\n'
    req = ' || '.join(f'a.{f["name"]} is None' for f in fs if f['req']) or 'false'
    vs = ', '.join(f'{f["name"]}: a.{f["name"]}' + ('->0' if f['req'] else '') for f in fs)
    o += f'''pub open spec fn fin_{T}(p: PR<A_{T}>) -> PR<V_{T}> {{
    match p {{ PR::Err(e) => PR::Err(e), PR::Ok(a, s) => match p_struct_end(s) {{ PR::Err(e) => PR::Err(e), PR::Ok(_, s) =>
        if {req} {{ PR::Err(e_unk()) }} else {{ PR::Ok(V_{T} {{ {vs} }}, s) }} }} }}
}}
'''
    for i, f in enumerate(fs):
        if f['req']:
            b = f'Some({wf(f, "v." + f["name"])})'
        else:
            b = f'match v.{f["name"]} {{ Some(x) => Some({wf(f, "x")}), None => None }}'
        o += f'pub open spec fn f{i}_{T}(v: V_{T}) -> Option<WF> {{ {b} }}\n'
    o += f'pub open spec fn fs_{T}(v: V_{T}) -> Seq<Option<WF>> {{ seq![{", ".join(f"f{i}_{T}(v)" for i in range(len(fs)))}] }}\n'
    for i, f in enumerate(fs):
        x = fitsx(f['ty'], 'v.' + f['name']) if f['req'] else f'(v.{f["name"]} is Some ==> {fitsx(f["ty"], "v." + f["name"] + "->0")})'
        o += f'pub open spec fn g{i}_{T}(v: V_{T}) -> bool {{ {x} }}\n'
    o += f'/// the first k fields can be carried by the wire format\npub open spec fn wfits_{T}(v: V_{T}, k: int) -> bool {{ {" && ".join(f"(k > {i} ==> g{i}_{T}(v))" for i in range(len(fs))) or "true"} }}\n'
    fit = f'wfits_{T}(v, {len(fs)})'
    o += opaque_codec(T, f'''{fit}''')
    o += f''''''
    o += f'''pub proof fn lf_{T}(v: V_{T})
    ensures fs_{T}(v).len() == {len(fs)},{''.join(f" fs_{T}(v)[{i}] == f{i}_{T}(v)," for i in range(len(fs)))}
{{ }}
'''
    return o

def spec_union(t):
    T, vs = t['name'], t['variants']
    o = f'pub enum V_{T} {{ {", ".join(v["name"] + "(" + vty(v["ty"]) + ")" for v in vs)} }}\n'
    o += f'#[verifier::ext_equal]\npub struct A_{T} {{ pub ret: Option<V_{T}>, pub n: nat }}\n'
    o += opaque_dv(T, f'match *x {{ {", ".join(PF + T + "::" + v["name"] + "(x) => V_" + T + "::" + v["name"] + "(x.dv())" for v in vs)} }}')
    o += f'pub open spec fn a0_{T}() -> A_{T} {{ A_{T} {{ ret: None, n: 0 }} }}\n'
    o += f'pub open spec fn step_{T}(f: FV, s: St, a: A_{T}) -> PR<A_{T}> {{\n    '
    for v in vs:
        o += f'if f.id->0 == {v["id"]} {{ match {dec(v["ty"], "s")} {{ PR::Err(e) => PR::Err(e), PR::Ok(v, s) => PR::Ok(A_{T} {{ ret: if a.ret is None {{ Some(V_{T}::{v["name"]}(v)) }} else {{ a.ret }}, n: a.n + 1 }}, s) }} }}\n    else '
    o += f'{{ match p_skip(s, f.ty, 64) {{ PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(A_{T} {{ ret: a.ret, n: a.n + 1 }}, s) }} }}\n}}\n'
    o += f'pub open spec fn stepf_{T}() -> spec_fn(FV, St, A_{T}) -> PR<A_{T}> {{ |f: FV, s: St, a: A_{T}| step_{T}(f, s, a) }}\n'
    o += f'''pub open spec fn fin_{T}(p: PR<A_{T}>) -> PR<V_{T}> {{
    match p {{ PR::Err(e) => PR::Err(e), PR::Ok(a, s) => match p_struct_end(s) {{ PR::Err(e) => PR::Err(e), PR::Ok(_, s) =>
        if a.n == 1 && a.ret is Some {{ PR::Ok(a.ret->0, s) }} else {{ PR::Err(e_data()) }} }} }}
}}
'''
    ws = ', '.join(f'V_{T}::{v["name"]}(x) => WF::F(TType::{v["tt"]}, {v["id"]}, {enc(v["ty"], None, "x")})' for v in vs)
    fit = ', '.join(f'V_{T}::{v["name"]}(x) => {fitsx(v["ty"], "x")}' for v in vs)
    o += f'pub open spec fn f0_{T}(v: V_{T}) -> Option<WF> {{ Some(match v {{ {ws} }}) }}\n'
    o += f'pub open spec fn fs_{T}(v: V_{T}) -> Seq<Option<WF>> {{ seq![f0_{T}(v)] }}\n'
    o += opaque_codec(T, f'''match v {{ {fit} }}''')
    o += f'''pub proof fn lf_{T}(v: V_{T}) ensures fs_{T}(v).len() == 1, fs_{T}(v)[0] == f0_{T}(v), {{ }}
'''
    return o

def specs():
    o = '''pub mod tspec {
use vstd::prelude::*;
use crate::thrift::protocol::TType;
use crate::theory::*;
use crate::codec::*;
'''
    for t in SCHEMA:
        o += {'enum': spec_enum, 'struct': spec_struct, 'union': spec_union}[t['kind']](t)
    return o + '} // tspec\n'

RENS = '''    ensures
        final(${arg:0}).fault() == old(${arg:0}).fault(),
        r is Ok ==> final(${arg:0}).st().inp.len() <= old(${arg:0}).st().inp.len() && final(${arg:0}).st().stack == old(${arg:0}).st().stack,
        ok_val(r, <%s as Codec>::dec(old(${arg:0}).st()), final(${arg:0}).st()), //@val
        ok_err(r, <%s as Codec>::dec(old(${arg:0}).st()), old(${arg:0}).fault()), //@err
'''
WENS = '''    requires old(${arg:0}).ost().pend is None,
    ensures
        final(${arg:0}).werr() == old(${arg:0}).werr(),
        out_ok(old(${arg:0}).ost(), final(${arg:0}).ost()),
        r is Ok ==> final(${arg:0}).ost() == w_raw(old(${arg:0}).ost(), <%s as Codec>::enc(self.dv())), //@val
        r is Ok ==> <%s as Codec>::wfits(self.dv()), //@fits
        grew(r, old(${arg:0}).ost(), final(${arg:0}).ost()), //@count
        r is Err ==> w_err(r->Err_0, old(${arg:0}).werr(), <%s as Codec>::wfits(self.dv())), //@werr
        cut(r, old(${arg:0}).ost(), final(${arg:0}).ost(), w_raw(old(${arg:0}).ost(), <%s as Codec>::enc(self.dv()))), //@cut
'''

def sync_contracts():
    o = ''
    for t in SCHEMA:
        T, k = t['name'], t['kind']
        if k != 'enum':
            o += f'#@ fn <{T}>::read_from_in_protocol\n' + RENS.replace('%s', T)
        if k == 'enum':
            o += f'#@ fn <{T}>::write_to_out_protocol\n' + WENS.replace('%s', T)
            continue
        # reading
        if k == 'struct':
            acc = f'A_{T} {{ ' + ', '.join(f'{f["name"]}: ${{field:{f["name"]}}}.dv()' for f in t['fields']) + ' }'
            extra = extra_ens = ''
        else:
            acc = f'A_{T} {{ ret: ${{local:Option<{T}>}}.dv(), n: ${{zero}} as nat }}'
            extra = '        ${zero} + ${arg:0}.st().inp.len() <= old(${arg:0}).st().inp.len(), old(${arg:0}).st().inp.len() <= u64::MAX,\n'
        o += f'''#@ fn <ReadThrift for {T}>::read_from_in_protocol
#@ start
    let ghost goal = <{T} as Codec>::dec(${{arg:0}}.st());
    let ghost stk = ${{arg:0}}.st().stack;
    reveal(dv_{T}); reveal(dec_{T});
''' + ('    proof { ${arg:0}.inp_bound(); }\n' if k == 'union' else '') + f'''#@ loop 0 loop
    invariant_except_break
        ${{arg:0}}.st().stack == stk1,
        goal == fin_{T}(p_fields(${{arg:0}}.st(), {acc}, stepf_{T}())),
    invariant
        ${{arg:0}}.fault() == old(${{arg:0}}).fault(), ${{arg:0}}.st().inp.len() <= old(${{arg:0}}).st().inp.len(),
        stk == old(${{arg:0}}).st().stack, stk1.len() > 0, stk1.drop_last() == stk, goal == <{T} as Codec>::dec(old(${{arg:0}}).st()),
{extra}    ensures
        ${{arg:0}}.st().stack == stk1,
        goal == fin_{T}(PR::Ok({acc}, ${{arg:0}}.st())),
    decreases ${{arg:0}}.st().inp.len(),
#@ loopbefore
    let ghost stk1 = ${{arg:0}}.st().stack;
''' + (f'''#@ loopstart
    reveal(dv_{T});
''' if k == 'union' else '')
        # writing
        o += f'#@ fn <{T}>::write_to_out_protocol\n' + WENS.replace('%s', T)
        o += f'''#@ start
    reveal(dv_{T}); reveal(enc_{T}); reveal(wf_{T});
    let ghost o0 = ${{arg:0}}.ost();
    let ghost fs = fs_{T}(self.dv());
    proof {{ lf_{T}(self.dv()); lemma_w_first(o0, fs); lemma_w_struct(o0, fs); {"lemma_w_step(o0, fs, 0);" if k == "union" else ""} }}
'''
        if k == 'union':
            o += f'''#@ stages match - {len(t['variants'])}
    invariant_except_break
        ${{arg:0}}.ost() == w_struct_begin(o0), ${{acc}} == ${{arg:0}}.ost().out.len() - o0.out.len(),
        ${{arg:0}}.werr() == old(${{arg:0}}).werr(), out_ok(o0, ${{arg:0}}.ost()),
    invariant o0 == old(${{arg:0}}).ost(), o0.pend is None, fs == fs_{T}(self.dv()), *self == {T}::$arm(*$bind),
    ensures
        ${{arg:0}}.ost() == w_ofk(w_struct_begin(o0), fs, 1), ${{acc}} == ${{arg:0}}.ost().out.len() - o0.out.len(),
        ${{arg:0}}.werr() == old(${{arg:0}}).werr(), out_ok(o0, ${{arg:0}}.ost()), wf_{T}(self.dv()),
    decreases 0int,
#@ stagestart
    reveal(dv_{T}); reveal(wf_{T}); reveal(enc_{T});
    proof {{ lf_{T}(self.dv()); lemma_w_first(o0, fs); lemma_w_step(o0, fs, 0); }}
'''
        if k == 'struct':
            if t['fields']:
                inv = f'''
        ${{arg:0}}.ost() == w_ofk(w_struct_begin(o0), fs, %s), ${{arg:0}}.werr() == old(${{arg:0}}).werr(),
        ${{zero}} == ${{arg:0}}.ost().out.len() - o0.out.len(), out_ok(o0, ${{arg:0}}.ost()), %s,
'''
                o += f'''#@ stages write_struct_begin write_field_end {len(t['fields'])}
    invariant_except_break {inv % ("$j", f"wfits_{T}(self.dv(), $j)")}    invariant o0 == old(${{arg:0}}).ost(), o0.pend is None, fs == fs_{T}(self.dv()),
    ensures {inv % ("$k", f"wfits_{T}(self.dv(), $k)")}    decreases 0int,
#@ stagestart
    reveal(dv_{T}); reveal(wf_{T}); reveal(enc_{T});
    proof {{ lf_{T}(self.dv()); lemma_w_step(o0, fs, $j); }}
'''
            n = 0
            for f in t['fields']:
                if not is_list(f['ty']):
                    continue
                e = f['ty']['list']
                x = f'self.{f["name"]}' + ('' if f['req'] else '->0')
                R = e if e in KIND else e
                o += f'''#@ loop {n} for-ref
    invariant
        $it.seq() == {x}@.map_values(|x: {R}| &x),
        ${{arg:0}}.werr() == old(${{arg:0}}).werr(),
        lst::<{R}>(${{arg:0}}.ost(), ob{n}, {x}.dv(), $it.index@ as int),
        pfx(old(${{arg:0}}).ost().out, ob{n}.out), pfx(w_raw(ob{n}, cat::<{R}>({x}.dv(), {x}.dv().len())).out, w_raw(old(${{arg:0}}).ost(), enc_{T}(self.dv())).out),
        ob{n}.pend is None, ob{n}.out.len() >= old(${{arg:0}}).ost().out.len(), ${{arg:0}}.ost().out.len() >= ob{n}.out.len(),
        ${{zero}} == ${{arg:0}}.ost().out.len() - old(${{arg:0}}).ost().out.len(),
        out_ok(old(${{arg:0}}).ost(), ${{arg:0}}.ost()), fits({x}.dv().len()),
        forall|i: int| 0 <= i < $it.index@ ==> <{R} as Codec>::wfits(#[trigger] {x}.dv()[i]),
{"" if f["req"] else "        self." + f["name"] + " is Some," + chr(10)}#@ loopbefore
    let ghost ob{n} = ${{arg:0}}.ost();
    proof {{ lemma_lst0::<{R}>(ob{n}, {x}.dv()); }}
#@ loopstart
    reveal(dv_{T}); reveal(wf_{T});
    proof {{
        assert({x}.dv()[$it.index@ as int] == $it.seq()[$it.index@ as int].dv());
        lemma_lst_step::<{R}>(${{arg:0}}.ost(), ob{n}, {x}.dv(), $it.index@ as int);
    }}
#@ loopafter
    proof {{ lemma_lst_end::<{R}>(${{arg:0}}.ost(), ob{n}, TType::{f["elem_tt"]}, {x}.dv()); }}
'''
                n += 1
    return o

# ------------------------------------------------------------------ theorems over the specifications of the types
def thm_val(ty, elem_tt, x):
    """cost, depth, proof of reading, of skipping, of monotonicity of a value x of type ty"""
    if is_list(ty):
        P = rty(ty['list'])
        return f'list_cost::<{P}>({x})', f'list_depth::<{P}>({x})', f'r_list::<{P}>(s, TType::{elem_tt}, {x});', f'r_skip_list::<{P}>(s, {x}, d);', f'm_list::<{P}>(s, e, b);'
    P = rty(ty)
    return f'<{P} as Thm>::cost({x})', f'<{P} as Thm>::depth({x})', f'<{P} as Thm>::rt({x}, s);', f'<{P} as Thm>::skip_rt({x}, s, d);', f'<{P} as Thm>::mono(s, e, b);'

def thm_field(T, i, name, arm, f, guard, a, a2):
    """the lemma that one present field is read into the accumulator, and skipped"""
    x = 'x'
    c, dd, rt, sk, _ = thm_val(f['ty'], f.get('elem_tt'), x)
    if f['ty'] == 'bool':
        body = '; '
        st = f"""assert forall|s: St| s.pend == Some(x) implies #[trigger] stepf_{T}()(FV {{ ty: TType::Bool, id: Some({f['id']}) }}, s, {a}) == PR::Ok({a2}, St {{ pend: None, ..s }}) by {{ assert(p_bool(s) == PR::Ok(x, St {{ pend: None, ..s }})); }}
"""
    else:
        en = enc(f['ty'], f.get('elem_tt'), x)
        st = f"""let by = {en};
        assert forall|s: St| pre(by, s.inp) && s.pend is None && {c} <= s.rem implies #[trigger] stepf_{T}()(FV {{ ty: TType::{f['tt']}, id: Some({f['id']}) }}, s, {a}) == PR::Ok({a2}, after(s, by.len(), {c})) by {{ {rt} }}
        assert forall|s: St, d: nat| pre(by, s.inp) && s.pend is None && {c} <= s.rem implies #[trigger] p_skip(s, TType::{f['tt']}, d) == sk_res(s, by.len(), {c}, {dd}, d) by {{ {sk} }}
"""
    return st

def thm_struct(t):
    T, fs = t['name'], t['fields']
    n = len(fs)
    o = ''
    for i, f in enumerate(fs):
        c, dd, *_ = thm_val(f['ty'], f.get('elem_tt'), 'x')
        for nm, e in (('c', c), ('d', dd)):
            e = e if f['ty'] != 'bool' else ('0' if nm == 'c' else '1')
            o += f'pub open spec fn {nm}{i}_{T}(v: V_{T}) -> nat {{ ' + (f'{{ let x = v.{f["name"]}; {e} }}' if f['req'] else f'match v.{f["name"]} {{ Some(x) => {e}, None => 0 }}') + ' }\n'
    for nm in 'cd':
        o += f'pub open spec fn {nm}s_{T}(v: V_{T}) -> Seq<nat> {{ seq![{", ".join(f"{nm}{i}_{T}(v)" for i in range(n))}] }}\n'
    o += f'/// the accumulator after the first k fields\npub open spec fn ak_{T}(v: V_{T}, k: int) -> A_{T} {{ A_{T} {{ {", ".join(f["name"] + f": if k > {i} {{ " + ("Some(v." + f["name"] + ")" if f["req"] else "v." + f["name"]) + " } else { None }" for i, f in enumerate(fs))} }} }}\n'
    for i, f in enumerate(fs):
        st = thm_field(T, i, f['name'], None, f, None, f'ak_{T}(v, {i})', f'ak_{T}(v, {i + 1})')
        core = f"""        assert(A_{T} {{ {f['name']}: Some(x), ..ak_{T}(v, {i}) }} =~= ak_{T}(v, {i + 1}));
        {st}"""
        o += f"""proof fn fl{i}_{T}(v: V_{T})
    requires g{i}_{T}(v),
    ensures fld_ok(f{i}_{T}(v), ak_{T}(v, {i}), ak_{T}(v, {i + 1}), c{i}_{T}(v), stepf_{T}()), sk_ok(f{i}_{T}(v), c{i}_{T}(v), d{i}_{T}(v)),
{{
    reveal(fld_ok); reveal(sk_ok);
"""
        if f['req']:
            o += f'    {{\n        let x = v.{f["name"]};\n{core}    }}\n'
        else:
            o += f'    if let Some(x) = v.{f["name"]} {{\n{core}    }} else {{ assert(ak_{T}(v, {i}) =~= ak_{T}(v, {i + 1})); }}\n'
        o += '}\n'
    each = ' else '.join(f'if i == {i} {{ fl{i}_{T}(v); }}' for i in range(n))
    o += f"""proof fn fl_{T}(v: V_{T})
    requires wf_{T}(v),
    ensures
        forall|i: int| #![trigger fs_{T}(v)[i]] 0 <= i < {n} ==> fld_ok(fs_{T}(v)[i], Seq::new({n + 1}, |k: int| ak_{T}(v, k))[i], Seq::new({n + 1}, |k: int| ak_{T}(v, k))[i + 1], cs_{T}(v)[i], stepf_{T}()),
        forall|i: int| #![trigger fs_{T}(v)[i]] 0 <= i < {n} ==> sk_ok(fs_{T}(v)[i], cs_{T}(v)[i], ds_{T}(v)[i]),
{{
    reveal(wf_{T}); lf_{T}(v);
    let asq = Seq::new({n + 1}, |k: int| ak_{T}(v, k));
    assert forall|i: int| #![trigger fs_{T}(v)[i]] 0 <= i < {n} implies fld_ok(fs_{T}(v)[i], asq[i], asq[i + 1], cs_{T}(v)[i], stepf_{T}()) && sk_ok(fs_{T}(v)[i], cs_{T}(v)[i], ds_{T}(v)[i]) by {{ {each} }}
}}
"""
    o += thm_step(T, [(f['id'], f) for f in fs])
    o += thm_impl(T, f'Seq::new({n + 1}, |k: int| ak_{T}(v, k))', f'assert(ak_{T}(v, 0) =~= a0_{T}());', 
                  f'assert(V_{T} {{ {", ".join(f["name"] + ": ak_" + T + "(v, " + str(n) + ")." + f["name"] + ("->0" if f["req"] else "") for f in fs)} }} =~= v);')
    return o

def thm_frame(ty):
    return f'k_list::<{rty(ty["list"])}>(s);' if is_list(ty) else f'<{rty(ty)} as Thm>::frame(s);'

def decfn(ty):
    return f'listf::<{rty(ty["list"])}>()' if is_list(ty) else f'decf::<{rty(ty)}>()'

def thm7_is(T, i, f, a, a2):
    """an item that carries x as field f, in any encoding its reader takes; and what the reader of T makes of it"""
    o = f'pub open spec fn is{i}_{T}(it: It, x: {vty(f["ty"])}) -> bool {{ '
    if f['ty'] == 'bool':
        o += f'it.f == WF::B({f["id"]}, x) && it.c == 0 }}\n'
        body = f'''assert forall|s: St| s.pend == Some(x) implies #[trigger] stepf_{T}()(FV {{ ty: TType::Bool, id: Some({f['id']}) }}, s, a) == PR::Ok({a2}, St {{ pend: None, ..s }}) by {{ assert(p_bool(s) == PR::Ok(x, St {{ pend: None, ..s }})); }}'''
    else:
        o += f'match it.f {{ WF::F(ty, id, b) => ty == TType::{f["tt"]} && id == {f["id"]} && reads({decfn(f["ty"])}, x, b, it.c), _ => false }} }}\n'
        body = f'''let b = it.f->F_2;
    assert forall|s: St| pre(b, s.inp) && s.pend is None && it.c <= s.rem implies #[trigger] stepf_{T}()(FV {{ ty: TType::{f['tt']}, id: Some({f['id']}) }}, s, a) == PR::Ok({a2}, after(s, b.len(), it.c)) by {{ assert({decfn(f["ty"])}(s) == PR::Ok(x, after(s, b.len(), it.c))); }}'''
    return o + f'''proof fn fx{i}_{T}(it: It, x: {vty(f["ty"])}, a: A_{T})
    requires is{i}_{T}(it, x){", a == " + a if a else ""},
    ensures fld_ok(Some(it.f), a, {a2}, it.c, stepf_{T}()),
{{
    reveal(fld_ok); reveal(reads);
    {body}
}}
'''

def thm7_struct(t):
    T, fs = t['name'], t['fields']
    o = ''
    for i, f in enumerate(fs):
        o += thm7_is(T, i, f, None, f'(A_{T} {{ {f["name"]}: Some(x), ..a }})')
    known = ''.join(f'\n    ||| ' + (f'is{i}_{T}(it, v.{f["name"]})' if f['req'] else f'v.{f["name"]} is Some && is{i}_{T}(it, v.{f["name"]}->0)') for i, f in enumerate(fs))
    unk = ' && '.join([f'wid(it.f) != {f["id"]}' for f in fs] + ['unknown_it(it)'])
    o += f'/// a field of v, or one that readers of this version do not know\n#[verifier::opaque]\npub open spec fn it_{T}(v: V_{T}, it: It) -> bool {{{known}\n    ||| {unk}\n}}\n'
    acc = ', '.join(f'{f["name"]}: if seen(its, j, {f["id"]}) {{ {"Some(v." + f["name"] + ")" if f["req"] else "v." + f["name"]} }} else {{ None }}' for f in fs)
    o += f'#[verifier::opaque]\npub open spec fn ax_{T}(v: V_{T}, its: Seq<It>, j: int) -> A_{T} {{ A_{T} {{ {acc} }} }}\n'
    branches = ''
    for i, f in enumerate(fs):
        x = f'v.{f["name"]}' if f['req'] else f'v.{f["name"]}->0'
        c = f'is{i}_{T}(its[j], {x})' if f['req'] else f'v.{f["name"]} is Some && is{i}_{T}(its[j], {x})'
        branches += f'if {c} {{ fx{i}_{T}(its[j], {x}, ax_{T}(v, its, j)); assert(ax_{T}(v, its, j + 1) =~= A_{T} {{ {f["name"]}: Some({x}), ..ax_{T}(v, its, j) }}); }}\n    else '
    o += f'''proof fn ax0_{T}(v: V_{T}, its: Seq<It>)
    ensures ax_{T}(v, its, 0) == a0_{T}(),
{{ reveal(ax_{T}); lemma_seen0(its); assert(ax_{T}(v, its, 0) =~= a0_{T}()); }}
proof fn axn_{T}(v: V_{T}, its: Seq<It>, s: St, s0: St, s1: St)
    requires {" ".join((f'v.{f["name"]} is Some ==> ' if not f['req'] else '') + f'seen(its, its.len() as int, {f["id"]}),' for f in fs)}
        p_struct_begin(s) == PR::<Option<()>>::Ok(None, s0), p_fields(s0, a0_{T}(), stepf_{T}()) == PR::Ok(ax_{T}(v, its, its.len() as int), s1),
    ensures decf::<{PF}{T}>()(s) == (match p_struct_end(s1) {{ PR::Err(e) => PR::<V_{T}>::Err(e), PR::Ok(_, s2) => PR::<V_{T}>::Ok(v, s2) }}),
{{
    reveal(ax_{T}); reveal(dec_{T});
    let n = its.len() as int;
    assert(V_{T} {{ {", ".join(f["name"] + ": ax_" + T + "(v, its, n)." + f["name"] + ("->0" if f["req"] else "") for f in fs)} }} =~= v);
}}
proof fn fx_{T}(v: V_{T}, its: Seq<It>, j: int)
    requires 0 <= j < its.len(), it_{T}(v, its[j]),
    ensures fld_ok(Some(its[j].f), ax_{T}(v, its, j), ax_{T}(v, its, j + 1), its[j].c, stepf_{T}()),
{{
    reveal(it_{T}); reveal(ax_{T});
    {" ".join(f"lemma_seen(its, j, {f['id']});" for f in fs)}
    {branches}{{ fld_unknown(its[j], ax_{T}(v, its, j), stepf_{T}()); assert(ax_{T}(v, its, j + 1) =~= ax_{T}(v, its, j)); }}
}}
/// C07: the fields of v in any order, some more than once, under either header form, in any encodings their readers take, with unknown ones among them
pub proof fn thm7_{T}(v: V_{T}, its: Seq<It>)
    requires forall|j: int| 0 <= j < its.len() ==> it_{T}(v, #[trigger] its[j]),
        {" ".join((f'v.{f["name"]} is Some ==> ' if not f['req'] else '') + f'seen(its, its.len() as int, {f["id"]}),' for f in fs)}
    ensures reads(decf::<{PF}{T}>(), v, struct_bytes(its), 2 + its_cost(its, 0)),
{{
    let b = struct_bytes(its);
    let n = its.len() as int;
    let accs = Seq::new(its.len() + 1, |j: int| ax_{T}(v, its, j));
    ax0_{T}(v, its);
    assert(accs[0] == a0_{T}() && accs[n] == ax_{T}(v, its, n));
    assert forall|j: int| #![trigger its[j]] 0 <= j < its.len() implies fld_ok(Some(its[j].f), accs[j], accs[j + 1], its[j].c, stepf_{T}()) by {{ fx_{T}(v, its, j); }}
    assert forall|s: St| pre(b, s.inp) && s.pend is None && 2 + its_cost(its, 0) <= s.rem implies #[trigger] decf::<{PF}{T}>()(s) == PR::Ok(v, after(s, b.len(), 2 + its_cost(its, 0))) by {{
        r_its_struct(s, its, accs, stepf_{T}());
        let s0 = p_struct_begin(s)->Ok_1;
        axn_{T}(v, its, s, s0, p_fields(s0, a0_{T}(), stepf_{T}())->Ok_1);
    }}
    reveal(reads);
}}
'''
    req = [f for f in fs if f['req']]
    has = ''.join(f'        h{i}_{T}(s0);\n' for i, f in enumerate(fs))
    for i, f in enumerate(fs):
        o += f'''proof fn h{i}_{T}(s0: St)
    ensures p_fields(s0, a0_{T}(), stepf_{T}()) is Ok ==> (p_fields(s0, a0_{T}(), stepf_{T}())->Ok_0.{f["name"]} is Some <==> p_ids(s0, a0_{T}(), stepf_{T}()).contains({f["id"]})),
{{ lemma_carried(s0, a0_{T}(), stepf_{T}(), {f["id"]}, |a: A_{T}| a.{f["name"]} is Some); }}
'''
    o += f'''/// the ids of the fields the input carries
pub open spec fn ids_{T}(st: St) -> Seq<i16> {{ p_ids(p_struct_begin(st)->Ok_1, a0_{T}(), stepf_{T}()) }}
/// all of its fields can be read
pub open spec fn body_{T}(st: St) -> bool {{ p_struct_begin(st) is Ok && p_fields(p_struct_begin(st)->Ok_1, a0_{T}(), stepf_{T}()) is Ok }}
/// C08: with its fields readable, a value comes out exactly if all of the required ones are there; an optional one is present exactly if it was carried
pub proof fn thm8_{T}(st: St)
    ensures
        dec_{T}(st) is Ok ==> body_{T}(st),
        body_{T}(st) ==> (dec_{T}(st) is Ok <==> {" && ".join(f"ids_{T}(st).contains({f['id']})" for f in req) or "true"}),
        body_{T}(st) && dec_{T}(st) is Err ==> dec_{T}(st) == PR::<V_{T}>::Err(e_unk()),
        {"".join(f"dec_{T}(st) matches PR::Ok(v, _) ==> (v.{f['name']} is Some <==> ids_{T}(st).contains({f['id']}))," + chr(10) + "        " for f in fs if not f['req'])}
{{
    reveal(dec_{T});
    if body_{T}(st) {{
    let s0 = p_struct_begin(st)->Ok_1;
    let ids = ids_{T}(st);
{has}    }}
}}
'''
    return o

def thm7_union(t):
    T, vs = t['name'], t['variants']
    o = ''
    for i, x in enumerate(vs):
        o += thm7_is(T, i, x, f'a0_{T}()', f'(A_{T} {{ ret: Some(V_{T}::{x["name"]}(x)), n: 1 }})')
    arms = ', '.join(f'V_{T}::{x["name"]}(x) => is{i}_{T}(it, x)' for i, x in enumerate(vs))
    calls = ', '.join(f'V_{T}::{x["name"]}(x) => {{ fx{i}_{T}(it, x, a0_{T}()); }}' for i, x in enumerate(vs))
    o += f'''pub open spec fn it_{T}(v: V_{T}, it: It) -> bool {{ match v {{ {arms} }} }}
/// C07: its field in any encoding its reader takes, under either header form
pub proof fn thm7_{T}(v: V_{T}, it: It)
    requires it_{T}(v, it),
    ensures reads(decf::<{PF}{T}>(), v, struct_bytes(seq![it]), 2 + it.c),
{{
    reveal(reads);
    let its = seq![it];
    let b = struct_bytes(its);
    let accs = seq![a0_{T}(), A_{T} {{ ret: Some(v), n: 1 }}];
    match v {{ {calls} }}
    reveal_with_fuel(its_cost, 2);
    assert(its_cost(its, 0) == it.c);
    assert forall|s: St| pre(b, s.inp) && s.pend is None && 2 + it.c <= s.rem implies #[trigger] decf::<{PF}{T}>()(s) == PR::Ok(v, after(s, b.len(), 2 + it.c)) by {{
        reveal(dec_{T});
        r_its_struct(s, its, accs, stepf_{T}());
    }}
}}
pub open spec fn ids_{T}(st: St) -> Seq<i16> {{ p_ids(p_struct_begin(st)->Ok_1, a0_{T}(), stepf_{T}()) }}
pub open spec fn body_{T}(st: St) -> bool {{ p_struct_begin(st) is Ok && p_fields(p_struct_begin(st)->Ok_1, a0_{T}(), stepf_{T}()) is Ok }}
pub open spec fn vid_{T}(v: V_{T}) -> i16 {{ match v {{ {", ".join(f"V_{T}::{x['name']}(_) => {x['id']}" for x in vs)} }} }}
/// C09: with its fields readable, a value comes out exactly if there is one field only, and a known one; it is the variant of that field
pub proof fn thm9_{T}(st: St)
    ensures
        dec_{T}(st) is Ok ==> body_{T}(st),
        body_{T}(st) ==> (dec_{T}(st) is Ok <==> ids_{T}(st).len() == 1 && ({" || ".join(f"ids_{T}(st)[0] == {x['id']}" for x in vs)})),
        body_{T}(st) && dec_{T}(st) is Err ==> dec_{T}(st) == PR::<V_{T}>::Err(e_data()),
        dec_{T}(st) matches PR::Ok(v, _) ==> vid_{T}(v) == ids_{T}(st)[0],
{{
    reveal(dec_{T});
    if body_{T}(st) {{
        let s0 = p_struct_begin(st)->Ok_1;
        let ids = ids_{T}(st);
        lemma_count(s0, a0_{T}(), stepf_{T}(), |a: A_{T}| a.n);
        if ids.len() == 1 {{ lemma_single(s0, a0_{T}(), stepf_{T}()); }}
    }}
}}
'''
    return o

def thm_step(T, idf):
    each = ' else '.join(f'if f.id->0 == {i} {{ {thm_val(f["ty"], f.get("elem_tt"), "x")[4]} }}' for i, f in idf)
    return f"""proof fn ms_{T}(f: FV, s: St, a: A_{T}, e: Seq<u8>, b: nat)
    requires okb(s, b),
    ensures mono(step_{T}(f, s, a), step_{T}(f, ext(s, e, b), a), s, e, b),
{{
    {each + ' else ' if each else ''}{{ m_skip(s, e, b, f.ty, 64); }}
}}
proof fn ss_{T}(f: FV, s: St, a: A_{T})
    ensures framed(step_{T}(f, s, a), s),
{{
    {' '.join(f'if f.id->0 == {i} {{ {thm_frame(f["ty"])} }} else' for i, f in idf)} {{ k_skip(s, f.ty, 64); }}
}}
"""

def thm_impl(T, accs, first, last):
    return f"""impl Thm for {PF}{T} {{
    open spec fn cost(v: V_{T}) -> nat {{ 2 + sum(cs_{T}(v), 0) }}
    open spec fn depth(v: V_{T}) -> nat {{ 1 + maxd(ds_{T}(v), 0) }}
    open spec fn tt() -> TType {{ TType::Struct }}
    proof fn mono(st: St, e: Seq<u8>, b: nat) {{
        reveal(dec_{T});
        m_struct_begin(st, e, b);
        if let PR::Ok(_, s) = p_struct_begin(st) {{
            assert forall|f: FV, s: St, a: A_{T}| okb(s, b) implies mono(#[trigger] stepf_{T}()(f, s, a), stepf_{T}()(f, ext(s, e, b), a), s, e, b) by {{ ms_{T}(f, s, a, e, b); }}
            assert forall|f: FV, s: St, a: A_{T}| okb(s, 0) implies mono(#[trigger] stepf_{T}()(f, s, a), stepf_{T}()(f, ext(s, Seq::empty(), 0), a), s, Seq::empty(), 0) by {{ ms_{T}(f, s, a, Seq::empty(), 0); }}
            m_fields(s, e, b, a0_{T}(), stepf_{T}());
            if let PR::Ok(a, s) = p_fields(s, a0_{T}(), stepf_{T}()) {{ m_struct_end(s, e, b); }}
        }} else if let PR::Ok(_, s) = p_struct_begin(ext(st, e, b)) {{
            assert forall|f: FV, s: St, a: A_{T}| okb(s, 0) implies mono(#[trigger] stepf_{T}()(f, s, a), stepf_{T}()(f, ext(s, Seq::empty(), 0), a), s, Seq::empty(), 0) by {{ ms_{T}(f, s, a, Seq::empty(), 0); }}
            k_fields(s, a0_{T}(), stepf_{T}());
        }}
    }}
    proof fn rt(v: V_{T}, st: St) {{
        reveal(dec_{T}); reveal(enc_{T});
        fl_{T}(v);
        lf_{T}(v);
        let accs = {accs};
        r_struct(st, fs_{T}(v), accs, cs_{T}(v), stepf_{T}());
        {first}
        {last}
    }}
    proof fn skip_rt(v: V_{T}, st: St, d: nat) {{
        reveal(enc_{T});
        fl_{T}(v);
        lf_{T}(v);
        r_skip_struct(st, fs_{T}(v), cs_{T}(v), ds_{T}(v), d);
    }}
    proof fn frame(st: St) {{
        reveal(dec_{T});
        if let PR::Ok(_, s) = p_struct_begin(st) {{
            assert forall|f: FV, s: St, a: A_{T}| framed(#[trigger] stepf_{T}()(f, s, a), s) by {{ ss_{T}(f, s, a); }}
            s_struct(st, a0_{T}(), stepf_{T}());
        }}
    }}
    proof fn facts(v: V_{T}) {{ reveal(enc_{T}); reveal(enc_struct); }}
}}
"""

def thm_union(t):
    T, vs = t['name'], t['variants']
    o = ''
    for nm, k in (('c', 0), ('d', 1)):
        o += f'pub open spec fn {nm}s_{T}(v: V_{T}) -> Seq<nat> {{ seq![match v {{ {", ".join("V_" + T + "::" + x["name"] + "(x) => " + thm_val(x["ty"], None, "x")[k] for x in vs)} }}] }}\n'
    a, a2 = f'a0_{T}()', f'(A_{T} {{ ret: Some(v), n: 1 }})'
    arms = ''
    for x in vs:
        arms += f'        V_{T}::{x["name"]}(x) => {{\n        {thm_field(T, 0, x["name"], None, x, None, a, a2)}        }},\n'
    o += f"""#[verifier::spinoff_prover]
proof fn fl_{T}(v: V_{T})
    requires wf_{T}(v),
    ensures
        forall|i: int| #![trigger fs_{T}(v)[i]] 0 <= i < 1 ==> fld_ok(fs_{T}(v)[i], seq![{a}, {a2}][i], seq![{a}, {a2}][i + 1], cs_{T}(v)[i], stepf_{T}()),
        forall|i: int| #![trigger fs_{T}(v)[i]] 0 <= i < 1 ==> sk_ok(fs_{T}(v)[i], cs_{T}(v)[i], ds_{T}(v)[i]),
{{
    reveal(wf_{T}); reveal(fld_ok); reveal(sk_ok); lf_{T}(v);
    match v {{
{arms}    }}
}}
"""
    o += thm_step(T, [(x['id'], x) for x in vs])
    o += thm_impl(T, f'seq![{a}, {a2}]', '', '')
    return o

def thm_enum(t):
    T = t['name']
    return f"""impl Thm for {PF}{T} {{
    open spec fn cost(v: i32) -> nat {{ 0 }}
    open spec fn depth(v: i32) -> nat {{ 1 }}
    open spec fn tt() -> TType {{ TType::I32 }}
    proof fn mono(st: St, e: Seq<u8>, b: nat) {{ <i32 as Thm>::mono(st, e, b); }}
    proof fn rt(v: i32, st: St) {{ <i32 as Thm>::rt(v, st); }}
    proof fn skip_rt(v: i32, st: St, d: nat) {{ <i32 as Thm>::skip_rt(v, st, d); }}
    proof fn frame(st: St) {{ <i32 as Thm>::frame(st); }}
    proof fn facts(v: i32) {{ <i32 as Thm>::facts(v); }}
}}
"""

TGROUPS = 8
def theorems():
    """one module per group of types, verified in parallel"""
    load, mods = [0] * TGROUPS, [''] * TGROUPS
    w = lambda t: 3 + len(t.get('fields', [])) + 2 * len(t.get('variants', []))
    for t in sorted(SCHEMA, key=lambda t: (-w(t), t['name'])):
        g = load.index(min(load))
        load[g] += w(t)
        mods[g] += {'enum': thm_enum, 'struct': lambda t: thm_struct(t) + thm7_struct(t), 'union': lambda t: thm_union(t) + thm7_union(t)}[t['kind']](t)
    return ''.join(f"""pub mod thmt{g} {{
use vstd::prelude::*;
use crate::thrift::protocol::TType;
use crate::theory::*;
use crate::codec::*;
use crate::tspec::*;
use crate::thm::*;
broadcast use {{crate::theory::def_p_struct_begin, crate::theory::def_p_struct_end, crate::theory::def_p_bool}};
{m}}} // thmt{g}
""" for g, m in enumerate(mods))

GROUPS = 4
def groups():
    """types spread over GROUPS verification units of about equal weight"""
    load, out = [0] * GROUPS, {}
    w = lambda t: 1 + len(t.get('fields', [])) + len(t.get('variants', []))
    for t in sorted(SCHEMA, key=lambda t: (-w(t), t['name'])):
        if t['kind'] == 'enum':
            out[t['name']] = 'enum'
            continue
        g = load.index(min(load))
        load[g] += w(t)
        out[t['name']] = str(g)
    return out

def contracts():
    import gen
    s = sync_contracts()
    o = ''.join(f'#@ bucket {t} {g}\n' for t, g in groups().items())
    o += '#@ mod\n' + specs() + (theorems() if '--thm' in sys.argv else '') + '\n#@ mod *\nuse crate::tspec::*;\n' + s + gen.to_async(s)
    for t in SCHEMA:
        T = t['name']
        if t['kind'] == 'struct':
            o += f'#@ fn <{T}>::new\n    ensures\n' + ''.join(
                f'        r.{f["name"]} == ${{arg:{i}}}, //@val\n' if f['req'] else f'        crate::shim::into_eq::<_, Option<{lty(f["ty"])}>>(${{arg:{i}}}, r.{f["name"]}), //@val\n' for i, f in enumerate(t['fields'])) + ('' if t['fields'] else '        true, //@val\n')
        if t['kind'] == 'enum':
            o += f'#@ mod parquet_format\n//@@FN consts {T} body\npub proof fn consts_{T}()\n    ensures\n' + ''.join(f'        {T}::{n}.0 == {c}, //@code\n' for n, c in t['values']) + '{ }\n//@@FN - body\n'
            o += f'#@ fn <From<i32> for {T}>::from\n    ensures r.0 == ${{arg:0}}, //@val\n'
            o += f'#@ fn <From<&i32> for {T}>::from\n    ensures r.0 == *${{arg:0}}, //@val\n'
            o += f'#@ fn <From<{T}> for i32>::from\n    ensures r == ${{arg:0}}.0, //@val\n'
            o += f'#@ fn <From<&{T}> for i32>::from\n    ensures r == ${{arg:0}}.0, //@val\n'
    return o
