#!/usr/bin/env python3
"""Generates src/gen.rs (schema table + glue for the public metadata types) from ../schema.json."""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
S = json.load(open(H + '/../schema.json'))
idx = {t['name']: i for i, t in enumerate(S)}
kind = {t['name']: t['kind'] for t in S}
PRIM = {'bool': 'Bool', 'i8': 'I8', 'i16': 'I16', 'i32': 'I32', 'i64': 'I64', 'Vec<u8>': 'Bin', 'String': 'Str'}
def ty(t):
    if isinstance(t, dict): return '&Ty::List(%s)' % ty(t['list'])
    if t in PRIM: return '&Ty::%s' % PRIM[t]
    return '&Ty::Named(%d)' % idx[t]
def fld(f):
    return 'Field { name: "%s", wire: "%s", id: %d, tt: TT::%s, elem: TT::%s, req: %s, ty: %s }' % (
        f['name'], f['wire'], f['id'], f['tt'], f.get('elem_tt', 'Stop'), 'true' if f.get('req', True) else 'false', ty(f['ty']))
o = ['// generated by gen.py from schema.json', 'use crate::schema::*;', 'use crate::val::*;', 'use parquet_format_safe as pf;',
     'use pf::thrift::protocol::*;', 'use pf::thrift::Result as R;', '', 'pub static TYPES: &[TypeDef] = &[']
for t in S:
    if t['kind'] == 'enum':
        k = 'Kind::Enum(&[%s])' % ', '.join('("%s", %d)' % (a, b) for a, b in t['values'])
    elif t['kind'] == 'struct':
        k = 'Kind::Struct(&[%s])' % ', '.join(fld(f) for f in t['fields'])
    else:
        k = 'Kind::Union(&[%s])' % ', '.join(fld(f) for f in t['variants'])
    o.append('    TypeDef { name: "%s", kind: %s },' % (t['name'], k))
o.append('];')
for t in S:
    n = t['name']
    o.append('impl Conv for pf::%s {' % n)
    if t['kind'] == 'enum':
        o.append('    fn to_val(&self) -> Val { Val::I32(self.0) }')
        o.append('    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::%s(*x), _ => unreachable!() } }' % n)
    elif t['kind'] == 'struct':
        es = ', '.join(('Some(self.%s.to_val())' if f['req'] else 'self.%s.as_ref().map(|x| x.to_val())') % f['name'] for f in t['fields'])
        o.append('    fn to_val(&self) -> Val { Val::Struct(vec![%s]) }' % es)
        fs = ', '.join(('%s: Conv::from_val(f[%d].as_ref().unwrap())' if f['req'] else '%s: f[%d].as_ref().map(Conv::from_val)') % (f['name'], i) for i, f in enumerate(t['fields']))
        o.append('    fn from_val(v: &Val) -> Self { match v { Val::Struct(%s) => pf::%s { %s }, _ => unreachable!() } }' % ('f' if fs else '_', n, fs))
    else:
        o.append('    fn to_val(&self) -> Val { match self { %s } }' % ', '.join('pf::%s::%s(x) => Val::Union(%d, Box::new(x.to_val()))' % (n, v['name'], i) for i, v in enumerate(t['variants'])))
        o.append('    fn from_val(v: &Val) -> Self { match v { %s, _ => unreachable!() } }' % ', '.join('Val::Union(%d, x) => pf::%s::%s(Conv::from_val(x))' % (i, n, v['name']) for i, v in enumerate(t['variants'])))
    o.append('}')
def disp(sig, arm, rest=''):
    o.append(sig + ' {\n    match t {')
    for i, t in enumerate(S): o.append('        %d => %s,' % (i, arm(t)))
    o.append('        _ => unreachable!(),\n    }\n}')
P = lambda t: 'pf::' + t['name']
inh = lambda t: ('<%s as ReadThrift>::read_from_in_protocol(p)' if t['kind'] == 'enum' else '%s::read_from_in_protocol(p)') % P(t)
ainh = lambda t: ('<%s as AsyncReadThrift>::stream_from_in_protocol(p)' if t['kind'] == 'enum' else '%s::stream_from_in_protocol(p)') % P(t)
disp('pub fn rs<T: TInputProtocol>(t: usize, p: &mut T) -> R<Val>', lambda t: '%s.map(|v: %s| v.to_val())' % (inh(t), P(t)))
disp('pub fn rs_trait<T: TInputProtocol>(t: usize, p: &mut T) -> R<Val>', lambda t: '<%s as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val())' % P(t))
disp('pub fn rs_list<T: TInputProtocol>(t: usize, p: &mut T) -> R<Val>', lambda t: 'p.read_list::<%s>().map(|v| v.to_val())' % P(t))
disp('pub async fn ra<T: TInputStreamProtocol>(t: usize, p: &mut T) -> R<Val>', lambda t: '%s.await.map(|v: %s| v.to_val())' % (ainh(t), P(t)))
disp('pub async fn ra_trait<T: TInputStreamProtocol>(t: usize, p: &mut T) -> R<Val>', lambda t: '<%s as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val())' % P(t))
disp('pub async fn ra_list<T: TInputStreamProtocol>(t: usize, p: &mut T) -> R<Val>', lambda t: 'p.read_list::<%s>().await.map(|v| v.to_val())' % P(t))
disp('pub fn ws<T: TOutputProtocol>(t: usize, v: &Val, p: &mut T) -> R<usize>', lambda t: '%s::from_val(v).write_to_out_protocol(p)' % P(t))
disp('pub async fn wa<T: TOutputStreamProtocol>(t: usize, v: &Val, p: &mut T) -> R<usize>', lambda t: '%s::from_val(v).write_to_out_stream_protocol(p).await' % P(t))
o.append('/// equality and clone of the real types, and their order with themselves')
disp('pub fn self_eq(t: usize, a: &Val, b: &Val) -> bool', lambda t: '{ let (x, y) = (%s::from_val(a), %s::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a }' % (P(t), P(t)))
disp('pub fn size_of_type(t: usize) -> usize', lambda t: 'std::mem::size_of::<%s>()' % P(t))
# constructors
def ctor(t):
    n = t['name']
    if t['kind'] != 'struct': return 'None'
    if not t['fields']: return '{ let _ = v; Some((pf::%s::new().to_val(), pf::%s::default().to_val())) }' % (n, n)
    args = lambda direct: ', '.join(
        ('Conv::from_val(f[%d].as_ref().unwrap())' % i) if f['req'] else ('f[%d].as_ref().map(|x| <%s as Conv>::from_val(x))' % (i, rty(f['ty']))) for i, f in enumerate(t['fields']))
    return 'match v { Val::Struct(f) => Some((pf::%s::new(%s).to_val(), v.clone())), _ => unreachable!() }' % (n, args(0))
def rty(x):
    if isinstance(x, dict): return 'Vec<%s>' % rty(x['list'])
    return x if x in PRIM else 'pf::' + x
o.append('/// (value built by the constructor, value expected), for types that have a constructor')
disp('pub fn construct(t: usize, v: &Val) -> Option<(Val, Val)>', ctor)
def ctor2(t):
    """optional arguments passed bare (through Into<Option<T>>)"""
    n = t['name']
    if t['kind'] != 'struct' or not any(not f['req'] for f in t['fields']): return 'None'
    args = ', '.join('Conv::from_val(f[%d].as_ref().unwrap())' % i if f['req'] else '<%s as Conv>::from_val(f[%d].as_ref().unwrap())' % (rty(f['ty']), i) for i, f in enumerate(t['fields']))
    return 'match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::%s::new(%s).to_val()), _ => None }' % (n, args)
disp('pub fn construct_bare(t: usize, v: &Val) -> Option<Val>', ctor2)
o.append('/// for enumerations: (named constants, declared list of values, through From<i32>, From<&i32>, into i32, into i32 by reference)')
def enumt(t):
    if t['kind'] != 'enum': return 'None'
    n = 'pf::' + t['name']
    cs = ', '.join('("%s", %s::%s.0)' % (a, n, a) for a, _ in t['values'])
    return ('Some(EnumFacts { consts: vec![%s], listed: %s::ENUM_VALUES.iter().map(|x| x.0).collect(), from: %s::from(x).0, from_ref: %s::from(&x).0, into: i32::from(%s(x)), into_ref: i32::from(&%s(x)) })' % (cs, n, n, n, n, n))
disp('pub fn enum_facts(t: usize, x: i32) -> Option<EnumFacts>', enumt)
out = '\n'.join(o) + '\n'
p = H + '/src/gen.rs'
if not os.path.exists(p) or open(p).read() != out: open(p, 'w').write(out)

a = open(H + '/src/tree_sync.rs').read().replace('/*aw*/', '.await').replace('TOutputProtocol + ?Sized', 'TOutputStreamProtocol').replace('TInputProtocol', 'TInputStreamProtocol')
a = a.replace("pub fn write<P: TOutputStreamProtocol>(x: &Node, p: &mut P) -> R<usize> {", "pub fn write<'a, P: TOutputStreamProtocol>(x: &'a Node, p: &'a mut P) -> Pin<Box<dyn Future<Output = R<usize>> + 'a>> { Box::pin(async move {")
a = a.replace("pub fn read<P: TInputStreamProtocol>(x: &Node, p: &mut P) -> R<Node> {", "pub fn read<'a, P: TInputStreamProtocol>(x: &'a Node, p: &'a mut P) -> Pin<Box<dyn Future<Output = R<Node>> + 'a>> { Box::pin(async move {")
a = a.replace("pub fn step<P: TInputStreamProtocol>(op: Op, p: &mut P) -> R<String> {", "pub fn step<'a, P: TInputStreamProtocol>(op: Op, p: &'a mut P) -> Pin<Box<dyn Future<Output = R<String>> + 'a>> { Box::pin(async move {")
a = a.replace('\n}\n', '\n}) }\n').replace('(tree_async.rs is generated from this file)', '(generated from tree_sync.rs)').replace('use crate::tree::*;', 'use crate::tree::*;\nuse std::{future::Future, pin::Pin};')
p = H + '/src/tree_async.rs'
if not os.path.exists(p) or open(p).read() != a: open(p, 'w').write(a)
