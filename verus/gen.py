#!/usr/bin/env python3
"""Expands the contract templates in contracts/*.vc (and, for the generated types, the schema)
into the contract files the extractor reads.  No information from /repo is used here."""
import re, sys, os
HERE = os.path.dirname(os.path.abspath(__file__))

def expand_for(text):
    def rep(m):
        names = [n.strip() for n in m.group(1).split(',')]
        out = []
        for item in m.group(2).split(' | ' if ' | ' in m.group(2) else None):
            vals = [v.strip() for v in item.split(',,')]
            b = m.group(3)
            for n, v in zip(names, vals):
                b = b.replace('@' + n, v.replace('_for_', ' for '))
            b = re.sub(r'(?m)^(#@.*)', lambda m: m.group(1).replace('_for_', ' for '), b)
            out.append(b)
        return ''.join(out)
    return re.sub(r'^@@for (.*?) in (.*?)\n(.*?)^@@end\n', rep, text, flags=re.S | re.M)

def strip_sections(text, mode):
    """lines between `@@sync` / `@@async` and `@@both` are kept for that mode only"""
    out, cur = [], 'both'
    for l in text.splitlines(True):
        t = l.strip()
        if t in ('@@sync', '@@async', '@@both'):
            cur = t[2:]
            continue
        if cur in ('both', mode):
            out.append(l)
    return ''.join(out)

def to_async(t):
    for a, b in [('TCompactInputProtocol', 'TCompactInputStreamProtocol'), ('TCompactOutputProtocol', 'TCompactOutputStreamProtocol'),
                 ('TInputProtocol', 'TInputStreamProtocol'), ('TOutputProtocol', 'TOutputStreamProtocol'),
                 ('read_from_in_protocol', 'stream_from_in_protocol'),
                 ('write_to_out_protocol', 'write_to_out_stream_protocol'),
                 ('ReadThrift', 'AsyncReadThrift'),
                 ('protocol::compact_write', 'protocol::compact_stream_write'),
                 ('protocol::compact\n', 'protocol::compact_stream\n')]:
        t = t.replace(a, b)
    return t

def shim():
    s = open(HERE + '/shim.rs').read()
    rd = s[s.index('pub trait Read: Sized {'):s.index('//#ASYNC-BEGIN')]
    wr = s[s.index('pub trait Write: Sized {'):s.index('} // io')]
    rd = re.sub(r'(?m)^\s*spec fn intr.*\n', '', rd)
    rd = re.sub(r'\n\s*\|\| \(e\.k == ErrorKind::Interrupted.*?\),', ',', rd, flags=re.S)
    rd = re.sub(r'\n\s*&& final\(self\)\.intr\(\) <= old\(self\)\.intr\(\)', '', rd)
    rd = rd.replace(' && e.k != ErrorKind::Interrupted', '')
    assert 'ntr' not in rd.replace('entr', ''), rd
    for a, b in [('ReadExt', 'AsyncReadExt'), ('Read:', 'AsyncRead:'), ('R: Read>', 'R: AsyncRead>'), ('Take', 'AsyncTake')]:
        rd = rd.replace(a, b)
    wr = wr.replace('trait Write', 'trait AsyncWrite') + 'pub trait AsyncWriteExt {}\n'
    return s.replace('//#ASYNC-BEGIN\n', rd + wr)

def theory():
    s = open(HERE + '/theory.rs').read()
    defs = []
    for m in re.finditer(r'(?m)^//#def\npub open spec fn (\w+)(<[^(]*>)?\(', s):
        n, gen = m.group(1), m.group(2) or ''
        def close(i, o, c):
            d = 0
            while True:
                d += (s[i] == o) - (s[i] == c)
                i += 1
                if d == 0:
                    return i
        e = close(m.end() - 1, '(', ')')
        args = s[m.end():e - 1]
        b = s.index('{', e)
        body = s[b:close(b, '{', '}')]
        names = [a.split(':')[0].strip() for a in re.split(r', (?=\w+:)', args)]
        tg = '::<' + ', '.join(x.split(':')[0].strip() for x in gen[1:-1].split(',')) + '>' if gen else ''
        defs.append((n, f'pub broadcast proof fn def_{n}{gen}({args}) ensures #[trigger] {n}{tg}({", ".join(names)}) == ({body}) {{ reveal({n}); }}\n'))
    s = s.replace('//#def\n', '#[verifier::opaque]\n')
    i = s.rindex('}')
    return s[:i] + ''.join(d for _, d in defs) + 'pub broadcast group defs { ' + ', '.join('def_' + n for n, _ in defs) + ' }\n' + s[i:]

def common():
    star = ('#@ mod *\nuse vstd::prelude::*;\nuse crate::theory::*;\nuse crate::lemmas::*;\n'
            'use crate::codec::*;\nuse crate::shim::io::{ReadExt as _, AsyncReadExt as _};\n'
            'use crate::thrift::protocol::TInputProtocolExt as _;\nuse vstd::std_specs::convert::IntoSpec as _;\n'
            'use crate::thrift::protocol::stream::TInputStreamProtocolExt as _;\n')
    root = '#@ mod\n' + shim() + theory() + open(HERE + '/codec.rs').read() + open(HERE + '/lemmas.rs').read() + (open(HERE + '/theorems.rs').read() if '--thm' in sys.argv else '')
    b = 'crate::shim::into_group, crate::theory::vec_u8_dv'
    o = root + '\n' + star
    for m, x in [('thrift', 'use crate::plemmas::*;\nbroadcast use {%s, crate::theory::pends};'), ('thrift::varint', 'broadcast use {crate::theory::def_ienc, crate::theory::def_pfx, %s};'), ('parquet_format', 'broadcast use {%s, crate::theory::pends, crate::theory::pfxs, crate::codec::w_list_pfx};')] + \
            [('thrift::protocol::' + p, 'use crate::plemmas::*;\nbroadcast use {%s, crate::theory::defs' + '};') for p in ['compact', 'compact_write', 'compact_stream', 'compact_stream_write']]:
        o += f'#@ mod {m}/*\n{x % b}\n'
    return o

def base():
    out = ''
    for f in ['varint.vc', 'errors.vc', 'ident.vc']:
        p = HERE + '/contracts/' + f
        if os.path.exists(p):
            out += expand_for(open(p).read())
    for f in ['proto.vc']:
        p = HERE + '/contracts/' + f
        if os.path.exists(p):
            t = expand_for(open(p).read())
            out += strip_sections(t, 'sync') + to_async(strip_sections(t, 'async'))
    return out

if __name__ == '__main__':
    d = sys.argv[1]
    os.makedirs(d, exist_ok=True)
    open(d + '/00_common.vc', 'w').write(common())
    open(d + '/10_base.vc', 'w').write(base())
    if '--nopq' not in sys.argv and os.path.exists(HERE + '/gentypes.py'):
        sys.path.insert(0, HERE)
        import gentypes
        open(d + '/20_types.vc', 'w').write(gentypes.contracts())
    else:
        open(d + '/20_types.vc', 'w').write('#@ skipmod parquet_format\n')
