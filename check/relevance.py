"""Which contract clauses each property rests on.

GROUPS: name -> predicate on (module, function key).
RULES:  property -> list of (groups, clause tags).  A clause tag is the `//@tag` comment that ends a
line of an ensures clause in the contract files; obligations without a tag (loop invariants, callee
preconditions, assertions, arithmetic, termination) count for every property that lists the function."""
import re

def _k(rx):
    c = re.compile(rx)
    return lambda m, k: bool(c.search(k))

def _is_types(m):
    return m.startswith('parquet_format')

GROUPS = {
    'VI': lambda m, k: m == 'thrift::varint::decode' and 'VarIntReader' not in k,
    'VR': lambda m, k: m.startswith('thrift::varint') and ('Processor' in k or 'Reader' in k),
    'VW': lambda m, k: m.startswith('thrift::varint::encode'),
    'RD': lambda m, k: not _is_types(m) and bool(re.search(r'TCompactInput(Stream)?Protocol|u8_to_type|field_id$|TryFrom<u8> for TMessageType|trait TInput|ReadThrift for', k)) and 'Box<' not in k and not re.search(r'::(skip|skip_till_depth|read_list)$', k),
    'LIST': lambda m, k: not _is_types(m) and k.endswith('::read_list'),
    'SKIP': lambda m, k: bool(re.search(r'::(skip|skip_till_depth)$', k)),
    'STRUCT': _k(r'(Input|trait TInput).*::read_struct_(begin|end)$'),
    'FIELD': _k(r'(Input).*::read_field_(begin|end)$|u8_to_type|field_id$'),
    'WR': lambda m, k: not _is_types(m) and bool(re.search(r'TCompactOutput(Stream)?Protocol|type_to_u8|From<TMessageType> for u8|trait TOutput', k)) and 'Box<' not in k,
    'FLUSH': _k(r'::flush$'),
    'BOX': _k(r'for Box<'),
    'MSG': _k(r'message_(begin|end)$|TMessageType|verify_expected|TMessageIdentifier|_to_type$|type_to_u8$'),
    'IDENT': lambda m, k: m == 'thrift::protocol' and k.endswith('Identifier>::new'),
    'REQ': _k(r'verify_required_field_exists$'),
    'ERR': lambda m, k: m == 'thrift::errors' and 'application_error_' not in k,
    'APP': lambda m, k: m == 'thrift::errors' and ('application_error_' in k or 'pplicationError' in k),
    'TR': lambda m, k: _is_types(m) and bool(re.search(r'ReadThrift|read_from_in_protocol|stream_from_in_protocol', k)),
    'TW': lambda m, k: _is_types(m) and bool(re.search(r'WriteThrift|write_to_out', k)),
    'TN': lambda m, k: _is_types(m) and k.endswith('::new'),
    'TE': lambda m, k: _is_types(m) and ('From<' in k or k.startswith('consts ')),
    'LEM': lambda m, k: False,
}

VAL = {'val', 'decode', 'encode', 'zigzag', 'push', 'finished', 'max', 'charge', 'skip', 'required'}
RERR = {'err', 'charge', 'skip', 'required', 'map', 'push', 'finished', 'max', 'decode'}
WERR = {'werr', 'fits', 'err'}
ANY = None
RULES = {
    'C01': [('RD LIST VR VI WR VW STRUCT FIELD TR TW', VAL | {'fits', 'space'}), ('REQ', ANY)],
    'C02': [('WR VW VI TW', VAL | {'count', 'space'} | WERR)],
    'C03': [('RD LIST SKIP VR VI TR ERR APP', VAL | RERR)],
    'C04': [('RD LIST SKIP VR VI TR ERR APP', set())],
    'C05': [('RD LIST TR', VAL | RERR)],
    'C06': [('WR VW VI TW', {'count', 'space', 'encode', 'val'})],
    'C07': [('SKIP FIELD TR', VAL | RERR)],
    'C08': [('TR REQ', VAL | RERR)],
    'C09': [('TR', VAL | RERR)],
    'C10': [('VI VR VW', ANY)],
    'C11': [('WR VW VI TW RD LIST VR TR', VAL)],
    'C12': [('RD LIST VR VI ERR TR', VAL | RERR)],
    'C13': [('WR VW FLUSH TW', {'val', 'encode', 'cut', 'flush'} | WERR), ('APP', {'cut', 'err', 'werr', 'flush'})],
    'C14': [('SKIP STRUCT', ANY)],
    'C15': [('RD WR IDENT VR VW VI LIST', VAL | {'fits', 'space'})],
    'C16': [('BOX', ANY)],
    'C17': [('APP', ANY), ('SKIP', ANY)],
    'C18': [('VR VW', VAL | RERR | {'count'}), ('RD WR', {'val'})],
    'C19': [('TE', ANY), ('TR TW', VAL)],
    'C20': [('ERR', ANY), ('RD WR VR VW LIST SKIP TR TW', {'err', 'werr', 'map'})],
    'C21': [('RD LIST VR TR STRUCT', VAL)],
    'C22': [('RD LIST VR TR SKIP', VAL | RERR)],
    'C23': [('MSG', ANY), ('ERR', ANY)],
    'C24': [('TN IDENT', ANY), ('ERR', {'map'})],
}

def groups_of(module, key):
    return {g for g, f in GROUPS.items() if f(module, key)}

def relevant(prop, module, key, tag):
    """tag None: an untagged obligation (invariant, precondition, overflow, termination, assertion)"""
    gs = groups_of(module, key)
    for names, tags in RULES[prop]:
        if gs & set(names.split()):
            if tag is None or tags is None or tag in tags:
                return True
    return False

def has_fn(prop, module, key):
    return any(groups_of(module, key) & set(names.split()) for names, _ in RULES[prop])

# The theorems (proof functions of verus/theorems.rs and verus/gentypes.py, as patterns) that turn the contracts into the
# property as it is stated, and whether they are about the generated types too or about the protocol layer alone.
_T = '[A-Z]\\w*'
THEOREMS = {
    'C01': (['thm_round_trip', 'thm_injective'], 'types'),
    'C02': (['thm_agree_w'], 'protocol'),
    'C03': (['thm_agree'], 'protocol'),
    'C05': (['thm_budget', 'thm_budget_exact'], 'types'),
    'C07': (['thm7_' + _T], 'types'),
    'C08': (['thm8_' + _T], 'types'),
    'C09': (['thm9_' + _T], 'types'),
    'C10': (['thm_shortest', 'thm_zigzag', 'thm_varint'], 'protocol'),
    'C12': (['thm_truncated'], 'types'),
    'C14': (['thm_skip', 'thm_skip_zero', 'k_skip', 'skips_' + r'\w+'], 'protocol'),
    'C15': (['thm_calls'], 'protocol'),
    'C17': (['thm_app', 'thm_app_round_trip'], 'protocol'),
    'C21': (['thm_sequence', 'thm_no_over_reading'], 'types'),
    'C22': (['thm_larger_budget'], 'types'),
    'C23': (['thm_message'], 'protocol'),
}

def theorems(prop):
    return THEOREMS.get(prop, ([], ''))
