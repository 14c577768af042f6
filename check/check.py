#!/usr/bin/env python3
"""check.py PROPERTY quick|thorough      decides one property for /repo's current working tree.

1. extracts the code under contract from /repo/src (extractor/), weaves in the contracts
   (verus/contracts, verus/*.rs, verus/gentypes.py) and has Verus discharge every obligation of the
   functions the property rests on;
2. builds the harness against /repo and runs the property's bounded stand-in (harness/), which covers what
   is not under contract and looks for the failing input when an obligation fails;
3. writes /verif/evidence/PROPERTY.json.
Exit 0: held on everything explored.  Exit 1 and a VIOLATION line: violated."""
import json, os, re, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, VERIF + '/verus')
import relevance

PROP, TIER = sys.argv[1], (sys.argv[2] if len(sys.argv) > 2 else 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
BUILD = os.environ.get('VERIF_BUILD', VERIF + '/build')
W = f'{BUILD}/{PROP}'
EVID = os.environ.get('VERIF_EVIDENCE', VERIF + '/evidence')
T0 = time.time()
os.makedirs(W, exist_ok=True)
os.makedirs(EVID + '/replays', exist_ok=True)
notes = []
THOROUGH = TIER == 'thorough'
RLIMIT = '60' if THOROUGH else '30'

def run(cmd, timeout, **kw):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, **kw)
        return p.returncode, p.stdout.decode('utf8', 'replace'), p.stderr.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace'), (e.stderr or b'').decode('utf8', 'replace')

# ------------------------------------------------------------------ building
def build_extractor():
    exe = VERIF + '/extractor/target/release/extractor'
    rc, o, e = run(['cargo', 'build', '--offline', '--release', '-q'], 600, cwd=VERIF + '/extractor')
    return exe if rc == 0 else None

def build_harness():
    d = VERIF + '/harness'
    env = dict(os.environ, CARGO_TARGET_DIR=d + '/target')
    cmd = ['cargo', 'build', '--offline', '-q']
    if REPO != '/repo':        # development only: the same harness against another copy of the code
        d2 = BUILD + '/harness-src'
        os.makedirs(d2, exist_ok=True)
        run(['cp', '-a', d + '/src', d + '/Cargo.toml', d + '/Cargo.lock', d2], 60)
        t = open(d2 + '/Cargo.toml').read().replace('path = "/repo"', f'path = "{REPO}"')
        open(d2 + '/Cargo.toml', 'w').write(t)
        d = d2
        env['CARGO_TARGET_DIR'] = BUILD + '/harness-target'
    rc, o, e = run(cmd, 800, cwd=d, env=env)
    if rc != 0:
        return None, e
    return env['CARGO_TARGET_DIR'] + '/debug/harness', ''

# ------------------------------------------------------------------ literals of the code under test
def literals(root):
    ints, strs = set(), set()
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            if not f.endswith('.rs'):
                continue
            s = open(os.path.join(d, f), encoding='utf8', errors='replace').read()
            s = re.sub(r'//[^\n]*', '', s)
            for m in re.finditer(r'"((?:[^"\\]|\\.){1,60})"', s):
                strs.add(m.group(1))
            s = re.sub(r'"(?:[^"\\]|\\.)*"', '""', s)
            num = r'(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?:_?[iu](?:8|16|32|64|size))?'
            for m in re.finditer(r'(?<![\w.])' + num + r'(?![\w])', s):
                try:
                    ints.add(int(m.group(1).replace('_', ''), 0))
                except ValueError:
                    pass
            for m in re.finditer(r'(?<![\w.])' + num + r'\s*(<<|\*)\s*' + num, s):
                try:
                    a, b = int(m.group(1).replace('_', ''), 0), int(m.group(3).replace('_', ''), 0)
                    v = a << b if m.group(2) == '<<' and b < 70 else a * b
                    if v < 1 << 70:
                        ints.add(v)
                except ValueError:
                    pass
            for m in re.finditer(r'\b([iu])(8|16|32|64|size)::(MAX|MIN)\b', s):
                b = 64 if m.group(2) == 'size' else int(m.group(2))
                lo, hi = (-(1 << b - 1), (1 << b - 1) - 1) if m.group(1) == 'i' else (0, (1 << b) - 1)
                ints.add(hi if m.group(3) == 'MAX' else lo)
    return ints, strs

def write_dict(path):
    ints, strs = literals(REPO + '/src')
    try:
        base = json.load(open(HERE + '/literals.json'))
    except Exception:
        base = {'ints': [], 'strs': []}
    new_i, new_s = ints - set(base['ints']), strs - set(base['strs'])
    ints = new_i if new_i else {i for i in ints if i > 20}
    strs = new_s
    with open(path, 'w') as f:
        for i in sorted(ints):
            f.write(f'i {i}\n')
            f.write(f'i {-i}\n')
        for s in sorted(strs):
            if '\\' not in s and '\n' not in s:
                f.write(f's {s}\n')
    return len(ints), len(strs)

# ------------------------------------------------------------------ the proof
class Proof:
    status = 'none'            # 'proved' | 'failed' | 'degraded'
    def __init__(self):
        self.failed = []       # relevant failed obligations
        self.undecided = []    # obligations the verifier could not attempt or finish
        self.verified = self.errors = self.smt_ms = 0
        self.functions = []
        self.clauses = 0
        self.dropped = []
        self.inlined = []          # helpers without a contract, inlined by the extractor
        self.cmd = ''
        self.secs = 0.0
        self.modules = []
        self.vacuity = {'assertions': 0, 'refuted': 0}   # thorough only
        self.theorems = []         # proof functions that derive the property from the contracts

def fn_map(path):
    """line -> function key, from the //@@FN markers; also clause tags per line"""
    marks, tags = [], {}
    cur_mod = []
    lines = open(path, encoding='utf8').read().split('\n')
    for n, l in enumerate(lines, 1):
        if '//@@FN ' in l:
            k = l.split('//@@FN ', 1)[1].rsplit(' ', 1)
            marks.append((n, k[0], k[1] if len(k) > 1 else 'body'))
        m = re.search(r'//@(\w+)\s*$', l)
        if m and '//@@' not in l:
            tags[n] = m.group(1)
    return lines, marks, tags

def at(marks, n):
    r = None
    for m in marks:
        if m[0] <= n:
            r = m
        else:
            break
    return r

# One verifier run per unit of the code: `thrift` (everything but the Parquet types) and, of the Parquet types, the readers
# and writers, each synchronous (s) and async (a).  A unit is checked against the contracts of the others.
# `thm` holds no code: there the theorems that make the property out of the contracts are proved (verus/theorems.rs).
UNITS = {'thrift': None, 'rs': 'rs', 'ra': 'ra', 'ws': 'ws', 'wa': 'wa', 'types': 'none'}

def unit_of(module, key):
    if not module.startswith('parquet_format'):
        return 'thrift'
    m = re.match(r'parquet_format::(rs|ra|ws|wa)_', module)
    if m:
        return m.group(1)
    return 'types'

def weave(unit, d, extra):
    cdir = d + '/contracts'
    nopq = unit == 'thrift' or unit == 'thm' and relevance.theorems(PROP)[1] == 'protocol'
    rc, o, e = run([sys.executable, VERIF + '/verus/gen.py', cdir] + (['--nopq'] if nopq else []) + (['--thm'] if unit == 'thm' else []), 60)
    if rc != 0:
        return 'gen: ' + e[-500:]
    if not nopq:
        open(cdir + '/30_parts.vc', 'w').write(f'#@ parts {UNITS.get(unit, "none")}\n')
    try:        # names that are not among these belong to helpers an edit split off: their calls are inlined
        names = {k.rsplit('::', 1)[-1] for k in json.load(open(VERIF + '/verus/baseline.json'))['functions']}
        open(cdir + '/80_known.vc', 'w').write('#@ known ' + ' '.join(sorted(names)) + '\n')
    except (OSError, ValueError):
        pass
    if extra:
        open(cdir + '/90_extra.vc', 'w').write(extra)
    elif os.path.exists(cdir + '/90_extra.vc'):
        os.remove(cdir + '/90_extra.vc')
    vcs = sorted(cdir + '/' + f for f in os.listdir(cdir) if f.endswith('.vc'))
    rc, o, e = run([EXTRACTOR, REPO + '/src'] + vcs + ['--', d + '/o.rs', d + '/i.json'], 120)
    if rc != 0:
        return 'extract: ' + (e + o)[-800:]
    return None

class Unit:
    def __init__(self, name, threads, lemmas):
        self.name, self.threads, self.lemmas = name, threads, lemmas
        self.undecided, self.fns, self.errs, self.mods = [], [], [], []
        self.verified = self.errors = self.smt_ms = 0
        self.clauses = 0
        self.bare = set()       # functions whose proof hints did not fit and were left out
        self.cmd, self.ok, self.extra = '', False, ''
        self.info = {'missing_contract_targets': [], 'problems': [], 'dropped': [], 'functions': []}

def prove_unit(u):
    d = f'{W}/{u.name}'
    os.makedirs(d, exist_ok=True)
    extra, tried, whole, kept = '', set(), set(), None
    for attempt in range(6):
        err = weave(u.name, d, extra)
        if err and kept:
            break
        if err:
            u.undecided.append({'function': '*', 'reason': f'the code of unit {u.name} could not be brought into the verifier: ' + err})
            return
        info = json.load(open(d + '/i.json'))
        rel = [f for f in info['functions'] if relevance.has_fn(PROP, f['module'], f['key']) and unit_of(f['module'], f['key']) == u.name]
        u.lines, u.marks, u.tags = fn_map(d + '/o.rs')
        mods = sorted({f['module'] for f in rel}) + u.lemmas
        if u.name == 'thm':
            mods += sorted(set(re.findall(r'^pub mod (thmt\d+)', open(d + '/o.rs', encoding='utf8').read(), re.M)))
        cmd = ['verus', 'o.rs', '--triggers-mode', 'silent', '--num-threads', str(u.threads), '--error-format=json', '--output-json', '--time-expanded',
               '--multiple-errors', '6', '--rlimit', str(3 * int(RLIMIT)) if whole else RLIMIT, '--no-report-long-running'] + ([] if THOROUGH else ['--no-lifetime'])
        for m in mods:
            cmd += ['--verify-only-module', m]
        u.cmd = f'(in {d}) ' + ' '.join(cmd)
        rc, o, e = run(cmd, 300 if kept else 780, cwd=d)
        diags = []
        for l in e.splitlines():
            if l.startswith('{'):
                try:
                    diags.append(json.loads(l))
                except ValueError:
                    pass
        errs = [x for x in diags if x.get('level') == 'error' and x.get('spans')]
        if rc == 'timeout':
            if kept:
                break
            u.undecided.append({'function': '*', 'reason': f'the verifier ran out of time on unit {u.name}'})
            return
        try:
            js = json.loads(o[o.index('{'):])
            vr = js['verification-results']
        except Exception:
            vr = None
        if vr is None or vr.get('encountered-vir-error') or 'verified' not in vr or (rc != 0 and vr.get('errors', 0) == 0):
            if kept:
                break
            # something the verifier does not accept: leave out the function it complains about and retry
            bad = set()
            for x in errs:
                for sp in x['spans']:
                    if sp.get('is_primary') and sp['file_name'].endswith('o.rs'):
                        m = at(u.marks, sp['line_start'])
                        if m:
                            bad.add(m[1])
            bad -= tried
            reason = '; '.join(x['message'] for x in errs)[:400] or e[-400:]
            if not bad and attempt < 4:      # it stopped without saying where: what it hardly supports goes first
                bad = {f['key'] for f in info['functions'] if '|closure|' in f['calls']} - tried
                u.bare |= bad
            if not bad or attempt >= 4:
                u.undecided.append({'function': ', '.join(sorted(bad)) or '*', 'reason': f'unit {u.name} is not accepted by the verifier: ' + reason})
                return
            for k in sorted(bad):
                if k not in u.bare:       # first without the proof hints: the contract may follow without them
                    u.bare.add(k)
                    extra += f'#@ fn {k}\n#@ nohints\n'
                    continue
                tried.add(k)
                extra += f'#@ fn {k}\n#@ attr #[verifier::external_body]\n'
                u.undecided.append({'function': k, 'reason': 'not accepted by the verifier, contract assumed instead: ' + reason})
            continue
        # a loop invariant need not mention what an edit put before the loop: where a function with loops fails, the facts
        # known there are carried into its loops, and it gets more of the solver's resources, before the failure counts
        def failing(errs):
            return [({m[1] for sp in x['spans'] if sp['file_name'].endswith('o.rs') for m in [at(u.marks, sp['line_start'])] if m and m[2] == 'body'}, x) for x in errs]
        if kept:
            still = set().union(*[k for k, x in failing(errs)]) if errs else set()
            if still & whole:
                gone = whole - still
                u.lines, u.marks, u.tags = kept[2:5]
                errs = [x for k, x in failing(kept[0]) if not k or k - gone]
                u.lines, u.marks, u.tags, info, rel, mods = kept[2:8]
            kept = None
            break
        loops = {f['key'] for f in rel if f['loops']}
        whole = set().union(*[k for k, x in failing(errs)]) & loops if errs else set()
        if not whole:
            break
        kept = (errs, vr, u.lines, u.marks, u.tags, info, rel, mods, js, u.cmd)
        for k in sorted(whole):
            extra += f'#@ fn {k}\n#@ attr #[verifier::loop_isolation(false)] #[verifier::allow_complex_invariants]\n'
    if kept:      # the second run gave no answer: the first counts
        errs, vr, u.lines, u.marks, u.tags, info, rel, mods, js, u.cmd = kept
    u.fns, u.errs, u.info, u.mods = rel, errs, info, mods
    u.verified, u.errors = vr['verified'], vr['errors']
    u.smt_ms = js.get('times-ms', {}).get('smt', {}).get('smt-run', 0) if isinstance(js.get('times-ms'), dict) else 0
    u.clauses = count_clauses(u.lines, u.marks, {f['key'] for f in rel})
    u.ok, u.extra = True, extra

def prove(p):
    t0 = time.time()
    base = json.load(open(VERIF + '/verus/baseline.json')) if os.path.exists(VERIF + '/verus/baseline.json') else None
    needed = {unit_of(v['module'], k) for k, v in base['functions'].items() if relevance.has_fn(PROP, v['module'], k)} if base else set(UNITS)
    names = [n for n in UNITS if n in needed]
    types = [n for n in names if n != 'thrift']
    names += ['thm'] if relevance.theorems(PROP)[0] else []
    th = 8 if len(names) == 1 else 4 if len(names) == 2 else 2
    units = []
    for n in names:
        lem = ['lemmas', 'plemmas', 'theory', 'codec'] if n == 'thrift' or 'thrift' not in names and n == names[0] else []
        units.append(Unit(n, th, ['thm'] if n == 'thm' else lem + (['tspec'] if types and n == types[0] else [])))
    def go(u):
        try:
            prove_unit(u)
        except Exception as ex:
            u.undecided.append({'function': '*', 'reason': f'internal: {ex!r}'})
    ths = [threading.Thread(target=go, args=(u,)) for u in units]
    for t in ths:
        t.start()
    for t in ths:
        t.join()
    for u in units:
        p.undecided += u.undecided
        p.verified += u.verified
        p.errors += u.errors
        p.smt_ms += u.smt_ms
        p.clauses += u.clauses
        p.functions += [f'{f["module"]} {f["key"]}' for f in u.fns]
        p.dropped += [x for x in u.info['dropped'] if x not in p.dropped]
        p.inlined += [x for x in u.info.get('inlined', []) if x not in p.inlined]
        p.modules += [m for m in u.mods if m not in p.modules]
        if u.name == 'thm' and u.ok:
            theorems_of(p, u)
    p.cmd = ' ; '.join(u.cmd for u in units)
    if THOROUGH and not any(u.errs or u.undecided for u in units):
        ths = [threading.Thread(target=lambda u=u: vacuity(p, u)) for u in units if u.ok and u.name != 'thm']
        for t in ths:
            t.start()
        for t in ths:
            t.join()
    okunits = {u.name for u in units if u.ok}
    allfns = {}
    for u in units:
        for f in u.info['functions']:
            allfns.setdefault(f['key'], f)
    contracted = set(base['functions']) if base else set()
    # anchors: a contracted function that is gone, or a new function without contract
    for k in sorted(contracted):
        v = base['functions'][k]
        if k not in allfns and relevance.has_fn(PROP, v['module'], k) and unit_of(v['module'], k) in okunits:
            p.undecided.append({'function': k, 'reason': 'the function is no longer there'})
    for k in sorted({k for u in units for k in u.info['missing_contract_targets']}):
        if k not in allfns:
            p.undecided.append({'function': k, 'reason': 'the contract has no target'})
    new = {k for k, f in allfns.items() if k not in contracted and not f['contract']} if base else set()
    seen = set()
    for u in units:
        for pr in u.info['problems']:
            k = pr.get('fn') or pr.get('key') or '*'
            t = f'extraction: {json.dumps(pr)[:300]}'
            if (k, t) not in seen:
                seen.add((k, t))
                p.undecided.append({'function': k, 'reason': t})
    und = {x['function'] for x in p.undecided}
    for u in units:
        for d in u.errs:
            classify(p, u, d, base, allfns, new, und)
    nk = {re.sub(r'^.*::', '', k): k for k in new}
    for u in units:
        for f in u.fns:
            for c in sorted({re.sub(r'^.*::|^\.', '', c) for c in f['calls']} & set(nk)):
                if not any(x['function'] == nk[c] for x in p.undecided):
                    p.undecided.append({'function': nk[c], 'reason': f'a new function without contract, called by {f["key"]}'})
    relund = [x for x in p.undecided if not x.get('other')]
    if not p.functions:
        relund.append({'function': '*', 'reason': 'no function this property rests on is under contract'})
        p.undecided.append(relund[-1])
    p.status = 'failed' if p.failed else ('degraded' if relund else 'proved')
    p.secs = time.time() - t0

def vacuity(p, u):
    """thorough: with `assert(false)` at the end of every function and at the start of every loop body, each of them has to
    fail; one that is proved would mean contradictory preconditions, invariants or assumed contracts"""
    d = f'{W}/{u.name}'
    extra = u.extra
    for f in u.fns:
        extra += f'#@ fn {f["key"]}\n#@ end\n    assert(false); //@@VAC\n'
        for i in range(len(f['loops'])):
            extra += f'#@ fn {f["key"]}\n#@ loop {i} {f["loops"][i]}\n#@ loopstart\n    assert(false); //@@VAC\n'
    if weave(u.name, d, extra):
        return
    lines, marks, tags = fn_map(d + '/o.rs')
    want = {i + 1: at(marks, i + 1) for i, l in enumerate(lines) if '//@@VAC' in l}
    cmd = ['verus', 'o.rs', '--triggers-mode', 'silent', '--num-threads', str(u.threads), '--error-format=json', '--multiple-errors', '9', '--rlimit', '20', '--no-report-long-running', '--no-lifetime']
    for m in sorted({f['module'] for f in u.fns}):
        cmd += ['--verify-only-module', m]
    rc, o, e = run(cmd, 200, cwd=d)
    hit, limits = set(), set()
    for l in e.splitlines():
        try:
            x = json.loads(l) if l.startswith('{') else {}
        except ValueError:
            continue
        if x.get('level') == 'error':
            for sp in x.get('spans', []):
                hit.add(sp['line_start'])
                m = at(marks, sp['line_start'])
                if m and 'assertion failed' not in x['message']:
                    limits.add(m[1])       # gave up before reaching the assertion
    if rc == 'timeout' or not hit & set(want):
        return
    proved = sorted({m[1] for i, m in want.items() if i not in hit and m and m[1] not in limits})
    p.vacuity['assertions'] += len(want)
    p.vacuity['refuted'] += len(hit & set(want))
    for k in proved:
        p.undecided.append({'function': k, 'reason': 'assert(false) is proved in it: what it assumes is contradictory'})

def theorems_of(p, u):
    """which of the property's theorems were established: each is there in the woven text, and its unit has no failure"""
    text = '\n'.join(u.lines)
    for t in relevance.theorems(PROP)[0]:
        found = sorted(set(re.findall(r'proof fn (' + t + r')\b', text)))
        if not found:
            p.undecided.append({'function': t, 'reason': 'the theorem is missing'})
        elif not u.errors:
            p.theorems += found

def classify(p, u, d, base, allfns, new, und):
    prim = [s for s in d['spans'] if s.get('is_primary')] or d['spans']
    spans = [s for s in d['spans'] if s['file_name'].endswith('o.rs')]
    # the function is the one whose body holds a span; a failed postcondition points (primary) at the clause
    body = None
    for s in sorted(spans, key=lambda s: s.get('is_primary', False)):
        m = at(u.marks, s['line_start'])
        if m and m[2] == 'body':
            body = m
            if not s.get('is_primary'):
                break
    msg = d['message']
    tag = None
    if 'postcondition' in msg or 'ensures' in msg:
        for s in spans:
            if s.get('is_primary') and s['line_start'] in u.tags:
                tag = u.tags[s['line_start']]
    key = body[1] if body else '?'
    f = allfns.get(key)
    if key.startswith('consts '):      # the named constants of an enumeration
        f = {'module': 'parquet_format', 'calls': [], 'loops': []}
    mod = f['module'] if f else '?'
    text = '; '.join(t['text'].strip() for s in prim for t in s['text'][:2])[:300]
    ob = {'function': key, 'module': mod, 'obligation': msg, 'clause': text, 'tag': tag, 'rendered': d.get('rendered', '')[:3000]}
    limits = 'rlimit' in msg.lower() or 'resource limit' in msg.lower() or 'timed out' in msg.lower()
    why = None
    if u.name == 'thm':
        key, why = 'a theorem', 'a theorem over the contracts could not be established for the types as they are'
    elif key == '?':
        why = 'the failed obligation lies outside the code under contract'
    elif limits:
        why = 'the solver ran out of resources'
    elif key == '-' or key in new or not f:
        why = 'a new function without contract'
    elif key in u.bare:
        why = 'the hints of the proof do not fit the function as it is now, and it does not go through without them'
    elif key in und or '*' in und:
        why = 'the contract could not be applied as written'
    elif base and key in base['functions'] and base['functions'][key]['loops'] != f['loops']:
        why = 'the loops of the function have changed, so the invariants do not apply'
    else:
        names = {re.sub(r'^.*::|^\.', '', c) for c in f['calls']}
        nk = {re.sub(r'^.*::', '', k) for k in new}
        if '|closure|' in f['calls']:
            why = 'the function uses a closure, about whose results the verifier knows nothing'
        elif names & nk:
            why = 'the function calls a helper without contract: ' + ', '.join(sorted(names & nk))
    if why:
        p.undecided.append({'function': key, 'reason': why + f' ({msg}: {text})'})
    elif relevance.relevant(PROP, mod, key, tag):
        p.failed.append(ob)
    else:
        p.undecided.append({'function': key, 'reason': f'fails an obligation this property does not rest on ({msg}: {text})', 'other': True})

def count_clauses(lines, marks, keys):
    """number of tagged ensures clauses of the relevant functions (as woven; trait clauses count once per trait function)"""
    n = 0
    for i, (ln, k, kind) in enumerate(marks):
        end = marks[i + 1][0] if i + 1 < len(marks) else len(lines)
        if k in keys or kind == 'decl':
            n += sum(1 for l in lines[max(0, ln - 1):end] if re.search(r'//@\w+\s*$', l) and '//@@' not in l)
    return n

EXTRACTOR = None

# ------------------------------------------------------------------ the bounded stand-in
class Bounded:
    def __init__(self):
        self.status = 'none'   # held | failed | unbuilt
        self.data = {}
        self.dict = W + '/dict.txt'
        self.err = ''

def harness_run(b, exe, secs, threads, seed):
    out, marks = W + '/h.json', W + '/mark'
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, RUST_BACKTRACE='0')
    rc, o, e = run([exe, PROP, '--seed', str(seed), '--secs', str(secs), '--threads', str(threads), '--min', '200', '--out', out, '--marks', marks, '--dict', b.dict], secs + 240, env=env)
    d = None
    if os.path.exists(out):
        try:
            d = json.load(open(out))
        except ValueError:
            pass
    if rc == 0 and d and d.get('failure') is None:
        b.status = 'held'
        for k in ('cases', 'evaluations', 'distinct'):
            b.data[k] = b.data.get(k, 0) + d[k]
        return
    if rc == 1 and d and d.get('failure'):
        b.status = 'failed'
        b.data['failure'] = dict(d['failure'], seed=seed)
        for k in ('cases', 'evaluations', 'distinct'):
            b.data[k] = b.data.get(k, 0) + d.get(k, 0)
        return
    # the process died (stack overflow, abort) or hung: find the case
    for t in range(threads):
        try:
            i = int.from_bytes(open(f'{marks}.{t}', 'rb').read(8), 'little')
        except OSError:
            continue
        rc2, o2, e2 = run([exe, PROP, '--seed', str(seed), '--case', str(i), '--dict', b.dict], 60, env=env)
        if rc2 != 0:
            b.status = 'failed'
            b.data['failure'] = {'case': i, 'seed': seed, 'message': f'the process under test ended with {rc2}: {(o2 + e2).strip()[-400:]}'}
            return
    b.err = f'harness ended with {rc} and no case reproduces it: {e[-300:]}'
    if b.status == 'none':
        b.status = 'unbuilt'

# ------------------------------------------------------------------ main
def main():
    global EXTRACTOR
    p, b = Proof(), Bounded()
    nd = write_dict(b.dict)
    hx = {}
    def hthread():
        exe, err = build_harness()
        hx['exe'], hx['err'] = exe, err
        if exe:
            harness_run(b, exe, 12 if not THOROUGH else 200, 4, SEED)
        else:
            b.status = 'unbuilt'
            b.err = err[-600:]
    th = threading.Thread(target=hthread)
    th.start()
    try:
        EXTRACTOR = build_extractor()
        if EXTRACTOR:
            prove(p)
        else:
            p.status = 'degraded'
            p.undecided.append({'function': '*', 'reason': 'the extractor could not be built'})
    except Exception as ex:
        p.status = 'degraded'
        p.undecided.append({'function': '*', 'reason': f'internal: {ex!r}'})
    th.join()
    # an obligation failed and no input is known yet: search longer before reporting
    if (p.failed or any(u['function'] != '*' for u in p.undecided)) and b.status == 'held' and hx.get('exe'):
        extra = 45 if p.failed else 30
        harness_run(b, hx['exe'], extra, 8, SEED + 1)
    rc = 0
    violations = 0
    replay = f'{EVID}/replays/{PROP}.json'
    if b.status == 'failed':
        f = b.data['failure']
        json.dump({'property': PROP, 'kind': 'input', 'seed': f['seed'], 'case': f['case'], 'message': f['message'], 'dict': open(b.dict).read(),
                   'failed_obligations': p.failed, 'how': 'python3 /verif/check/replay.py <this file>'}, open(replay, 'w'), indent=1)
        print(f'{PROP}: {f["message"][:1500]}')
        for o in p.failed[:6]:
            print(f'{PROP}: obligation not discharged: {o["function"]}: {o["obligation"]}: {o["clause"]}')
        print(f'VIOLATION property={PROP} replay={replay}')
        rc, violations = 1, 1
    elif p.status == 'failed':
        json.dump({'property': PROP, 'kind': 'obligation', 'failed_obligations': p.failed, 'checker_cmd': p.cmd, 'how': 'python3 /verif/check/replay.py <this file>'},
                  open(replay, 'w'), indent=1)
        for o in p.failed[:6]:
            print(f'{PROP}: obligation not discharged: {o["function"]}: {o["obligation"]}: {o["clause"]}')
        print(f'VIOLATION property={PROP} replay={replay} no-failing-input-found')
        rc, violations = 1, len(p.failed)
    level = 'proof' if p.status in ('proved', 'failed') else 'other'
    lvl_note = {'proved': 'every obligation of the functions under contract was discharged on this run',
                'failed': 'obligations were not discharged',
                'degraded': 'bounded only on this run: part of the code could not be brought under its contracts (see undecided), so this run proves nothing about it',
                'none': 'no proof on this run'}[p.status]
    cov = {
        'obligations': p.verified + p.errors, 'discharged': p.verified,
        'obligation_unit': 'one per function, lemma or termination query handed to the SMT solver; a function is discharged only if every clause of its contract, every invariant, callee precondition, index, arithmetic and termination condition in it is',
        'checker_cmd': p.cmd or 'not run',
        'back_end': 'Verus 0.2026.09.13 / Z3 4.12.5 as bundled', 'solver_ms': p.smt_ms, 'verifier_wall_s': round(p.secs, 1),
        'functions_under_contract': len(p.functions), 'functions': p.functions, 'contract_clauses': p.clauses, 'modules': p.modules,
        'theorems': p.theorems,
        'vacuity': dict(p.vacuity, meaning='assert(false) put at the end of every function and the start of every loop body, and how many of these the verifier refutes (all must be)') if THOROUGH else 'thorough tier only',
        'trusted_base': TRUSTED, 'left_out_by_extraction': p.dropped, 'helpers_inlined_into_their_callers': p.inlined,
        'undecided': p.undecided, 'failed_obligations': [{k: o[k] for k in ('function', 'obligation', 'clause', 'tag')} for o in p.failed],
        'explanation': lvl_note,
        'bounded': {'label': 'bounded: randomised cases against an independent model, never counted as proved', 'status': b.status, 'note': b.err,
                    'cases': b.data.get('cases', 0), 'evaluations': b.data.get('evaluations', 0), 'distinct': b.data.get('distinct', 0),
                    'literals_mined': list(nd), 'failure': b.data.get('failure')},
    }
    ev = {'property': PROP, 'tier': TIER, 'seed': SEED, 'level': level, 'coverage': cov, 'assumptions': ASSUME, 'wall_s': round(time.time() - T0, 2), 'violations': violations}
    if b.status == 'unbuilt' and p.status != 'proved' and rc == 0:
        print(f'{PROP}: nothing could be decided on this tree: neither the proof nor the bounded stand-in applies')
    json.dump(ev, open(f'{EVID}/{PROP}.json', 'w'), indent=1)
    print(f'{PROP} {TIER}: proof {p.status} ({p.verified} discharged, {p.errors} not, {len(p.functions)} functions, {p.secs:.0f} s); '
          f'bounded {b.status} ({b.data.get("cases", 0)} cases); {time.time() - T0:.0f} s')
    if p.undecided and rc == 0:
        for u in p.undecided[:8]:
            print(f'  undecided: {u["function"]}: {u["reason"][:200]}')
    sys.exit(rc)

TRUSTED = [
    'the Verus verifier, its standard library specifications and the Z3 solver it bundles',
    'the extractor (/verif/extractor): macro expansion, helper functions without a contract inlined into their callers, `?` written out as a match, async fn bodies taken as their sequential text (await as a call), trait bounds adapted',
    'io shim (/verif/verus/shim.rs): Read/Write/AsyncRead/AsyncWrite contracts assumed of every source and sink: bytes come in order, an error is of a kind the source may fail with, write_all is all or nothing on success',
    'UTF-8 conversion, f64 byte conversion, usize/u32 conversions and allocation failure as specified in shim.rs',
]
ASSUME = [
    'usize is 64 bits wide (`global size_of usize == 8` in the woven text); the f64 bit pattern is 8 bytes wide',
    'floating-point values are compared as bit patterns through an uninterpreted, invertible conversion',
    'scheduling of futures is not modelled: an async fn is verified as the sequence of its steps; the bounded stand-in exercises pending polls',
]

if __name__ == '__main__':
    main()
