#!/usr/bin/env python3
"""Decides one property for the code now in /repo: check.py PROPERTY

1. extracts the functions of /repo/src mechanically (vx) and weaves in the contracts of /verif/overlay;
2. has Verus discharge every obligation of the result;
3. an obligation that fails is looked up in the contracts: it concerns the property if its clause carries the
   property's tag. The harness then looks for an input on which the real code breaks the property;
4. functions that are not under contract, or could not be judged after an edit, get the bounded search only.
"""
import difflib, glob, json, os, re, subprocess, sys, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, f'{VERIF}/tools')
REPO = os.environ.get('VX_REPO', '/repo')
import weave as W
from props import PROPS

FEATURES = 'default,rocksdb'    # the configuration under contract: both trees; the adapters of the others come on their own

CLAUSE_ERRORS = ('postcondition not satisfied', 'invariant not satisfied', 'precondition not satisfied',
                 'assertion failed', 'arithmetic underflow/overflow', 'precondition not met', 'index in bounds',
                 'decreases not satisfied', 'unreachable', 'loop ensures', 'division by zero', 'recommendation not met',
                 'failed this postcondition', 'possible', 'may fail', 'must')
PANIC_ERRORS = ('arithmetic underflow/overflow', 'index in bounds', 'decreases not satisfied', 'division by zero', 'bit shift')


def log(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=cwd, env=env)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        dec = lambda b: b.decode(errors='replace') if isinstance(b, bytes) else (b or '')
        return 'timeout', dec(e.stdout), dec(e.stderr)


# ------------------------------------------------------------------ building
def build(what, cwd):
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    return run(['cargo', 'build', '--offline', '-q'], 600, cwd, env)


# ------------------------------------------------------------------ the woven file
class Woven:
    """line -> function and tags"""

    def __init__(self, path, fns):
        self.path = path
        self.lines = open(path).read().split('\n')
        self.at = [None] * (len(self.lines) + 2)
        self.fns = []           # [name, first, last, fid]
        owner, trait, module = None, False, ''
        sig = re.compile(r'^\s*(?:#\[[^\]]*\]\s*)*(?:pub(?:\([a-z]+\))?\s+)?(?:broadcast\s+)?(?:open\s+|closed\s+|uninterp\s+)?(?:const\s+)?(spec|proof|axiom|exec)?\s*(?:fn)\s+(\w+)')
        cur = None
        implbuf = None
        for n, l in enumerate(self.lines, 1):
            if re.match(r'^(pub )?(unsafe )?impl\b', l):
                implbuf = ''
            if implbuf is not None:
                implbuf += ' ' + l
                if '{' in l:
                    h = implbuf.split('{')[0]
                    h = re.sub(r'\bwhere\b.*', '', h)
                    # drop generics
                    prev = None
                    while prev != h:
                        prev = h
                        h = re.sub(r'<[^<>]*>', '', h)
                    m = re.search(r'\bfor\s+([&\w:\[\]; ]+)', h)
                    owner = (m.group(1) if m else re.sub(r'.*\bimpl\b', '', h)).strip().split('::')[-1]
                    trait = False
                    implbuf = None
            m = re.match(r'^(?:pub )?trait\s+(\w+)', l)
            if m:
                owner, trait = m.group(1), True
            if l.startswith('}'):
                owner, trait = None, False
            m = sig.match(l)
            if m and not l.strip().startswith('//'):
                if cur:
                    cur[2] = n - 1
                name = m.group(2)
                cur = [name if not owner or not l[:1].isspace() else f'{owner}::{name}', n, len(self.lines), None, trait, m.group(1)]
                self.fns.append(cur)
            m = re.match(r'// @@module ?(\w*)', l)
            if m:
                module = m.group(1)
            if cur and cur[1] == n:
                cur.append(module)
        for f in self.fns:
            for n in range(f[1], f[2] + 1):
                self.at[n] = f
        for n, l in enumerate(self.lines, 1):
            m = re.search(r'//@(spec|loop|hook)\|([^|]+)\|', l)
            if m and self.at[n] is not None and self.at[n][3] is None:
                self.at[n][3] = m.group(2)

    def tags(self, n):
        m = W.TAG.search(self.lines[n - 1]) if 0 < n <= len(self.lines) else None
        return set(re.findall(r'C\d\d', m.group(1))) if m else set()

    def fn_tags(self, f):
        t = set()
        for n in range(f[1], f[2] + 1):
            t |= self.tags(n)
        return t

    def calls(self, f):
        text = '\n'.join(re.sub(r'//.*', '', l) for l in self.lines[f[1] - 1:f[2]])
        return set(re.findall(r'\b(\w+)(?:::<[^()]*>)?\s*\(', text))


LOOP = re.compile(r'\b(while|for|loop)\b(?! \()')


def compare(old, new):
    """two extractions: names of changed functions; of those whose loops or shape have changed; renamed locals"""
    a, b = W.function_texts(old), W.function_texts(new)
    changed = {k for k in set(a) | set(b) if a.get(k) != b.get(k)}
    reshaped, names = set(), {}
    for k in changed:
        if k == '<items>':
            continue
        if k not in a or k not in b or len(a[k]) != len(b[k]):
            reshaped.add(k)
            continue
        for x, y in zip(a[k], b[k]):
            if x == y:
                continue
            n = W.renamed(x, y)
            if len(a[k]) == 1 and n:
                names[k] = n
            p, q = W.tokens(x), W.tokens(y)
            p = [n.get(t, t) for t in p]
            edits = sum(max(o[2] - o[1], o[4] - o[3]) for o in difflib.SequenceMatcher(None, p, q, autojunk=False).get_opcodes() if o[0] != 'equal')
            if LOOP.findall(x) != LOOP.findall(y) or edits > 36:
                reshaped.add(k)
    return changed, reshaped, names


# ------------------------------------------------------------------ verification
def parse_errors(stderr):
    errs = []
    for l in stderr.splitlines():
        if not l.startswith('{'):
            continue
        try:
            e = json.loads(l)
        except ValueError:
            continue
        if e.get('level') != 'error' or e['message'].startswith('aborting due to'):
            continue
        spans = [(s['line_start'], s['is_primary'], s['label'] or '') for s in e['spans']]
        errs.append({'msg': e['message'], 'spans': spans, 'text': e.get('rendered') or e['message'],
                     'code': (e.get('code') or {}).get('code') if e.get('code') else None})
    return errs


def verus(path, extra, timeout):
    t = time.time()
    cmd = ['verus', path, '--multiple-errors', '4', '--triggers-mode', 'silent', '--output-json', '--time-expanded'] + extra + ['--', '--error-format=json']
    rc, so, se = run(cmd, timeout, os.path.dirname(path))
    res = None
    try:
        res = json.loads(so[so.index('{'):])
    except ValueError:
        pass
    return {'rc': rc, 'json': res, 'errors': parse_errors(se), 'stderr': se, 'wall': time.time() - t, 'cmd': ' '.join(cmd)}


def breakdown(res):
    out = []
    if not res:
        return out
    for m in res.get('times-ms', {}).get('smt', {}).get('smt-run-module-times', []):
        out += m.get('function-breakdown', [])
    return out


def is_compile_error(e):
    return e['code'] is not None or not any(k in e['msg'] for k in CLAUSE_ERRORS) and 'rlimit' not in e['msg'].lower() and 'Resource limit' not in e['msg']


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    info = PROPS[prop]
    t0 = time.time()
    budget = 840
    work = f'{VERIF}/work/{prop}'
    os.makedirs(work, exist_ok=True)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)

    # build
    hb = {}
    th = threading.Thread(target=lambda: hb.update(r=build('harness', f'{VERIF}/harness')))
    th.start()
    rc, so, se = build('vx', f'{VERIF}/extract')
    if rc != 0:
        log('the extractor does not build'); log(se[-2000:])
        return 2
    src = f'{REPO}/src'
    out = f'{work}/woven.rs'
    undecided = {}          # fid -> reason
    notes = []
    rounds = 0
    renames = {}            # fn -> local names that are called something else now
    changed, reshaped = set(), set()
    disabled = set()
    result = None
    woven = None
    skip = []               # theory files left out
    fns, rep = None, None
    overlays = sorted(glob.glob(f'{VERIF}/overlay/*.vo'))
    while True:
        rounds += 1
        paths = list(overlays)
        ext = [f for f in undecided if f in (fns or {})] + info_pending()
        if ext:
            p = f'{work}/undecided.vo'
            open(p, 'w').write(''.join(f'=== fn {f}\nexternal\n\n' for f in ext))
            paths.append(p)
        fns2, rep = W.weave(src, info.get('features', FEATURES), out, f'{work}/weave', paths, disabled, skip, renames)
        if fns2 is None:
            notes.append('the extraction failed: ' + rep['error'][-400:])
            break
        fns = fns2
        if rounds == 1:
            changed, reshaped, names = compare(open(f'{VERIF}/tools/baseline.rs').read(), open(f'{work}/weave/extracted.rs').read())
            for k, n in names.items():
                own = [f for f in fns if f.split('::')[-1] == k and not f.startswith('trait ')]
                if len(own) == 1:
                    renames[own[0]] = n
            if renames:
                continue
        new = {}
        for m in rep['missing'] + rep['unsupported']:
            fid = re.split(r': |\t', m)[0].strip()
            fid = re.split(r'[@#|]', fid)[0]
            if fid not in undecided:
                new[fid] = 'its contract no longer fits its structure: ' + m
        undecided.update(new)
        if new and rounds < 10 and any(f in fns for f in new):
            continue
        woven = Woven(out, fns)
        left = budget - (time.time() - t0) - 200
        result = verus(out, [], max(60, min(420, left)))
        vir = result['json'] is None or result['json'].get('verification-results', {}).get('encountered-vir-error') or 'verified' not in result['json'].get('verification-results', {}) or not breakdown(result['json'])
        if result['rc'] == 'timeout' or not vir or rounds >= 10 or left < 60:
            break
        comp = result['errors']
        # the woven file does not compile: set the functions aside whose text is to blame
        new = {}
        for e in comp:
            for ln, prim, lab in e['spans']:
                f = woven.at[ln] if ln < len(woven.at) else None
                if not f:
                    continue
                fid = f[3] or next((x for x in rep['functions'] if x.split(' for ')[-1] == f[0]), None)
                if fid and fid not in undecided:
                    new[fid] = 'the verifier does not accept it: ' + e['msg'][:200]
        undecided.update(new)
        if not new and not skip and any(woven.at[ln] and woven.at[ln][0].startswith('theorem_') for e in comp for ln, prim, lab in e['spans'] if ln < len(woven.at)):
            skip.append('60_theorems.rs')
            notes.append('the theorems no longer fit the operations: ' + comp[0]['msg'][:200])
            continue
        if not new:
            notes.append('the woven file does not compile: ' + (comp[0]['msg'][:300] if comp else result['stderr'][-300:]))
            result = None
            break
        # those without a contract have no section yet
        for f in new:
            if f not in fns:
                fns[f] = W.Section()
    proof_ok = result is not None and result['rc'] != 'timeout' and result['json'] is not None \
        and 'verified' in result['json'].get('verification-results', {})
    if result is not None and result['rc'] == 'timeout':
        notes.append('the verifier ran out of time')
    fb = breakdown(result['json']) if proof_ok else []
    if proof_ok and not fb:
        proof_ok = False
        notes.append('the verifier reported no obligation')

    # ------------------------------------------------------------ what failed
    contracts = set(rep.get('contracts', [])) if rep else set()
    fails = []      # (function, tags or None, definite, error)
    if proof_ok:
        retried = {}
        for e in result['errors']:
            if is_compile_error(e) and 'rlimit' not in e['msg'].lower():
                notes.append('error outside any obligation: ' + e['msg'][:200])
            prim = [s for s in e['spans'] if s[1]] or e['spans']
            # a failing precondition belongs to the caller, a failing postcondition or invariant to its function
            lines = [s[0] for s in e['spans']]
            f = None
            for ln, p, lab in prim:
                f = woven.at[ln] or f
            if f is None:
                continue
            key = f[0]
            under = f[3] is not None and f[3] in contracts or f[4] or f[5] in ('proof', 'axiom', 'spec') or any(c.endswith('::' + f[0]) or c == f[0] for c in contracts)
            if f[3] is None and not under and (trait_impl(f, woven) or f[0].startswith('theorem_')):
                under = True
            if not under:
                continue        # not under contract: bounded stand-in
            tags = set()
            for ln, p, lab in e['spans']:
                g = woven.at[ln]
                if g is f:
                    tags |= woven.tags(ln)
            fails.append([f, tags, True, e])
        # again, alone and with more resources
        names = {}
        for f, tags, d, e in fails:
            names.setdefault(f[0], []).append((f, e))
        if names:
            def again(name, f):
                mod = ['--verify-only-module', f[6]] if f[6] else ['--verify-root']
                retried[name] = verus(out, mod + ['--verify-function', name, '--rlimit', '40'], 240)
            ts = [threading.Thread(target=again, args=(n, names[n][0][0])) for n in list(names)[:8]]
            [t.start() for t in ts]
            [t.join() for t in ts]
            keep = []
            for item in fails:
                r = retried.get(item[0][0])
                if r and r['json'] is not None and r['json'].get('verification-results', {}).get('success'):
                    notes.append(f'{item[0][0]}: discharged when verified alone')
                    continue
                if 'rlimit' in item[3]['msg'].lower() or 'Resource limit' in item[3]['msg'] or (r and r['rc'] == 'timeout'):
                    item[2] = False
                keep.append(item)
            fails = keep
        # a failing function is judged only if everything it uses has a contract and its structure is known
        known = {f[0].split('::')[-1] for f in woven.fns}
        spec_names = {f[0].split('::')[-1] for f in woven.fns if f[3] or f[4] or f[5]}
        extracted = {x.split('::')[-1] for x in rep['functions']}
        with_contract = {c.split('::')[-1] for c in contracts} | {x.split('::')[-1] for x in rep['functions'] if x.startswith('trait ')}
        pending = set(info_pending())
        for item in fails:
            f = item[0]
            loose = {c for c in woven.calls(f) if c in extracted and c not in with_contract and c not in {p.split('::')[-1] for p in pending}}
            loose &= changed
            if loose:
                item[2] = False
                item.append('calls functions without a contract: ' + ', '.join(sorted(loose)))
            name = f[0].split('::')[-1]
            if name in reshaped:
                item[2] = False
                item.append('its loops or most of its text are new: the proof may just not fit')
            if name not in changed and '<items>' not in changed and not (woven.calls(f) & changed & extracted):
                item[2] = False
                item.append('its text is that of the verified tree: the solver gave up')

    others_ = []
    if prop == 'C21' or os.environ.get('VX_DRY'):
        others_ = adapters(work, src)
        for a in others_:
            fails += a['fails']
            notes += a['notes']
            undecided.update({f'{a["name"]}: {f}': r for f, r in a['undecided'].items()})
    if prop == 'C11' or os.environ.get('VX_DRY'):
        cs = codecs(work, src)
        others_ += cs
        for a in cs:
            fails += a['fails']
            notes += a['notes']
            undecided.update({f'{a["name"]}: {f}': r for f, r in a['undecided'].items()})

    # ------------------------------------------------------------ what concerns this property
    closure = closure_of(woven, info, fb) if woven else set()
    und = {f: r for f, r in undecided.items()}
    relevant = []
    for item in fails:
        f, tags, definite, e = item[:4]
        t = set(tags)
        if not t:
            t = set(['C10']) if any(k in e['msg'] for k in PANIC_ERRORS) else woven.fn_tags(f)
        if prop in t and definite:
            relevant.append(item)
    if os.environ.get('VX_DRY'):        # development: what the verifier says, for every property
        for item in fails:
            t = set(item[1]) or (set(['C10']) if any(k in item[3]['msg'] for k in PANIC_ERRORS) else woven.fn_tags(item[0]))
            log('FAIL', item[0][0], '-', item[3]['msg'], 'definite' if item[2] else 'not definite', *item[4:], '|', ' '.join(sorted(t)))
            if os.environ['VX_DRY'] == '2':
                log(item[3]['text'])
        for f, r in und.items():
            log('UNDECIDED', f, '-', r)
        for n in notes:
            log('NOTE', n)
        return 0
    # ------------------------------------------------------------ bounded search on the real code
    th.join()
    rc, so, se = hb['r']
    if rc != 0:
        log('the harness does not build against the code'); log(se[-3000:])
        return 2
    standins = [f for f in info_pending() if f.split('::')[-1] in {c.split('::')[-1] for c in closure} or f in info.get('fns', [])]
    clean = proof_ok and not fails and not und and not notes
    secs = 12 if clean else 60
    if relevant:
        secs = 150
    if not proof_ok or und or fails:
        secs = max(secs, 120)
    if tier == 'thorough':
        secs = max(secs, 300)
    secs = int(max(10, min(secs, budget - (time.time() - t0) - 60)))
    replay = f'{work}/replay.txt'
    hx = f'{VERIF}/harness/target/debug/hx'
    if prop in ('C11', 'C15'):       # the harness drives the tree in memory
        rc, so, se = 0, '', ''
    else:
        rc, so, se = run([hx, 'find', '--property', prop, '--seed', str(seed), '--seconds', str(secs), '--threads', '8', '--replay', replay], secs + 260)
    extra_n, extra_found = 0, None
    if prop == 'C15':
        extra_n, extra_found, extra_file, extra_how = crash_search(secs, seed, work)
        if extra_n == 0 and not extra_found:
            notes.append('no search: the harness for the persistent tree does not build or does not run')
    if prop == 'C21' and rc == 0:
        extra_n, extra_found, extra_file, extra_how, dead = side_search('hashers', list(W.ADAPTERS), 20000 if tier == 'quick' else 400000, seed, work)
        notes += [f'no search: the harness does not build or does not run for {n}' for n in dead]
    if prop == 'C11':
        extra_n, extra_found, extra_file, extra_how, dead = side_search('codecs', W.CODECS, (4000 if clean else 20000) if tier == 'quick' else 60000, seed, work)
        notes += [f'no search: the harness does not build or does not run for {n}' for n in dead]
        known_findings(prop, work)
    stats = {}
    m = re.search(r'STATS (.*)', so)
    if m:
        stats = {k: int(v) for k, v in (x.split('=') for x in m.group(1).split())}
    samples = re.findall(r'SAMPLE (.*)', so)
    found = rc == 1 and 'FOUND' in so
    if rc not in (0, 1):
        log('the harness ended with', rc, se[-500:])
        if rc == 'timeout':
            notes.append('the bounded search did not end')
        else:
            return 2
    # ------------------------------------------------------------ verdict
    status, line = 0, None
    if extra_found:
        if fails:
            open(extra_file, 'a').write('\n# obligations that fail\n' + '\n'.join('# ' + l for it in fails[:6] for l in it[3]['text'].splitlines()))
        log('the real code breaks the property:', extra_found)
        log('replay with:', extra_how)
        line = f'VIOLATION property={prop} replay={extra_file}'
        status = 1
    elif found:
        what = re.search(r'FOUND (.*)', so).group(1)
        body = open(replay).read()
        if fails:
            body += '\n# obligations that fail\n' + '\n'.join('# ' + l for it in fails[:6] for l in it[3]['text'].splitlines())
            open(replay, 'w').write(body)
        log('the real code breaks the property:', what)
        log(f'replay with: {hx} replay {replay}')
        line = f'VIOLATION property={prop} replay={replay}'
        status = 1
    elif relevant:
        # is it explained by a different property that a concrete input breaks?
        others = set()
        for it in relevant:
            if not it[1]:
                others |= woven.fn_tags(it[0])
        others.discard(prop)
        explained = None
        for o in sorted(others):
            if time.time() - t0 > budget - 60 or o not in PROPS:
                break
            r2, s2, _ = run([hx, 'find', '--property', o, '--seed', str(seed), '--seconds', '8', '--threads', '8', '--replay', f'{work}/other.txt'], 100)
            if r2 == 1 and 'FOUND' in s2:
                explained = o
                break
        if explained:
            notes.append(f'a failing obligation without a tag is explained by {explained}, which a concrete input breaks')
        else:
            with open(replay, 'w') as f:
                f.write(f'property {prop}\nno failing input found; the obligations below fail on the code now in {REPO}\n')
                f.write(f'to see them again: cd {VERIF} && python3 tools/check.py {prop}\n\n')
                for it in relevant:
                    f.write(f'obligation in {it[0][0]}' + (f' [{" ".join(sorted(it[1]))}]' if it[1] else '') + '\n' + it[3]['text'] + '\n')
            for it in relevant:
                log('fails:', it[0][0], '-', it[3]['msg'])
            line = f'VIOLATION property={prop} replay={replay} no-failing-input-found'
            status = 1
    # ------------------------------------------------------------ evidence
    mine = [f for f in fb if short(f['function']) in closure]
    okq = [f for f in mine if f['success']]
    pend = set(info_pending())
    pend_q = [f for f in mine if short(f['function']) in pend]
    counted = [f for f in mine if short(f['function']) not in pend]
    for a in others_:
        counted += [dict(f, function=f'{a["name"]}: {short(f["function"])}') for f in a['fb']]
    clauses = count_clauses(woven, prop) if woven else {}
    for a in others_:
        clauses.update(a.get('clauses', {}))
    level = info['level']
    cov = {
        'obligations': len(counted),
        'discharged': len([f for f in counted if f['success']]),
        'checker_cmd': f'python3 tools/check.py {prop}  (weaves {REPO}/src into work/{prop}/woven.rs and runs: {result["cmd"] if result else "verus"})' + (f'; likewise work/{prop}/NAME/NAME.rs for {", ".join(a["name"] for a in others_)}' if others_ else ''),
        'trusted_base': (trusted(woven) if prop != 'C11' else trusted(woven)[:2]) + sorted({t for a in others_ for t in a['trusted']}),
        'obligations_are': 'one verification query per function, loop nest or lemma in the call closure of the functions that carry the property',
        'functions_under_contract': sorted({short(f['function']) for f in counted if f['mode:'] == 'exec'}),
        'lemmas': sorted({short(f['function']) for f in counted if f['mode:'] == 'proof'}),
        'clauses_tagged': clauses,
        'backend': 'Verus 0.2026.09.13 / Z3',
        'solver_ms': sum(f['time'] for f in counted),
        'whole_file': (result['json'] or {}).get('verification-results') if result else None,
        'bounded_stand_in': {
            'functions_not_under_contract': sorted(standins),
            'functions_not_judged_on_this_tree': und,
            'search': SEARCH.get(prop, 'random histories against an independent model, widths 1 to 40 bytes, up to about 20 operations, plus a few large cases'),
            'seconds': secs,
        },
        'evaluations': stats.get('evaluations', 0) + extra_n,
        'distinct_nontrivial': stats.get('nontrivial', 0) + extra_n,
        'rule': 'a case is one generated history (or one call of a helper), made from its own seed; non-trivial: it reached at least one check of this property',
        'samples': samples or ['(none)'],
        'notes': notes,
        'failed_obligations': [f'{it[0][0]}: {it[3]["msg"]}' for it in fails],
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': info.get('assumptions', []) + ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1),
          'violations': status}
    json.dump(ev, open(f'{VERIF}/evidence/{prop}.json', 'w'), indent=1)
    log(f'{prop}: {cov["discharged"]}/{cov["obligations"]} obligations discharged, {len(fails)} failing, '
        f'{len(und)} functions not judged, {cov["evaluations"]} cases searched, {ev["wall_s"]} s')
    for n in notes:
        log('note:', n)
    for f, r in und.items():
        log('not judged:', f, '-', r)
    for it in fails:
        log('fails:', it[0][0], '-', it[3]['msg'], *it[4:])
    if line:
        log(line)
    return status


SEARCH = {
    'C15': 'random histories on the real RocksTree over a stand-in for the rocksdb crate; one operation with each of its database calls struck in turn (crash or failure), restart, further operations; widths 8, 16, 32',
    'C11': 'random nodes through the codec of each scheme, widths 1 to 300, extreme counters, values of up to 70000 bytes',
    'C21': 'random histories as for the others, and random pieces through each adapter against the hash it adapts',
}
ASSUMPTIONS = [
    'usize has 8 bytes; key width N with 0 < N and 8N + 8 representable',
    'fewer than 2^64 - 1 references to one node (assumed where a node is read)',
    'key lists and trees of fewer than 2^32 keys',
    'memory allocation succeeds',
    'std collections and sorting behave as specified in vstd and theory/06_shims.rs',
]


def short(name):
    n = re.sub(r'^(out|woven|crate|' + '|'.join(a.replace('-', '_') for a in [*W.ADAPTERS, *W.CODECS]) + r')::', '', name)
    return re.sub(r'^(t\d\d_\w+|x_\w+)::', '', n)


# ------------------------------------------------------------------ the hash adapters of the other configurations
def adapter(name, work, base, src, weaver, prop):
    """verifies one adapter or codec on its own: dict(fails, undecided, queries, ...)"""
    a = {'name': name, 'fails': [], 'undecided': {}, 'fb': [], 'notes': [], 'trusted': []}
    w = f'{work}/{name}'
    os.makedirs(w, exist_ok=True)
    out = f'{w}/{name.replace("-", "_")}.rs'
    extra = []
    while True:
        fns, rep = weaver(src, name, out, w, (), extra)
        if fns is None:
            a['notes'].append(f'{name}: the extraction failed: ' + rep['error'][-300:])
            return a
        text = open(f'{w}/extracted.rs').read()
        a['text'] = text
        changed, reshaped, _ = compare(base.get(name, text), text)
        new = {}
        for m in rep['missing'] + rep['unsupported']:
            new[re.split(r'[@#|]', re.split(r': |\t', m)[0].strip())[0]] = 'its contract no longer fits its structure: ' + m
        new = {f: r for f, r in new.items() if f not in a['undecided']}
        if not new:
            woven = Woven(out, fns)
            res = verus(out, [], 120)
            if breakdown(res['json']) and 'verified' in res['json'].get('verification-results', {}):
                break
            for e in res['errors']:
                for ln, prim, lab in e['spans']:
                    f = woven.at[ln] if ln < len(woven.at) else None
                    fid = f and (f[3] or next((x for x in rep['functions'] if x.split(' for ')[-1] == f[0]), None))
                    if fid and fid not in a['undecided']:
                        new[fid] = 'the verifier does not accept it: ' + e['msg'][:200]
        if not new or len(extra) > 2:
            a['notes'].append(f'{name}: does not compile: ' + (res['errors'][0]['msg'][:200] if res['errors'] else res['stderr'][-200:]))
            return a
        a['undecided'].update(new)
        x = f'{w}/undecided{len(extra)}.vo'
        open(x, 'w').write(''.join(f'=== fn {f}\nexternal\n\n' for f in new))
        extra.append(x)
    a['fb'] = breakdown(res['json'])
    a['trusted'] = trusted(woven)[2:]
    a['clauses'] = {f'{name}: {k}': n for k, n in count_clauses(woven, prop).items()}
    for e in res['errors']:
        prim = [s for s in e['spans'] if s[1]] or e['spans']
        f = None
        for ln, p, lab in prim:
            f = woven.at[ln] or f
        if f is None:
            continue
        n = f[0].split('::')[-1]
        definite = n in changed and n not in reshaped and 'rlimit' not in e['msg'].lower()
        item = [[f'{name}: {f[0]}'] + f[1:], {prop}, definite, e]
        if not definite:
            item.append('its text is that of the verified tree' if n not in changed else 'its loops or most of its text are new')
        a['fails'].append(item)
    return a


def side(work, src, names, weaver, prop, baseline):
    try:
        base = json.load(open(f'{VERIF}/tools/{baseline}'))
    except OSError:
        base = {}
    out = []
    ts = [threading.Thread(target=lambda n=n: out.append(adapter(n, work, base, src, weaver, prop))) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    return sorted(out, key=lambda a: a['name'])


def adapters(work, src):
    return side(work, src, W.ADAPTERS, W.weave_adapter, 'C21', 'baseline_adapters.json')


def codecs(work, src):
    return side(work, src, W.CODECS, W.weave_codec, 'C11', 'baseline_codecs.json')


def side_search(crate, names, cases, seed, work):
    """each adapter against the hash it adapts, each codec on random nodes:
    (evaluations, what was found, the file to replay it, how, configurations that gave no answer)"""
    out = {}

    def one(name):
        env = dict(os.environ, CARGO_NET_OFFLINE='true')
        t = f'{VERIF}/{crate}/target/{name}'
        rc, so, se = run(['cargo', 'build', '--offline', '-q', '--features', name, '--target-dir', t], 400, f'{VERIF}/{crate}', env)
        if rc != 0:
            log(f'the harness {crate} does not build for {name}:', se[-1500:])
            out[name] = (0, None, None, None)
            return
        f = f'{work}/replay-{name}.txt'
        rc, so, se = run([f'{t}/debug/{crate}', 'find', str(seed), str(cases), f], 400)
        m = re.search(r'evaluations=(\d+)', so)
        found = f'{name}: ' + re.search(r'FOUND (.*)', so).group(1) if rc == 1 and 'FOUND' in so else None
        out[name] = (int(m.group(1)) if m else 1 if found else 0, found, f, f'{t}/debug/{crate} replay {f}')
    ts = [threading.Thread(target=one, args=(n,)) for n in names]
    [t.start() for t in ts]
    [t.join() for t in ts]
    n = sum(o[0] for o in out.values())
    dead = sorted(k for k, o in out.items() if o[0] == 0)
    for k in sorted(out):
        if out[k][1]:
            return n, *out[k][1:], dead
    return n, None, None, None, dead


def known_findings(prop, work):
    """the recorded defects of the property that still fail; a line for each"""
    for l in open(f'{VERIF}/KNOWN_FINDINGS.txt'):
        m = re.match(r'known: property=(\w+) (\S+) (.*)', l)
        if not m or m.group(1) != prop:
            continue
        crate, name, probe = m.group(2).split(':')
        rc, so, se = run([f'{VERIF}/{crate}/target/{name}/debug/{crate}', 'probe', probe], 100)
        if rc == 1 and 'FAILS' in so:
            log(f'KNOWN-FINDING: property={prop} {m.group(3)}')
        else:
            log(f'no longer fails: {m.group(3)}')


def crash_search(secs, seed, work):
    """the persistent tree on a stand-in for RocksDB, struck at every call: the same results as adapter_search"""
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    rc, so, se = run(['cargo', 'build', '--offline', '-q'], 300, f'{VERIF}/rocks', env)
    if rc != 0:
        log('the harness for the persistent tree does not build:', se[-1500:])
        return 0, None, None, None
    exe = f'{VERIF}/rocks/target/debug/rocks'
    out = []

    def one(k):
        f = f'{work}/replay-{k}.txt'
        out.append((f, run([exe, 'find', str(seed * 8 + k), '100000000', str(secs), f], secs + 100)))
    ts = [threading.Thread(target=one, args=(k,)) for k in range(8)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    n = 0
    found = None
    for f, (rc, so, se) in sorted(out, key=lambda o: o[0]):
        m = re.search(r'evaluations=(\d+)', so)
        n += int(m.group(1)) if m else 0
        if rc == 1 and 'FOUND' in so and not found:
            found = (re.search(r'FOUND (.*)', so).group(1), f)
    if found:
        return n + 1, found[0], found[1], f'{exe} replay {found[1]}'
    return n, None, None, None


def info_pending():
    p = f'{VERIF}/tools/pending.txt'
    return [l.strip() for l in open(p) if l.strip() and not l.startswith('#')] if os.path.exists(p) else []


def trait_impl(f, woven):
    name = f[0].split('::')[-1]
    return any(g[4] and g[0].split('::')[-1] == name for g in woven.fns)


def closure_of(woven, info, fb):
    by = {}
    for f in woven.fns:
        by.setdefault(f[0].split('::')[-1], []).append(f)
    todo = []
    for r in info['fns'] + info.get('lemmas', []):
        todo += [f for f in by.get(r.split('::')[-1], []) if f[0] == r or '::' not in r]
    seen = {}
    while todo:
        f = todo.pop()
        if f[1] in seen:
            continue
        seen[f[1]] = f
        for c in woven.calls(f):
            todo += by.get(c, [])
    names = {f[0] for f in seen.values()}
    return names


def count_clauses(woven, prop):
    d = {}
    for n, l in enumerate(woven.lines, 1):
        if prop in woven.tags(n):
            f = woven.at[n]
            k = f[3] or f[0] if f else '?'
            d[k] = d.get(k, 0) + 1
    return d


def trusted(woven):
    t = []
    if not woven:
        return ['(extraction failed)']
    for n, l in enumerate(woven.lines, 1):
        s = l.strip()
        if s.startswith('//'):
            continue
        if 'external_body' in s or 'assume_specification' in s or re.search(r'\baxiom fn\b', s) or re.search(r'\bassume\(', s) or 'admit(' in s or 'verifier::external' in s:
            m = s
            if s.endswith(']') and 'external' in s:
                k = n
                while k < len(woven.lines) and not re.search(r'\b(fn|struct|enum|type|trait)\b', woven.lines[k]):
                    k += 1
                m = 'external: ' + woven.lines[k].strip()
            t.append(re.sub(r'//@.*', '', m)[:140].strip())
    return ['Verus, Z3, rustc', 'vx (extraction, see DESIGN.md)'] + sorted(set(t))


if __name__ == '__main__':
    if sys.argv[1] == '--baseline':
        W.PLACES = {}
        fns, rep = W.weave(f'{REPO}/src', FEATURES, f'{VERIF}/work/base.rs', f'{VERIF}/work/base')
        open(f'{VERIF}/tools/baseline.rs', 'w').write(open(f'{VERIF}/work/base/extracted.rs').read())
        places = {}
        for l in rep['places']:
            fid, a, text, o, d, r = l.split('\t')
            places.setdefault(fid, {})[a] = [text, int(o), int(d), int(r)]
        json.dump(places, open(f'{VERIF}/tools/baseline_places.json', 'w'), indent=1, sort_keys=True)
        texts = {a['name']: a['text'] for a in adapters(f'{VERIF}/work/base', f'{REPO}/src')}
        json.dump(texts, open(f'{VERIF}/tools/baseline_adapters.json', 'w'), indent=1)
        texts = {a['name']: a['text'] for a in codecs(f'{VERIF}/work/base', f'{REPO}/src')}
        json.dump(texts, open(f'{VERIF}/tools/baseline_codecs.json', 'w'), indent=1)
        sys.exit(0)
    sys.exit(main())
