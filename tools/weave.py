#!/usr/bin/env python3
"""Weaves the contracts of /verif/overlay into the code extracted from a source tree.

The result is one Verus file. Every line of it knows where it comes from (function, clause, tags)."""
import collections, difflib, os, re, subprocess, sys, json, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAG = re.compile(r'//\s*\[((?:C\d\d[ ,]*)+)\]')


class Section:
    def __init__(self):
        self.attrs, self.spec, self.loops, self.hooks, self.closures = [], None, {}, [], {}
        self.ghostparams, self.ghostargs, self.external, self.deps = [], [], False, []
        self.tags = None


def load_places():
    p = f'{VERIF}/tools/baseline_places.json'
    return json.load(open(p)) if os.path.exists(p) else {}


PLACES = load_places()      # where the hooks were on the verified tree


def parse_overlay(paths):
    fns, bodies, extras, drops = {}, {}, [], []
    for p in paths:
        cur = None
        buf = None
        for raw in open(p):
            line = raw.rstrip('\n')
            if line.startswith('=== fn '):
                cur = fns.setdefault(line[7:].strip(), Section())
                buf = None
            elif line.startswith('=== body '):
                buf = bodies.setdefault(line[9:].strip(), [])
                cur = None
            elif line.startswith('=== items'):
                buf = []
                extras.append(buf)
                cur = None
            elif line.startswith('=== drop '):
                drops.append(line[9:].strip())
                cur = None
            elif line.startswith('#') and not line.startswith('#['):
                continue
            elif cur is None:
                if buf is not None:
                    buf.append(line)
            elif line and not line[0].isspace():
                head = line.strip()
                if head == 'external':
                    cur.external = True
                    buf = None
                elif head == 'spec:':
                    cur.spec = buf = []
                elif head.startswith('loop ') and head.endswith(':'):
                    buf = cur.loops.setdefault(int(head[5:-1]), [])
                elif head.startswith('closure ') and head.endswith(':'):
                    buf = cur.closures.setdefault(int(head[8:-1]), [])
                elif head.startswith('at ') and head.endswith(':'):
                    buf = []
                    cur.hooks.append((head[3:-1], buf))
                elif head.startswith('attr '):
                    cur.attrs.append(head[5:])
                    buf = None
                elif head.startswith('ghostparam '):
                    n, t = head[11:].split(':', 1)
                    cur.ghostparams.append((n.strip(), t.strip()))
                elif head.startswith('ghostarg '):
                    c, e = head[9:].split(' ', 1)
                    cur.ghostargs.append((c, e.strip()))
                elif head.startswith('like '):
                    # the contract of the function it forwards to, said of the wrapped tree
                    f, _, v = head[5:].partition(' ')
                    cur.spec = buf = [wrapped(l, v or 'Vec<u8>') for l in fns[f].spec]
                elif head.startswith('tags '):
                    cur.tags = head[5:].split()
                else:
                    raise SystemExit(f'{p}: cannot read: {line}')
            else:
                if buf is not None:
                    buf.append(line)
    return fns, bodies, extras, drops


def wrapped(l, value):
    l = re.sub(r'\*(old|final)\(self\)', r'\1(self).tree', l)
    l = re.sub(r'\b(old|final)\(self\)\.(?!tree)', r'\1(self).tree.', l)
    l = re.sub(r'\*self\b', 'self.tree', l)
    l = re.sub(r'\bself\.(?!tree)', 'self.tree.', l)
    l = re.sub(r'M::Hasher', 'TreeHasher', l)
    return re.sub(r'M::Value(?=::)', f'<{value}>', l).replace('M::Value', value)


def balanced(s, i):
    """index just after the bracket that closes the one at i"""
    depth = 0
    while i < len(s):
        if s[i] in '([{':
            depth += 1
        elif s[i] in ')]}':
            depth -= 1
            if depth == 0:
                return i + 1
        i += 1
    raise ValueError('unbalanced')


def function_texts(raw):
    """the extracted functions without hooks: name -> texts; what is outside of functions is under <items>"""
    text = re.sub(r'vx_\w+!\s*\([^;]*?\);', '', raw)
    text = re.sub(r'\s+', ' ', re.sub(r'(?m)^// @@.*$', '', text))
    out, last, name = {}, 0, '<items>'
    for m in re.finditer(r'\bfn (\w+)', text):
        out.setdefault(name, []).append(text[last:m.start()])
        last, name = m.start(), m.group(1)
    out.setdefault(name, []).append(text[last:])
    return out


def tokens(text):
    return [re.sub(r'\s', '', t) for t in re.findall(r'"(?:[^"\\]|\\.)*"|\.\s*[a-z_]\w*|\w+|[^\s\w]', text)]


def renamed(old, new):
    """local names of the old text that are called something else in the new one"""
    a, b = tokens(old), tokens(new)
    ident = re.compile(r'[a-z_]\w*$')
    ca, cb = collections.Counter(a), collections.Counter(b)
    gone = {t for t in ca if ident.match(t) and t not in cb}
    come = {t for t in cb if ident.match(t) and cb[t] > ca[t]}
    if not gone or not come or len(a) > 20000:
        return {}
    x = ['\0' if t in gone else t for t in a]
    y = ['\0' if t in come else t for t in b]
    votes = {}
    for i, j, n in difflib.SequenceMatcher(None, x, y, autojunk=False).get_matching_blocks():
        for k in range(n):
            if x[i + k] == '\0':
                votes.setdefault(a[i + k], {}).setdefault(b[j + k], 0)
                votes[a[i + k]][b[j + k]] += 1
    out, taken = {}, set()
    for o, v in sorted(votes.items(), key=lambda i: -max(i[1].values())):
        n = max(v, key=lambda k: v[k])
        if n not in taken and v[n] * 2 > sum(v.values()):
            out[o] = n
            taken.add(n)
    return out


def renames_sub(renames, fid, text):
    """a statement of the verified tree, with the new local names"""
    names = dict(renames).get(fid)
    if not names:
        return text
    return re.sub(r'(?<![.\w])(?<!\. )(' + '|'.join(map(re.escape, names)) + r')\b', lambda m: names[m.group(1)], text)


def rename(section, names):
    """the contract, speaking of the new local names"""
    rx = re.compile(r'(?<![.\w])(' + '|'.join(map(re.escape, names)) + r')\b(?!\()')
    sub = lambda t: rx.sub(lambda m: names[m.group(1)], t)
    section.spec = [sub(l) for l in section.spec] if section.spec is not None else None
    for d in (section.loops, section.closures):
        for k in d:
            d[k] = [sub(l) for l in d[k]]
    section.hooks = [(sub(a), [sub(l) for l in t]) for a, t in section.hooks]
    section.ghostargs = [(c, sub(e)) for c, e in section.ghostargs]


def weave(src, features, out, work, overlay=None, disabled=(), skip=(), renames=(), only=()):
    """disabled: set of (fn, kind, key) pieces to leave out; renames: fn -> {local name: its new name}"""
    paths = overlay or sorted(glob.glob(f'{VERIF}/overlay/*.vo'))
    fns, bodies, extras, drops = parse_overlay(paths)
    plain = {f: [a for a, t in s.hooks] for f, s in fns.items()}
    for f in renames:
        if f in fns:
            rename(fns[f], renames[f])
    for s in fns.values():
        if s.external:
            # only the contract is kept
            s.loops, s.hooks, s.closures = {}, [], {}
            s.ghostargs = [(c, 'vstd::pervasive::arbitrary()') for c, e in s.ghostargs]
    hooks = {}
    lines = []
    for fid, s in fns.items():
        if s.spec is not None and (fid, 'spec', 0) not in disabled:
            lines.append(f'@spec\t{fid}')
        if s.external:
            lines.append(f'@external\t{fid}')
        for k in s.closures:
            lines.append(f'@closure\t{fid}|{k}')
        for n, t in s.ghostparams:
            lines.append(f'@ghostparam\t{fid}\t{n}\t{t}')
        for c, e in s.ghostargs:
            lines.append(f'@ghostarg\t{fid}\t{c}\t{e}')
        # later hooks at the same place go after earlier ones: insert in reverse
        for k, (a, text) in reversed(list(enumerate(s.hooks))):
            a0 = plain[fid][k]
            if (fid, 'hook', k) in disabled:
                continue
            hid = f'{fid}@{k}'
            hooks[hid] = (fid, k, text)
            place = PLACES.get(fid, {}).get(a0)
            if place:
                place = [renames_sub(renames, fid, place[0])] + place[1:]
            lines.append('\t'.join([fid, a, hid] + [str(x) for x in place or []]))
    for b in bodies:
        lines.append(f'@body\t{b}')
    for d in drops:
        lines.append(f'@drop\t{d}')
    for o in only:
        lines.append(f'@only\t{o}')
    os.makedirs(work, exist_ok=True)
    anch, raw, rep = f'{work}/anchors.txt', f'{work}/extracted.rs', f'{work}/extract.json'
    open(anch, 'w').write('\n'.join(lines) + '\n')
    vx = f'{VERIF}/extract/target/debug/vx'
    p = subprocess.run([vx, src, features, anch, raw, rep], capture_output=True, text=True)
    if p.returncode != 0:
        return None, {'error': p.stderr.strip() or f'vx exit {p.returncode}'}
    report = json.load(open(rep))
    text = open(raw).read()
    used = {'spec': set(), 'loop': set(), 'hook': set(), 'closure': set()}

    # closures first: `|v| -> vx_cret!() {\n vx_closure!("id");`
    def closure(m):
        fid, k = m.group(1).rsplit('|', 1)
        used['closure'].add(m.group(1))
        return '@@' + '\n'.join(fns[fid].closures[int(k)]) + '\n{'
    text = re.sub(r'\{\s*vx_closure!\("([^"]+)"\);', closure, text)
    text = re.sub(r'\|[^|\n]*\|\s*->\s*vx_cret!\s*\(\)\s*@@', '', text)
    # generated specification helpers
    text = text.replace('vx_ghost(', 'Ghost(')
    text = text.replace('vx_gh!(', 'Ghost(')
    # return types
    i = text.find('vx_ret!')
    while i >= 0:
        j = text.index('(', i)
        e = balanced(text, j)
        text = text[:i] + '(r: ' + text[j + 1:e - 1] + ')' + text[e:]
        i = text.find('vx_ret!', i)

    # `arg_x`: the value with which a `mut` parameter was called (the parameter itself otherwise)
    shadowed = set(re.findall(r'let mut (\w+) = arg_\1;', text))
    # what the theory defines, whatever the locals are called
    theory = set()
    for t in [open(p).read() for p in glob.glob(f'{VERIF}/theory/*.rs')] + ['\n'.join(e) for e in extras]:
        theory |= set(re.findall(r'(?m)^(?:pub )?(?:broadcast )?(?:open |closed |uninterp |axiom )*(?:spec |proof |axiom )?fn (\w+)', t))
    theory &= set(re.findall(r'\w+', text))
    calls = re.compile(r'(?<![.\w:])(' + '|'.join(sorted(theory)) + r')(?=\(|::<)') if theory else None

    def mark(kind, fid, key, body):
        if not body:
            return ''
        if calls:
            body = [calls.sub(r'crate::\1', l) for l in body]
        body = [re.sub(r'\barg_(\w+)', lambda m: m.group(0) if m.group(1) in shadowed else m.group(1), l) for l in body]
        return '\n' + '\n'.join(f'{l} //@{kind}|{fid}|{key}' if l.strip() else l for l in body) + '\n'

    def spec(m):
        fid = m.group(1)
        used['spec'].add(fid)
        return mark('spec', fid, 0, fns[fid].spec) + '{'
    text = re.sub(r'\{\s*vx_spec!\("([^"]+)"\);', spec, text)
    text = re.sub(r'\{\s*vx_nobody!\(\);\s*\}', ';', text)

    def loop(m):
        fid, k = m.group(1).rsplit('#', 1)
        body = fns[fid].loops.get(int(k)) if fid in fns and (fid, 'loop', int(k)) not in disabled else None
        if body is None:
            return '{'
        used['loop'].add((fid, int(k)))
        return mark('loop', fid, k, body) + '{'
    text = re.sub(r'\{\s*vx_loop!\("([^"]+)"\);', loop, text)

    def hook(m):
        fid, k, body = hooks[m.group(1)]
        used['hook'].add((fid, k))
        return mark('hook', fid, k, body)
    text = re.sub(r'vx_hook!\("([^"]+)"\);', hook, text)

    def item(m):
        return '\n'.join(bodies[m.group(1)]) + '\n'
    text = re.sub(r'vx_item!\("([^"]+)"\);', item, text)
    text = re.sub(r'vx_text!\(\s*"((?:[^"\\]|\\.)*)",?\s*\);', lambda m: re.sub(r'\\(.)', r'\1', m.group(1)).replace('} open', '}\n    open').replace('} proof', '}\n    proof'), text)
    # attributes
    for fid, s in fns.items():
        for a in s.attrs:
            text = add_attr(text, fid, a)
    missing = list(report['missing'])
    for fid, s in fns.items():
        if s.spec is not None and fid not in used['spec'] and (fid, 'spec', 0) not in disabled:
            missing.append(f'{fid}: contract')
        for k in s.loops:
            if (fid, k) not in used['loop'] and (fid, 'loop', k) not in disabled:
                missing.append(f'{fid}: loop {k}')
        for k in s.closures:
            if f'{fid}|{k}' not in used['closure']:
                missing.append(f'{fid}: closure {k}')
    report['missing'] = missing
    parts = ['''#![allow(unused, non_snake_case, non_camel_case_types)]
''', '#![verifier::exec_allows_no_decreases_clause]\n' if os.environ.get('VX_DEV') else '', '''#![feature(allocator_api)]
use vstd::prelude::*;
use std::collections::{HashMap, HashSet, VecDeque};
use std::convert::TryFrom;
use std::convert::Infallible;
use std::num::TryFromIntError;
use std::marker::PhantomData;
use std::cmp::Ordering;
use vstd::std_specs::cmp::*;
verus! {
''']
    prelude = open(f'{VERIF}/theory/00_prelude.rs').read()
    parts.append(prelude)
    # a module per theory file and per method: they are verified in parallel
    for p in sorted(glob.glob(f'{VERIF}/theory/*.rs')):
        name = 't' + os.path.basename(p)[:-3]
        if os.path.basename(p) in skip or name == 't00_prelude':
            continue
        parts.append(f'// @@module {name}\npub mod {name} {{\nuse super::*;\n{prelude}{open(p).read()}\n}} // mod\npub use {name}::*;\n')
    parts.append('// @@module\n')
    for e in extras:
        parts.append('\n'.join(e) + '\n')
    # byte strings the theory does not know
    known = set(re.findall(r'fn (vx_lit_\w*)', ''.join(parts)))
    for n in sorted(set(re.findall(r'\b(vx_lit_[0-9a-f]*)\(', text)) - known):
        v = bytes.fromhex(n[7:])
        parts.append(f'#[verifier::external_body]\npub fn {n}() -> (r: &\'static [u8]) ensures r@ == seq![{", ".join(f"{b}u8" for b in v)}] {{ unimplemented!() }}\n')
    parts.append('// @@file extracted\n')
    parts.append(apart(text, prelude))
    parts.append('\n} // verus!\nfn main() {}\n')
    open(out, 'w').write(''.join(parts))
    report['contracts'] = sorted(used['spec'])
    report['all_contracts'] = sorted(f for f, s in fns.items() if s.spec is not None)
    return fns, report


def apart(text, prelude):
    """every method of a long inherent impl in a module of its own"""
    out, lines, i, names = [], text.split('\n'), 0, set()
    while i < len(lines):
        if not re.match(r'(unsafe )?impl\b', lines[i]):
            out.append(lines[i])
            i += 1
            continue
        j = i
        while not lines[j].endswith('{'):
            j += 1
        head = lines[i:j + 1]
        e = lines.index('}', j)
        fns, cur = [], []
        for l in lines[j + 1:e]:
            cur.append(l)
            if l == '    }':
                fns.append(cur)
                cur = []
        first = [next((m.group(1) for m in (re.match(r'    pub fn (\w+)', l) for l in f) if m), None) for f in fns]
        if ' for ' in ' '.join(head) or len(fns) < 12 or None in first or any(l.strip() for l in cur) or set(first) & names:
            out += lines[i:e + 1]
        else:
            names |= set(first)
            for n, f in zip(first, fns):
                out += [f'// @@module x_{n}', f'pub mod x_{n} {{', 'use super::*;', prelude.rstrip(chr(10))] + head + f + ['}', '} // mod', '// @@module']
        i = e + 1
    return '\n'.join(out)


def add_attr(text, fid, attr):
    name = fid.split('::')[-1]
    owner = fid.split('::')[0] if '::' in fid else None
    # the spec marker is the reliable anchor
    i = text.find(f'//@spec|{fid}|0')
    if i < 0:
        return text
    j = text.rfind(f'fn {name}', 0, i)
    j = text.rfind('\n', 0, j) + 1
    return text[:j] + '    ' + attr + '\n' + text[j:]


ADAPTERS = {'fxhash': 'fxhash', 'seahash': 'seahash', 'sha2': 'sha2', 'sha3': 'sha3,tiny-keccak', 'keccak': 'keccak,tiny-keccak',
            'blake2-rfc': 'blake2-rfc', 'digest': 'md5,digest'}


def weave_adapter(src, name, out, work, disabled=(), extra=()):
    """the hash adapter of another configuration, on its own"""
    o = f'{VERIF}/overlay_hash'
    paths = [f'{o}/common.vo'] + ([f'{o}/std_hasher.vo'] if name in ('fxhash', 'seahash') else []) + [f'{o}/{name}.vo', *extra]
    skip = [os.path.basename(p) for p in glob.glob(f"{VERIF}/theory/*.rs") if "07_std" not in p]
    return weave(src, ADAPTERS[name], out, work, paths, disabled, skip, {}, ['tree_hasher/', 'trait Hasher', 'impl Hasher'])


CODECS = ['bincode', 'json', 'cbor', 'yaml', 'pickle', 'ron']


def weave_codec(src, name, out, work, disabled=(), extra=()):
    """the nodes' codec under another serialisation scheme, on its own"""
    o = f'{VERIF}/overlay_codec'
    skip = [os.path.basename(p) for p in glob.glob(f"{VERIF}/theory/*.rs") if "07_std" not in p]
    return weave(src, f'{name},serde', out, work, [f'{o}/common.vo', f'{o}/{name}.vo', *extra], disabled, skip, {},
                 ['serde', 'tree/', 'enum NodeVariant', 'struct ArrayVisitor', 'impl Serialize', 'impl Deserialize', 'impl Visitor'])


if __name__ == '__main__':
    if sys.argv[2] in ADAPTERS:
        f, r = weave_adapter(*sys.argv[1:5])
        print(json.dumps({k: v for k, v in r.items() if k in ('error', 'missing', 'unsupported')}))
        sys.exit(0)
    if sys.argv[2] in CODECS:
        f, r = weave_codec(*sys.argv[1:5])
        print(json.dumps({k: v for k, v in r.items() if k in ('error', 'missing', 'unsupported')}))
        sys.exit(0)
    src, feats, out, work = sys.argv[1:5]
    f, r = weave(src, feats, out, work)
    print(json.dumps({k: v for k, v in r.items() if k in ('error', 'missing', 'unsupported', 'dropped')}, indent=1))
