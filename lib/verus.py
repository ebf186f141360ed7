"""Mechanical extraction of functions from /repo and their verification by Verus.

For every unit the generated file contains, verbatim from /repo's current source, the type definitions and the
bodies of the functions under contract.  The extraction
  * keeps only Clone/Copy/PartialEq/Eq among the derives, drops comments and attributes, makes fields public;
  * inserts `requires`/`ensures` between a signature and its body, naming the return value;
  * inserts invariants into `for` loop headers (and names the loop's ghost iterator);
  * inserts proof blocks at the start of a body;
nothing else.  A function of the impl that has no entry in the table is included without a contract.
"""
import json, os, re, subprocess, time

BUILD = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), '.build')
REPO = os.environ.get('VERIF_REPO', '/repo')


class Unsupported(Exception):
    pass


def strip_comments(s):
    """removes // comments outside strings"""
    out, i, n = [], 0, len(s)
    while i < n:
        c = s[i]
        if c == '"':
            j = i + 1
            while j < n and s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            out.append(s[i:j + 1])
            i = j + 1
        elif s.startswith('//', i):
            while i < n and s[i] != '\n':
                i += 1
        elif s.startswith('/*', i):
            i = s.index('*/', i) + 2
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def match_brace(s, i):
    """index just behind the bracket closing the one at s[i]"""
    o = s[i]
    c = {'{': '}', '(': ')', '[': ']', '<': '>'}[o]
    d = 0
    while i < len(s):
        ch = s[i]
        if ch == "'" and re.match(r"'(\\.|[^\\])'", s[i:i + 4]):
            i += 4 if s[i + 1] == '\\' else 3
            continue
        if ch == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif ch == o:
            d += 1
        elif ch == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1
    raise Unsupported('unbalanced braces')


def source(path):
    return strip_comments(open(os.path.join(REPO, path)).read())


def type_def(src, name):
    m = re.search(r'((?:#\[[^\]]*\]\s*)*)(pub(?:\([a-z]+\))? )?(struct|enum) %s\b[^{;(]*\{' % name, src)
    if not m:
        raise Unsupported('type %s not found' % name)
    e = match_brace(src, m.end() - 1)
    body = src[m.start(3):e]
    body = re.sub(r'#\[[^\]]*\]\s*', '', body)
    if m.group(3) == 'struct':
        body = re.sub(r'(?m)^(\s*)(?!pub )(\w+\s*:(?!:))', r'\1pub \2', body)
    der = set(re.findall(r'\b(Clone|Copy|PartialEq|Eq)\b', m.group(1)))
    if name in NO_DERIVE:
        der = set()
    if 'PartialEq' in der and 'Eq' not in der:
        der.discard('PartialEq')
    d = ('#[derive(%s)]\n' % ', '.join(sorted(der) + (['Structural'] if 'Eq' in der else []))) if der else ''
    return d + 'pub ' + body


NO_DERIVE = set()


def split_sig(sig):
    """-> text before ->, return type or None"""
    m = re.search(r'->\s*(.*)$', sig, re.S)
    if m:
        return sig[:m.start()].rstrip(), m.group(1).strip()
    return sig.rstrip(), None


def fns_of(src, head):
    """[(name, signature, body)] of the impl block whose header matches `head`"""
    m = re.search(head + r'\s*\{', src)
    if not m:
        raise Unsupported('%s not found' % head)
    e = match_brace(src, m.end() - 1)
    return fns_in(src[m.end():e - 1])


def free_fns(src, names):
    out = []
    for n in names:
        ms = list(re.finditer(r'(?m)^(pub(?:\([a-z]+\))? )?fn %s\b' % n, src))
        if len(ms) != 1:
            raise Unsupported('no function %s' % n)
        out += [f for f in fns_in(src[ms[0].start():match_brace(src, src.index('{', ms[0].end()))])]
    return out


def fns_in(t):
    out, i = [], 0
    pat = re.compile(r'\b(pub(?:\([a-z]+\))? )?(const )?fn (\w+)')
    while True:
        m = pat.search(t, i)
        if not m:
            return out
        b = t.index('{', m.end())
        e = match_brace(t, b)
        out.append((m.group(3), re.sub(r'\s+', ' ', t[m.start():b]).strip(), t[b:e]))
        i = e


def annotate(name, sig, body, c):
    """c: dict(req, ens, ret, loops=[(ghost name, invariant text)...], start, attrs, trusted)"""
    if c is None:
        return sig + '\n' + body + '\n'
    left, ret = split_sig(sig)
    if ret:
        left += ' -> (%s: %s)' % (c.get('ret', 'r'), ret)
    s = c.get('attrs', '') + left + '\n'
    if c.get('req'):
        s += '    requires\n        ' + ',\n        '.join(c['req']) + ',\n'
    if c.get('ens'):
        s += '    ensures\n        ' + ',\n        '.join(c['ens']) + ',\n'
    if c.get('trusted'):
        return '#[verifier::external_body]\n' + s + '{ unimplemented!() }\n'
    loops = c.get('loops', [])
    if loops:
        parts, i, k = [], 0, 0
        for m in re.finditer(r'\bfor ([^;{}]+?) in ([^{;]+?) \{|\bwhile ([^{;]+?) \{', body):
            if k >= len(loops):
                raise Unsupported('%s has more loops than expected' % name)
            g, inv = loops[k]
            k += 1
            parts.append(body[i:m.start()])
            if m.group(1):
                parts.append('for %s in %s: %s\n invariant %s\n {' % (m.group(1), g, m.group(2), inv))
            else:
                parts.append('while %s\n invariant %s\n {' % (m.group(3), inv))
            i = m.end()
        parts.append(body[i:])
        if k != len(loops):
            raise Unsupported('%s: %d loops found, %d expected' % (name, k, len(loops)))
        body = ''.join(parts)
    if c.get('start'):
        body = '{ ' + c['start'] + '\n' + body[1:]
    if c.get('end'):
        body = body.rstrip()[:-1] + c['end'] + '\n}'
    for pat, rep in c.get('after', []):
        if len(re.findall(pat, body)) != 1:
            raise Unsupported('%s: anchor %r' % (name, pat))
        body = re.sub(pat, lambda m: m.group(0) + ' ' + rep, body)
    return s + body + '\n'


def build(unit):
    import verus_units
    u = verus_units.UNITS[unit]
    global NO_DERIVE
    NO_DERIVE = set(u.get('no_derive', ()))
    parts = ['#![allow(unused)]\nuse vstd::prelude::*;\nuse vstd::std_specs::slice::*;\nverus! {\n']
    for path, name in u['types']:
        parts.append(type_def(source(path), name))
    for path, name, d in u.get('must_derive', ()):
        m = re.search(r'((?:#\[[^\]]*\]\s*)*)(?:pub(?:\([a-z]+\))? )?(?:struct|enum) %s\b' % name, source(path))
        if not m or not re.search(r'\b%s\b' % d, m.group(1)):
            raise Unsupported('%s does not derive %s' % (name, d))
    parts.append(u['spec'])
    unknown, under = [], []
    for path, head, emit, table in u['impls']:
        fs = fns_of(source(path), head) if head else free_fns(source(path), table)
        names = {n for n, _, _ in fs}
        for n in table:
            if n not in names:
                raise Unsupported('%s: no function %s' % (head, n))
        parts.append((emit + ' {\n') if emit else '')
        for n, sig, body in fs:
            if n in u.get('skip', ()):
                continue
            for pat, rep in u.get('rewrite', ()):
                body = re.sub(pat, rep, body)
            if n not in table:
                unknown.append(n)
            elif not table[n].get('trusted'):
                under.append(n)
            parts.append(annotate(n, sig, body, table.get(n)))
        parts.append('}\n' if emit else '')
    parts.append(u.get('lemmas', ''))
    parts.append('} // verus!\nfn main() {}\n')
    return '\n'.join(parts), unknown, under


def check(unit, secs):
    t0 = time.time()
    row = dict(unit=unit, status='undecided', verified=0, obligations=0, discharged=0, failing=[], output='', cmd='')
    try:
        text, unknown, under = build(unit)
    except (Unsupported, ValueError) as x:
        row['why'] = 'extraction: %s' % x
        return row
    os.makedirs(BUILD, exist_ok=True)
    f = os.path.join(BUILD, 'verus_%s.rs' % unit)
    open(f, 'w').write(text)
    cmd = ['verus', f, '--output-json', '--rlimit', '60', '--no-report-long-running']
    row['cmd'] = ' '.join(cmd)
    row['functions'] = under
    try:
        p = subprocess.run(cmd, capture_output=True, text=True, timeout=max(30, secs), cwd=BUILD)
    except subprocess.TimeoutExpired:
        row['why'] = 'timeout'
        return row
    row['output'] = p.stderr[-8000:]
    row['wall_s'] = round(time.time() - t0, 1)
    try:
        d = json.loads(p.stdout[p.stdout.index('{'):])['verification-results']
    except (ValueError, KeyError):
        row['why'] = 'no answer of Verus: ' + p.stderr[-600:]
        return row
    ok, bad = d.get('verified', 0), d.get('errors', 0)
    row.update(verified=ok, obligations=ok + bad, discharged=ok)
    if d.get('encountered-vir-error') or (d.get('encountered-error') and not bad):
        row['why'] = 'outside Verus\'s subset: ' + '; '.join(re.findall(r'^error[^\n]*', p.stderr, re.M))[:400]
        return row
    if bad == 0 and d.get('success'):
        row['status'] = 'proved'
        return row
    row['failing'] = failing(p.stderr, text)
    if unknown:
        row['why'] = 'functions without a contract: %s; failing: %s' % (unknown, row['failing'][:3])
        return row
    if re.search(r'resource limit|rlimit', p.stderr, re.I):
        row['why'] = 'resource limit'
        return row
    row['status'] = 'violated'
    return row


def failing(err, text):
    out = []
    lines = text.split('\n')
    for m in re.finditer(r'^error: ([^\n]*)\n\s*--> [^\n:]*:(\d+):', err, re.M):
        n = int(m.group(2))
        fn = next((re.search(r'fn (\w+)', l).group(1) for l in reversed(lines[:n]) if re.search(r'\bfn \w+', l)), '?')
        out.append('%s in %s (%s)' % (m.group(1), fn, lines[n - 1].strip()[:100]))
    return out or ['verification failed']


if __name__ == '__main__':
    import sys
    r = check(sys.argv[1], 600)
    print(r['output'][-6000:])
    print({k: v for k, v in r.items() if k != 'output'})
