"""Runs the parts of one property's check and folds their verdicts.

A part is a dict:
  kani   : contract names (module::name), proved on the real crate by Kani/CBMC
  native : contract names only executed natively (bounded)
  verus  : mechanically extracted functions proved by Verus
  tool   : argv of a bounded native tool (differential execution of the real code)
Every kani contract is also executed natively on seeded inputs: that is where the concrete
failing input of a failed obligation comes from.
"""
import json, os, re, subprocess, sys, time, threading, signal, hashlib

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, '.build')
CW = os.path.join(VERIF, 'cw')
REPO = '/repo'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
DEADLINE = 800 if TIER == 'quick' else 7200
T0 = time.time()
ENV = dict(os.environ, CARGO_NET_OFFLINE='true', RUSTFLAGS='--cfg chiwawa_verif', CARGO_TERM_COLOR='never')
ENV.pop('CARGO_TARGET_DIR', None)


class CheckError(Exception):
    pass


def left(reserve=0):
    return max(1, DEADLINE - reserve - (time.time() - T0))


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def sh(cmd, timeout, cwd=None, env=ENV, started=None, **kw):
    """run in its own process group; on timeout the whole group is ended. -> (rc|None, stdout, stderr)"""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors='replace', start_new_session=True, **kw)
    if started is not None:
        started.append(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o, e
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        return None, o, e


# ------------------------------------------------------------------ native runner
def build_native(features=(), sub='native'):
    td = os.path.join(BUILD, sub)
    c = ['cargo', 'build', '--release', '--offline', '--target-dir', td]
    if features:
        c += ['--features', ','.join(features)]
    rc, o, e = sh(c, left(), cwd=os.path.join(VERIF, 'replay'))
    if rc != 0:
        raise CheckError('the contract crate does not build against /repo (%s):\n%s' % (','.join(features), e[-3000:]))
    return os.path.join(td, 'release')


def build_tv(features=(), sub='tv'):
    td = os.path.join(BUILD, sub)
    c = ['cargo', 'build', '--release', '--offline', '--target-dir', td]
    if features:
        c += ['--features', ','.join(features)]
    rc, o, e = sh(c, left(), cwd=os.path.join(VERIF, 'tv'))
    if rc != 0:
        raise CheckError('the differential tool does not build against /repo:\n%s' % e[-3000:])
    return os.path.join(td, 'release', 'tv')


def native_run(bindir, name, secs, iters, seed=None):
    """-> dict with 'violated' or counts"""
    cmd = [os.path.join(bindir, 'replay'), 'search', name, str(secs), str(iters), str(SEED if seed is None else seed)]
    rc, o, e = sh(cmd, secs * 10 + 60)
    if rc is None:
        return {'contract': name, 'runs': 0, 'satisfied_precondition': 0, 'rejected': 0, 'note': 'timed out', 'hang': True}
    if rc < 0 or rc in (134, 139):
        return {'contract': name, 'violated': 'the process died with status %s while executing the contract' % rc,
                'command': ' '.join(cmd), 'stderr': e[-500:]}
    last = (o.strip().splitlines() or ['{}'])[-1]
    try:
        r = json.loads(last)
    except ValueError:
        raise CheckError('unreadable output of the native runner for %s: %r %r' % (name, last[:200], e[-300:]))
    r['command'] = ' '.join(cmd)
    return r


# ------------------------------------------------------------------ Kani
IGNORED = ('NaN on ',)            # float NaN "checks" of CBMC: NaN results are legal WebAssembly


def harness_of(name):
    return 'contracts::%s::proof' % name


class Kani:
    """one cargo-kani invocation over a list of contracts, started in the background"""

    def __init__(self, names, htimeout, features=(), sub='kani', extra=()):
        self.names, self.features, self.sub = list(names), features, sub
        self.htimeout = htimeout
        self.extra = list(extra)
        self.res = {}
        self.err = None
        self.wall = 0
        self.proc, self.stopped = [], False
        self.th = threading.Thread(target=self._go)
        self.th.start()

    def cmd(self, names, json_out):
        c = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, self.sub), '-j', str(props_jobs()), '-Z', 'stubbing',
             '--no-assertion-reach-checks', '-Z', 'unstable-options', '--harness-timeout', '%ds' % self.htimeout,
             '--export-json', json_out, '--output-format=terse', '--exact']
        if self.features:
            c += ['--features', ','.join(self.features)]
        c += self.extra
        for n in names:
            c += ['--harness', harness_of(n)]
        return c

    def _go(self):
        t = time.time()
        try:
            out = os.path.join(BUILD, self.sub + '.json')
            os.makedirs(BUILD, exist_ok=True)
            if os.path.exists(out):
                os.unlink(out)
            self.checker_cmd = ' '.join(self.cmd(self.names, out))
            rc, o, e = sh(self.cmd(self.names, out), left(25), cwd=CW, started=self.proc)
            self.raw = o[-20000:] + e[-6000:]
            if os.path.exists(out):
                d = json.load(open(out))
                st = {c['harness_id']: c.get('cbmc_stats') or {} for c in d.get('cbmc', [])}
                for r in d['verification_results']['results']:
                    self.res[r['harness_id']] = (r, st.get(r['harness_id'], {}))
            elif rc is None or self.stopped:
                self.err = 'timeout'
            else:
                self.err = 'Kani did not produce results (rc=%s):\n%s' % (rc, (o[-1500:] + e[-2500:]))
        except Exception as x:      # noqa
            self.err = repr(x)
        self.wall = time.time() - t

    def wait(self, patience=None):
        """patience: seconds after which the run is ended (a violation is already confirmed)"""
        self.th.join(patience)
        while self.th.is_alive():
            self.stopped = True
            for p in self.proc:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
            self.th.join(5)


def props_jobs():
    import props
    return props.JOBS


def counted(c, under):
    """is this obligation one of a function the property is about (or of the contract itself)?  Kani also generates
    obligations for every function the handler table mentions and for library code; they are judged, but not counted"""
    f = c['function']
    return f.startswith(('contracts::', 'world::')) or (f.startswith('chiwawa::') and bool(re.search(under, f)))


def judge(name, trap, entry, under='.'):
    """verdict of one harness: (proved|violated|undecided|vacuous, obligations, discharged, failing)"""
    if entry is None:
        return 'undecided', 0, 0, ['no result'], []
    r, st = entry
    checks = r['checks']
    covers = [c for c in checks if c['category'] == 'cover']
    obl = [c for c in checks if c['category'] != 'cover' and not c['description'].startswith(IGNORED)]
    funcs = sorted({c['function'] for c in obl if c['function'].startswith('chiwawa::') and counted(c, under)})
    if not checks:
        return 'undecided', 0, 0, ['solver timeout or out of memory'], funcs
    unwind = [c for c in obl if c['status'] == 'Failure' and c['category'] == 'unwind']
    unsup = [c for c in obl if c['status'] == 'Failure' and ('not currently supported' in c['description'] or c['category'] in ('unsupported_construct', 'unsupported_struct'))]
    if trap:
        pre = covers[0]['status'] if covers else None
        mnr = covers[1]['status'] if len(covers) > 1 else 'Unsatisfiable'
        if pre != 'Satisfied':
            return 'vacuous', 1, 0, ['PRE cover %s' % pre], funcs
        if mnr == 'Satisfied':
            return 'violated', 1, 0, ['must-trap: the instruction completes from a pre-state in which it must trap'], funcs
        if unwind or unsup:
            return 'undecided', 1, 0, ['unwinding bound or unsupported construct'], funcs
        # an arithmetic-overflow check cuts the path in the verifier, but a release build wraps and goes on
        wraps = [c for c in obl if c['status'] == 'Failure' and c['function'].startswith('chiwawa::')
                 and re.match(r'attempt to (add|subtract|multiply|negate|shift)', c['description'])]
        if wraps:
            return 'undecided', 1, 0, ['arithmetic overflow where a trap is required: ' + wraps[0]['function']], funcs
        return 'proved', 1, 1, [], funcs
    bad = [c for c in obl if c['status'] == 'Failure' and c not in unwind and c not in unsup]
    ok = [c for c in obl if c['status'] in ('Success', 'Unreachable')]
    nobl, nok = sum(counted(c, under) for c in obl), sum(counted(c, under) for c in ok)
    names = sorted({'%s (%s:%s)' % (c['description'], c['function'], c['location'].get('line')) for c in bad})
    if bad:
        return 'violated', nobl, nok, names, funcs
    if unwind or unsup:
        return 'undecided', nobl, nok, [c['description'] + ' ' + c['function'] for c in (unwind + unsup)[:3]], funcs
    if not covers or covers[0]['status'] != 'Satisfied':
        return 'vacuous', nobl, nok, ['REACH cover not satisfied'], funcs
    if len(ok) != len(obl):
        return 'undecided', nobl, nok, ['undetermined checks'], funcs
    return 'proved', nobl, nok, [], funcs


def playback(k, name):
    """Kani's counterexample as recorded draws, or None"""
    c = ['cargo', 'kani', '--target-dir', os.path.join(BUILD, k.sub), '-Z', 'stubbing', '-Z', 'concrete-playback',
         '--concrete-playback=print', '--no-assertion-reach-checks', '-Z', 'unstable-options',
         '--harness-timeout', '%ds' % k.htimeout, '--exact', '--harness', harness_of(name)]
    if k.features:
        c += ['--features', ','.join(k.features)]
    rc, o, e = sh(c, min(240, left(60)), cwd=CW)
    outs = []
    for m in re.finditer(r'let concrete_vals: Vec<Vec<u8>> = vec!\[(.*?)\n\s*\];', o, re.S):
        outs.append([[int(x) for x in v.split(',') if x.strip()] for v in re.findall(r'vec!\[([\d, ]*)\]', m.group(1))])
    return outs


# ------------------------------------------------------------------ findings and replay files
def known_findings():
    p = os.path.join(VERIF, 'known_findings.txt')
    out = []
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    return out


def write_replay(prop, data):
    d = os.path.join(VERIF, 'evidence', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, hashlib.sha1(json.dumps(data, sort_keys=True, default=str).encode()).hexdigest()[:10]))
    json.dump(data, open(p, 'w'), indent=1, default=str)
    return p


# ------------------------------------------------------------------ main
def run(prop, spec):
    try:
        return run1(prop, spec)
    except CheckError as x:
        print('ERROR property=%s %s' % (prop, x), flush=True)
        return 2


def run1(prop, spec):
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    quick = TIER == 'quick'
    trapset = set(spec.get('traps', ()))
    kani_names = list(spec.get('kani', ())) + ([] if quick else list(spec.get('kani_thorough', ())))
    kruns = []
    violations, undecided, known = [], [], []
    samples, assumptions = [], list(spec.get('assumptions', ()))
    listed = {(p, k): d for p, k, d in known_findings()}

    # cargo features of chiwawa under which everything is built (C12: the tail-calling dispatcher)
    feats = tuple(spec.get('features', ()))
    suffix = ''.join('-' + f for f in feats)
    if kani_names:
        kruns.append(('+'.join(feats) or 'loop', Kani(kani_names, spec.get('htimeout', 330) if quick else 1500, feats + (() if quick else ('thorough',)),
                                         ('kani' if quick else 'kani-thorough') + suffix)))
    bindir = build_native(feats, 'native' + suffix)
    tvbin = build_tv(feats, 'tv' + suffix) if any('{tv}' in t['argv'] for t in spec.get('tools', ())) else ''
    log('native build done')

    # --- bounded tools (differential execution); each prints JSON lines
    tools = []
    for t in spec.get('tools', ()):
        argv = [a.replace('{bin}', bindir).replace('{tv}', tvbin).replace('{verif}', VERIF).replace('{seed}', str(SEED)).replace('{build}', BUILD)
                .replace('{secs}', str(t['secs'] if quick else t.get('secs_thorough', t['secs'] * 10))) for a in t['argv']]
        rc, o, e = sh(argv, left(40), cwd=BUILD)
        rows = []
        for l in o.splitlines():
            if l.startswith('{'):
                try:
                    rows.append(json.loads(l))
                except ValueError:
                    pass
        summ = [r for r in rows if 'summary' in r]
        vio = [r for r in rows if 'violation' in r]
        for v in vio:
            key = v.get('key', '')
            if (prop, key) in listed:
                known.append((key, listed[(prop, key)]))
            else:
                violations.append(dict(kind='bounded', obligation=v['violation'], input=v, confirmed=True))
        if not summ and not vio:
            if rc is not None and (rc < 0 or rc in (134, 139)):
                last = [r for r in rows if 'progress' in r][-1:]
                violations.append(dict(kind='bounded', obligation='%s: the real code crashed (status %s)' % (t['name'], rc),
                                       input={'command': ' '.join(argv), 'last': last, 'stderr': e[-800:]}, confirmed=True))
            else:
                raise CheckError('tool %s gave no answer (rc=%s): %s' % (t['name'], rc, (o + e)[-2000:]))
        for s in summ:
            tools.append(dict(name=t['name'], bound=t['bound'], **s['summary']))
        log('tool', t['name'], 'done:', len(vio), 'violations', json.dumps(summ[-1]['summary'])[:300] if summ else '')

    # --- native execution of every contract
    native_names = kani_names + list(spec.get('native', ()))
    nat, secs = {}, (spec.get('native_secs', 2) if quick else 30)
    lock = threading.Semaphore(3)

    def one(n):
        with lock:
            try:
                nat[n] = native_run(bindir, n, secs, 20000 if quick else 2000000)
            except CheckError as x:
                nat[n] = {'error': str(x)}
    ths = [threading.Thread(target=one, args=(n,)) for n in native_names]
    [t.start() for t in ths]
    [t.join() for t in ths]
    for n in native_names:
        r = nat[n]
        if 'error' in r:
            raise CheckError(r['error'])
        if 'violated' in r:
            violations.append(dict(kind='native', contract=n, obligation=r['violated'], input=r, confirmed=True))
    log('native contracts done')

    # --- Verus
    verus_rows = []
    for v in spec.get('verus', ()):
        import verus
        row = verus.check(v, left(60))
        verus_rows.append(row)
        log('verus', v, row['status'], row.get('verified'), 'verified')
        if row['status'] == 'violated':
            violations.append(dict(kind='verus', contract=v, obligation='; '.join(row['failing']), input=None, confirmed=False,
                                   verifier_output=row['output'][-3000:]))
        elif row['status'] != 'proved':
            undecided.append((v, row.get('why', row['status'])))

    # --- Kani verdicts
    obligations = discharged = 0
    bounded_obl = 0
    proved, funcs, solver = [], set(), 0.0
    for mode, k in kruns:
        k.wait(90 if any(v['confirmed'] for v in violations) else None)
        if k.err and k.err != 'timeout':
            raise CheckError(k.err)
        log('kani done', mode, 'in %.0fs' % k.wall, ' '.join('%s=%.0f' % (h.split('::')[-2], r[0]['duration_ms'] / 1000) for h, r in sorted(k.res.items())))
        todo = []
        for n in kani_names:
            verdict, ob, di, failing, fs = judge(n, n in trapset, k.res.get(harness_of(n)), spec.get('under', '.'))
            if verdict == 'undecided' and failing and 'unwind' in ' '.join(failing) and left() > 240:
                k2 = Kani([n], k.htimeout, k.features, k.sub, ['--default-unwind', '33'])
                k2.wait()
                v2 = judge(n, n in trapset, k2.res.get(harness_of(n)), spec.get('under', '.'))
                if v2[0] != 'undecided':
                    verdict, ob, di, failing, fs = v2
            st = (k.res.get(harness_of(n)) or (None, {}))[1]
            solver += float(st.get('runtime_decision_procedure_s') or 0)
            b = '::bounded_' in n
            if b:
                bounded_obl += di
            else:
                obligations += ob
                discharged += di
                funcs |= set(fs)
            if verdict == 'proved':
                proved.append(n)
            elif verdict == 'vacuous':
                if not violations:
                    raise CheckError('%s is vacuous: %s' % (n, failing))
            elif verdict == 'violated':
                todo.append((n, failing))
            else:
                undecided.append((n, '; '.join(failing)[:300]))
        for n, failing in todo:
            if any(v.get('contract') == n and v['confirmed'] for v in violations):
                for v in violations:
                    if v.get('contract') == n:
                        v['failed_obligations'] = failing
                continue
            # replay the counterexample on the compiled code: seeded search, then Kani's own trace
            got = native_run(bindir, n, 20, 2000000, SEED + 7)
            if 'violated' not in got and left() > 200:
                for i, tr in enumerate(playback(k, n)):
                    f = os.path.join(BUILD, 'trace.txt')
                    open(f, 'w').write('\n'.join(','.join(map(str, x)) for x in tr) + '\n')
                    rc, o, e = sh([os.path.join(bindir, 'replay'), 'bytes', n, f], 60)
                    if rc == 1:
                        got = dict(json.loads(o.strip().splitlines()[-1]), trace=tr)
                        break
                    if rc is not None and rc < 0:
                        got = dict(violated='process died with status %d' % rc, trace=tr)
                        break
            c = 'violated' in got
            violations.append(dict(kind='kani', contract=n, obligation='; '.join(failing[:4]), failed_obligations=failing,
                                   input=got if c else None, confirmed=c,
                                   verifier_output=None if c else k.raw[-6000:]))

    # --- evidence
    runs = sum(r.get('runs', 0) for r in nat.values())
    good = sum(r.get('satisfied_precondition', 0) for r in nat.values())
    vob = sum(r.get('obligations', 0) for r in verus_rows)
    vdi = sum(r.get('discharged', 0) for r in verus_rows)
    cov = {}
    level = spec['level']
    tb = ['rustc/Kani 0.68 MIR-to-GOTO translation, CBMC 6.11 and its SAT back ends (cadical, kissat)',
          'verification target is x86_64 (usize is 64 bits); chiwawa itself runs as wasm32'] + list(spec.get('trusted', ()))
    if verus_rows:
        tb.append('Verus and Z3; the extraction in lib/verus.py (what it drops is listed in DESIGN.md)')
    if level == 'proof':
        cov = dict(obligations=obligations + vob, discharged=discharged + vdi,
                   checker_cmd=(kruns[0][1].checker_cmd if kruns else verus_rows[0]['cmd'] if verus_rows else ''),
                   trusted_base=tb)
    else:
        evs = sum(t.get('evaluations', 0) for t in tools) + runs
        cov = dict(evaluations=evs, distinct_nontrivial=sum(t.get('distinct', 0) for t in tools) + good,
                   rule=spec.get('rule', 'seeded inputs satisfying the contract precondition'),
                   samples=[s for t in tools for s in t.get('samples', [])][:4] or ['see contracts_native'],
                   obligations=obligations + vob, discharged=discharged + vdi, trusted_base=tb)
    cov.update(contracts_proved=len(proved), contracts_total=len(kani_names), functions_under_contract=sorted(funcs),
               backend='cadical/kissat via CBMC', solver_time_s=round(solver, 1),
               bounded_checks_discharged_not_counted=bounded_obl,
               undecided_this_run=[list(u) for u in undecided],
               contracts_native=dict(executions=runs, precondition_satisfied=good, contracts=len(native_names),
                                     note='seeded executions of the same contracts on the compiled code; bounded, not counted as proof'),
               bounded_tools=tools, verus=[{k: v for k, v in r.items() if k != 'output'} for r in verus_rows])
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=assumptions,
              wall_s=round(time.time() - T0, 1), violations=len(violations))
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)

    for key, what in sorted(set(known)):
        print('KNOWN-FINDING: property=%s %s' % (prop, what))
    for u in undecided:
        print('NOTE not proved on this run (bounded execution of the same contract found no violation):', u[0], '-', u[1])
    if violations:
        # with a failing input first; of those, a prover's obligation before a bounded observation
        violations.sort(key=lambda v: (not v['confirmed'], 0 if 'failed_obligations' in v else 1 if v.get('contract') else 2))
        for v in violations[1:6]:
            print('also failed: %s %s' % (v.get('contract', v['kind']), v['obligation'][:300]))
        v = violations[0]
        p = write_replay(prop, dict(property=prop, **v))
        print('failed obligation:', v.get('contract', v['kind']), v['obligation'][:600])
        print('VIOLATION property=%s replay=%s%s' % (prop, p, '' if v['confirmed'] else ' no-failing-input-found'), flush=True)
        return 1
    print('OK property=%s: %d/%d contracts proved (%d/%d obligations), %d native executions, %.0fs' % (
        prop, len(proved), len(kani_names), discharged + vdi, obligations + vob, runs, time.time() - T0), flush=True)
    return 0
