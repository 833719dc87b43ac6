#!/usr/bin/env python3
"""Decides one property: check.py PROPERTY [--tier quick|thorough].

Extracts the functions of /repo, composes them with the contracts, has Verus discharge every obligation, and runs the
harness: concrete inputs against the real code, which give a failed obligation its failing input, and stand in (with
a bound, and labelled so) for what Verus could not be given.
"""
import glob, json, os, re, shutil, signal, subprocess, sys, tempfile, threading, time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import compose as C

VERIF = C.VERIF
REPO = '/repo'
OUT = os.path.join(VERIF, 'out')
HARNESS = os.path.join(VERIF, 'harness')
TOTAL = ('C18', 'C24', 'C26', 'C27')
FEATURES = {'C26': ['--features', 'ffi'], 'C27': ['--features', 'js']}  # what only this property's cases need built


def say(*a):
    print(*a, flush=True)


def run(cmd, timeout, cwd=None, env=None):
    """Runs a command in a process group of its own, which is ended when the time is over."""
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    try:
        o, e = p.communicate(timeout=timeout)
        rc = p.returncode
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        o, e = p.communicate()
        rc = None
    return rc, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')


# ---- building -------------------------------------------------------------------------------------------------------
def build_extractor():
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    rc, o, e = run(['cargo', 'build', '--offline', '--locked', '--quiet'], 600, os.path.join(VERIF, 'extractor'), env)
    if rc != 0:
        raise Exception('the extractor does not build:\n' + e[-3000:])


def build_harness(prop):
    """The harness with /repo as it is now; an error's text if it does not build."""
    home = os.path.join(HARNESS, 'target', 'cargo-home')
    os.makedirs(home, exist_ok=True)
    env = dict(os.environ, CARGO_HOME=home, RUSTUP_TOOLCHAIN='nightly-2019-01-15', CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    env.pop('CARGO_TARGET_DIR', None)
    rc, o, e = run(['cargo', 'build', '--locked'] + FEATURES.get(prop, []), 600, HARNESS, env)
    return None if rc == 0 else (e[-6000:] or 'time is over')


# ---- the verifier ---------------------------------------------------------------------------------------------------
class Verdict:
    def __init__(self):
        self.failed, self.unknown, self.lost = {}, {}, {}
        self.times, self.verified, self.smt_ms, self.raw, self.version = {}, 0, 0, [], ''
        self.cmd, self.composer, self.text, self.complete = '', None, '', False
        self.frontend = []


def verus(text, work, name, args, timeout):
    path = os.path.join(work, name)
    open(path, 'w').write(text)
    cmd = ['verus', name, '--num-threads', '8', '--multiple-errors', '5', '--output-json', '--time-expanded', '--error-format=json'] + args
    rc, o, e = run(cmd, timeout, work)
    diags = []
    for l in e.split('\n'):
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(o[o.index('{'):])
    except ValueError:
        res = None
    return rc, res, diags, ' '.join(cmd), e


def compose(ext, contracts, **kw):
    k = C.Composer(ext, contracts, **kw)
    t = k.compose(sorted(glob.glob(VERIF + '/contracts/defs*.rs')), sorted(glob.glob(VERIF + '/contracts/props*.rs')))
    return k, t


def owner(k, line):
    best = None
    for a, b, i in k.spans:
        if a <= line <= b and (best is None or b - a < best[0]):
            best = (b - a, i)
    return best and best[1]


def mine(d, name):
    """The spans of a diagnostic which lie in the composed text, the primary ones first."""
    sp = [s for s in d.get('spans', []) if os.path.basename(s.get('file_name', '')) == name]
    return sorted(sp, key=lambda s: not s['is_primary'])


def discharge(ext, contracts, work, rlimit, timeout, boost=(), lost=None):
    v = Verdict()
    lost = dict(lost or {})
    name = 'w.rs'
    for rnd in range(14):
        k, text = compose(ext, contracts, lost=lost, boost=boost)
        v.composer, v.text, v.lost = k, text, dict(lost)
        rc, res, diags, cmd, err = verus(text, work, name, ['--rlimit', str(rlimit)], timeout)
        v.cmd = cmd
        errs = [d for d in diags if d.get('level') == 'error' and d.get('spans')]
        if rc is None:
            v.unknown['*'] = 'no answer within %d s' % timeout
            return v
        vr = (res or {}).get('verification-results', {})
        front = res is None or vr.get('encountered-vir-error') or (vr.get('verified', 0) == 0 and vr.get('errors', 0) == 0)
        if not front:
            break
        # what Verus does not accept is left out, a little more each time
        new = {}
        for d in errs:
            for s in mine(d, name):
                o = owner(k, s['line_start'])
                if not o:
                    continue
                lab = k.labels.get(s['line_start'], {})
                if o in contracts or o.startswith('item::') or o.startswith('lemma::') or '::' in o:
                    lvl = lost.get(o, 0)
                    step = lvl + 1
                    if lab.get('kind') in ('req', 'ens'):
                        step = max(step, 2)
                    if lab.get('kind') == 'sig':
                        step = max(step, 3)
                    new[o] = max(new.get(o, 0), step)
                    v.frontend.append('%s: %s' % (o, d['message'][:200]))
                break
        if not new:
            v.unknown['*'] = 'Verus does not accept the composed text: ' + '; '.join(d['message'][:200] for d in errs[:3]) + (err[-500:] if not errs else '')
            return v
        for o, n in new.items():
            lost[o] = min(3, n)
    else:
        v.unknown['*'] = 'Verus does not accept the composed text'
        return v
    v.complete = True
    v.verified = vr.get('verified', 0)
    t = (res or {}).get('times-ms', {})
    v.version = json.dumps((res or {}).get('verus', {}).get('version', ''))
    for m in t.get('smt', {}).get('smt-run-module-times', []):
        for f in m.get('function-breakdown', []):
            v.times[f['function']] = v.times.get(f['function'], 0) + f.get('time-micros', 0)
    v.smt_ms = sum(v.times.values()) / 1000.0
    for d in errs:
        msg = d['message']
        sp = mine(d, name)
        if not sp:
            v.unknown['?'] = msg
            continue
        # what a trait of the model demands of an implementation fails at the trait; the implementation is the next span
        o = ([x for x in (owner(k, s['line_start']) for s in sp) if x] or ['?'])[0]
        limit = 'resource limit' in msg.lower() or 'rlimit' in msg.lower() or 'timed out' in msg.lower()
        labs = [k.labels.get(s['line_start']) for s in sp]
        text0 = text.split('\n')[sp[0]['line_start'] - 1].strip()
        entry = {'function': o, 'message': msg, 'line': text0[:400], 'kind': 'body', 'n': 0, 'tags': None, 'where': '', 'callee': ''}
        lab = labs[0] or {}
        if 'precondition' in msg:
            entry['kind'] = 'call'
            for s, l in zip(sp[1:], labs[1:]):
                entry['callee'] = text.split('\n')[s['line_start'] - 1].strip()[:300]
                o2 = owner(k, s['line_start'])
                if o2 and o2.startswith('lemma::'):
                    entry['kind'] = 'proof'
            if lab.get('kind') == 'proof':
                entry['kind'] = 'proof'
        elif lab.get('kind') in ('ens', 'inv', 'proof', 'lemma'):
            entry['kind'] = lab['kind']
            entry['n'] = lab.get('n', 0)
            entry['where'] = lab.get('where', '')
            if lab.get('fn'):
                entry['function'] = o = lab['fn']
            if lab['kind'] == 'ens' and lab['tags']:
                entry['tags'] = lab['tags']
        if o.startswith('lemma::'):
            entry['kind'] = 'lemma'
        key = '%s/%s%s' % (entry['function'], entry['kind'], entry['n'] or '')
        if limit or o == '?':
            v.unknown[entry['function']] = msg
        else:
            v.failed.setdefault(key, entry)
    v.raw = [d.get('rendered', '') for d in errs]
    return v


def fn_tags(k, contracts, fid):
    """All the properties a function's obligations are about."""
    if fid.startswith('lemma::'):
        for l in k.labels.values():
            if l['fn'] == fid:
                return list(l['tags'])
        return []
    c = contracts.get(fid)
    if not c:
        return []
    t = list(c.total)
    for x in c.clauses:
        t += x.tags
    return sorted(set(t))


def entry_tags(k, contracts, e):
    if e['tags'] is not None:
        return e['tags']
    fid = e['function']
    c = contracts.get(fid)
    if e['kind'] in ('body', 'call') and c:
        return list(c.total)
    return fn_tags(k, contracts, fid)


# ---- what a property depends on -------------------------------------------------------------------------------------
def graph(ext, contracts, k, text):
    lines = text.split('\n')
    short = {}
    for fid in contracts:
        last = fid.split('::')[-1]
        parts = fid.split('::')
        ty = parts[-2] if len(parts) > 1 else ''
        short.setdefault(last, []).append((fid, ty))
    for a, b, i in k.spans:
        if i.startswith('lemma::'):
            short.setdefault(i[7:], []).append((i, ''))
    edges = {}
    for a, b, i in k.spans:
        if i.startswith('item::'):
            continue
        t = ' '.join(l for l in lines[a - 1:b] if not l.startswith('//'))
        out = edges.setdefault(i, set())
        for m in re.finditer(r'(?:(\w+)\s*(?:<[^<>]*>)?\s*::\s*)?(\.\s*)?\b(\w+)\s*(?:::\s*<[^<>]*>\s*)?\(', t):
            q, dot, n = m.group(1), m.group(2), m.group(3)
            for fid, ty in short.get(n, []):
                if fid == i:
                    continue
                if dot or not q or q == 'Self' or ty.split('<')[0] == q or ty.endswith(q) or q in fid or ' for ' in ty or '<' in ty:
                    out.add(fid)
    return edges


def cone(prop, ext, contracts, k, text):
    edges = graph(ext, contracts, k, text)
    seeds = {fid for fid in contracts if prop in fn_tags(k, contracts, fid)}
    seeds |= {l['fn'] for l in k.labels.values() if l['kind'] == 'lemma' and prop in l['tags']}
    direct = set(seeds)
    todo = list(seeds)
    seen = set(seeds)
    while todo:
        for n in edges.get(todo.pop(), ()):
            if n not in seen:
                seen.add(n)
                todo.append(n)
    return direct, seen


def obligations(prop, direct, seen, contracts, k):
    """The named obligations: (name, whether it is of the property itself)."""
    out = []
    done = set()
    for line, l in sorted(k.labels.items()):
        fid = l['fn']
        if fid not in seen:
            continue
        if l['kind'] == 'lemma':
            n = fid
            own = prop in l['tags']
        elif l['kind'] == 'ens':
            n = '%s/ens%d' % (fid, l['n'])
            own = prop in l['tags']
        elif l['kind'] == 'inv':
            n = '%s/inv@%s' % (fid, l.get('where') or 'bound')
            own = False
        elif l['kind'] == 'sig':
            n = '%s/safety' % fid
            own = prop in (l['tags'] or [])
        else:
            continue
        if n not in done:
            done.add(n)
            out.append((n, fid, own))
    return out


def shape_of(ext):
    out = {}
    for c in ext['crates']:
        for m in c['modules']:
            for f in C.all_fns(m['items']):
                out[f['id']] = {'params': [p['ty'] for p in f['params']], 'ret': f['ret'] or '', 'loops': [[l.get('kind'), len(l.get('muts', []))] for l in f['loops']]}
                if f.get('closures'):
                    # nothing is said of what a closure does, so nothing can be shown of it
                    out[f['id']]['closures'] = f['closures']
    return out


def trusted(text):
    """What the composed text takes for granted, by name."""
    ax, eb, un, asm = [], [], [], []
    lines = text.split('\n')
    ext_body = False
    path = []
    for l in lines:
        s = l.strip()
        m = re.match(r'pub mod (\w+)', s)
        if m:
            path.append(m.group(1))
        if re.match(r'\} // mod', s) and path:
            path.pop()
        if 'external_body' in s or 'verifier::external' in s:
            ext_body = True
        m = re.search(r'\bassume_specification\b.*?\[\s*(.*?)\s*\]', s)
        if m:
            asm.append(m.group(1))
        m = re.search(r'\baxiom fn (\w+)', s)
        if m:
            ax.append(m.group(1))
            ext_body = False
            continue
        m = re.search(r'\buninterp spec fn (\w+)', s)
        if m:
            un.append(m.group(1))
            continue
        m = re.search(r'\bfn (\w+)', s)
        if m and ext_body:
            (ax if 'proof fn' in s else eb).append('::'.join(path[-2:]) + '::' + m.group(1))
            ext_body = False
        elif re.search(r'\b(struct|enum) (\w+)', s):
            ext_body = False
    return {'axioms': sorted(set(ax)), 'external_body': sorted(set(eb)), 'uninterpreted': sorted(set(un)), 'assume_specification': sorted(set(asm))}


# ---- the harness ----------------------------------------------------------------------------------------------------
def source_ints():
    """The numbers written in the sources, and how often."""
    out = {}
    for d in ('aeonflux/src', 'signal-credential/src', 'ffi/src', 'wasm/src'):
        for root, _, files in os.walk(os.path.join(REPO, d)):
            for f in files:
                if f.endswith('.rs'):
                    t = open(os.path.join(root, f), errors='replace').read()
                    found = []
                    for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)', t):
                        try:
                            found.append(int(m.group(1).replace('_', ''), 0) & (2 ** 64 - 1))
                        except ValueError:
                            pass
                    found += [ord(m.group(1)) & 255 for m in re.finditer(r"b'(.)'", t)]
                    for i in found:
                        out[i] = out.get(i, 0) + 1
    return out


def mine_ints():
    """The numbers of the sources, which are worth trying as inputs; those which a change brought in more than the others."""
    now = source_ints()
    then = json.load(open(os.path.join(VERIF, 'contracts', 'ints.json')))
    new = sorted(i for i in now if now[i] > then.get(str(i), 0))
    return sorted(now) + new * (len(now) // max(1, len(new)))


def harness(prop, seeds, secs, work):
    """Runs the harness once for each seed, eight at a time."""
    exe = os.path.join(HARNESS, 'target', 'debug', 'harness')
    ints = os.path.join(work, 'ints')
    open(ints, 'w').write(' '.join(map(str, mine_ints())))
    results = []
    lock = threading.Lock()
    todo = list(seeds)
    dead = threading.Event()

    def work_on():
        while True:
            with lock:
                if not todo:
                    return
                s = todo.pop(0)
            prog = os.path.join(work, 'progress.%d' % s)
            cmd = [exe, prop, '--seed', str(s), '--secs', str(secs), '--ints', ints, '--progress', prog]
            rc, o, e = run(cmd, secs * 2 + 60, work)
            j = None
            for l in reversed(o.split('\n')):
                if l.startswith('{'):
                    try:
                        j = json.loads(l)
                        break
                    except ValueError:
                        pass
            if j is None:
                case = open(prog).read() if os.path.exists(prog) else '?'
                what = 'the call did not come back within %d s' % (secs * 2 + 60) if rc is None else 'the process ended with status %s: %s' % (rc, e[-300:])
                j = {'property': prop, 'seed': s, 'evaluations': 0, 'distinct': 0, 'samples': [], 'known': [], 'fails': [], 'crash': {'case': case, 'what': what}}
            with lock:
                results.append(j)
    ts = [threading.Thread(target=work_on) for _ in range(min(8, len(seeds)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return sorted(results, key=lambda j: j['seed'])


# ---- findings already known -----------------------------------------------------------------------------------------
def known_findings():
    out = {}
    for l in open(os.path.join(VERIF, 'KNOWN_FINDINGS')):
        m = re.match(r'known: property=(\w+) id=(\S+) (.*)$', l.strip())
        if m:
            out[(m.group(1), m.group(2))] = m.group(3)
    return out


# ---- the check ------------------------------------------------------------------------------------------------------
def write_replay(prop, kind, lines):
    os.makedirs(OUT, exist_ok=True)
    path = os.path.join(OUT, '%s-%s.txt' % (prop, kind))
    open(path, 'w').write('\n'.join(lines) + '\n')
    return path


def main():
    t0 = time.time()
    args = sys.argv[1:]
    prop = args[0]
    tier = args[args.index('--tier') + 1] if '--tier' in args else os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        rc = check(prop, tier, seed, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    sys.exit(rc)


def check(prop, tier, seed, work, t0):
    thorough = tier == 'thorough'
    hb = {}
    th = threading.Thread(target=lambda: hb.update(err=build_harness(prop)))
    th.start()
    contracts = C.parse_contracts(sorted(glob.glob(VERIF + '/contracts/*.ct')))
    baseline = json.load(open(os.path.join(VERIF, 'contracts', 'baseline.json')))
    v, ext, broken = None, None, None
    try:
        build_extractor()
        ext = C.run_extractor(REPO, list(contracts), os.path.join(work, 'ext.json'))
    except Exception as e:
        broken = 'extraction: ' + str(e)[-1500:]
    retried = []
    vacuous = None
    results = []
    if ext is not None:
        v = discharge(ext, contracts, work, 20 if thorough else 4, 400 if thorough else 200)
        if v.complete and (v.failed or v.unknown):
            # a failing input settles the matter; without one there is a second attempt, with the ring axioms at hand
            # and more time: only what fails twice has failed
            th.join()
            if hb['err'] is None:
                results = harness(prop, [seed * 1000 + i for i in range(8)], 10, work)
            if not any(j['fails'] for j in results):
                fns = {e['function'] for e in v.failed.values()} | set(v.unknown)
                w = discharge(ext, contracts, work, 60 if thorough else 12, 250, boost=fns, lost=v.lost)
                retried = sorted(fns)
                if w.complete:
                    again = {e['function'] for e in w.failed.values()}
                    undecided = set(w.unknown)
                    for key, e in list(v.failed.items()):
                        if e['function'] not in again:
                            del v.failed[key]
                            if e['function'] in undecided:
                                v.unknown[e['function']] = w.unknown[e['function']]
                    v.unknown = {f: m for f, m in v.unknown.items() if f in undecided}
                    for key, e in w.failed.items():
                        v.failed.setdefault(key, e)
                    v.smt_ms += w.smt_ms
        if not v.complete:
            broken = v.unknown.get('*')
        if thorough and v.complete and not v.failed and not v.unknown and not v.lost:
            vacuous = canaries(ext, contracts, work)
    say('# verifier: %s' % (broken or '%d functions verified, %d obligations failed, %d undecided, %d not accepted (%.1f s)' % (v.verified, len(v.failed), len(v.unknown), len(v.lost), time.time() - t0)))

    # ---- what that means for this property
    names, direct, seen, own_failed, dep_failed, gaps = [], set(), set(), [], [], []
    if not broken:
        # the cone is that of the code as Verus was given it
        direct, seen = cone(prop, ext, contracts, v.composer, v.text)
        names = obligations(prop, direct, seen, contracts, v.composer)
        shape = shape_of(ext)
        changed = {i for i in contracts if i in baseline and shape.get(i) != baseline[i]}
        for key, e in sorted(v.failed.items()):
            tags = entry_tags(v.composer, contracts, e)
            e['confident'] = e['function'] not in changed and e['function'] not in v.unknown
            e['key'] = key
            if prop in tags and e['confident']:
                own_failed.append(e)
            elif e['function'] in seen or prop in tags:
                dep_failed.append(e)
        lemmas_lost = {}
        for i, lvl in v.lost.items():
            if i in seen or i.startswith('item::') or i.startswith('lemma::') and lemma_tagged(prop, i):
                gaps.append('%s: Verus does not accept it (%s)' % (i, [m for m in v.frontend if m.startswith(i + ':')][:1]))
        for i in v.composer.unmatched:
            if prop in fn_tags(v.composer, contracts, i) or i in seen:
                gaps.append('%s: no such function' % i)
        for i, m in v.unknown.items():
            if i in seen or i == '?':
                gaps.append('%s: undecided (%s)' % (i, m))
    proved = not broken and not own_failed and not dep_failed and not gaps
    failing_proof = bool(own_failed)

    # ---- concrete inputs
    th.join()
    fails, known, crash = [], set(), []
    if hb['err'] is None:
        if thorough:
            seeds, secs = [seed * 1000 + i for i in range(16)], 60
        elif proved:
            seeds, secs = [seed * 1000 + i for i in range(8)], 6
        else:
            seeds, secs = [seed * 1000 + i for i in range(8)], 60
        if any(j['fails'] for j in results):
            secs = 10
        else:
            results = harness(prop, seeds, secs, work)
        for j in results:
            known |= set(j['known'])
            for f in j['fails']:
                fails.append((j['seed'], secs, f))
            if 'crash' in j:
                crash.append((j['seed'], secs, j['crash']))
        say('# harness: %d evaluations, %d failing cases' % (sum(j['evaluations'] for j in results), len(fails) + len(crash)))
    else:
        say('# harness: does not build against /repo')
    if crash and (prop in TOTAL or len(crash) == len(results)) and not fails:
        for s, t, c in crash:
            fails.append((s, t, c))

    model = []
    if hb['err'] is None:
        # what the proofs assume of the dependencies, tried on them
        model = harness('MODEL', [seed * 1000 + i for i in range(8)], 20 if thorough else 1, work)
        for j in model:
            for f in j['fails'] + ([j['crash']] if 'crash' in j else []):
                say('# an ASSUMPTION of the proofs does not hold of the dependencies: %s: %s' % (f['case'], f['what'][:300]))
                proved = failing_proof = False
                gaps.append('assumption: ' + f['case'])

    violations = 0
    rc = 0
    lines = []
    listed = known_findings()
    for i in sorted(known):
        if (prop, i) in listed:
            say('KNOWN-FINDING: property=%s %s' % (prop, listed[(prop, i)]))
        else:
            fails.append((seed, 0, {'case': i, 'what': i}))
    if fails:
        violations = len(fails)
        rc = 1
        s, t, f = fails[0]
        lines = ['property: %s' % prop, 'failing case, run against the real code:', '  cd /verif/harness && target/debug/harness %s --seed %d --case "%s"' % (prop, s, f['case']), 'what fails:', '  ' + f['what'], '']
        for s, t, f in fails[1:8]:
            lines.append('also: --seed %d --case "%s": %s' % (s, f['case'], f['what'][:400]))
        for e in own_failed + dep_failed:
            lines.append('failed obligation: %s: %s: %s' % (e['key'], e['message'], e['line']))
        path = write_replay(prop, 'case', lines)
        say('VIOLATION property=%s replay=%s' % (prop, path))
    elif failing_proof:
        violations = len(own_failed)
        rc = 1
        lines = ['property: %s' % prop, 'no failing input was found; Verus rejects these obligations, on two attempts:']
        for e in own_failed:
            lines.append('  %s (%s)' % (e['key'], e['where']))
            lines.append('     %s: %s %s' % (e['message'], e['line'], e['callee']))
        lines += ['', 'output of the verifier:'] + v.raw
        path = write_replay(prop, 'obligation', lines)
        say('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
    elif hb['err'] is not None and not proved:
        say('# neither the proof nor the harness answers: ' + (broken or '') + hb['err'][-1500:])
        rc = 2
    if rc == 0 and not proved:
        say('# bounded: %s' % '; '.join(([broken] if broken else []) + ['%s fails' % e['key'] for e in dep_failed] + gaps)[:1500])

    # ---- evidence
    bad = {e['key'].replace('/body', '/safety').replace('/call', '/safety') for e in own_failed + dep_failed}
    badfn = {e['function'] for e in own_failed + dep_failed if e['kind'] not in ('ens', 'body', 'call')} | set(v.lost if v else ()) | set(v.unknown if v else ())
    undone = [n for n, fid, own in names if n in bad or fid in badfn]
    tb = trusted(v.text) if v and v.text else {}
    samples = []
    for j in results[:2]:
        samples += j['samples'][:6]
    cov = {
        'obligations': len(names),
        'discharged': len(names) - len(undone) if not broken else 0,
        'obligations_stating_the_property': sorted(n for n, fid, own in names if own),
        'checker_cmd': v.cmd if v else 'verus w.rs',
        'backend': 'Verus with its bundled Z3',
        'verus_functions_verified': v.verified if v else 0,
        'smt_ms_total': round(v.smt_ms, 1) if v else 0,
        'functions_under_contract': sorted(i for i in seen if i in contracts),
        'functions_under_contract_whole_tree': len(contracts) - (len(v.composer.unmatched) if v and v.composer else 0),
        'lemmas': sorted(i for i in seen if i.startswith('lemma::')),
        'trusted_base': ['%s: %s' % (a, ', '.join(b)) for a, b in tb.items()],
        'assumptions_tried': {'evaluations': sum(j['evaluations'] for j in model), 'refuted': sum(len(j['fails']) for j in model),
                              'rule': 'the axioms and contracts of model/model.rs about the dependencies, on random and special values of the dependencies themselves'},
        'dropped_in_extraction': sorted(set(ext['dropped'])) if ext else [],
        'not_accepted': gaps,
        'failed': [e['key'] for e in own_failed + dep_failed],
        'retried': retried,
        'evaluations': sum(j['evaluations'] for j in results),
        'distinct_nontrivial': sum(j['distinct'] for j in results),
        'rule': 'concrete cases against the compiled library, drawn from the seed and from the numbers in the sources; each is counted once by the inputs it notes',
        'samples': samples or ['the harness did not run'],
    }
    if broken:
        cov['verifier_gave_no_answer'] = broken[:2000]
    if vacuous is not None:
        cov['vacuity'] = vacuous
    ev = {
        'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof' if proved else 'exploration', 'coverage': cov,
        'assumptions': ASSUMPTIONS, 'wall_s': round(time.time() - t0, 2), 'violations': violations,
    }
    json.dump(ev, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)
    say('# %s: %s, exit %d, %.0f s' % (prop, ev['level'] if rc == 0 else 'violated' if rc == 1 else 'no answer', rc, time.time() - t0))
    return rc


def lemma_tagged(prop, lemma):
    for p in glob.glob(VERIF + '/contracts/*.rs'):
        cur = []
        for l in open(p):
            m = re.match(r'\s*//@\s*([A-Z0-9 ]*):', l)
            if m:
                cur = m.group(1).split()
            m = re.match(r'\s*pub (?:(?:broadcast )?proof )?fn (\w+)', l)
            if m:
                if 'lemma::' + m.group(1) == lemma:
                    return prop in cur
                cur = []
    return False


ASSUMPTIONS = [
    'the model of curve25519-dalek, merlin, rand, subtle, bincode/serde and clear_on_drop in model/model.rs: Ristretto points form a group of prime order whose scalars form a field; compression and scalar encoding are injective with the stated partial inverses; transcripts are injective recordings of what is appended; a generator answers with a stream indexed by position; a format of serde hands the visitor what it was given, as bytes or as numbers one by one',
    'the model of memory for the C interface: what a caller vouches for can be read, and stays the same during the call; what Box::into_raw gives out stays until Box::from_raw takes it back; pointers have 64 bits',
    'a value of JavaScript is its JSON, as wasm-bindgen passes it to serde; the bindings which wasm-bindgen generates are not checked',
    'the extraction (extractor/) keeps the meaning of what it rewrites; what it drops is listed under dropped_in_extraction',
    'generators neither fail nor repeat; probabilities, and the hardness of discrete logarithms, are outside the logic: what holds but for a negligible chance is stated with that event as an explicit exception',
    'memory is not exhausted; Verus, its Z3 and rustc are correct',
]


def canaries(ext, contracts, work):
    """Every function under contract with a false assertion at its start: each must be refused."""
    k, t = compose(ext, contracts, canaries=True)
    rc, res, diags, cmd, err = verus(t, work, 'c.rs', ['--rlimit', '20'], 600)
    refused = set()
    for d in diags:
        if d.get('level') == 'error':
            for s in mine(d, 'c.rs'):
                l = k.labels.get(s['line_start'])
                if l and l['kind'] == 'canary':
                    refused.add(l['fn'])
    al = {l['fn'] for l in k.labels.values() if l['kind'] == 'canary'}
    return {'functions': len(al), 'false_assertions_refused': len(refused), 'vacuous': sorted(al - refused)}


if __name__ == '__main__':
    if sys.argv[1:2] == ['--baseline']:
        contracts = C.parse_contracts(sorted(glob.glob(VERIF + '/contracts/*.ct')))
        build_extractor()
        with tempfile.TemporaryDirectory() as w:
            ext = C.run_extractor(REPO, list(contracts), os.path.join(w, 'ext.json'))
        json.dump({str(i): n for i, n in sorted(source_ints().items())}, open(os.path.join(VERIF, 'contracts', 'ints.json'), 'w'), indent=0)
        json.dump({i: s for i, s in sorted(shape_of(ext).items()) if i in contracts}, open(os.path.join(VERIF, 'contracts', 'baseline.json'), 'w'), indent=0, sort_keys=True)
        sys.exit(0)
    if sys.argv[1:2] == ['--setup']:
        build_extractor()
        e = build_harness('C26') or build_harness('C27') or build_harness('')
        if e:
            say(e)
        sys.exit(1 if e else 0)
    main()
