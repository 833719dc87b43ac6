"""Composes the text Verus checks: the trusted model, the functions extracted from /repo, and the contracts."""
import json, os, re, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


# ---- contract files -------------------------------------------------------------------------------------------------
class Clause:
    def __init__(self, kind, tags, text, where, loop=None):
        self.kind, self.tags, self.text, self.where, self.loop = kind, tags, text, where, loop


class Contract:
    def __init__(self, fid, params, ret, where):
        self.id, self.params, self.ret, self.where = fid, params, ret, where
        self.clauses, self.total, self.attrs, self.start, self.loops = [], [], [], '', {}
        self.opts = set()


# type -> (which bytes decode, what `x` is then, the encoding of `*self`): the serde implementations of that type
VISITORS = {}


def parse_contracts(paths):
    out = {}
    for path in paths:
        cur, last = None, None
        loop = None
        for no, line in enumerate(open(path), 1):
            where = '%s:%d' % (os.path.basename(path), no)
            s = line.rstrip('\n')
            if s.startswith('#') or not s.strip():
                continue
            if not s.startswith('@'):
                assert last is not None, where
                last.text += '\n' + s
                continue
            m = re.match(r'@(\w+)\s*(.*)$', s)
            word, rest = m.group(1), m.group(2)
            if word == 'visitor':
                ty, takes, makes, enc = [x.strip() for x in rest.split('|')]
                VISITORS[ty] = (takes, makes, enc)
            elif word == 'fn':
                m = re.match(r'(.*?)\s*\(([^()]*)\)\s*(?:->\s*(\w+))?$', rest)
                assert m, where
                params = [p.strip() for p in m.group(2).split(',') if p.strip()]
                cur = Contract(m.group(1), params, m.group(3) or 'r', where)
                assert cur.id not in out, where + ' ' + cur.id
                out[cur.id] = cur
                last, loop = None, None
            elif word == 'total':
                cur.total = rest.split()
            elif word == 'attr':
                cur.attrs.append(rest)
            elif word == 'opt':
                cur.opts |= set(rest.split())
            elif word == 'loop':
                loop = int(rest)
                cur.loops.setdefault(loop, [])
            elif word in ('req', 'ens', 'inv', 'invx', 'lens', 'start', 'pre', 'post', 'dec', 'bodyend', 'enter'):
                tags, _, text = rest.partition(':')
                tags = tags.split()
                if word == 'start':
                    last = Clause('start', tags, text, where)
                    cur.clauses.append(last)
                elif word in ('inv', 'invx', 'lens', 'pre', 'post', 'dec', 'bodyend', 'enter'):
                    last = Clause(word, tags, text, where, loop)
                    cur.loops.setdefault(loop, []).append(last)
                else:
                    last = Clause(word, tags, text, where)
                    cur.clauses.append(last)
            else:
                raise Exception(where + ': ' + word)
    return out


# ---- operators of the model -----------------------------------------------------------------------------------------
def gen_ops():
    o = []

    def spec_bin(tr, meth, lhs, rhs, out):
        o.append('impl vstd::std_specs::ops::%sSpecImpl<%s> for %s {' % (tr, rhs, lhs))
        o.append('    open spec fn obeys_%s_spec() -> bool { false }' % meth)
        o.append('    open spec fn %s_req(self, rhs: %s) -> bool { true }' % (meth, rhs))
        o.append('    open spec fn %s_spec(self, rhs: %s) -> %s { arbitrary() }' % (meth, rhs, out))
        o.append('}')

    def binop(tr, meth, a, b, out, ens, refs):
        for ra, rb in refs:
            lhs, rhs = ("&'a " if ra else '') + a, ("&'b " if rb else '') + b
            g = [x for x, y in (("'a", ra), ("'b", rb)) if y]
            g = '<%s>' % ', '.join(g) if g else ''
            x, y = ('*self' if ra else 'self'), ('*rhs' if rb else 'rhs')
            o.append('impl%s core::ops::%s<%s> for %s {' % (g, tr, rhs, lhs))
            o.append('    type Output = %s;' % out)
            o.append('    #[verifier::external_body]')
            o.append('    fn %s(self, rhs: %s) -> (r: %s) ensures %s { unimplemented!() }' % (meth, rhs, out, ens.replace('$a', x).replace('$b', y)))
            o.append('}')
            o.append('impl%s vstd::std_specs::ops::%sSpecImpl<%s> for %s {' % (g, tr, rhs, lhs))
            o.append('    open spec fn obeys_%s_spec() -> bool { false }' % meth)
            o.append('    open spec fn %s_req(self, rhs: %s) -> bool { true }' % (meth, rhs))
            o.append('    open spec fn %s_spec(self, rhs: %s) -> %s { arbitrary() }' % (meth, rhs, out))
            o.append('}')

    four = [(False, False), (False, True), (True, False), (True, True)]
    S, P, T = 'Scalar', 'RistrettoPoint', 'RistrettoBasepointTable'
    for tr, meth, f in (('Add', 'add', 'add'), ('Sub', 'sub', 'sub')):
        binop(tr, meth, S, S, S, 'r == crate::spec::s%s($a, $b)' % f, four)
        binop(tr, meth, P, P, P, 'dl(r) == crate::spec::s%s(dl($a), dl($b))' % f, four)
    binop('Mul', 'mul', S, S, S, 'r == crate::spec::smul($a, $b)', four)
    binop('Mul', 'mul', S, P, P, 'dl(r) == crate::spec::smul($a, dl($b))', four)
    binop('Mul', 'mul', P, S, P, 'dl(r) == crate::spec::smul($b, dl($a))', four)
    binop('Mul', 'mul', S, T, P, 'dl(r) == crate::spec::smul($a, dl(tbl($b)))', [(True, True)])
    binop('Mul', 'mul', T, S, P, 'dl(r) == crate::spec::smul($b, dl(tbl($a)))', [(True, True)])
    for ty, f in ((S, 'r == crate::spec::sneg($a)'), (P, 'dl(r) == crate::spec::sneg(dl($a))')):
        for ra in (False, True):
            lhs = ("&'a " if ra else '') + ty
            g = "<'a>" if ra else ''
            o.append('impl%s core::ops::Neg for %s {' % (g, lhs))
            o.append('    type Output = %s;' % ty)
            o.append('    #[verifier::external_body]')
            o.append('    fn neg(self) -> (r: %s) ensures %s { unimplemented!() }' % (ty, f.replace('$a', '*self' if ra else 'self')))
            o.append('}')
            o.append('impl%s vstd::std_specs::ops::NegSpecImpl for %s {' % (g, lhs))
            o.append('    open spec fn obeys_neg_spec() -> bool { false }')
            o.append('    open spec fn neg_req(self) -> bool { true }')
            o.append('    open spec fn neg_spec(self) -> %s { arbitrary() }' % ty)
            o.append('}')

    def asg(tr, meth, a, b, ens):
        for rb in (False, True):
            rhs = ("&'b " if rb else '') + b
            g = "<'b>" if rb else ''
            o.append('impl%s core::ops::%s<%s> for %s {' % (g, tr, rhs, a))
            o.append('    #[verifier::external_body]')
            o.append('    fn %s(&mut self, rhs: %s) ensures %s { unimplemented!() }' % (meth, rhs, ens.replace('$b', '*rhs' if rb else 'rhs')))
            o.append('}')
            o.append('impl%s vstd::std_specs::ops::%sSpecImpl<%s> for %s {' % (g, tr, rhs, a))
            o.append('    open spec fn obeys_%s_spec() -> bool { false }' % meth)
            o.append('    open spec fn %s_req(&self, rhs: %s) -> bool { true }' % (meth, rhs))
            o.append('    open spec fn %s_spec(&self, rhs: %s) -> &Self { arbitrary() }' % (meth, rhs))
            o.append('}')
    for tr, meth, f in (('AddAssign', 'add_assign', 'add'), ('SubAssign', 'sub_assign', 'sub')):
        asg(tr, meth, S, S, '*final(self) == crate::spec::s%s(*old(self), $b)' % f)
        asg(tr, meth, P, P, 'dl(*final(self)) == crate::spec::s%s(dl(*old(self)), dl($b))' % f)
    asg('MulAssign', 'mul_assign', S, S, '*final(self) == crate::spec::smul(*old(self), $b)')
    asg('MulAssign', 'mul_assign', P, S, 'dl(*final(self)) == crate::spec::smul($b, dl(*old(self)))')
    for ty, e in ((S, '*self == *other'), (P, '*self == *other'), ('CompressedRistretto', 'self.0@ == other.0@')):
        o.append('impl core::cmp::PartialEq for %s {' % ty)
        o.append('    #[verifier::external_body]')
        o.append('    fn eq(&self, other: &%s) -> (r: bool) ensures r == (%s) { unimplemented!() }' % (ty, e))
        o.append('}')
        o.append('impl vstd::std_specs::cmp::PartialEqSpecImpl for %s {' % ty)
        o.append('    open spec fn obeys_eq_spec() -> bool { true }')
        o.append('    open spec fn eq_spec(&self, other: &%s) -> bool { %s }' % (ty, e))
        o.append('}')
    return o


# ---- the composer ---------------------------------------------------------------------------------------------------
SPEC_TRAITS = {
    'Add': ('ops', 'bin'), 'Sub': ('ops', 'bin'), 'Mul': ('ops', 'bin'), 'Neg': ('ops', 'un'),
    'AddAssign': ('ops', 'asg'), 'SubAssign': ('ops', 'asg'), 'MulAssign': ('ops', 'asg'),
}


def snake(t):
    return re.sub(r'(?<!^)([A-Z])', r'_\1', t).lower()


def all_fns(items):
    for it in items:
        if it['kind'] == 'fn':
            yield it
        for f in it.get('fns', []):
            yield f
        yield from all_fns(it.get('items', []))


class Composer:
    def __init__(self, ext, contracts, lost=None, canaries=False, boost=()):
        # lost: what Verus does not accept, and how much of it is left out:
        # 1 its body (its contract is then assumed), 2 its contract too, 3 all of it
        self.ext, self.contracts, self.lost = ext, contracts, dict(lost or {})
        self.boost = set(boost)
        self.nitem = 0
        self.lines, self.labels = [], {}
        self.spans = []        # (first line, last line, function id)
        self.unmatched = []    # contracts with no function
        self.shape = []        # contracts whose function has changed its shape
        self.litids = {bytes(l['bytes']): l['id'] for l in ext['lits']}
        self.canaries = canaries
        self.modpath = ''
        self.krate = ''
        self.aliases = 0

    def lit(self, b):
        if b not in self.litids:
            self.litids[b] = max(list(self.litids.values()) + [-1]) + 1
        return self.litids[b]

    def emit(self, text, label=None):
        for l in text.split('\n'):
            self.lines.append(l)
            if label:
                self.labels[len(self.lines)] = label

    def subst(self, text):
        return re.sub(r'\bL"((?:[^"\\]|\\.)*)"', lambda m: 'lits(%d)' % self.lit(m.group(1).encode()), text)

    # -- one function --
    def fn(self, f, trait_impl, impl=None):
        c = self.contracts.get(f['id'])
        lost = self.lost.get(f['id'], 0)
        if lost >= 3:
            return
        if lost == 2:
            c = None
        first = len(self.lines) + 1
        params, prelude = [], []
        if f['self']:
            s = f['self']
            if s == 'mut self':
                s = 'self'
            params.append(s)
        names = {}
        acts = []
        for p in f['params']:
            n = p['name']
            ty = p['ty']
            if n == '_':
                n = '_u%d' % len(acts)
            acts.append(n)
            params.append('%s: %s' % (n, ty))
            if p['mut']:
                prelude.append('let mut %s = %s;' % (n, n))
        if c:
            if len(c.params) != len(acts):
                self.shape.append((f['id'], 'parameters'))
            for a, b in zip(c.params, acts):
                names[a] = b
        name = f['name']
        if f['id'].split('::<')[-1].startswith('Drop for'):
            name = 'drop__'
        ret = f['ret']
        rn = c.ret if c else 'r'

        def ren(t):
            t = self.subst(t)
            for a, b in names.items():
                if a != b:
                    t = re.sub(r'(?<![\w.])%s\b(?!\s*:[^:])' % re.escape(a), '\x00' + b, t)
            return t.replace('\x00', '')
        attrs = list(c.attrs) if c else []
        if not lost:
            attrs.insert(0, '#[verifier::loop_isolation(false)]')
        else:
            attrs = ['#[verifier::external_body]']
        self.emit('// %s  (%s:%s)' % (f['id'], f['file'], f['line']))
        for a in attrs:
            self.emit(a)
        vis = '' if trait_impl else 'pub '
        sig = '%sfn %s%s(%s)' % (vis, name, f['generics'], ', '.join(params))
        if ret:
            sig += ' -> (%s: %s)' % (rn, ret)
        self.emit(sig, {'fn': f['id'], 'kind': 'sig', 'tags': (c.total if c else [])})
        if f['where']:
            self.emit('    ' + f['where'])
        if c:
            if not trait_impl:
                self.clauses(f['id'], [x for x in c.clauses if x.kind == 'req'], 'requires', ren)
            self.clauses(f['id'], [x for x in c.clauses if x.kind == 'ens'], 'ensures', ren)
        body = f['body']
        if lost:
            self.emit('{ unimplemented!() }')
        else:
            self.body(f, c, body, prelude, ren)
        self.spans.append((first, len(self.lines), f['id']))
        self.emit('')

    def clauses(self, fid, cs, word, ren):
        if not cs:
            return
        self.emit('    ' + word)
        for i, x in enumerate(cs):
            self.emit('        ' + ren(x.text.strip()).rstrip(',') + ',', {'fn': fid, 'kind': x.kind, 'n': i + 1, 'tags': x.tags, 'where': x.where})

    def body(self, f, c, body, prelude, ren):
        fid = f['id']
        lab = {'fn': fid, 'kind': 'body', 'tags': c.total if c else []}
        # the body begins with a brace
        assert body.startswith('{')
        self.emit('{', lab)
        for p in prelude:
            self.emit(p, lab)
        if c:
            for x in c.clauses:
                if x.kind == 'start':
                    self.emit(ren(x.text.strip()), {'fn': fid, 'kind': 'proof', 'tags': x.tags, 'where': x.where})
            if fid in self.boost:
                self.emit('broadcast use crate::spec::ring;', {'fn': fid, 'kind': 'proof', 'tags': [], 'where': ''})
            if self.canaries:
                self.emit('assert(false);', {'fn': fid, 'kind': 'canary', 'tags': []})
        rest = body[1:]
        loops = {l['id']: l for l in f['loops']}
        if c and sorted(k for k in c.loops if k is not None) != list(range(len(loops))) and c.loops:
            self.shape.append((fid, 'loops'))
        seq = 0
        while True:
            m = re.search(r'(while [^{}]*?|while (?:[^{}]|\{[^{}]*\})*?)\{ __loop_marker ! \((\d+)\) ;', rest)
            m = re.search(r'\{ __loop_marker ! \((\d+)\) ;', rest)
            if not m:
                break
            lid = int(m.group(1))
            l = loops.get(lid)
            k = sorted(loops).index(lid) if lid in loops else seq
            cl = c.loops.get(k, []) if c else []
            head, enters = rest[:m.start()], [x for x in cl if x.kind == 'enter']
            if enters:
                # ghost bindings before the loop: its header is the last statement of the text so far
                at = max(head.rfind('while '), head.rfind('loop '))
                lbl = re.search(r"'\w+ : $", head[:at])
                at = lbl.start() if lbl else at
                self.emit(self.pretty(head[:at]), lab)
                for x in enters:
                    self.emit(ren(x.text.strip()), {'fn': fid, 'kind': 'proof', 'tags': x.tags, 'where': x.where})
                head = head[at:]
            self.emit(self.pretty(head), lab)

            l = l or {}
            idx, end = l.get('idx') or '$i', l.get('end') or '$n'
            start, step = self.counter(idx, body[:len(body) - len(rest) + m.start()], l)

            def lren(t, l=l, idx=idx, end=end):
                # `$i` counts the rounds, whatever the code counts
                t = t.replace('$i', idx if (start, step) == ('0', 1) else '(%s - %s)' % (idx, start) if step == 1 else '((%s - %s) / %d)' % (idx, start, step))
                t = t.replace('$n', end if start == '0' else '(%s - %s)' % (end, start))
                t = t.replace('$h', (re.findall(r'let mut (\w+) : Option', body) or ['$h'])[0])
                for j, mv in enumerate(l.get('muts', [])):
                    t = t.replace('$m%d' % j, mv)
                for j, mv in enumerate(l.get('its', [])):
                    t = t.replace('$t%d' % j, mv)
                return ren(t)
            # what speaks of a variable the loop no longer has is left out: the rest has to do without it
            cl = [x for x in cl if not re.search(r'\$[a-z]', lren(x.text))]
            invs = [x for x in cl if x.kind == 'inv']

            def loopcl(kind, word):
                xs = [x for x in cl if x.kind == kind]
                if xs:
                    self.emit('    ' + word)
                for i, x in enumerate(xs):
                    self.emit('        ' + lren(x.text.strip()).rstrip(',') + ',', {'fn': fid, 'kind': 'inv', 'n': i + 1, 'tags': x.tags, 'where': x.where})
            loopcl('invx', 'invariant_except_break')
            self.emit('    invariant')
            rev = l and l.get('idx') and l.get('kind', '').startswith('rev')
            # a range which does not begin at 0 may begin past its end
            ranged = l and l.get('kind') == 'range' and not re.search(r'let mut %s : usize = 0 ;' % l['idx'], body)
            if l and l.get('idx') and l.get('end') and not ranged and not (rev and not re.search(r'let %s : usize = 0 ;' % l['end'], body)):
                if rev:
                    self.emit('        %s >= %s,' % (l['idx'], l['end']), {'fn': fid, 'kind': 'inv', 'n': 0, 'tags': lab['tags']})
                else:
                    self.emit('        %s <= %s,' % (l['idx'], l['end']), {'fn': fid, 'kind': 'inv', 'n': 0, 'tags': lab['tags']})
            else:
                self.emit('        true,')
            if (start, step) != ('0', 1):
                self.emit('        %s >= %s && (%s - %s) %% %d == 0,' % (idx, start, idx, start, step), {'fn': fid, 'kind': 'inv', 'n': 0, 'tags': lab['tags']})
            for i, x in enumerate(invs):
                self.emit('        ' + lren(x.text.strip()).rstrip(',') + ',', {'fn': fid, 'kind': 'inv', 'n': i + 1, 'tags': x.tags, 'where': x.where})
            loopcl('lens', 'ensures')
            decs = [x for x in cl if x.kind == 'dec']
            if decs:
                self.emit('    decreases ' + lren(decs[0].text.strip()))
            elif l and l.get('idx') and l.get('end'):
                self.emit('    decreases %s' % ('%s - %s' % ((l['idx'], l['end']) if rev else (l['end'], l['idx']))))
            self.emit('{', lab)
            for x in cl:
                if x.kind == 'pre':
                    self.emit(lren(x.text.strip()), {'fn': fid, 'kind': 'proof', 'tags': x.tags, 'where': x.where})
            rest = rest[m.end():]
            seq += 1
        self.emit(self.pretty(rest), lab)

    def counter(self, idx, text, l):
        """Where the counter of a loop begins, and how far it goes in a round: as literals."""
        if not re.match(r'\w+$', idx) or l.get('kind', '').startswith('rev'):
            return '0', 1
        ds = re.findall(r'let mut %s (?:: usize )?= (\d+)(?:_?usize)? ;' % idx, text)
        steps = re.findall(r'\b%s \+= (\w+)' % idx, l.get('body', ''))
        steps = [int(x) if x.isdigit() else 0 for x in steps]
        return (ds[-1] if ds else '0'), (steps[0] if steps and steps[0] > 0 and len(set(steps)) == 1 else 1)

    def pretty(self, t):
        # one statement to a line, so that a failure can be placed
        out, depth, instr = [], 0, False
        cur = ''
        i = 0
        while i < len(t):
            ch = t[i]
            cur += ch
            if ch == '"' and (i == 0 or t[i - 1] != '\\') and not (t[i - 1] == "'" and t[i + 1:i + 2] == "'"):
                instr = not instr
            if not instr:
                if ch in '([':
                    depth += 1
                elif ch in ')]':
                    depth -= 1
                elif ch in ';{}' and depth == 0:
                    out.append(cur.strip())
                    cur = ''
            i += 1
        if cur.strip():
            out.append(cur.strip())
        return '\n'.join(out)

    # -- items --
    def struct(self, s):
        d = set(s['derives'])
        g = s['generics']
        name = s['name']
        ga = re.sub(r':[^,>]*', '', g)
        copy = 'Copy' in d
        if s['fields'] is None:
            self.emit('pub struct %s;' % name)
            return
        fs = s['fields']['list']
        if copy:
            self.emit('#[derive(Clone, Copy)]')
        if s['fields']['named']:
            self.emit('pub struct %s%s { %s }' % (name, g, ', '.join('pub %s: %s' % (f['name'], f['ty']) for f in fs)))
        else:
            self.emit('pub struct %s%s(%s);' % (name, g, ', '.join('pub %s' % f['ty'] for f in fs)))
        self.derived(name, g, ga, d, copy)
        if 'Default' in d:
            self.emit('impl crate::rt::Cleared for %s { open spec fn is_cleared(&self) -> bool { crate::ext::clear_on_drop::clear::Clear::cleared(self) } }' % name)
            self.emit('impl crate::ext::clear_on_drop::clear::Clear for %s {' % name)
            conj = ' && '.join('crate::rt::Cleared::is_cleared(&self.%s)' % f['name'] for f in fs)
            self.emit('    open spec fn cleared(&self) -> bool { %s }' % conj)
            self.emit('    #[verifier::external_body]')
            self.emit('    fn clear(&mut self) { unimplemented!() }')
            self.emit('}')
        if 'Serialize' in d:
            self.emit('impl Wire for %s { open spec fn wire(self) -> Seq<u8> { %s } }' % (
                name, ' + '.join('self.%s.wire()' % f['name'] for f in fs)))

    def derived(self, name, g, ga, d, copy):
        if 'Clone' in d and not copy:
            self.emit('impl%s Clone for %s%s {' % (g, name, ga))
            self.emit('    #[verifier::external_body]')
            self.emit('    fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() }')
            self.emit('}')
        if 'PartialEq' in d:
            self.emit('impl%s core::cmp::PartialEq for %s%s {' % (g, name, ga))
            self.emit('    #[verifier::external_body]')
            self.emit('    fn eq(&self, other: &Self) -> (r: bool) ensures r == (*self == *other) { unimplemented!() }')
            self.emit('}')
            self.emit('impl%s vstd::std_specs::cmp::PartialEqSpecImpl for %s%s {' % (g, name, ga))
            self.emit('    open spec fn obeys_eq_spec() -> bool { true }')
            self.emit('    open spec fn eq_spec(&self, other: &Self) -> bool { *self == *other }')
            self.emit('}')

    def enum(self, s):
        d = set(s['derives'])
        if 'Copy' in d:
            self.emit('#[derive(Clone, Copy)]')
        self.emit('pub enum %s { %s }' % (s['name'], s['body']))
        self.derived(s['name'], '', '', d, 'Copy' in d)

    def impl(self, im):
        tr = im['trait']
        fns = im['fns']
        if tr == 'Drop':
            self.emit('impl%s %s {' % (im['generics'], im['self_ty']))
            for f in fns:
                self.fn(f, False)
            self.emit('}')
            return
        if not tr:
            keep = [f for f in fns if not self.iter_fn(f)]
            for f in fns:
                if self.iter_fn(f):
                    self.iterable(im, f)
            if keep:
                self.emit('impl%s %s %s {' % (im['generics'], im['self_ty'], im['where']))
                for f in keep:
                    self.fn(f, False)
                self.emit('}')
            return
        if tr == 'From' and any(x.kind == 'req' for f in fns if f['id'] in self.contracts for x in self.contracts[f['id']].clauses):
            # `From` has no precondition to strengthen: the function is checked under a name of its own
            for f in fns:
                self.aliases += 1
                g = dict(f, name='from__%d' % self.aliases)
                self.emit('impl%s %s {' % (im['generics'], im['self_ty']))
                self.fn(g, False)
                self.emit('}')
            return
        self.emit('impl%s %s for %s %s {' % (im['generics'], im['trait_txt'], im['self_ty'], im['where']))
        for a in im['assoc']:
            self.emit('    type %s = %s;' % (a['name'], a['ty']))
        if tr == 'Visitor':
            self.visitor(im)
        if tr in ('Serialize', 'Deserialize'):
            takes, makes, enc = VISITORS.get(im['path'] + '::' + im['self_ty'], ('arbitrary()', 'arbitrary()', 'arbitrary()'))
            if tr == 'Serialize':
                self.emit('    open spec fn encoding(&self) -> Seq<u8> { %s }' % enc)
            else:
                self.emit('    open spec fn decodes(b: Seq<u8>) -> bool { %s }' % takes)
                self.emit('    open spec fn decoded(b: Seq<u8>, x: Self) -> bool { %s }' % makes)
        for f in fns:
            self.fn(f, True, im)
        self.emit('}')
        self.specimpl(im)

    def visitor(self, im):
        """What the visitor of a type is specified to take and to make, and the methods it leaves to the trait."""
        ty = im['path'] + '::' + im['self_ty'].split('__')[-1]
        value = [a['ty'] for a in im['assoc'] if a['name'] == 'Value'][0]
        takes, makes, _ = VISITORS.get(ty, ('arbitrary()', 'arbitrary()', ''))
        has = {f['name'] for f in im['fns']}
        self.emit('    open spec fn takes(self, b: Seq<u8>) -> bool { %s }' % (takes if 'visit_bytes' in has else 'false'))
        self.emit('    open spec fn takes_nums(self, b: Seq<u8>) -> bool { %s }' % (takes if 'visit_seq' in has else 'false'))
        self.emit('    open spec fn makes(self, b: Seq<u8>, x: %s) -> bool { %s }' % (value, makes))
        if 'visit_bytes' not in has:
            self.emit('    #[verifier::external_body]')
            self.emit('    fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E> where E: crate::ext::serde::de::Error { unimplemented!() }')
        if 'visit_seq' not in has:
            self.emit('    #[verifier::external_body]')
            self.emit("    fn visit_seq<A>(self, a: A) -> Result<Self::Value, A::Error> where A: crate::ext::serde::de::SeqAccess<'de> { unimplemented!() }")

    def iter_fn(self, f):
        return f['ret'] and f['ret'].replace(' ', '').startswith('implIterator')

    def iterable(self, im, f):
        m = re.match(r'^\{ (self(?: \. \w+)+) \. iter \(\) \}$', f['body'])
        it = re.search(r'Item = & (.*) >$', f['ret'])
        if not m or not it:
            self.shape.append((f['id'], 'iterator'))
            return
        e = m.group(1)
        self.emit('// %s  (%s:%s)' % (f['id'], f['file'], f['line']))
        self.emit('impl crate::rt::Iterable for %s {' % im['self_ty'])
        self.emit('    type Item = %s;' % it.group(1))
        self.emit('    open spec fn vseq(&self) -> Seq<%s> { (%s)@ }' % (it.group(1), e))
        self.emit('    fn vlen(&self) -> (r: usize) { (%s).len() }' % e)
        self.emit('    fn vat(&self, i: usize) -> (r: &%s) { &(%s)[i] }' % (it.group(1), e))
        self.emit('}')
        self.emit('impl %s { pub fn iter(&self) -> (r: &%s) ensures r == self { self } }' % (im['self_ty'], im['self_ty']))

    def specimpl(self, im):
        tr, args, g, st = im['trait'], im['trait_args'], im['generics'], im['self_ty']
        c = self.contracts.get(im['fns'][0]['id']) if im['fns'] else None
        pname = im['fns'][0]['params'][0]['name'] if im['fns'] and im['fns'][0]['params'] else None
        reqs = []
        if c:
            for x in c.clauses:
                if x.kind == 'req':
                    reqs.append((x.text, c.params[0] if c.params else None))

        def req(var, deref=''):
            if not reqs:
                return 'true'
            t = []
            for text, p in reqs:
                text = self.subst(text.strip().rstrip(','))
                if p:
                    text = re.sub(r'(?<![\w.])%s\b' % re.escape(p), deref + var, text)
                t.append('(%s)' % text)
            return ' && '.join(t)
        if tr in SPEC_TRAITS:
            meth = snake(tr)
            kind = SPEC_TRAITS[tr][1]
            rhs = args or 'Self'
            if kind == 'un':
                out = [a['ty'] for a in im['assoc'] if a['name'] == 'Output'][0]
                self.emit('impl%s vstd::std_specs::ops::%sSpecImpl for %s {' % (g, tr, st))
                self.emit('    open spec fn obeys_%s_spec() -> bool { false }' % meth)
                self.emit('    open spec fn %s_req(self) -> bool { true }' % meth)
                self.emit('    open spec fn %s_spec(self) -> %s { arbitrary() }' % (meth, out))
            else:
                self.emit('impl%s vstd::std_specs::ops::%sSpecImpl<%s> for %s {' % (g, tr, rhs, st))
                self.emit('    open spec fn obeys_%s_spec() -> bool { false }' % meth)
                if kind == 'asg':
                    self.emit('    open spec fn %s_req(&self, rhs: %s) -> bool { true }' % (meth, rhs))
                    self.emit('    open spec fn %s_spec(&self, rhs: %s) -> &Self { arbitrary() }' % (meth, rhs))
                else:
                    out = [a['ty'] for a in im['assoc'] if a['name'] == 'Output'][0]
                    self.emit('    open spec fn %s_req(self, rhs: %s) -> bool { true }' % (meth, rhs))
                    self.emit('    open spec fn %s_spec(self, rhs: %s) -> %s { arbitrary() }' % (meth, rhs, out))
            self.emit('}')
        elif tr == 'From':
            self.emit('impl%s vstd::std_specs::convert::FromSpecImpl<%s> for %s {' % (g, args, st))
            self.emit('    open spec fn obeys_from_spec() -> bool { false }')
            self.emit('    open spec fn from_spec(v: %s) -> Self { arbitrary() }' % args)
            self.emit('}')
        elif tr == 'Index':
            self.emit('impl%s vstd::std_specs::core::IndexSpecImpl<%s> for %s {' % (g, args, st))
            self.emit('    open spec fn index_req(&self, i: &%s) -> bool { %s }' % (args, req('i', '*')))
            self.emit('}')

    def items(self, items):
        for it in items:
            k = it['kind']
            self.nitem += 1
            item = 'item::%d::%s::%s' % (self.nitem, k, it.get('name') or it.get('self_ty') or it.get('text') or '')
            if self.lost.get(item):
                continue
            first = len(self.lines) + 1
            if k == 'use':
                t = it['text']
                if re.match(r'(std|alloc|core)::(vec|string)::', t) or t.startswith('super::*') and False:
                    continue
                t = re.sub(r'^std::', 'core::', t)
                self.emit('%suse %s;' % ('pub ' if it['pub'] else '', t))
            elif k == 'const':
                self.emit('pub const %s: %s = %s;' % (it['name'], it['ty'], it['expr']))
            elif k == 'type':
                self.emit('pub type %s%s = %s;' % (it['name'], it['generics'], it['ty']))
            elif k == 'struct':
                self.struct(it)
            elif k == 'enum':
                self.enum(it)
            elif k == 'fn':
                self.fn(it, False)
            elif k == 'impl':
                self.impl(it)
            elif k == 'mod':
                self.module(it['name'], it['items'])
            elif k == 'serde':
                pass
            else:
                raise Exception('item kind ' + k)
            if k not in ('fn', 'mod'):
                self.spans.append((first, len(self.lines), item))

    def module(self, name, items):
        self.emit('pub mod %s {' % name)
        for u in ('vstd::prelude::*', 'crate::spec::*', 'crate::rt::*', 'crate::defs::*', 'crate::defs_proofs::*'):
            self.emit('use %s;' % u)
        if self.krate in ('ffi', 'wasm'):
            self.emit('use crate::defs_%s::*;' % self.krate)
        more = ', crate::spec::memory' if self.krate in ('ffi', 'wasm') else ''
        self.emit('broadcast use {vstd::group_vstd_default, crate::spec::ac, crate::spec::group_ax, crate::spec::encs, crate::spec::seqs, crate::spec::sizes, crate::spec::cancel%s};' % more)
        self.items(items)
        self.emit('} // mod %s' % name)

    def compose(self, defs, props):
        model = open(os.path.join(VERIF, 'model', 'model.rs')).read()
        head, tail = model.split('//@OPS')
        self.emit(head)
        for l in gen_ops():
            self.emit(l)
        self.emit(tail)
        for c in self.ext['crates']:
            self.emit('pub mod %s {' % c['name'])
            self.krate = c['name']
            # what the crate re-exports
            for it in c.get('root', []):
                if it['kind'] == 'use' and it['pub'] and c['name'] == 'signal_credential':
                    self.emit('pub use %s;' % it['text'])
                elif it['kind'] == 'mod' and c['name'] == 'signal_credential' and it['name'] not in [m['name'] for m in c['modules']]:
                    self.module(it['name'], it['items'])
            for m in c['modules']:
                if m['name'] in ('', 'lib'):
                    self.items(m['items'])
                else:
                    self.module(m['name'], m['items'])
            self.emit('} // mod %s' % c['name'])
        for path in defs:
            self.source(path, 'defs')
        for path in props:
            self.source(path, 'props')
        self.emit('pub mod litids { use vstd::prelude::*;')
        self.emit('pub open spec fn lit_chal() -> int { %d }' % self.lit(b'chal'))
        self.emit('}')
        self.emit('} // verus!')
        self.emit('fn main() {}')
        have = {f['id'] for c in self.ext['crates'] for m in c['modules'] for f in all_fns(m['items'])}
        self.unmatched = [i for i in self.contracts if i not in have]
        return '\n'.join(self.lines) + '\n'

    def source(self, path, kind):
        """A file of definitions or lemmas; `//@ C01 C02: title` before a lemma names the properties it states."""
        cur = None
        start = None
        text = self.subst(open(path).read())
        dropping = False
        for l in text.split('\n'):
            m = re.match(r'\s*//@\s*([A-Z0-9 ]*):\s*(.*)$', l)
            if m:
                cur = {'tags': m.group(1).split(), 'title': m.group(2)}
            m = re.match(r'\s*pub (?:(?:broadcast )?proof )?fn (\w+)', l)
            if m:
                if start:
                    self.spans.append((start[0], len(self.lines), start[1]))
                start = (len(self.lines) + 1, 'lemma::' + m.group(1))
                lab = {'fn': 'lemma::' + m.group(1), 'kind': 'lemma', 'tags': (cur or {}).get('tags', []), 'title': (cur or {}).get('title', '')}
                cur = None
                self._lab = lab
                dropping = lab['fn'] in self.lost
            elif re.match(r'\s*pub (open |closed |uninterp )?spec fn|\s*pub broadcast group|\s*broadcast use|\s*pub mod|\} // mod', l):
                if start:
                    self.spans.append((start[0], len(self.lines), start[1]))
                start, dropping = None, False
            if dropping and not l.startswith('//@'):
                continue
            self.emit(l, self._lab if start else None)
        if start:
            self.spans.append((start[0], len(self.lines), start[1]))


def run_extractor(repo, ids, out):
    exe = os.path.join(VERIF, 'extractor', 'target', 'debug', 'extractor')
    idf = out + '.ids'
    open(idf, 'w').write('\n'.join(ids) + '\n')
    p = subprocess.run([exe, repo, idf, out], capture_output=True, text=True)
    if p.returncode != 0:
        raise Exception('extractor: ' + p.stderr[-2000:])
    return json.load(open(out))
