"""Builds the Verus file of one property from the extraction and the contracts."""
import json, os, re, subprocess, tempfile
from fractions import Fraction
import struct as _struct

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def real_lit(fr):
    """exact decimal text of a fraction whose denominator divides a power of ten"""
    n, d = fr.numerator, fr.denominator
    k = 0
    while d != 1:
        if d % 10 == 0: d //= 10; k += 1
        elif d % 5 == 0: d //= 5; n *= 2; k += 1
        elif d % 2 == 0: d //= 2; n *= 5; k += 1
        else: raise ValueError(fr)
    sgn = '-' if n < 0 else ''
    s = str(abs(n)).rjust(k + 1, '0')
    return sgn + (s[:-k] + '.' + s[-k:] if k else s) + 'real'

def f32_value(text):
    import ctypes
    f = float(text)          # double rounding is harmless for the short literals used here
    v = _struct.unpack('<f', _struct.pack('<f', f))[0]
    return Fraction(v)

def fmt_bodies(bodies):
    """rustfmt all bodies at once; returns the list of formatted block texts"""
    src = ''.join('fn __b%d() %s\n' % (i, b) for i, b in enumerate(bodies))
    with tempfile.TemporaryDirectory() as d:
        p = os.path.join(d, 'b.rs')
        open(p, 'w').write(src)
        r = subprocess.run(['rustfmt', '--edition', '2021', '--config', 'max_width=110', p], capture_output=True, text=True)
        if r.returncode != 0:
            return bodies
        t = open(p).read()
    out = []
    parts = re.split(r'^fn __b(\d+)\(\) ', t, flags=re.M)
    m = {int(parts[i]): parts[i + 1].strip() for i in range(1, len(parts), 2)}
    return [m.get(i, bodies[i]) for i in range(len(bodies))]

def loop_shape(f):
    """what a loop invariant depends on: the loop headers and the outer variables the loops assign"""
    def head(h):
        h = re.sub(r'lit\d+', 'lit', h)
        m = re.match(r'for (.*?) in (.*)$', h)      # the names a for loop binds do not matter
        if m: h = 'for %s in %s' % (re.sub(r'[a-z_]\w*', '_', m.group(1)), m.group(2))
        return h
    return [[head(L['header']), sorted(k for k in L['carried'] if k != L.get('i'))] for L in f['loops']]

def renames(ex, C):
    """{file: {field: name the contracts use}} when a type's fields differ from the contracts' only in their names"""
    out = {}
    for t in ex['types']:
        T = C.TYPES.get(t['name'])
        if not T or t['kind'] != 'struct': continue
        act, exp = [(n, norm_ty(x)) for n, x in t['fields']], [(n, norm_ty(x)) for n, x in T.fields]
        a, e = [x for x in act if x not in exp], [x for x in exp if x not in act]
        if not a or len(act) != len(exp) or sorted(x[1] for x in a) != sorted(x[1] for x in e): continue
        names = {n for n, _ in act}
        for n, ty in a:
            m = next(x for x in e if x[1] == ty)
            e.remove(m)
            if m[0] not in names: out.setdefault(t['file'], {})[n] = m[0]
    return out

def norm_ty(t):
    return re.sub(r'\s+', '', t)

class Out:
    def __init__(self):
        self.lines, self.labels = [], {}
    def add(self, text, label=None):
        for l in text.split('\n'):
            self.lines.append(l)
            if label is not None:
                self.labels[len(self.lines)] = label
    def text(self):
        return '\n'.join(self.lines) + '\n'

class Gen:
    def __init__(self, ex, contracts, prop, stubs=None, vacuity=False, alg=False):
        self.alg = alg
        """stubs: {fn key: reason} functions whose body is not verified in this run"""
        self.ex, self.C, self.prop = ex, contracts, prop
        self.stubs = dict(stubs or {})
        self.vacuity = vacuity
        self.assumed = dict(getattr(prop, 'assume', {}))
        self.fns = {}
        for f in ex['fns']:
            self.fns[f['key']] = f
        self.missing = []
        self.clauses = []
        self.under_contract = []

    def on(self, tags):
        t = tags.split()
        return 'base' in t or self.prop.pid in t

    def hint(self, h):
        if isinstance(h, str): return h
        return '\n'.join(t for tags, t in h if self.on(tags))

    def sub(self, text, f, post='final(self)', pre='old(self)'):
        """parameter placeholders -> names"""
        recv = f.get('receiver') or ''
        if recv.replace(' ', '') in ('&self', 'self', 'mutself'):
            pre, post = 'self', 'self'
        def rep(m):
            k = m.group(1)
            if k == 'r': return 'r'
            if k == 'pre': return pre
            if k == 'post': return post
            i = int(k) - 1
            return f['params'][i][0]
        text = re.sub(r'\$(r|pre|post|\d+)\b', rep, text)
        return text

    def fn(self, o, f, c, indent='    ', in_trait=False, is_impl_of_trait=False, pub=True):
        key = f['key']
        recv = (f['receiver'] or '').replace('& mut', '&mut ').replace('& self', '&self')
        ps = ([recv] if recv else []) + ['%s: %s' % (n, t) for n, t in f['params']]
        gen = f['generics'].strip()
        head = '%sfn %s%s(%s)' % ('pub ' if pub else '', f['name'], gen, ', '.join(ps))
        if f['ret']:
            head += ' -> (r: %s)' % f['ret']
        stub = key in self.stubs or key in self.assumed
        if c.attrs: o.add(indent + c.attrs)
        if stub: o.add(indent + '#[verifier::external_body]')
        elif f['body']: o.add(indent + '#[verifier::spinoff_prover]')
        if not stub and f['body'] and f['loops']: o.add(indent + '#[verifier::loop_isolation(false)]')
        o.add(indent + head, {'fn': key, 'what': 'signature'})
        if f['where']: o.add(indent + f['where'])
        req = [(t, x) for t, x in c.requires if self.on(t)]
        if req and not is_impl_of_trait:
            o.add(indent + '  requires')
            for t, x in req:
                o.add(indent + '    ' + self.sub(x, f).strip() + ',', {'fn': key, 'what': 'requires', 'clause': x})
        ens = [(t, x) for t, x in c.ensures if self.on(t)]
        if ens:
            o.add(indent + '  ensures')
            for t, x in ens:
                cid = len(self.clauses)
                self.clauses.append((key, x))
                o.add(indent + '    ' + self.sub(x, f).strip() + ',', {'fn': key, 'what': 'ensures', 'clause': x, 'cid': cid})
        if f['body'] is None:
            o.lines[-1] += ';' if not o.lines[-1].rstrip().endswith(',') else ''
            if o.lines[-1].rstrip().endswith(','):
                o.lines[-1] = o.lines[-1].rstrip().rstrip(',') + ';'
            return
        if stub:
            o.add(indent + '{ unimplemented!() }')
            return
        self.under_contract.append(key)
        body = f['fbody']
        c_begin, c_end = self.hint(c.begin), self.hint(c.end)
        if self.vacuity:
            # a false assertion where the function ends (or starts, when it has early returns) has to be refuted
            if re.search(r'\breturn\b', body): c_begin = (c_begin or '') + '\nassert(false);'
            else: c_end = (c_end or '') + '\nassert(false);'
        # loop specs
        def loop_spec(m):
            n = int(m.group(1))
            L = f['loops'][n]
            t, inv = self.hint(c.loop or ''), ''
            if t:
                its = L.get('iters') or []
                d = {'i': L.get('i') or (its[0] + '.idx()' if its else '0'), 'hi': L.get('hi') or '0', 'it': its[0] if its else '__noiter', 'n': str(n)}
                inv = '\n  invariant\n' + '\n'.join('    ' + x for x in self.loop_text(t, d, f, L).strip().split('\n'))
                for k, init in sorted(L['carried'].items()):
                    if k == L.get('i'): continue
                    # a variable the contract does not know: the guesses that fit its first value
                    kind = 'opt' if re.match(r'(None|Some)\b', init) else 'int' if re.match(r'\d+\w*$', init) else 'val'
                    for gs in c.carried.get(kind, []):
                        inv += '\n    ' + self.loop_text(gs.replace('{c}', k), d, f, L) + ','
                if L['kind'] == 'for':
                    hi = L.get('hi')
                    if hi: inv += '\n    %s <= %s,' % (d['i'], hi)
                elif L.get('op') == '<' and re.match(r'\d+\w*$', L['carried'].get(L.get('i'), '')):
                    inv += '\n    %s <= %s,' % (d['i'], L['hi'])
            if L['kind'] == 'for' and L.get('hi'):
                dec = '%s - %s' % (L['hi'], L['i'])
            elif c.loop_dec:
                dec = self.sub(c.loop_dec.replace('{i}', L.get('i') or '0').replace('{hi}', L.get('hi') or '0'), f)
            elif L['kind'] == 'while' and L.get('op') == '<' and L.get('i'):
                dec = '%s - %s' % (L['hi'], L['i'])
            elif L.get('iters') and '{it}' in t:
                dec = '{0}.total() - {0}.idx()'.format(L['iters'][0])
            else:
                dec = '0int'
            lb = ''
            if c.loop_body: lb = '\n' + self.sub(c.loop_body.replace('{i}', L.get('i') or '0').replace('{it}', (L.get('iters') or ['__noiter'])[0]), f)
            return inv + '\n  decreases ' + dec + '\n{ /*LOOP*/' + lb
        body = re.sub(r'\{\s*__loop_spec!\((\d+)\);', loop_spec, body)
        def loop_end(m):
            L = f['loops'][int(m.group(1))]
            le = self.hint(c.loop_end or '')
            if not le: return ''
            return self.sub(le.replace('{i}', L.get('i') or '0'), f, post='self')
        body = re.sub(r'__loop_end!\((\d+)\);', loop_end, body)
        beg = self.sub(c_begin, f) + '\n' if c_begin else ''
        if c_begin and not c_end: body = '{\n' + beg + body[1:]
        if c_end:
            if f['ret']:
                body = '{\n' + beg + 'let __res = ' + body + ';\n' + self.sub(c_end, f, post='self').replace('$res', '__res') + '\n__res\n}'
            else:
                body = '{\n' + beg + body + '\n' + self.sub(c_end, f, post='self') + '\n}'
        for l in body.split('\n'):
            o.add(indent + l, {'fn': key, 'what': 'body', 'line': l.strip()})

    def loop_text(self, t, d, f, L):
        its = L.get('iters') or []
        lines = []
        for l in t.strip().split('\n'):
            if '{it}' in l and not its or '{hi}' in l and not L.get('hi'): continue
            for k, v in d.items(): l = l.replace('{%s}' % k, v)
            lines.append(self.sub(l, f, post='self').replace('*self', '*self'))
        return '\n'.join(lines)

    def contract(self, key):
        c = self.C.FNS.get(key)
        if c is None and '::' in key:
            # wildcard contracts, e.g. *::process_block
            c = self.C.FNS.get('*::' + key.split('::')[1])
        return c

    def build(self):
        p, C, ex = self.prop, self.C, self.ex
        types, keys = list(p.types), list(p.fns)
        if getattr(p, 'dynamic', None): types, keys = p.dynamic(ex, p)
        o = Out()
        o.add('// GENERATED from /repo by /verif/check.py for property %s -- do not edit' % p.pid)
        o.add('#![allow(unused_imports, unused_parens, unused_braces, unused_variables, unused_mut, dead_code, non_snake_case, unused_assignments)]')
        o.add('use vstd::prelude::*;')
        o.add('verus! {')
        # conversions between primitive types the code does not mention are left out
        used = {'usize', 'isize', 'i32', 'F32', 'F64'} | set(re.findall(r'\b(?:i64|u64|i16|u16|i8|u8|u32)\b', json.dumps(ex)))
        cast = re.compile(r'impl CastTo<(\w+)> for (\w+) ')
        shim = open(os.path.join(VERIF, 'contracts', 'shim.rs')).read().split('\n')
        shim = [l for l in shim if not cast.match(l) or set(cast.match(l).groups()) <= used]
        o.add('\n'.join(shim), {'fn': 'shim', 'what': 'shim'})
        o.add('global size_of usize == 8;')
        if p.prelude: o.add(p.prelude, {'fn': 'theorem nl', 'what': 'theorem'})
        o.add('pub mod code {')
        o.add('use vstd::prelude::*;\nuse super::shim::*;\nuse std::marker::PhantomData;')
        o.add('broadcast use %s;' % (p.broadcast + (', alg' if self.alg else '')))
        # literals
        o.add('pub trait Lits: Sized {')
        for l in ex['lits']:
            o.add('    fn lit%d() -> Self;' % l['id'])
        o.add('}')
        for ty in ('F32', 'F64'):
            o.add('impl Lits for %s {' % ty)
            for l in ex['lits']:
                v = f32_value(l['text']) if ty == 'F32' else Fraction(l['text'])
                o.add('    #[verifier::external_body] fn lit%d() -> (r: %s) ensures r.fin() && r.v() == %s { unimplemented!() }' % (l['id'], ty, real_lit(v)))
            o.add('}')
        # requested functions
        present = {k for k in keys if k in self.fns}
        for k in keys:
            c = self.contract(k)
            if k not in present and not (c and c.optional):
                self.missing.append(k)
        # formatted bodies
        want = [self.fns[k] for k in keys if k in present]
        tmap = {t['name']: t for t in ex['types']}
        for f in want:
            if f['problems'] and f['key'] not in self.stubs and f['key'] not in self.assumed:
                self.stubs[f['key']] = 'not translatable: ' + '; '.join(f['problems'])
        bl = [f for f in want if f['body']]
        for f, b in zip(bl, fmt_bodies([f['body'] for f in bl])): f['fbody'] = b
        for f in bl:
            c = self.contract(f['key'])
            if f['loops'] and f['key'] not in self.stubs and f['key'] not in self.assumed:
                for L in f['loops']:
                    if c.loop is None or (L.get('i') is None and not L.get('iters')):
                        self.stubs[f['key']] = 'loop without an invariant: ' + L['header']
                    elif L.get('iters') and '{it}' not in self.hint(c.loop):
                        self.stubs[f['key']] = 'loop without an invariant: ' + L['header']
        # types
        for t in types:
            T = C.TYPES[t]
            if t not in tmap:
                self.missing.append('type ' + t); continue
            act = [(n, norm_ty(x)) for n, x in tmap[t]['fields']] if tmap[t]['kind'] == 'struct' else [(norm_ty(x), '') for x in tmap[t]['fields']]
            exp = [(n, norm_ty(x)) for n, x in T.fields]
            if sorted(act) != sorted(exp):
                self.missing.append('fields of %s: %s' % (t, act))
            o.add(tmap[t]['text'], {'fn': t, 'what': 'type'})
            if T.specs:
                o.add('impl%s %s {' % (T.generics, T.self_ty))
                o.add(T.specs.strip('\n'), {'fn': t, 'what': 'spec'})
                o.add('}')
        # traits
        for tr in p.traits:
            TR = C.TRAITS[tr]
            o.add(TR['head'], {'fn': tr, 'what': 'trait'})
            for item in TR.get('specs', []):
                if self.on(item[0]): o.add('    ' + item[1], {'fn': tr, 'what': 'trait'})
            if not TR.get('external'):
                for f in ex['fns']:
                    if f['trait'] == tr and f['ty'] is None and f['key'] in keys:
                        self.fn(o, f, self.contract(f['key']), in_trait=True, pub=False)
            o.add('}')
        # impls
        emitted = set()
        for im in ex['impls']:
            if im['ty'] not in types and im['ty'] not in ('F32', 'F64'): continue
            tn = im['trait_name']
            if tn is not None:
                ren = {'Iterator': 'VIter', 'ExactSizeIterator': 'VExact'}.get(tn, tn)
                if ren not in p.traits: continue
            elif im['ty'] in ('F32', 'F64'): continue
            fl = [f for f in ex['fns'] if f['ty'] == im['ty'] and f['trait'] == tn and f['key'] in keys and f['impl'] == im['id']]
            if tn is None and not fl: continue
            hd = 'impl%s ' % im['generics']
            if tn: hd += {'Iterator': 'VIter', 'ExactSizeIterator': 'VExact'}.get(tn, im['trait']) + ' for '
            hd += im['self_ty'] + ' ' + im['where']
            o.add(hd + ' {')
            for a in im['assoc']: o.add('    ' + a)
            if tn:
                ren = {'Iterator': 'VIter', 'ExactSizeIterator': 'VExact'}.get(tn, tn)
                for item in C.TRAIT_SPECS.get((ren, im['ty']), []):
                    if self.on(item[0]):
                        o.add('    ' + item[1], {'fn': im['ty'], 'what': 'spec'})
            for f in fl:
                emitted.add(f['key'])
                self.fn(o, f, self.contract(f['key']), is_impl_of_trait=tn is not None, pub=tn is None)
            o.add('}')
        # free functions
        for f in ex['fns']:
            if f['ty'] is None and f['trait'] is None and f['key'] in keys:
                self.fn(o, f, self.contract(f['key']), indent='')
        if p.theorems:
            cur = 'theorem'
            for l in p.theorems.strip('\n').split('\n'):
                m = re.match(r'\s*(?:pub )?(?:broadcast )?(?:proof |axiom |exec |open |closed |uninterp |spec )*fn (\w+)', l)
                if m: cur = 'theorem ' + m.group(1)
                o.add(l, {'fn': cur, 'what': 'theorem', 'line': l.strip()})
        o.add('} // mod code')
        o.add('} // verus!')
        o.add('fn main() {}')
        return o
