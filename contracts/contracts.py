"""Contracts of rasp's functions, as Verus clauses.

Every clause is tagged with the properties it belongs to ('base' = always present).
$1, $2, ... are the parameters, $r the result, $pre / $post the state before / after.
"""
import sys, os
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from contract_lang import Ty, Fn, Prop

TYPES, FNS, TRAITS, TRAIT_SPECS, PROPS = {}, {}, {}, {}, {}
PROC = ('process', 'clear', 'last_out')

def ty(name, fields, specs="", **k):
    TYPES[name] = Ty(name, fields, specs, **k)
def fn(key, **k):
    FNS[key] = Fn(key, **k)
def prop(pid, types, fns, theorems="", **k):
    PROPS[pid] = Prop(pid, types, fns, theorems, **k)

# ---------------------------------------------------------------------------
# traits
# ---------------------------------------------------------------------------
TRAITS['FloatConst'] = dict(head='pub trait FloatConst: NumCast {')
fn('FloatConst::pi', ensures=[('base', '$r.fin() && $r.v() == r_pi()')])
fn('FloatConst::two', ensures=[('base', '$r.fin() && $r.v() == 2real')])
for f in ('F32', 'F64'):
    fn(f + '::pi')
    fn(f + '::two')
FLOATCONST = ['FloatConst::pi', 'FloatConst::two', 'F32::pi', 'F32::two', 'F64::pi', 'F64::two']

TRAITS['Processor'] = dict(
    head='pub trait Processor<T: Float>: Sized {',
    specs=[('base', 'spec fn wf(self) -> bool;'),
           ('C05', '/// what one call of process does\n    spec fn step(pre: Self, x: T, post: Self, out: T) -> bool;')])
fn('Processor::process', requires=[('base', '$pre.wf()')],
   ensures=[('base', '$post.wf()'), ('C05', 'Self::step(*$pre, $1, *$post, $r)')])
fn('Processor::clear', requires=[('base', '$pre.wf()')], ensures=[('base', '$post.wf()')])
fn('Processor::last_out', requires=[('base', '$pre.wf()')])
PROCESSOR = ['Processor::process', 'Processor::clear', 'Processor::last_out']
BLOCK_ENS = [
    ('base', '$post.wf()'),
    ('C05', 'final($1)@.len() == old($1)@.len()'),
    ('C05', '''exists|st: Seq<Self>| #![trigger st.len()] st.len() == old($1)@.len() + 1 && st[0] == *old(self)
            && st[old($1)@.len() as int] == *final(self)
            && (forall|j: int| 0 <= j < old($1)@.len() ==> #[trigger] Self::step(st[j], old($1)@[j], st[j + 1], final($1)@[j]))'''),
    ('C05', '$r == final($1)@[final($1)@.len() - 1]'),
]
BLOCK_LOOP = [('base', '''
    self.wf(),
    $1@.len() == old($1)@.len(),
    {hi} == $1@.len(),'''),
    ('C05', '''
    forall|j: int| {i} <= j < $1@.len() ==> $1@[j] == old($1)@[j],
    __st.len() == {i} + 1,
    __st[0] == *old(self),
    __st[{i} as int] == *self,
    forall|j: int| 0 <= j < {i} ==> #[trigger] Self::step(__st[j], old($1)@[j], __st[j + 1], $1@[j]),
''')]
BLOCK_CARRIED = {'opt': ['{i} > 0 ==> {c} == Some($1@[{i} - 1])'], 'val': ['{i} > 0 ==> {c} == $1@[{i} - 1]'], 'int': ['{c} == {i}']}
fn('Processor::process_block', carried=BLOCK_CARRIED,
   requires=[('base', '$pre.wf()'), ('base', 'old($1)@.len() > 0')],
   ensures=BLOCK_ENS, loop=BLOCK_LOOP,
   begin=[('C05', 'let ghost mut __st: Seq<Self> = seq![*self];')],
   loop_end=[('C05', 'proof { __st = __st.push(*self); }')],
   end=[('C05', 'proof { assert(__st.len() == old($1)@.len() + 1); let j = old($1)@.len() - 1; assert(Self::step(__st[j], old($1)@[j], __st[j + 1], $1@[j])); }')])
fn('*::process_block', carried=BLOCK_CARRIED, ensures=BLOCK_ENS, loop=BLOCK_LOOP, optional=True,
   begin=[('C05', 'let ghost mut __st: Seq<Self> = seq![*self];')],
   loop_end=[('C05', 'proof { __st = __st.push(*self); }')],
   end=[('C05', 'proof { assert(__st.len() == old($1)@.len() + 1); let j = old($1)@.len() - 1; assert(Self::step(__st[j], old($1)@[j], __st[j + 1], $1@[j])); }')])

import re as _re
def _step_text(ens):
    out = []
    for _, t in ens:
        t = t.replace('*$pre', 'pre').replace('*$post', 'post').replace('$pre', 'pre').replace('$post', 'post')
        t = t.replace('$1', 'x').replace('$r', 'out')
        out.append('(' + t + ')')
    return '\n        && '.join(out) if out else 'true'

def processor(name, wf, proc, clear, last, **k):
    """contracts of `impl Processor for name`; proc/clear: tagged clauses; last: the last_out value of state s"""
    TRAIT_SPECS[('Processor', name)] = [
        ('base', 'open spec fn wf(self) -> bool { %s }' % wf),
        ('C05', 'open spec fn step(pre: Self, x: T, post: Self, out: T) -> bool {\n        %s\n    }' % _step_text(proc)),
    ]
    fn(name + '::process', ensures=proc, **k.get('process_kw', {}))
    fn(name + '::clear', ensures=clear, **k.get('clear_kw', {}))
    fn(name + '::last_out', ensures=last, **k.get('last_kw', {}))

# ---------------------------------------------------------------------------
# first and second order filters
# ---------------------------------------------------------------------------
def same(fields, a='$post', b='$pre'):
    return ' && '.join('%s.%s == %s.%s' % (a, f, b, f) for f in fields)
def zeros(fields, a='$post'):
    return ' && '.join('is_zero(%s.%s)' % (a, f) for f in fields)

def simple_filter(name, state, coefs, ids, eq, shifts, last):
    fields = [(f, 'T') for f in state + coefs]
    ty(name, fields, '''
    pub open spec fn allfin(self) -> bool { %s }
    pub open spec fn reset(self) -> bool { %s }
    /// the coefficients new() sets: the identity filter
    pub open spec fn ident(self) -> bool { %s }
    /// the state of an identity filter
    pub open spec fn thru(self) -> bool { self.ident() && self.allfin() }
''' % (' && '.join('self.%s.fin()' % f for f in state + coefs), zeros(state, 'self'),
       ' && '.join('self.%s.fin() && self.%s.v() == %s' % (c, c, v) for c, v in zip(coefs, ids))))
    fn(name + '::new', ensures=[('C01 C02 C04', '$r.reset()'), ('C03', '$r.thru()')])
    fn(name + '::set_coefficients', ensures=[
        ('C01 C02', ' && '.join('$post.%s == $%d' % (c, i + 1) for i, c in enumerate(coefs))),
        ('C01 C02', same(state))])
    eqt = eq
    proc = [
        ('C01 C02', '$pre.allfin() && $1.fin() ==> $r.fin() && $post.allfin()'),
        ('C01 C02', '$pre.allfin() && $1.fin() ==> $r.v() == ' + eqt),
        ('C01 C02', same(coefs)),
        ('C01 C02', ' && '.join(shifts)),
        ('C03', '$pre.thru() && $1.fin() ==> $r.fin() && $r.v() == $1.v() && $post.thru()'),
        ('C04', '$post.%s == $r' % last),
    ]
    clear = [('C04', '$post.reset()'), ('C04', same(coefs))]
    processor(name, 'true', proc, clear, [('C04', '$r == $pre.%s' % last)])

simple_filter('OnePole', ['y_z1'], ['b0', 'a1'], ['1real', '0real'],
    '$pre.b0.v() * $1.v() - $pre.a1.v() * $pre.y_z1.v()',
    ['$post.y_z1 == $r'], 'y_z1')
simple_filter('OneZero', ['x_z1', 'output'], ['b0', 'b1'], ['1real', '0real'],
    '$pre.b0.v() * $1.v() + $pre.b1.v() * $pre.x_z1.v()',
    ['$post.x_z1 == $1'], 'output')
simple_filter('TwoPole', ['y_z1', 'y_z2'], ['b0', 'a1', 'a2'], ['1real', '0real', '0real'],
    '$pre.b0.v() * $1.v() - $pre.a1.v() * $pre.y_z1.v() - $pre.a2.v() * $pre.y_z2.v()',
    ['$post.y_z1 == $r', '$post.y_z2 == $pre.y_z1'], 'y_z1')
simple_filter('TwoZero', ['x_z1', 'x_z2', 'output'], ['b0', 'b1', 'b2'], ['1real', '0real', '0real'],
    '$pre.b0.v() * $1.v() + $pre.b1.v() * $pre.x_z1.v() + $pre.b2.v() * $pre.x_z2.v()',
    ['$post.x_z1 == $1', '$post.x_z2 == $pre.x_z1'], 'output')
simple_filter('Biquad1', ['x_z1', 'x_z2', 'y_z1', 'y_z2'], ['b0', 'b1', 'b2', 'a1', 'a2'],
    ['1real', '0real', '0real', '0real', '0real'],
    '''$pre.b0.v() * $1.v() + $pre.b1.v() * $pre.x_z1.v() + $pre.b2.v() * $pre.x_z2.v()
          - $pre.a1.v() * $pre.y_z1.v() - $pre.a2.v() * $pre.y_z2.v()''',
    ['$post.x_z1 == $1', '$post.x_z2 == $pre.x_z1', '$post.y_z1 == $r', '$post.y_z2 == $pre.y_z1'], 'y_z1')

# Biquad2: transposed direct form II
_b2s, _b2c = ['z1', 'z2', 'output'], ['b0', 'b1', 'b2', 'a1', 'a2']
ty('Biquad2', [(f, 'T') for f in _b2s + _b2c], '''
    pub open spec fn allfin(self) -> bool { %s }
    pub open spec fn reset(self) -> bool { %s }
    pub open spec fn ident(self) -> bool { %s }
    pub open spec fn thru(self) -> bool { self.ident() && self.allfin() && self.z1.v() == 0real && self.z2.v() == 0real }
    /// one step of the transposed direct form II
    pub open spec fn tdf2(self, x: T, q: Self, y: T) -> bool {
        self.allfin() && x.fin() ==> y.fin() && q.allfin()
            && y.v() == self.b0.v() * x.v() + self.z1.v()
            && q.z1.v() == self.b1.v() * x.v() + self.z2.v() - self.a1.v() * y.v()
            && q.z2.v() == self.b2.v() * x.v() - self.a2.v() * y.v()
    }
    pub open spec fn same_coefs(self, q: Self) -> bool { %s }
''' % (' && '.join('self.%s.fin()' % f for f in _b2s + _b2c), zeros(_b2s, 'self'),
       ' && '.join('self.%s.fin() && self.%s.v() == %s' % (c, c, v) for c, v in zip(_b2c, ['1real'] + ['0real'] * 4)),
       same(_b2c, 'q', 'self')))
fn('Biquad2::new', ensures=[('C02 C04 C13', '$r.reset()'), ('C03', '$r.thru()')])
fn('Biquad2::set_coefficients', ensures=[
    ('C02 C13 C14', ' && '.join('$post.%s == $%d' % (c, i + 1) for i, c in enumerate(_b2c))),
    ('C02 C13', same(_b2s))])
_b2proc = [
    ('C02 C13', '$pre.tdf2($1, *$post, $r)'),
    ('C02 C13', '$pre.same_coefs(*$post)'),
    ('C03', '$pre.thru() && $1.fin() ==> $r.fin() && $r.v() == $1.v() && $post.thru()'),
    ('C04', '$post.output == $r'),
]
processor('Biquad2', 'true', _b2proc,
          [('C04 C13', '$post.reset()'), ('C04 C13 C14', '$pre.same_coefs(*$post)')],
          [('C04', '$r == $pre.output')])

FILTERS = ['OnePole', 'OneZero', 'TwoPole', 'TwoZero', 'Biquad1']
def api(t, *extra):
    return [t + '::' + f for f in ('new',) + extra + PROC]

# ---- C01 -------------------------------------------------------------------
def _hist(name, args, eq, coefs):
    """client theorem: the outputs of a fresh filter satisfy the difference equation at every index"""
    req = ', '.join('%s.fin()' % a for a in args)
    al = ', '.join('%s: T' % a for a in args)
    return '''
/// {name}: from reset, for every input sequence, y[n] satisfies the difference equation
#[verifier::loop_isolation(false)]
pub fn history_{l}<T: Float>({al}, xs: &Vec<T>) -> (ys: Vec<T>)
    requires {req}, forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).fin()
    ensures
        ys@.len() == xs@.len(),
        forall|n: int| #![trigger ys@[n]] 0 <= n < xs@.len() ==> ys@[n].fin() && ys@[n].v() == {eq},
{{
    let mut f = {name}::new();
    f.set_coefficients({a});
    let mut ys: Vec<T> = Vec::new();
    let mut i: usize = 0;
    while i < xs.len()
        invariant
            i <= xs@.len(), ys@.len() == i, f.allfin(), f.wf(),
            {cinv},
            {sinv},
            forall|n: int| #![trigger ys@[n]] 0 <= n < i ==> ys@[n].fin() && ys@[n].v() == {eq},
        decreases xs@.len() - i
    {{
        let y = f.process(xs[i]);
        ys.push(y);
        i = i + 1;
    }}
    ys
}}
'''.format(name=name, l=name.lower(), al=al, req=req, a=', '.join(args), eq=eq,
           cinv=', '.join('f.%s == %s' % (c, a) for c, a in zip(coefs, args)),
           sinv=', '.join({'x_z1': 'f.x_z1.v() == at(xs@, i - 1)', 'x_z2': 'f.x_z2.v() == at(xs@, i - 2)',
                           'y_z1': 'f.y_z1.v() == at(ys@, i - 1)', 'y_z2': 'f.y_z2.v() == at(ys@, i - 2)'}[s]
                          for s in [x for x, _ in TYPES[name].fields] if s in ('x_z1', 'x_z2', 'y_z1', 'y_z2')))
_AT = '''
/// the value of sample n of a signal that is zero before it starts
pub open spec fn at<T: Float>(s: Seq<T>, n: int) -> real { if 0 <= n < s.len() { s[n].v() } else { 0real } }
'''
_c01 = _AT
_c01 += _hist('OnePole', ['b0', 'a1'], 'b0.v() * at(xs@, n) - a1.v() * at(ys@, n - 1)', ['b0', 'a1'])
_c01 += _hist('OneZero', ['b0', 'b1'], 'b0.v() * at(xs@, n) + b1.v() * at(xs@, n - 1)', ['b0', 'b1'])
_c01 += _hist('TwoPole', ['b0', 'a1', 'a2'], 'b0.v() * at(xs@, n) - a1.v() * at(ys@, n - 1) - a2.v() * at(ys@, n - 2)', ['b0', 'a1', 'a2'])
_c01 += _hist('TwoZero', ['b0', 'b1', 'b2'], 'b0.v() * at(xs@, n) + b1.v() * at(xs@, n - 1) + b2.v() * at(xs@, n - 2)', ['b0', 'b1', 'b2'])
_c01 += _hist('Biquad1', ['b0', 'b1', 'b2', 'a1', 'a2'],
    'b0.v() * at(xs@, n) + b1.v() * at(xs@, n - 1) + b2.v() * at(xs@, n - 2) - a1.v() * at(ys@, n - 1) - a2.v() * at(ys@, n - 2)',
    ['b0', 'b1', 'b2', 'a1', 'a2'])
prop('C01', FILTERS, PROCESSOR + sum([api(t, 'set_coefficients') for t in FILTERS], []), _c01, nl=2)

# ---- C02 -------------------------------------------------------------------
_c02 = _AT + '''
/// Biquad1 and Biquad2, reset and given the same coefficients, produce the same output for every input sequence
#[verifier::loop_isolation(false)]
pub fn history_same_biquads<T: Float>(b0: T, b1: T, b2: T, a1: T, a2: T, xs: &Vec<T>)
    requires b0.fin(), b1.fin(), b2.fin(), a1.fin(), a2.fin(), forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).fin()
{
    let mut p = Biquad1::new();
    p.set_coefficients(b0, b1, b2, a1, a2);
    let mut q = Biquad2::new();
    q.set_coefficients(b0, b1, b2, a1, a2);
    let mut i: usize = 0;
    while i < xs.len()
        invariant
            i <= xs@.len(), p.allfin(), q.allfin(), p.wf(), q.wf(),
            p.b0 == b0, p.b1 == b1, p.b2 == b2, p.a1 == a1, p.a2 == a2,
            q.b0 == b0, q.b1 == b1, q.b2 == b2, q.a1 == a1, q.a2 == a2,
            q.z1.v() == b1.v() * p.x_z1.v() + b2.v() * p.x_z2.v() - a1.v() * p.y_z1.v() - a2.v() * p.y_z2.v(),
            q.z2.v() == b2.v() * p.x_z1.v() - a2.v() * p.y_z1.v(),
        decreases xs@.len() - i
    {
        let y1 = p.process(xs[i]);
        let y2 = q.process(xs[i]);
        assert(y1.fin() && y2.fin());
        assert(y1.v() == y2.v());
        i = i + 1;
    }
}
'''
prop('C02', ['Biquad1', 'Biquad2'], PROCESSOR + api('Biquad1', 'set_coefficients') + api('Biquad2', 'set_coefficients'), _c02, nl=2)

# ---------------------------------------------------------------------------
# RBJ filters
# ---------------------------------------------------------------------------
# name -> (cookbook numerator/denominator b0 b1 b2 a0 a1 a2, kind)
_q = ('sr', 'f', 'q')
_g = ('sr', 'f', 'db', 'q')
_s = ('sr', 'f', 'db', 's')
RBJ = {
    'LowPass':   (_q, ['(1real - c) / 2real', '1real - c', '(1real - c) / 2real', '1real + al', '-2real * c', '1real - al']),
    'HighPass':  (_q, ['(1real + c) / 2real', '-(1real + c)', '(1real + c) / 2real', '1real + al', '-2real * c', '1real - al']),
    'BandPass1': (_q, ['q * al', '0real', '-(q * al)', '1real + al', '-2real * c', '1real - al']),
    'BandPass2': (_q, ['al', '0real', '-al', '1real + al', '-2real * c', '1real - al']),
    'BandStop':  (_q, ['1real', '-2real * c', '1real', '1real + al', '-2real * c', '1real - al']),
    'AllPass':   (_q, ['1real - al', '-2real * c', '1real + al', '1real + al', '-2real * c', '1real - al']),
    'Peak':      (_g, ['1real + al * a', '-2real * c', '1real - al * a', '1real + al / a', '-2real * c', '1real - al / a']),
    'LowShelf':  (_s, ['a * ((a + 1real) - (a - 1real) * c + 2real * r_sqrt(a) * al)',
                       '2real * a * ((a - 1real) - (a + 1real) * c)',
                       'a * ((a + 1real) - (a - 1real) * c - 2real * r_sqrt(a) * al)',
                       '(a + 1real) + (a - 1real) * c + 2real * r_sqrt(a) * al',
                       '-2real * ((a - 1real) + (a + 1real) * c)',
                       '(a + 1real) + (a - 1real) * c - 2real * r_sqrt(a) * al']),
    'HighShelf': (_s, ['a * ((a + 1real) + (a - 1real) * c + 2real * r_sqrt(a) * al)',
                       '-2real * a * ((a - 1real) + (a + 1real) * c)',
                       'a * ((a + 1real) + (a - 1real) * c - 2real * r_sqrt(a) * al)',
                       '(a + 1real) - (a - 1real) * c + 2real * r_sqrt(a) * al',
                       '2real * ((a - 1real) - (a + 1real) * c)',
                       '(a + 1real) - (a - 1real) * c - 2real * r_sqrt(a) * al']),
}
RBJ_SPECS = '''
/// unnormalised coefficients of the Audio EQ Cookbook (R. Bristow-Johnson)
pub struct Ck { pub b0: real, pub b1: real, pub b2: real, pub a0: real, pub a1: real, pub a2: real }
pub open spec fn ck_w0(sr: real, f: real) -> real { 2real * r_pi() * f / sr }
pub open spec fn ck_alpha_q(sr: real, f: real, q: real) -> real { r_sin(ck_w0(sr, f)) / (2real * q) }
pub open spec fn ck_a(db: real) -> real { r_pow(10real, db / 40real) }
pub open spec fn ck_alpha_s(sr: real, f: real, a: real, s: real) -> real {
    r_sin(ck_w0(sr, f)) / 2real * r_sqrt((a + 1real / a) * (1real / s - 1real) + 2real)
}
/// the filter's coefficients are the cookbook ones, normalised by a0
pub open spec fn is_ck<T: Float>(b: Biquad2<T>, k: Ck) -> bool {
    k.a0 != 0real
    && b.b0.fin() && b.b1.fin() && b.b2.fin() && b.a1.fin() && b.a2.fin()
    && b.b0.v() * k.a0 == k.b0 && b.b1.v() * k.a0 == k.b1 && b.b2.v() * k.a0 == k.b2
    && b.a1.v() * k.a0 == k.a1 && b.a2.v() * k.a0 == k.a2
}
'''
for _n, (_p, _c) in RBJ.items():
    _names = 'b0 b1 b2 a0 a1 a2'.split()
    _al = 'ck_alpha_q(sr, f, q)' if 'q' in _p else 'ck_alpha_s(sr, f, a, s)'
    _let = 'let c = r_cos(ck_w0(sr, f));\n    '
    if 'db' in _p: _let += 'let a = ck_a(db);\n    '
    _let += 'let al = %s;' % _al
    RBJ_SPECS += '''
pub open spec fn ck_%s(%s) -> Ck {
    %s
    Ck { %s }
}
''' % (_n.lower(), ', '.join('%s: real' % x for x in _p), _let, ', '.join('%s: %s' % (k, v) for k, v in zip(_names, _c)))
    ty(_n, [('biquad', 'Biquad2<T>')])
    fn(_n + '::new', ensures=[('C04 C13', '$r.biquad.reset()'), ('C03', '$r.biquad.thru()')])
    dom = ['$1.fin() && $2.fin() && $1.v() > 0real && $2.v() > 0real && 2real * $2.v() < $1.v()']
    if 'q' in _p and 'db' not in _p: dom.append('$3.fin() && $3.v() > 0real')
    if _p == _g: dom += ['$3.fin() && $4.fin() && $4.v() > 0real']
    if _p == _s: dom += ['$3.fin() && $4.fin() && $4.v() > 0real && $4.v() <= 1real']
    vals = ', '.join('$%d.v()' % (i + 1) for i in range(len(_p)))
    fn(_n + '::set_coefficients', requires=[('C13 C14', d) for d in dom],
       ensures=[('C13 C14', 'is_ck($post.biquad, ck_%s(%s))' % (_n.lower(), vals)),
                ('C04 C13', '$post.biquad.reset()')],
       begin=[('C13 C14', 'proof { dom_%s(%s); }' % ('q' if _p == _q else 'g' if _p == _g else 's', vals))])
    processor(_n, 'true',
        [('C13', '$pre.biquad.tdf2($1, $post.biquad, $r)'),
         ('C13', '$pre.biquad.same_coefs($post.biquad)'),
         ('C03', '$pre.biquad.thru() && $1.fin() ==> $r.fin() && $r.v() == $1.v() && $post.biquad.thru()'),
         ('C04', '$post.biquad.output == $r')],
        [('C04 C13', '$post.biquad.reset()'), ('C04 C13 C14', '$pre.biquad.same_coefs($post.biquad)')],
        [('C04', '$r == $pre.biquad.output')])
RBJ_SPECS += '''
/// the angle lies strictly between 0 and pi
pub proof fn lemma_w0(sr: real, f: real)
    requires sr > 0real, f > 0real, 2real * f < sr
    ensures 0real < ck_w0(sr, f), ck_w0(sr, f) < r_pi(), r_sin(ck_w0(sr, f)) > 0real
{
    let x = 2real * r_pi() * f;
    let w = x / sr;
    let p = r_pi();
    assert(p > 3real);
    assert(x > 0real) by (nonlinear_arith) requires x == 2real * p * f, p > 3real, f > 0real;
    assert(x < p * sr) by (nonlinear_arith) requires x == 2real * p * f, 2real * f < sr, p > 3real;
    assert(w > 0real) by (nonlinear_arith) requires w == x / sr, x > 0real, sr > 0real;
    assert(w < p) by (nonlinear_arith) requires w == x / sr, x < p * sr, sr > 0real;
}
pub proof fn dom_q(sr: real, f: real, q: real)
    requires sr > 0real, f > 0real, 2real * f < sr, q > 0real
    ensures ck_alpha_q(sr, f, q) > 0real, sr != 0real, 2real * q != 0real
{
    lemma_w0(sr, f);
    let s = r_sin(ck_w0(sr, f));
    assert(s / (2real * q) > 0real) by (nonlinear_arith) requires s > 0real, q > 0real;
}
pub proof fn dom_g(sr: real, f: real, db: real, q: real)
    requires sr > 0real, f > 0real, 2real * f < sr, q > 0real
    ensures ck_alpha_q(sr, f, q) > 0real, ck_a(db) > 0real, ck_alpha_q(sr, f, q) / ck_a(db) > 0real, ck_alpha_q(sr, f, q) * ck_a(db) > 0real
{
    dom_q(sr, f, q);
    let (x, a) = (ck_alpha_q(sr, f, q), ck_a(db));
    assert(x / a > 0real) by (nonlinear_arith) requires x > 0real, a > 0real;
    assert(x * a > 0real) by (nonlinear_arith) requires x > 0real, a > 0real;
}
pub proof fn dom_s(sr: real, f: real, db: real, s: real)
    requires sr > 0real, f > 0real, 2real * f < sr, 0real < s, s <= 1real
    ensures ({
        let a = ck_a(db);
        let c = r_cos(ck_w0(sr, f));
        &&& a > 0real
        &&& (a + 1real / a) * (1real / s - 1real) + 2real > 0real
        &&& ck_alpha_s(sr, f, a, s) > 0real
        &&& r_sqrt(a) > 0real
        &&& 2real * r_sqrt(a) * ck_alpha_s(sr, f, a, s) > 0real
        &&& (a + 1real) + (a - 1real) * c > 0real
        &&& (a + 1real) - (a - 1real) * c > 0real
    })
{
    lemma_w0(sr, f);
    let a = ck_a(db);
    let c = r_cos(ck_w0(sr, f));
    let sn = r_sin(ck_w0(sr, f));
    let ia = 1real / a;
    let is = 1real / s;
    assert(ia > 0real) by (nonlinear_arith) requires ia == 1real / a, a > 0real;
    assert(is >= 1real) by (nonlinear_arith) requires is == 1real / s, 0real < s, s <= 1real;
    let u = (a + ia) * (is - 1real) + 2real;
    assert(u >= 2real) by (nonlinear_arith) requires u == (a + ia) * (is - 1real) + 2real, a > 0real, ia > 0real, is >= 1real;
    let r = r_sqrt(u);
    assert(r > 0real) by (nonlinear_arith) requires r >= 0real, r * r == u, u >= 2real;
    let al = sn / 2real * r;
    assert(al > 0real) by (nonlinear_arith) requires al == sn / 2real * r, sn > 0real, r > 0real;
    let ra = r_sqrt(a);
    assert(ra > 0real) by (nonlinear_arith) requires ra >= 0real, ra * ra == a, a > 0real;
    assert(2real * ra * al > 0real) by (nonlinear_arith) requires ra > 0real, al > 0real;
    assert(-1real < c && c < 1real) by (nonlinear_arith) requires c * c + sn * sn == 1real, sn > 0real;
    assert((a + 1real) + (a - 1real) * c > 0real) by (nonlinear_arith) requires a > 0real, -1real < c, c < 1real;
    assert((a + 1real) - (a - 1real) * c > 0real) by (nonlinear_arith) requires a > 0real, -1real < c, c < 1real;
}
'''
RBJ_TYPES = list(RBJ)
RBJ_FNS = sum([api(t, 'set_coefficients') for t in RBJ_TYPES], [])
B2 = api('Biquad2', 'set_coefficients')

# ---------------------------------------------------------------------------
# analysis
# ---------------------------------------------------------------------------
ty('LeakyIntegrator', [('alpha', 'T'), ('y_z1', 'T')])
LI_WF = 'self.alpha.fin() && 0real <= self.alpha.v() && self.alpha.v() < 1real'
fn('LeakyIntegrator::new', ensures=[('base', '$r.wf()'), ('C03 C11', '$r.alpha.v() == 0real'), ('C03 C04 C11', 'is_zero($r.y_z1)')])
fn('LeakyIntegrator::get_alpha', ensures=[('C11', '$r == $pre.alpha')])
fn('LeakyIntegrator::set_alpha', requires=[('base', '$pre.wf()')], ensures=[
    ('base', '$post.wf()'),
    ('C11', '$1.fin() && 0real <= $1.v() && $1.v() < 1real ==> $post.alpha == $1'),
    ('C11', '!($1.fin() && 0real <= $1.v() && $1.v() < 1real) ==> $post.alpha == $pre.alpha'),
    ('C04 C11', '$post.y_z1 == $pre.y_z1')])
processor('LeakyIntegrator', LI_WF,
    [('C11', '$pre.y_z1.fin() && $1.fin() ==> $r.fin() && $r.v() == $1.v() + $pre.alpha.v() * ($pre.y_z1.v() - $1.v())'),
     ('C11', '$post.alpha == $pre.alpha'),
     ('C03', '$pre.y_z1.fin() && $1.fin() && $pre.alpha.v() == 0real ==> $r.fin() && $r.v() == $1.v() && $post.y_z1.fin() && $post.alpha.v() == 0real'),
     ('C04 C11', '$post.y_z1 == $r')],
    [('C04 C11', 'is_zero($post.y_z1)'), ('C04 C11', '$post.alpha == $pre.alpha')],
    [('C04', '$r == $pre.y_z1')])
LI = api('LeakyIntegrator', 'get_alpha', 'set_alpha')

ENV_WF = 'self.attack_gain.fin() && self.release_gain.fin() && 0real <= self.attack_gain.v() && self.attack_gain.v() < 1real && 0real <= self.release_gain.v() && self.release_gain.v() < 1real'
ENV_SPEC = '''
/// one step of the envelope follower on a rectified input u
pub open spec fn follow(e: real, u: real, att: real, rel: real) -> real {
    u + (if e < u { att } else { rel }) * (e - u)
}
'''
def env(name, lvl, outs, last):
    ty(name, [('attack_gain', 'T'), ('release_gain', 'T'), ('envelope', 'T')])
    fn(name + '::new', ensures=[('base', '$r.wf()'), ('C03 C12', '$r.attack_gain.v() == 0real && $r.release_gain.v() == 0real'), ('C03 C04 C12', 'is_zero($r.envelope)')])
    for w, o in (('attack', 'release'), ('release', 'attack')):
        fn('%s::get_%s_gain' % (name, w), ensures=[('C12', '$r == $pre.%s_gain' % w)])
        fn('%s::set_%s' % (name, w), requires=[('base', '$pre.wf()')], ensures=[
            ('base', '$post.wf()'),
            ('C12', '$1.fin() && $1.v() > 0real ==> $post.%s_gain.v() == r_exp(-1real / $1.v())' % w),
            ('C12', '!($1.fin() && $1.v() > 0real) ==> $post.%s_gain == $pre.%s_gain' % (w, w)),
            ('C12', '$post.%s_gain == $pre.%s_gain' % (o, o)),
            ('C04 C12', '$post.envelope == $pre.envelope')])
    u = lvl
    processor(name, ENV_WF,
        [('C12', '$pre.envelope.fin() && $1.fin() ==> $post.envelope.fin() && $post.envelope.v() == follow($pre.envelope.v(), %s, $pre.attack_gain.v(), $pre.release_gain.v())' % u),
         ('C12', '$post.attack_gain == $pre.attack_gain && $post.release_gain == $pre.release_gain'),
         ('C03', '$pre.envelope.fin() && $1.fin() && $pre.attack_gain.v() == 0real && $pre.release_gain.v() == 0real ==> $post.envelope.fin() && $post.envelope.v() == %s && $post.attack_gain.v() == 0real && $post.release_gain.v() == 0real' % u)] + outs,
        [('C04 C12', 'is_zero($post.envelope)'), ('C04 C12', '$post.attack_gain == $pre.attack_gain && $post.release_gain == $pre.release_gain')],
        last)
env('PeakEnvDetector', 'r_abs($1.v())', [('C03 C04 C12', '$r == $post.envelope')], [('C04', '$r == $pre.envelope')])
env('RmsEnvDetector', '($1.v() * $1.v())',
    [('C03 C12', '$post.envelope.fin() && $post.envelope.v() >= 0real ==> $r.fin() && $r.v() == r_sqrt($post.envelope.v())'), ('C04', '$r == spec_sqrt($post.envelope)')],
    [('C04', '$r == spec_sqrt($pre.envelope)')])
ENVS = ['PeakEnvDetector', 'RmsEnvDetector']
ENV_FNS = sum([api(t, 'get_attack_gain', 'set_attack', 'get_release_gain', 'set_release') for t in ENVS], [])

# ---- C03 -------------------------------------------------------------------
def _fresh(name, extra_inv, post, args='T: Float'):
    return '''
/// a new {name} passes every input sequence through
#[verifier::loop_isolation(false)]
pub fn fresh_{l}<{g}>(xs: &Vec<T>)
    requires forall|i: int| 0 <= i < xs@.len() ==> (#[trigger] xs@[i]).fin()
{{
    let mut f = {name}::<T>::new();
    let mut i: usize = 0;
    while i < xs.len()
        invariant i <= xs@.len(), f.wf(), {inv}
        decreases xs@.len() - i
    {{
        let y = f.process(xs[i]);
        assert(y.fin());
        assert({post});
        i = i + 1;
    }}
}}
'''.format(name=name, l=name.lower(), inv=extra_inv, post=post, g=args)
_c03 = ENV_SPEC + '''
pub proof fn lemma_sqrt_sq(x: real) ensures r_sqrt(x * x) == r_abs(x)
{
    let s = r_sqrt(x * x);
    assert(x * x >= 0real) by (nonlinear_arith);
    assert(s >= 0real && s * s == x * x);
    let b = r_abs(x);
    assert(b * b == x * x) by (nonlinear_arith) requires b == x || b == -x;
    assert(s == b) by (nonlinear_arith) requires s * s == b * b, s >= 0real, b >= 0real;
}
'''
for _n in FILTERS + ['Biquad2']: _c03 += _fresh(_n, 'f.thru()', 'y.v() == xs@[i as int].v()')
for _n in RBJ_TYPES: _c03 += _fresh(_n, 'f.biquad.thru()', 'y.v() == xs@[i as int].v()', 'T: Float + FloatConst')
_c03 += _fresh('LeakyIntegrator', 'f.y_z1.fin(), f.alpha.v() == 0real', 'y.v() == xs@[i as int].v()')
_c03 += _fresh('PeakEnvDetector', 'f.envelope.fin(), f.attack_gain.v() == 0real, f.release_gain.v() == 0real', 'y.v() == r_abs(xs@[i as int].v())')
_c03 += _fresh('RmsEnvDetector', 'f.envelope.fin(), f.attack_gain.v() == 0real, f.release_gain.v() == 0real', 'y.v() == r_abs(xs@[i as int].v())').replace(
    'let y = f.process(xs[i]);', 'proof { let x = xs@[i as int].v(); lemma_sqrt_sq(x); assert(x * x >= 0real) by (nonlinear_arith); }\n        let y = f.process(xs[i]);')
prop('C03', FILTERS + ['Biquad2'] + RBJ_TYPES + ['LeakyIntegrator'] + ENVS,
     FLOATCONST + PROCESSOR + sum([api(t) for t in FILTERS + ['Biquad2'] + RBJ_TYPES + ['LeakyIntegrator'] + ENVS], []),
     _c03, nl=2, traits=('FloatConst', 'Processor'))

# ---------------------------------------------------------------------------
# delay lines
# ---------------------------------------------------------------------------
RING = '''
    /// slot that holds the sample written k process calls ago (0 = latest)
    pub open spec fn slot(self, k: int) -> int {
        if self.write_ptr - 1 - k >= 0 { self.write_ptr - 1 - k } else { self.write_ptr - 1 - k + self.memory@.len() }
    }
    pub open spec fn past(self, k: int) -> T { self.memory@[self.slot(k)] }
    /// the largest delay
    pub open spec fn cap(self) -> int { self.memory@.len() - 1 }
    /// what set_delay relies on: a ring with a valid write position
    pub open spec fn ring_ok(self) -> bool { 0 < self.memory@.len() <= %s && self.write_ptr < self.memory@.len() }
    /// every stored sample keeps its age
    pub open spec fn same_line(self, o: Self) -> bool {
        self.cap() == o.cap() && forall|k: int| 0 <= k <= self.cap() ==> #[trigger] self.past(k) == o.past(k)
    }
    /// x has been written, every stored sample is one call older
    pub open spec fn shifted(self, x: T, o: Self) -> bool {
        o.cap() == self.cap() && o.past(0) == x && forall|k: int| 0 < k <= self.cap() ==> #[trigger] o.past(k) == self.past(k - 1)
    }
    pub open spec fn all_zero(self) -> bool { forall|k: int| 0 <= k <= self.cap() ==> is_zero(#[trigger] self.past(k)) }
'''
ty('Delay', [('memory', 'Vec<T>'), ('output', 'T'), ('read_ptr', 'usize'), ('write_ptr', 'usize'), ('delay', 'usize')],
   RING % '0x7fff_ffff_ffff_ffff' + '''
    /// sample the line returns when x is written: the one written `delay` calls before x
    pub open spec fn delayed(self, x: T) -> T { if self.delay == 0 { x } else { self.past(self.delay - 1) } }
''')
D_WF = '''self.ring_ok() && self.read_ptr < self.memory@.len() && self.delay <= self.cap()
        && self.read_ptr == (if self.write_ptr >= self.delay { self.write_ptr - self.delay } else { self.write_ptr - self.delay + self.memory@.len() })'''
MAXD = '0x7fff_ffff_ffff_ffff'
fn('Delay::new', requires=[('base', '$2 < ' + MAXD)], ensures=[
    ('base', '$r.wf()'),
    ('C06 C08', '$r.cap() == $2'),
    ('C08', '$r.delay == (if $1 > $2 { $2 } else { $1 })'),
    ('C04', 'is_zero($r.output)'), ('C04 C06', '$r.all_zero()')])
GROW_HINT = '''proof {
    assert forall|k: int| 0 <= k <= old(self).cap() implies #[trigger] self.past(k) == old(self).past(k) by {
        let w = old(self).write_ptr as int;
        let n = old(self).memory@.len() as int;
        let i = old(self).slot(k);
        if i < w { assert(old(self).memory@.subrange(0, w)[i] == old(self).memory@[i]); }
        else { assert(old(self).memory@.subrange(w, n)[i - w] == old(self).memory@[i]); }
    }
}'''
fn('Delay::set_max_delay', end=[('C06 C08 C10', GROW_HINT)], requires=[('base', '$pre.wf()'), ('base', '$1 < ' + MAXD)], ensures=[
    ('base', '$post.wf()'),
    ('C08', '$post.delay == $pre.delay'),
    ('C06 C08', '$post.cap() == (if $1 > $pre.cap() { $1 as int } else { $pre.cap() })'),
    ('C06 C08 C10', 'forall|k: int| 0 <= k <= $pre.cap() ==> #[trigger] $post.past(k) == $pre.past(k)'),
    ('C06 C08', 'forall|k: int| $pre.cap() < k <= $post.cap() ==> is_zero(#[trigger] $post.past(k))'),
    ('C04', '$post.output == $pre.output')])
fn('Delay::get_max_delay', requires=[('base', '$pre.ring_ok()')], ensures=[('C08', '$r == $pre.cap()')])
fn('Delay::set_delay', requires=[('base', '$pre.ring_ok()')], ensures=[
    ('base', '$post.wf()'),
    ('base', '$post.memory@ == $pre.memory@ && $post.write_ptr == $pre.write_ptr'),
    ('C04 C06 C08', '$post.delay == (if $1 > $pre.cap() { $pre.cap() } else { $1 as int })'),
    ('C04', '$post.output == $pre.output')])
fn('Delay::get_delay', requires=[('base', '$pre.wf()')], ensures=[('C06 C08', '$r == $pre.delay')])
fn('Delay::next_out', requires=[('base', '$pre.wf()')], ensures=[
    ('C10', '$pre.delay >= 1 ==> $r == $pre.past($pre.delay - 1)')])
processor('Delay', D_WF,
    [('C06 C10', '$r == $pre.delayed($1)'),
     ('C06 C09', '$pre.shifted($1, *$post)'),
     ('C06 C08', '$post.delay == $pre.delay && $post.cap() == $pre.cap()'),
     ('C04', '$post.output == $r')],
    [('C04 C06', '$post.all_zero()'), ('C04', 'is_zero($post.output)'), ('C04 C06', '$post.delay == $pre.delay && $post.cap() == $pre.cap()')],
    [('C04', '$r == $pre.output')],
    clear_kw=dict(loop='''
        self.memory@.len() == old(self).memory@.len(),
        {hi} == self.memory@.len(),
        forall|j: int| 0 <= j < {i} ==> is_zero(#[trigger] self.memory@[j]),
        self.read_ptr == old(self).read_ptr, self.write_ptr == old(self).write_ptr, self.delay == old(self).delay,
'''))

TRAITS['TappableDelayLine'] = dict(
    head='pub trait TappableDelayLine<T: Float>: Sized {',
    specs=[('base', 'spec fn twf(self) -> bool;'), ('base', 'spec fn tcap(self) -> int;')])
fn('TappableDelayLine::tap_out', requires=[('base', '$pre.twf()'), ('base', '$1 <= $pre.tcap()')])
fn('TappableDelayLine::tap_in', requires=[('base', '$pre.twf()'), ('base', '$2 <= $pre.tcap()')], ensures=[('base', '$post.twf()')])
fn('TappableDelayLine::add_to', requires=[('base', '$pre.twf()'), ('base', '$2 <= $pre.tcap()')], ensures=[('base', '$post.twf()')])
TAP = ['TappableDelayLine::tap_out', 'TappableDelayLine::tap_in', 'TappableDelayLine::add_to']
def taps(name, extra_frame):
    TRAIT_SPECS[('TappableDelayLine', name)] = [
        ('base', 'open spec fn twf(self) -> bool { self.wf() }'),
        ('base', 'open spec fn tcap(self) -> int { self.cap() }')]
    frame = '$post.cap() == $pre.cap() && $post.write_ptr == $pre.write_ptr && $post.read_ptr == $pre.read_ptr && $post.delay == $pre.delay && $post.output == $pre.output' + extra_frame
    others = 'forall|k: int| 0 <= k <= $pre.cap() && k != $2 ==> #[trigger] $post.past(k) == $pre.past(k)'
    fn(name + '::tap_out', ensures=[('C09', '$r == $pre.past($1 as int)')])
    fn(name + '::tap_in', ensures=[('C09', '$post.past($2 as int) == $1'), ('C09', others), ('C09', frame)])
    fn(name + '::add_to', ensures=[
        ('C09', '$post.past($2 as int) == $r'),
        ('C09', '$pre.past($2 as int).fin() && $1.fin() ==> $r.fin() && $r.v() == $pre.past($2 as int).v() + $1.v()'),
        ('C09', others), ('C09', frame)])
taps('Delay', '')
def taps_api(n): return [n + '::tap_out', n + '::tap_in', n + '::add_to']
D_API = api('Delay', 'set_max_delay', 'get_max_delay', 'set_delay', 'get_delay', 'next_out')
def dsel(n, *fs): return [n + '::' + f for f in fs]

# ---- C06 -------------------------------------------------------------------
_c06 = '''
/// what a user can do to a delay line between two samples
pub enum Op<T> { Push(T), SetDelay(usize), SetMax(usize), Clear }

/// the samples pushed so far, and the line agreeing with them
pub open spec fn agrees<T: Float>(d: Delay<T>, h: Seq<T>) -> bool {
    forall|k: int| 0 <= k <= d.cap() ==> (if k < h.len() { #[trigger] d.past(k) == h[h.len() - 1 - k] } else { is_zero(d.past(k)) })
}

/// For every history of operations: each output is the input `get_delay()` samples back (zero before the start).
#[verifier::loop_isolation(false)]
pub fn history_delay<T: Float>(delay: usize, max: usize, ops: &Vec<Op<T>>)
    requires max < 0x7fff_ffff_ffff_ffff,
        forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i] is SetMax ==> ops@[i]->SetMax_0 < 0x7fff_ffff_ffff_ffff),
{
    let mut d = Delay::<T>::new(delay, max);
    let ghost mut h: Seq<T> = Seq::empty();
    let mut i: usize = 0;
    while i < ops.len()
        invariant i <= ops@.len(), d.wf(), agrees(d, h),
            forall|i: int| 0 <= i < ops@.len() ==> (#[trigger] ops@[i] is SetMax ==> ops@[i]->SetMax_0 < 0x7fff_ffff_ffff_ffff),
        decreases ops@.len() - i
    {
        match &ops[i] {
            Op::Push(x) => {
                let ghost pre = d;
                let n = d.get_delay();
                let y = d.process(*x);
                proof {
                    let hh = h.push(*x);
                    assert(agrees(d, hh)) by {
                        assert forall|k: int| 0 <= k <= d.cap() implies (if k < hh.len() { #[trigger] d.past(k) == hh[hh.len() - 1 - k] } else { is_zero(d.past(k)) }) by {
                            if k > 0 { assert(d.past(k) == pre.past(k - 1)); }
                        }
                    }
                    h = hh;
                    // the theorem
                    assert(if n < h.len() { y == h[h.len() - 1 - n] } else { is_zero(y) }) by {
                        if n > 0 { assert(pre.past(n - 1) == pre.delayed(*x)); }
                    }
                }
            }
            Op::SetDelay(n) => {
                let ghost pre = d;
                d.set_delay(*n);
                proof {
                    assert forall|k: int| 0 <= k <= d.cap() implies (if k < h.len() { #[trigger] d.past(k) == h[h.len() - 1 - k] } else { is_zero(d.past(k)) }) by { assert(d.past(k) == pre.past(k)); }
                }
            }
            Op::SetMax(n) => {
                proof { assert(ops@[i as int] is SetMax); }
                let ghost pre = d;
                d.set_max_delay(*n);
                proof {
                    // a line longer than before: what has been forgotten reads as zero
                    let keep = if h.len() <= pre.cap() + 1 { h } else { h.subrange(h.len() - pre.cap() - 1, h.len() as int) };
                    assert(agrees(d, keep)) by {
                        assert forall|k: int| 0 <= k <= d.cap() implies (if k < keep.len() { #[trigger] d.past(k) == keep[keep.len() - 1 - k] } else { is_zero(d.past(k)) }) by {
                            if k <= pre.cap() { assert(d.past(k) == pre.past(k)); }
                        }
                    }
                    h = keep;
                }
            }
            Op::Clear => {
                d.clear();
                proof { h = Seq::empty(); }
            }
        }
        i = i + 1;
    }
}
'''
prop('C06', ['Delay'], PROCESSOR + api('Delay', 'set_max_delay', 'set_delay', 'get_delay'), _c06)


# ---- LinearDelay -----------------------------------------------------------
ty('LinearDelay', [('memory', 'Vec<T>'), ('output', 'T'), ('read_ptr', 'usize'), ('write_ptr', 'usize'), ('delay', 'F32'),
                   ('do_next_out', 'bool'), ('next_out', 'T'), ('alpha', 'T'), ('om_alpha', 'T')],
   RING % '16777216' + """
    /// whole samples between the write and the read position
    pub open spec fn gap(self) -> int { gap_of(self.write_ptr as int, self.read_ptr as int, self.memory@.len() as int) }
    /// the delay the read position stands for
    pub open spec fn eff(self) -> real { self.gap() as real - self.alpha.v() }
    pub open spec fn allfin(self) -> bool { forall|k: int| 0 <= k <= self.cap() ==> (#[trigger] self.past(k)).fin() }
    pub open spec fn mem_fin(self) -> bool { forall|j: int| 0 <= j < self.memory@.len() ==> (#[trigger] self.memory@[j]).fin() }
    pub open spec fn next_slot(self) -> int { if self.read_ptr + 1 < self.memory@.len() { self.read_ptr + 1 } else { 0 } }
    pub open spec fn interp(self) -> real {
        self.memory@[self.read_ptr as int].v() * self.om_alpha.v() + self.memory@[self.next_slot()].v() * self.alpha.v()
    }
    /// sample j calls before x, where x is being written now
    pub open spec fn before(self, x: T, j: int) -> T { if j == 0 { x } else { self.past(j - 1) } }
    /// value the line returns when x is written: interpolated between the two samples around the delay
    pub open spec fn delayed(self, x: T) -> real {
        if self.gap() == 0 { x.v() }
        else { (1real - self.alpha.v()) * self.before(x, self.gap()).v() + self.alpha.v() * self.before(x, self.gap() - 1).v() }
    }
    /// the two slots read are the two samples around the delay, and all samples are finite iff all slots are
    pub proof fn lemma_delayed(self, x: T)
        requires self.ring_ok(), self.read_ptr < self.memory@.len(), self.read_ptr == self.write_ptr ==> self.alpha.v() == 0real
        ensures
            self.delayed(x) == self.memory@.update(self.write_ptr as int, x)[self.read_ptr as int].v() * (1real - self.alpha.v())
                + self.memory@.update(self.write_ptr as int, x)[self.next_slot()].v() * self.alpha.v(),
            self.allfin() <==> self.mem_fin(),
    {
        let m = self.memory@.update(self.write_ptr as int, x);
        let (a, b, al) = (m[self.read_ptr as int].v(), m[self.next_slot()].v(), self.alpha.v());
        if self.gap() > 0 {
            assert(self.slot(self.gap() - 1) == self.read_ptr);
            if self.gap() > 1 { assert(self.slot(self.gap() - 2) == self.next_slot()); } else { assert(self.next_slot() == self.write_ptr); }
            assert((1real - al) * a + al * b == a * (1real - al) + b * al) by (nonlinear_arith);
        } else {
            assert(a * (1real - al) + b * al == a) by (nonlinear_arith) requires al == 0real;
        }
        if self.allfin() {
            assert forall|j: int| 0 <= j < self.memory@.len() implies (#[trigger] self.memory@[j]).fin() by {
                let k = if self.write_ptr - 1 - j >= 0 { self.write_ptr - 1 - j } else { self.write_ptr - 1 - j + self.memory@.len() };
                assert(self.slot(k) == j);
                assert(self.past(k).fin());
            }
        }
        if self.mem_fin() {
            assert forall|k: int| 0 <= k <= self.cap() implies (#[trigger] self.past(k)).fin() by { }
        }
    }
    /// with a delay of at least one sample neither slot read is the one being written (or it has weight zero)
    pub proof fn lemma_predict(self, x: T)
        requires self.ring_ok(), self.read_ptr < self.memory@.len(), near(self.gap(), self.alpha.v(), self.delay.v(), self.memory@.len() as int), self.delay.v() >= 1real,
        ensures self.memory@.update(self.write_ptr as int, x)[self.read_ptr as int].v() * (1real - self.alpha.v())
                + self.memory@.update(self.write_ptr as int, x)[self.next_slot()].v() * self.alpha.v()
            == self.memory@[self.read_ptr as int].v() * (1real - self.alpha.v()) + self.memory@[self.next_slot()].v() * self.alpha.v()
    {
        reveal(near);
        if self.gap() == 1 {
            let (a, b) = (self.memory@.update(self.write_ptr as int, x)[self.next_slot()].v(), self.memory@[self.next_slot()].v());
            let al = self.alpha.v();
            assert(a * al == b * al) by (nonlinear_arith) requires al == 0real;
        }
    }
    pub open spec fn clip(self, d: F32) -> real {
        if neg_inf(d) && !d.fin() { 0real }
        else if !d.fin() || d.v() > self.cap() as real { self.cap() as real }
        else if d.v() < 0real { 0real } else { d.v() }
    }
""")
LD_WF = """self.ring_ok() && self.read_ptr < self.memory@.len()
        && self.delay.fin() && 0real <= self.delay.v() && self.delay.v() <= self.cap() as real
        && self.alpha.fin() && self.om_alpha.fin() && self.om_alpha.v() == 1real - self.alpha.v()
        && (self.read_ptr == self.write_ptr ==> self.alpha.v() == 0real)
        && near(self.gap(), self.alpha.v(), self.delay.v(), self.memory@.len() as int)
        && (!self.do_next_out && self.mem_fin() ==> self.next_out.fin() && self.next_out.v() == self.interp())"""
LD_MAX = '16777216'
_ld_rnd = """proof { lemma_landed(self.write_ptr as int, self.memory@.len() as int, self.clip($1)); }"""
LD_LEMMAS = """
pub open spec fn gap_of(w: int, r: int, n: int) -> int { if w >= r { w - r } else { w - r + n } }
/// reading g - al samples back, in a ring of n samples, stands for the delay d
#[verifier::opaque]
pub open spec fn near(g: int, al: real, d: real, n: int) -> bool {
    0real <= al && al <= 1real
    && r_abs(g as real - al - d) * two24() <= 2real * (n as real) + 3real
    && (r_floor(d) as real == d ==> al == 0real && g as real == d)
    && (d >= 1real ==> g >= 2 || g == 1 && al == 0real)
}
/// the position set_delay computes in f32: write position minus delay, wrapped into the ring
pub open spec fn pos1(w: int, d: real) -> real { rnd32(w as real - d) }
pub open spec fn pos2(w: int, n: int, d: real) -> real { rnd32(pos1(w, d) + n as real) }
pub open spec fn pos(w: int, n: int, d: real) -> real { if pos1(w, d) < 0real { pos2(w, n, d) } else { pos1(w, d) } }
pub open spec fn slot_of(p: real, n: int) -> int { if r_floor(p) == n { 0 } else { r_floor(p) } }
/// what the position gives, for every write position, ring length and delay
pub proof fn lemma_landed(w: int, n: int, d: real)
    requires 0 <= w < n <= 16777216, 0real <= d, d <= (n - 1) as real
    ensures ({
        let p = pos(w, n, d);
        let al = rnd32(p - r_floor(p) as real);
        let s = slot_of(p, n);
        &&& 0real <= p && p <= n as real && 0 <= r_floor(p) <= n
        &&& 0 <= s < n
        &&& rnd32(r_floor(p) as real) == r_floor(p) as real
        &&& (s == w ==> al == 0real)
        &&& near(gap_of(w, s, n), al, d, n)
    })
{
    reveal(near);
    lemma_position(w, n, d);
    let p = pos(w, n, d);
    lemma_floor(p, 0); lemma_floor(p, n); lemma_floor(p, w); lemma_floor(p, w + 1);
    ax_rnd_int(r_floor(p));
    let f = p - r_floor(p) as real;
    let al = rnd32(f);
    let s = slot_of(p, n);
    let g = gap_of(w, s, n);
    let p1 = pos1(w, d);
    ax_rnd_int(0);
    if p1 < 0real {
        assert(p == pos2(w, n, d));
        assert(g == w + n - r_floor(p)) ;
        assert(g as real == w as real + n as real - r_floor(p) as real);
        assert(g as real - al - d == (w as real - d - p1) - (p - (p1 + n as real)) - (al - f));
    } else {
        assert(p == p1);
        assert(g == w - r_floor(p));
        assert(g as real == w as real - r_floor(p) as real);
        assert(g as real - al - d == (w as real - d - p1) - (al - f));
    }
    if s == w { assert(f == 0real); }
    if d >= 1real {
        ax_rnd_mono(w as real - d, (w - 1) as real);
        ax_rnd_int(w - 1);
        assert(p1 <= (w - 1) as real);
        if p1 < 0real && w >= 1 {
            lemma_floor(p, n);
        }
        lemma_floor(p1, w - 1);
        if p1 < 0real && w == 0 {
            ax_rnd_mono(p1 + n as real, (n - 1) as real);
            ax_rnd_int(n - 1);
            lemma_floor(p, n - 1);
        }
    }
    if r_floor(d) as real == d {
        lemma_floor(p, p_int(w, n, r_floor(d)));
        assert(p == p_int(w, n, r_floor(d)) as real);
        assert(f == 0real);
        assert(g == r_floor(d));
    }
}
pub open spec fn p_int(w: int, n: int, d: int) -> int { if w - d < 0 { w - d + n } else { w - d } }
pub proof fn lemma_floor(p: real, k: int)
    ensures p >= k as real ==> r_floor(p) >= k, p <= k as real ==> r_floor(p) <= k, p == k as real ==> r_floor(p) == k, p < k as real ==> r_floor(p) < k
{ }
/// rounding facts at the values the read position can take (w: write position, n: ring length, d: delay)
pub proof fn lemma_position(w: int, n: int, d: real)
    requires 0 <= w < n <= 16777216, 0real <= d, d <= (n - 1) as real
    ensures ({
        let p1 = rnd32(w as real - d);
        let p2 = rnd32(p1 + n as real);
        &&& (w - n + 1) as real <= p1 && p1 <= w as real
        &&& r_abs(p1 - (w as real - d)) * two24() <= n as real + 0.5real
        &&& frac_ok(p1)
        &&& p1 < 0real ==> (w + 1) as real <= p2 && p2 <= n as real && frac_ok(p2)
        &&& p1 < 0real ==> r_abs(p2 - (p1 + n as real)) * two24() <= n as real + 0.5real
        &&& r_floor(d) as real == d ==> p1 == w as real - d && (p1 < 0real ==> p2 == p1 + n as real)
    })
{
    let p1 = rnd32(w as real - d);
    let p2 = rnd32(p1 + n as real);
    ax_rnd_int(w); ax_rnd_int(n); ax_rnd_int(w + 1); ax_rnd_int(w - n + 1);
    ax_rnd_mono((w - n + 1) as real, w as real - d);
    ax_rnd_mono(w as real - d, w as real);
    ax_rnd_err(w as real - d);
    ax_rnd_mono((w + 1) as real, p1 + n as real);
    ax_rnd_mono(p1 + n as real, n as real);
    ax_rnd_err(p1 + n as real);
    lemma_frac(p1);
    lemma_frac(p2);
    if r_floor(d) as real == d {
        ax_rnd_int(w - r_floor(d));
        ax_rnd_int(w - r_floor(d) + n);
    }
}
/// the fraction of a position, rounded, stays within [0, 1] and close
pub open spec fn frac_ok(p: real) -> bool {
    let f = p - r_floor(p) as real;
    0real <= rnd32(f) && rnd32(f) <= 1real && r_abs(rnd32(f) - f) * two24() <= 1real + 0.5real && (f == 0real ==> rnd32(f) == 0real)
}
pub proof fn lemma_frac(p: real) ensures frac_ok(p) {
    let f = p - r_floor(p) as real;
    ax_rnd_int(0); ax_rnd_int(1);
    ax_rnd_mono(0int as real, f);
    ax_rnd_mono(f, 1int as real);
    ax_rnd_err(f);
}
"""
fn('LinearDelay::new', requires=[('base', '$2 < ' + LD_MAX), ('base', '!$1.nan()')], ensures=[
    ('base', '$r.wf()'),
    ('C07 C08', '$r.cap() == $2'),
    ('C08', '$r.delay.v() == $r.clip($1)'),
    ('C04', 'is_zero($r.output)'), ('C04 C07', '$r.all_zero()')])
fn('LinearDelay::set_max_delay', end=[('C07 C08 C10', GROW_HINT)], requires=[('base', '$pre.wf()'), ('base', '$1 < ' + LD_MAX)], ensures=[
    ('base', '$post.wf()'),
    ('C08', '$post.delay.v() == $pre.delay.v()'),
    ('C07 C08', '$post.cap() == (if $1 > $pre.cap() { $1 as int } else { $pre.cap() })'),
    ('C07 C08 C10', 'forall|k: int| 0 <= k <= $pre.cap() ==> #[trigger] $post.past(k) == $pre.past(k)'),
    ('C07 C08', 'forall|k: int| $pre.cap() < k <= $post.cap() ==> is_zero(#[trigger] $post.past(k))'),
    ('C04', '$post.output == $pre.output')])
fn('LinearDelay::get_max_delay', requires=[('base', '$pre.ring_ok()')], ensures=[('C08', '$r == $pre.cap()')])
fn('LinearDelay::set_delay', requires=[('base', '$pre.ring_ok()'), ('base', '!$1.nan()')], ensures=[
    ('base', '$post.wf()'),
    ('base', '$post.memory@ == $pre.memory@ && $post.write_ptr == $pre.write_ptr'),
    ('C04 C07 C08', '$post.delay.v() == $pre.clip($1)'),
    ('C04', '$post.output == $pre.output')],
   begin=_ld_rnd,
   loop="""
        {i}.fin(),
        {i}.v() == pos1(self.write_ptr as int, old(self).clip($1)) || {i}.v() == pos(self.write_ptr as int, self.memory@.len() as int, old(self).clip($1)),
""", loop_dec='if {i}.v() < 0real { 1int } else { 0int }')
fn('LinearDelay::get_delay', requires=[('base', '$pre.wf()')], ensures=[('C07 C08', '$r == $pre.delay')])
_frame = '$post.memory@ == $pre.memory@ && $post.write_ptr == $pre.write_ptr && $post.read_ptr == $pre.read_ptr && $post.delay == $pre.delay && $post.alpha == $pre.alpha && $post.om_alpha == $pre.om_alpha && $post.output == $pre.output'
fn('LinearDelay::next_out', requires=[('base', '$pre.ring_ok() && $pre.read_ptr < $pre.memory@.len()'),
        ('base', '$pre.alpha.fin() && $pre.om_alpha.fin()'),
        ('base', '!$pre.do_next_out && $pre.mem_fin() ==> $pre.next_out.fin() && $pre.next_out.v() == $pre.interp()')],
   ensures=[
    ('base', _frame),
    ('base', '!$post.do_next_out && $post.mem_fin() ==> $post.next_out.fin() && $post.next_out.v() == $post.interp()'),
    ('base', '$pre.mem_fin() ==> $r.fin() && $r.v() == $pre.interp()')])
processor('LinearDelay', LD_WF,
    [('C07 C10', '$pre.allfin() && $1.fin() ==> $r.fin() && $r.v() == $pre.delayed($1) && $post.allfin()'),
     ('C07 C09', '$pre.shifted($1, *$post)'),
     ('C07 C08', '$post.delay.v() == $pre.delay.v() && $post.cap() == $pre.cap()'),
     ('C04', '$post.output == $r')],
    [('C04 C07', '$post.all_zero()'), ('C04', 'is_zero($post.output)'),
     ('C04 C07', '$post.delay.v() == $pre.delay.v() && $post.cap() == $pre.cap()')],
    [('C04', '$r == $pre.output')],
    process_kw=dict(begin=[('C07 C10 C05', 'proof { self.lemma_delayed($1); }')]),
    clear_kw=dict(loop="""
        self.memory@.len() == old(self).memory@.len(),
        {hi} == self.memory@.len(),
        forall|j: int| 0 <= j < {i} ==> is_zero(#[trigger] self.memory@[j]),
        self.read_ptr == old(self).read_ptr, self.write_ptr == old(self).write_ptr, self.delay == old(self).delay,
        self.alpha == old(self).alpha, self.om_alpha == old(self).om_alpha,
"""))
taps('LinearDelay', ' && $post.alpha == $pre.alpha')
LD_API = api('LinearDelay', 'set_max_delay', 'get_max_delay', 'set_delay', 'get_delay', 'next_out')

_c07 = '''
/// what a user can do to a delay line between two samples
pub enum Op<T> { Push(T), SetDelay(F32), SetMax(usize), Clear }
pub open spec fn op_ok<T: Float>(o: Op<T>) -> bool {
    match o { Op::Push(x) => x.fin(), Op::SetDelay(d) => !d.nan(), Op::SetMax(n) => n < 16777216, Op::Clear => true }
}
/// value of the sample j calls back in the history h (zero before it starts)
pub open spec fn back<T: Float>(h: Seq<T>, j: int) -> real { if 0 <= j < h.len() { h[h.len() - 1 - j].v() } else { 0real } }
/// the line holds the history
pub open spec fn agrees<T: Float>(d: LinearDelay<T>, h: Seq<T>) -> bool {
    forall|k: int| 0 <= k <= d.cap() ==> (#[trigger] d.past(k)).fin() && d.past(k).v() == back(h, k)
}
/// y is the linear interpolation of the history at a point within rounding distance of the delay;
/// at a whole number of samples it is exactly that sample
pub open spec fn interpolates<T: Float>(h: Seq<T>, y: T, d: real, n: int, g: int, al: real) -> bool {
    0real <= al && al <= 1real && r_abs(g as real - al - d) * two24() <= 2real * (n as real) + 3real
    && y.fin() && y.v() == (1real - al) * back(h, g) + al * back(h, g - 1)
    && (r_floor(d) as real == d ==> y.v() == back(h, r_floor(d)))
}

/// For every history of operations, each output interpolates the input signal at the current delay.
#[verifier::loop_isolation(false)]
pub fn history_linear<T: Float>(delay: F32, max: usize, ops: &Vec<Op<T>>)
    requires max < 16777216, !delay.nan(), forall|i: int| 0 <= i < ops@.len() ==> op_ok(#[trigger] ops@[i]),
{
    let mut d = LinearDelay::<T>::new(delay, max);
    let ghost mut h: Seq<T> = Seq::empty();
    let mut i: usize = 0;
    while i < ops.len()
        invariant i <= ops@.len(), d.wf(), agrees(d, h), forall|i: int| 0 <= i < ops@.len() ==> op_ok(#[trigger] ops@[i]),
        decreases ops@.len() - i
    {
        assert(op_ok(ops@[i as int]));
        match &ops[i] {
            Op::Push(x) => {
                let ghost pre = d;
                let n = d.get_delay();
                let y = d.process(*x);
                proof {
                    let hh = h.push(*x);
                    assert forall|k: int| 0 <= k <= d.cap() implies (#[trigger] d.past(k)).fin() && d.past(k).v() == back(hh, k) by {
                        if k > 0 { assert(d.past(k) == pre.past(k - 1)); }
                    }
                    h = hh;
                    // the theorem
                    let (g, al, dv) = (pre.gap(), pre.alpha.v(), n.v());
                    assert(interpolates(h, y, dv, pre.memory@.len() as int, g, al)) by {
                        reveal(near);
                        assert(pre.allfin()) by { assert forall|k: int| 0 <= k <= pre.cap() implies (#[trigger] pre.past(k)).fin() by {} }
                        let (p, q) = (back(h, g), back(h, g - 1));
                        if g == 0 {
                            assert((1real - al) * p + al * q == p) by (nonlinear_arith) requires al == 0real;
                        } else {
                            assert(pre.before(*x, g).v() == p);
                            assert(pre.before(*x, g - 1).v() == q);
                        }
                        if r_floor(dv) as real == dv {
                            assert((1real - al) * p + al * q == p) by (nonlinear_arith) requires al == 0real;
                        }
                    }
                }
            }
            Op::SetDelay(n) => {
                let ghost pre = d;
                d.set_delay(*n);
                proof { assert forall|k: int| 0 <= k <= d.cap() implies (#[trigger] d.past(k)).fin() && d.past(k).v() == back(h, k) by { assert(d.past(k) == pre.past(k)); } }
            }
            Op::SetMax(n) => {
                let ghost pre = d;
                d.set_max_delay(*n);
                proof {
                    let keep = if h.len() <= pre.cap() + 1 { h } else { h.subrange(h.len() - pre.cap() - 1, h.len() as int) };
                    assert forall|k: int| 0 <= k <= d.cap() implies (#[trigger] d.past(k)).fin() && d.past(k).v() == back(keep, k) by {
                        if k <= pre.cap() { assert(d.past(k) == pre.past(k)); }
                    }
                    h = keep;
                }
            }
            Op::Clear => {
                d.clear();
                proof { h = Seq::empty(); }
            }
        }
        i = i + 1;
    }
}
'''
LD = ['LinearDelay']
prop('C07', LD, PROCESSOR + api('LinearDelay', 'set_max_delay', 'set_delay', 'get_delay', 'next_out'), LD_LEMMAS + _c07)

# ---- C08 -------------------------------------------------------------------
_c08 = LD_LEMMAS + '''
/// sequences of settings: the delay always lies within [0, maximum]; growing keeps the delay; the maximum never shrinks
pub fn limits_delay<T: Float>(a: usize, m: usize, b: usize, m2: usize)
    requires m < 0x7fff_ffff_ffff_ffff, m2 < 0x7fff_ffff_ffff_ffff
{
    let mut d = Delay::<T>::new(a, m);
    let x = d.get_max_delay();
    let y = d.get_delay();
    assert(x == m && y == (if a > m { m } else { a }));
    d.set_delay(b);
    let y = d.get_delay();
    assert(y == (if b > m { m } else { b }));
    d.set_max_delay(m2);
    let x2 = d.get_max_delay();
    let y2 = d.get_delay();
    assert(x2 == (if m2 > m { m2 } else { m }) && y2 == y);
}
pub fn limits_linear<T: Float>(a: F32, m: usize, b: F32, m2: usize)
    requires m < 16777216, m2 < 16777216, !a.nan(), !b.nan()
{
    let mut d = LinearDelay::<T>::new(a, m);
    let x = d.get_max_delay();
    let y = d.get_delay();
    assert(x == m && y.fin() && 0real <= y.v() && y.v() <= m as real);
    assert(a.fin() && 0real <= a.v() && a.v() <= m as real ==> y.v() == a.v());
    assert(a.fin() && a.v() > m as real ==> y.v() == m as real);
    assert(a.fin() && a.v() < 0real ==> y.v() == 0real);
    d.set_delay(b);
    let y = d.get_delay();
    assert(y.fin() && 0real <= y.v() && y.v() <= m as real);
    assert(b.fin() && 0real <= b.v() && b.v() <= m as real ==> y.v() == b.v());
    assert(pos_inf(b) ==> y.v() == m as real);
    assert(!b.fin() && neg_inf(b) ==> y.v() == 0real);
    d.set_max_delay(m2);
    let x2 = d.get_max_delay();
    let y2 = d.get_delay();
    assert(x2 == (if m2 > m { m2 } else { m }) && y2.v() == y.v());
}
'''
prop('C08', ['Delay'] + LD, PROCESSOR + D_API + LD_API, _c08)

# ---- C09 -------------------------------------------------------------------
_c09 = LD_LEMMAS + '''
/// a tap reads the sample pushed k calls before the latest one
pub fn tap_reads<T: Float>(d: &mut Delay<T>, l: &mut LinearDelay<T>, x: T, z: T)
    requires old(d).wf(), old(d).cap() >= 1, old(l).wf(), old(l).cap() >= 1
{
    d.process(x); d.process(z);
    let a = d.tap_out(0);
    let b = d.tap_out(1);
    assert(a == z) ;
    assert(d.past(1) == x);
    assert(b == x);
    l.process(x); l.process(z);
    let a = l.tap_out(0);
    let b = l.tap_out(1);
    assert(a == z);
    assert(l.past(1) == x);
    assert(b == x);
}
'''
prop('C09', ['Delay'] + LD, PROCESSOR + TAP + dsel('Delay', 'new', *PROC) + dsel('LinearDelay', 'new', 'set_delay', 'next_out', *PROC) + ['Delay::set_delay']
     + taps_api('Delay') + taps_api('LinearDelay'), _c09, traits=('Processor', 'TappableDelayLine'))

# ---- C10 -------------------------------------------------------------------
_c10 = LD_LEMMAS + '''
/// in every reachable state the predicted sample is the next one, whatever is pushed
pub fn predicts_delay<T: Float>(d: &mut Delay<T>, x: T)
    requires old(d).wf(), old(d).delay >= 1
{
    let ghost pre = *d;
    let p = d.next_out();
    assert(*d == pre);
    let y = d.process(x);
    assert(y == p);
}
pub fn predicts_linear<T: Float>(d: &mut LinearDelay<T>, x: T)
    requires old(d).wf(), old(d).delay.v() >= 1real, old(d).allfin(), x.fin()
{
    proof { d.lemma_delayed(x); d.lemma_predict(x); reveal(near); }
    let ghost pre = *d;
    let p = d.next_out();
    let p2 = d.next_out();
    proof { d.lemma_delayed(x); }
    assert(d.same_line(pre));
    assert(d.gap() == pre.gap() && d.alpha == pre.alpha);
    assert(p.v() == p2.v());
    let y = d.process(x);
    assert(y.fin() && p.fin() && y.v() == p.v());
}
'''
prop('C10', ['Delay'] + LD, PROCESSOR + TAP + dsel('Delay', 'new', 'set_delay', 'set_max_delay', 'next_out', *PROC) + dsel('LinearDelay', 'new', 'set_delay', 'set_max_delay', 'next_out', *PROC)
     + taps_api('Delay') + taps_api('LinearDelay'), _c10, traits=('Processor', 'TappableDelayLine'))

# ---- C04 -------------------------------------------------------------------
ALLP = FILTERS + ['Biquad2'] + RBJ_TYPES + ['LeakyIntegrator'] + ENVS

def _clr(name, fc=''):
    return '''
/// {name}: the last output is zero after clear, and the latest value returned after that
pub fn latest_{l}<T: Float{fc}>(p: &mut {name}<T>, x: T)
    requires old(p).wf()
{{
    p.clear();
    let z = p.last_out();
    {pz}
    assert(is_zero(z));
    let y = p.process(x);
    let a = p.last_out();
    let b = p.last_out();
    assert(a == y && b == y);
}}
'''.format(name=name, l=name.lower(), fc=fc, pz='proof { ax_spec_sqrt(p.envelope); let s = r_sqrt(0real); assert(s == 0real) by (nonlinear_arith) requires s * s == 0real; }' if name == 'RmsEnvDetector' else '')
_c04 = LD_LEMMAS + ''.join(_clr(n, ' + FloatConst' if n in RBJ_TYPES else '') for n in ALLP + ['Delay', 'LinearDelay'])
prop('C04', ALLP + ['Delay'] + LD,
     FLOATCONST + PROCESSOR + sum([api(t) for t in ALLP], [])
     + dsel('Delay', 'new', 'set_delay', 'set_max_delay', *PROC) + dsel('LinearDelay', 'new', 'set_delay', 'set_max_delay', 'next_out', *PROC),
     _c04, traits=('FloatConst', 'Processor'))

# ---- C05 -------------------------------------------------------------------
# The default method is verified for an arbitrary implementor: `step` is whatever its process does.
# A type that overrides process_block is checked against the contract of its own process.
def _c05_dyn(ex, P):
    over = [f['key'] for f in ex['fns'] if f['name'] == 'process_block' and f['trait'] == 'Processor' and f['ty']]
    types, fns = [], list(P.base_fns)
    for k in over:
        t = k.split('::')[0]
        if t not in TYPES: continue
        if t in RBJ_TYPES and 'Biquad2' not in types: types.append('Biquad2'); fns += dsel('Biquad2', *PROC)
        if t not in types: types.append(t); fns += dsel(t, *PROC)
        if t == 'LinearDelay': fns.append('LinearDelay::next_out')
        fns.append(k)
    return types, fns
prop('C05', [], PROCESSOR + ['Processor::process_block'], ENV_SPEC + LD_LEMMAS, traits=('FloatConst', 'Processor'))
PROPS['C05'].base_fns = FLOATCONST + PROPS['C05'].fns
PROPS['C05'].fns = PROPS['C05'].base_fns
PROPS['C05'].dynamic = _c05_dyn
PROPS['C05'].all_types = ALLP + ['Delay', 'LinearDelay']
PROPS['C05'].request = [t + '::process_block' for t in PROPS['C05'].all_types]

# ---- C11 -------------------------------------------------------------------
_c11 = '''
pub proof fn lemma_between(p: real, x: real, a: real, lo: real, hi: real)
    requires 0real <= a, a < 1real, lo <= p, p <= hi, lo <= x, x <= hi
    ensures lo <= x + a * (p - x), x + a * (p - x) <= hi
{
    assert(x + a * (p - x) == (1real - a) * x + a * p) by (nonlinear_arith);
    assert((1real - a) * x + a * p >= (1real - a) * lo + a * lo) by (nonlinear_arith) requires 0real <= a, a < 1real, lo <= p, lo <= x;
    assert((1real - a) * x + a * p <= (1real - a) * hi + a * hi) by (nonlinear_arith) requires 0real <= a, a < 1real, p <= hi, x <= hi;
    assert((1real - a) * lo + a * lo == lo) by (nonlinear_arith);
    assert((1real - a) * hi + a * hi == hi) by (nonlinear_arith);
}
pub enum Op<T> { Push(T), SetAlpha(T), Clear }
/// for every history: the decay stays in [0, 1), bad values are ignored, the output stays within the inputs' range (and zero)
#[verifier::loop_isolation(false)]
pub fn history_leaky<T: Float>(ops: &Vec<Op<T>>, lo: Ghost<real>, hi: Ghost<real>)
    requires lo@ <= 0real, 0real <= hi@, forall|i: int| 0 <= i < ops@.len() && #[trigger] ops@[i] is Push ==> ops@[i]->Push_0.fin() && lo@ <= ops@[i]->Push_0.v() && ops@[i]->Push_0.v() <= hi@
{
    let mut f = LeakyIntegrator::<T>::new();
    let mut i: usize = 0;
    while i < ops.len()
        invariant i <= ops@.len(), f.wf(), f.y_z1.fin(), lo@ <= f.y_z1.v(), f.y_z1.v() <= hi@
        decreases ops@.len() - i
    {
        match &ops[i] {
            Op::Push(x) => {
                proof { assert(ops@[i as int] is Push); lemma_between(f.y_z1.v(), x.v(), f.alpha.v(), lo@, hi@); }
                let ghost pre = f;
                let y = f.process(*x);
                assert(y.fin() && y.v() == x.v() + pre.alpha.v() * (pre.y_z1.v() - x.v()));
                assert(lo@ <= y.v() && y.v() <= hi@);
            }
            Op::SetAlpha(a) => {
                let b = f.get_alpha();
                f.set_alpha(*a);
                let c = f.get_alpha();
                assert(c.fin() && 0real <= c.v() && c.v() < 1real);
                assert(c == *a || c == b);
            }
            Op::Clear => { f.clear(); }
        }
        i = i + 1;
    }
}
'''
prop('C11', ['LeakyIntegrator'], PROCESSOR + LI, _c11, nl=2)

# ---- C12 -------------------------------------------------------------------
def _envhist(name, lvl, out):
    return '''
/// for every history: the level never goes negative, never leaves the range of the levels fed, and moves towards the current one
#[verifier::loop_isolation(false)]
pub fn history_{l}<T: Float>(ops: &Vec<Op<T>>, hi: Ghost<real>)
    requires 0real <= hi@, forall|i: int| 0 <= i < ops@.len() && #[trigger] ops@[i] is Push ==> ops@[i]->Push_0.fin() && {lv_i} <= hi@
{{
    let mut f = {name}::<T>::new();
    let mut i: usize = 0;
    while i < ops.len()
        invariant i <= ops@.len(), f.wf(), f.envelope.fin(), 0real <= f.envelope.v(), f.envelope.v() <= hi@
        decreases ops@.len() - i
    {{
        match &ops[i] {{
            Op::Push(x) => {{
                let ghost pre = f;
                proof {{
                    assert(ops@[i as int] is Push);
                    assert({lv} >= 0real) by (nonlinear_arith);
                    lemma_follow(f.envelope.v(), {lv}, f.attack_gain.v(), f.release_gain.v());
                }}
                let y = f.process(*x);
                assert(y.fin() && {out});
                assert(f.envelope.v() == follow(pre.envelope.v(), {lv}, pre.attack_gain.v(), pre.release_gain.v()));
                assert(0real <= f.envelope.v() && f.envelope.v() <= hi@);
                assert(pre.envelope.v() <= {lv} ==> pre.envelope.v() <= f.envelope.v() && f.envelope.v() <= {lv});
                assert({lv} <= pre.envelope.v() ==> {lv} <= f.envelope.v() && f.envelope.v() <= pre.envelope.v());
            }}
            Op::SetAttack(t) => {{ f.set_attack(*t); let g = f.get_attack_gain(); assert(t.fin() && t.v() > 0real ==> g.v() == r_exp(-1real / t.v())); assert(0real <= g.v() && g.v() < 1real); }}
            Op::SetRelease(t) => {{ f.set_release(*t); let g = f.get_release_gain(); assert(t.fin() && t.v() > 0real ==> g.v() == r_exp(-1real / t.v())); assert(0real <= g.v() && g.v() < 1real); }}
            Op::Clear => {{ f.clear(); }}
        }}
        i = i + 1;
    }}
}}
'''.format(name=name, l=name.lower(), lv=lvl.replace('X', 'x'), lv_i=lvl.replace('X', 'ops@[i]->Push_0'), out=out)
_c12 = ENV_SPEC + '''
pub enum Op<T> { Push(T), SetAttack(T), SetRelease(T), Clear }
pub proof fn lemma_follow(e: real, u: real, at: real, re: real)
    requires e >= 0real, u >= 0real, 0real <= at, at < 1real, 0real <= re, re < 1real
    ensures e <= u ==> e <= follow(e, u, at, re) && follow(e, u, at, re) <= u,
        u <= e ==> u <= follow(e, u, at, re) && follow(e, u, at, re) <= e,
{
    let g = if e < u { at } else { re };
    let r = u + g * (e - u);
    assert(e <= u ==> g * (e - u) <= 0real && g * (e - u) >= e - u) by (nonlinear_arith) requires 0real <= g, g < 1real;
    assert(u <= e ==> g * (e - u) >= 0real && g * (e - u) <= e - u) by (nonlinear_arith) requires 0real <= g, g < 1real;
}
''' + _envhist('PeakEnvDetector', 'r_abs(X.v())', 'y == f.envelope') + _envhist('RmsEnvDetector', '(X.v() * X.v())', 'y.v() == r_sqrt(f.envelope.v())')
prop('C12', ENVS, PROCESSOR + ENV_FNS, _c12)

# ---------------------------------------------------------------------------
# windows
# ---------------------------------------------------------------------------
WINDOWS = {
    'TriangularIter': '1real - r_abs((i as real - (n - 1) as real / 2real) / (n as real / 2real))',
    'BartlettIter': 'if n == 1 { 1real } else { 1real - r_abs((i as real - (n - 1) as real / 2real) / ((n - 1) as real / 2real)) }',
    'HannIter': 'if n == 1 { 1real } else { 0.5real * (1real - r_cos(w_theta(n, i))) }',
    'HammingIter': 'if n == 1 { 1real } else { 0.54real - 0.46real * r_cos(w_theta(n, i)) }',
    'BlackmanIter': 'if n == 1 { 1real } else { 0.42real - 0.5real * r_cos(w_theta(n, i)) + 0.08real * r_cos(2real * w_theta(n, i)) }',
    'BlackmanHarrisIter': 'if n == 1 { 1real } else { 0.35875real - 0.48829real * r_cos(w_theta(n, i)) + 0.14128real * r_cos(2real * w_theta(n, i)) - 0.01168real * r_cos(3real * w_theta(n, i)) }',
}
WIN_SPECS = '''
/// angle of sample i of an n sample window
pub open spec fn w_theta(n: int, i: int) -> real { 2real * r_pi() * (i as real) / ((n - 1) as real) }
''' + ''.join('pub open spec fn w_%s(n: int, i: int) -> real { %s }\n' % (w[:-4].lower(), e) for w, e in WINDOWS.items())
TRAITS['VIter'] = dict(external=True, head='''
/// std::iter::Iterator and ExactSizeIterator with the contract of an exact iterator over `total` items, `idx` of them taken
pub trait VIter: Sized {
    type Item: NumCast;
    spec fn idx(self) -> int;
    spec fn total(self) -> int;
    spec fn val(n: int, i: int) -> real;
    spec fn iwf(self) -> bool;
    fn next(&mut self) -> (r: Option<Self::Item>)
        requires old(self).iwf(),
        ensures final(self).iwf(), final(self).total() == old(self).total(),
            old(self).idx() < old(self).total() ==> r is Some && final(self).idx() == old(self).idx() + 1,
            old(self).idx() >= old(self).total() ==> r is None && final(self).idx() == old(self).idx(),''',
    specs=[('C15 C17', '''        r is Some ==> r->Some_0.fin() && r->Some_0.v() == Self::val(old(self).total(), old(self).idx()),'''),
           ('base', '''    ;
    fn size_hint(&self) -> (r: (usize, Option<usize>))
        requires self.iwf(),'''),
           ('C16', '''        ensures r.0 == self.total() - self.idx(), r.1 == Some((self.total() - self.idx()) as usize),'''), ('base', '    ;')])
TRAITS['VExact'] = dict(external=True, head='''pub trait VExact: VIter {
    fn len(&self) -> (r: usize)
        requires self.iwf(),''', specs=[('C16', '        ensures r == self.total() - self.idx(),'), ('base', '    ;')])
for _w, _e in WINDOWS.items():
    ty(_w, [('index', 'usize'), ('size', 'usize'), ('phantom', 'PhantomData<T>')], generics='<T: Float + FloatConst>')
    TRAIT_SPECS[('VIter', _w)] = [
        ('base', 'open spec fn idx(self) -> int { self.index as int }'),
        ('base', 'open spec fn total(self) -> int { self.size as int }'),
        ('C15 C16 C19', 'open spec fn val(n: int, i: int) -> real { %s }' % ('w_%s(n, i)' % _w[:-4].lower())),
        ('C17', 'uninterp spec fn val(n: int, i: int) -> real;'),
        ('base', 'open spec fn iwf(self) -> bool { self.index <= self.size }')]
    fn(_w + '::new', ensures=[('base', '$r.iwf() && $r.idx() == 0 && $r.total() == $1')])
    fn(_w + '::next')
    fn(_w + '::size_hint')
    fn(_w + '::len')
WIN_TYPES = list(WINDOWS)
WIN_TR = ('FloatConst', 'VIter', 'VExact')
def wapi(*fs): return [w + '::' + f for w in WIN_TYPES for f in fs]

# ---- C16 -------------------------------------------------------------------
_c16 = WIN_SPECS + '''
/// any exact iterator of the crate: n values, then None for ever; the reported length is what remains
#[verifier::loop_isolation(false)]
pub fn drained<I: VExact>(it: &mut I, extra: usize)
    requires old(it).iwf(), old(it).idx() == 0, 0 <= old(it).total() <= usize::MAX
{
    let mut k: usize = 0;
    let ghost n = it.total();
    let mut more = true;
    while more
        invariant it.iwf(), it.total() == n, it.idx() == k, k <= n, n <= usize::MAX, !more ==> k == n,
        decreases n - k, if more { 1int } else { 0int }
    {
        let l = it.len();
        let (a, b) = it.size_hint();
        assert(l == n - k && a == l && b == Some(l));
        let x = it.next();
        if x.is_none() { assert(k == n); more = false; }
        else { assert(k < n); k = k + 1; }
    }
    let mut j: usize = 0;
    while j < extra
        invariant it.iwf(), it.total() == n, it.idx() == n, j <= extra,
        decreases extra - j
    {
        let x = it.next();
        assert(x is None);
        let l = it.len();
        assert(l == 0);
        j = j + 1;
    }
}
'''
prop('C16', WIN_TYPES, FLOATCONST + wapi('new', 'next', 'size_hint', 'len'), _c16, traits=WIN_TR)

# ---- C17 -------------------------------------------------------------------
ty('Window', [(w[:-4], '') for w in WIN_TYPES] + [('Rectangular', '')], generics='', self_ty='Window')
fn('apply_window', carried={'int': ['{c} == {i}']}, ensures=[
    ('C17', 'final($1)@.len() == old($1)@.len()'),
    ('C17', '''forall|j: int| 0 <= j < old($1)@.len() && old($1)@[j].fin() && !($2 is Rectangular) ==> (#[trigger] final($1)@[j]).fin()
            && final($1)@[j].v() == old($1)@[j].v() * w_gain(old($1)@[j], $2, old($1)@.len() as int, j)'''),
    ('C17', '$2 is Rectangular ==> final($1)@ == old($1)@')],
   loop=[('base', '''
        $1@.len() == old($1)@.len(),
        {hi} == $1@.len(),
        {i} <= $1@.len(),
        {it}.iwf() && {it}.total() == $1@.len() && {it}.idx() == {i},'''), ('C17', '''
        forall|j: int| {i} <= j < $1@.len() ==> $1@[j] == old($1)@[j],
        forall|j: int| 0 <= j < {i} && old($1)@[j].fin() ==> (#[trigger] $1@[j]).fin() && $1@[j].v() == old($1)@[j].v() * val_of({it}, old($1)@.len() as int, j),
''')])
_c17 = '''
pub open spec fn val_of<I: VIter>(it: I, n: int, i: int) -> real { I::val(n, i) }
pub open spec fn w_gain<T: Float + FloatConst>(s: T, w: Window, n: int, i: int) -> real {
    match w {
        Window::Rectangular => 1real,
''' + ''.join('        Window::%s => %s::<T>::val(n, i),\n' % (w[:-4], w) for w in WIN_TYPES) + '''    }
}
'''
prop('C17', WIN_TYPES + ['Window'], FLOATCONST + wapi('new', 'next', 'size_hint', 'len') + ['apply_window'], _c17, traits=WIN_TR, nl=2)
PROPS['C17'].assume = {w + '::' + f: 'decided by C15 and C16' for w in WIN_TYPES for f in ('next', 'size_hint', 'len')}

# ---- C15 -------------------------------------------------------------------

_c15 = WIN_SPECS + '''
/// the angle of the mirrored sample
pub proof fn lemma_mirror(n: int, i: int)
    requires 2 <= n, 0 <= i < n
    ensures r_cos(w_theta(n, n - 1 - i)) == r_cos(w_theta(n, i))
{
    let m = (n - 1) as real;
    let (x, p) = (i as real, r_pi());
    assert((n - 1 - i) as real == m - x);
    assert(2real * p * (m - x) / m == 2real * p - 2real * p * x / m) by (nonlinear_arith) requires m > 0real;
    ax_cos_reflect(w_theta(n, i));
}
/// every window is symmetric
pub proof fn thm_symmetric(n: int, i: int)
    requires 1 <= n, 0 <= i < n
    ensures SYM
{
    let x = i as real - (n - 1) as real / 2real;
    let y = (n - 1 - i) as real - (n - 1) as real / 2real;
    assert(y == -x);
    let h = n as real / 2real;
    assert(r_abs(x / h) == r_abs(y / h)) by (nonlinear_arith) requires y == -x, h > 0real;
    if n >= 2 {
        let h2 = (n - 1) as real / 2real;
        assert(r_abs(x / h2) == r_abs(y / h2)) by (nonlinear_arith) requires y == -x, h2 > 0real;
        lemma_mirror(n, i);
        ax_cos_double(w_theta(n, i)); ax_cos_double(w_theta(n, n - 1 - i));
        ax_cos_triple(w_theta(n, i)); ax_cos_triple(w_theta(n, n - 1 - i));
    }
}
/// every value lies in [0, 1]
pub proof fn thm_range(n: int, i: int)
    requires 1 <= n, 0 <= i < n
    ensures RNG
{
    let x = i as real - (n - 1) as real / 2real;
    let h = n as real / 2real;
    assert(-h <= x && x <= h);
    let q = x / h;
    assert(-1real <= q && q <= 1real) by (nonlinear_arith) requires q == x / h, h > 0real, -h <= x, x <= h;
    if n >= 2 {
        let h2 = (n - 1) as real / 2real;
        let q2 = x / h2;
        assert(-1real <= q2 && q2 <= 1real) by (nonlinear_arith) requires q2 == x / h2, h2 > 0real, -h2 <= x, x <= h2;
        let th = w_theta(n, i);
        let c = r_cos(th);
        ax_cos_double(th); ax_cos_triple(th);
        // Blackman: (1 - c) * (0.34 - 0.16 c);  1 - value = (1 + c) * (0.66 - 0.16 c)
        assert(0.34real - 0.5real * c + 0.16real * c * c == (1real - c) * (0.34real - 0.16real * c)) by (nonlinear_arith);
        assert((1real - c) * (0.34real - 0.16real * c) >= 0real) by (nonlinear_arith) requires -1real <= c, c <= 1real;
        assert(1real - (0.34real - 0.5real * c + 0.16real * c * c) == (1real + c) * (0.66real - 0.16real * c)) by (nonlinear_arith);
        assert((1real + c) * (0.66real - 0.16real * c) >= 0real) by (nonlinear_arith) requires -1real <= c, c <= 1real;
        // Blackman-Harris as a polynomial in c
        let v = 0.35875real - 0.48829real * c + 0.14128real * (2real * c * c - 1real) - 0.01168real * (4real * c * c * c - 3real * c);
        let d = 1real - c;
        assert(v == 0.00006real + d * (0.02829real + 0.1424real * d + 0.04672real * d * d)) by (nonlinear_arith) requires d == 1real - c, v == 0.35875real - 0.48829real * c + 0.14128real * (2real * c * c - 1real) - 0.01168real * (4real * c * c * c - 3real * c);
        assert(v >= 0real) by (nonlinear_arith) requires v == 0.00006real + d * (0.02829real + 0.1424real * d + 0.04672real * d * d), d >= 0real;
        let e = 1real + c;
        assert(1real - v == e * (1.15853real - 0.42272real * e + 0.04672real * e * e)) by (nonlinear_arith) requires e == 1real + c, v == 0.35875real - 0.48829real * c + 0.14128real * (2real * c * c - 1real) - 0.01168real * (4real * c * c * c - 3real * c);
        assert(1real - v >= 0real) by (nonlinear_arith) requires 1real - v == e * (1.15853real - 0.42272real * e + 0.04672real * e * e), 0real <= e, e <= 2real;
    }
}
/// half overlapping copies add up to a constant
pub proof fn thm_overlap(m: int, i: int)
    requires 1 <= m, 0 <= i < m
    ensures
        w_hann(2 * m + 1, i) + w_hann(2 * m + 1, i + m) == 1real,
        w_hamming(2 * m + 1, i) + w_hamming(2 * m + 1, i + m) == 1.08real,
        w_bartlett(2 * m + 1, i) + w_bartlett(2 * m + 1, i + m) == 1real,
        w_triangular(2 * m, i) + w_triangular(2 * m, i + m) == 1real,
{
    let (x, mm, p) = (i as real, m as real, r_pi());
    assert((2 * m + 1 - 1) as real == 2real * mm);
    assert((i + m) as real == x + mm);
    assert(2real * p * (x + mm) / (2real * mm) == 2real * p * x / (2real * mm) + p) by (nonlinear_arith) requires mm > 0real;
    ax_cos_half_turn(w_theta(2 * m + 1, i));
    let q = x / mm;
    assert(0real <= q && q <= 1real) by (nonlinear_arith) requires q == x / mm, 0real <= x, x <= mm, mm > 0real;
    assert((x - mm) / mm == q - 1real) by (nonlinear_arith) requires q == x / mm, mm > 0real;
    assert((x + mm - mm) / mm == q) by (nonlinear_arith) requires q == x / mm, mm > 0real;
    let h = (2real * mm - 1real) / 2real;
    assert((2 * m - 1) as real == 2real * mm - 1real);
    let (a, b) = ((x - h) / mm, (x + mm - h) / mm);
    assert(x <= mm - 1real);
    assert(b - a == 1real) by (nonlinear_arith) requires a == (x - h) / mm, b == (x + mm - h) / mm, mm > 0real;
    assert(a <= 0real) by (nonlinear_arith) requires a == (x - h) / mm, x - h <= 0real, mm > 0real;
    assert(b >= 0real) by (nonlinear_arith) requires b == (x + mm - h) / mm, x + mm - h >= 0real, mm > 0real;
}
'''.replace('SYM', ', '.join('w_%s(n, n - 1 - i) == w_%s(n, i)' % ((w[:-4].lower(),) * 2) for w in WIN_TYPES)).replace(
    'RNG', ', '.join('0real <= w_%s(n, i), w_%s(n, i) <= 1real' % ((w[:-4].lower(),) * 2) for w in WIN_TYPES))
prop('C15', WIN_TYPES, FLOATCONST + wapi('new', 'next', 'size_hint', 'len'), _c15, traits=WIN_TR, nl=2)
PROPS['C15'].assume = {w + '::' + f: 'decided by C16' for w in WIN_TYPES for f in ('size_hint', 'len')}

# ---- C13 -------------------------------------------------------------------
prop('C13', ['Biquad2'] + RBJ_TYPES, FLOATCONST + PROCESSOR + B2 + RBJ_FNS, RBJ_SPECS, nl=2, traits=('FloatConst', 'Processor'))

# ---------------------------------------------------------------------------
def hoist(text):
    """moves each `assert(E) by (nonlinear_arith) requires R;` into a lemma over plain real variables, so that the
    nonlinear query sees nothing else; the call site proves R and receives E"""
    out, lemmas, n = [], [], 0
    pat = _re.compile(r'assert\((.*)\) by \(nonlinear_arith\)(?: requires (.*))?;$')
    ident = _re.compile(r'(?<![\w.@])(?!\d)[a-z]\w*(?:\.\w+(?:\(\))?)*(?!\w|\s*\()')
    for l in text.split('\n'):
        m = pat.match(l.strip())
        if not m: out.append(l); continue
        e, r = m.group(1), m.group(2) or 'true'
        names = []
        for x in ident.findall(e + ' , ' + r):
            if x not in names and x not in ('true', 'false', 'real'): names.append(x)
        ren = {x: 'v%d' % i for i, x in enumerate(names)}
        f = lambda t: ident.sub(lambda mm: ren.get(mm.group(0), mm.group(0)), t)
        n += 1
        lemmas.append('#[verifier::spinoff_prover]\npub proof fn nl_%d(%s)\n    requires %s\n    ensures %s\n{\n    assert(%s) by (nonlinear_arith) requires %s;\n}' % (
            n, ', '.join('%s: real' % v for v in ren.values()), f(r), f(e), f(e), f(r)))
        out.append('    nl_%d(%s); assert(%s);' % (n, ', '.join(names), e))
    return '\n'.join(out) + '\n', 'pub mod nl {\nuse vstd::prelude::*;\n' + '\n'.join(lemmas) + '\n}\n'

# ---- C14 -------------------------------------------------------------------
_gain = {  # DC numerator/denominator gain, Nyquist gain, |H(centre)| (None: not stated)
    'LowPass': ('1real', '0real', 'q'), 'HighPass': ('0real', '1real', 'q'), 'BandPass1': ('0real', '0real', 'q'),
    'BandPass2': ('0real', '0real', '1real'), 'BandStop': ('1real', '1real', '0real'), 'AllPass': ('1real', '1real', '1real'),
    'Peak': ('1real', '1real', 'ck_a(db) * ck_a(db)'), 'LowShelf': ('ck_a(db) * ck_a(db)', '1real', None), 'HighShelf': ('1real', 'ck_a(db) * ck_a(db)', None)}
_c14 = '''
/// both poles lie inside the unit circle (the stability triangle)
pub open spec fn stable<T: Float>(b: Biquad2<T>) -> bool {
    b.a2.v() < 1real && -1real < b.a2.v() && b.a1.v() < 1real + b.a2.v() && -b.a1.v() < 1real + b.a2.v()
}
/// gain at 0 Hz, and at half the sample rate
pub open spec fn dc_gain<T: Float>(b: Biquad2<T>, g: real) -> bool {
    1real + b.a1.v() + b.a2.v() != 0real && b.b0.v() + b.b1.v() + b.b2.v() == g * (1real + b.a1.v() + b.a2.v())
}
pub open spec fn ny_gain<T: Float>(b: Biquad2<T>, g: real) -> bool {
    1real - b.a1.v() + b.a2.v() != 0real && b.b0.v() - b.b1.v() + b.b2.v() == g * (1real - b.a1.v() + b.a2.v())
}
/// real and imaginary part of e^jw (p0 + p1 e^-jw + p2 e^-2jw)
pub open spec fn re(p0: real, p1: real, p2: real, c: real) -> real { (p0 + p2) * c + p1 }
pub open spec fn im(p0: real, p2: real, s: real) -> real { (p0 - p2) * s }
/// |H(e^jw)| == g, where c = cos w and s = sin w
pub open spec fn mag<T: Float>(b: Biquad2<T>, c: real, s: real, g: real) -> bool {
    let (nr, ni) = (re(b.b0.v(), b.b1.v(), b.b2.v(), c), im(b.b0.v(), b.b2.v(), s));
    let (dr, di) = (re(1real, b.a1.v(), b.a2.v(), c), im(1real, b.a2.v(), s));
    dr * dr + di * di > 0real && nr * nr + ni * ni == g * g * (dr * dr + di * di)
}
pub proof fn lemma_stable<T: Float>(b: Biquad2<T>, k: Ck)
    requires is_ck(b, k), k.a0 > 0real, k.a2 < k.a0, -k.a0 < k.a2, k.a1 < k.a0 + k.a2, -k.a1 < k.a0 + k.a2
    ensures stable(b), 1real + b.a1.v() + b.a2.v() > 0real, 1real - b.a1.v() + b.a2.v() > 0real
{
    let (a0, a1, a2) = (k.a0, b.a1.v(), b.a2.v());
    assert(a2 < 1real) by (nonlinear_arith) requires a2 * a0 < a0, a0 > 0real;
    assert(-1real < a2) by (nonlinear_arith) requires a2 * a0 > -a0, a0 > 0real;
    assert(a1 < 1real + a2) by (nonlinear_arith) requires a1 * a0 < a0 + a2 * a0, a0 > 0real;
    assert(-a1 < 1real + a2) by (nonlinear_arith) requires -(a1 * a0) < a0 + a2 * a0, a0 > 0real;
}
pub proof fn lemma_dc<T: Float>(b: Biquad2<T>, k: Ck, g: real)
    requires is_ck(b, k), k.a0 > 0real, 1real + b.a1.v() + b.a2.v() > 0real, k.b0 + k.b1 + k.b2 == g * (k.a0 + k.a1 + k.a2)
    ensures dc_gain(b, g)
{
    let (a0, n, d) = (k.a0, b.b0.v() + b.b1.v() + b.b2.v(), 1real + b.a1.v() + b.a2.v());
    assert(n * a0 == k.b0 + k.b1 + k.b2) by (nonlinear_arith) requires n == b.b0.v() + b.b1.v() + b.b2.v(), b.b0.v() * a0 == k.b0, b.b1.v() * a0 == k.b1, b.b2.v() * a0 == k.b2;
    assert(d * a0 == k.a0 + k.a1 + k.a2) by (nonlinear_arith) requires d == 1real + b.a1.v() + b.a2.v(), a0 == k.a0, b.a1.v() * a0 == k.a1, b.a2.v() * a0 == k.a2;
    assert(n == g * d) by (nonlinear_arith) requires n * a0 == g * (d * a0), a0 > 0real;
}
pub proof fn lemma_ny<T: Float>(b: Biquad2<T>, k: Ck, g: real)
    requires is_ck(b, k), k.a0 > 0real, 1real - b.a1.v() + b.a2.v() > 0real, k.b0 - k.b1 + k.b2 == g * (k.a0 - k.a1 + k.a2)
    ensures ny_gain(b, g)
{
    let (a0, n, d) = (k.a0, b.b0.v() - b.b1.v() + b.b2.v(), 1real - b.a1.v() + b.a2.v());
    assert(n * a0 == k.b0 - k.b1 + k.b2) by (nonlinear_arith) requires n == b.b0.v() - b.b1.v() + b.b2.v(), b.b0.v() * a0 == k.b0, b.b1.v() * a0 == k.b1, b.b2.v() * a0 == k.b2;
    assert(d * a0 == k.a0 - k.a1 + k.a2) by (nonlinear_arith) requires d == 1real - b.a1.v() + b.a2.v(), a0 == k.a0, b.a1.v() * a0 == k.a1, b.a2.v() * a0 == k.a2;
    assert(n == g * d) by (nonlinear_arith) requires n * a0 == g * (d * a0), a0 > 0real;
}
/// at any frequency: from the unnormalised coefficients to the filter's
pub proof fn lemma_mag<T: Float>(b: Biquad2<T>, k: Ck, c: real, s: real, g: real, nr: real, ni: real, dr: real, di: real)
    requires is_ck(b, k), k.a0 > 0real,
        nr == re(k.b0, k.b1, k.b2, c), ni == im(k.b0, k.b2, s), dr == re(k.a0, k.a1, k.a2, c), di == im(k.a0, k.a2, s),
        dr * dr + di * di > 0real, nr * nr + ni * ni == g * g * (dr * dr + di * di)
    ensures mag(b, c, s, g)
{
    let a0 = k.a0;
    let (mr, mi) = (re(b.b0.v(), b.b1.v(), b.b2.v(), c), im(b.b0.v(), b.b2.v(), s));
    let (er, ei) = (re(1real, b.a1.v(), b.a2.v(), c), im(1real, b.a2.v(), s));
    let (b0, b1, b2, a1, a2) = (b.b0.v(), b.b1.v(), b.b2.v(), b.a1.v(), b.a2.v());
    assert(nr == mr * a0) by (nonlinear_arith) requires nr == (b0 * a0 + b2 * a0) * c + b1 * a0, mr == (b0 + b2) * c + b1;
    assert(ni == mi * a0) by (nonlinear_arith) requires ni == (b0 * a0 - b2 * a0) * s, mi == (b0 - b2) * s;
    assert(dr == er * a0) by (nonlinear_arith) requires dr == (a0 + a2 * a0) * c + a1 * a0, er == (1real + a2) * c + a1;
    assert(di == ei * a0) by (nonlinear_arith) requires di == (a0 - a2 * a0) * s, ei == (1real - a2) * s;
    let (m, e, x) = (mr * mr + mi * mi, er * er + ei * ei, a0 * a0);
    assert(nr * nr + ni * ni == m * x) by (nonlinear_arith) requires nr == mr * a0, ni == mi * a0, m == mr * mr + mi * mi, x == a0 * a0;
    assert(dr * dr + di * di == e * x) by (nonlinear_arith) requires dr == er * a0, di == ei * a0, e == er * er + ei * ei, x == a0 * a0;
    assert(x > 0real) by (nonlinear_arith) requires x == a0 * a0, a0 > 0real;
    assert(e > 0real) by (nonlinear_arith) requires e * x > 0real, x > 0real;
    assert(m == g * g * e) by (nonlinear_arith) requires m * x == g * g * (e * x), x > 0real;
}
pub proof fn lemma_open(sr: real, f: real)
    requires sr > 0real, f > 0real, 2real * f < sr
    ensures r_sin(ck_w0(sr, f)) > 0real, -1real < r_cos(ck_w0(sr, f)), r_cos(ck_w0(sr, f)) < 1real
{
    lemma_w0(sr, f);
    let (c, s) = (r_cos(ck_w0(sr, f)), r_sin(ck_w0(sr, f)));
    assert(-1real < c && c < 1real) by (nonlinear_arith) requires c * c + s * s == 1real, s > 0real;
}
'''
_centre = {
    # proof of the magnitude at the centre frequency: (num re, num im, den re, den im) values and the steps
    'LowPass': ('''
        assert(nr == s * s) by (nonlinear_arith) requires nr == ((1real - c) / 2real + (1real - c) / 2real) * c + (1real - c), c * c + s * s == 1real;'''),
    'HighPass': ('''
        assert(nr == -(s * s)) by (nonlinear_arith) requires nr == ((1real + c) / 2real + (1real + c) / 2real) * c - (1real + c), c * c + s * s == 1real;'''),
}
def _c14_one(n):
    p, ck = RBJ[n]
    dc, ny, ce = _gain[n]
    args = ', '.join(p)
    params = ', '.join('%s: real' % x for x in p)
    dom = 'sr > 0real, f > 0real, 2real * f < sr' + (', q > 0real' if 'q' in p else ', 0real < s, s <= 1real')
    d = 'dom_%s(%s);' % ('q' if p == _q else 'g' if p == _g else 's', args)
    t = '''
pub proof fn thm_%(l)s<T: Float>(b: Biquad2<T>, %(params)s)
    requires %(dom)s, is_ck(b, ck_%(l)s(%(args)s))
    ensures stable(b), dc_gain(b, %(dc)s), ny_gain(b, %(ny)s)%(mag)s%(allp)s
{
    %(d)s
    lemma_open(sr, f);
    let k = ck_%(l)s(%(args)s);
    let (c, sn) = (r_cos(ck_w0(sr, f)), r_sin(ck_w0(sr, f)));
    %(body)s
    lemma_stable(b, k);
    lemma_dc(b, k, %(dc)s);
    lemma_ny(b, k, %(ny)s);
    %(ctr)s
}
'''
    body, ctr, allp = '', '', ''
    if p != _s:
        body = 'let al = ck_alpha_q(sr, f, q);\n    '
        if p == _g:
            body += 'let a = ck_a(db);\n    let y = al / a;\n    assert(y * a == al) by (nonlinear_arith) requires y == al / a, a > 0real;'
        den = 'y' if p == _g else 'al'
        # al * 2q == sin
        ctr = 'assert(al * (2real * q) == sn) by (nonlinear_arith) requires al == sn / (2real * q), q > 0real;\n    '
        ctr += 'let (nr, ni) = (re(k.b0, k.b1, k.b2, c), im(k.b0, k.b2, sn));\n    let (dr, di) = (re(k.a0, k.a1, k.a2, c), im(k.a0, k.a2, sn));\n    '
        ctr += 'assert(dr == 0real) by (nonlinear_arith) requires dr == (1real + %s + (1real - %s)) * c - 2real * c;\n    ' % (den, den)
        ctr += 'assert(di == 2real * %s * sn) by (nonlinear_arith) requires di == (1real + %s - (1real - %s)) * sn;\n    ' % (den, den, den)
        ctr += 'assert(di > 0real) by (nonlinear_arith) requires di == 2real * %s * sn, %s > 0real, sn > 0real;\n    ' % (den, den)
        sq = 'assert(dr * dr + di * di > 0real) by (nonlinear_arith) requires dr == 0real, di > 0real;\n    '
        if n == 'LowPass':
            ctr += '''assert(nr == sn * sn) by (nonlinear_arith) requires nr == ((1real - c) / 2real + (1real - c) / 2real) * c + (1real - c), c * c + sn * sn == 1real;
    assert(ni == 0real) by (nonlinear_arith) requires ni == ((1real - c) / 2real - (1real - c) / 2real) * sn;
    assert(nr == q * di) by (nonlinear_arith) requires nr == sn * sn, di == 2real * al * sn, al * (2real * q) == sn;
    '''
        elif n == 'HighPass':
            ctr += '''assert(nr == -(sn * sn)) by (nonlinear_arith) requires nr == ((1real + c) / 2real + (1real + c) / 2real) * c - (1real + c), c * c + sn * sn == 1real;
    assert(ni == 0real) by (nonlinear_arith) requires ni == ((1real + c) / 2real - (1real + c) / 2real) * sn;
    assert(nr == -(q * di)) by (nonlinear_arith) requires nr == -(sn * sn), di == 2real * al * sn, al * (2real * q) == sn;
    '''
        elif n == 'BandPass1':
            ctr += '''assert(nr == 0real) by (nonlinear_arith) requires nr == (q * al - q * al) * c + 0real;
    assert(ni == q * di) by (nonlinear_arith) requires ni == (q * al + q * al) * sn, di == 2real * al * sn;
    '''
        elif n == 'BandPass2':
            ctr += '''assert(nr == 0real) by (nonlinear_arith) requires nr == (al - al) * c + 0real;
    assert(ni == 1real * di) by (nonlinear_arith) requires ni == (al + al) * sn, di == 2real * al * sn;
    '''
        elif n == 'BandStop':
            ctr += '''assert(nr == 0real) by (nonlinear_arith) requires nr == (1real + 1real) * c - 2real * c;
    assert(ni == 0real * di) by (nonlinear_arith) requires ni == (1real - 1real) * sn;
    '''
        elif n == 'AllPass':
            ctr += '''assert(nr == 0real) by (nonlinear_arith) requires nr == ((1real - al) + (1real + al)) * c - 2real * c;
    assert(ni == -(1real * di)) by (nonlinear_arith) requires ni == ((1real - al) - (1real + al)) * sn, di == 2real * al * sn;
    '''
        elif n == 'Peak':
            ctr += '''assert(nr == 0real) by (nonlinear_arith) requires nr == ((1real + al * a) + (1real - al * a)) * c - 2real * c;
    assert(ni == (a * a) * di) by (nonlinear_arith) requires ni == ((1real + al * a) - (1real - al * a)) * sn, di == 2real * y * sn, y * a == al;
    '''
        ctr += sq + '''let g = %s;
    assert(nr * nr + ni * ni == g * g * (dr * dr + di * di)) by (nonlinear_arith) requires dr == 0real, nr == 0real && (ni == g * di || ni == -(g * di)) || ni == 0real && (nr == g * di || nr == -(g * di));
    lemma_mag(b, k, c, sn, g, nr, ni, dr, di);''' % ce
        if n == 'AllPass':
            allp = ',\n        forall|cc: real, ss: real| cc * cc + ss * ss == 1real ==> #[trigger] flat(b, cc, ss)'
            ctr += '''
    assert forall|cc: real, ss: real| cc * cc + ss * ss == 1real implies #[trigger] flat(b, cc, ss) by {
        let (nr, ni) = (re(k.b0, k.b1, k.b2, cc), im(k.b0, k.b2, ss));
        let (dr, di) = (re(k.a0, k.a1, k.a2, cc), im(k.a0, k.a2, ss));
        assert(nr == dr) by (nonlinear_arith) requires nr == ((1real - al) + (1real + al)) * cc - 2real * c, dr == ((1real + al) + (1real - al)) * cc - 2real * c;
        assert(ni == -di) by (nonlinear_arith) requires ni == ((1real - al) - (1real + al)) * ss, di == ((1real + al) - (1real - al)) * ss;
        let (b0, b1, b2, a1, a2) = (b.b0.v(), b.b1.v(), b.b2.v(), b.a1.v(), b.a2.v());
        let a0 = k.a0;
        assert(b0 == a2) by (nonlinear_arith) requires b0 * a0 == a2 * a0, a0 > 0real;
        assert(b1 == a1) by (nonlinear_arith) requires b1 * a0 == a1 * a0, a0 > 0real;
        assert(b2 == 1real) by (nonlinear_arith) requires b2 * a0 == a0, a0 > 0real;
        let (x, y) = (re(b0, b1, b2, cc), re(1real, a1, a2, cc));
        assert(x == y) by (nonlinear_arith) requires x == (b0 + b2) * cc + b1, y == (1real + a2) * cc + a1, b0 == a2, b1 == a1, b2 == 1real;
        let (u, w) = (im(b0, b2, ss), im(1real, a2, ss));
        assert(u == -w) by (nonlinear_arith) requires u == (b0 - b2) * ss, w == (1real - a2) * ss, b0 == a2, b2 == 1real;
        assert(x * x + u * u == y * y + w * w) by (nonlinear_arith) requires x == y, u == -w;
    }'''
    else:
        sg = '+' if n == 'LowShelf' else '-'
        body = '''let a = ck_a(db);
    let al = ck_alpha_s(sr, f, a, s);
    let t = 2real * r_sqrt(a) * al;
    assert(k.a0 + k.a2 == 2real * ((a + 1real) %(sg)s (a - 1real) * c));
    assert(a * (1real + c) > 0real) by (nonlinear_arith) requires a > 0real, -1real < c;
    assert(a * (1real - c) > 0real) by (nonlinear_arith) requires a > 0real, c < 1real;
    assert((a - 1real) * c == a * c - c && (a + 1real) * c == a * c + c) by (nonlinear_arith);
    assert(a * (1real + c) == a + a * c && a * (1real - c) == a - a * c) by (nonlinear_arith);
    ''' % {'sg': sg}
        # sums
        if n == 'LowShelf':
            body += '''assert(k.a0 + k.a1 + k.a2 == 4real - 4real * c);
    assert(k.b0 + k.b2 == 2real * a * ((a + 1real) - (a - 1real) * c)) by (nonlinear_arith) requires k.b0 == a * ((a + 1real) - (a - 1real) * c + t), k.b2 == a * ((a + 1real) - (a - 1real) * c - t);
    assert(k.b0 + k.b1 + k.b2 == (a * a) * (4real - 4real * c)) by (nonlinear_arith) requires k.b0 + k.b2 == 2real * a * ((a + 1real) - (a - 1real) * c), k.b1 == 2real * a * ((a - 1real) - (a + 1real) * c);
    assert(k.b0 - k.b1 + k.b2 == 4real * a + 4real * (a * c)) by (nonlinear_arith) requires k.b0 + k.b2 == 2real * a * ((a + 1real) - (a - 1real) * c), k.b1 == 2real * a * ((a - 1real) - (a + 1real) * c);
    assert(k.a0 - k.a1 + k.a2 == 4real * a + 4real * (a * c));'''
        else:
            body += '''assert(k.a0 - k.a1 + k.a2 == 4real + 4real * c);
    assert(k.b0 + k.b2 == 2real * a * ((a + 1real) + (a - 1real) * c)) by (nonlinear_arith) requires k.b0 == a * ((a + 1real) + (a - 1real) * c + t), k.b2 == a * ((a + 1real) + (a - 1real) * c - t);
    assert(k.b0 - k.b1 + k.b2 == (a * a) * (4real + 4real * c)) by (nonlinear_arith) requires k.b0 + k.b2 == 2real * a * ((a + 1real) + (a - 1real) * c), k.b1 == -2real * a * ((a - 1real) + (a + 1real) * c);
    assert(k.b0 + k.b1 + k.b2 == 4real * a - 4real * (a * c)) by (nonlinear_arith) requires k.b0 + k.b2 == 2real * a * ((a + 1real) + (a - 1real) * c), k.b1 == -2real * a * ((a - 1real) + (a + 1real) * c);
    assert(k.a0 + k.a1 + k.a2 == 4real * a - 4real * (a * c));'''
    if p == _q or p == _g:
        # DC / Nyquist sums of the second order sections
        pass
    mag = ',\n        mag(b, r_cos(ck_w0(sr, f)), r_sin(ck_w0(sr, f)), %s)' % ce if ce else ''
    t = t % dict(l=n.lower(), params=params, args=args, dom=dom, dc=dc, ny=ny, mag=mag, allp=allp, d=d, body=body, ctr=ctr)
    # exec theorem
    vals = ', '.join('%s: T' % x for x in p)
    vdom = 'sr.fin(), f.fin(), sr.v() > 0real, f.v() > 0real, 2real * f.v() < sr.v()'
    if p == _q: vdom += ', q.fin(), q.v() > 0real'
    if p == _g: vdom += ', db.fin(), q.fin(), q.v() > 0real'
    if p == _s: vdom += ', db.fin(), s.fin(), s.v() > 0real, s.v() <= 1real'
    rv = ', '.join(x + '.v()' for x in p)
    ga = lambda g: g.replace('ck_a(db) * ck_a(db)', 'r_pow(10real, db.v() / 20real)').replace('q', 'q.v()') if g != 'q' else 'q.v()'
    t += '''
/// whatever the settings in range, %(n)s is stable and has its reference gains
pub fn use_%(l)s<T: Float + FloatConst>(x: &mut %(n)s<T>, %(vals)s)
    requires old(x).wf(), %(vdom)s
{
    x.set_coefficients(%(args)s);
    proof { thm_%(l)s(x.biquad, %(rv)s);%(db)s }
    assert(stable(x.biquad));
    assert(dc_gain(x.biquad, %(dc)s));
    assert(ny_gain(x.biquad, %(ny)s));
    %(m)s
}
''' % dict(n=n, l=n.lower(), vals=vals, vdom=vdom, args=args, rv=rv, dc=ga(dc), ny=ga(ny),
           db=' ax_pow_add(10real, db.v() / 40real, db.v() / 40real); assert(db.v() / 40real + db.v() / 40real == db.v() / 20real);' if 'db' in p else '',
           m='assert(mag(x.biquad, r_cos(ck_w0(sr.v(), f.v())), r_sin(ck_w0(sr.v(), f.v())), %s));' % ga(ce) if ce else '')
    return t
_c14 += '''
/// same gain at the angle (c, s): numerator and denominator have the same magnitude
pub open spec fn flat<T: Float>(b: Biquad2<T>, c: real, s: real) -> bool {
    let (nr, ni) = (re(b.b0.v(), b.b1.v(), b.b2.v(), c), im(b.b0.v(), b.b2.v(), s));
    let (dr, di) = (re(1real, b.a1.v(), b.a2.v(), c), im(1real, b.a2.v(), s));
    nr * nr + ni * ni == dr * dr + di * di
}
'''
for _n in RBJ_TYPES: _c14 += _c14_one(_n)
_c14, _c14nl = hoist(_c14)
prop('C14', ['Biquad2'] + RBJ_TYPES, FLOATCONST + PROCESSOR + B2 + RBJ_FNS, 'use super::nl::*;\n' + RBJ_SPECS + _c14, prelude=_c14nl, nl=2, traits=('FloatConst', 'Processor'))

# ---- C18 -------------------------------------------------------------------
fn('to_db', requires=[('base', '!sign_neg($1)')], ensures=[
    ('C18', '$1.fin() && $1.v() > 0.000001real ==> $r.fin() && $r.v() == 20real * r_log10($1.v())'),
    ('C18', '!($1.fin() && $1.v() > 0.000001real) ==> $r.fin() && $r.v() == -120real')])
fn('to_sample', ensures=[
    ('C18', '$1.fin() && $1.v() > -120real ==> $r.fin() && $r.v() == r_pow(10real, $1.v() / 20real)'),
    ('C18', '!($1.fin() && $1.v() > -120real) ==> is_zero($r) && !sign_neg($r)')])
fn('apply_gain', requires=[('base', '$2.fin() && !sign_neg($2)')], ensures=[
    ('C18', '$1.fin() ==> $r.fin() && $r.v() == $1.v() * $2.v()')])
_c18 = '''
/// sample -> dB -> sample is the identity above the floor, zero at and below it
pub fn round_trip_sample<T: Float + FloatConst>(x: T)
    requires x.fin(), x.v() >= 0real, !sign_neg(x)
{
    let d = to_db(x);
    proof { ax_log_micro(); ax_log_mono(0.000001real, x.v()); ax_pow_log(x.v()); assert(20real * r_log10(x.v()) / 20real == r_log10(x.v())); }
    let y = to_sample(d);
    assert(y.fin());
    assert(x.v() > 0.000001real ==> y.v() == x.v());
    assert(x.v() <= 0.000001real ==> y.v() == 0real);
}
/// dB -> sample -> dB is the identity above -120 dB, -120 at and below it
pub fn round_trip_db<T: Float + FloatConst>(d: T)
    requires d.fin()
{
    let y = to_sample(d);
    proof {
        let e = d.v() / 20real;
        let p = r_pow(10real, e);
        ax_log_micro(); ax_log_pow(e);
        if p < 0.000001real { ax_log_mono(p, 0.000001real); }
        if p == 0.000001real { assert(r_log10(p) == -6real); }
    }
    let z = to_db(y);
    assert(z.fin());
    assert(d.v() > -120real ==> z.v() == d.v());
    assert(d.v() <= -120real ==> z.v() == -120real);
}
/// a gain of g dB raises the level by g dB
pub fn gain_adds<T: Float + FloatConst>(x: T, g: T)
    requires x.fin(), x.v() > 0.000001real, !sign_neg(x), g.fin(), g.v() > -120real, 20real * r_log10(x.v()) + g.v() > -120real
{
    let a = to_sample(g);
    proof {
        let e = g.v() / 20real;
        let p = r_pow(10real, e);
        ax_log_micro(); ax_log_pow(e); ax_log_mul(x.v(), p);
        assert(sign_neg(a) || !sign_neg(a));
        assert(x.v() * p > 0real) by (nonlinear_arith) requires x.v() > 0real, p > 0real;
        let m = x.v() * p;
        assert(r_log10(m) > -6real);
        if m < 0.000001real { ax_log_mono(m, 0.000001real); }
    }
    let y = apply_gain(x, a);
    proof { assert(sign_neg(y) || !sign_neg(y)); }
    let z = to_db(y);
    let w = to_db(x);
    assert(z.fin() && w.fin() && z.v() == w.v() + g.v());
}
'''
prop('C18', [], FLOATCONST + ['to_db', 'to_sample', 'apply_gain'], _c18, traits=('FloatConst',), nl=2)

# ---- C19 -------------------------------------------------------------------
_all = ['FloatConst::pi', 'FloatConst::two']
prop('C19', ALLP + ['Delay'] + LD + WIN_TYPES + ['Window'],
     FLOATCONST + PROCESSOR + TAP + ['Processor::process_block'] + sum([api(t, 'set_coefficients') for t in FILTERS + RBJ_TYPES], []) + B2 + LI + ENV_FNS
     + D_API + LD_API + taps_api('Delay') + taps_api('LinearDelay') + wapi('new', 'next', 'size_hint', 'len') + ['apply_window', 'to_db', 'to_sample', 'apply_gain'],
     LD_LEMMAS + WIN_SPECS + 'pub open spec fn val_of<I: VIter>(it: I, n: int, i: int) -> real { I::val(n, i) }\n',
     traits=('FloatConst', 'Processor', 'TappableDelayLine') + WIN_TR[1:])
