"""C06: formula strings against an independent parser and evaluator."""
import math
import os
import re

from common import *
import gen

def NP(a):
    return a.toNumPyArray().reshape(a.getNumberOfTuples(), a.getNumberOfComponents()).copy()


BIG = 1.7976931348623157e+308


class Bad(Exception):
    """not a formula of the grammar"""


class Ambig(Exception):
    """the meaning is not settled by the usual conventions : out of domain"""


class DomainErr(Exception):
    """mathematical error (division by 0, sqrt of a negative number ...)"""


class Skip(Exception):
    """too close to a discontinuity or overflow : no expectation"""


UN = {'cos': math.cos, 'sin': math.sin, 'tan': math.tan, 'sqrt': math.sqrt, 'abs': abs, 'exp': math.exp, 'ln': math.log, 'log': math.log,
      'log10': math.log10, 'acos': math.acos, 'asin': math.asin, 'atan': math.atan, 'cosh': math.cosh, 'sinh': math.sinh, 'tanh': math.tanh}
VECS = ['IVec', 'JVec', 'KVec', 'LVec']
TOK = re.compile(r'(?P<num>\d+(\.\d*)?([eE][+-]?\d+)?)|(?P<id>[A-Za-z_]\w*)|(?P<op>[-+*/^<>(),])')


# ---------------------------------------------------------------- reference parser
def tokenize(s):
    s = s.replace(' ', '').replace('\n', '')
    out, i = [], 0
    while i < len(s):
        m = TOK.match(s, i)
        if not m:
            raise Bad('char')
        k = m.lastgroup if m.lastgroup in ('num', 'id', 'op') else [g for g in ('num', 'id', 'op') if m.group(g)][0]
        j = m.end()
        if k == 'num' and j < len(s) and (s[j].isalnum() or s[j] in '._'):
            raise Bad('number')
        if k == 'id' and j < len(s) and s[j] == '.':
            raise Ambig()
        out.append((k, m.group(0)))
        i = j
    return out


class RefParser:
    def __init__(self, s):
        self.t = tokenize(s)
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else (None, None)

    def take(self):
        r = self.peek()
        self.i += 1
        return r

    def op(self, chars):
        k, v = self.peek()
        return k == 'op' and v in chars

    def parse(self):
        e = self.cmp()
        if self.i != len(self.t):
            raise Bad('trailing')
        return e

    def cmp(self):
        a = self.add()
        if self.op('<>'):
            o = self.take()[1]
            b = self.add()
            if self.op('<>'):
                self.rest()
                raise Ambig()
            return ('cmp', o, a, b)
        return a

    def rest(self):
        "parse the rest of a chain of comparisons, only to see whether it is well formed"
        while self.op('<>'):
            self.take()
            self.add()

    def add(self):
        a = self.mul()
        while self.op('+-'):
            o = self.take()[1]
            a = ('bin', o, a, self.mul())
        return a

    def mul(self):
        a = self.sgn()
        while self.op('*/'):
            o = self.take()[1]
            a = ('bin', o, a, self.sgn())
        return a

    def sgn(self):
        n = c = 0
        while self.op('+-'):
            n += self.take()[1] == '-'
            c += 1
        if c > 1:
            self.amb = True
        e = self.pow()
        return ('neg', e) if n % 2 else e

    def pow(self):
        a = self.atom()
        if self.op('^'):
            self.take()
            n = c = 0
            while self.op('+-'):
                n += self.take()[1] == '-'
                c += 1
            if c > 1:
                self.amb = True
            b = self.atom()
            if n % 2:
                b = ('neg', b)
            if self.op('^'):
                while self.op('^'):
                    self.take()
                    while self.op('+-'):
                        self.take()
                    self.atom()
                self.amb = True
            return ('bin', '^', a, b)
        return a

    amb = False

    def atom(self):
        k, v = self.take()
        if k == 'num':
            return ('num', float(v))
        if k == 'id':
            if self.op('('):
                self.take()
                args = [self.cmp()]
                while self.op(','):
                    self.take()
                    args.append(self.cmp())
                if not self.op(')'):
                    raise Bad('paren')
                self.take()
                if v in UN and len(args) == 1 or v in ('max', 'min') and len(args) == 2 or v == 'if' and len(args) == 3:
                    return ('fn', v) + tuple(args)
                raise Bad('function')
            return ('var', v)
        if k == 'op' and v == '(':
            e = self.cmp()
            if not self.op(')'):
                raise Bad('paren')
            self.take()
            return e
        raise Bad('atom')


def refparse(s):
    p = RefParser(s)
    e = p.parse()
    if p.amb:
        raise Ambig()
    return e


def names_of(e, out):
    if e[0] == 'var':
        out.add(e[1])
    else:
        for x in e[1:]:
            if isinstance(x, tuple):
                names_of(x, out)
    return out


def ev(e, env, comp=0):
    """returns (value, magnitude of intermediate results)"""
    k = e[0]
    if k == 'num':
        return e[1], abs(e[1])
    if k == 'var':
        if e[1] in VECS:
            v = 1. if VECS.index(e[1]) == comp else 0.
        else:
            v = env[e[1]]
        return v, abs(v)
    if k == 'neg':
        v, m = ev(e[1], env, comp)
        return -v, m
    if k == 'cmp':
        # operands are evaluated left and right; equality allowed only when exact by construction
        a, ma = ev(e[2], env, comp)
        b, mb = ev(e[3], env, comp)
        if a != b and abs(a - b) < 1e-7 * max(1., ma, mb):
            raise Skip()
        if a == b and (a * 4096 != int(a * 4096)):
            raise Skip()
        return (BIG if (a > b if e[1] == '>' else a < b) else -BIG), 0.
    if k == 'bin':
        a, ma = ev(e[2], env, comp)
        b, mb = ev(e[3], env, comp)
        m = max(ma, mb)
        if abs(a) >= 1e100 or abs(b) >= 1e100:
            raise Skip()
        o = e[1]
        if o == '+':
            r = a + b
        elif o == '-':
            r = a - b
        elif o == '*':
            r = a * b
            m = max(ma, 1.) * max(mb, 1.)
        elif o == '/':
            if b == 0:
                raise DomainErr()
            if abs(b) < 1e-6 * max(1., mb):
                raise Skip()
            r = a / b
            m = max(ma, 1.) * max(1., mb / abs(b)) * max(1., 1. / abs(b))
        else:
            if a < 0:
                raise DomainErr()
            if a == 0 and b <= 0 or abs(a) < 1e-6 * max(1., ma) and a != 0 or abs(b) > 60:
                raise Skip()
            if a == 0 and b < 1:
                raise Skip()
            try:
                r = math.pow(a, b)
            except (OverflowError, ValueError):
                raise Skip()
            m = max(1., abs(r)) * max(1., mb) * (1 + (abs(b) * ma / a if a else ma))
        m = max(m, abs(r))
        if m > 1e60:
            raise Skip()
        return r, m
    f = e[1]
    if f == 'if':
        if e[2][0] != 'cmp':
            # condition value that is not a comparison result
            c, _ = ev(e[2], env, comp)
            if abs(c) != BIG:
                raise DomainErr()
        else:
            c, _ = ev(e[2], env, comp)
        try:
            a = ev(e[3], env, comp)
        except DomainErr:
            raise Skip()
        try:
            b = ev(e[4], env, comp)
        except DomainErr:
            raise Skip()
        return a if c == BIG else b
    if f in ('max', 'min'):
        a, ma = ev(e[2], env, comp)
        b, mb = ev(e[3], env, comp)
        return (max(a, b) if f == 'max' else min(a, b)), max(ma, mb)
    a, m = ev(e[2], env, comp)
    if abs(a) >= 1e100:
        raise Skip()
    tol = 1e-6 * max(1., m)
    if f == 'sqrt':
        if a < 0:
            if a > -tol:
                raise Skip()
            raise DomainErr()
        if a and a < tol:
            raise Skip()
        if m > 1e6 and a < 1e-6 * m:
            raise Skip()
    if f in ('ln', 'log', 'log10'):
        if a < -tol:
            raise DomainErr()
        if a < tol:
            raise Skip()
        m = m / a
    if f in ('acos', 'asin'):
        if abs(abs(a) - 1) < tol:
            raise Skip()
        if abs(a) > 1:
            raise DomainErr()
        m = m * max(1., 1. / math.sqrt(1 - a * a))
    if f in ('exp', 'cosh', 'sinh') and abs(a) > 50:
        raise Skip()
    if f in ('cos', 'sin', 'tan') and abs(a) > 1e6:
        raise Skip()
    r = UN[f](a)
    if f == 'tan' and abs(r) > 1e4:
        raise Skip()
    m = max(1., abs(r)) * max(1., m) * (1. if f in ('cos', 'sin', 'abs', 'atan', 'tanh') else max(1., abs(r)))
    if m > 1e60:
        raise Skip()
    return r, m


# ---------------------------------------------------------------- generator of expressions
NUMS = ['0', '1', '2', '3', '10', '0.5', '2.5', '1.25', '3.', '1e-2', '2.5e+1', '1.5E1', '12', '0.125', '7e0']


def gnum(d):
    return ('num', d.choice(NUMS))


KINDS_FAST = ['bin'] * 10 + ['neg'] * 2 + ['un'] * 3
KINDS = KINDS_FAST + ['fn2'] * 2 + ['if'] * 2 + ['pow'] * 2


def gexpr(d, names, depth, vecs=0, funcs=None, cmps=True):
    if depth <= 0 or d.bool(.12):
        if names and d.bool(.7):
            return ('var', d.choice(names))
        if vecs and d.bool(.4):
            return ('var', VECS[d.below(vecs)])
        return gnum(d)
    g = lambda: gexpr(d, names, depth - 1 - d.bool(.3), vecs, funcs, cmps)
    k = d.choice(KINDS if funcs is None else KINDS_FAST)
    if k == 'bin':
        return ('bin', d.choice('++--**/'), g(), g())
    if k == 'pow':
        b = g()
        if d.bool(.6):
            b = ('fn', 'abs', b)
        return ('bin', '^', b, d.choice([('num', '2'), ('num', '0.5'), ('num', '3'), ('neg', ('num', '1')), g()]))
    if k == 'neg':
        return ('neg', g())
    if k == 'un':
        return ('fn', d.choice(funcs if funcs else sorted(UN)), g())
    if k == 'fn2':
        return ('fn', d.choice(['max', 'min']), g(), g())
    return ('fn', 'if', ('cmp', d.choice('<>'), g(), g()), g(), g())


PREC = {'+': 1, '-': 1, '*': 2, '/': 2, '^': 4}


def render(d, e, lvl=0, amb=True):
    """text of e, usable where an operand of precedence >= lvl is wanted (3: signed, 4: power, 5: atom)"""
    sp = lambda s: (' ' * d.choice([0, 0, 0, 1, 2])) + s + (' ' * d.choice([0, 0, 0, 1])) if d.wsp else s
    k = e[0]
    if k in ('num', 'var'):
        s, p = e[1], 5
    elif k == 'neg':
        s, p = '-' + render(d, e[1], 4), 3
    elif k == 'fn':
        s, p = e[1] + '(' + sp(','.join(sp(render(d, x)) for x in e[2:])) + ')', 5
    elif k == 'cmp':
        s, p = render(d, e[2], 1) + sp(e[1]) + render(d, e[3], 1), 0
    else:
        o = e[1]
        if o == '^':
            b = e[3]
            rb = '-' + render(d, b[1], 5) if b[0] == 'neg' and d.bool(.5) else render(d, b, 5)
            s, p = render(d, e[2], 5) + sp('^') + rb, 4
        else:
            p = PREC[o]
            s = render(d, e[2], p) + sp(o) + render(d, e[3], p + 1 if p == 1 else 3)
    if p < lvl or d.bool(.08):
        s = '(' + sp(s) + ')'
    return s


def to_ref(e):
    if e[0] == 'num':
        return ('num', float(e[1]))
    return tuple(to_ref(x) if isinstance(x, tuple) else x for x in e)


NAMESETS = [['x', 'y', 'z'], ['a', 'b', 'c'], ['P', 'Temp', 'v_1'], ['x1', 'x2', 'x10'], ['X', 'x', 'XX'], ['cosx', 'e', 'E1'], ['alpha', 'beta', 'Vec']]


def table(d, n, nc):
    return [[d.choice([d.sint(16) / 4., d.int(1, 12) / 8., float(d.sint(3))]) for _ in range(nc)] for _ in range(n)]


def expect(e, names, rows, nco):
    """per tuple, per output component list of (value, mag) / 'err' / None"""
    out = []
    for r in rows:
        env = dict(zip(names, r))
        o = []
        for c in range(nco):
            try:
                o.append(ev(e, env, c))
            except DomainErr:
                o.append('err')
            except (Skip, OverflowError):
                o.append(None)
        out.append(o)
    return out


def run(fn):
    """('ok', rows) or ('exc', message)"""
    try:
        r = fn()
    except InterpKernelException as x:
        return 'exc', str(x)
    return 'ok', NP(r).tolist()


def compare(d, what, res, exp, safe=True):
    flat = [x for o in exp for x in o]
    if safe and 'err' in flat:
        if res[0] != 'exc':
            d.fail('%s: an exception is expected (mathematical error), got %s' % (what, short(res[1])))
        return
    if res[0] == 'exc':
        if None in flat:
            return
        d.fail('%s: unexpected exception %s' % (what, res[1]))
    if len(res[1]) != len(exp):
        d.fail('%s: %d tuples, expected %d' % (what, len(res[1]), len(exp)))
    for i, (g, w) in enumerate(zip(res[1], exp)):
        if len(g) != len(w):
            d.fail('%s: tuple %d has %d components, expected %d' % (what, i, len(g), len(w)))
        for c, (x, y) in enumerate(zip(g, w)):
            if y is None or y == 'err':
                continue
            if abs(y[0]) == BIG:
                if x != y[0]:
                    d.fail('%s: tuple %d component %d: %r expected %r' % (what, i, c, x, y[0]))
            elif not abs(x - y[0]) <= 1e-11 * max(1., y[1]):
                d.fail('%s: tuple %d component %d: %r expected %r' % (what, i, c, x, y[0]))


class Quiet:
    """the compiled path prints its assembly on stdout"""

    def __enter__(self):
        sys.stdout.flush()
        self.o = os.dup(1)
        n = os.open(os.devnull, os.O_WRONLY)
        os.dup2(n, 1)
        os.close(n)

    def __exit__(self, *a):
        os.dup2(self.o, 1)
        os.close(self.o)


def usable(exp):
    f = [x for o in exp for x in o]
    return any(x is not None for x in f) or not f


@check(n=120000, rule='the formula has at least two operators or functions and a defined value on some tuple')
def formulas(d):
    """every variant on arrays"""
    d.wsp = d.bool(.3)
    names = sorted(d.choice(NAMESETS))
    nc = d.int(1, 3)
    names = names[:nc]
    rows = table(d, d.size(4), nc)
    nco = d.int(1, 3)
    vecs = d.choice([0, 0, nco])
    e = gexpr(d, names, d.int(1, 5), vecs)
    if d.bool(.15):
        e = ('cmp', d.choice('<>'), e, gexpr(d, names, 2, vecs))
    s = render(d, e)
    e = to_ref(e)
    exp = expect(e, names, rows, nco)
    d.assume(usable(exp))
    used = sorted(names_of(e, set()) - set(VECS))
    d.nontrivial(sum(s.count(c) for c in '+-*/^(<>') > 1 and len(rows) > 0)
    d.sample('%s on %s %s' % (s, names, rows))
    a = Dbl(rows, nc)
    a.setInfoOnComponents(['%s [m]' % x if d.bool(.5) else x for x in names])
    before = NP(a).tolist()
    safe = d.bool(.75)
    d.label('safe' if safe else 'unsafe', 'unit vectors' if vecs else 'plain', 'mathematical error' if any(x == 'err' for o in exp for x in o) else 'value')
    how = d.choice(['named', 'compo', 'sorted', 'field', 'default safe'])
    d.label(how)
    perm = d.perm(nc)
    rn = [names[i] for i in perm]
    rp = [[r[i] for i in perm] for r in rows]
    if how == 'named':
        compare(d, 'applyFuncNamedCompo(%s)' % s, run(lambda: Dbl(rp, nc).applyFuncNamedCompo(nco, rn, s, safe)), exp, safe)
    elif how == 'compo':
        b = Dbl(rp, nc)
        b.setInfoOnComponents([x + d.choice(['', ' [m/s]']) for x in rn])
        compare(d, 'applyFuncCompo(%s)' % s, run(lambda: b.applyFuncCompo(nco, s, safe)), exp, safe)
    elif how == 'sorted':
        # the variables of the formula, sorted, are attached to the first components
        cols = [names.index(u) for u in used] + [i for i, x in enumerate(names) if x not in used]
        compare(d, 'applyFunc(%d,%s)' % (nco, s), run(lambda: Dbl([[r[i] for i in cols] for r in rows], nc).applyFunc(nco, s, safe)), exp, safe)
    elif how == 'default safe':
        compare(d, 'applyFuncNamedCompo(%s)' % s, run(lambda: a.applyFuncNamedCompo(nco, names, s)), exp, True)
    else:
        if not rows:
            return
        m = mc.MEDCouplingCMesh()
        m.setCoords(mc.DataArrayDouble([float(i) for i in range(len(rows) + 1)]))
        td = d.choice([mc.ONE_TIME, mc.NO_TIME, mc.LINEAR_TIME])
        f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, td)
        f.setMesh(m)
        f.setArray(a)
        if td == mc.LINEAR_TIME:
            f.setEndArray(a * 1.)
            f.getEndArray().copyStringInfoFrom(a)
        f.setName('f')
        v = d.choice(['named', 'compo'])

        def go():
            if v == 'named':
                f.applyFuncNamedCompo(nco, names, s)
            else:
                f.applyFuncCompo(nco, s)
            return f.getArray()
        r = run(go)
        compare(d, 'field %s %s' % (v, s), r, exp, True)
        if r[0] == 'ok' and td == mc.LINEAR_TIME:
            compare(d, 'field end array %s %s' % (v, s), run(f.getEndArray), exp, True)
    eq(d, NP(a).tolist() if how != 'field' else before, before, 'the operand')


@check(n=200000, rule='the formula has at least two operators or functions')
def one_variable(d):
    """variants that apply a one-variable formula to all the components: applyFunc(f), applyFuncOnThis, field applyFunc(f), compiled path, constants"""
    d.wsp = d.bool(.2)
    fast = d.bool(.35)
    names = [d.choice(['x', 'val', 'X2'])] if d.bool(.9) else []
    nc = d.int(1, 3)
    vecs = 0
    if fast:
        e = gexpr(d, names, d.int(1, 4), 0, ['sqrt', 'abs', 'cos', 'sin'])
    else:
        e = gexpr(d, names, d.int(1, 4))
    s = render(d, e)
    e = to_ref(e)
    rows = table(d, d.int(1, 4), nc)
    exp = []
    for r in rows:
        exp.append([expect(e, names, [[x]] if names else [[]], 1)[0][0] for x in r])
    d.assume(usable(exp))
    d.nontrivial(sum(s.count(c) for c in '+-*/^(<>') > 1)
    d.sample('%s on %s' % (s, rows))
    info = ['c%d [kg]' % i for i in range(nc)]
    a = Dbl(rows, nc)
    a.setInfoOnComponents(info)
    how = 'fast64' if fast else d.choice(['applyFunc', 'onThis', 'field'])
    d.label(how)
    if how == 'fast64':
        d.assume(x87(e) <= 8)
        d.assume(not any(x == 'err' for o in exp for x in o))
        fld = d.bool(.3)

        def go():
            if fld:
                m = mc.MEDCouplingCMesh()
                m.setCoords(mc.DataArrayDouble([float(i) for i in range(len(rows) + 1)]))
                f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
                f.setMesh(m)
                f.setArray(a)
                f.applyFuncFast64(s)
                return f.getArray()
            a.applyFuncFast64(s)
            return a
        with Quiet():
            r = run(go)
        compare(d, 'applyFuncFast64(%s)' % s, r, exp)
        return
    safe = d.bool(.75)
    if how == 'applyFunc':
        compare(d, 'applyFunc(%s)' % s, run(lambda: a.applyFunc(s, safe)), exp, safe)
        eq(d, NP(a).tolist(), rows, 'the operand')
    elif how == 'onThis':
        def go():
            a.applyFuncOnThis(s, safe)
            return a
        r = run(go)
        compare(d, 'applyFuncOnThis(%s)' % s, r, exp, safe)
        eq(d, list(a.getInfoOnComponents()), info, 'component info')
    else:
        m = mc.MEDCouplingCMesh()
        m.setCoords(mc.DataArrayDouble([float(i) for i in range(len(rows) + 1)]))
        f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
        f.setMesh(m)
        f.setArray(a)

        def go():
            f.applyFunc(s)
            return f.getArray()
        compare(d, 'field applyFunc(%s)' % s, run(go), exp)


def x87(e):
    """number of x87 registers needed by a left to right evaluation"""
    if e[0] in ('num', 'var'):
        return 1
    if e[0] == 'neg':
        return x87(e[1])
    if e[0] == 'fn':
        return x87(e[2])
    return max(x87(e[2]), 1 + x87(e[3]))


@check(n=20000, rule='formula using at least one coordinate')
def analytic(d):
    """fields filled from the coordinates"""
    d.wsp = False
    pm = gen.any_mesh(d, dims=(1, 2), nmax=2, quad=0., points=False)
    sd = pm.sd
    m = to_mc(pm)
    typ = d.choice([mc.ON_CELLS, mc.ON_NODES])
    names = ['x', 'y', 'z'][:sd]
    nco = d.int(1, 3)
    e = gexpr(d, names, d.int(1, 3), d.choice([0, nco]))
    s = render(d, e)
    e = to_ref(e)
    loc = m.computeCellCenterOfMass() if typ == mc.ON_CELLS else m.getCoords()
    rows = NP(loc).tolist()
    exp = expect(e, names, rows, nco)
    d.assume(usable(exp))
    used = names_of(e, set()) - set(VECS)
    d.nontrivial(bool(used))
    d.label('cells' if typ == mc.ON_CELLS else 'nodes')
    how = d.choice(['mesh.fillFromAnalytic', 'field.fillFromAnalytic', 'mesh.NamedCompo', 'field.NamedCompo', 'mesh.Compo', 'field.Compo'])
    d.label(how)
    d.sample('%s %s' % (how, s))
    if 'fillFromAnalytic' in how:
        d.assume(sorted(used) == names[:len(used)])
    perm = d.perm(sd)

    def go():
        nonlocal_names = names
        fm = mc.MEDCouplingFieldDouble(typ, mc.ONE_TIME)
        fm.setMesh(m)
        if how == 'mesh.fillFromAnalytic':
            return m.fillFromAnalytic(typ, nco, s).getArray()
        if how == 'field.fillFromAnalytic':
            fm.fillFromAnalytic(nco, s)
        elif how == 'mesh.NamedCompo':
            return m.fillFromAnalyticNamedCompo(typ, nco, nonlocal_names, s).getArray()
        elif how == 'field.NamedCompo':
            fm.fillFromAnalyticNamedCompo(nco, nonlocal_names, s)
        else:
            m.getCoords().setInfoOnComponents([x + ' [m]' for x in nonlocal_names])
            if how == 'mesh.Compo':
                return m.fillFromAnalyticCompo(typ, nco, s).getArray()
            fm.fillFromAnalyticCompo(nco, s)
        return fm.getArray()
    r = run(go)
    if r[0] == 'ok':
        compare(d, '%s %s' % (how, s), r, exp)
    else:
        compare(d, '%s %s' % (how, s), r, exp)


FRAG = ['x', 'y', 'z', 'w', '2', '3', '1.5', '1e1', '+', '-', '*', '/', '^', '(', ')', '(', ')', ',', '<', '>', 'cos(', 'sqrt(', 'max(', 'if(', 'foo(', 'min(x,', ' ', 'abs(y)', 'IVec', '1.2.3', 'cos', '()', 'ln']


@check(n=100000, rule='the text is malformed or has at least 4 tokens')
def malformed(d):
    """arbitrary texts: malformed ones are rejected and leave the array unchanged, well-formed ones have their value"""
    if d.bool(.6):
        d.wsp = d.bool(.2)
        e = gexpr(d, ['x', 'y', 'z'], d.int(1, 3))
        s = render(d, e)
        toks = re.findall(r'[A-Za-z_]\w*|\d[\d.eE]*|.', s)
        for _ in range(d.int(1, 2)):
            i = d.below(len(toks) + 1)
            k = d.choice(['del', 'ins', 'dup', 'swap'])
            if k == 'ins':
                toks.insert(i, d.choice(FRAG))
            elif i < len(toks):
                if k == 'del':
                    del toks[i]
                elif k == 'dup':
                    toks.insert(i, toks[i])
                else:
                    j = d.below(len(toks))
                    toks[i], toks[j] = toks[j], toks[i]
        s = ''.join(toks)
    else:
        s = ''.join(d.choice(FRAG) for _ in range(d.size(8)))
    names = ['x', 'y', 'z']
    rows = table(d, d.int(1, 2), 3)
    try:
        e = refparse(s)
        missing = names_of(e, set()) - set(names) - {'IVec'}
        st = 'missing' if missing else 'ok'
    except Bad:
        st = 'bad'
    except Ambig:
        d.assume(False)
    except RecursionError:
        d.assume(False)
    d.label(st)
    d.nontrivial(st != 'ok' or len(s) > 4)
    d.sample('%s: %r' % (st, s))
    a = Dbl(rows, 3)
    a.setInfoOnComponents(names)
    how = d.choice(['named', 'compo', 'field'])
    m = mc.MEDCouplingCMesh()
    m.setCoords(mc.DataArrayDouble([float(i) for i in range(len(rows) + 1)]))
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
    f.setMesh(m)
    f.setArray(a)

    def go():
        if how == 'named':
            return a.applyFuncNamedCompo(1, names, s)
        if how == 'compo':
            return a.applyFuncCompo(1, s)
        f.applyFuncNamedCompo(1, names, s)
        return f.getArray()
    r = run(go)
    if st == 'ok':
        compare(d, '%s %r' % (how, s), r, expect(e, names, rows, 1))
    else:
        if r[0] != 'exc':
            d.fail('%s: %s formula %r is accepted, result %s' % (how, {'bad': 'malformed', 'missing': 'unknown variable in'}[st], s, short(r[1])))
    if r[0] == 'exc':
        eq(d, NP(f.getArray() if how == 'field' else a).tolist(), rows, 'array after the rejection of %r' % s)
        eq(d, list(a.getInfoOnComponents()), names, 'component names after the rejection')


CLEAR = ['x+', '*x', '(x', 'x)', 'foo(x)', '', 'x*/2', 'cos()', 'max(x)', 'cos(x,x)', '1.2.3', 'x^', '^x', 'x>', '(x,x)', '2x', 'x+y', '()', ' ', '+', 'cos(x)cos(x)', '1e', 'if(x,1,2,3)', 'x))((']


@check(n=3000, rule='every case')
def rejected_in_place(d):
    """in-place variants and the compiled path leave the array as it is when the formula is rejected"""
    s = d.choice(CLEAR)
    nc = d.int(1, 2)
    rows = table(d, d.int(1, 3), nc)
    a = Dbl(rows, nc)
    a.setInfoOnComponents(['c%d' % i for i in range(nc)])
    how = d.choice(['onThis', 'applyFunc', 'fast64', 'field', 'analytic'])
    d.assume(not (how == 'analytic' and s == 'x+y'))
    d.nontrivial(True)
    d.label(how)
    d.sample('%s %r' % (how, s))
    m = mc.MEDCouplingCMesh()
    m.setCoords(mc.DataArrayDouble([float(i) for i in range(len(rows) + 1)]), mc.DataArrayDouble([0., 1.]))
    f = mc.MEDCouplingFieldDouble(mc.ON_CELLS, mc.ONE_TIME)
    f.setMesh(m)
    f.setArray(a)

    def go():
        if how == 'onThis':
            a.applyFuncOnThis(s)
        elif how == 'applyFunc':
            a.applyFunc(s)
        elif how == 'fast64':
            a.applyFuncFast64(s)
        elif how == 'field':
            f.applyFunc(s)
        else:
            f.fillFromAnalytic(1, s)
        return a
    with Quiet():
        r = run(go)
    if r[0] != 'exc':
        d.fail('%s: %r is accepted' % (how, s))
    eq(d, NP(f.getArray()).tolist(), rows, 'array after the rejection of %r by %s' % (s, how))
    eq(d, list(f.getArray().getInfoOnComponents()), ['c%d' % i for i in range(nc)], 'component info')


def demo_x87_depth():
    """the compiled path needs more than the 8 x87 registers for right-nested formulas and silently gives NaN"""
    a = mc.DataArrayDouble([2.])
    with Quiet():
        try:
            a.applyFuncFast64('1-(2-(3-(4-(5-(6-(7-(8-(9-x))))))))')
        except InterpKernelException:
            return False
    return a[0] != 3.
