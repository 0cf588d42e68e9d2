"""Compile the TLA+ specification to Python.

The modules under /verif/spec are the single source of truth.  TLC checks and
trace-validates them; this compiler turns the *same* operators into Python
functions so that they can also be the oracle of sweeps far larger than TLC can
step through.  The input is the semantic tree SANY exports as XML (so parsing,
name resolution and level checking are SANY's, not ours).

Value mapping: Int/BOOLEAN/STRING -> int/bool/str, sequences and functions with
domain 1..n -> tuple, records and other functions -> R (hashable dict),
sets -> frozenset.  Variables of the specification are looked up in the state
dictionaries S (unprimed) and T (primed) which operators of level >= 1 take as
extra leading arguments.
"""
import functools
import hashlib
import json
import os
import re
import subprocess
import sys
import time
import xml.etree.ElementTree as ET

JAR = '/opt/veriftools/tla/tla2tools.jar'
CM = '/opt/veriftools/tla/CommunityModules-deps.jar'
SPEC = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'spec')


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- run time
class R(dict):
    __slots__ = ()

    def __hash__(self):
        return hash(frozenset(self.items()))


def ap(f, x):
    if type(f) is tuple:
        if x < 1:
            raise IndexError(x)
        return f[x - 1]
    return f[x]


def fcn(dom, g):
    d = list(dom)
    if d and all(type(x) is int for x in d):
        d.sort()
        if d[0] == 1 and d[-1] == len(d):
            return tuple(g(x) for x in d)
    if not d:
        return ()
    return R((x, g(x)) for x in d)


def rcd(**kw):
    return R(kw)


def exc1(f, path, g):
    k = path[0]
    old = ap(f, k)
    new = g(old) if len(path) == 1 else exc1(old, path[1:], g)
    if type(f) is tuple:
        l = list(f)
        l[k - 1] = new
        return tuple(l)
    n = R(f)
    n[k] = new
    return n


def choose(dom, p):
    for x in (dom if isinstance(dom, range) else sorted(dom, key=lambda v: (str(type(v)), v) if isinstance(v, (int, str)) else ('~', repr(v)))):
        if p(x):
            return x
    raise ValueError('CHOOSE: no such element')


def domain(f):
    return frozenset(range(1, len(f) + 1)) if type(f) is tuple else frozenset(f)


def sub_seq(s, m, n):
    if m > n:
        return ()
    if m < 1 or n > len(s):
        raise IndexError((m, n))
    return s[m - 1:n]


def powerset(s):
    l = list(s)
    out = []
    for i in range(1 << len(l)):
        out.append(frozenset(l[j] for j in range(len(l)) if i >> j & 1))
    return frozenset(out)


def merge(f, g):      # f @@ g
    d = R(as_dict(g))
    d.update(as_dict(f))
    return fcn(list(d), lambda k: d[k])


def as_dict(f):
    return {i + 1: v for i, v in enumerate(f)} if type(f) is tuple else f


def conv(v):
    if isinstance(v, list):
        return tuple(conv(x) for x in v)
    if isinstance(v, dict):
        return R((k, conv(x)) for k, x in v.items())
    return v


_json_cache = {}


def json_deserialize(path):
    p = path if os.path.isabs(path) else os.path.join(SPEC, path)
    if p not in _json_cache:
        with open(p, encoding='utf-8') as fh:
            _json_cache[p] = conv(json.load(fh))
    return _json_cache[p]


def fold_left(op, base, seq):
    for x in seq:
        base = op(base, x)
    return base


def fold_set(op, base, s):
    for x in s:
        base = op(x, base)
    return base


def assert_(v, msg):
    if not v:
        raise AssertionError(msg)
    return True


RUNTIME = dict(R=R, ap=ap, fcn=fcn, rcd=rcd, exc1=exc1, choose=choose, domain=domain, sub_seq=sub_seq,
               powerset=powerset, merge=merge, json_deserialize=json_deserialize, fold_left=fold_left,
               fold_set=fold_set, assert_=assert_)

STD = {'Naturals', 'Integers', 'Sequences', 'FiniteSets', 'TLC', 'Json', 'SequencesExt', 'FiniteSetsExt',
       'Functions', 'Folds', 'TLCExt', 'IOUtils', 'Reals', 'Bags', 'Randomization', 'ProtoReals'}

# operators of standard modules that have a native rendering
NATIVE = {
    '+': '({0} + {1})', '-': '({0} - {1})', '*': '({0} * {1})', '\\div': '({0} // {1})', '%': '({0} % {1})',
    '^': '({0} ** {1})', '-.': '(-{0})',
    '<': '({0} < {1})', '>': '({0} > {1})', '\\leq': '({0} <= {1})', '\\geq': '({0} >= {1})',
    '<=': '({0} <= {1})', '>=': '({0} >= {1})', '=<': '({0} <= {1})',
    '..': 'frozenset(range({0}, {1} + 1))',
    'Len': 'len({0})', 'Head': '{0}[0]', 'Tail': '{0}[1:]', 'Append': '({0} + ({1},))',
    '\\o': '({0} + {1})', '\\circ': '({0} + {1})', 'SubSeq': 'sub_seq({0}, {1}, {2})',
    'Cardinality': 'len({0})', 'IsFiniteSet': 'True', 'ToString': 'str({0})',
    ':>': 'fcn([{0}], lambda _k: {1})', '@@': 'merge({0}, {1})', 'Assert': 'assert_({0}, {1})',
    'JsonDeserialize': 'json_deserialize({0})',
    'SelectSeq': 'tuple(filter({1}, {0}))', 'FoldLeft': 'fold_left({0}, {1}, {2})',
    'FoldSet': 'fold_set({0}, {1}, {2})', 'Range': 'frozenset({0})', 'Max': 'max({0})', 'Min': 'min({0})',
    'Print': '{1}', 'PrintT': 'True', 'ToSet': 'frozenset({0})', 'Last': '{0}[-1]', 'Reverse': '{0}[::-1]',
}


def sanitize(name):
    return re.sub(r'\W', '_', name)


class Compiler:
    def __init__(self, module):
        self.module = module
        xml = subprocess.run(['java', '-XX:+UseSerialGC', '-Xshare:auto', '-cp', JAR + ':' + CM,
                              'tla2sany.xml.XMLExporter', '-o', module + '.tla'],
                             cwd=SPEC, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if xml.returncode or not xml.stdout.strip().startswith(b'<'):
            sys.stderr.write(xml.stdout.decode()[:3000] + xml.stderr.decode()[:3000])
            raise SystemExit('SANY failed for ' + module)
        root = ET.fromstring(xml.stdout)
        self.e = {}
        for ent in root.find('context'):
            kids = list(ent)
            self.e[kids[0].text] = kids[1]
        self.tmp = 0

    # -- helpers
    def ref(self, node):
        return node.find('UID').text

    def mod_of(self, d):
        m = d.find('originallyDefinedInModule')
        if m is None:
            return None
        return self.e[self.ref(m[0])].find('uniquename').text

    def name(self, uid):
        d = self.e[uid]
        return d.find('uniquename').text

    def level(self, d):
        l = d.find('level')
        return int(l.text) if l is not None else 0

    def pyname(self, uid):
        d = self.e[uid]
        n = sanitize(self.name(uid))
        if d.tag == 'FormalParamNode':
            return '%s_%s' % (n, uid)
        if uid in self.toplevel:
            return n if n not in ('None', 'True', 'False', 'and', 'or', 'not', 'in', 'is', 'if', 'else', 'for', 'def', 'class', 'from', 'lambda') else n + '_'
        return '%s_%s' % (n, uid)

    # -- driver
    def compile(self):
        self.toplevel = {}
        order = []
        for uid, d in self.e.items():
            if d.tag == 'ModuleNode' and d.find('uniquename').text not in STD:
                for r in d:
                    if r.tag == 'UserDefinedOpKindRef':
                        u = self.ref(r)
                        if u not in self.toplevel and self.mod_of(self.e[u]) not in STD:
                            self.toplevel[u] = 1
                            order.append(u)
        # dependency order: by position in file within module; modules via extends order.
        order = self.topo(order)
        out = []
        for uid in order:
            d = self.e[uid]
            nm = self.pyname(uid)
            try:
                out.append(self.opdef(uid, d, nm, top=True))
            except Unsupported as ex:
                out.append('def %s(*a, **k):\n    raise NotImplementedError(%r)\n' % (nm, str(ex)))
        return '\n'.join(out)

    def topo(self, order):
        deps = {}
        s = set(order)
        for u in order:
            deps[u] = [self.ref(r) for r in self.e[u].find('body').iter('UserDefinedOpKindRef') if self.ref(r) in s]
            # LET-bound definitions referenced inside
            seen, stack = set(), [self.ref(r) for r in self.e[u].find('body').iter('UserDefinedOpKindRef')]
            while stack:
                v = stack.pop()
                if v in seen or v == u:
                    continue
                seen.add(v)
                if v in s:
                    deps[u].append(v)
                elif v in self.e and self.e[v].tag == 'UserDefinedOpKind' and self.mod_of(self.e[v]) not in STD:
                    stack += [self.ref(r) for r in self.e[v].find('body').iter('UserDefinedOpKindRef')]
        done, out = set(), []

        def visit(u, path):
            if u in done or u in path:
                return
            for v in deps[u]:
                visit(v, path | {u})
            done.add(u)
            out.append(u)
        sys.setrecursionlimit(10000)
        for u in order:
            visit(u, frozenset())
        return out

    def params(self, d):
        return [self.ref(p.find('FormalParamNodeRef')) for p in (d.find('params') if d.find('params') is not None else [])]

    def state_args(self, d):
        lv = self.level(d)
        return ['S'] if lv == 1 else ['S', 'T'] if lv >= 2 else []

    def opdef(self, uid, d, nm, top=False, indent=0):
        body = list(d.find('body'))[0]
        ps = [self.pyname(p) for p in self.params(d)]
        sa = self.state_args(d) if top else []
        pad = '    ' * indent
        if not ps and not sa:
            lines = []
            if self.simple(body):
                return pad + '%s = %s' % (nm, self.expr(body))
            self.stmt(body, lines, indent + 1)
            return pad + 'def _mk_%s():\n' % nm + '\n'.join(lines) + '\n' + pad + '%s = _mk_%s()' % (nm, nm)
        lines = []
        self.stmt(body, lines, indent + 1)
        return pad + 'def %s(%s):\n' % (nm, ', '.join(sa + ps)) + '\n'.join(lines)

    def simple(self, n):
        if n.tag in ('LetInNode',):
            return False
        if n.tag == 'OpApplNode':
            b = self.builtin(n)
            if b in ('$IfThenElse', '$Case'):
                return False
        return True

    def builtin(self, n):
        o = n.find('operator')[0]
        if o.tag == 'BuiltInKindRef':
            return self.name(self.ref(o))
        return None

    # -- statements (tail position)
    def stmt(self, n, out, ind):
        pad = '    ' * ind
        if n.tag == 'LetInNode':
            for r in n.find('opDefs'):
                u = self.ref(r)
                d = self.e[u]
                out.append(self.opdef(u, d, self.pyname(u), indent=ind))
            self.stmt(list(n.find('body'))[0], out, ind)
            return
        if n.tag == 'OpApplNode':
            b = self.builtin(n)
            ops = list(n.find('operands'))
            if b == '$IfThenElse':
                out.append(pad + 'if %s:' % self.expr(ops[0]))
                self.stmt(ops[1], out, ind + 1)
                # else branch at same level keeps nesting shallow
                self.stmt(ops[2], out, ind)
                return
            if b == '$Case':
                for p in ops:
                    c, v = list(p.find('operands'))
                    if c.tag == 'StringNode' and c.find('StringValue').text == '$Other':
                        self.stmt(v, out, ind)
                        return
                    out.append(pad + 'if %s:' % self.expr(c))
                    self.stmt(v, out, ind + 1)
                out.append(pad + 'raise ValueError("CASE")')
                return
        out.append(pad + 'return ' + self.expr(n))

    # -- expressions
    def expr(self, n):
        t = n.tag
        if t == 'NumeralNode':
            return n.find('IntValue').text
        if t == 'StringNode':
            return repr(n.find('StringValue').text or '')
        if t == 'LetInNode':
            return self.let_expr(n)
        if t == 'OpArgNode':
            a = list(n.find('argument'))[0]
            return self.opref(a)
        if t == 'AtNode':
            return '_at'
        if t == 'OpApplNode':
            return self.app(n)
        raise Unsupported(t)

    def opref(self, a):
        if a.tag == 'FormalParamNodeRef':
            return self.pyname(self.ref(a))
        if a.tag == 'UserDefinedOpKindRef':
            u = self.ref(a)
            if self.name(u) == 'LAMBDA':
                d = self.e[u]
                return '(lambda %s: %s)' % (', '.join(self.pyname(p) for p in self.params(d)),
                                            self.expr(list(d.find('body'))[0]))
            if self.mod_of(self.e[u]) in STD:
                nm = self.name(u)
                k = len(self.params(self.e[u]))
                if nm in NATIVE:
                    vs = ['_o%d' % i for i in range(k)]
                    return '(lambda %s: %s)' % (', '.join(vs), NATIVE[nm].format(*vs))
                raise Unsupported(nm)
            d = self.e[u]
            sa = self.state_args(d) if u in self.toplevel else []
            if sa:
                ps = ['_p%d' % i for i in range(len(self.params(d)))]
                return '(lambda %s: %s(%s))' % (', '.join(ps), self.pyname(u), ', '.join(sa + ps))
            return self.pyname(u)
        raise Unsupported('opref ' + a.tag)

    def let_expr(self, n):
        # nested immediately-applied lambdas, innermost first
        res = self.expr(list(n.find('body'))[0])
        for r in reversed(list(n.find('opDefs'))):
            u = self.ref(r)
            d = self.e[u]
            ps = [self.pyname(p) for p in self.params(d)]
            b = self.expr(list(d.find('body'))[0])
            if ps:
                b = 'lambda %s: %s' % (', '.join(ps), b)
            res = '(lambda %s: %s)(%s)' % (self.pyname(u), res, b)
        return res

    def dom(self, n):
        """a set used only for iteration or membership: keep intervals lazy"""
        if n.tag == 'OpApplNode':
            o = n.find('operator')[0]
            if o.tag == 'UserDefinedOpKindRef' and self.name(self.ref(o)) == '..':
                a, b = [self.expr(x) for x in n.find('operands')]
                return 'range(%s, %s + 1)' % (a, b)
        return self.expr(n)

    def bounds(self, n):
        gens = []
        for b in n.find('boundSymbols'):
            if b.tag != 'bound':
                raise Unsupported('unbounded quantifier')
            kids = list(b)
            tup = any(k.tag == 'tuple' for k in kids)
            vs = [self.pyname(self.ref(k)) for k in kids if k.tag == 'FormalParamNodeRef']
            d = self.dom(kids[-1])
            if tup:
                gens.append(('(%s,)' % ', '.join(vs), d))
            else:
                for v in vs:
                    gens.append((v, d))
        return gens

    def app(self, n):
        o = n.find('operator')[0]
        ops = list(n.find('operands'))
        if o.tag == 'FormalParamNodeRef':
            p = self.pyname(self.ref(o))
            return p if not ops else '%s(%s)' % (p, ', '.join(self.expr(x) for x in ops))
        if o.tag == 'OpDeclNodeRef':
            u = self.ref(o)
            k = self.e[u].find('kind').text     # 2 constant, 3 variable
            if k == '3':
                return 'S[%r]' % self.name(u)
            return sanitize(self.name(u))
        if o.tag == 'UserDefinedOpKindRef':
            u = self.ref(o)
            d = self.e[u]
            nm = self.name(u)
            if self.mod_of(d) in STD:
                if nm == 'SelectSeq':
                    return 'tuple(filter(%s, %s))' % (self.expr(ops[1]), self.expr(ops[0]))
                if nm in ('Nat', 'Int'):
                    raise Unsupported(nm)
                if nm in NATIVE:
                    return NATIVE[nm].format(*[self.expr(x) for x in ops])
                raise Unsupported('standard operator ' + nm)
            sa = self.state_args(d) if u in self.toplevel else []
            args = sa + [self.expr(x) for x in ops]
            if not args:
                return self.pyname(u)
            return '%s(%s)' % (self.pyname(u), ', '.join(args))
        b = self.name(self.ref(o))
        E = self.expr
        if b in ('=', '#', '/='):
            return '(%s %s %s)' % (E(ops[0]), '==' if b == '=' else '!=', E(ops[1]))
        if b in ('$ConjList', '\\land', '/\\'):
            return '(' + ' and '.join(E(x) for x in ops) + ')'
        if b in ('$DisjList', '\\lor', '\\/'):
            return '(' + ' or '.join(E(x) for x in ops) + ')'
        if b in ('\\lnot', '~', '\\neg'):
            return '(not %s)' % E(ops[0])
        if b == '=>':
            return '((not %s) or %s)' % (E(ops[0]), E(ops[1]))
        if b in ('<=>', '\\equiv'):
            return '(%s == %s)' % (E(ops[0]), E(ops[1]))
        if b == 'TRUE':
            return 'True'
        if b == 'FALSE':
            return 'False'
        if b == 'BOOLEAN':
            return 'frozenset((False, True))'
        if b == '\\in':
            return '(%s in %s)' % (E(ops[0]), self.dom(ops[1]))
        if b == '\\notin':
            return '(%s not in %s)' % (E(ops[0]), self.dom(ops[1]))
        if b in ('\\union', '\\cup'):
            return '(%s | %s)' % (E(ops[0]), E(ops[1]))
        if b in ('\\intersect', '\\cap'):
            return '(%s & %s)' % (E(ops[0]), E(ops[1]))
        if b == '\\':
            return '(%s - %s)' % (E(ops[0]), E(ops[1]))
        if b == '\\subseteq':
            return '(%s <= %s)' % (E(ops[0]), E(ops[1]))
        if b == 'DOMAIN':
            return 'domain(%s)' % E(ops[0])
        if b == 'SUBSET':
            return 'powerset(%s)' % E(ops[0])
        if b == 'UNION':
            return 'frozenset().union(*%s)' % E(ops[0])
        if b == '$IfThenElse':
            return '(%s if %s else %s)' % (E(ops[1]), E(ops[0]), E(ops[2]))
        if b == '$Case':
            res, tail = '', 'choose((), None)'
            parts = []
            for p in ops:
                c, v = list(p.find('operands'))
                if c.tag == 'StringNode' and c.find('StringValue').text == '$Other':
                    tail = E(v)
                else:
                    parts.append('%s if %s else ' % (E(v), E(c)))
            return '(' + ''.join(parts) + tail + ')'
        if b == '$Tuple':
            return '(' + ''.join(E(x) + ', ' for x in ops) + ')'
        if b == '$SetEnumerate':
            return 'frozenset((%s))' % ''.join(E(x) + ', ' for x in ops)
        if b == '$RcdConstructor':
            parts = []
            for p in ops:
                k, v = list(p.find('operands'))
                parts.append('%r: %s' % (k.find('StringValue').text, E(v)))
            return 'R({%s})' % ', '.join(parts)
        if b == '$RcdSelect':
            return '%s[%s]' % (E(ops[0]), E(ops[1]))
        if b == '$FcnApply':
            if ops[1].tag == 'StringNode':
                return '%s[%s]' % (E(ops[0]), E(ops[1]))
            return 'ap(%s, %s)' % (E(ops[0]), E(ops[1]))
        if b == '$FcnConstructor':
            g = self.bounds(n)
            if len(g) == 1:
                o1 = self.dom_is_1n(n)
                if o1 is not None:
                    return 'tuple(%s for %s in range(1, %s + 1))' % (E(ops[0]), g[0][0], o1)
                return 'fcn(%s, lambda %s: %s)' % (g[0][1], g[0][0], E(ops[0]))
            vs = ', '.join(v for v, _ in g)
            it = ' '.join('for %s in %s' % x for x in g)
            return 'R({(%s): %s %s})' % (vs, E(ops[0]), it)
        if b == '$Except':
            f = E(ops[0])
            for p in ops[1:]:
                path, v = list(p.find('operands'))
                keys = ''.join(E(x) + ', ' for x in path.find('operands'))
                f = 'exc1(%s, (%s), lambda _at: %s)' % (f, keys, E(v))
            return f
        if b == '$BoundedForall':
            g = self.bounds(n)
            return 'all(%s %s)' % (E(ops[0]), ' '.join('for %s in %s' % x for x in g))
        if b == '$BoundedExists':
            g = self.bounds(n)
            return 'any(%s %s)' % (E(ops[0]), ' '.join('for %s in %s' % x for x in g))
        if b == '$BoundedChoose':
            g = self.bounds(n)
            return 'choose(%s, lambda %s: %s)' % (g[0][1], g[0][0], E(ops[0]))
        if b == '$SubsetOf':
            g = self.bounds(n)
            return 'frozenset(%s for %s in %s if %s)' % (g[0][0], g[0][0], g[0][1], E(ops[0]))
        if b == '$SetOfAll':
            g = self.bounds(n)
            return 'frozenset(%s %s)' % (E(ops[0]), ' '.join('for %s in %s' % x for x in g))
        if b == '$CartesianProd':
            vs = ['_c%d' % i for i in range(len(ops))]
            return 'frozenset((%s,) %s)' % (', '.join(vs), ' '.join('for %s in %s' % (v, E(x)) for v, x in zip(vs, ops)))
        if b in ("'", '$Prime', 'prime'):
            return self.prime(ops[0])
        if b == 'UNCHANGED':
            return '(%s == %s)' % (self.prime(ops[0]), E(ops[0]))
        raise Unsupported('builtin ' + b)

    def dom_is_1n(self, n):
        bs = list(n.find('boundSymbols'))
        if len(bs) != 1:
            return None
        k = list(bs[0])[-1]
        if k.tag == 'OpApplNode':
            o = k.find('operator')[0]
            if o.tag == 'UserDefinedOpKindRef' and self.name(self.ref(o)) == '..':
                a, b = list(k.find('operands'))
                if a.tag == 'NumeralNode' and a.find('IntValue').text == '1':
                    return self.expr(b)
        return None

    def prime(self, n):
        # evaluate the whole expression in the primed state
        e = self.expr(n)
        return re.sub(r"\bS\b(?=\[|,|\))", 'T', e)


def load(module, consts=None, cache=True, memo=()):
    """Compile spec module `module` and return its namespace; `memo` names constant operators whose results are kept."""
    src = source(module, cache)
    ns = dict(RUNTIME)
    ns.update(consts or {})
    exec(compile(src, '<tla:%s>' % module, 'exec'), ns)
    for name in memo:
        if name in ns:
            ns[name] = functools.lru_cache(maxsize=200000)(ns[name])

    class NS:
        pass
    o = NS()
    o.__dict__.update(ns)
    return o


def source(module, cache=True):
    h = hashlib.sha256()
    for f in sorted(os.listdir(SPEC)):
        if f.endswith('.tla'):
            with open(os.path.join(SPEC, f), 'rb') as fh:
                h.update(f.encode() + fh.read())
    with open(os.path.abspath(__file__), 'rb') as fh:
        h.update(fh.read())
    cdir = os.path.join(os.path.dirname(SPEC), '.cache')
    cf = os.path.join(cdir, '%s-%s.py' % (module, h.hexdigest()[:20]))
    if cache and os.path.exists(cf):
        with open(cf, encoding='utf-8') as fh:
            return fh.read()
    src = Compiler(module).compile()
    if cache:
        try:
            os.makedirs(cdir, exist_ok=True)
            for f in os.listdir(cdir):
                p = os.path.join(cdir, f)
                if f.startswith(module + '-') and time.time() - os.path.getmtime(p) > 3600:
                    os.unlink(p)
            tmp = cf + '.%d' % os.getpid()
            with open(tmp, 'w', encoding='utf-8') as fh:
                fh.write(src)
            os.replace(tmp, cf)
        except OSError:
            pass          # another process is writing the same copy
    return src


if __name__ == '__main__':
    print(source(sys.argv[1], cache=False))
