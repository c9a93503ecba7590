"""Symbolic executor for the Python sources of /repo (re-read on every run)."""
import ast
import os
from fractions import Fraction
from . import terms as tm
from .terms import *
from .arrays import *
from . import smt, arrays

REPO = os.environ.get('PYDV_REPO', '/repo')


class Unsupported(EngineError):
    pass


class Infeasible(Exception):
    pass


class PyRaise(Exception):
    def __init__(self, exc):
        self.exc = exc


class Ret(Exception):
    def __init__(self, v): self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class MergeFail(Exception):
    pass


class SExc:
    def __init__(self, name, args=()):
        self.name, self.args = name, args


class OStr:
    """opaque string"""


class Poison:
    def __init__(self, why): self.why = why


class Ext:
    def __init__(self, name): self.name = name

    def __repr__(self): return 'Ext(%s)' % self.name


class ModRef:
    def __init__(self, name): self.name = name


class ClassInfo:
    def __init__(self, name, node, module, bases):
        self.name, self.node, self.module, self.bases = name, node, module, bases
        self.qual = module.name + '.' + name
        self.attrs = {}

    def mro(self):
        # C3 is not needed for this code base: depth first, keep last occurrence
        out = [self]
        for b in self.bases:
            if isinstance(b, ClassInfo):
                out += b.mro()
            else:
                out.append(b)
        res = []
        for i, c in enumerate(out):
            if c not in out[i + 1:]:
                res.append(c)
        return res

    def subclass_of(self, o):
        for c in self.mro():
            if c is o or (isinstance(c, Ext) and isinstance(o, Ext) and c.name == o.name):
                return True
        return False


class SObj:
    def __init__(self, cls):
        self.cls = cls
        self.attrs = {}
        self.view_of = None

    def __repr__(self): return 'SObj(%s)' % self.cls.name


class Func:
    def __init__(self, node, module, closure=None, owner=None, qual=None):
        self.node, self.module, self.closure, self.owner = node, module, closure, owner
        self.qual = qual
        self.static = False
        self.isclass = False
        self.defaults = None


class Bound:
    def __init__(self, obj, func): self.obj, self.func = obj, func


class SMap:
    """map from an axis (class index) to values that are parametric in the index"""

    def __init__(self, ax, keyfn, fn, name='map'):
        self.ax, self.keyfn, self.fn = ax, keyfn, fn
        self.name = name
        self.single = {}      # writes at explicit indices
        self.growing = False  # the keys are being added by the loop that is running

    def whole(self):
        if self.growing:
            raise Unsupported('a dict as a whole while a loop fills it')
        return self


class Module:
    def __init__(self, name, env):
        self.name, self.env = name, env


class Super:
    def __init__(self, obj, cls): self.obj, self.cls = obj, cls


class SymRange:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step


class SymIter:
    """iterable of symbolic length: n, elem(k)"""

    def __init__(self, n, elem): self.n, self.elem = n, elem


def subst_value(v, sub):
    if isinstance(v, T):
        return subst(v, sub)
    if isinstance(v, F):
        return F(subst(v.t, sub))
    if isinstance(v, Arr):
        return subst_arr(v, sub)
    if isinstance(v, tuple):
        return tuple(subst_value(x, sub) for x in v)
    if isinstance(v, list):
        return [subst_value(x, sub) for x in v]
    if isinstance(v, SObj):
        o = SObj(v.cls)
        o.attrs = {k: subst_value(x, sub) for k, x in v.attrs.items()}
        o.view_of = v.view_of
        return o
    if isinstance(v, SMap):
        return SMap(subst_axis(v.ax, sub), v.keyfn, (lambda f: lambda t: subst_value(f(t), sub))(v.fn), v.name)
    if hasattr(v, 'sym_subst'):
        return v.sym_subst(sub)
    return v


def is_num(v):
    return isinstance(v, (int, T, F, Fraction, float)) and not isinstance(v, bool) or isinstance(v, (bool, F))


def has_inf(t):
    for m in t.p:
        for a, e in m:
            if ATOMS[a].kind == 'var' and ATOMS[a].data[0] in ('+inf', '-inf'):
                return True
    return False


class Loader:
    def __init__(self, interp):
        self.modules = {}
        self.interp = interp

    def load(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(REPO, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            raise Unsupported('no module ' + name)
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            tree = ast.parse(open(path).read())
        env = {'__name__': name}
        mod = Module(name, env)
        self.modules[name] = mod
        for st in tree.body:
            try:
                self.top(st, mod)
            except Unsupported as e:
                for t in getattr(st, 'targets', []):
                    if isinstance(t, ast.Name):
                        env[t.id] = Poison(str(e))
        return mod

    def top(self, st, mod):
        env = mod.env
        if isinstance(st, ast.Import):
            for a in st.names:
                env[a.asname or a.name.split('.')[0]] = self.mod_ref(a.name if a.asname else a.name.split('.')[0])
        elif isinstance(st, ast.ImportFrom):
            self.import_from(st, env)
        elif isinstance(st, ast.FunctionDef):
            f = Func(st, mod, None, None, mod.name + '.' + st.name)
            self.interp.bind_defaults(f, env)
            env[st.name] = f
        elif isinstance(st, ast.ClassDef):
            env[st.name] = self.mkclass(st, mod, env)
        elif isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
            env[st.targets[0].id] = self.interp.eval(st.value, Frame(env, mod, None))
        elif isinstance(st, ast.If):
            pass

    def mkclass(self, st, mod, env):
        bases = []
        for b in st.bases:
            try:
                v = self.interp.eval(b, Frame(env, mod, None))
            except EngineError:
                v = Ext('?')
            bases.append(v)
        ci = ClassInfo(st.name, st, mod, bases)
        for s in st.body:
            if isinstance(s, ast.FunctionDef):
                f = Func(s, mod, None, ci, ci.qual + '.' + s.name)
                self.interp.bind_defaults(f, env)
                prop = False
                for d in s.decorator_list:
                    if isinstance(d, ast.Name) and d.id == 'staticmethod':
                        f.static = True
                    elif isinstance(d, ast.Name) and d.id == 'classmethod':
                        f.isclass = True
                    elif isinstance(d, ast.Name) and d.id == 'property':
                        prop = True
                f.prop = prop
                ci.attrs[s.name] = f
            elif isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name):
                ci.attrs[s.targets[0].id] = self.interp.eval(s.value, Frame(env, mod, None))
        return ci

    def import_from(self, st, env):
        base = st.module or ''
        for a in st.names:
            if base.split('.')[0] == 'quantificationlib':
                try:
                    m = self.load(base)
                    if a.name in m.env:
                        env[a.asname or a.name] = m.env[a.name]
                        continue
                except Unsupported:
                    pass
                try:
                    env[a.asname or a.name] = self.load(base + '.' + a.name)
                except Unsupported:
                    env[a.asname or a.name] = Poison('import ' + a.name)
            else:
                env[a.asname or a.name] = self.reference(base, a.name) or Ext(canon_name(base + '.' + a.name))

    def reference(self, base, name):
        """external class or function whose assumed contract is given as reference code (pydv/ext)"""
        path = os.path.join(os.path.dirname(__file__), 'ext', base.replace('.', '_') + '.py')
        if not os.path.exists(path):
            return None
        key = 'ext.' + base
        if key not in self.modules:
            mod = self.modules[key] = Module(base, {'__name__': base})
            for st in ast.parse(open(path).read()).body:
                self.top(st, mod)
        r = self.modules[key].env.get(name)
        if r is not None:
            self.interp.assumed.add('%s.%s (reference code in pydv/ext)' % (base, name))
        return r

    def mod_ref(self, name):
        if name.split('.')[0] == 'quantificationlib':
            return self.load(name)
        return ModRef(name)


def canon_name(n):
    return n


class Frame:
    def __init__(self, env, module, func, cls=None, obj=None):
        self.env, self.module, self.func = env, module, func
        self.cls, self.obj = cls, obj
        self.closure = None
        self.merge0 = 0             # merged regions around the call


BUILTINS = ['len', 'range', 'enumerate', 'zip', 'print', 'isinstance', 'float', 'int', 'abs', 'max', 'min', 'sum', 'round',
            'list', 'tuple', 'dict', 'set', 'sorted', 'super', 'type', 'bool', 'str', 'map', 'getattr', 'setattr', 'hasattr',
            'ValueError', 'TypeError', 'AttributeError', 'NotImplementedError', 'Exception', 'IndexError', 'KeyError',
            'NameError', 'all', 'any', 'RuntimeError', 'reversed', 'pow', 'callable', 'id', 'object', 'ImportError',
            'StopIteration', 'ZeroDivisionError', 'NotFittedError', 'DeprecationWarning', 'UserWarning', 'slice', 'repr']


class Interp:
    MAXDEPTH = 60

    def __init__(self, decisions=(), facts=None, log=None):
        self.loader = Loader(self)
        self.pc = []
        self.decisions = list(decisions)
        self.pos = 0
        self.taken = []
        self.facts = facts or smt.Facts()
        self.obligations = []
        self.undo = []
        self.floors = []
        self.envs = {}          # local variables of the active calls -> serial number
        self.merging = 0
        self.summaries = {}
        self.split_positions = False
        self.invariants = {}
        self.depth = 0
        self.stack = []
        self.functions = set()
        self.trace = []
        self.ghost = {}
        self.lets = []
        self.recurrences = []
        self.loopinvs = []
        self.check_defined = True
        self.models = None
        self.assumed = set()

    # ------------------------------------------------------------ state
    def setloc(self, kind, cont, key, val):
        """all mutations go through here (undo log)"""
        no = self.envs.get(id(cont)) if kind == 'dict' else getattr(cont, 'no', None)
        if not (self.floors and no is not None and no > self.floors[-1]):
            # (an array, opaque object or call frame made since the innermost mark cannot be reached from the state to be restored)
            self.undo.append((kind, cont, key, self.getloc(kind, cont, key)))
        self.rawset(kind, cont, key, val)

    MISSING = object()

    def getloc(self, kind, cont, key):
        if kind == 'dict':
            return cont.get(key, self.MISSING)
        if kind == 'attr':
            return getattr(cont, key)
        if kind == 'list':
            return list(cont)
        raise EngineError(kind)

    def rawset(self, kind, cont, key, val):
        if kind == 'dict':
            if val is self.MISSING:
                cont.pop(key, None)
            else:
                cont[key] = val
        elif kind == 'attr':
            setattr(cont, key, val)
            if isinstance(cont, Cell):
                cont.memo = {}
        elif kind == 'list':
            cont[:] = val

    def mark(self):
        self.floors.append(arrays._cellno[0])
        return len(self.undo)

    def rollback(self, m):
        """undo to mark; returns ordered dict loc -> (kind, cont, key, old, new)"""
        self.floors.pop()
        locs = {}
        for kind, cont, key, old in self.undo[m:]:
            lk = (kind, id(cont), key)
            if lk not in locs:
                locs[lk] = [kind, cont, key, old, None]
        for l in locs.values():
            l[4] = self.getloc(l[0], l[1], l[2])
        while len(self.undo) > m:
            kind, cont, key, old = self.undo.pop()
            self.rawset(kind, cont, key, old)
        return locs

    # ------------------------------------------------------------ logic
    def decide(self, f):
        """True/False when the path condition settles f"""
        f = liftF(f)
        c = f.const()
        if c is not None:
            return c
        if smt.prove(f, self.pc, self.facts, quick=True)[0]:
            return True
        if smt.prove(fnot(f), self.pc, self.facts, quick=True)[0]:
            return False
        return None

    def branch(self, f):
        """decide or fork (by re-execution)"""
        d = self.decide(f)
        if d is not None:
            return d
        if self.merging:
            raise MergeFail('branch on %r inside a merged region' % (f,))
        if self.pos < len(self.decisions):
            d = self.decisions[self.pos]
        else:
            d = True
        self.pos += 1
        self.taken.append(d)
        self.assume(f if d else fnot(f))
        return d

    def assume(self, f):
        f = liftF(f)
        for c in smt.conjuncts(f):
            if c.const() is True:
                continue
            self.pc.append(c)

    def oblige(self, name, goal, kind='goal'):
        goal = liftF(goal)
        if goal.const() is not True:
            goal = self.letF(goal)
        if goal.const() is True:
            self.obligations.append((name, True, 'trivial', kind))
            return True
        ok, how = smt.prove(goal, self.pc, self.facts)
        self.obligations.append((name, ok, how if ok else how + '\ngoal: %r\nunder: %r' % (goal, self.pc), kind))
        if ok:
            self.assume(goal)
        return ok

    def quick(self, c):
        c = liftF(c)
        if c.const() is not None:
            return c.const() is True
        return smt.prove(c, self.pc, self.facts, quick=True)[0]

    def letF(self, f):
        if not self.lets or isinstance(f, smt.RawF):
            return f
        return tm.F(self.letT(f.t))

    def letT(self, t):
        for g in self.lets:
            t = g(t)
        return t

    def add_let(self, g):
        """ghost abbreviation: every term from now on (and the path condition) is rewritten by g"""
        self.lets.append(g)
        pc, self.pc[:] = list(self.pc), []
        for f in pc:
            self.assume(f if isinstance(f, smt.RawF) else tm.F(g(f.t)))

    def oblige_eq(self, name, a, b):
        a, b = self.letT(lift(a)), self.letT(lift(b))
        ok, how = smt.prove_eq(a, b, self.pc, self.facts)
        self.obligations.append((name, ok, how if ok else how + '\nunder: %r' % (self.pc,), 'goal'))
        return ok

    def where(self):
        return self.stack[-1] if self.stack else '?'

    def defined(self, what, goal):
        if not self.check_defined:
            return
        g = liftF(goal)
        if g.const() is True:
            return
        self.oblige('%s: %s' % (self.where(), what), g, 'defined')

    # ------------------------------------------------------------ calls
    def bind_defaults(self, f, env):
        fr = Frame(env, f.module, None)
        a = f.node.args
        f.defaults = [self.eval_default(d, fr) for d in a.defaults]
        f.kwdefaults = [None if d is None else self.eval_default(d, fr) for d in a.kw_defaults]

    def eval_default(self, d, fr):
        try:
            return self.eval(d, fr)
        except EngineError as e:
            return Poison('default value: %s' % e)

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        if isinstance(f, Bound):
            return self.call(f.func, [f.obj] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, list(args), kwargs)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Ext):
            return self.call_ext(f.name, args, kwargs)
        if callable(f):
            return f(*args, **kwargs)
        if isinstance(f, SObj) and self.lookup(f.cls, '__call__') is not None:
            return self.call(self.lookup(f.cls, '__call__'), [f] + list(args), kwargs)
        raise Unsupported('call of %r' % (f,))

    def call_ext(self, name, args, kwargs):
        m = self.models.get(name)
        if m is None:
            raise Unsupported('no contract for external function %s' % name)
        self.assumed.add(name)
        return m(*args, **kwargs)

    def instantiate(self, ci, args, kwargs):
        s = self.summaries.get(ci.qual)
        if s is not None:
            return s(*args, **kwargs)
        o = SObj(ci)
        init = self.lookup(ci, '__init__')
        if init is not None and isinstance(init, Func):
            self.call_func(init, [o] + list(args), kwargs)
        return o

    def lookup(self, ci, name):
        for c in ci.mro():
            if isinstance(c, ClassInfo) and name in c.attrs:
                return c.attrs[name]
        return None

    def bind_args(self, f, args, kwargs):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        env = {}
        pos = list(args)
        for n in names:
            if pos:
                env[n] = pos.pop(0)
        if pos:
            if a.vararg:
                env[a.vararg.arg] = tuple(pos)
            else:
                raise PyRaise(SExc('TypeError', ('too many positional arguments',)))
        elif a.vararg:
            env[a.vararg.arg] = ()
        kw = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kwargs.items():
            if k in names or k in konly:
                if k in env:
                    raise PyRaise(SExc('TypeError', ('multiple values for ' + k,)))
                env[k] = v
            elif a.kwarg:
                kw[k] = v
            else:
                raise PyRaise(SExc('TypeError', ('unexpected keyword ' + k,)))
        if a.kwarg:
            env[a.kwarg.arg] = kw
        d = f.defaults
        for n, v in zip(names[len(names) - len(d):], d):
            if n not in env:
                env[n] = v
        for n, v in zip(konly, f.kwdefaults):
            if n not in env and v is not None:
                env[n] = v
        for n in names + konly:
            if n not in env:
                # default None for keyword-only args with explicit None
                if n in konly:
                    env[n] = None
                    continue
                raise PyRaise(SExc('TypeError', ('missing argument ' + n,)))
        return env

    def call_func(self, f, args, kwargs):
        s = self.summaries.get(f.qual)
        if s is not None and not (self.stack and s is self.summaries.get('!' + f.qual)):
            env = self.bind_args(f, args, kwargs)
            return s(self, env)
        if len(self.stack) > self.MAXDEPTH:
            raise Unsupported('recursion without contract: %s' % f.qual)
        env = self.bind_args(f, args, kwargs)
        obj = args[0] if (f.owner is not None and not f.static and args) else None
        fr = Frame(env, f.module, f, f.owner, obj)
        fr.closure = f.closure
        fr.merge0 = self.merging
        if f.qual:
            self.functions.add(f.qual)
        self.stack.append(f.qual or '<lambda>')
        fr.loopno = 0
        arrays._cellno[0] += 1
        self.envs[id(env)] = arrays._cellno[0]
        try:
            self.block(f.node.body, fr)
            return None
        except Ret as r:
            return r.v
        finally:
            self.stack.pop()
            del self.envs[id(env)]

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for i, st in enumerate(body):
            if isinstance(st, ast.If) and self.merging and self.has_jump(st):
                # `if c: continue` inside a merged region: the rest is executed under the negation
                c = self.truth(self.eval(st.test, fr))
                d = self.decide(c) if not isinstance(c, bool) else c
                if d is None:
                    rest = body[i + 1:]
                    self.merge_if(c, lambda: self.block(st.body + ([] if self.ends_jump(st.body) else rest), fr),
                                  lambda: self.block(st.orelse + ([] if self.ends_jump(st.orelse) else rest), fr))
                    return
                self.block(st.body if d else st.orelse, fr)
                continue
            self.stmt(st, fr)

    def has_jump(self, st):
        return any(isinstance(n, (ast.Continue, ast.Break, ast.Return, ast.Raise)) for b in (st.body, st.orelse) for s in b
                   for n in self.walk_noloop(s))

    def walk_noloop(self, s):
        yield s
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.Lambda)):
            return
        for c in ast.iter_child_nodes(s):
            yield from self.walk_noloop(c)

    def ends_jump(self, body):
        return bool(body) and isinstance(body[-1], (ast.Continue, ast.Break, ast.Return, ast.Raise))

    def stmt(self, st, fr):
        m = getattr(self, 's_' + type(st).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(st).__name__)
        return m(st, fr)

    def s_Expr(self, st, fr):
        if isinstance(st.value, ast.Constant):
            return
        self.eval(st.value, fr)

    def s_Pass(self, st, fr): pass

    def s_Import(self, st, fr):
        for a in st.names:
            fr.env[a.asname or a.name.split('.')[0]] = self.loader.mod_ref(a.name if a.asname else a.name.split('.')[0])

    def s_ImportFrom(self, st, fr):
        self.loader.import_from(st, fr.env)

    def s_Global(self, st, fr): raise Unsupported('global')

    def s_Assert(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if not self.branch(c):
            raise PyRaise(SExc('AssertionError'))

    def s_FunctionDef(self, st, fr):
        f = Func(st, fr.module, fr, None, (fr.func.qual if fr.func else '') + '.' + st.name)
        self.bind_defaults(f, fr.env)
        self.setloc('dict', fr.env, st.name, f)

    def s_ClassDef(self, st, fr):
        self.setloc('dict', fr.env, st.name, self.loader.mkclass(st, fr.module, fr.env))

    def s_Return(self, st, fr):
        if self.merging > fr.merge0:
            raise MergeFail('return inside a merged region')
        raise Ret(self.eval(st.value, fr) if st.value is not None else None)

    def s_Raise(self, st, fr):
        if st.exc is None:
            raise Unsupported('re-raise')
        v = self.eval(st.exc, fr)
        if isinstance(v, Ext):
            v = SExc(v.name.split('.')[-1])
        raise PyRaise(v)

    def s_Break(self, st, fr): raise Brk()

    def s_Continue(self, st, fr): raise Cont()

    def s_Delete(self, st, fr):
        for t in st.targets:
            if isinstance(t, ast.Name):
                self.setloc('dict', fr.env, t.id, self.MISSING)
            else:
                raise Unsupported('del')

    def s_With(self, st, fr):
        for it in st.items:
            v = self.eval(it.context_expr, fr)
            if it.optional_vars is not None:
                raise Unsupported('with ... as')
        self.block(st.body, fr)

    def s_Assign(self, st, fr):
        v = self.eval(st.value, fr)
        for t in st.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, st, fr):
        if st.value is not None:
            self.assign(st.target, self.eval(st.value, fr), fr)

    def s_AugAssign(self, st, fr):
        op = type(st.op).__name__
        tgt = st.target
        if isinstance(tgt, ast.Name):
            cur = self.lookup_name(tgt.id, fr)
            v = self.eval(st.value, fr)
            if isinstance(cur, Arr):
                self.arr_store(cur, self.binop(op, cur, v))
            elif isinstance(cur, list) and op == 'Add':
                self.setloc('list', cur, None, cur + list(v))
            else:
                self.setloc('dict', fr.env, tgt.id, self.binop(op, cur, v))
        elif isinstance(tgt, ast.Attribute):
            o = self.eval(tgt.value, fr)
            cur = self.getattr(o, tgt.attr)
            v = self.eval(st.value, fr)
            if isinstance(cur, Arr):
                self.arr_store(cur, self.binop(op, cur, v))
            else:
                self.setattr(o, tgt.attr, self.binop(op, cur, v))
        elif isinstance(tgt, ast.Subscript):
            o = self.eval(tgt.value, fr)
            k = self.eval_index(tgt.slice, fr)
            cur = self.getitem(o, k)
            v = self.eval(st.value, fr)
            self.setitem(o, k, self.binop(op, cur, v))
        else:
            raise Unsupported('augmented assignment')

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.setloc('dict', fr.env, t.id, v)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.eval(t.value, fr), self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, x in enumerate(t.elts) if isinstance(x, ast.Starred)]
            if star:
                i, after = star[0], len(t.elts) - star[0] - 1
                if isinstance(v, Arr) and axis_len(v.axes[0]).const() is not None:
                    v = self.unpack(v, int(axis_len(v.axes[0]).const()))
                if not isinstance(v, (tuple, list)):
                    raise Unsupported('unpacking with a star')
                if len(v) < i + after:
                    raise PyRaise(SExc('ValueError', ('unpack',)))
                j = len(v) - after
                for x, y in zip(t.elts, list(v[:i]) + [list(v[i:j])] + list(v[j:])):
                    self.assign(x.value if isinstance(x, ast.Starred) else x, y, fr)
                return
            vs = self.unpack(v, len(t.elts), t)
            for x, y in zip(t.elts, vs):
                self.assign(x, y, fr)
        else:
            raise Unsupported('assignment target')

    def unpack(self, v, n, t=None):
        if isinstance(v, (tuple, list)):
            if len(v) != n:
                raise PyRaise(SExc('ValueError', ('unpack',)))
            return list(v)
        if isinstance(v, Arr):
            if axis_len(v.axes[0]).const() != n:
                raise Unsupported('unpacking an array of symbolic length')
            return [self.getitem(v, i) for i in range(n)]
        raise Unsupported('unpacking %r' % (v,))

    def s_If(self, st, fr):
        c = self.truth(self.eval(st.test, fr))
        if isinstance(c, bool):
            return self.block(st.body if c else st.orelse, fr)
        d = self.decide(c)
        if d is not None:
            return self.block(st.body if d else st.orelse, fr)
        if self.merging or getattr(fr, 'merge_ifs', False):
            return self.merge_if(c, lambda: self.block(st.body, fr), lambda: self.block(st.orelse, fr))
        return self.block(st.body if self.branch(c) else st.orelse, fr)

    def merge_if(self, c, f1, f2):
        res = []
        npc = len(self.pc)
        self.merging += 1
        jumps = []
        try:
            for cond, f in ((c, f1), (fnot(c), f2)):
                m = self.mark()
                self.assume(cond)
                j = None
                try:
                    f()
                except Cont:
                    j = 'cont'
                except Brk:
                    raise MergeFail('break in a merged region')
                except PyRaise as e:
                    j = e
                finally:
                    facts_learned = self.pc[npc:]
                    del self.pc[npc:]
                    locs = self.rollback(m)
                res.append(locs)
                jumps.append(j)
        finally:
            self.merging -= 1
        if jumps[0] != jumps[1]:
            exs = [j for j in jumps if isinstance(j, PyRaise)]
            if exs and not all(isinstance(j, PyRaise) for j in jumps):
                # one side raises: it has to be unreachable
                k = 0 if isinstance(jumps[0], PyRaise) else 1
                raise MergeFail('exception %s may be raised on a symbolic branch' % getattr(jumps[k].exc, 'name', '?'))
        l1, l2 = res
        for lk in list(l1) + [x for x in l2 if x not in l1]:
            kind, cont, key, old, _ = (l1.get(lk) or l2.get(lk))
            v1 = l1[lk][4] if lk in l1 else old
            v2 = l2[lk][4] if lk in l2 else old
            if key == 'wlog' and isinstance(cont, Cell) and v1 is not v2:       # which entries have been written
                g1, g2 = v1 or (lambda i: FALSE), v2 or (lambda i: FALSE)
                self.setloc(kind, cont, key, memoize(lambda i, g1=g1, g2=g2: ite(c, g1(i), g2(i))))
                continue
            self.setloc(kind, cont, key, self.merge_val(c, v1, v2, cont))
        if jumps[0] is not None and jumps[0] == jumps[1]:
            raise Cont()

    def merge_val(self, c, a, b, cont=None):
        if a is b:
            return a
        if a is self.MISSING or b is self.MISSING:
            return Poison('defined on one branch only')
        if isinstance(a, Poison) or isinstance(b, Poison):
            return a if isinstance(a, Poison) else b
        if is_num(a) and is_num(b):
            if not isinstance(a, (T, F)) and not isinstance(b, (T, F)) and a == b and type(a) is type(b):
                return a
            return ite(c, a if isinstance(a, (F, bool)) else lift(a), b if isinstance(b, (F, bool)) else lift(b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.ndim == b.ndim and all(axis_same(x, y) for x, y in zip(a.axes, b.axes)):
                f, g = a.snap(), b.snap()
                return Arr(a.axes, lambda idx: ite(c, f(idx), g(idx)), a.kind)
            raise MergeFail('arrays of different shape')
        if isinstance(cont, Cell) and callable(a) and callable(b):
            return memoize(lambda idx: self.merge_el(c, a(idx), b(idx)))
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        if isinstance(a, list) and isinstance(b, list) and len(a) == len(b):
            return [self.merge_val(c, x, y) for x, y in zip(a, b)]
        try:
            if type(a) is type(b) and a == b:
                return a
        except EngineError:
            pass
        raise MergeFail('cannot merge %s and %s' % (type(a).__name__, type(b).__name__))

    def merge_el(self, c, a, b):
        if a is b:
            return a
        if is_num(a) and is_num(b):
            if isinstance(a, F) != isinstance(b, F):
                a, b = lift(a), lift(b)
            return ite(c, a, b)
        raise MergeFail('cannot merge elements')

    def s_Try(self, st, fr):
        npos = len(self.stack)
        try:
            self.block(st.body, fr)
        except PyRaise as e:
            for h in st.handlers:
                if self.exc_matches(e.exc, h, fr):
                    if h.name:
                        fr.env[h.name] = e.exc
                    self.block(h.body, fr)
                    return
            raise
        else:
            self.block(st.orelse, fr)
        finally:
            if st.finalbody:
                self.block(st.finalbody, fr)

    EXC_PARENTS = {'LinAlgError': ['ValueError', 'Exception'], 'NotFittedError': ['ValueError', 'AttributeError', 'Exception'],
                   'SolverError': ['Exception']}

    def exc_matches(self, exc, h, fr):
        if h.type is None:
            return True
        t = self.eval(h.type, fr)
        ts = t if isinstance(t, tuple) else (t,)
        for x in ts:
            n = (x.name if isinstance(x, (Ext, ClassInfo)) else str(x)).split('.')[-1]
            if n == exc.name or n in self.EXC_PARENTS.get(exc.name, ['Exception']) or n in ('Exception', 'BaseException'):
                return True
        return False

    # ------------------------------------------------------------ loops
    UNROLL = 8

    def s_For(self, st, fr):
        it = self.eval(st.iter, fr)
        lno = self.loop_ordinal(st, fr)
        if isinstance(it, Arr) and len(it.axes[0]) == 1 and it.axes[0][0].guard is not None and self.find_inv(fr, lno) is None and not st.orelse:
            # `for x in a[selected]`: every position in order, the body only where selected
            sg, f, kd, axs = it.axes[0][0], it.snap(), it.kind, it.axes[1:]
            seq = SymIter(sg.n, (lambda k: f(((0, k),))) if not axs else (lambda k: Arr(axs, lambda idx: f(((0, k),) + idx), kd)))
            from .loops import summarise
            return summarise(self, st, fr, seq, sg.g)
        seq = self.as_iter(it)
        if isinstance(seq, SymIter):
            n = lift(seq.n)
            c = n.const()
            if c is not None and c <= 0:
                return
            if c is not None and c <= self.UNROLL:
                seq = [(lambda k: (lambda: seq_elem(k)))(k) for k in range(int(c))]
                el = seq_elem = None
                raise EngineError('unreachable')
            inv = self.find_inv(fr, lno)
            if inv is not None:
                return inv(self, st, fr, seq)
            if self.loopinvs:
                from . import loopinv
                m = loopinv.find(self, st, fr)
                if m is not None:
                    return loopinv.run(self, st, fr, seq, *m)
            if self.recurrences and any(isinstance(x, ast.Break) for b in st.body for x in ast.walk(b)):
                from . import whiles
                return whiles.run(self, st, fr, self.recurrences[0])
            return self.sum_loop(st, fr, seq)
        for x in seq:
            self.assign(st.target, x, fr)
            try:
                self.block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue
        if st.orelse:
            self.block(st.orelse, fr)

    def loop_ordinal(self, st, fr):
        if fr.func is None or not isinstance(fr.func.node, ast.FunctionDef):
            return 0
        loops = [n for n in ast.walk(fr.func.node) if isinstance(n, (ast.For, ast.While))]
        loops.sort(key=lambda n: (n.lineno, n.col_offset))
        return loops.index(st) if st in loops else -1

    def find_inv(self, fr, lno):
        q = fr.func.qual if fr.func else None
        return self.invariants.get((q, lno))

    def as_iter(self, it):
        if isinstance(it, (list, tuple)):
            return list(it)
        if isinstance(it, (set, dict)):
            return list(it)
        if isinstance(it, range):
            return list(it)
        if isinstance(it, SymIter):
            c = lift(it.n).const()
            if c is not None and c <= self.UNROLL:
                return [it.elem(const(i)) if False else it.elem(int(i)) for i in range(int(c))]
            return it
        if isinstance(it, Arr):
            ax = it.axes[0]
            if not is_plain(ax):
                raise Unsupported('iteration over a filtered array')
            return self.as_iter(SymIter(ax[0].n, lambda k: self.getitem(it, k, nobound=True)))
        if isinstance(it, SMap):
            return self.as_iter(SymIter(it.whole().ax[0].n, it.keyfn if it.keyfn is not None else (lambda k: self.smap_get(it, k))))
        raise Unsupported('iteration over %s' % type(it).__name__)

    def sum_loop(self, st, fr, seq):
        from .loops import summarise
        return summarise(self, st, fr, seq)

    def counting(self, st, fr, returns=False):
        """while i < N: ...; i += 1  with a symbolic N that does not change: (start, N, name of i)"""
        t, body = st.test, st.body
        if st.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or len(body) < 2:
            return None
        l, op, r = t.left, t.ops[0], t.comparators[0]
        if isinstance(op, (ast.Gt, ast.GtE)):
            l, op, r = r, (ast.Lt if isinstance(op, ast.Gt) else ast.LtE)(), l
        if not isinstance(op, (ast.Lt, ast.LtE)) or not isinstance(l, ast.Name):
            return None
        i, last = l.id, body[-1]
        one = lambda v: isinstance(v, ast.Constant) and v.value == 1 and type(v.value) is int
        isi = lambda v: isinstance(v, ast.Name) and v.id == i
        step = isinstance(last, ast.AugAssign) and isinstance(last.op, ast.Add) and isi(last.target) and one(last.value) or \
            isinstance(last, ast.Assign) and len(last.targets) == 1 and isi(last.targets[0]) and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) \
            and (isi(last.value.left) and one(last.value.right) or one(last.value.left) and isi(last.value.right))
        if not step:
            return None
        inner = [n for b in body[:-1] for n in ast.walk(b)]
        if any(isinstance(n, (ast.Break, ast.Continue, ast.Lambda)) or isinstance(n, ast.Return) and not returns for n in inner):
            return None
        stored = {n.id for n in inner if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
            {n.attr for n in inner if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
        if i in stored:
            return None
        for n in ast.walk(r):
            if isinstance(n, ast.Name) and n.id in stored | {i} or isinstance(n, ast.Attribute) and n.attr in stored:
                return None
            if isinstance(n, ast.Call) and not (isinstance(n.func, ast.Name) and n.func.id == 'len'):
                return None
            if not isinstance(n, (ast.Name, ast.Attribute, ast.Call, ast.Constant, ast.BinOp, ast.Add, ast.Sub, ast.Mult, ast.FloorDiv, ast.Load, ast.Subscript)):
                return None
        # the bound: a number, or the length or shape of something (whose elements the body may change, not its length)
        lo, hi = fr.env.get(i), self.eval(r, fr)
        if isinstance(lo, bool) or not is_num(lo) or isinstance(hi, bool) or not is_num(hi) or not lift(lo).isint() or not lift(hi).isint():
            return None
        if any(isinstance(n, ast.Subscript) for n in ast.walk(r)) and not all(isinstance(n.value, ast.Attribute) and n.value.attr == 'shape' for n in ast.walk(r) if isinstance(n, ast.Subscript)):
            return None
        lo, hi = lift(lo), lift(hi) + (1 if isinstance(op, ast.LtE) else 0)
        if (hi - lo).const() is not None:
            return None
        # lists that grow in the body would change their length
        if any(isinstance(n, ast.Attribute) and n.attr in ('append', 'extend', 'insert', 'pop', 'remove', 'clear') for n in inner) and any(isinstance(n, ast.Call) for n in ast.walk(r)):
            return None
        return lo, hi, i

    def asfor(self, st, name):
        loop = ast.For(ast.Name(name, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [], []), st.body[:-1], [])
        ast.copy_location(loop, st)
        return ast.fix_missing_locations(loop)

    def s_While(self, st, fr):
        lno = self.loop_ordinal(st, fr)
        inv = self.find_inv(fr, lno)
        if inv is not None:
            return inv(self, st, fr, None)
        count = 0
        if self.loopinvs:
            from . import loopinv
            f = self.counting(st, fr, True)
            if f is not None:
                lo, hi, name = f
                loop = self.asfor(st, name)
                m = loopinv.find(self, loop, fr)
                if m is not None:
                    loopinv.run(self, loop, fr, SymIter(hi - lo, lambda k: self.unlift(lo + lift(k))), *m)
                    self.setloc('dict', fr.env, name, self.unlift(maxv(lo, hi)))
                    return
            m = loopinv.find(self, st, fr)
            if m is not None:
                return loopinv.run(self, st, fr, None, *m)
        if self.recurrences:
            from . import whiles
            return whiles.run(self, st, fr, self.recurrences[0])
        f = self.counting(st, fr)
        if f is not None:
            lo, hi, name = f
            loop = self.asfor(st, name)
            from .loops import summarise
            summarise(self, loop, fr, SymIter(hi - lo, lambda k: self.unlift(lo + lift(k))))
            self.setloc('dict', fr.env, name, self.unlift(maxv(lo, hi)))
            return
        heads = []
        while True:
            from . import randoms, loopinv
            if randoms.restart(self, st, fr, heads, None):
                raise loopinv.PathEnd()
            c = self.truth(self.eval(st.test, fr))
            d = c if isinstance(c, bool) else self.decide(c)
            if d is None:
                if not getattr(self, 'unroll_while', 0) or self.merging:
                    raise Unsupported('while loop without invariant')
                if count > self.unroll_while:
                    raise Unsupported('while loop: too many unrollings')
                d = self.branch(c)
            if not d:
                break
            count += 1
            if count > 200:
                raise Unsupported('while loop: too many unrollings')
            try:
                self.block(st.body, fr)
            except Brk:
                return
            except Cont:
                continue

    # ------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        if isinstance(e.value, float):
            return const(e.value)
        return e.value

    def lookup_name(self, n, fr):
        f = fr
        while f is not None:
            if n in f.env:
                v = f.env[n]
                if isinstance(v, Poison):
                    raise Unsupported('read of %s: %s' % (n, v.why))
                return v
            f = f.closure
        if n in fr.module.env:
            v = fr.module.env[n]
            if isinstance(v, Poison):
                raise Unsupported('read of %s: %s' % (n, v.why))
            return v
        if n in BUILTINS:
            return Ext('builtins.' + n)
        raise PyRaise(SExc('NameError', (n,)))

    def e_Name(self, e, fr):
        if e.id == '__class__':
            return fr.cls
        return self.lookup_name(e.id, fr)

    def e_Tuple(self, e, fr):
        return tuple(self.elts(e.elts, fr))

    def e_List(self, e, fr):
        return self.elts(e.elts, fr)

    def e_Set(self, e, fr):
        return set(self.elts(e.elts, fr))

    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                out += list(self.as_iter(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                d[self.eval(k, fr)] = self.eval(v, fr)
        return d

    def e_JoinedStr(self, e, fr): return OStr()

    def e_Lambda(self, e, fr):
        node = ast.FunctionDef(name='<lambda>', args=e.args, body=[ast.Return(value=e.body)], decorator_list=[])
        f = Func(node, fr.module, fr, None, None)
        self.bind_defaults(f, fr.env)
        return f

    def e_IfExp(self, e, fr):
        c = self.truth(self.eval(e.test, fr))
        if isinstance(c, bool):
            return self.eval(e.body if c else e.orelse, fr)
        d = self.decide(c)
        if d is None and self.merging:
            npc = len(self.pc)
            self.assume(c)
            a = self.eval(e.body, fr)
            del self.pc[npc:]
            self.assume(fnot(c))
            b = self.eval(e.orelse, fr)
            del self.pc[npc:]
            return self.merge_val(c, a, b)
        if d is None:
            d = self.branch(c)
        return self.eval(e.body if d else e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        npc = len(self.pc)
        try:
            for i, x in enumerate(e.values):
                v = self.eval(x, fr)
                if not isinstance(v, (F, T, bool, Arr)):
                    # python value semantics
                    t = self.truth(v)
                    if acc is None:
                        if isand and not t:
                            return v
                        if not isand and t:
                            return v
                        if i == len(e.values) - 1:
                            return v
                        continue
                    v = t
                c = self.truth(v)
                if isinstance(c, bool) and acc is None:
                    if isand and not c:
                        return False
                    if not isand and c:
                        return True
                    if i == len(e.values) - 1:
                        return c if not isinstance(v, (F, T)) else v
                    continue
                cf = liftF(c)
                d = self.decide(cf)
                if d is not None:
                    if isand and not d:
                        return False if acc is None else fand(acc, FALSE)
                    if not isand and d:
                        return True if acc is None else forr(acc, TRUE)
                    continue
                acc = cf if acc is None else (fand(acc, cf) if isand else forr(acc, cf))
                # short circuit: the rest is only evaluated when it matters
                self.assume(cf if isand else fnot(cf))
        finally:
            del self.pc[npc:]
        if acc is None:
            return isand
        return acc

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.truth(v)
            return (not c) if isinstance(c, bool) else fnot(c)
        if isinstance(e.op, ast.USub):
            if isinstance(v, Arr):
                f = v.snap()
                return Arr(v.axes, lambda i: self.neg(f(i)), v.kind)
            return self.neg(v)
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr):
                f = v.snap()
                return Arr(v.axes, lambda i: fnot(f(i)), 'bool')
            if isinstance(v, F):
                return fnot(v)
            if isinstance(v, int):
                return ~v
            raise Unsupported('~')
        if isinstance(e.op, ast.UAdd):
            return v
        raise Unsupported('unary operator')

    def neg(self, v):
        if isinstance(v, F):
            return -v.t
        if isinstance(v, T) and v is PINF:
            return NINF
        if isinstance(v, T) and v is NINF:
            return PINF
        return -v

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(type(e.op).__name__, a, b)

    def binop(self, op, a, b):
        if isinstance(a, (str, OStr)):
            if op in ('Mod', 'Add'):
                if isinstance(a, str) and isinstance(b, str) and op == 'Add':
                    return a + b
                return OStr()
            if op == 'Mult':
                return OStr()
        if isinstance(b, OStr):
            return OStr()
        if hasattr(a, 'sym_binop') or hasattr(b, 'sym_binop'):
            return (a.sym_binop(self, op, a, b) if hasattr(a, 'sym_binop') else b.sym_binop(self, op, a, b))
        if isinstance(a, list) and isinstance(b, list) and op == 'Add':
            return a + b
        if isinstance(a, tuple) and isinstance(b, tuple) and op == 'Add':
            return a + b
        if isinstance(a, list) and op == 'Mult' and not isinstance(b, Arr):
            c = lift(b).const()
            if c is not None:
                return a * int(c)
            if len(a) == 1:
                v = a[0]
                r = Arr([axis(b)], lambda i: v, 'obj' if not is_num(v) else 'num')
                r.islist = True
                return r
            raise Unsupported('list * symbolic')
        if isinstance(a, list) and op == 'Add' and isinstance(b, Arr) and b.islist:
            return self.np.concat([self.np.arr(a), b], aslist=True)
        if isinstance(b, list) and op == 'Add' and isinstance(a, Arr) and a.islist:
            return self.np.concat([a, self.np.arr(b)], aslist=True)
        if op == 'MatMult':
            return self.np.dot(a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = self.np.arr(a)
            if isinstance(b, (list, tuple)):
                b = self.np.arr(b)
            kind = 'bool' if op in ('BitAnd', 'BitOr', 'BitXor') else 'num'
            if op in ('Add', 'Sub', 'Mult', 'FloorDiv', 'Mod') and self.kindof(a) in ('int', 'bool') and self.kindof(b) in ('int', 'bool'):
                kind = 'int'
            if op in ('Div',):
                self.div_obl(b)
            return self.np.ew(lambda x, y: self.sc(op, x, y, True), [a, b], kind)
        return self.sc(op, a, b)

    def kindof(self, a):
        if isinstance(a, Arr):
            return a.kind
        if isinstance(a, (bool, F)):
            return 'bool'
        if isinstance(a, int):
            return 'int'
        if isinstance(a, T):
            # an integral constant that is not a Python int was written as a float
            return 'int' if a.isint() and a.const() is None else 'num'
        return 'num'

    def div_obl(self, b):
        if not self.check_defined:
            return
        if isinstance(b, Arr):
            f = b.snap()
            vs, hy = self.skolem(b.axes)
            for idx, h in vs:
                npc = len(self.pc)
                self.assume(h)
                self.defined('denominator is non-zero', fnot(eq(lift(f(idx)), ZERO)))
                del self.pc[npc:]
        else:
            self.defined('denominator is non-zero', fnot(eq(lift(b), ZERO)))

    def skolem(self, axes):
        """all segment combinations: list of (index, hypothesis)"""
        outs = [((), TRUE)]
        for ax in axes:
            nxt = []
            for (idx, h) in outs:
                for s, v, g in fresh_index(ax):
                    n = ax[s].n
                    if n.const() is not None and n.const() <= 6 and ax[s].guard is None:
                        for q in range(int(n.const())):
                            nxt.append((idx + ((s, const(q)),), h))
                        continue
                    h2 = fand(h, g)
                    nxt.append((idx + ((s, v),), h2))
            outs = nxt
        return outs, None

    def sc(self, op, a, b, noobl=False):
        """scalar binary operation"""
        for x in (a, b):
            if x is None or isinstance(x, (str, SObj)):
                raise PyRaise(SExc('TypeError'))
        if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool) and not isinstance(b, bool):
            if op == 'Add':
                return a + b
            if op == 'Sub':
                return a - b
            if op == 'Mult':
                return a * b
            if op == 'FloorDiv' and b != 0:
                return a // b
            if op == 'Mod' and b != 0:
                return a % b
            if op == 'Pow' and b >= 0:
                return a ** b
            if op == 'Div' and b != 0:
                return const(Fraction(a, b))
        if op in ('BitAnd', 'BitOr', 'BitXor'):
            x, y = liftF(a), liftF(b)
            return fand(x, y) if op == 'BitAnd' else forr(x, y) if op == 'BitOr' else tm.xor(x, y)
        x, y = lift(a), lift(b)
        if has_inf(x) or has_inf(y):
            return self.inf_op(op, x, y)
        if op == 'Add':
            return x + y
        if op == 'Sub':
            return x - y
        if op == 'Mult':
            return x * y
        if op == 'Div':
            if not noobl:
                self.defined('denominator is non-zero', fnot(eq(y, ZERO)))
            return x / y
        if op == 'Pow':
            c = y.const()
            if c is None:
                return app('pow', (x, y))
            if c == Fraction(1, 2):
                return self.np.sqrt_s(x)
            if c.denominator != 1:
                return app('pow', (x, y))
            return x ** int(c)
        if op in ('FloorDiv', 'Mod'):
            if not (x.isint() and y.isint()):
                raise Unsupported('// on reals')
            if not noobl:
                self.defined('divisor is positive', lt(ZERO, y))
            return tm.idiv(x, y) if op == 'FloorDiv' else tm.imod(x, y)
        raise Unsupported('operator ' + op)

    def inf_op(self, op, x, y):
        raise Unsupported('arithmetic on infinities')

    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, F):
            c = v.const()
            return v if c is None else c
        if v is None:
            return False
        if isinstance(v, T):
            c = v.const()
            if c is not None:
                return c != 0
            return fnot(eq(v, ZERO))
        if isinstance(v, (str, list, tuple, dict, int, set)):
            return bool(v)
        if isinstance(v, Arr):
            if v.ndim == 0:
                return self.truth(v.at())
            if all(is_one(a) for a in v.axes):
                return self.truth(v.at(*[0] * v.ndim))
            raise Unsupported('truth value of an array')
        if isinstance(v, (SObj, Func, Ext, ClassInfo, OStr, SMap)):
            return True
        if hasattr(v, 'sym_truth'):
            return v.sym_truth()
        return True

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        acc = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.compare(type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            c = self.truth(c)
            acc = c if acc is None else ((acc and c) if isinstance(acc, bool) and isinstance(c, bool) else fand(acc, c))
            left = right
        return acc

    def compare(self, op, a, b):
        if op in ('Is', 'IsNot'):
            if isinstance(b, bool) or isinstance(a, bool):
                r = a is b
            elif a is None or b is None:
                r = a is b
            else:
                r = a is b
            return r if op == 'Is' else not r
        if op in ('In', 'NotIn'):
            if isinstance(b, (list, tuple, set, dict)):
                if any(isinstance(x, (T, F, Arr)) for x in list(b) + [a]):
                    r = forr(*[liftF(self.compare('Eq', a, x)) for x in b])
                    return r if op == 'In' else fnot(r)
                r = a in b
                return r if op == 'In' else not r
            raise Unsupported('in')
        if hasattr(a, 'sym_compare'):
            return a.sym_compare(self, op, a, b)
        if hasattr(b, 'sym_compare'):
            return b.sym_compare(self, op, a, b)
        if isinstance(a, Arr) or isinstance(b, Arr):
            if isinstance(a, (list, tuple)):
                a = self.np.arr(a)
            if isinstance(b, (list, tuple)):
                b = self.np.arr(b)
            if a is None or b is None or isinstance(a, (str, bool)) or isinstance(b, (str, bool)):
                if op == 'Eq':
                    return self.np.ew(lambda x: FALSE, [a if isinstance(a, Arr) else b], 'bool') if not isinstance(b, bool) else \
                        self.np.ew(lambda x: liftF(x) if b else fnot(liftF(x)), [a], 'bool')
                raise Unsupported('comparison')
            return self.np.ew(lambda x, y: self.cmp(op, x, y), [a, b], 'bool')
        return self.cmp(op, a, b)

    def cmp(self, op, a, b):
        num = (int, T, F, Fraction, bool)
        if isinstance(a, num) and isinstance(b, num):
            if not isinstance(a, (T, F)) and not isinstance(b, (T, F)):
                return {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
            x, y = lift(a), lift(b)
            if has_inf(x) or has_inf(y):
                return self.cmp_inf(op, x, y)
            if op == 'Eq':
                return eq(x, y)
            if op == 'NotEq':
                return fnot(eq(x, y))
            if op == 'Lt':
                return lt(x, y)
            if op == 'Gt':
                return lt(y, x)
            if op == 'LtE':
                return fnot(lt(y, x))
            if op == 'GtE':
                return fnot(lt(x, y))
        if op in ('Eq', 'NotEq'):
            if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
                if len(a) != len(b) or type(a) is not type(b):
                    return op == 'NotEq'
                cs = [self.compare('Eq', x, y) for x, y in zip(a, b)]
                if all(isinstance(c, bool) for c in cs):
                    return all(cs) == (op == 'Eq')
                r = fand(*[liftF(c) for c in cs])
                return r if op == 'Eq' else fnot(r)
            if isinstance(a, Ext) and isinstance(b, Ext):
                return (a.name == b.name) == (op == 'Eq')
            if isinstance(a, (OStr,)) or isinstance(b, OStr):
                raise Unsupported('comparison of opaque strings')
            r = a is b or (type(a) is type(b) and isinstance(a, (str, int)) and a == b)
            return r if op == 'Eq' else not r
        raise PyRaise(SExc('TypeError', ('comparison %s %s %s' % (type(a).__name__, op, type(b).__name__),)))

    def cmp_inf(self, op, x, y):
        def lvl(t):
            return 1 if t is PINF else -1 if t is NINF else 0 if not has_inf(t) else None
        a, b = lvl(x), lvl(y)
        if a is None or b is None:
            raise Unsupported('comparison of infinite terms')
        r = {'Eq': a == b, 'NotEq': a != b, 'Lt': a < b, 'LtE': a <= b, 'Gt': a > b, 'GtE': a >= b}[op]
        return TRUE if r else FALSE

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getattr(o, e.attr)

    def mangle(self, name, ci):
        return name

    def getattr(self, o, name):
        if isinstance(o, ModRef):
            return Ext_or_mod(o.name + '.' + name)
        if isinstance(o, Module):
            if name in o.env:
                return o.env[name]
            return self.loader.load(o.name + '.' + name)
        if isinstance(o, Ext):
            if name == '__name__':
                return OStr()
            return Ext(o.name + '.' + name)
        if isinstance(o, SObj):
            if name in o.attrs:
                v = o.attrs[name]
                if isinstance(v, Poison):
                    raise Unsupported('read of attribute %s: %s' % (name, v.why))
                return v
            if name == '__class__':
                return o.cls
            if name == '__dict__':
                return o.attrs
            f = self.lookup(o.cls, name)
            if f is not None:
                if isinstance(f, Func):
                    if getattr(f, 'prop', False):
                        return self.call_func(f, [o], {})
                    return f if f.static else Bound(o, f)
                return f
            if name in ('get_params', 'set_params'):
                raise Unsupported(name)
            for c in o.cls.mro():       # a private name of a class, written in full
                if isinstance(c, ClassInfo) and name.startswith('_%s__' % c.name):
                    short = name[len(c.name) + 1:]
                    if short in o.attrs:
                        return o.attrs[short]
                    if short in c.attrs:
                        f = c.attrs[short]
                        return f if f.static else Bound(o, f)
            raise PyRaise(SExc('AttributeError', (name,)))
        if isinstance(o, Super):
            mro = o.obj.cls.mro() if isinstance(o.obj, SObj) else o.obj.mro()
            i = mro.index(o.cls)
            for c in mro[i + 1:]:
                if isinstance(c, ClassInfo) and name in c.attrs:
                    f = c.attrs[name]
                    return f if f.static else Bound(o.obj, f)
            if name == '__init__':
                return lambda *a, **k: None
            raise Unsupported('super().%s' % name)
        if isinstance(o, ClassInfo):
            if name == '__name__':
                return o.name
            f = self.lookup(o, name)
            if f is not None:
                return f
            raise Unsupported('class attribute ' + name)
        if isinstance(o, Arr):
            return self.np.attr(o, name)
        if isinstance(o, (T, F, int)) and not isinstance(o, bool) or isinstance(o, F):
            return self.np.scalar_attr(o, name)
        if isinstance(o, SExc):
            return OStr()
        if isinstance(o, (list, tuple, dict, set, str)):
            return self.native_attr(o, name)
        if isinstance(o, SMap):
            return self.smap_attr(o, name)
        if hasattr(o, 'sym_getattr'):
            return o.sym_getattr(self, name)
        if o is None:
            raise PyRaise(SExc('AttributeError', (name,)))
        raise Unsupported('attribute %s of %s' % (name, type(o).__name__))

    def smap_attr(self, o, name):
        o.whole()
        if name == 'keys':
            return lambda: SymIter(o.ax[0].n, o.keyfn)
        if name == 'items':
            return lambda: SymIter(o.ax[0].n, lambda k: (o.keyfn(k), o.fn(lift(k))))
        if name == 'shape':
            return (self.unlift(axis_len(o.ax)),)
        raise Unsupported('map attribute ' + name)

    def native_attr(self, o, name):
        if isinstance(o, list):
            if name == 'append':
                return lambda x: self.setloc('list', o, None, list(o) + [x])
            if name == 'extend':
                return lambda x: self.setloc('list', o, None, list(o) + list(self.as_iter(x)))
            if name == 'reverse':
                return lambda: self.setloc('list', o, None, list(o)[::-1])
            if name == 'pop':
                def pop(i=-1):
                    v = o[i]
                    l = list(o)
                    l.pop(i)
                    self.setloc('list', o, None, l)
                    return v
                return pop
            if name == 'index':
                def index(v):
                    for i, x in enumerate(o):
                        if x is v or self.truth(self.compare('Eq', x, v)):
                            return i
                    raise PyRaise(SExc('ValueError', ()))
                return index
            if name in ('count', 'copy'):
                return getattr(o, name)
        if isinstance(o, dict):
            if name in ('items', 'keys', 'values', 'get'):
                return lambda *a: list(getattr(o, name)()) if not a else o.get(*a)
            if name == 'copy':
                return lambda: dict(o)
        if isinstance(o, str) and name in ('format', 'join', 'upper', 'lower', 'startswith', 'endswith', 'split'):
            def m(*a, **k):
                if all(isinstance(x, (str, int, list)) for x in a) and name != 'format':
                    return getattr(o, name)(*a, **k)
                return OStr()
            return m
        raise Unsupported('method %s of %s' % (name, type(o).__name__))

    def setattr(self, o, name, v):
        if isinstance(o, SObj):
            self.setloc('dict', o.attrs, name, v)
        elif isinstance(o, Arr) and name == 'value' and 'cvxpar' in o.meta:
            self.np.set_value(o, v)
        elif isinstance(o, Arr) and name == 'shape':
            raise Unsupported('shape assignment')
        elif hasattr(o, 'sym_setattr'):
            o.sym_setattr(self, name, v)
        else:
            raise Unsupported('attribute assignment on %s' % type(o).__name__)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        k = self.eval_index(e.slice, fr)
        return self.getitem(o, k)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.eval(x, fr) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.eval_index(x, fr) for x in s.elts)
        return self.eval(s, fr)

    def e_Slice(self, e, fr):
        return self.eval_index(e, fr)

    def as_int(self, k):
        if isinstance(k, T):
            c = k.const()
            if c is not None and c.denominator == 1:
                return int(c)
        if isinstance(k, F):
            return k.t
        return k

    def getitem(self, o, k, nobound=False):
        if isinstance(o, Arr):
            return self.np.getitem(o, k, nobound)
        if isinstance(o, (list, tuple)):
            k = self.as_int(k)
            if isinstance(k, slice):
                parts = [None if x is None else self.as_int(x) for x in (k.start, k.stop, k.step)]
                if any(isinstance(x, T) for x in parts):
                    raise Unsupported('symbolic slice of a list')
                return o[slice(*parts)]
            if isinstance(k, T):
                if all(is_num(x) for x in o):
                    r = lift(o[-1])
                    for i in range(len(o) - 2, -1, -1):
                        r = ite(eq(k, const(i)), lift(o[i]), r)
                    self.defined('list index in range', fand(fnot(lt(k, ZERO)), lt(k, const(len(o)))))
                    return r
                raise Unsupported('symbolic index into a list')
            if isinstance(k, int):
                try:
                    return o[k]
                except IndexError:
                    raise PyRaise(SExc('IndexError'))
            raise Unsupported('list index')
        if isinstance(o, dict):
            k = self.as_int(k)
            try:
                if k in o:
                    return o[k]
            except EngineError:
                pass
            if isinstance(k, (str, int, tuple)):
                raise PyRaise(SExc('KeyError', (k,)))
            raise Unsupported('dict key')
        if isinstance(o, SMap):
            return self.smap_get(o, k)
        if hasattr(o, 'sym_getitem'):
            return o.sym_getitem(self, k)
        if o is None:
            raise PyRaise(SExc('TypeError', ('None is not subscriptable',)))
        raise Unsupported('indexing %s' % type(o).__name__)

    def smap_index(self, o, k):
        """key value -> index on the map's axis"""
        if isinstance(k, int) and o.keyfn is None:
            if k < 0:
                return axis_len(o.ax) + k
            return const(k)
        k = lift(k)
        if o.keyfn is None:
            return k
        A = tm.single_atom(k)
        if A is not None and A.kind == 'app' and A.data[0] in tm.INJ:
            i = A.data[1][0]
            if o.keyfn(i) is k:
                return i
        raise Unsupported('map key %s' % show(k))

    def smap_get(self, o, k):
        i = self.smap_index(o, k)
        self.defined('map key present', fand(fnot(lt(i, ZERO)), lt(i, o.ax[0].n)))
        v = o.fn(i)
        if isinstance(v, Poison):
            raise Unsupported('read of map entry: ' + v.why)
        return v

    def setitem(self, o, k, v):
        if isinstance(o, Arr):
            return self.np.setitem(o, k, v)
        if isinstance(o, list):
            k = self.as_int(k)
            if isinstance(k, int):
                l = list(o)
                try:
                    l[k] = v
                except IndexError:
                    raise PyRaise(SExc('IndexError'))
                self.setloc('list', o, None, l)
                return
            raise Unsupported('list assignment')
        if isinstance(o, dict):
            k = self.as_int(k)
            self.setloc('dict', o, k, v)
            return
        if isinstance(o, SMap):
            i = self.smap_index(o, k)
            old = o.fn

            def fn(t, i=i, v=v, old=old):
                t = lift(t)
                if t is i:
                    return v
                d = self.decide(eq(t, i))
                if d is True:
                    return v
                if d is False:
                    return old(t)
                ov = old(t)
                return self.merge_val(eq(t, i), v, ov)
            self.setloc('attr', o, 'fn', fn)
            self.ghost.setdefault(('mapw', id(o)), []).append((i, v))
            return
        if hasattr(o, 'sym_setitem'):
            return o.sym_setitem(self, k, v)
        raise Unsupported('item assignment on %s' % type(o).__name__)

    def arr_store(self, a, v):
        self.np.store(a, v)

    def e_Call(self, e, fr):
        # super()
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            if e.args:
                return Super(self.eval(e.args[1], fr), self.eval(e.args[0], fr))
            f = fr
            while f is not None and f.cls is None:
                f = f.closure
            return Super(f.obj, f.cls)
        f = self.eval(e.func, fr)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                args += list(self.as_iter(self.eval(a.value, fr)))
            else:
                args.append(self.eval(a, fr))
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.eval(k.value, fr)
                if isinstance(d, dict):
                    kwargs.update(d)
                else:
                    raise Unsupported('**kwargs')
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    # comprehensions
    def e_ListComp(self, e, fr):
        return self.comp(e, fr)

    def e_GeneratorExp(self, e, fr):
        return self.comp(e, fr)

    def e_DictComp(self, e, fr):
        node = ast.ListComp(elt=ast.Tuple(elts=[e.key, e.value], ctx=ast.Load()), generators=e.generators)
        r = self.comp(node, fr)
        if isinstance(r, list):
            return dict(r)
        if isinstance(r, SMap):
            d = SMap(r.ax, lambda i: r.fn(lift(i))[0], lambda t: r.fn(lift(t))[1], 'dict')
            u = fresh('u', True, 0, axis_len(r.ax) - 1)
            if self.smap_index(d, d.keyfn(u)) is u:      # the keys are distinct class labels
                return d
        raise Unsupported('symbolic dict comprehension')

    def comp(self, e, fr):
        if len(e.generators) != 1:
            raise Unsupported('nested comprehension')
        g = e.generators[0]
        env = {}
        f2 = Frame(env, fr.module, fr.func, fr.cls, fr.obj)
        f2.closure = fr
        seq = self.as_iter(self.eval(g.iter, fr))
        if isinstance(seq, SymIter):
            if g.ifs:
                raise Unsupported('filtered symbolic comprehension')
            n = lift(seq.n)
            k = fresh('c', True, 0, n - 1)
            npc = len(self.pc)
            m = self.mark()
            self.merging += 1
            try:
                self.pc.append(smt.rawle(ZERO, k))
                self.pc.append(smt.rawle(k, n - 1))
                self.assign(g.target, seq.elem(k), f2)
                v = self.eval(e.elt, f2)
            finally:
                self.merging -= 1
                del self.pc[npc:]
            locs = self.rollback(m)
            if any(l[1] is not env for l in locs.values()):
                raise Unsupported('side effects in a symbolic comprehension')
            kid = tm.atom_of(k).id
            return self.param_list(n, kid, v)
        out = []
        for x in seq:
            self.assign(g.target, x, f2)
            ok = True
            for c in g.ifs:
                t = self.truth(self.eval(c, f2))
                if not isinstance(t, bool):
                    t = self.branch(t)
                ok = ok and t
            if ok:
                out.append(self.eval(e.elt, f2))
        return out

    def param_list(self, n, kid, v):
        if is_num(v):
            fv = v if isinstance(v, F) else lift(v)
            r = Arr([axis(n)], lambda i: subst_value(fv, {kid: i[0][1]}), 'bool' if isinstance(v, (F, bool)) else ('int' if isinstance(fv, T) and fv.isint() else 'num'))
            r.islist = True
            r.unsure = True
            return r
        if isinstance(v, Arr):
            axes = [axis(n)] + [subst_axis(a, {}) for a in v.axes]
            if any(kid in s.n.fv or (s.guard is not None) for a in v.axes for s in a):
                return SMap(axis(n), None, lambda t: subst_value(v, {kid: lift(t)}), 'list')
            f = v.snap()
            r = Arr([axis(n)] + v.axes, lambda i: subst_arr(v, {kid: i[0][1]}).snap()(i[1:]), v.kind)
            r.islist = True
            return r
        return SMap(axis(n), None, lambda t: subst_value(v, {kid: lift(t)}), 'list')

    def unlift(self, t):
        """concrete ints stay python ints"""
        if isinstance(t, T):
            c = t.const()
            if c is not None and c.denominator == 1:
                return int(c)
        return t


def Ext_or_mod(name):
    return Ext(name)
