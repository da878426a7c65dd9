"""Interprocedural, path-sensitive dataflow over Python syntax trees.

The analyser walks the syntax tree of the package and propagates provenance
terms (vals.py) through assignments, calls, containers, context managers,
generators and exceptions.  Branches whose outcome is not fixed by the terms
are partitioned (one trace per outcome, no solver: a condition is looked up
among the conditions already taken on the trace, and otherwise both sides are
analysed).  A loop over an unknown collection is analysed once, for a generic
element.  Nothing of the analysed package is imported or executed.
"""

import ast
import os
import time

from . import vals
from .vals import (digest, K, T, Tup, Ext, Fn, HostFn, Partial, Bound, BoundM, Cls,
                   Prop, StaticM, ClassM, ModV, Obj, Gen, V, NONE, TRUE, FALSE,
                   walk, mentions, subst)


class AbsRaise(Exception):
  """An abstract exception travelling through the analysed code."""

  def __init__(self, exc, node=None):
    super().__init__()
    self.exc = exc
    self.node = node

  def __repr__(self):
    return f'AbsRaise({self.exc!r})'


class _Ret(Exception):

  def __init__(self, v):
    super().__init__()
    self.v = v


class _Brk(Exception):
  pass


class _Cont(Exception):
  pass


class Undecided(Exception):
  """The analyser cannot follow this construct."""


class Infeasible(Exception):
  """The current trace contradicts itself."""


class Star:
  """A positional argument `*t` of unknown length."""

  def __init__(self, t):
    self.t = t


class Env:
  __slots__ = ('vars', 'parent', 'kind', 'mod', 'fn', 'globals_', 'nonlocals',
               'excs', 'yield_loops')

  def __init__(self, parent, kind, mod, fn=None):
    self.vars = {}
    self.parent = parent
    self.kind = kind
    self.mod = mod
    self.fn = fn
    self.globals_ = ()
    self.nonlocals = ()
    self.excs = []


class Event:
  __slots__ = ('i', 'kind', 'd', 'loc', 'loops', 'ng', 'stack', 'withs')

  def __init__(self, i, kind, d, loc, loops, ng, stack):
    self.i = i
    self.kind = kind
    self.d = d
    self.loc = loc
    self.loops = loops
    self.ng = ng
    self.stack = stack

  def __getattr__(self, k):
    try:
      return self.d[k]
    except KeyError:
      raise AttributeError(k)

  def __repr__(self):
    return f'[{self.i}] {self.kind} {self.d} @{fmt_loc(self.loc)}'


def fmt_loc(loc):
  if loc is None:
    return '?'
  return f'{loc[0]}:{loc[1]} in {loc[2]}'


SEQ = ('list', 'deque', 'set', 'frozenset', 'iter')
DICT = ('dict', 'defaultdict', 'Counter', 'OrderedDict', 'ChainMap')

BUILTIN_EXC = {}


def _init_exc():
  import builtins
  for n in dir(builtins):
    c = getattr(builtins, n)
    if isinstance(c, type) and issubclass(c, BaseException):
      BUILTIN_EXC[n] = c


_init_exc()


class Project:
  """Source of the analysed package: parsed lazily, never imported."""

  def __init__(self, root, package='haiku'):
    self.root = root
    self.package = package
    self.mods = {}
    self.nfunctions = 0
    self.clients = {}

  def find(self, name):
    if name in self.mods:
      return self.mods[name]
    if name in self.clients:
      p = self.clients[name]
      with open(p) as f:
        tree = ast.parse(f.read(), p)
      m = ModV(name, '<client ' + os.path.basename(p) + '>', tree)
      self.mods[name] = m
      return m
    if name != self.package and not name.startswith(self.package + '.'):
      return None
    rel = name.replace('.', '/')
    for cand in (rel + '.py', rel + '/__init__.py'):
      p = os.path.join(self.root, cand)
      if os.path.isfile(p):
        with open(p) as f:
          src = f.read()
        tree = ast.parse(src, cand)
        m = ModV(name, cand, tree)
        self.mods[name] = m
        return m
    return None


class Interp:
  """One analysis session over a project."""

  def __init__(self, project, optimized=False, raw=False, stubs=None,
               max_paths=3000, max_depth=120, rec_limit=24):
    self.project = project
    self.optimized = optimized
    self.raw = raw
    self.stubs = dict(stubs or {})
    self.max_paths = max_paths
    self.max_depth = max_depth
    self.rec_limit = rec_limit
    self.deadline = None
    self.persist = []
    self.loading = 0
    self.fnset = set()
    self.natoms = 0
    self._reset_path([])
    from . import models
    self.models = models
    self.extmods = models.EXT
    self.npaths = 0

  # ---------------------------------------------------------------- paths
  def _reset_path(self, prefix):
    self.prefix = prefix
    self.pos = 0
    self.options = []
    self.facts = {}
    self.guards = []
    self.trace = []
    self.loops = ()
    self.stack = []
    self.uidc = 0
    self.cur = []
    self.nofork = 0
    self.depth = 0
    self.types = {}
    self.exc_stack = []
    self.handlers = []
    self.pins = []
    self.levels = {}
    self.shapes = {}
    self.scratch = 0
    self._ranks = {}
    self.dims = set()
    self.arr = None
    self.raising = frozenset()

  def explore(self, scenario, max_paths=None):
    """Runs `scenario(self)` once per trace partition; returns the results."""
    limit = max_paths or self.max_paths
    prefix = []
    out = []
    n = 0
    while True:
      self._restore()
      self._reset_path(list(prefix))
      n += 1
      if n > limit:
        raise Undecided(f'more than {limit} trace partitions')
      if self.late():
        raise Undecided('time budget')
      try:
        r = scenario(self)
        if r is not None:
          out.append(r)
      except Infeasible:
        pass
      except RecursionError:
        raise Undecided('call depth bound reached')
      self.npaths += 1
      # backtrack
      taken = self.prefix[:self.pos]
      opts = self.options
      i = len(taken) - 1
      while i >= 0 and taken[i] + 1 >= opts[i]:
        i -= 1
      if i < 0:
        break
      prefix = taken[:i] + [taken[i] + 1]
    self._restore()
    return out

  def choice(self, n, why=None):
    if self.loading:
      return 0
    if self.pos < len(self.prefix):
      c = self.prefix[self.pos]
    else:
      c = 0
      self.prefix.append(0)
    self.pos += 1
    self.options.append(n)
    return c

  def uid(self):
    self.uidc += 1
    return self.uidc if not self.loading else -self.uidc

  def event(self, kind, node=None, **d):
    if self.loading:
      return None
    e = Event(len(self.trace), kind, d, self.loc(node), self.loops,
              len(self.guards), tuple(self.stack))
    if self.scratch:
      d['scratch'] = True
    self.trace.append(e)
    return e

  def loc(self, node=None):
    if node is not None and getattr(node, '_sa_loc', None):
      return node._sa_loc
    if self.stack:
      f = self.stack[-1]
      ln = getattr(node, 'lineno', None) or getattr(f.node, 'lineno', 0)
      return (f.mod.path, ln, f.qual)
    return ('<client>', 0, '<client>')

  # ------------------------------------------------------------- loading
  def module(self, name):
    m = self.project.find(name)
    if m is None:
      return None
    if not m.loaded:
      m.loaded = True
      self.loading += 1
      saved = (self.stack, self.uidc)
      self.stack = []
      try:
        env = Env(None, 'module', m)
        m.env = env
        env.vars['__name__'] = K(name)
        env.vars['__file__'] = K(m.path)
        self.drive(self.ex_block(m.tree.body, env))
      finally:
        self.loading -= 1
        self.stack = saved[0]
      self.persist.append(env)
    return m

  def load(self, *names):
    for n in names:
      if self.module(n) is None:
        raise Undecided(f'module {n} not found')
    self._snapshot()

  def _snapshot(self):
    self.snap = []
    seen = set()
    stack = [e for e in self.persist]
    while stack:
      x = stack.pop()
      if id(x) in seen:
        continue
      seen.add(id(x))
      if isinstance(x, Env):
        self.snap.append((x, 'vars', dict(x.vars)))
        stack.extend(x.vars.values())
        if x.parent:
          stack.append(x.parent)
      elif isinstance(x, Obj):
        self.snap.append((x, 'obj', (dict(x.attrs), None if x.items is None
                                     else list(x.items), dict(x.extra))))
        stack.extend(x.attrs.values())
        for e in x.items or ():
          stack.extend(y for y in e[1:] if isinstance(y, V))
      elif isinstance(x, Cls):
        self.snap.append((x, 'attrs', dict(x.attrs)))
        stack.extend(x.attrs.values())
        stack.extend(x.bases)
      elif isinstance(x, Fn):
        self.snap.append((x, 'attrs', dict(x.attrs)))
        stack.extend(x.attrs.values())
        stack.extend(x.defaults)
        stack.extend(x.kwdefaults.values())
        if x.env:
          stack.append(x.env)
      elif isinstance(x, Bound):
        stack.extend((x.f, x.self_))
      elif isinstance(x, Prop):
        stack.extend(y for y in (x.fget, x.fset, x.fdel) if y)
      elif isinstance(x, (StaticM, ClassM)):
        stack.append(x.f)
      elif isinstance(x, Partial):
        stack.extend((x.f, *x.args, *x.kwargs.values()))
      elif isinstance(x, ModV) and x.env:
        stack.append(x.env)
      elif isinstance(x, Tup):
        stack.extend(x.items)

  def _restore(self):
    for x, what, d in getattr(self, 'snap', ()):
      if what == 'vars':
        x.vars = dict(d)
      elif what == 'attrs':
        x.attrs = dict(d)
      else:
        x.attrs = dict(d[0])
        x.items = None if d[1] is None else list(d[1])
        x.extra = dict(d[2])
        x.ver = 0

  def pub(self, dotted):
    """Resolves a public dotted name, e.g. 'haiku.get_parameter'."""
    parts = dotted.split('.')
    for i in range(len(parts), 0, -1):
      m = self.module('.'.join(parts[:i]))
      if m is not None:
        v = m
        for p in parts[i:]:
          v = self.getattr(v, p)
        return v
    raise Undecided(f'cannot resolve {dotted}')

  # ------------------------------------------------------------- driving
  def drive(self, gen):
    try:
      gen.send(None)
    except StopIteration as e:
      return e.value
    raise Undecided('yield outside generator')

  # ---------------------------------------------------------------- names
  def lookup(self, name, env, node=None):
    e = env
    first = True
    if name in env.globals_:
      e = self._modenv(env)
    while e is not None:
      if (first or e.kind != 'class') and name in e.vars:
        return e.vars[name]
      first = False
      e = e.parent
    if name in self.models.BUILTINS:
      return Ext('builtins.' + name)
    import builtins
    if hasattr(builtins, name):
      return Ext('builtins.' + name)
    self.raise_('NameError', node, K(name))

  def _modenv(self, env):
    while env.parent is not None:
      env = env.parent
    return env

  def assign(self, name, v, env):
    if name in env.globals_:
      me = self._modenv(env)
      self.event('global_store', None, name=name, value=v, mod=me.mod.name)
      me.vars[name] = v
      return
    if name in env.nonlocals:
      e = env.parent
      while e is not None:
        if e.kind == 'func' and name in e.vars:
          e.vars[name] = v
          return
        e = e.parent
    env.vars[name] = v

  def raise_(self, cls, node=None, *args):
    raise AbsRaise(self.new_exc(Ext('builtins.' + cls), list(args)), node)

  def new_exc(self, cls, args):
    o = Obj('exc', self.uid())
    o.attrs['__class__'] = cls
    o.attrs['args'] = Tup([a for a in args if isinstance(a, V)])
    return o

  # ------------------------------------------------------------ conditions
  def norm(self, t):
    """Normal form of a condition: (term, polarity)."""
    pol = True
    while True:
      if isinstance(t, T):
        if t.op == 'not':
          t, pol = t.args[0], not pol
          continue
        if t.op == 'truthy' and isinstance(t.args[0], T) and \
            t.args[0].op in BOOLOPS:
          t = t.args[0]
          continue
        if t.op == 'ne':
          t = T('eq', *t.args)
          pol = not pol
          continue
        if t.op == 'eq':
          a, b = t.args
          for x, y in ((a, b), (b, a)):
            if isinstance(x, T) and x.op == 'len' and y == K(0):
              return self.norm2(T('truthy', x.args[0]), not pol)
          for x, y in ((a, b), (b, a)):
            if y == TRUE and isinstance(x, T) and x.op in BOOLOPS:
              return self.norm2(x, pol)
            if y == FALSE and isinstance(x, T) and x.op in BOOLOPS:
              return self.norm2(x, not pol)
            if isinstance(x, T) and x.op == 'binop' and x.args[0] == 'Sub' \
                and y == K(0):
              return self.norm2(T('eq', x.args[1], x.args[2]), pol)
          if _okey(a) > _okey(b):
            t = T('eq', b, a)
        if t.op == 'is':
          a, b = t.args
          for x, y in ((a, b), (b, a)):
            if y == NONE:
              return self.norm2(T('isnone', x), pol)
            if y == TRUE and isinstance(x, T) and x.op in BOOLOPS:
              return self.norm2(x, pol)
            if y == FALSE and isinstance(x, T) and x.op in BOOLOPS:
              return self.norm2(x, not pol)
          if _okey(a) > _okey(b):
            t = T('is', b, a)
        if t.op == 'lt':
          a, b = t.args
          if a == K(0) and isinstance(b, T) and b.op == 'len':
            return self.norm2(T('truthy', b.args[0]), pol)
          if b == K(1) and isinstance(a, T) and a.op == 'len':
            return self.norm2(T('truthy', a.args[0]), not pol)
          # integers: c < x  is  not (x < c+1);  keep one form for int-like x
          if isinstance(a, K) and isinstance(a.v, int) and intlike(b):
            return T('lt', b, K(a.v + 1)), not pol
          # x - y < 0
          if isinstance(a, T) and a.op == 'binop' and a.args[0] == 'Sub' \
              and b == K(0):
            return self.norm2(T('lt', a.args[1], a.args[2]), pol)
          if isinstance(b, T) and b.op == 'binop' and b.args[0] == 'Sub' \
              and a == K(0):
            return self.norm2(T('lt', b.args[2], b.args[1]), pol)
        if t.op == 'truthy':
          a = t.args[0]
          if isinstance(a, T) and a.op == 'len':
            return self.norm2(T('truthy', a.args[0]), pol)
      return t, pol

  def norm2(self, t, pol):
    t2, p2 = self.norm(t)
    return t2, (p2 if pol else not p2)

  def implied(self, t):
    """Truth of a normalised condition from the trace's conditions, or None."""
    f = self.facts
    if t in f:
      return f[t]
    if not isinstance(t, T):
      return None
    for p in self.pins:
      r = p(self, t)
      if r is not None:
        return r
    if t.op == 'isnone':
      x = t.args[0]
      if f.get(T('truthy', x)) is True:
        return False
      for g, b in f.items():
        if not b or not isinstance(g, T):
          continue
        if g.op == 'isinstance' and g.args[0] == x and g.args[1] != K(None):
          return False
        if g.op == 'eq' and x in g.args and any(
            isinstance(y, (K, Tup)) and y != NONE for y in g.args):
          return False
    elif t.op == 'truthy':
      x = t.args[0]
      if f.get(T('isnone', x)) is True:
        return False
      for g, b in f.items():
        if b and isinstance(g, T) and g.op == 'eq' and x in g.args:
          for y in g.args:
            if isinstance(y, K):
              return bool(y.v)
    elif t.op == 'eq':
      a, b = t.args
      for x, y in ((a, b), (b, a)):
        if isinstance(y, K):
          if f.get(T('isnone', x)) is True:
            return y.v is None
          if y.v and f.get(T('truthy', x)) is False:
            return False
          for g, bb in f.items():
            if bb and isinstance(g, T) and g.op == 'eq' and x in g.args:
              for z in g.args:
                if isinstance(z, K):
                  return z == y
          lo, hi = self.bounds(x)
          if isinstance(y.v, (int, float)):
            if lo is not None and y.v < lo:
              return False
            if hi is not None and y.v > hi:
              return False
    elif t.op == 'lt':
      a, b = t.args
      if isinstance(b, K) and isinstance(b.v, (int, float)):
        lo, hi = self.bounds(a)
        if hi is not None and hi < b.v:
          return True
        if lo is not None and lo >= b.v:
          return False
      if isinstance(a, K) and isinstance(a.v, (int, float)):
        lo, hi = self.bounds(b)
        if lo is not None and lo > a.v:
          return True
        if hi is not None and hi <= a.v:
          return False
      if f.get(T('lt', b, a)) is True:
        return False
      e = T('eq', *sorted((a, b), key=_okey))
      if f.get(e) is True:
        return False
    elif t.op == 'isinstance':
      x = t.args[0]
      if f.get(T('isnone', x)) is True:
        return False
    elif t.op == 'is':
      a, b = t.args
      if f.get(T('eq', *sorted((a, b), key=_okey))) is False:
        return False
    elif t.op == 'in':
      x, c = t.args[0], t.args[1]
      if f.get(T('truthy', c)) is False:
        return False
    return None

  def bounds(self, x):
    """Integer bounds of x from `x < c` / `c < x` / `x == c` conditions."""
    lo = hi = None
    for g, b in self.facts.items():
      if not isinstance(g, T):
        continue
      if g.op == 'eq' and b and x in g.args:
        for y in g.args:
          if isinstance(y, K) and isinstance(y.v, (int, float)):
            return y.v, y.v
      if g.op == 'lt':
        p, q = g.args
        if p == x and isinstance(q, K) and isinstance(q.v, int):
          if b:
            hi = q.v - 1 if hi is None else min(hi, q.v - 1)
          else:
            lo = q.v if lo is None else max(lo, q.v)
        elif q == x and isinstance(p, K) and isinstance(p.v, int):
          if b:
            lo = p.v + 1 if lo is None else max(lo, p.v + 1)
          else:
            hi = p.v if hi is None else min(hi, p.v)
    return lo, hi

  def decide(self, t, node=None):
    """Decides a condition term, partitioning the trace if it is open."""
    if isinstance(t, K):
      return bool(t.v)
    t, pol = self.norm(t)
    if isinstance(t, K):
      return bool(t.v) == pol
    if isinstance(t, T) and t.op in ('and', 'or') and False:
      pass
    r = self.implied(t)
    if r is None:
      c = self.choice(2, t)
      r = (c == 0)
      self.facts[t] = r
      self.guards.append((t, r, self.loc(node)))
    return r == pol

  def assume(self, t, val=True):
    t, pol = self.norm(t)
    r = self.implied(t)
    want = (val == pol)
    if r is None:
      self.facts[t] = want
      self.guards.append((t, want, None))
    elif r != want:
      raise Infeasible()

  def truth_term(self, v):
    """Truthiness as K(True/False) or an open condition term."""
    if isinstance(v, K):
      return K(bool(v.v))
    if isinstance(v, Tup):
      return K(bool(v.items))
    if isinstance(v, (Fn, HostFn, Cls, Ext, ModV, Bound, BoundM, Partial, Gen)):
      return TRUE
    if isinstance(v, Obj):
      if v.items is not None:
        self.prune(v)
        rl = self.rel_loops(v)
        if any(e[0] != 'spread' and (not e[-1] or e[-1] == rl)
               for e in v.items):
          return TRUE
        if not v.items:
          return FALSE
        if all(e[0] == 'spread' for e in v.items) and len(v.items) == 1:
          return T('truthy', v.items[0][1])
        if len(v.items) == 1 and v.items[0][-1]:
          L = v.items[0][-1][0]
          if isinstance(L, T) and L.op == 'loop':
            return T('truthy', L.args[1])
        return T('truthy', v, v.ver)
      if isinstance(v.cls, Cls):
        m, _ = self.clookup(v.cls, '__bool__')
        if m is not None:
          return self.truth_term(self.call(Bound(m, v), [], {}))
        m, _ = self.clookup(v.cls, '__len__')
        if m is not None:
          return self.truth_term(self.call(Bound(m, v), [], {}))
      return TRUE
    if isinstance(v, T):
      if v.op in BOOLOPS:
        return v
      if v.op == 'len' and isinstance(v.args[0], Obj) and len(
          v.args) > 1 and v.args[1] == v.args[0].ver:
        r = self.truth_term(v.args[0])
        if isinstance(r, K):
          return r
      if v.op == 'tree_map':
        return T('truthy', v.args[1])
      if v.op == 'treecopy':
        return self.truth_term(v.args[0])
      if v.op in ('tuple', 'items', 'keys', 'values'):
        return self.truth_term(v.args[0]) if isinstance(
            v.args[0], (T, Obj)) else T('truthy', v)
      return T('truthy', v)
    return TRUE

  def prune(self, o):
    """Drops spreads known to be empty on this trace."""
    if any(e[0] == 'spread' and self.facts.get(T('truthy', e[1])) is False
           for e in o.items):
      o.items = [e for e in o.items if not (
          e[0] == 'spread' and self.facts.get(T('truthy', e[1])) is False)]

  def truth(self, v, node=None):
    t = self.truth_term(v)
    if isinstance(t, K):
      return bool(t.v)
    r = self.decide(t, node)
    if isinstance(v, Obj) and v.items is not None:
      if not r:
        v.items = [e for e in v.items if e[0] != 'spread' and not e[-1]]
    return r

  # --------------------------------------------------------------- classes
  def clookup(self, cls, name, after=None):
    skip = after is not None
    for c in cls.mro():
      if skip:
        if c is after:
          skip = False
        continue
      if isinstance(c, Cls):
        at = c.attrs
        if self.raw and '__sa_raw__' in at:
          r = at['__sa_raw__'].extra
          if name in r:
            return r[name], c
        if name in at:
          return at[name], c
    return None, None

  def is_sub(self, c, d):
    """Is class c a subclass of d?  True / False / None (unknown)."""
    if c == d or d == Ext('builtins.object'):
      return True
    if isinstance(d, Ext) and d.name in FINAL_EXT and (
        isinstance(c, Cls) and c.meta is None and all(
            isinstance(b, Cls) or b.name != d.name for b in c.mro())):
      return False
    if isinstance(c, Cls):
      unknown = False
      for b in c.mro():
        if b == d:
          return True
        if not isinstance(b, Cls):
          r = self.is_sub(b, d)
          if r:
            return True
          if r is None:
            unknown = True
      if isinstance(d, Cls):
        return False
      if c.nt_fields is not None:
        return d == Ext('builtins.tuple')
      return None if unknown else False
    if isinstance(c, Ext) and isinstance(d, Ext):
      a = c.name.rsplit('.', 1)[-1]
      b = d.name.rsplit('.', 1)[-1]
      if a in BUILTIN_EXC and b in BUILTIN_EXC:
        return issubclass(BUILTIN_EXC[a], BUILTIN_EXC[b])
      return self.models.ext_sub(c.name, d.name)
    if isinstance(c, Ext) and isinstance(d, Cls):
      return False
    return None

  def type_of(self, v):
    """Class of a value if known, else None."""
    if isinstance(v, K):
      return Ext('builtins.' + type(v.v).__name__)
    if isinstance(v, Tup):
      return Ext('builtins.tuple')
    if isinstance(v, Obj):
      if v.cls == 'exc':
        return v.attrs['__class__']
      if isinstance(v.cls, str):
        return Ext(self.models.KIND_EXT.get(v.cls, v.cls))
      return v.cls
    if isinstance(v, (Fn, HostFn)):
      return Ext('types.FunctionType')
    if isinstance(v, Partial):
      return Ext('functools.partial')
    if isinstance(v, Cls):
      return v.meta or Ext('builtins.type')
    if isinstance(v, Bound):
      return Ext('types.MethodType')
    if isinstance(v, Prop):
      return Ext('builtins.property')
    if isinstance(v, StaticM):
      return Ext('builtins.staticmethod')
    if isinstance(v, ClassM):
      return Ext('builtins.classmethod')
    if isinstance(v, T):
      if v in self.types:
        return self.types[v]
      if v.op in ('treecopy', 'carry') and isinstance(v.args[0], V):
        return self.type_of(v.args[0])
      if v.op in ('cat', 'fstr'):
        return Ext('builtins.str')
      if v.op in ('len',):
        return Ext('builtins.int')
      if v.op in BOOLOPS:
        return Ext('builtins.bool')
      if v.op == 'tuple':
        return Ext('builtins.tuple')
    return None

  def isinstance_(self, v, c, node=None):
    """Returns K(bool) or a condition term."""
    if isinstance(c, Tup):
      open_ = []
      for d in c.items:
        r = self.isinstance_(v, d, node)
        if r == TRUE:
          return TRUE
        if r != FALSE:
          open_.append(r)
      if not open_:
        return FALSE
      if len(open_) == 1:
        return open_[0]
      return T('or', *open_)
    t = self.type_of(v)
    if t is not None:
      r = self.is_sub(t, c)
      if r is not None:
        return K(r)
    if isinstance(v, T) and ('notinst', v, c) in self.types:
      return FALSE
    return T('isinstance', v, c)

  def rank(self, v):
    """Number of dimensions of an array term, where the source fixes it."""
    if isinstance(v, K):
      return 0 if isinstance(v.v, (int, float, bool)) else None
    if not isinstance(v, T):
      return None
    if v in self.shapes:
      return len(self.shapes[v].items)
    if v not in self._ranks:
      self._ranks[v] = None
      self._ranks[v] = self._rank(v)
    return self._ranks[v]

  def _rank(self, v):
    o, a = v.op, v.args
    if o == 'treecopy':
      return self.rank(a[0])
    if o == 'binop':
      x, y = self.rank(a[1]), self.rank(a[2])
      return None if x is None or y is None else max(x, y)
    if o == 'unop':
      return self.rank(a[1])
    if o == 'mcall' and a[1] == 'astype':
      return self.rank(a[0])
    if o == 'call' and isinstance(a[0], Ext) and a[1]:
      n = a[0].name
      kw = dict(a[2]) if len(a) > 2 else {}
      if n in RANK_SAME:
        return self.rank(a[1][0])
      x = self.rank(a[1][0])
      ax = a[1][1] if len(a[1]) > 1 else kw.get('axis')
      if n in ('jax.numpy.mean', 'jax.numpy.sum', 'jax.numpy.var',
               'jax.numpy.max') and x is not None:
        if kw.get('keepdims') == TRUE:
          return x
        if isinstance(ax, K) and isinstance(ax.v, int):
          return x - 1
        if isinstance(ax, Tup):
          return x - len(ax.items)
        return 0 if ax is None or ax == NONE else None
      if n in ('jax.numpy.expand_dims', 'jax.numpy.squeeze') and \
          x is not None and isinstance(ax, K) and isinstance(ax.v, int):
        return x + (1 if n.endswith('dims') else -1)
      if n in ('jax.numpy.zeros', 'jax.numpy.ones') and isinstance(
          a[1][0], Tup):
        return len(a[1][0].items)
      if n in ('jax.numpy.reshape', 'jax.numpy.broadcast_to') and isinstance(
          ax, Tup):
        return len(ax.items)
    return None

  # ------------------------------------------------------------- attributes
  def getattr(self, v, name, node=None, default=None):
    if self.arr is not None and isinstance(v, T):
      r = self.arr.attr(v, name)
      if r is not None:
        return r
    if isinstance(v, T) and name in ('shape', 'ndim'):
      s = self.shapes.get(v) if v.op != 'treecopy' else self.shapes.get(
          v.args[0])
      if s is not None:
        return s if name == 'shape' else K(len(s.items))
      if name == 'ndim':
        r = self.rank(v)
        return T('ndim', v) if r is None else K(r)
    if isinstance(v, ModV):
      if not v.loaded:
        self.module(v.name)
      if name in v.env.vars:
        return v.env.vars[name]
      m = self.module(v.name + '.' + name)
      if m is not None:
        return m
      if default is not None:
        return default
      self.raise_('AttributeError', node, K(name))
    if isinstance(v, Ext):
      c = self.models.EXT_CONST.get(v.name + '.' + name)
      if c is not None:
        return c
      if name in ('__name__', '__qualname__'):
        return K(v.name.rsplit('.', 1)[-1])
      return Ext(v.name + '.' + name)
    if isinstance(v, Obj):
      return self._obj_getattr(v, name, node, default)
    if isinstance(v, Cls):
      if name in ('__name__', '__qualname__'):
        return K(v.name)
      if name == '__mro__':
        return Tup(v.mro())
      if name == '__dict__':
        return T('clsdict', v)
      a, owner = self.clookup(v, name)
      if a is not None:
        if isinstance(a, ClassM):
          return Bound(a.f, v)
        if isinstance(a, StaticM):
          return a.f
        return a
      if name in ('__new__', '__init__') and not any(
          isinstance(b, Ext) and b.name in self.models.CONTAINER_EXT
          for b in v.mro()):
        return Ext('builtins.object.' + name)
      if v.meta is not None and isinstance(v.meta, Cls):
        a, _ = self.clookup(v.meta, name)
        if a is not None and isinstance(a, Fn):
          return Bound(a, v)
      if v.nt_fields is not None and name == '_fields':
        return Tup([K(f) for f in v.nt_fields])
      if name in ('__new__', '__init__'):
        return Ext('builtins.object.' + name)
      if name == '__doc__':
        return T('attr', v, name)
      if name in ('__module__',):
        return K(v.mod.name if v.mod else '?')
      for b in v.mro():
        if isinstance(b, Ext) and b.name in (
            'enum.Enum', 'enum.IntEnum') and v.meta is None and not (
                name.startswith('_') or name == 'mro'):
          self.raise_('AttributeError', node, K(name))
        if isinstance(b, Ext) and b.name != 'builtins.object':
          return Ext(b.name + '.' + name)
      if default is not None:
        return default
      self.raise_('AttributeError', node, K(name))
    if isinstance(v, (Fn, HostFn)):
      if name in v.attrs:
        return v.attrs[name]
      if name in ('__name__', '__qualname__'):
        return K(v.qual.rsplit('.', 1)[-1] if isinstance(v, Fn) else v.name)
      if name == '__doc__' and isinstance(v, HostFn):
        return NONE
      if name in ('__doc__', '__module__', '__dict__', '__code__',
                  '__defaults__', '__annotations__', '__kwdefaults__'):
        return T('attr', v, name)
      if name == '__wrapped__' and isinstance(v, Fn) and v.wrapped:
        return v.wrapped
      if name == '__get__':
        return BoundM(v, name)
      if name == '__call__':
        return v
      if default is not None:
        return default
      self.raise_('AttributeError', node, K(name))
    if isinstance(v, Partial):
      if name == 'func':
        return v.f
      if name == 'args':
        return Tup(v.args)
      if default is not None:
        return default
      return T('attr', v, name)
    if isinstance(v, Bound):
      if name == '__self__':
        return v.self_
      if name == '__func__':
        return v.f
      return self.getattr(v.f, name, node, default)
    if isinstance(v, Prop):
      if name in ('fget', 'fset', 'fdel'):
        return getattr(v, name) or NONE
      if name in ('setter', 'getter', 'deleter'):
        return BoundM(v, name)
      return T('attr', v, name)
    if isinstance(v, (StaticM, ClassM)):
      if name == '__func__':
        return v.f
    if isinstance(v, BoundM):
      return T('attr', v, name)
    if isinstance(v, (K, Tup, Gen)):
      if isinstance(v, K) and v.v is None:
        if default is not None:
          return default
        self.raise_('AttributeError', node, K(name))
      if isinstance(v, K) and isinstance(v.v, slice):
        return K(getattr(v.v, name))
      return BoundM(v, name)
    if isinstance(v, T):
      if v.op == 'super':
        cls, self_ = v.args
        start = self_.cls if isinstance(self_, Obj) else self_
        if isinstance(start, Cls):
          st = start
          if not isinstance(self_, Obj) and cls not in st.mro() and st.meta:
            st = st.meta
          a, owner = self.clookup(st, name, after=cls)
          if a is not None:
            if isinstance(a, Fn):
              if name == '__new__':
                return a
              return Bound(a, self_)
            if isinstance(a, Prop):
              return self.call(a.fget, [self_], {}, node)
            if isinstance(a, ClassM):
              return Bound(a.f, self_)
            if isinstance(a, StaticM):
              return a.f
            return a
          for b in st.mro():
            if isinstance(b, Ext) and b.name != 'builtins.object':
              return T('supermeth', b, self_, name)
          return T('supermeth', Ext('builtins.object'), self_, name)
        return T('attr', v, name)
      if v.op == 'ite':
        a = self.getattr(v.args[1], name, node, default)
        b = self.getattr(v.args[2], name, node, default)
        if isinstance(a, BoundM) or isinstance(b, BoundM):
          return BoundM(v, name)
        return T('ite', v.args[0], a, b)
      if name == 'ndim':
        return T('ndim', v)
      return T('attr', v, name)
    return T('attr', v, name)

  def _obj_getattr(self, v, name, node, default):
    cls = v.cls
    if name == '__class__':
      return self.type_of(v)
    if isinstance(cls, Cls):
      a, owner = self.clookup(cls, name)
      if isinstance(a, Prop):
        return self.call(a.fget, [v], {}, node)
      if name in v.attrs:
        return v.attrs[name]
      if a is not None:
        if isinstance(a, Fn):
          return Bound(a, v)
        if isinstance(a, HostFn):
          return Bound(a, v)
        if isinstance(a, StaticM):
          return a.f
        if isinstance(a, ClassM):
          return Bound(a.f, cls)
        return a
      if name == '__dict__':
        return T('objdict', v)
      if cls.nt_fields is not None and name in (
          '_replace', '_asdict', '_fields', 'index', 'count', '_make'):
        if name == '_fields':
          return Tup([K(f) for f in cls.nt_fields])
        return BoundM(v, name)
      exts = [b for b in cls.mro() if isinstance(b, Ext)]
      if any(self.models.is_mapping_ext(b.name) for b in exts) and name in (
          'get', 'items', 'keys', 'values', '__contains__', '__eq__'):
        return BoundM(v, name)
      if any(b.name == 'threading.Thread' for b in exts):
        return BoundM(v, name)
      ga, _ = self.clookup(cls, '__getattr__')
      if ga is not None and not (name.startswith('__') and name.endswith('__')):
        if default is not None:
          try:
            return self.call(Bound(ga, v), [K(name)], {}, node)
          except AbsRaise as e:
            if self.exc_matches(e.exc, Ext('builtins.AttributeError')) is True:
              return default
            raise
        return self.call(Bound(ga, v), [K(name)], {}, node)
      if v.extra.get('open'):
        return T('attr', v, name)
      if default is not None:
        return default
      if any(b.name not in ('builtins.object', 'typing.Generic', 'abc.ABC',
                            'threading.local', 'typing.NamedTuple')
             for b in exts):
        return BoundM(v, name)
      self.raise_('AttributeError', node, K(name))
    # builtin kinds
    if name in v.attrs:
      return v.attrs[name]
    if cls == 'exc' or cls == 'opaque':
      if default is not None and not v.extra.get('open'):
        return default
      return T('attr', v, name)
    if cls == 'object':
      if default is not None:
        return default
      self.raise_('AttributeError', node, K(name))
    return BoundM(v, name)

  def setattr(self, v, name, val, node=None):
    if isinstance(v, Obj):
      if isinstance(v.cls, Cls):
        a, _ = self.clookup(v.cls, name)
        if isinstance(a, Prop):
          if a.fset is None or a.fset == NONE:
            self.raise_('AttributeError', node, K(name))
          self.call(a.fset, [v, val], {}, node)
          return
      self.event('setattr', node, obj=v, name=name, value=val,
                 old=v.attrs.get(name))
      v.attrs[name] = val
      v.ver += 1
    elif isinstance(v, ModV):
      self.event('setattr', node, obj=v, name=name, value=val,
                 old=v.env.vars.get(name))
      v.env.vars[name] = val
    elif isinstance(v, (Fn, HostFn, Cls)):
      self.event('setattr', node, obj=v, name=name, value=val,
                 old=v.attrs.get(name))
      v.attrs[name] = val
    elif isinstance(v, Bound) and isinstance(v.f, Fn):
      self.setattr(v.f, name, val, node)
    else:
      self.event('setattr', node, obj=v, name=name, value=val, old=None)

  # ------------------------------------------------------------------ items
  def rel_loops(self, o):
    l0 = o.extra.get('loops0', ())
    cur = self.loops
    i = 0
    while i < len(l0) and i < len(cur) and l0[i] == cur[i]:
      i += 1
    return cur[i:]

  def new(self, kind, items=None, **extra):
    o = Obj(kind, self.uid(), items)
    o.extra['loops0'] = self.loops
    o.extra.update(extra)
    o.alloc = self.loc()
    return o

  def mklist(self, vals_, kind='list'):
    o = self.new(kind, [])
    o.items = [('v', x, ()) for x in vals_]
    return o

  def mkdict(self, d=None, kind='dict'):
    o = self.new(kind, [])
    for k, v in (d or {}).items():
      o.items.append(('kv', k if isinstance(k, V) else K(k), v, ()))
    return o

  def plain(self, o):
    return all(e[0] != 'spread' and not e[-1] for e in o.items)

  def seq_term(self, o):
    """Immutable snapshot of a sequence object."""
    if self.plain(o):
      return Tup([e[1] for e in o.items])
    if len(o.items) == 1 and o.items[0][0] == 'spread' and not o.items[0][-1]:
      return o.items[0][1]
    return T('seq', tuple(o.items))

  def eq_term(self, a, b):
    if a is b or a == b:
      if not (isinstance(a, T) and a.op in ('nan',)):
        return TRUE
    if isinstance(a, K) and isinstance(b, K):
      return K(a.v == b.v)
    if isinstance(a, Obj) and a.kind in ('list',) and isinstance(b, Obj) and \
        b.kind in ('list',):
      return self.eq_term(self.seq_term(a), self.seq_term(b))
    if isinstance(a, Tup) and isinstance(b, Tup):
      if len(a.items) != len(b.items):
        return FALSE
      rs = [self.eq_term(x, y) for x, y in zip(a.items, b.items)]
      if any(r == FALSE for r in rs):
        return FALSE
      rs = [r for r in rs if r != TRUE]
      if not rs:
        return TRUE
      if len(rs) == 1:
        return rs[0]
      return T('eq', *sorted((a, b), key=_okey))
    if isinstance(a, (K, Tup)) and isinstance(b, (K, Tup)):
      if isinstance(a, K) and isinstance(a.v, tuple) or \
          isinstance(b, K) and isinstance(b.v, tuple):
        return T('eq', *sorted((a, b), key=_okey))
      return FALSE
    if isinstance(a, Obj) and isinstance(a.cls, Cls):
      m, _ = self.clookup(a.cls, '__eq__')
      if m is not None:
        return self.call(Bound(m, a), [b], {})
    for x, y in ((a, b), (b, a)):
      if x == NONE and isinstance(y, (Obj, Fn, Cls, Ext, Tup, HostFn)):
        return FALSE
      if isinstance(x, Obj) and x.kind in DICT and isinstance(y, T):
        if not x.items:
          return T('not', T('truthy', y))
    if isinstance(a, (Fn, Cls, Ext, ModV)) and isinstance(b, (Fn, Cls, Ext,
                                                              ModV)):
      return FALSE
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'id':
      return self.is_term(a.args[0], b.args[0])
    if isinstance(a, T) and isinstance(b, T) and a.op == b.op == 'enum' and \
        all(isinstance(x.args[1], str) for x in (a, b)):
      return FALSE
    return T('eq', *sorted((a, b), key=_okey))

  def is_term(self, a, b):
    if a is b:
      return TRUE
    if isinstance(a, K) and isinstance(b, K):
      if a.v is None or b.v is None or isinstance(a.v, bool) or \
          isinstance(b.v, bool):
        return K(a.v is b.v)
      return T('is', a, b) if a == b else FALSE
    if isinstance(a, (Obj, Fn, Cls, HostFn, ModV)) and isinstance(
        b, (Obj, Fn, Cls, HostFn, ModV, K, Tup, Ext)):
      return FALSE
    if isinstance(b, (Obj, Fn, Cls, HostFn, ModV)) and isinstance(
        a, (K, Tup, Ext)):
      return FALSE
    if isinstance(a, Ext) and isinstance(b, Ext):
      return K(a == b)
    if isinstance(a, Tup) and isinstance(b, Tup):
      if len(a.items) != len(b.items):
        return FALSE
      if not a.items:
        return TRUE
      if any(isinstance(x, V) and isinstance(y, V) and
             self.is_term(x, y) == FALSE for x, y in zip(a.items, b.items)):
        return FALSE
    if isinstance(a, T) and a == b:
      return TRUE
    if (a == NONE and isinstance(b, (Tup, Ext, Bound, Partial, BoundM))) or (
        b == NONE and isinstance(a, (Tup, Ext, Bound, Partial, BoundM))):
      return FALSE
    for x, y in ((a, b), (b, a)):
      if x == NONE and isinstance(y, T):
        if y in self.types or y.op in NOTNONE:
          return FALSE
        if y.op == 'carry' and y.args[0] == NONE:
          break
    for x, y in ((a, b), (b, a)):
      if isinstance(y, T) and y.op == 'typeof' and isinstance(x, (Cls, Ext)):
        pass
    return T('is', *sorted((a, b), key=_okey))

  def getitem(self, v, k, node=None):
    if isinstance(v, T) and v.op == 'range' and isinstance(k, K) and all(
        isinstance(a, K) for a in v.args):
      r = range(*[a.v for a in v.args])
      if isinstance(k.v, slice):
        r = r[k.v]
        return T('range', K(r.start), K(r.stop), K(r.step))
      if isinstance(k.v, int):
        if not -len(r) <= k.v < len(r):
          self.raise_('IndexError', node)
        return K(r[k.v])
    if isinstance(v, Obj):
      if isinstance(v.cls, Cls):
        if v.cls.nt_fields is not None and isinstance(k, K):
          f = v.cls.nt_fields
          if isinstance(k.v, int):
            try:
              return v.attrs[f[k.v]]
            except IndexError:
              self.raise_('IndexError', node)
          if isinstance(k.v, slice):
            return Tup([v.attrs[n] for n in f[k.v]])
        m, _ = self.clookup(v.cls, '__getitem__')
        if m is not None:
          return self.call(Bound(m, v), [k], {}, node)
        return T('getitem', v, k)
      if v.kind in DICT:
        return self.dict_get(v, k, node)
      if v.kind in SEQ:
        if isinstance(k, K) and isinstance(k.v, int):
          if self.plain(v):
            try:
              return v.items[k.v][1]
            except IndexError:
              self.raise_('IndexError', node)
          # leading / trailing plain entries are addressable
          if k.v >= 0:
            its = v.items[:k.v + 1]
            if len(its) == k.v + 1 and all(
                e[0] == 'v' and not e[-1] for e in its):
              return its[-1][1]
          else:
            its = v.items[k.v:]
            rl = self.rel_loops(v)
            if len(its) == -k.v and all(
                e[0] == 'v' and (not e[-1] or e[-1] == rl) for e in its):
              return its[0][1]
        if isinstance(k, K) and isinstance(k.v, slice) and self.plain(v):
          o = self.new('list', list(v.items[k.v]))
          return o
        st = self.seq_term(v)
        if isinstance(st, T) and st.op != 'seq':
          return self.getitem(st, k, node)
        if isinstance(k, T) and k.op in ('elem', 'idx') and self.plain(v) \
            and len(v.items) == 1:
          return v.items[0][1]
        r = T('getitem', st, k)
        return r
      return T('getitem', v, k)
    if isinstance(v, Tup):
      if isinstance(k, K):
        try:
          r = v.items[k.v]
        except (IndexError, TypeError):
          self.raise_('IndexError', node)
        return Tup(r) if isinstance(k.v, slice) else r
      return T('getitem', v, k)
    if isinstance(v, K):
      if isinstance(k, K):
        try:
          return K(v.v[k.v])
        except Exception as e:  # constant folding only
          self.raise_(type(e).__name__, node)
      return T('getitem', v, k)
    if isinstance(v, (Cls, Ext)):
      return v  # generic alias
    if isinstance(v, T):
      if v.op == 'tuple':
        return self.getitem(v.args[0], k, node)
      if v.op == 'ite':
        return T('ite', v.args[0], self.getitem(v.args[1], k, node),
                 self.getitem(v.args[2], k, node))
      if isinstance(k, T) and k.op == 'idx' and k.args[0] == v:
        return T('elem', v, k.args[1])
      if self.handlers and not isinstance(k, K):
        for hs in self.handlers:
          if any(h in ('KeyError', 'LookupError') for h in hs):
            if not self.decide(T('in', k, v), node):
              self.raise_('KeyError', node, k)
      return T('getitem', v, k)
    return T('getitem', v, k)

  def dict_find(self, o, k):
    """Returns ('hit', value) | ('miss',) | ('open', term)."""
    self.prune(o)
    for e in reversed(o.items):
      if e[0] == 'spread':
        return ('spread', e)
      _, kk, vv, lp = e
      if kk == k:
        return ('hit', vv)
      if lp:
        if isinstance(kk, T) and kk.op == 'elem':
          return ('generic', e)
        return ('open', e)
      r = self.eq_term(kk, k)
      if r == TRUE:
        return ('hit', vv)
      if r != FALSE:
        if self.nofork:
          return ('open', e)
        if self.decide(r):
          return ('hit', vv)
    return ('miss',)

  def dict_get(self, o, k, node=None, default=None, nodefault=False):
    r = self.dict_find(o, k)
    if r[0] == 'hit':
      return r[1]
    if r[0] == 'generic':
      _, kk, vv, lp = r[1]
      coll = kk.args[0]
      if self.contains_decide(coll, k, node):
        x = subst(vv, {kk: k})
        if isinstance(x, Obj) and x is not vv and isinstance(k, K):
          # the entry is a distinct mutable object: give it an identity
          o.items.append(('kv', k, x, ()))
        return x
    elif r[0] == 'spread':
      t = r[1][1]
      if k == T('elem', t, k.args[1] if isinstance(k, T) and k.op == 'elem'
                else None):
        return T('getitem', t, k)
      if default is None and o.kind != 'defaultdict' and \
          o.kind != 'Counter' and not self.handlers:
        return T('getitem', t, k)
      if self.contains_decide(t, k, node):
        return T('getitem', t, k)
    elif r[0] == 'open':
      return T('getitem', o, k, o.ver)
    if default is not None:
      return default
    if o.kind == 'Counter':
      return K(0)
    if o.kind == 'defaultdict' and o.extra.get('factory') not in (None, NONE):
      val = self.call(o.extra['factory'], [], {}, node)
      self.setitem(o, k, val, node, implicit=True)
      return val
    self.raise_('KeyError', node, k)

  def contains_decide(self, coll, k, node=None):
    t = self.contains(coll, k)
    if isinstance(t, K):
      return bool(t.v)
    return self.decide(t, node)

  def contains(self, coll, k):
    """`k in coll` as K or a condition term."""
    if isinstance(k, T) and k.op == 'elem' and k.args[0] == coll:
      return TRUE
    if isinstance(coll, Tup):
      rs = [self.eq_term(x, k) for x in coll.items]
      if any(r == TRUE for r in rs):
        return TRUE
      rs = [r for r in rs if r != FALSE]
      if not rs:
        return FALSE
      if len(rs) == 1:
        return rs[0]
      return T('or', *rs)
    if isinstance(coll, K):
      if isinstance(k, K):
        try:
          return K(k.v in coll.v)
        except TypeError:
          return FALSE
      if isinstance(coll.v, (tuple, list, set, frozenset)):
        return self.contains(Tup([K(x) for x in coll.v]), k)
      return T('in', k, coll)
    if isinstance(coll, Obj):
      if isinstance(coll.cls, Cls):
        m, _ = self.clookup(coll.cls, '__contains__')
        if m is not None:
          return self.truth_term(self.call(Bound(m, coll), [k], {}))
        if coll.cls.nt_fields is not None:
          return self.contains(
              Tup([coll.attrs[f] for f in coll.cls.nt_fields]), k)
        gi, _ = self.clookup(coll.cls, '__getitem__')
        it, _ = self.clookup(coll.cls, '__iter__')
        if gi is not None:
          try:
            self.call(Bound(gi, coll), [k], {})
            return TRUE
          except AbsRaise as e:
            if self.exc_matches(e.exc, Ext('builtins.KeyError')) is True:
              return FALSE
            raise
        return T('in', k, coll)
      if coll.items is not None:
        self.prune(coll)
        if not coll.items:
          return FALSE
        open_ = []
        for e in reversed(coll.items):
          if e[0] == 'spread':
            open_.append(self.contains(e[1], k)
                         if isinstance(e[1], (Tup, Obj)) else T('in', k, e[1]))
            continue
          if e[-1]:
            if isinstance(e[1], T) and e[1].op == 'elem':
              if e[1] == k:
                return TRUE
              open_.append(T('in', k, e[1].args[0]))
            else:
              open_.append(T('in', k, coll, coll.ver))
            continue
          r = self.eq_term(e[1], k)
          if r == TRUE:
            return TRUE
          if r != FALSE:
            open_.append(r)
        if not open_:
          return FALSE
        if len(open_) == 1:
          return open_[0]
        return T('or', *open_)
      return T('in', k, coll)
    if isinstance(coll, T):
      if coll.op in ('keys', 'tuple', 'treecopy', 'sorted', 'set'):
        return self.contains(coll.args[0], k)
      return T('in', k, coll)
    return T('in', k, coll)

  def setitem(self, v, k, val, node=None, implicit=False):
    if isinstance(v, Obj):
      if isinstance(v.cls, Cls):
        m, _ = self.clookup(v.cls, '__setitem__')
        if m is not None:
          self.call(Bound(m, v), [k, val], {}, node)
          return
        self.event('setitem', node, obj=v, key=k, value=val)
        self.raise_('TypeError', node)
      if v.kind in DICT:
        if not implicit:
          self.event('setitem', node, obj=v, key=k, value=val)
        rl = self.rel_loops(v)
        new = []
        for e in v.items:
          if e[0] == 'kv' and e[1] == k and e[3] == rl:
            continue
          new.append(e)
        new.append(('kv', k, val, rl))
        v.items = new
        v.ver += 1
        return
      if v.kind in SEQ:
        self.event('setitem', node, obj=v, key=k, value=val)
        if isinstance(k, K) and isinstance(k.v, int) and self.plain(v):
          try:
            v.items[k.v] = ('v', val, ())
          except IndexError:
            self.raise_('IndexError', node)
        else:
          v.items = [('spread', T('updated', T('seq', tuple(v.items)), k, val),
                      ())]
        v.ver += 1
        return
    self.event('setitem', node, obj=v, key=k, value=val)

  def delitem(self, v, k, node=None):
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
      m, _ = self.clookup(v.cls, '__delitem__')
      if m is not None:
        self.call(Bound(m, v), [k], {}, node)
        return
    self.event('delitem', node, obj=v, key=k)
    if isinstance(v, Obj) and isinstance(v.cls, Cls) and v.items is None:
      self.raise_('TypeError', node)
    if isinstance(v, Obj) and v.items is not None:
      if v.kind in DICT:
        v.items = [e for e in v.items if not (e[0] == 'kv' and e[1] == k)]
      elif isinstance(k, K) and self.plain(v):
        try:
          del v.items[k.v]
        except IndexError:
          self.raise_('IndexError', node)
      v.ver += 1

  # -------------------------------------------------------------- iteration
  def view_of(self, v):
    """Instances of subclasses of the collections.abc mapping views."""
    if isinstance(v.cls, Cls) and '_mapping' in v.attrs:
      for b in v.cls.mro():
        if isinstance(b, Ext):
          n = b.name.rsplit('.', 1)[-1]
          if n in ('KeysView', 'ValuesView', 'ItemsView'):
            return T(n[:-4].lower(), v.attrs['_mapping'])
    return None

  def entries(self, v, node=None):
    """Iteration plan: list of (value, loops) with loops=() for concrete."""
    if isinstance(v, Tup):
      return [(x, ()) for x in v.items]
    if isinstance(v, K):
      if isinstance(v.v, (str, tuple, list, range, bytes, set, frozenset, dict)):
        xs = list(v.v)
        if len(xs) <= 12:
          return [(x if isinstance(x, V) else K(x), ()) for x in xs]
        return self._generic(v)
      self.raise_('TypeError', node)
    if isinstance(v, Obj):
      if v.kind in SEQ:
        self.prune(v)
        out = []
        for e in list(v.items):
          if e[0] == 'spread':
            out.extend((x, e[2] + l) for x, l in self.entries(e[1], node))
          else:
            out.append((e[1], e[2]))
        return out
      if v.kind in DICT:
        self.prune(v)
        out = []
        for e in list(v.items):
          if e[0] == 'spread':
            out.extend((x, e[2] + l) for x, l in self.entries(e[1], node))
          else:
            out.append((e[1], e[3]))
        return out
      if isinstance(v.cls, Cls):
        if v.cls.nt_fields is not None:
          return [(v.attrs[f], ()) for f in v.cls.nt_fields]
        m, _ = self.clookup(v.cls, '__iter__')
        if m is not None:
          return self.entries(self.call(Bound(m, v), [], {}, node), node)
        w = self.view_of(v)
        if w is not None:
          return self.entries(w, node)
      return self._generic(v)
    if isinstance(v, Gen):
      return v  # handled by caller
    if isinstance(v, T):
      if self.arr is not None:
        n = self.arr.length(v)
        if n is not None and n <= 64:
          return [(self.getitem(v, K(i), node), ()) for i in range(n)]
      if v.op in ('tuple', 'keys', 'treecopy', 'list'):
        return self.entries(v.args[0], node)
      if v.op == 'items':
        x = v.args[0]
        if isinstance(x, Obj) and x.kind in DICT:
          out = []
          for e in list(x.items):
            if e[0] == 'spread':
              for kk, l in self.entries(e[1], node):
                out.append((Tup([kk, T('getitem', e[1], kk)]), e[2] + l))
            else:
              out.append((Tup([e[1], e[2]]), e[3]))
          return out
        out = []
        for kk, l in self.entries(x, node):
          out.append((Tup([kk, self._gi(x, kk)]), l))
        return out
      if v.op == 'values':
        return [(p.items[1], l) for p, l in
                self.entries(T('items', v.args[0]), node)]
      if v.op == 'enumerate':
        start = v.args[1] if len(v.args) > 1 else K(0)
        es = self.entries(v.args[0], node)
        if isinstance(es, Gen):
          raise Undecided('enumerate over generator')
        out = []
        for i, (x, l) in enumerate(es):
          if l:
            idx = T('idx', v.args[0], l[-1]) if start == K(0) else self.binop(
                'Add', T('idx', v.args[0], l[-1]), start)
          else:
            idx = self.binop('Add', K(i), start)
          out.append((Tup([idx, x]), l))
        return out
      if v.op == 'zip':
        ess = [self.entries(a, node) for a in v.args]
        if ess and all(not isinstance(es, Gen) and all(not l for _, l in es)
                       for es in ess):
          return [(Tup(xs), ()) for xs in zip(*[[x for x, _ in es]
                                                for es in ess])]
        L = T('loop', self.uid(), v)
        return [(Tup([self._elem_at(a, es, L) for a, es in zip(v.args, ess)]),
                 (L,))]
      if v.op == 'range':
        if all(isinstance(a, K) for a in v.args):
          xs = range(*[a.v for a in v.args])
          if len(xs) <= 64:
            return [(K(x), ()) for x in xs]
        L = T('loop', self.uid(), v)
        if len(v.args) == 1 and isinstance(v.args[0], T) and \
            v.args[0].op == 'len':
          return [(T('idx', v.args[0].args[0], L), (L,))]
        return [(T('elem', v, L), (L,))]
      if v.op == 'seq':
        out = []
        for e in v.args[0]:
          if e[0] == 'spread':
            out.extend((x, e[2] + l) for x, l in self.entries(e[1], node))
          else:
            out.append((e[1], e[2]))
        return out
      if v.op == 'reversed' and isinstance(v.args[0], (Tup, Obj, K)):
        es = self.entries(v.args[0], node)
        if isinstance(es, list) and all(not l for _, l in es):
          return es[::-1]
        if isinstance(es, list):
          return es[::-1]
      if v.op == 'sorted' and isinstance(v.args[0], (Tup, Obj)):
        return self.entries(v.args[0], node)
      return self._generic(v)
    return self._generic(v)

  def _gi(self, x, k):
    if isinstance(x, Obj):
      return self.getitem(x, k)
    if isinstance(x, T) and x.op == 'treecopy':
      return self._gi(x.args[0], k) if isinstance(x.args[0], Obj) else T(
          'getitem', x, k)
    return T('getitem', x, k)

  def _elem_at(self, a, es, L):
    if not isinstance(es, Gen) and len(es) == 1 and es[0][1]:
      return subst(es[0][0], {es[0][1][-1]: L}) if isinstance(
          es[0][0], T) else es[0][0]
    return T('elem', a, L)

  def _generic(self, v):
    L = T('loop', self.uid(), v)
    base = v
    while isinstance(base, T) and base.op in ('sorted',):
      base = base.args[0]
    return [(T('elem', base, L), (L,))]

  def iter_list(self, v, node=None):
    """Iteration plan, draining generators."""
    es = self.entries(v, node)
    if isinstance(es, Gen):
      out = []
      while True:
        try:
          x = self.gen_resume(es)
        except StopIteration:
          break
        out.append((x, self.rel_gen_loops(es)))
        if len(out) > 64:
          raise Undecided('generator too long')
      return out
    return es

  def rel_gen_loops(self, g):
    return ()

  def gen_resume(self, g, send=None, exc=None):
    """Resumes a suspended generator; StopIteration when it finishes."""
    if g.done:
      raise StopIteration
    try:
      saved = self.stack
      sh, self.handlers = self.handlers, []
      self.stack = saved + [g.fn]
      try:
        if exc is not None:
          return g.host.throw(exc)
        if not g.started:
          g.started = True
          return g.host.send(None)
        return g.host.send(send)
      finally:
        self.stack = saved
        self.handlers = sh
    except StopIteration:
      g.done = True
      raise
    except BaseException:
      g.done = True
      raise

  # ------------------------------------------------------------------ calls
  def call(self, f, args, kwargs=None, node=None):
    kwargs = kwargs or {}
    if isinstance(f, Fn):
      return self.call_fn(f, args, kwargs, node)
    if isinstance(f, Bound):
      return self.call(f.f, [f.self_] + list(args), kwargs, node)
    if isinstance(f, HostFn):
      self.event('hostcall', node, f=f, args=list(args), kwargs=dict(kwargs))
      return f.f(self, list(args), dict(kwargs))
    if isinstance(f, Partial):
      kw = dict(f.kwargs)
      kw.update(kwargs)
      return self.call(f.f, list(f.args) + list(args), kw, node)
    if isinstance(f, Cls):
      return self.instantiate(f, args, kwargs, node)
    if isinstance(f, BoundM):
      return self.models.call_method(self, f.obj, f.name, args, kwargs, node)
    if isinstance(f, Ext):
      return self.models.call_ext(self, f.name, args, kwargs, node)
    if isinstance(f, Obj):
      if isinstance(f.cls, Cls):
        m, _ = self.clookup(f.cls, '__call__')
        if m is not None:
          self.event('modcall', node, obj=f, args=list(args),
                     kwargs=dict(kwargs))
          return self.call(Bound(m, f) if not isinstance(m, StaticM) else m.f,
                           args, kwargs, node)
      if f.kind == 'hof':
        return self.models.call_hof(self, f, args, kwargs, node)
      if f.kind == 'exc':
        pass
      self.raise_('TypeError', node)
    if isinstance(f, T):
      return self.models.call_term(self, f, args, kwargs, node)
    if isinstance(f, (StaticM, ClassM)):
      return self.call(f.f, args, kwargs, node)
    if isinstance(f, K):
      self.raise_('TypeError', node)
    raise Undecided(f'call of {f!r}')

  def user_call(self, t, args, kwargs, node=None, may_raise=True):
    """A call of an unknown user callable."""
    e = self.event('usercall', node, f=t, args=list(args), kwargs=dict(kwargs))
    if may_raise and self.opaque_raises(t):
      if self.choice(2, 'raise') == 1:
        exc = Obj('exc', self.uid())
        exc.attrs['__class__'] = T('userexc', t)
        exc.attrs['args'] = Tup([])
        exc.extra['user'] = True
        if e is not None:
          e.d['raised'] = True
        raise AbsRaise(exc, node)
    r = T('ret', t, self.uid())
    if e is not None:
      e.d['result'] = r
    return r

  def opaque_raises(self, t):
    return t in self.raising

  def bind(self, fn, args, kwargs, node=None):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    out = {}
    pos = list(args)
    kwargs = dict(kwargs)
    dstar = kwargs.pop('**', None)
    i = 0
    star_rest = None
    flat = []
    for x in pos:
      if isinstance(x, Star):
        star_rest = x
        flat.append(x)
      else:
        flat.append(x)
    pos = flat
    for n in names:
      if i < len(pos) and not isinstance(pos[i], Star):
        out[n] = pos[i]
        i += 1
      elif i < len(pos) and isinstance(pos[i], Star) and n not in kwargs and \
          not (i == len(pos) - 1 and a.vararg is not None and
               self._has_default(fn, n)):
        out[n] = T('getitem', pos[i].t, K(len(out)))
        # remaining star content is unknown; leave it in place
      else:
        break
    rest = pos[i:]
    if a.vararg is not None:
      items = []
      if any(isinstance(x, Star) for x in rest):
        if len(rest) == 1:
          out[a.vararg.arg] = T('tuple', rest[0].t)
        else:
          out[a.vararg.arg] = T('seq', tuple(
              ('spread', x.t, ()) if isinstance(x, Star) else ('v', x, ())
              for x in rest))
      else:
        out[a.vararg.arg] = Tup(rest)
    elif any(not isinstance(x, Star) for x in rest):
      self.raise_('TypeError', node, K('too many positional arguments'))
    kwonly = [x.arg for x in a.kwonlyargs]
    posonly = {x.arg for x in a.posonlyargs}
    extra = {}
    for k, v in kwargs.items():
      if k in names and k not in posonly:
        if k in out:
          self.raise_('TypeError', node, K('multiple values'))
        out[k] = v
      elif k in kwonly:
        out[k] = v
      elif a.kwarg is not None:
        extra[k] = v
      else:
        self.raise_('TypeError', node, K(f'unexpected keyword {k}'))
    nd = len(fn.defaults)
    for j, n in enumerate(names):
      if n not in out:
        dj = j - (len(names) - nd)
        if dj >= 0:
          out[n] = fn.defaults[dj]
        elif dstar is not None:
          out[n] = T('getitem', dstar, K(n))
        else:
          self.raise_('TypeError', node, K(f'missing argument {n}'))
    for n in kwonly:
      if n not in out:
        if n in fn.kwdefaults:
          out[n] = fn.kwdefaults[n]
        elif dstar is not None:
          out[n] = T('getitem', dstar, K(n))
        else:
          self.raise_('TypeError', node, K(f'missing argument {n}'))
    if a.kwarg is not None:
      o = self.mkdict({k: v for k, v in extra.items()})
      if dstar is not None:
        o.items.insert(0, ('spread', dstar, ()))
      out[a.kwarg.arg] = o
    return out

  def _has_default(self, fn, n):
    a = fn.node.args
    names = [x.arg for x in a.posonlyargs + a.args]
    return names.index(n) >= len(names) - len(fn.defaults)

  def call_fn(self, fn, args, kwargs, node=None):
    st = self.stubs.get(id(fn.node))
    if st is not None and not self.loading:
      r = st(self, fn, args, kwargs, node)
      if r is not NotImplemented:
        return r
    if not self.loading:
      self.fnset.add((fn.mod.path, fn.qual, getattr(fn.node, 'lineno', 0)))
    # a walk into an opaque value is cut early: it has no known depth
    lim = 2 if any(isinstance(a, T) and a.op in ('getitem', 'elem')
                   for a in args) else self.rec_limit
    if not self.loading and \
        sum(1 for f in self.stack if f.node is fn.node) >= lim:
      self.event('recursion', node, f=fn, args=list(args))
      return T('rec', fn, tuple(a for a in args if isinstance(a, V)),
               tuple(sorted(kwargs.items())) if all(
                   isinstance(v, V) for v in kwargs.values()) else ())
    if len(self.stack) > self.max_depth:
      raise Undecided('call depth bound reached')
    bound = self.bind(fn, args, kwargs, node)
    env = Env(fn.env, 'func', fn.mod, fn)
    env.vars.update(bound)
    if isinstance(fn.node, ast.Lambda):
      self.stack.append(fn)
      sh, self.handlers = self.handlers, []
      try:
        return self.drive(self.ev(fn.node.body, env))
      finally:
        self.stack.pop()
        self.handlers = sh
    if fn.isgen:
      host = self.gen_body(fn, env)
      g = Gen(host, fn)
      if fn.cm:
        o = self.new('cm', None)
        o.attrs['gen'] = g
        return o
      return g
    self.event('enter', node, f=fn, args=bound)
    self.stack.append(fn)
    sn, self.nofork = self.nofork, 0
    sh, self.handlers = self.handlers, []
    r = NONE
    try:
      self.drive(self.ex_block(fn.node.body, env))
    except _Ret as e:
      r = e.v
    finally:
      self.stack.pop()
      self.nofork = sn
      self.handlers = sh
    self.event('leave', node, f=fn, result=r)
    return r

  def gen_body(self, fn, env):
    try:
      yield from self.ex_block(fn.node.body, env)
    except _Ret:
      pass

  def instantiate(self, cls, args, kwargs, node=None):
    if cls.fields is not None or cls.nt_fields is not None:
      new, _ = self.clookup(cls, '__new__')
      if new is None:
        return self.make_nt(cls, args, kwargs, node)
    meta = self.meta_of(cls)
    if isinstance(meta, Cls) and not self.raw:
      m, _ = self.clookup(meta, '__call__')
      if m is not None:
        return self.call(Bound(m, cls), args, kwargs, node)
    return self.type_call(cls, args, kwargs, node)

  def meta_of(self, cls):
    for c in cls.mro():
      if isinstance(c, Cls) and c.meta is not None:
        return c.meta
    return None

  def type_call(self, cls, args, kwargs, node=None):
    for b in cls.mro():
      if isinstance(b, Ext) and b.name.rsplit('.', 1)[-1] in BUILTIN_EXC:
        o = self.new_exc(cls, args)
        return o
      if isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum'):
        return T('enum', cls, *args)
    o = self.new(cls, None)
    self.event('new', node, cls=cls, obj=o, args=list(args),
               kwargs=dict(kwargs))
    for b in cls.mro():
      if isinstance(b, Ext) and b.name in self.models.CONTAINER_EXT:
        k = self.models.CONTAINER_EXT[b.name]
        o.items = []
    init, owner = self.clookup(cls, '__init__')
    dc = None
    for b in cls.mro():
      if b is owner:
        break
      if isinstance(b, Cls) and '__sa_dc__' in b.attrs:
        dc = b.attrs['__sa_dc__'].v
        break
    if dc is not None:
      left = dict(kwargs)
      for i, f in enumerate(dc):
        if i < len(args):
          o.attrs[f] = args[i]
        elif f in left:
          o.attrs[f] = left.pop(f)
        else:
          d, _ = self.clookup(cls, f)
          if d is None:
            self.raise_('TypeError', node, K(f'missing {f}'))
          o.attrs[f] = d
      if left or len(args) > len(dc):
        self.raise_('TypeError', node)
      pi, _ = self.clookup(cls, '__post_init__')
      if pi is not None:
        self.call(Bound(pi, o), [], {}, node)
    elif init is not None:
      self.call(Bound(init, o), args, kwargs, node)
    elif (args or kwargs):
      if any(isinstance(b, Ext) and b.name not in ('builtins.object',)
             for b in cls.mro()):
        o.extra['open'] = True
      else:
        self.raise_('TypeError', node)
    return o

  def make_nt(self, cls, args, kwargs, node=None):
    fields = cls.nt_fields
    defaults = {}
    for c in reversed(cls.mro()):
      if isinstance(c, Cls):
        defaults.update(c.field_defaults)
    o = self.new(cls, None)
    vals_ = {}
    args = list(args)
    if any(isinstance(a, Star) for a in args):
      t = [a for a in args if isinstance(a, Star)][0].t
      i = 0
      exp = []
      for a in args:
        if isinstance(a, Star):
          while len(exp) < len(fields):
            exp.append(T('getitem', t, K(i)))
            i += 1
        else:
          exp.append(a)
      args = exp[:len(fields)]
    if len(args) > len(fields):
      self.raise_('TypeError', node)
    for f, a in zip(fields, args):
      vals_[f] = a
    for k, v in kwargs.items():
      if k not in fields or k in vals_:
        self.raise_('TypeError', node)
      vals_[k] = v
    for f in fields:
      if f not in vals_:
        if f in defaults:
          vals_[f] = defaults[f]
        else:
          self.raise_('TypeError', node)
    o.attrs = {f: vals_[f] for f in fields}
    return o

  # --------------------------------------------------------------- exceptions
  def exc_class(self, exc):
    if isinstance(exc, Obj):
      return exc.attrs.get('__class__', exc.cls)
    return exc

  def exc_matches(self, exc, handler):
    """True / False / None."""
    if isinstance(handler, Tup):
      rs = [self.exc_matches(exc, h) for h in handler.items]
      if any(r is True for r in rs):
        return True
      return None if any(r is None for r in rs) else False
    if handler == Ext('builtins.BaseException'):
      return True
    c = self.exc_class(exc)
    if isinstance(c, T):
      return None
    return self.is_sub(c, handler)

  # ---------------------------------------------------------------- operators
  def binop(self, op, a, b):
    if isinstance(a, K) and isinstance(b, K):
      r = self.models.fold_binop(op, a.v, b.v)
      if r is not None:
        return r
    if op == 'Add':
      if isinstance(a, Tup) and isinstance(b, Tup):
        return Tup(a.items + b.items)
      if isinstance(a, K) and isinstance(a.v, tuple):
        a = Tup([K(x) for x in a.v])
        return self.binop(op, a, b)
      if isinstance(a, Obj) and a.kind == 'list' and isinstance(b, Obj) and \
          b.kind == 'list':
        return self.new('list', list(a.items) + list(b.items))
      if self.is_str(a) or self.is_str(b):
        return self.cat([a, b])
      if isinstance(a, (Tup,)) or isinstance(b, (Tup,)):
        return self.mk_seq([('spread', a, ()), ('spread', b, ())])
      if isinstance(a, T) and a.op == 'seq' or isinstance(b, T) and \
          b.op == 'seq':
        return self.mk_seq([('spread', a, ()), ('spread', b, ())])
      if isinstance(a, Obj) and a.kind == 'list' or isinstance(b, Obj) and \
          b.kind == 'list':
        def ents(x):
          return list(x.items) if isinstance(x, Obj) and x.items is not None \
              else [('spread', x, ())]
        return self.new('list', ents(a) + ents(b))
      if a == K(0):
        return b
      if b == K(0):
        return a
      # (x + c1) + c2, (x - c1) + c2
      if isinstance(b, K) and isinstance(a, T) and a.op == 'binop' and \
          a.args[0] in ('Add', 'Sub') and isinstance(a.args[2], K) and \
          isinstance(b.v, int) and isinstance(a.args[2].v, int):
        c = a.args[2].v if a.args[0] == 'Add' else -a.args[2].v
        return self._offset(a.args[1], c + b.v)
      if isinstance(a, K) and not isinstance(b, K) and isinstance(
          a.v, (int, float)):
        a, b = b, a
    if op == 'Sub':
      if b == K(0):
        return a
      if a == b and isinstance(a, T):
        return K(0)
      if isinstance(b, K) and isinstance(b.v, int) and isinstance(a, T) and \
          a.op == 'binop' and a.args[0] in ('Add', 'Sub') and isinstance(
              a.args[2], K) and isinstance(a.args[2].v, int):
        c = a.args[2].v if a.args[0] == 'Add' else -a.args[2].v
        return self._offset(a.args[1], c - b.v)
    if op == 'Mult':
      for x, y in ((a, b), (b, a)):
        if isinstance(x, Tup) and isinstance(y, K) and isinstance(y.v, int):
          return Tup(x.items * y.v)
        if isinstance(x, Obj) and x.kind == 'list' and isinstance(y, K) and \
            isinstance(y.v, int):
          return self.new('list', list(x.items) * y.v)
        if isinstance(x, (Tup, Obj)):
          return T('repeat', self.seq_term(x) if isinstance(x, Obj) and
                   x.kind in SEQ else x, y)
    if op == 'Mod' and self.is_str(a):
      if isinstance(a, K) and a.v.count('%') == 1 and '%s' in a.v and \
          not isinstance(b, Tup):
        p, q = a.v.split('%s')
        return self.cat([K(p), b, K(q)])
      return T('fmt', a, b)
    if op in ('Sub', 'BitAnd', 'BitOr', 'BitXor') and all(
        isinstance(o, T) and o.op == 'keys' or isinstance(o, Obj) and
        (o.kind in ('set', 'frozenset') or self.view_of(o) is not None)
        for o in (a, b)):
      a, b = (self.keys_set(o) for o in (a, b))
    if op in ('Sub', 'BitAnd', 'BitOr', 'BitXor') and all(
        isinstance(o, Obj) and o.kind in ('set', 'frozenset') and
        o.items is not None and self.plain(o) for o in (a, b)):
      r = self.set_op(op, a, b)
      if r is not None:
        return r
    for o in (a, b):
      if isinstance(o, Obj) and o.kind in ('set', 'frozenset'):
        return T('binop', op, self.snap_set(a), self.snap_set(b))
    if op == 'Mult' and _okey(a) > _okey(b):
      a, b = b, a
    return T('binop', op, a, b)

  def keys_set(self, o):
    """A keys view with known entries as a set object."""
    w = self.view_of(o) if isinstance(o, Obj) else o
    if isinstance(w, T) and w.op == 'keys' and isinstance(w.args[0], Obj):
      es = self.entries(w)
      if not isinstance(es, Gen) and all(not l for _, l in es):
        return self.mklist([x for x, _ in es], 'set')
    return o

  def set_op(self, op, a, b):
    def member(x, ys):
      open_ = False
      for y in ys:
        e = self.eq_term(x, y)
        if isinstance(e, K):
          if e.v:
            return True
          continue
        t, pol = self.norm(e)
        r = bool(t.v) if isinstance(t, K) else self.implied(t)
        if r is None:
          open_ = True
        elif r == pol:
          return True
      return None if open_ else False
    xa = [e[1] for e in a.items]
    xb = [e[1] for e in b.items]
    ina = [member(x, xb) for x in xa]
    inb = [member(x, xa) for x in xb]
    if None in ina or None in inb:
      return None
    if op == 'Sub':
      out = [x for x, m in zip(xa, ina) if not m]
    elif op == 'BitAnd':
      out = [x for x, m in zip(xa, ina) if m]
    elif op == 'BitOr':
      out = xa + [x for x, m in zip(xb, inb) if not m]
    else:
      out = [x for x, m in zip(xa, ina) if not m] + [
          x for x, m in zip(xb, inb) if not m]
    return self.mklist(out, a.kind)

  def snap_set(self, o):
    if isinstance(o, Obj) and o.items is not None:
      return T('setof', tuple(e for e in o.items))
    return o

  def _offset(self, x, c):
    if c == 0:
      return x
    if c > 0:
      return T('binop', 'Add', x, K(c))
    return T('binop', 'Sub', x, K(-c))

  def mk_seq(self, ents):
    out = []
    for e in ents:
      if e[0] == 'spread' and isinstance(e[1], Tup):
        out.extend(('v', x, e[2]) for x in e[1].items)
      elif e[0] == 'spread' and isinstance(e[1], T) and e[1].op == 'seq':
        out.extend(e[1].args[0])
      elif e[0] == 'spread' and isinstance(e[1], T) and e[1].op == 'tuple':
        out.append(('spread', e[1].args[0], e[2]))
      else:
        out.append(e)
    if all(e[0] == 'v' and not e[-1] for e in out):
      return Tup([e[1] for e in out])
    return T('seq', tuple(out))

  def is_str(self, v):
    return (isinstance(v, K) and isinstance(v.v, str)) or (
        isinstance(v, T) and v.op in ('cat', 'fmt', 'str')) or (
            self.type_of(v) == Ext('builtins.str'))

  def cat(self, parts):
    out = []
    for p in parts:
      if isinstance(p, T) and p.op == 'cat':
        ps = p.args
      elif isinstance(p, T) and p.op == 'str':
        ps = p.args
      else:
        ps = (p,)
      for q in ps:
        if isinstance(q, K) and not isinstance(q.v, str):
          q = K(str(q.v))
        if isinstance(q, K) and q.v == '':
          continue
        if isinstance(q, K) and out and isinstance(out[-1], K):
          out[-1] = K(out[-1].v + q.v)
        else:
          out.append(q)
    if not out:
      return K('')
    if len(out) == 1:
      return out[0] if self.is_str(out[0]) else T('str', out[0])
    return T('cat', *out)

  def compare(self, op, a, b, node=None):
    if op == 'Eq':
      return self.eq_term(a, b)
    if op == 'NotEq':
      return self.negate(self.eq_term(a, b))
    if op == 'Is':
      return self.is_term(a, b)
    if op == 'IsNot':
      return self.negate(self.is_term(a, b))
    if op == 'In':
      return self.contains(b, a)
    if op == 'NotIn':
      return self.negate(self.contains(b, a))
    if isinstance(a, K) and isinstance(b, K):
      try:
        return K({'Lt': lambda: a.v < b.v, 'LtE': lambda: a.v <= b.v,
                  'Gt': lambda: a.v > b.v, 'GtE': lambda: a.v >= b.v}[op]())
      except TypeError:
        self.raise_('TypeError', node)
    ta, tb = (x if not (isinstance(x, K) and isinstance(x.v, tuple)) else x
              for x in (a, b))
    if op == 'Lt':
      return T('lt', ta, tb)
    if op == 'Gt':
      return T('lt', tb, ta)
    if op == 'GtE':
      return T('not', T('lt', ta, tb))
    if op == 'LtE':
      return T('not', T('lt', tb, ta))
    raise Undecided(op)

  def negate(self, t):
    if isinstance(t, K):
      return K(not t.v)
    if isinstance(t, T) and t.op == 'not':
      return t.args[0]
    return T('not', t)

  # ------------------------------------------------------------ expressions
  def ev(self, n, env):
    t = type(n).__name__
    m = getattr(self, 'ev_' + t, None)
    if m is None:
      raise Undecided(f'expression {t}')
    return (yield from m(n, env))

  def ev_Constant(self, n, env):
    return K(n.value)
    yield

  def ev_Name(self, n, env):
    return self.lookup(n.id, env, n)
    yield

  def ev_Attribute(self, n, env):
    v = yield from self.ev(n.value, env)
    return self.getattr(v, n.attr, n)

  def ev_Tuple(self, n, env):
    ents = []
    for x in n.elts:
      if isinstance(x, ast.Starred):
        v = yield from self.ev(x.value, env)
        ents.extend(self.spread_entries(v))
      else:
        ents.append(('v', (yield from self.ev(x, env)), ()))
    return self.mk_seq(ents)

  def spread_entries(self, v):
    if isinstance(v, Tup):
      return [('v', x, ()) for x in v.items]
    if isinstance(v, Obj) and v.kind in SEQ:
      return list(v.items)
    if isinstance(v, Obj) and isinstance(v.cls, Cls):
      return [('v', x, l) for x, l in self.iter_list(v)]
    if isinstance(v, Gen):
      return [('v', x, l) for x, l in self.iter_list(v)]
    if isinstance(v, T) and v.op in ('items', 'keys', 'values', 'enumerate',
                                     'zip', 'range', 'seq'):
      return [('v', x, l) for x, l in self.entries(v)]
    if isinstance(v, K) and isinstance(v.v, (tuple, list, str)):
      return [('v', K(x), ()) for x in v.v]
    return [('spread', v, ())]

  def ev_List(self, n, env):
    ents = []
    for x in n.elts:
      if isinstance(x, ast.Starred):
        v = yield from self.ev(x.value, env)
        ents.extend(self.spread_entries(v))
      else:
        ents.append(('v', (yield from self.ev(x, env)), ()))
    return self.new('list', ents)

  def ev_Set(self, n, env):
    o = self.new('set', [])
    for x in n.elts:
      o.items.append(('v', (yield from self.ev(x, env)), ()))
    return o

  def ev_Dict(self, n, env):
    o = self.new('dict', [])
    for k, v in zip(n.keys, n.values):
      if k is None:
        vv = yield from self.ev(v, env)
        self.models.dict_update(self, o, vv, n)
      else:
        kk = yield from self.ev(k, env)
        vv = yield from self.ev(v, env)
        o.items.append(('kv', kk, vv, ()))
    return o

  def ev_Lambda(self, n, env):
    fn = Fn(n, env, env.mod, self.qual(env) + '<lambda>')
    fn.defaults, fn.kwdefaults = yield from self.ev_defaults(n.args, env)
    return fn

  def qual(self, env):
    e = env
    parts = []
    while e is not None and e.kind != 'module':
      if e.kind == 'class':
        parts.append(e.fn)
      elif e.fn is not None:
        parts.append(e.fn.qual)
        break
      e = e.parent
    parts = [p for p in parts if p]
    return '.'.join(reversed(parts)) + '.' if parts else ''

  def ev_defaults(self, a, env):
    d = []
    for x in a.defaults:
      d.append((yield from self.ev(x, env)))
    kd = {}
    for k, x in zip(a.kwonlyargs, a.kw_defaults):
      if x is not None:
        kd[k.arg] = yield from self.ev(x, env)
    return tuple(d), kd

  def ev_IfExp(self, n, env):
    c = yield from self.ev(n.test, env)
    if self.nofork:
      t = self.truth_term(c)
      if not isinstance(t, K):
        tt, pol = self.norm(t)
        r = self.implied(tt)
        if r is None:
          a = yield from self.ev(n.body, env)
          b = yield from self.ev(n.orelse, env)
          if not pol:
            a, b = b, a
          return a if a == b else T('ite', tt, a, b)
        t = K(r == pol)
      c = t
    if self.truth(c, n):
      return (yield from self.ev(n.body, env))
    return (yield from self.ev(n.orelse, env))

  def ev_BoolOp(self, n, env):
    isand = isinstance(n.op, ast.And)
    v = None
    if self.nofork:
      ts = []
      for x in n.values:
        v = yield from self.ev(x, env)
        t = self.truth_term(v)
        if not isinstance(t, K):
          tt, pol = self.norm(t)
          r = self.implied(tt)
          if r is not None:
            t = K(r == pol)
        if isinstance(t, K):
          if bool(t.v) != isand:
            if not ts:
              return v
            ts.append(t)
            break
          continue
        ts.append(t)
      if not ts:
        return v
      if len(ts) == 1:
        return ts[0]
      if any(t == FALSE for t in ts) and isand:
        return FALSE
      if any(t == TRUE for t in ts) and not isand:
        return TRUE
      return T('and' if isand else 'or', *ts)
    for i, x in enumerate(n.values):
      v = yield from self.ev(x, env)
      if i == len(n.values) - 1:
        return v
      b = self.truth(v, n)
      if b != isand:
        return v if not isinstance(v, T) or v.op not in BOOLOPS else K(b)
    return v

  def ev_UnaryOp(self, n, env):
    v = yield from self.ev(n.operand, env)
    op = type(n.op).__name__
    if op == 'Not':
      if self.nofork:
        return self.negate(self.truth_term(v))
      t = self.truth_term(v)
      return self.negate(t)
    if isinstance(v, K):
      try:
        return K({'USub': lambda: -v.v, 'UAdd': lambda: +v.v,
                  'Invert': lambda: ~v.v}[op]())
      except TypeError:
        self.raise_('TypeError', n)
    return T('unop', op, v)

  def ev_BinOp(self, n, env):
    a = yield from self.ev(n.left, env)
    b = yield from self.ev(n.right, env)
    return self.binop(type(n.op).__name__, a, b)

  def ev_Compare(self, n, env):
    a = yield from self.ev(n.left, env)
    res = None
    for i, (op, x) in enumerate(zip(n.ops, n.comparators)):
      b = yield from self.ev(x, env)
      r = self.compare(type(op).__name__, a, b, n)
      if i == len(n.ops) - 1:
        if res is None:
          return r
        return r
      if self.nofork:
        res = r
      elif not self.truth(r, n):
        return FALSE
      a = b
    return res

  def ev_Subscript(self, n, env):
    v = yield from self.ev(n.value, env)
    if isinstance(v, (Cls, Ext)) and not isinstance(v, Obj):
      return v
    k = yield from self.ev(n.slice, env)
    return self.getitem(v, k, n)

  def ev_Slice(self, n, env):
    ps = []
    for x in (n.lower, n.upper, n.step):
      ps.append((yield from self.ev(x, env)) if x is not None else NONE)
    if all(isinstance(p, K) for p in ps):
      return K(slice(*[p.v for p in ps]))
    return T('slice', *ps)

  def ev_Index(self, n, env):
    return (yield from self.ev(n.value, env))

  def ev_Starred(self, n, env):
    raise Undecided('starred expression')
    yield

  def ev_JoinedStr(self, n, env):
    parts = []
    for x in n.values:
      if isinstance(x, ast.Constant):
        parts.append(K(x.value))
      else:
        v = yield from self.ev(x.value, env)
        if x.conversion != -1 or x.format_spec is not None:
          spec = x.format_spec
          spec = ''.join(y.value if isinstance(y, ast.Constant) else '?{}'
                         for y in spec.values) if spec is not None else ''
          if isinstance(v, K) and isinstance(v.v, (
              int, float, str)) and '?{}' not in spec:
            x_ = {-1: lambda y: y, 115: str, 114: repr, 97: ascii}[
                x.conversion](v.v)
            try:
              parts.append(K(format(x_, spec)))
              continue
            except ValueError:
              pass
          parts.append(T('fmt', K(f'{x.conversion}{":" + spec if spec else ""}'),
                         v))
        else:
          parts.append(v)
    return self.cat(parts)

  def ev_NamedExpr(self, n, env):
    v = yield from self.ev(n.value, env)
    e = env
    self.assign(n.target.id, v, e)
    return v

  def ev_Call(self, n, env):
    # super()
    if isinstance(n.func, ast.Name) and n.func.id == 'super' and \
        'super' not in env.vars:
      args = []
      for x in n.args:
        args.append((yield from self.ev(x, env)))
      if not args:
        e = env
        while e.kind != 'func' or e.fn is None or e.fn.cls is None:
          e = e.parent
          if e is None:
            raise Undecided('super() outside method')
        first = e.fn.node.args.args[0].arg
        return T('super', e.fn.cls[0], e.vars[first])
      return T('super', args[0], args[1])
    f = yield from self.ev(n.func, env)
    args = []
    for x in n.args:
      if isinstance(x, ast.Starred):
        v = yield from self.ev(x.value, env)
        if isinstance(v, T) and v.op == 'tuple':
          v = v.args[0]
        if isinstance(v, Tup):
          args.extend(v.items)
        elif isinstance(v, Obj) and (v.kind in SEQ and self.plain(v)):
          args.extend(e[1] for e in v.items)
        elif isinstance(v, Obj) and isinstance(v.cls, Cls) and \
            v.cls.nt_fields is not None:
          args.extend(v.attrs[k] for k in v.cls.nt_fields)
        elif isinstance(v, Obj) and v.kind in SEQ:
          st = self.seq_term(v)
          args.append(Star(st))
        elif isinstance(v, Gen):
          args.extend(x for x, _ in self.iter_list(v))
        else:
          args.append(Star(v))
      else:
        args.append((yield from self.ev(x, env)))
    kwargs = {}
    for k in n.keywords:
      v = yield from self.ev(k.value, env)
      if k.arg is None:
        if isinstance(v, Obj) and v.kind in DICT and self.plain(v) and all(
            isinstance(e[1], K) for e in v.items):
          for e in v.items:
            if e[1].v in kwargs:
              self.raise_('TypeError', n)
            kwargs[e[1].v] = e[2]
        elif isinstance(v, Obj) and v.kind in DICT:
          for e in v.items:
            if e[0] == 'kv' and isinstance(e[1], K):
              kwargs[e[1].v] = e[2]
            elif e[0] == 'spread':
              kwargs['**'] = e[1]
            else:
              kwargs['**'] = v
        else:
          kwargs['**'] = v
      else:
        if k.arg in kwargs:
          self.raise_('TypeError', n)
        kwargs[k.arg] = v
    return self.call(f, args, kwargs, n)

  def comp(self, n, env, kind, add):
    """Comprehension: generic elements are recorded once, without splitting."""
    o = self.new(kind, [])
    cenv = Env(env, 'func', env.mod, env.fn)

    def rec(i):
      if i == len(n.generators):
        yield from add(o, cenv)
        return
      g = n.generators[i]
      it = yield from self.ev(g.iter, cenv if i else env)
      for x, l in self.iter_list(it, n):
        saved = self.loops
        self.loops = self.loops + l
        if l:
          self.nofork += 1
        try:
          self.bind_target(g.target, x, cenv)
          ok = True
          marks = ()
          for c in g.ifs:
            cv = yield from self.ev(c, cenv)
            t = self.truth_term(cv)
            if isinstance(t, K):
              if not t.v:
                ok = False
                break
              continue
            if self.nofork:
              tt, pol = self.norm(t)
              r = self.implied(tt)
              if r is None:
                self.loops = self.loops + (T('if', tt, pol),)
                continue
              if r != pol:
                ok = False
                break
            elif not self.truth(cv, c):
              ok = False
              break
          if ok:
            yield from rec(i + 1)
        finally:
          self.loops = saved
          if l:
            self.nofork -= 1
    yield from rec(0)
    return o

  def ev_ListComp(self, n, env):
    def add(o, e):
      v = yield from self.ev(n.elt, e)
      o.items.append(('v', v, self.rel_loops(o)))
    return (yield from self.comp(n, env, 'list', add))

  def ev_SetComp(self, n, env):
    def add(o, e):
      v = yield from self.ev(n.elt, e)
      o.items.append(('v', v, self.rel_loops(o)))
    return (yield from self.comp(n, env, 'set', add))

  def ev_GeneratorExp(self, n, env):
    def add(o, e):
      v = yield from self.ev(n.elt, e)
      o.items.append(('v', v, self.rel_loops(o)))
    return (yield from self.comp(n, env, 'iter', add))

  def ev_DictComp(self, n, env):
    def add(o, e):
      k = yield from self.ev(n.key, e)
      v = yield from self.ev(n.value, e)
      rl = self.rel_loops(o)
      o.items = [x for x in o.items
                 if not (x[0] == 'kv' and x[1] == k and x[3] == rl)]
      o.items.append(('kv', k, v, rl))
    return (yield from self.comp(n, env, 'dict', add))

  def ev_Yield(self, n, env):
    v = NONE
    if n.value is not None:
      v = yield from self.ev(n.value, env)
    saved_stack = self.stack
    r = yield v
    return r if r is not None else NONE

  def ev_YieldFrom(self, n, env):
    v = yield from self.ev(n.value, env)
    for x, l in self.iter_list(v, n):
      yield x
    return NONE

  def ev_Await(self, n, env):
    raise Undecided('await')
    yield

  # ------------------------------------------------------------- statements
  def ex_block(self, stmts, env):
    for s in stmts:
      yield from self.ex(s, env)

  def late(self, slack=0):
    """Whether the scenario used up its processor time, or the run its time."""
    return self.deadline is not None and (
        time.process_time() > self.deadline[0] + slack or
        self.deadline[1] is not None and time.time() > self.deadline[1] + slack)

  def ex(self, s, env):
    self.natoms += 1
    if not self.natoms & 255 and self.late(5):
      raise Undecided('time budget')
    t = type(s).__name__
    m = getattr(self, 'ex_' + t, None)
    if m is None:
      raise Undecided(f'statement {t}')
    return (yield from m(s, env))

  def ex_Expr(self, s, env):
    if isinstance(s.value, ast.Constant):
      return
    yield from self.ev(s.value, env)

  def ex_Pass(self, s, env):
    return
    yield

  def ex_Assign(self, s, env):
    v = yield from self.ev(s.value, env)
    for t in s.targets:
      yield from self.store(t, v, env)

  def ex_AnnAssign(self, s, env):
    if s.value is not None:
      v = yield from self.ev(s.value, env)
      yield from self.store(s.target, v, env)
    elif env.kind == 'class' and isinstance(s.target, ast.Name):
      env.vars.setdefault('__sa_fields__', []).append(s.target.id)

  def ex_AugAssign(self, s, env):
    t = s.target
    op = type(s.op).__name__
    if isinstance(t, ast.Name):
      cur = self.lookup(t.id, env, t)
      if t.id not in env.vars and t.id not in env.globals_ and \
          t.id not in env.nonlocals and env.kind == 'func':
        self.raise_('UnboundLocalError', s, K(t.id))
      v = yield from self.ev(s.value, env)
      self.assign(t.id, self.aug(op, cur, v, s), env)
    elif isinstance(t, ast.Attribute):
      o = yield from self.ev(t.value, env)
      cur = self.getattr(o, t.attr, t)
      v = yield from self.ev(s.value, env)
      self.setattr(o, t.attr, self.aug(op, cur, v, s), s)
    elif isinstance(t, ast.Subscript):
      o = yield from self.ev(t.value, env)
      k = yield from self.ev(t.slice, env)
      cur = self.getitem(o, k, t)
      v = yield from self.ev(s.value, env)
      self.setitem(o, k, self.aug(op, cur, v, s), s)
    else:
      raise Undecided('augmented assignment')

  def aug(self, op, cur, v, node):
    if isinstance(cur, Obj) and cur.kind in ('list', 'deque') and op == 'Add':
      self.models.call_method(self, cur, 'extend', [v], {}, node)
      return cur
    if isinstance(cur, Obj) and cur.kind in ('set',) and op == 'BitOr':
      self.models.call_method(self, cur, 'update', [v], {}, node)
      return cur
    if isinstance(cur, Obj) and cur.kind in DICT and op == 'BitOr':
      self.models.call_method(self, cur, 'update', [v], {}, node)
      return cur
    if isinstance(cur, T) and op in ('Add', 'BitOr', 'Sub', 'Mult', 'Div'):
      pass
    return self.binop(op, cur, v)

  def store(self, t, v, env):
    if isinstance(t, ast.Name):
      self.assign(t.id, v, env)
    elif isinstance(t, ast.Attribute):
      o = yield from self.ev(t.value, env)
      self.setattr(o, t.attr, v, t)
    elif isinstance(t, ast.Subscript):
      o = yield from self.ev(t.value, env)
      k = yield from self.ev(t.slice, env)
      self.setitem(o, k, v, t)
    elif isinstance(t, (ast.Tuple, ast.List)):
      vs = self.unpack(v, t.elts, t)
      for x, y in zip(t.elts, vs):
        if isinstance(x, ast.Starred):
          x = x.value
        yield from self.store(x, y, env)
    elif isinstance(t, ast.Starred):
      yield from self.store(t.value, v, env)
    else:
      raise Undecided('assignment target')

  def bind_target(self, t, v, env):
    self.drive(self.store(t, v, env))

  def unpack(self, v, elts, node):
    n = len(elts)
    si = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
    items = None
    if isinstance(v, T) and v.op == 'tuple':
      v = v.args[0]
    if isinstance(v, Tup):
      items = list(v.items)
    elif isinstance(v, K) and isinstance(v.v, (tuple, list, str)):
      items = [K(x) for x in v.v]
    elif isinstance(v, Obj):
      if isinstance(v.cls, Cls) and v.cls.nt_fields is not None:
        items = [v.attrs[f] for f in v.cls.nt_fields]
      elif v.kind in SEQ and self.plain(v):
        items = [e[1] for e in v.items]
      elif v.kind in DICT and self.plain(v):
        items = [e[1] for e in v.items]
      elif v.kind in SEQ:
        v = self.seq_term(v)
      elif isinstance(v.cls, Cls):
        es = self.iter_list(v)
        if all(not l for _, l in es):
          items = [x for x, _ in es]
    elif isinstance(v, Gen):
      items = [x for x, _ in self.iter_list(v)]
    elif v == NONE:
      self.raise_('TypeError', node)
    if items is not None:
      if not si:
        if len(items) != n:
          self.raise_('ValueError', node, K('unpack'))
        return items
      i = si[0]
      after = n - i - 1
      if len(items) < n - 1:
        self.raise_('ValueError', node, K('unpack'))
      mid = items[i:len(items) - after]
      return items[:i] + [self.mklist(mid)] + items[len(items) - after:]
    if isinstance(v, T) and v.op == 'ite' and not si:
      a = self.unpack(v.args[1], elts, node)
      b = self.unpack(v.args[2], elts, node)
      return [x if x == y else T('ite', v.args[0], x, y)
              for x, y in zip(a, b)]
    if si:
      i = si[0]
      after = n - i - 1
      out = [self.getitem(v, K(j), node) for j in range(i)]
      up = None if after == 0 else -after
      mid = self.new('list', [('spread', T('getitem', v, K(slice(i, up, None))),
                               ())])
      out.append(mid)
      out += [self.getitem(v, K(j - after), node) for j in range(after)]
      return out
    return [self.getitem(v, K(j), node) for j in range(n)]

  def ex_Return(self, s, env):
    v = NONE
    if s.value is not None:
      v = yield from self.ev(s.value, env)
    raise _Ret(v)

  def ex_Raise(self, s, env):
    if s.exc is None:
      if self.exc_stack:
        raise AbsRaise(self.exc_stack[-1], s)
      self.raise_('RuntimeError', s)
    v = yield from self.ev(s.exc, env)
    if s.cause is not None:
      yield from self.ev(s.cause, env)
    if isinstance(v, (Cls, Ext)):
      v = self.call(v, [], {}, s)
    raise AbsRaise(v, s)

  def ex_Assert(self, s, env):
    if self.optimized:
      return
    v = yield from self.ev(s.test, env)
    if not self.truth(v, s):
      self.raise_('AssertionError', s)

  def ex_If(self, s, env):
    c = yield from self.ev(s.test, env)
    if self.truth(c, s):
      yield from self.ex_block(s.body, env)
    else:
      yield from self.ex_block(s.orelse, env)

  def carry(self, v, L, name):
    if isinstance(v, Tup):
      return Tup([self.carry(x, L, f'{name}.{i}')
                  for i, x in enumerate(v.items)])
    if isinstance(v, Obj) and isinstance(v.cls, Cls) and \
        v.cls.nt_fields is not None:
      o = self.new(v.cls, None)
      o.attrs = {k: self.carry(x, L, f'{name}.{k}')
                 for k, x in v.attrs.items()}
      return o
    if isinstance(v, (K, T)):
      if v == NONE:
        return T('carry', v, L, name)
      return T('carry', v, L, name)
    if isinstance(v, Obj) and v.items is not None:
      o = self.new(v.cls, [('spread', T('carry', v, L, name), ())])
      o.extra.update({k: x for k, x in v.extra.items() if k != 'loops0'})
      return o
    if isinstance(v, Obj):
      return T('carry', v, L, name)
    return v

  def assigned(self, body):
    names = set()
    for st in body:
      for x in _walk_scope(st):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store,)):
          names.add(x.id)
    return names

  def ex_For(self, s, env):
    it = yield from self.ev(s.iter, env)
    es = self.entries(it, s)
    names = None
    if isinstance(es, Gen):
      g = es
      while True:
        try:
          x = self.gen_resume(g)
        except StopIteration:
          break
        try:
          yield from self.store(s.target, x, env)
          yield from self.ex_block(s.body, env)
        except _Brk:
          return
        except _Cont:
          continue
      yield from self.ex_block(s.orelse, env)
      return
    for x, l in es:
      if l:
        if names is None:
          names = self.assigned(s.body)
          tn = {y.id for y in ast.walk(s.target) if isinstance(y, ast.Name)}
        bound = [m for m in sorted(names - tn) if m in env.vars and not
                 isinstance(env.vars[m], (Fn, Cls, Ext, HostFn, ModV, Partial,
                                          Bound, Obj))
                 or m in env.vars and isinstance(env.vars[m], Obj) and
                 isinstance(env.vars[m].cls, Cls) and
                 env.vars[m].cls.nt_fields is not None]
        outer = [m for m in sorted(names - tn) if m in env.vars]
        has_flow = outer or any(isinstance(y, (ast.Return, ast.Raise))
                                for st in s.body for y in _walk_scope(st))
        if has_flow and not self.nofork:
          nz = l[-1] if isinstance(l[-1], T) and l[-1].op == 'loop' else None
          if nz is not None:
            col = nz.args[1]
            t = self.truth_term(col) if not (
                isinstance(col, T) and col.op in ('range', 'zip', 'enumerate')
            ) else T('truthy', col)
            if isinstance(t, K):
              some = bool(t.v)
            else:
              some = self.decide(t, s)
            if not some:
              continue
        saved = self.loops
        self.loops = self.loops + l
        for m in bound:
          env.vars[m] = self.carry(env.vars[m], l[-1], m)
        try:
          yield from self.store(s.target, x, env)
          yield from self.ex_block(s.body, env)
        except _Brk:
          return
        except _Cont:
          pass
        finally:
          self.loops = saved
        continue
      try:
        yield from self.store(s.target, x, env)
        yield from self.ex_block(s.body, env)
      except _Brk:
        return
      except _Cont:
        continue
    yield from self.ex_block(s.orelse, env)

  def ex_While(self, s, env):
    # bounded concrete unrolling while the condition is decided, then one
    # generic iteration
    for _ in range(24):
      c = yield from self.ev(s.test, env)
      t = self.truth_term(c)
      if not isinstance(t, K):
        tt, pol = self.norm(t)
        r = self.implied(tt)
        if r is not None:
          t = K(r == pol)
      if isinstance(t, K):
        if not t.v:
          yield from self.ex_block(s.orelse, env)
          return
        try:
          yield from self.ex_block(s.body, env)
        except _Brk:
          return
        except _Cont:
          pass
        continue
      if not self.truth(c, s):
        yield from self.ex_block(s.orelse, env)
        return
      L = T('loop', self.uid(), T('while', K(s.lineno)))
      names = self.assigned(s.body)
      saved = self.loops
      self.loops = self.loops + (L,)
      for m in sorted(names):
        if m in env.vars and isinstance(env.vars[m], (K, T, Tup)):
          pass
      try:
        yield from self.ex_block(s.body, env)
      except _Brk:
        return
      except _Cont:
        pass
      finally:
        self.loops = saved
      # after one generic iteration the loop is taken to end
      return
    raise Undecided('while loop bound')

  def ex_Break(self, s, env):
    raise _Brk()
    yield

  def ex_Continue(self, s, env):
    raise _Cont()
    yield

  def ex_With(self, s, env):
    yield from self.with_items(s, list(s.items), env)

  def with_items(self, s, items, env):
    if not items:
      yield from self.ex_block(s.body, env)
      return
    it = items[0]
    cm = yield from self.ev(it.context_expr, env)
    v = self.cm_enter(cm, it.context_expr)
    if it.optional_vars is not None:
      yield from self.store(it.optional_vars, v, env)
    sig = None
    try:
      yield from self.with_items(s, items[1:], env)
    except AbsRaise as e:
      if self.cm_exit(cm, e.exc, it.context_expr):
        return
      raise
    except (_Ret, _Brk, _Cont) as e:
      self.cm_exit(cm, None, it.context_expr)
      raise
    self.cm_exit(cm, None, it.context_expr)

  def cm_enter(self, cm, node=None):
    self.event('cm_enter', node, cm=cm)
    if isinstance(cm, Obj):
      if cm.kind == 'cm':
        g = cm.attrs['gen']
        try:
          return self.gen_resume(g)
        except StopIteration:
          self.raise_('RuntimeError', node, K("generator didn't yield"))
      if cm.kind == 'ExitStack':
        return cm
      if cm.kind == 'extcm':
        return T('attr', cm, '__enter__')
      if isinstance(cm.cls, Cls):
        m, _ = self.clookup(cm.cls, '__enter__')
        if m is not None:
          return self.call(Bound(m, cm), [], {}, node)
    if isinstance(cm, T) or isinstance(cm, Obj):
      return T('entered', cm)
    self.raise_('AttributeError', node, K('__enter__'))

  def cm_exit(self, cm, exc, node=None):
    """Runs the exit of a context manager; True if it swallows `exc`."""
    self.event('cm_exit', node, cm=cm, exc=exc)
    if isinstance(cm, Obj):
      if cm.kind == 'cm':
        g = cm.attrs['gen']
        if exc is None:
          try:
            self.gen_resume(g)
          except StopIteration:
            return False
          self.raise_('RuntimeError', node, K("generator didn't stop"))
        try:
          self.gen_resume(g, exc=AbsRaise(exc, node))
        except StopIteration:
          return True
        except AbsRaise as e:
          if e.exc is exc:
            return False
          raise
        self.raise_('RuntimeError', node, K("generator didn't stop"))
      if cm.kind == 'ExitStack':
        return self.models.exitstack_exit(self, cm, exc, node)
      if cm.kind == 'extcm':
        return False
      if isinstance(cm.cls, Cls):
        m, _ = self.clookup(cm.cls, '__exit__')
        if m is not None:
          if exc is None:
            self.call(Bound(m, cm), [NONE, NONE, NONE], {}, node)
            return False
          r = self.call(Bound(m, cm), [self.exc_class(exc), exc,
                                       T('traceback', exc)], {}, node)
          return self.truth(r, node)
    return False

  def ex_Try(self, s, env):
    names = []
    for h in s.handlers:
      if h.type is None:
        names += ['KeyError', 'LookupError', 'AttributeError']
      else:
        for x in ast.walk(h.type):
          if isinstance(x, ast.Name):
            names.append(x.id)
          elif isinstance(x, ast.Attribute):
            names.append(x.attr)
    pending = None
    try:
      try:
        if s.handlers:
          self.handlers.append(names)
        hl = self.handlers
        try:
          yield from self.ex_block(s.body, env)
        finally:
          if s.handlers:
            # `handlers` is rebound per call frame; pop the one pushed here
            if hl and hl[-1] is names:
              hl.pop()
      except AbsRaise as e:
        handled = False
        for h in s.handlers:
          if h.type is None:
            m = True
          else:
            ht = yield from self.ev(h.type, env)
            m = self.exc_matches(e.exc, ht)
            if m is None:
              m = self.choice(2, 'except') == 0
          if m:
            if h.name:
              env.vars[h.name] = e.exc
            self.exc_stack.append(e.exc)
            try:
              yield from self.ex_block(h.body, env)
            finally:
              self.exc_stack.pop()
            handled = True
            break
        if not handled:
          raise
      else:
        yield from self.ex_block(s.orelse, env)
    except (AbsRaise, _Ret, _Brk, _Cont) as e:
      yield from self.ex_block(s.finalbody, env)
      raise
    except (Undecided, Infeasible, RecursionError, GeneratorExit):
      raise
    yield from self.ex_block(s.finalbody, env)

  def ex_Global(self, s, env):
    env.globals_ = tuple(env.globals_) + tuple(s.names)
    return
    yield

  def ex_Nonlocal(self, s, env):
    env.nonlocals = tuple(env.nonlocals) + tuple(s.names)
    return
    yield

  def ex_Delete(self, s, env):
    for t in s.targets:
      if isinstance(t, ast.Name):
        env.vars.pop(t.id, None)
      elif isinstance(t, ast.Subscript):
        o = yield from self.ev(t.value, env)
        k = yield from self.ev(t.slice, env)
        self.delitem(o, k, t)
      elif isinstance(t, ast.Attribute):
        o = yield from self.ev(t.value, env)
        a = self.clookup(o.cls, t.attr)[0] if isinstance(o, Obj) and \
            isinstance(o.cls, Cls) else None
        if isinstance(a, Prop):
          if a.fdel is None or a.fdel == NONE:
            self.raise_('AttributeError', t, K(t.attr))
          self.call(a.fdel, [o], {}, t)
          continue
        self.event('delattr', t, obj=o, name=t.attr)
        if isinstance(o, Obj):
          o.attrs.pop(t.attr, None)
      elif isinstance(t, (ast.Tuple, ast.List)):
        for x in t.elts:
          if isinstance(x, ast.Name):
            env.vars.pop(x.id, None)

  def ex_Import(self, s, env):
    for a in s.names:
      m = self.module(a.name)
      if m is not None:
        if a.asname:
          self.assign(a.asname, m, env)
        else:
          self.assign(a.name.split('.')[0], self.module(a.name.split('.')[0]),
                      env)
      else:
        if a.asname:
          self.assign(a.asname, Ext(a.name), env)
        else:
          self.assign(a.name.split('.')[0], Ext(a.name.split('.')[0]), env)
    return
    yield

  def ex_ImportFrom(self, s, env):
    base = s.module or ''
    if s.level:
      pk = env.mod.name.split('.')
      if not env.mod.path.endswith('__init__.py'):
        pk = pk[:-1]
      pk = pk[:len(pk) - (s.level - 1)]
      base = '.'.join(pk + ([s.module] if s.module else []))
    for a in s.names:
      sub = self.module(base + '.' + a.name)
      m = self.module(base)
      if m is not None and a.name in m.env.vars:
        v = m.env.vars[a.name]
      elif sub is not None:
        v = sub
      elif m is not None:
        self.raise_('ImportError', s, K(a.name))
      else:
        c = self.models.EXT_CONST.get(base + '.' + a.name)
        v = c if c is not None else Ext(base + '.' + a.name)
      self.assign(a.asname or a.name, v, env)
    return
    yield

  def ex_FunctionDef(self, s, env):
    fn = Fn(s, env, env.mod, self.qual(env) + s.name)
    fn.defaults, fn.kwdefaults = yield from self.ev_defaults(s.args, env)
    fn.isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom))
                   for st in s.body for x in _walk_scope(st))
    if env.kind == 'class':
      fn.cls = env.vars['__sa_cell__']
    else:
      e = env
      while e is not None and e.kind == 'func':
        if e.fn is not None and e.fn.cls is not None:
          break
        e = e.parent
    v = fn
    for d in reversed(s.decorator_list):
      dv = yield from self.ev(d, env)
      v = self.call(dv, [v], {}, d)
    self.assign(s.name, v, env)

  def ex_ClassDef(self, s, env):
    bases = []
    for b in s.bases:
      bases.append((yield from self.ev(b, env)))
    meta = None
    for k in s.keywords:
      if k.arg == 'metaclass':
        meta = yield from self.ev(k.value, env)
    cenv = Env(env, 'class', env.mod, s.name)
    cell = [None]
    cenv.vars['__sa_cell__'] = cell
    yield from self.ex_block(s.body, cenv)
    attrs = {k: v for k, v in cenv.vars.items() if not k.startswith('__sa_')}
    fields = None
    defaults = {}
    nbases = []
    for b in bases:
      if isinstance(b, Ext) and b.name in ('typing.NamedTuple',):
        fields = []
        for st in s.body:
          if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
            fields.append(st.target.id)
            if st.value is not None:
              defaults[st.target.id] = attrs.pop(st.target.id)
        nbases.append(Ext('builtins.tuple'))
      elif isinstance(b, Ext) and b.name in ('typing.Generic',):
        nbases.append(b)
      elif isinstance(b, (Cls, Ext)):
        nbases.append(b)
      else:
        nbases.append(Ext('?' + repr(b)))
    if not nbases:
      nbases = [Ext('builtins.object')]
    for b in nbases:
      if isinstance(b, Ext) and b.name in ('enum.Enum', 'enum.IntEnum',
                                           'enum.Flag'):
        cl = Cls(s.name, nbases, {}, s, env.mod)
        cell[0] = cl
        first = {}
        for k, v in attrs.items():
          if not isinstance(v, (Fn, Prop, StaticM, ClassM)):
            attrs[k] = T('enum', cl, first.setdefault(v, k) if isinstance(
                v, K) else k)
            self.types[attrs[k]] = cl
        cl.attrs = attrs
        for d in s.decorator_list:
          pass
        self.assign(s.name, cl, env)
        return
    m = meta
    if m is None:
      for b in nbases:
        if isinstance(b, Cls):
          m = m or self.meta_of(b)
    cls = None
    if isinstance(m, Cls):
      new, _ = self.clookup(m, '__new__')
      if new is not None:
        f = new.f if isinstance(new, StaticM) else new
        cd = self.mkdict(attrs)
        cd.extra['clsinfo'] = (s, env.mod, meta, cell)
        try:
          cls = self.call(f, [m, K(s.name), Tup(nbases), cd], {}, s)
          if isinstance(cls, Cls):
            raw = self.new('object')
            raw.extra = dict(attrs)
            cls.attrs['__sa_raw__'] = raw
        except (AbsRaise, Undecided) as e:
          self.meta_failed = (s.name, repr(e))
          cls = None
    if not isinstance(cls, Cls):
      cls = Cls(s.name, nbases, attrs, s, env.mod, fields, meta,
                field_defaults=defaults)
      cell[0] = cls
    cls.name = s.name
    v = cls
    for d in reversed(s.decorator_list):
      dv = yield from self.ev(d, env)
      v = self.models.class_decorator(self, dv, v, s)
    self.assign(s.name, v, env)

  ex_AsyncFunctionDef = None


FINAL_EXT = frozenset(['builtins.property', 'builtins.staticmethod',
                       'builtins.classmethod', 'types.FunctionType'])
BOOLOPS = frozenset(['eq', 'ne', 'lt', 'is', 'isnone', 'in', 'isinstance',
                     'truthy', 'not', 'and', 'or', 'hasattr', 'callable',
                     'issubclass', 'boolcall', 'any', 'all', 'startswith'])
RANK_SAME = frozenset(
    ['jax.nn.' + n for n in (
        'relu', 'sigmoid', 'softmax', 'log_softmax', 'swish', 'silu', 'gelu',
        'elu', 'softplus', 'tanh')] +
    ['jax.numpy.' + n for n in (
        'tanh', 'exp', 'sqrt', 'square', 'abs', 'log', 'asarray', 'array',
        'pad', 'ones_like', 'zeros_like', 'sin', 'cos', 'flip', 'sign')] +
    ['jax.lax.' + n for n in (
        'rsqrt', 'convert_element_type', 'conv_general_dilated', 'conv_transpose', 'reduce_window',
        'stop_gradient', 'sqrt', 'square', 'exp')])
NOTNONE = frozenset(['cat', 'len', 'binop', 'fmt', 'str', 'seq', 'tuple',
                     'ndim', 'items', 'keys', 'values', 'range', 'entered',
                     'enum', 'tree_map', 'split', 'repeat'])


def intlike(t):
  return isinstance(t, T) and (t.op in ('len', 'ndim', 'idx') or (
      t.op == 'elem' and isinstance(t.args[0], T) and t.args[0].op == 'range')
                               or (t.op == 'binop' and all(
                                   intlike(a) or isinstance(a, K) and
                                   isinstance(a.v, int)
                                   for a in t.args[1:])))


def _okey(v):
  # constants last, stable textual order otherwise
  return (isinstance(v, (K, Tup)), v.op if isinstance(v, T) else '',
          digest(v))


def _walk_scope(n):
  """ast.walk that does not enter nested functions, classes or lambdas."""
  stack = [n]
  while stack:
    x = stack.pop()
    yield x
    for c in ast.iter_child_nodes(x):
      if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda,
                        ast.ClassDef)):
        if isinstance(c, (ast.FunctionDef, ast.ClassDef)):
          nm = ast.Name(id=c.name, ctx=ast.Store())
          yield nm
        continue
      stack.append(c)
