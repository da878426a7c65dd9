"""Abstract value domain of the analyser.

Values are provenance terms: they say where a value comes from (which input,
which call, which element of which collection), never what it numerically is.
"""

import hashlib

class V:
  """Base class of abstract values."""
  __slots__ = ()


class K(V):
  """A compile-time constant."""
  __slots__ = ('v',)

  def __init__(self, v):
    self.v = v

  def __eq__(self, o):
    return isinstance(o, K) and type(o.v) is type(self.v) and o.v == self.v

  def __hash__(self):
    try:
      return hash(('K', self.v))
    except TypeError:
      return hash(('K', repr(self.v)))

  def __repr__(self):
    return repr(self.v)


NONE = K(None)
TRUE = K(True)
FALSE = K(False)


class T(V):
  """An uninterpreted term `op(args)`; structural equality."""
  __slots__ = ('op', 'args', '_h', '_d')

  def __init__(self, op, *args):
    self.op = op
    self.args = args
    self._d = None
    self._h = hash((op, args))

  def __eq__(self, o):
    if self is o:
      return True
    if not (isinstance(o, T) and self._h == o._h and self.op == o.op):
      return False
    if self.args is o.args:
      return True
    if self.args != o.args:
      return False
    o.args = self.args  # share: equal graphs are compared once
    return True

  def __hash__(self):
    return self._h

  def __repr__(self):
    return text(self)


depth = [0]


def text(v, budget=3000):
  """A rendering of bounded length (terms are DAGs)."""
  out = []
  left = [budget]

  def put(s):
    out.append(s)
    left[0] -= len(s)

  def go(a):
    depth[0] += 1
    try:
      go_(a)
    finally:
      depth[0] -= 1

  def go_(a):
    if depth[0] > 40 and left[0] > 0:
      put('...')
      return
    if left[0] <= 0:
      if out[-1] != '...':
        out.append('...')
      return
    if isinstance(a, T):
      if a.op == 'sym':
        put(f'<{a.args[0]}>')
        return
      put(a.op + '(')
      seq(a.args)
      put(')')
    elif isinstance(a, Tup):
      put('(')
      seq(a.items)
      put(',)')
    elif isinstance(a, tuple):
      put('(')
      seq(a)
      put(')')
    else:
      put(repr(a))

  def seq(xs):
    for i, x in enumerate(xs):
      if i:
        put(', ')
      go(x)
      if left[0] <= 0:
        return
  go(v)
  return ''.join(out)


def digest(v):
  """A stable key of a value (the same in every run)."""
  if isinstance(v, (T, Tup)):
    if v._d is None:
      xs = v.args if isinstance(v, T) else v.items
      head = v.op if isinstance(v, T) else '()'
      v._d = hashlib.blake2b('|'.join(
          [head] + [digest(x) for x in xs]).encode(), digest_size=12
                             ).hexdigest()
    return v._d
  if isinstance(v, tuple):
    return '(' + ','.join(digest(x) for x in v) + ')'
  if isinstance(v, Obj):
    return f'obj#{v.uid}'
  return repr(v)


class Tup(V):
  """An immutable tuple of known length."""
  __slots__ = ('items', '_h', '_d')

  def __init__(self, items):
    self._d = None
    self.items = tuple(items)
    self._h = hash(('Tup', self.items))

  def __eq__(self, o):
    return isinstance(o, Tup) and self.items == o.items

  def __hash__(self):
    return self._h

  def __repr__(self):
    return text(self)


class Ext(V):
  """A name that lives outside the analysed package."""
  __slots__ = ('name',)

  def __init__(self, name):
    self.name = name

  def __eq__(self, o):
    return isinstance(o, Ext) and o.name == self.name

  def __hash__(self):
    return hash(('Ext', self.name))

  def __repr__(self):
    return f'@{self.name}'


class Fn(V):
  """A function (closure) of the analysed package."""
  __slots__ = ('node', 'env', 'mod', 'qual', 'cls', 'attrs', 'cm', 'defaults',
               'kwdefaults', 'isgen', 'wrapped')

  def __init__(self, node, env, mod, qual, cls=None):
    self.node = node
    self.env = env
    self.mod = mod
    self.qual = qual
    self.cls = cls
    self.attrs = {}
    self.cm = False
    self.defaults = ()
    self.kwdefaults = {}
    self.isgen = False
    self.wrapped = None

  def __repr__(self):
    return f'fn:{self.qual}'


class HostFn(V):
  """A callable whose effect is given by the rule (the most general client)."""
  __slots__ = ('f', 'name', 'attrs')

  def __init__(self, f, name='host'):
    self.f = f
    self.name = name
    self.attrs = {}

  def __repr__(self):
    return f'host:{self.name}'


class Partial(V):
  __slots__ = ('f', 'args', 'kwargs')

  def __init__(self, f, args, kwargs):
    self.f = f
    self.args = args
    self.kwargs = kwargs

  def __repr__(self):
    return f'partial({self.f!r},{self.args!r})'


class Bound(V):
  __slots__ = ('f', 'self_')

  def __init__(self, f, self_):
    self.f = f
    self.self_ = self_

  def __eq__(self, o):
    return isinstance(o, Bound) and o.f is self.f and o.self_ == self.self_

  def __hash__(self):
    return hash((id(self.f), self.self_))

  def __repr__(self):
    return f'{self.self_!r}.{self.f!r}'


class BoundM(V):
  """A bound builtin method `obj.name` not yet called."""
  __slots__ = ('obj', 'name')

  def __init__(self, obj, name):
    self.obj = obj
    self.name = name

  def __eq__(self, o):
    return isinstance(o, BoundM) and o.name == self.name and o.obj == self.obj

  def __hash__(self):
    return hash((self.name, self.obj))

  def __repr__(self):
    return f'{self.obj!r}.{self.name}'


class Cls(V):
  """A class of the analysed package (or a namedtuple made by it)."""
  __slots__ = ('name', 'bases', 'attrs', 'node', 'mod', 'fields', 'meta',
               '_mro', 'field_defaults')

  def __init__(self, name, bases, attrs, node=None, mod=None, fields=None,
               meta=None, field_defaults=None):
    self.name = name
    self.bases = bases
    self.attrs = attrs
    self.node = node
    self.mod = mod
    self.fields = fields
    self.meta = meta
    self.field_defaults = field_defaults or {}
    self._mro = None

  def mro(self):
    if self._mro is None:
      seqs = [b.mro() if isinstance(b, Cls) else [b] for b in self.bases]
      seqs = [list(s) for s in seqs] + [list(self.bases)]
      out = [self]
      while any(seqs):
        seqs = [s for s in seqs if s]
        for s in seqs:
          c = s[0]
          if not any(c in t[1:] for t in seqs):
            break
        else:
          c = seqs[0][0]
        out.append(c)
        for s in seqs:
          if s and s[0] == c:
            s.pop(0)
      self._mro = out
    return self._mro

  def lookup(self, name, after=None):
    skip = after is not None
    for c in self.mro():
      if skip:
        if c is after:
          skip = False
        continue
      if isinstance(c, Cls) and name in c.attrs:
        return c.attrs[name], c
    return None, None

  @property
  def nt_fields(self):
    for c in self.mro():
      if isinstance(c, Cls) and c.fields is not None:
        return c.fields
    return None

  def __repr__(self):
    return f'class:{self.name}'


class Prop(V):
  __slots__ = ('fget', 'fset', 'fdel')

  def __init__(self, fget, fset=None, fdel=None):
    self.fget, self.fset, self.fdel = fget, fset, fdel


class StaticM(V):
  __slots__ = ('f',)

  def __init__(self, f):
    self.f = f


class ClassM(V):
  __slots__ = ('f',)

  def __init__(self, f):
    self.f = f


class ModV(V):
  """A module of the analysed package."""
  __slots__ = ('name', 'env', 'path', 'tree', 'loaded')

  def __init__(self, name, path, tree):
    self.name = name
    self.path = path
    self.tree = tree
    self.env = None
    self.loaded = False

  def __repr__(self):
    return f'module:{self.name}'


class Obj(V):
  """A heap object with identity.

  `cls` is a Cls or the string name of a builtin kind ('list', 'dict', ...).
  Sequence content: `items`, a list of entries
      ('v', value, loops) | ('spread', term, loops)
  Mapping content: `items`, a list of entries
      ('kv', key, value, loops) | ('spread', term, loops)
  where a non-empty `loops` marks a generic entry, one per iteration.
  """
  __slots__ = ('cls', 'attrs', 'items', 'uid', 'extra', 'ver', 'label', 'alloc')

  def __init__(self, cls, uid, items=None, extra=None, label=None, alloc=None):
    self.cls = cls
    self.attrs = {}
    self.items = items
    self.uid = uid
    self.extra = extra if extra is not None else {}
    self.ver = 0
    self.label = label
    self.alloc = alloc

  @property
  def kind(self):
    return self.cls if isinstance(self.cls, str) else None

  def __repr__(self):
    n = self.cls if isinstance(self.cls, str) else self.cls.name
    if n in ('list', 'set', 'deque', 'dict', 'defaultdict', 'Counter',
             'frozenset', 'iter') and len(self.items) < 6:
      return f'{n}#{self.uid}[' + ', '.join(
          (repr(e[1]) if e[0] == 'v' else f'*{e[1]!r}' if e[0] == 'spread'
           else f'{e[1]!r}: {e[2]!r}') for e in self.items) + ']'
    if isinstance(self.cls, Cls) and self.cls.nt_fields:
      return n + '(' + ', '.join(
          f'{k}={self.attrs.get(k)!r}' for k in self.cls.nt_fields) + ')'
    return f'{n}#{self.uid}'


class Gen(V):
  """A suspended generator of the analysed package."""
  __slots__ = ('host', 'done', 'started', 'fn')

  def __init__(self, host, fn):
    self.host = host
    self.done = False
    self.started = False
    self.fn = fn

  def __repr__(self):
    return f'gen:{self.fn!r}'


def walk(v, seen=None):
  """Yields every value reachable inside a value (terms and heap objects)."""
  if seen is None:
    seen = set()
  stack = [v]
  while stack:
    x = stack.pop()
    if isinstance(x, (tuple, list)):
      stack.extend(x)
      continue
    if not isinstance(x, V):
      continue
    if isinstance(x, (T, Tup, Obj, Fn, Cls, HostFn, ModV)):
      if id(x) in seen:
        continue
      seen.add(id(x))
    yield x
    if isinstance(x, T):
      stack.extend(x.args)
    elif isinstance(x, Tup):
      stack.extend(x.items)
    elif isinstance(x, Obj):
      stack.extend(x.attrs.values())
      for e in x.items or ():
        stack.extend(e[1:3])
    elif isinstance(x, (Bound,)):
      stack.append(x.self_)
    elif isinstance(x, BoundM):
      stack.append(x.obj)
    elif isinstance(x, Partial):
      stack.extend((x.f, *x.args, *x.kwargs.values()))


def mentions(v, needle):
  if callable(needle) and not isinstance(needle, V):
    return any(needle(x) for x in walk(v))
  return any(x is needle or x == needle for x in walk(v))


def subst(v, mp, memo=None):
  """Substitutes terms; heap objects that mention them are copied."""
  if memo is None:
    memo = {}
  if isinstance(v, T):
    if v in mp:
      return mp[v]
    na = tuple(_sub_arg(a, mp, memo) for a in v.args)
    if all(x is y for x, y in zip(na, v.args)):
      return v
    return T(v.op, *na)
  if isinstance(v, Tup):
    ni = tuple(subst(a, mp, memo) for a in v.items)
    if all(x is y for x, y in zip(ni, v.items)):
      return v
    return Tup(ni)
  if isinstance(v, Obj):
    if id(v) in memo:
      return memo[id(v)]
    if not any(mentions(v, k) for k in mp):
      return v
    o = Obj(v.cls, v.uid, None, dict(v.extra), v.label)
    memo[id(v)] = o
    o.attrs = {k: subst(x, mp, memo) for k, x in v.attrs.items()}
    if v.items is not None:
      o.items = [_sub_arg(e, mp, memo) for e in v.items]
    return o
  return v


def _sub_arg(a, mp, memo):
  if isinstance(a, V):
    return subst(a, mp, memo)
  if isinstance(a, tuple):
    n = tuple(_sub_arg(x, mp, memo) for x in a)
    if all(x is y for x, y in zip(n, a)):
      return a
    return n
  return a
