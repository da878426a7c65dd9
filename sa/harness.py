"""Shared machinery of the rules: sessions, clients, verdicts, evidence."""

import collections
import hashlib
import json
import os
import sys
import time
import traceback

import sys
sys.setrecursionlimit(60000)
from .vals import *
from .interp import (Interp, Project, AbsRaise, Undecided, Infeasible, fmt_loc)

ROOT = os.environ.get('VERIF_REPO', '/repo')
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PACKAGES = ('haiku', 'haiku.experimental', 'haiku.data_structures',
            'haiku.nets', 'haiku.initializers', 'haiku.pad', 'haiku.testing')


DEADLINE = [None]
SCENARIO_SECONDS = 90


class Anchor(Exception):
  """A public entry point the rule starts from is gone."""


def S(n):
  return T('sym', n)


_SESSIONS = {}


def session(optimized=False, raw=False, key=None):
  k = (optimized, raw, key)
  if k not in _SESSIONS:
    I = Interp(Project(ROOT), optimized=optimized, raw=raw)
    I.project.clients['sa_client'] = os.path.join(HERE, 'sa', 'client.py')
    I.load(*PACKAGES, 'sa_client')
    stub_cosmetic(I)
    _SESSIONS[k] = I
  return _SESSIONS[k]


COSMETIC = (('haiku._src.utils', 'auto_repr'),)


def stub_cosmetic(I):
  """Helpers that only build display strings are not looked into."""
  for mod, fn in COSMETIC:
    m = I.module(mod)
    f = m.env.vars.get(fn) if m is not None else None
    if isinstance(f, Fn):
      I.stubs[id(f.node)] = lambda I, fn, args, kw, node: T('reprof', args[0])


# ------------------------------------------------------------ client values
def level(I, t):
  """Nesting depth of a client mapping value; 0 = array leaf; None = unknown."""
  if isinstance(t, T):
    if t in I.levels:
      return I.levels[t]
    if t.op == 'sym':
      return None
    if t.op in ('ret', 'call', 'binop', 'hofret', 'sym2', 'mod'):
      return 0
    if t.op == 'getitem':
      l = level(I, t.args[0])
      if l is None:
        return None
      return max(l - 1, 0)
    if t.op == 'elem':
      l = level(I, t.args[0])
      return 0 if l == 0 else None
    if t.op in ('treecopy', 'carry') and isinstance(t.args[0], V):
      return level(I, t.args[0])
  return None


def strip_copy(v):
  while isinstance(v, T) and v.op == 'treecopy' and isinstance(v.args[0], V):
    v = v.args[0]
  return v


ARRAYISH = ('shape', 'dtype', 'ndim', 'size')


def client_pins(kind='dict', keys=True):
  """Facts about well-typed client values (arrays, PRNG keys, mappings)."""

  def pin(I, t):
    op = t.op
    if op == 'isnone':
      x = t.args[0]
      if isinstance(x, T) and x.op == 'sym':
        return None if x in I.optional else False
      return False if level(I, x) is not None else None
    if op == 'isinstance':
      x, c = t.args[0], t.args[1]
      l = level(I, x)
      if l is None:
        return None
      n = c.name if isinstance(c, Ext) else c.name if isinstance(c, Cls) else ''
      n = n.rsplit('.', 1)[-1]
      if l == 0:
        if n in ('tuple', 'int', 'list', 'dict', 'str', 'Mapping', 'FlatMapping',
                 'PRNGSequence', 'float', 'bool', 'Sequence', 'Iterable',
                 'StatePair', 'property', 'MutableMapping', 'Module',
                 'FlatComponents', 'type', 'Transformed',
                 'TransformedWithState'):
          return False
        return None
      if n == 'Mapping':
        return True
      if n == 'FlatMapping':
        return kind == 'flat'
      if n in ('dict', 'MutableMapping'):
        return kind == 'dict'
      if n in ('tuple', 'int', 'list', 'str'):
        return False
      return None
    if op == 'is':
      x, y = (strip_copy(a) for a in t.args)
      if x != y and all(isinstance(z, T) and (
          z.op in ('sym', 'ret', 'carry') or z.op == 'getitem' and isinstance(
              z.args[0], T) and z.args[0].op == 'call' and
          z.args[0].args[0] == Ext('jax.random.split')) and
                        level(I, z) == 0 for z in (x, y)):
        return False  # distinct client arrays are distinct objects
      for a, b in (t.args, t.args[::-1]):
        if isinstance(a, T) and a.op == 'typeof':
          l = level(I, a.args[0])
          if l is None:
            return None
          n = getattr(b, 'name', '').rsplit('.', 1)[-1]
          if not isinstance(b, (Ext, Cls)):
            return None
          if l == 0:
            return False
          if n == 'FlatMapping':
            return kind == 'flat'
          if n == 'dict':
            return kind == 'dict'
          return False
      return None
    if op == 'truthy' and t.args[0] in I.dims:
      return True
    if op == 'isinstance' and t.args[0] in I.dims:
      return getattr(t.args[1], 'name', '').endswith('int')
    if op == 'lt' and any(a in I.dims for a in t.args) and any(
        isinstance(a, K) for a in t.args):
      a, b = t.args
      if isinstance(b, K) and isinstance(b.v, (int, float)) and b.v <= 1:
        return False
      if isinstance(a, K) and isinstance(a.v, (int, float)) and a.v < 1:
        return True
    if op == 'eq' and any(a in I.dims for a in t.args) and any(
        isinstance(a, K) and (not isinstance(a.v, int) or a.v <= 0)
        for a in t.args):
      return False
    if op == 'hasattr':
      l = level(I, t.args[0])
      if l == 0 and t.args[1] in (K('shape'), K('dtype'), 'shape', 'dtype'):
        return True
      return None
    if op == 'eq' and keys:
      for a, b in (t.args, t.args[::-1]):
        if isinstance(a, T) and a.op == 'attr' and iskey(I, a.args[0]):
          if a.args[1] == K('shape') or a.args[1] == 'shape':
            if b == Tup([K(2)]):
              return True
        if I.shapes_ok and isinstance(a, T) and a.op == 'attr' and \
            a.args[1] in ('shape', K('shape')) and isinstance(b, T) and \
            b.op in ('tuple', 'sym') and (b in I.shapes_ok or (
                b.args[0] in I.shapes_ok)):
          return True
        if isinstance(a, T) and a.op == 'attr' and iskey(I, a.args[0]):
          if (a.args[1] == K('dtype') or a.args[1] == 'dtype') and isinstance(
              b, Ext):
            return b.name.endswith('uint32')
      return None
    return None
  return pin


def iskey(I, t):
  """PRNG key provenance: the client's rng or anything split from it."""
  if isinstance(t, T):
    if t in I.keysyms:
      return True
    if t.op in ('getitem', 'elem'):
      return iskey(I, t.args[0])
    if t.op == 'call' and isinstance(t.args[0], Ext) and \
        t.args[0].name.startswith('jax.random.'):
      return t.args[0].name.rsplit('.', 1)[-1] in ('split', 'PRNGKey',
                                                   'fold_in')
    if t.op in ('carry', 'treecopy') and isinstance(t.args[0], V):
      return iskey(I, t.args[0])
  return False


def setup(I, kind='dict', arrays=(), maps=(), keys=('rng',), optional=(),
          shapes_ok=()):
  """Declares client symbols: arrays (leaves), two-level maps, PRNG keys."""
  for a in arrays:
    I.levels[S(a)] = 0
  for m in maps:
    I.levels[S(m)] = 2
  I.keysyms = set()
  for k in keys:
    I.levels[S(k)] = 0
    I.keysyms.add(S(k))
  I.arr = None
  I.optional = {S(o) for o in optional}
  I.shapes_ok = {S('pshape')} | {S(o) for o in shapes_ok}
  I.pins = [client_pins(kind)]


# ------------------------------------------------------------------ outcomes
class Out:
  """Outcome of a call: kind 'ret' (v) or 'raise' (v = exception object)."""

  def __init__(self, kind, v, node=None):
    self.kind = kind
    self.v = v
    self.node = node

  @property
  def ok(self):
    return self.kind == 'ret'

  def raises(self, I, *names):
    if self.kind != 'raise':
      return False
    c = I.exc_class(self.v)
    return any(I.is_sub(c, Ext('builtins.' + n)) for n in names)

  def exc_name(self, I):
    if self.kind != 'raise':
      return None
    c = I.exc_class(self.v)
    return getattr(c, 'name', repr(c)).rsplit('.', 1)[-1]

  def user(self):
    return self.kind == 'raise' and bool(self.v.extra.get('user'))

  def __repr__(self):
    if self.ok:
      return f'returns {self.v!r}'
    return f'raises {getattr(self.v.attrs.get("__class__"), "name", self.v)}'


def attempt(I, f, args=(), kwargs=None):
  try:
    return Out('ret', I.call(f, list(args), dict(kwargs or {})))
  except AbsRaise as e:
    return Out('raise', e.exc, e.node)


def pub(I, name):
  if not name.startswith('haiku'):
    name = 'haiku.' + name
  try:
    v = I.pub(name)
  except (Undecided, AbsRaise) as e:
    raise Anchor(f'public name {name} not found: {e}')
  if v is None:
    raise Anchor(f'public name {name} not found')
  return v


def hk(I, api, /, *args, **kwargs):
  return I.call(pub(I, api), list(args), kwargs)


def transformed(I, body, which='transform_with_state', name='body'):
  return hk(I, which, HostFn(body, name))


# ------------------------------------------------------------------- verdicts
class Report:
  """Collects the verdicts of one property's rules."""

  def __init__(self, pid, tier='quick'):
    self.pid = pid
    self.tier = tier
    self.viol = collections.OrderedDict()
    self.undec = collections.OrderedDict()
    self.nob = collections.Counter()
    self.nok = collections.Counter()
    self.scen = collections.OrderedDict()
    self.sessions = set()
    self.samples = []
    self.minimum = {}
    self.events = 0

  # obligations
  def need(self, ok, rule, construct, msg, loc=None, detail=None):
    """One obligation: ok is True, False (definite violation) or None."""
    self.nob[rule] += 1
    if ok is True or (ok is not None and ok):
      self.nok[rule] += 1
      return True
    if ok is None or 'rec(' in msg:  # a recursion was cut off
      self.undec.setdefault((rule, construct), (msg, loc))
      return None
    key = (rule, construct)
    if key not in self.viol:
      self.viol[key] = dict(rule=rule, construct=construct, message=msg,
                            where=fmt(loc), detail=detail or [])
    return False

  def vacuous(self):
    return [k for k, v in self.scen.items() if not v['obligations']]

  def explore(self, name, scenario, optimized=False, raw=False, key=None,
              max_paths=None, I=None):
    I = I or session(optimized, raw, key)
    self.sessions.add(id(I))
    before = I.npaths
    ob = sum(self.nob.values())
    t = time.time()

    if DEADLINE[0] and t > DEADLINE[0]:
      self.undec.setdefault(('scenario', name), ('time budget', None))
      return []
    I.deadline = (time.process_time() + SCENARIO_SECONDS,
                  DEADLINE[0] and DEADLINE[0] + 60)

    def run(I):
      try:
        r = scenario(I)
        self.events += len(I.trace)
        return r
      except (Infeasible, Anchor):
        raise
      except Undecided as e:
        self.undec.setdefault(('scenario', name), (str(e), I.loc()))
        return None
      except AbsRaise as e:
        self.undec.setdefault(('scenario', name), (
            'the analysed program raises ' + Out('raise', e.exc).exc_name(I),
            I.loc()))
        return None
      except RecursionError:
        raise
      except Exception:  # pylint: disable=broad-except
        self.undec.setdefault(('scenario', name), (
            'analysis error: ' + traceback.format_exc()[-1500:], None))
        return None
    try:
      out = I.explore(run, max_paths)
    except Undecided as e:
      self.undec.setdefault(('scenario', name), (str(e), None))
      out = []
    finally:
      I.deadline = None
    self.scen[name] = dict(partitions=I.npaths - before,
                           obligations=sum(self.nob.values()) - ob,
                           seconds=round(time.time() - t, 3))
    if I.npaths == before:
      self.undec.setdefault(('scenario', name), ('no partition ran', None))
    return out


def fmt(loc):
  if loc is None:
    return '?'
  if isinstance(loc, str):
    return loc
  try:
    return fmt_loc(loc)
  except Exception:  # pylint: disable=broad-except
    return repr(loc)


def guards_text(I, n=12):
  return [f'{"" if b else "not "}{g!r}'[:200] for g, b, _ in I.guards[-n:]]


def using(I, cm, body):
  """`with cm: body()` on behalf of the client."""
  v = I.cm_enter(cm)
  try:
    r = body(v)
  except AbsRaise as e:
    if I.cm_exit(cm, e.exc):
      return NONE
    raise
  I.cm_exit(cm, None)
  return r


def heap(I):
  """Shallow copy of every object that outlives a call (module-level heap)."""
  out = {}
  for x, what, _ in I.snap:
    if what == 'vars':
      out[id(x)] = (x, what, dict(x.vars))
    elif what == 'attrs':
      out[id(x)] = (x, what, dict(x.attrs))
    else:
      out[id(x)] = (x, what, (dict(x.attrs), None if x.items is None
                              else list(x.items)))
  return out


def heap_diff(I, before):
  """Objects of the module-level heap that differ from `before`."""
  out = []
  for x, what, old in before.values():
    if what == 'vars':
      new = x.vars
      for k in set(new) | set(old):
        if k not in new or k not in old or not same(new[k], old[k]):
          out.append((x, k))
    elif what == 'attrs':
      new = x.attrs
      for k in set(new) | set(old):
        if k not in new or k not in old or not same(new[k], old[k]):
          out.append((x, k))
    else:
      a, it = old
      for k in set(x.attrs) | set(a):
        if k not in x.attrs or k not in a or not same(x.attrs[k], a[k]):
          out.append((x, k))
      if not same_items(x.items, it):
        out.append((x, '[contents]'))
  return out


def same(a, b):
  if a is b:
    return True
  if isinstance(a, Obj) and isinstance(b, Obj) and a.items is not None and \
      b.items is not None and a.cls == b.cls:
    # a freshly built container with the same content is no observable change
    return same_items(a.items, b.items) and a.attrs == b.attrs
  if not isinstance(a, V) or not isinstance(b, V):
    return a == b
  return a == b


def same_items(a, b):
  if a is None or b is None:
    return a is b
  return len(a) == len(b) and all(
      x[0] == y[0] and len(x) == len(y) and all(
          (same(p, q) if isinstance(p, V) else p == q)
          for p, q in zip(x[1:], y[1:])) for x, y in zip(a, b))


def name_of(I, x):
  """A readable name for a module-level object."""
  for e in I.persist:
    for k, v in e.vars.items():
      if v is x:
        return f'{e.vars["__name__"].v}.{k}'
  for e in I.persist:
    for k, v in e.vars.items():
      if isinstance(v, Obj) and any(y is x for y in v.attrs.values()):
        return f'{e.vars["__name__"].v}.{k}'
      if isinstance(v, Cls) and v.attrs.get(k) is x:
        return f'{e.vars["__name__"].v}.{k}'
  if x in I.persist:
    return f'globals of {x.vars["__name__"].v}'
  return repr(x)[:60]


def const_str(v):
  return v.v if isinstance(v, K) and isinstance(v.v, str) else None


def probe(I, tag='p'):
  """Observes the ambient context the way client code can.

  Returns the name under which a parameter is looked up, the random key that
  the next request yields, and (by the trace) which client creators, getters
  and interceptors run.
  """
  n0 = len(I.trace)
  seen = {}

  def getter(I, args, kwargs):
    nxt, val, ctx = args[:3]
    seen['name'] = I.getattr(ctx, 'full_name')
    seen['module'] = I.getattr(ctx, 'module')
    return I.call(nxt, [val], {})
  def go(_):
    return hk(I, 'get_parameter', K('probe_' + tag), S('pshape'), S('pdtype'),
              init=S('pinit'))
  r = attempt(I, HostFn(lambda I, a, k: using(
      I, hk(I, 'experimental.custom_getter', HostFn(getter, 'probe_getter')),
      go)))
  seen['param'] = r
  k = attempt(I, pub(I, 'maybe_next_rng_key'))
  seen['rng'] = k.v if k.ok else None
  seen['called'] = [e.f for e in I.trace[n0:] if e.kind == 'usercall']
  seen['host'] = [e.f for e in I.trace[n0:] if e.kind == 'hostcall']
  return seen


def client(I, name):
  """A name of the client program (sa/client.py; analysed, never imported)."""
  return I.getattr(I.module('sa_client'), name)


def show(v, n=160):
  s = repr(v)
  return s if len(s) <= n else s[:n] + '...'
