"""Summaries of builtins and of the external names the package calls.

Everything not listed is an uninterpreted pure function of its arguments.
Externals that call back into the package (jax.jit, jax.lax.scan, ...) are
summarised by the way they call their function argument and what they return.
"""

import ast
import operator
import re

from .vals import (digest, K, T, Tup, Ext, Fn, HostFn, Partial, Bound, BoundM, Cls,
                   Prop, StaticM, ClassM, ModV, Obj, Gen, V, NONE, TRUE, FALSE)
from . import interp as I_

BUILTINS = frozenset([
    'len', 'isinstance', 'getattr', 'setattr', 'hasattr', 'tuple', 'list',
    'dict', 'set', 'frozenset', 'type', 'super', 'range', 'enumerate', 'zip',
    'map', 'filter', 'sorted', 'reversed', 'iter', 'next', 'max', 'min', 'sum',
    'any', 'all', 'id', 'repr', 'str', 'int', 'float', 'bool', 'callable',
    'property', 'staticmethod', 'classmethod', 'object', 'print', 'abs',
    'issubclass', 'slice', 'vars', 'hash', 'round', 'divmod', 'pow', 'ord',
    'chr', 'delattr', '__import__', 'globals', 'locals', 'open', 'format',
    'complex', 'bytes'])

KIND_EXT = {
    'list': 'builtins.list', 'dict': 'builtins.dict', 'set': 'builtins.set',
    'frozenset': 'builtins.frozenset', 'deque': 'collections.deque',
    'defaultdict': 'collections.defaultdict', 'Counter': 'collections.Counter',
    'OrderedDict': 'collections.OrderedDict', 'iter': 'builtins.iterator',
    'ExitStack': 'contextlib.ExitStack', 'object': 'builtins.object',
    'typesmod': 'types.ModuleType', 'cm': 'contextlib._GeneratorContextManager',
}
CONTAINER_EXT = {
    'builtins.list': 'list', 'builtins.dict': 'dict', 'builtins.set': 'set',
    'collections.deque': 'deque', 'collections.OrderedDict': 'OrderedDict',
    'collections.defaultdict': 'defaultdict',
}
EXT_CONST = {
    'sys.version_info': K((3, 12, 3)),
}

_SUB = {
    'builtins.bool': {'builtins.int'},
    'collections.defaultdict': {'builtins.dict'},
    'collections.OrderedDict': {'builtins.dict'},
    'collections.Counter': {'builtins.dict'},
}
_MAPPING = ('builtins.dict', 'collections.defaultdict', 'collections.Counter',
            'collections.OrderedDict', 'typing.Mapping', 'typing.MutableMapping')
_SEQUENCE = ('builtins.list', 'builtins.tuple', 'builtins.str',
             'collections.deque', 'builtins.range', 'builtins.bytes')
_ITERABLE = _MAPPING + _SEQUENCE + ('builtins.set', 'builtins.frozenset')


def is_mapping_ext(n):
  return n.rsplit('.', 1)[-1] in ('Mapping', 'MutableMapping')


def ext_sub(a, b):
  if a == b:
    return True
  if b in _SUB.get(a, ()):
    return True
  last = b.rsplit('.', 1)[-1]
  if b.split('.')[0] in ('typing', 'collections'):
    if last == 'Mapping':
      if a in _MAPPING or is_mapping_ext(a):
        return True
    elif last == 'MutableMapping':
      if a in _MAPPING:
        return a != 'typing.Mapping'
    elif last == 'Sequence':
      if a in _SEQUENCE:
        return a not in ('collections.deque',)
    elif last == 'Iterable':
      if a in _ITERABLE:
        return True
    elif last == 'Callable':
      if a in ('types.FunctionType', 'functools.partial', 'types.MethodType',
               'builtins.type'):
        return True
    elif last == 'Hashable':
      return None
  if b == 'types.FunctionType':
    return False
  if a.startswith('builtins.') or a.startswith('collections.') or \
      a.startswith('types.') or a.startswith('functools.'):
    return False
  if a == b:
    return True
  if a.startswith('?') or b.startswith('?'):
    return None
  if a in ('typing.Generic', 'builtins.object', 'threading.local', 'abc.ABC',
           'typing.Protocol', 'abc.ABCMeta') and b != 'builtins.type':
    return False
  if is_mapping_ext(a):
    return b in ('typing.Mapping', 'collections.abc.Mapping',
                 'collections.Mapping')
  return None


def fold_binop(op, a, b):
  fs = {'Add': operator.add, 'Sub': operator.sub, 'Mult': operator.mul,
        'Div': operator.truediv, 'FloorDiv': operator.floordiv,
        'Mod': operator.mod, 'Pow': operator.pow, 'BitOr': operator.or_,
        'BitAnd': operator.and_, 'LShift': operator.lshift,
        'BitXor': operator.xor, 'RShift': operator.rshift}
  if op not in fs:
    return None
  if op == 'Pow' and isinstance(b, (int, float)) and abs(b) > 64:
    return None
  try:
    r = fs[op](a, b)
  except Exception:  # not foldable
    return None
  return K(r)


# ---------------------------------------------------------------- externals
EXT = {}


def ext(*names):
  def deco(f):
    for n in names:
      EXT[n] = f
    return f
  return deco


PURE_PREFIX = ('jax.', 'numpy.', 'jnp.', 'math.', 're.', 'string.', 'functools.',
               'operator.', 'itertools.', 'inspect.', 'collections.', 'types.',
               'typing.', 'textwrap.', 'pprint.', 'html.', 'colorsys.')


def call_ext(I, name, args, kwargs, node):
  h = EXT.get(name)
  if h is not None:
    return h(I, args, kwargs, node)
  last = name.rsplit('.', 1)[-1]
  if last in I_.BUILTIN_EXC and name.startswith('builtins.'):
    return I.new_exc(Ext(name), [a for a in args if isinstance(a, V)])
  if name.startswith('builtins.') and name.count('.') == 2:
    # unbound builtin method: dict.update(d, ...)
    k, m = name.split('.')[1:]
    if m == '__new__' and k == 'object':
      c = args[0]
      o = I.new(c, None)
      I.event('new', node, cls=c, obj=o, args=list(args[1:]), kwargs=kwargs)
      return o
    if m == '__init__' and k == 'object':
      return NONE
    if m == '__setattr__' and k == 'object':
      I.setattr(args[0], args[1].v, args[2], node)
      return NONE
    if m == 'fromkeys' and k == 'dict':
      o = I.new('dict', [])
      for x, l in I.iter_list(args[0], node):
        o.items.append(('kv', x, args[1] if len(args) > 1 else NONE, l))
      return o
    if args and isinstance(args[0], V):
      return call_method(I, args[0], m, args[1:], kwargs, node)
  if name == 'builtins.type.__call__' and args:
    return I.type_call(args[0], args[1:], kwargs, node)
  clean = tuple(a if isinstance(a, V) else T('star', a.t) for a in args)
  kw = tuple(sorted((k, v) for k, v in kwargs.items()))
  if name.split('.')[0] in ('random', 'time', 'os', 'uuid', 'secrets') or \
      name.startswith('numpy.random'):
    t = T('call', Ext(name), clean, kw, K(I.uid()))
    I.event('extcall', node, name=name, args=list(args), kwargs=dict(kwargs),
            result=t)
    return t
  # freeze mutable arguments
  clean = tuple(freeze(I, a) for a in clean)
  kw = tuple((k, freeze(I, v)) for k, v in kw)
  t = T('call', Ext(name), clean, kw)
  I.event('extcall', node, name=name, args=list(args), kwargs=dict(kwargs),
          result=t)
  return t


def freeze(I, a):
  if isinstance(a, Obj) and a.kind in ('list', 'deque', 'iter'):
    st = I.seq_term(a)
    if isinstance(st, Tup):
      return Tup([freeze(I, x) for x in st.items])
    return st
  return a


def call_term(I, f, args, kwargs, node):
  if f.op == 'supermeth':
    base, self_, name = f.args
    return super_call(I, base, self_, name, args, kwargs, node)
  if f.op == 'attr':
    return call_method(I, f.args[0], f.args[1], args, kwargs, node)
  if f.op == 'ite' and not I.nofork:
    return I.call(f.args[1] if I.decide(f.args[0], node) else f.args[2],
                  args, kwargs, node)
  if f.op == 'identity_deco':
    return args[0]
  if f.op == 'wraps_deco':
    v = args[0]
    if isinstance(v, Fn):
      v.wrapped = f.args[0]
      try:
        src = f.args[0]
        while isinstance(src, Bound):
          src = src.f
        if isinstance(src, (Fn, HostFn)):
          for k, x in src.attrs.items():
            v.attrs.setdefault(k, x)
      except AttributeError:
        pass
    return v
  return I.user_call(f, args, kwargs, node)


def super_call(I, base, self_, name, args, kwargs, node):
  if name == '__new__' and (base.name.startswith('builtins.type') or
                            base.name == 'abc.ABCMeta' or
                            base.name.startswith('?')):
    # type.__new__(mcs, name, bases, clsdict)
    mcs, nm, bases, cd = args[:4]
    info = cd.extra.get('clsinfo') if isinstance(cd, Obj) else None
    attrs = {}
    for e in cd.items:
      if e[0] == 'kv' and isinstance(e[1], K):
        attrs[e[1].v] = e[2]
    bs = list(bases.items) or [Ext('builtins.object')]
    c = Cls(nm.v, bs, attrs, info[0] if info else None,
            info[1] if info else None, None, mcs)
    if info:
      info[3][0] = c
    return c
  if name == '__call__' and isinstance(self_, Cls):
    return I.type_call(self_, args, kwargs, node)
  if name == '__new__':
    o = I.new(args[0], None)
    I.event('new', node, cls=args[0], obj=o, args=list(args[1:]),
            kwargs=dict(kwargs))
    return o
  if name == '__init__':
    for b in (self_.cls.mro() if isinstance(self_, Obj) and
              isinstance(self_.cls, Cls) else ()):
      if isinstance(b, Ext) and b.name in CONTAINER_EXT:
        self_.extra['baseinit'] = Tup([a for a in args if isinstance(a, V)])
    return NONE
  if name == '__setattr__':
    I.setattr(self_, args[0].v, args[1], node)
    return NONE
  return T('mcall', T('super', base, self_), name,
           tuple(a for a in args if isinstance(a, V)))


# builtins -----------------------------------------------------------------
@ext('builtins.len')
def _len(I, args, kw, node):
  v = args[0]
  if I.arr is not None and isinstance(v, T):
    n = I.arr.length(v)
    if n is not None:
      return K(n)
    r = I.arr.of(v)
    if r is not None and r.shape:
      return I.arr.size_term(r.shape[0])
  if isinstance(v, Tup):
    return K(len(v.items))
  if isinstance(v, K):
    try:
      return K(len(v.v))
    except TypeError:
      I.raise_('TypeError', node)
  if isinstance(v, Obj):
    if v.items is not None:
      I.prune(v)
      if I.plain(v):
        return K(len(v.items))
      st = I.seq_term(v) if v.kind in I_.SEQ else None
      if isinstance(st, T) and st.op != 'seq':
        return T('len', st)
      return T('len', v, v.ver)
    if isinstance(v.cls, Cls):
      if v.cls.nt_fields is not None:
        return K(len(v.cls.nt_fields))
      m, _ = I.clookup(v.cls, '__len__')
      if m is not None:
        return I.call(Bound(m, v), [], {}, node)
      w = I.view_of(v)
      if w is not None:
        return _len(I, [w], {}, node)
  if isinstance(v, T) and v.op in ('tuple', 'items', 'keys', 'values'):
    return _len(I, [v.args[0]], {}, node)
  if isinstance(v, T) and v.op == 'attr' and v.args[1] == 'shape':
    return I.getattr(v.args[0], 'ndim', node)
  if isinstance(v, T) and v.op == 'call' and v.args[0] == Ext(
      'jax.random.split'):
    return v.args[1][1]
  if isinstance(v, T) and v.op == 'getitem' and isinstance(v.args[0], T) and \
      v.args[0].op == 'call' and v.args[0].args[0] == Ext('jax.random.split') \
      and isinstance(v.args[1], K) and isinstance(v.args[1].v, slice) and \
      v.args[1].v.stop is None and v.args[1].v.step is None and isinstance(
          v.args[1].v.start, int) and v.args[1].v.start >= 0:
    return I.binop('Sub', v.args[0].args[1][1], K(v.args[1].v.start))
  return T('len', v)


@ext('builtins.isinstance')
def _isinstance(I, args, kw, node):
  return I.isinstance_(args[0], args[1], node)


@ext('jax.random.split')
def _split(I, args, kw, node):
  key = args[0] if args else kw['key']
  num = args[1] if len(args) > 1 else kw.get('num', K(2))
  t = T('call', Ext('jax.random.split'), (freeze(I, key), num), ())
  I.event('extcall', node, name='jax.random.split', args=[key, num], kwargs={},
          result=t)
  if isinstance(num, K) and isinstance(num.v, int) and 0 <= num.v <= 16:
    return Tup([T('getitem', t, K(i)) for i in range(num.v)])
  return t


@ext('builtins.issubclass')
def _issubclass(I, args, kw, node):
  r = I.is_sub(args[0], args[1]) if isinstance(args[0], (Cls, Ext)) else None
  return K(r) if r is not None else T('issubclass', args[0], args[1])


@ext('builtins.type')
def _type(I, args, kw, node):
  if len(args) == 3:
    nm, bases, cd = args
    attrs = {e[1].v: e[2] for e in cd.items if e[0] == 'kv'}
    return Cls(nm.v, list(bases.items) or [Ext('builtins.object')], attrs)
  t = I.type_of(args[0])
  if isinstance(args[0], Ext) and args[0].name == 'typing.Protocol':
    return Ext('abc.ABCMeta')
  return t if t is not None else T('typeof', args[0])


@ext('builtins.getattr')
def _getattr(I, args, kw, node):
  v, n = args[0], args[1]
  if not isinstance(n, K):
    return T('getattr', v, n)
  d = args[2] if len(args) > 2 else None
  if d is not None and isinstance(v, T) and v.op != 'super':
    if I.nofork:
      return T('attr', v, n.v)
    if not I.decide(T('hasattr', v, n.v), node):
      return d
  if d is not None and plain_builtin(v) and not hasattr(
      BUILTIN[v.kind], n.v):
    return d
  if d is not None:
    try:
      return I.getattr(v, n.v, node, default=d)
    except I_.AbsRaise as e:
      if I.exc_matches(e.exc, Ext('builtins.AttributeError')) is True:
        return d
      raise
  return I.getattr(v, n.v, node)


@ext('builtins.setattr')
def _setattr(I, args, kw, node):
  if isinstance(args[1], K):
    I.setattr(args[0], args[1].v, args[2], node)
  else:
    I.event('setattr', node, obj=args[0], name=args[1], value=args[2], old=None)
  return NONE


@ext('builtins.delattr')
def _delattr(I, args, kw, node):
  I.event('delattr', node, obj=args[0], name=args[1])
  if isinstance(args[0], Obj) and isinstance(args[1], K):
    args[0].attrs.pop(args[1].v, None)
  return NONE


@ext('builtins.hasattr')
def _hasattr(I, args, kw, node):
  v, n = args
  if isinstance(v, (T,)) and v.op != 'super':
    return T('hasattr', v, n.v if isinstance(n, K) else n)
  if isinstance(v, (K, Tup)):
    py = v.v if isinstance(v, K) else ()
    return K(hasattr(py, n.v))
  if plain_builtin(v) and isinstance(n, K):
    return K(hasattr(BUILTIN[v.kind], n.v))
  try:
    I.getattr(v, n.v, node)
    return TRUE
  except I_.AbsRaise:
    return FALSE


BUILTIN = {'list': list, 'dict': dict, 'set': set, 'frozenset': frozenset}


def plain_builtin(v):
  return isinstance(v, Obj) and v.kind in BUILTIN and not isinstance(
      v.cls, Cls) and not v.attrs


@ext('builtins.tuple')
def _tuple(I, args, kw, node):
  if not args:
    return Tup([])
  v = args[0]
  if isinstance(v, Tup):
    return v
  if isinstance(v, K) and isinstance(v.v, (tuple, list, str, range)):
    return Tup([K(x) for x in v.v])
  if isinstance(v, Obj):
    if v.kind in I_.SEQ:
      st = I.seq_term(v)
      return st if isinstance(st, Tup) else T('tuple', st)
    if v.kind in I_.DICT and I.plain(v):
      return Tup([e[1] for e in v.items])
    if isinstance(v.cls, Cls) and v.cls.nt_fields is not None:
      return Tup([v.attrs[f] for f in v.cls.nt_fields])
    if isinstance(v.cls, Cls):
      es = I.iter_list(v, node)
      return I.mk_seq([('v', x, l) for x, l in es])
    return T('tuple', v)
  if isinstance(v, Gen):
    return Tup([x for x, _ in I.iter_list(v, node)])
  if isinstance(v, T):
    if v.op == 'tuple':
      return v
    if v.op in ('zip', 'enumerate', 'items', 'range', 'reversed', 'keys',
                'values', 'sorted'):
      es = I.iter_list(v, node)
      if all(not l for _, l in es):
        return Tup([x for x, _ in es])
      if v.op in ('items', 'zip', 'enumerate', 'values'):
        return T('seq', tuple(('v', x, l) for x, l in es))
    return T('tuple', v)
  return T('tuple', v)


def mklist_from(I, v, kind, node):
  o = I.new(kind, [])
  if isinstance(v, Obj) and v.kind in I_.SEQ:
    o.items = list(v.items)
  elif isinstance(v, Obj) and v.kind in I_.DICT:
    o.items = [('v', e[1], e[3]) if e[0] == 'kv' else e for e in v.items]
  elif isinstance(v, Tup):
    o.items = [('v', x, ()) for x in v.items]
  elif isinstance(v, K) and isinstance(v.v, (tuple, list, str, range, set,
                                             frozenset)):
    o.items = [('v', K(x), ()) for x in v.v]
  elif isinstance(v, Gen):
    o.items = [('v', x, l) for x, l in I.iter_list(v, node)]
  elif isinstance(v, T) and v.op in ('items', 'keys', 'values', 'enumerate',
                                     'zip', 'range', 'reversed', 'sorted',
                                     'seq') and not (
                                         v.op == 'range' and not all(
                                             isinstance(a, K)
                                             for a in v.args)):
    o.items = [('v', x, l) for x, l in I.iter_list(v, node)]
  elif isinstance(v, Obj) and isinstance(v.cls, Cls):
    o.items = [('v', x, l) for x, l in I.iter_list(v, node)]
  elif v == NONE:
    I.raise_('TypeError', node)
  else:
    if isinstance(v, T) and v.op == 'tuple':
      v = v.args[0]
    o.items = [('spread', v, ())]
  return o


@ext('builtins.list')
def _list(I, args, kw, node):
  return I.new('list', []) if not args else mklist_from(I, args[0], 'list',
                                                        node)


@ext('builtins.set')
def _set(I, args, kw, node):
  return I.new('set', []) if not args else mklist_from(I, args[0], 'set', node)


@ext('builtins.frozenset')
def _fset(I, args, kw, node):
  if not args:
    return I.new('frozenset', [])
  return mklist_from(I, args[0], 'frozenset', node)


@ext('collections.deque')
def _deque(I, args, kw, node):
  o = I.new('deque', []) if not args else mklist_from(I, args[0], 'deque', node)
  if len(args) > 1 or 'maxlen' in kw:
    o.extra['maxlen'] = kw.get('maxlen', args[1] if len(args) > 1 else NONE)
  return o


def dict_update(I, o, v, node):
  if isinstance(v, Obj) and v.kind in I_.DICT:
    for e in v.items:
      if e[0] == 'kv':
        o.items = [x for x in o.items
                   if not (x[0] == 'kv' and x[1] == e[1] and x[3] == e[3])]
      o.items.append(e if not I.rel_loops(o) else
                     e[:-1] + (I.rel_loops(o) + e[-1],))
    return
  if isinstance(v, Obj) and v.kind in I_.SEQ or isinstance(v, Gen) or \
      isinstance(v, Tup) or isinstance(v, T) and v.op in (
          'items', 'zip', 'seq', 'enumerate'):
    for x, l in I.iter_list(v, node):
      k, val = I.unpack(x, [ast.Name(), ast.Name()], node)
      o.items = [y for y in o.items
                 if not (y[0] == 'kv' and y[1] == k and y[3] == l)]
      o.items.append(('kv', k, val, I.rel_loops(o) + l))
    return
  if isinstance(v, Obj) and isinstance(v.cls, Cls):
    it = call_method(I, v, 'items', [], {}, node) if I.clookup(
        v.cls, 'items')[0] is None else I.call(I.getattr(v, 'items'), [], {})
    dict_update(I, o, it, node)
    return
  if isinstance(v, K) and isinstance(v.v, dict):
    return
  if v == NONE:
    I.raise_('TypeError', node)
  if isinstance(v, T) and v.op == 'treecopy' and isinstance(v.args[0], Obj):
    pass
  o.items.append(('spread', v, I.rel_loops(o)))


@ext('builtins.dict', 'collections.OrderedDict')
def _dict(I, args, kw, node):
  o = I.new('dict', [])
  if args:
    a = args[0].t if isinstance(args[0], I_.Star) else args[0]
    if isinstance(args[0], I_.Star):
      o.items.append(('spread', T('getitem', a, K(0)), ()))
    else:
      dict_update(I, o, a, node)
  for k, v in kw.items():
    if k == '**':
      dict_update(I, o, v, node)
    else:
      o.items.append(('kv', K(k), v, ()))
  return o


@ext('collections.defaultdict')
def _ddict(I, args, kw, node):
  o = _dict(I, args[1:], kw, node)
  o.cls = 'defaultdict'
  o.extra['factory'] = args[0] if args else NONE
  return o


@ext('collections.Counter')
def _counter(I, args, kw, node):
  o = I.new('Counter', [])
  if args:
    if isinstance(args[0], Obj) and args[0].kind in I_.DICT:
      o.items = list(args[0].items)
    elif args[0] == NONE:
      pass
    else:
      o.items = [('spread', T('counter', args[0]), ())]
  return o


@ext('collections.namedtuple')
def _namedtuple(I, args, kw, node):
  nm = args[0].v
  f = args[1] if len(args) > 1 else kw['field_names']
  if isinstance(f, K):
    fields = f.v.replace(',', ' ').split() if isinstance(f.v, str) else list(
        f.v)
  else:
    fields = [e[1].v for e in f.items] if isinstance(f, Obj) else [
        x.v for x in f.items]
  return Cls(nm, [Ext('builtins.tuple')], {}, None, None, fields)


@ext('typing.NamedTuple')
def _NamedTuple(I, args, kw, node):
  fields = [I.unpack(e[1], [ast.Name(), ast.Name()], node)[0].v
            for e in args[1].items]
  return Cls(args[0].v, [Ext('builtins.tuple')], {}, None, None, fields)


@ext('typing.TypeVar', 'typing.NewType')
def _typevar(I, args, kw, node):
  return T('typevar', args[0])


@ext('types.ModuleType')
def _modtype(I, args, kw, node):
  return I.new('object', None)


@ext('types.SimpleNamespace')
def _simplens(I, args, kw, node):
  o = I.new('object', None)
  o.attrs = dict(kw)
  return o


@ext('builtins.range')
def _range(I, args, kw, node):
  if len(args) == 2 and args[0] == K(0):
    args = args[1:]
  return T('range', *args)


@ext('builtins.enumerate')
def _enum(I, args, kw, node):
  if 'start' in kw:
    args = list(args) + [kw['start']]
  return T('enumerate', *args)


@ext('builtins.zip')
def _zip(I, args, kw, node):
  if any(isinstance(a, I_.Star) for a in args):
    return T('zipstar', *[a.t if isinstance(a, I_.Star) else a for a in args])
  args = [I.mklist([x for x, _ in I.iter_list(a)]) if isinstance(a, Gen) else a
          for a in args]
  return T('zip', *args)


@ext('builtins.map')
def _map(I, args, kw, node):
  f = args[0]
  o = I.new('iter', [])
  src = args[1] if len(args) == 2 else T('zip', *args[1:])
  for x, l in I.iter_list(src, node):
    saved = I.loops
    I.loops = I.loops + l
    try:
      xs = [x] if len(args) == 2 else list(x.items)
      r = I.call(f, xs, {}, node)
    finally:
      I.loops = saved
    o.items.append(('v', r, l))
  return o


@ext('builtins.filter')
def _filter(I, args, kw, node):
  o = I.new('iter', [])
  for x, l in I.iter_list(args[1], node):
    saved = I.loops
    I.loops = I.loops + l
    try:
      r = x if args[0] == NONE else I.call(args[0], [x], {}, node)
      t = I.truth_term(r)
      if l and not isinstance(t, K):
        tt, pol = I.norm(t)
        rr = I.implied(tt)
        if rr is None:
          o.items.append(('v', x, l + (T('if', tt, pol),)))
          continue
        ok = rr == pol
      else:
        ok = I.truth(r, node)
    finally:
      I.loops = saved
    if ok:
      o.items.append(('v', x, l))
  return o


@ext('builtins.sorted')
def _sorted(I, args, kw, node):
  v = args[0]
  if isinstance(v, Tup) and all(isinstance(x, K) for x in v.items) or \
      isinstance(v, Obj) and v.items is not None and I.plain(v) and all(
          isinstance(e[1], K) for e in v.items):
    xs = [x.v for x, _ in I.iter_list(v)]
    if 'key' not in kw:
      try:
        return I.mklist([K(x) for x in sorted(xs)])
      except TypeError:
        pass
  if isinstance(v, (Obj, Gen)) or isinstance(v, T) and v.op in (
      'items', 'values', 'zip', 'enumerate', 'seq'):
    es = I.iter_list(v, node)
    if kw.get('key', NONE) != NONE and all(not l for _, l in es):
      ks = [plain_key(I.call(kw['key'], [x], {}, node)) for x, _ in es]
      rev = kw.get('reverse', FALSE)
      if None not in ks and isinstance(rev, K):
        try:
          order = sorted(range(len(ks)), key=lambda i: ks[i][0],
                         reverse=bool(rev.v))
          return I.mklist([es[i][0] for i in order])
        except TypeError:
          pass
    return I.new('list', [('v', x, l) for x, l in es])
  return I.new('list', [('spread', T('sorted', v), ())])


def plain_key(v):
  """A known value to sort by, boxed, or None."""
  if isinstance(v, K):
    return (v.v,)
  if isinstance(v, Tup):
    xs = [plain_key(x) for x in v.items]
    return None if None in xs else (tuple(x[0] for x in xs),)
  return None


@ext('builtins.reversed')
def _reversed(I, args, kw, node):
  v = args[0]
  if isinstance(v, Obj) and v.kind in I_.SEQ:
    return I.new('iter', list(v.items)[::-1])
  if isinstance(v, Tup):
    return I.mklist(v.items[::-1], 'iter')
  return T('reversed', v)


@ext('builtins.iter')
def _iter(I, args, kw, node):
  v = args[0]
  if isinstance(v, Obj):
    if isinstance(v.cls, Cls):
      m, _ = I.clookup(v.cls, '__iter__')
      if m is not None:
        return I.call(Bound(m, v), [], {}, node)
      return v
    if v.kind == 'iter':
      return v
    if v.kind in I_.SEQ:
      return I.new('iter', list(v.items))
    if v.kind in I_.DICT:
      return mklist_from(I, v, 'iter', node)
  if isinstance(v, Tup):
    return I.mklist(v.items, 'iter')
  if isinstance(v, T):
    return T('tuple', v) if v.op != 'tuple' else v
  return v


@ext('builtins.next')
def _next(I, args, kw, node):
  v = args[0]
  if isinstance(v, Gen):
    try:
      return I.gen_resume(v)
    except StopIteration:
      if len(args) > 1:
        return args[1]
      I.raise_('StopIteration', node)
  if isinstance(v, Obj):
    if isinstance(v.cls, Cls):
      m, _ = I.clookup(v.cls, '__next__')
      if m is not None:
        return I.call(Bound(m, v), [], {}, node)
    if v.kind == 'iter':
      I.prune(v)
      if v.items and v.items[0][0] == 'v' and not v.items[0][-1]:
        return v.items.pop(0)[1]
      if not v.items:
        if len(args) > 1:
          return args[1]
        I.raise_('StopIteration', node)
      return T('next', I.seq_term(v), K(I.uid()))
  t = T('next', v, K(I.uid()))
  I.event('next', node, obj=v, result=t)
  return t


def plain_items(I, v):
  """The items of a tuple or list of known length, or None."""
  if isinstance(v, Tup):
    return list(v.items)
  if isinstance(v, Obj) and v.kind in ('list',) and I.plain(v):
    return [e[1] for e in v.items]
  return None


@ext('builtins.abs')
def _abs(I, args, kw, node):
  if isinstance(args[0], K) and isinstance(args[0].v, (int, float)):
    return K(abs(args[0].v))
  return T('call', Ext('builtins.abs'), tuple(freeze(I, a) for a in args), ())


@ext('builtins.max', 'builtins.min')
def _max(I, args, kw, node):
  nm = 'max'
  if isinstance(node, ast.Call) and isinstance(node.func, ast.Name):
    nm = node.func.id
  xs = args
  if len(xs) == 1 and not kw:
    ys = plain_items(I, xs[0])
    if ys and len(ys) > 1:
      xs = ys
    elif ys:
      return ys[0]
  if all(isinstance(a, K) for a in xs) and len(xs) > 1:
    return K(max(a.v for a in xs) if nm == 'max' else min(a.v for a in xs))
  return T(nm, *[freeze(I, a) if isinstance(a, V) else a for a in xs])


@ext('builtins.sum')
def _sum(I, args, kw, node):
  ys = plain_items(I, args[0])
  if ys is not None and len(args) == 1 and not kw and all(
      isinstance(y, K) and isinstance(y.v, (int, float)) for y in ys):
    return K(sum(y.v for y in ys))
  r = freeze(I, args[0])
  if isinstance(r, Tup) and len(args) == 1 and not kw and all(
      isinstance(y, K) and isinstance(y.v, (int, float)) for y in r.items):
    return K(sum(y.v for y in r.items))
  return T('sum', r)


def _anyall(nm):
  def f(I, args, kw, node):
    es = I.iter_list(args[0], node)
    ts = []
    for x, l in es:
      t = I.truth_term(x)
      if isinstance(t, K):
        if bool(t.v) == (nm == 'any') and not l:
          return K(nm == 'any')
        if bool(t.v) != (nm == 'any'):
          continue
      ts.append((t, l))
    if not ts:
      return K(nm == 'all')
    if len(ts) == 1 and not ts[0][1]:
      return ts[0][0]
    return T(nm, *[x if not l else T('each', x, l) for x, l in ts])
  return f


EXT['builtins.any'] = _anyall('any')
EXT['builtins.all'] = _anyall('all')


@ext('builtins.id')
def _id(I, args, kw, node):
  I.event('id', node, obj=args[0])
  return T('id', args[0])


@ext('builtins.repr')
def _repr(I, args, kw, node):
  return K(repr(args[0].v)) if isinstance(args[0], K) else T(
      'fmt', K('r'), args[0])


@ext('builtins.str')
def _str(I, args, kw, node):
  if not args:
    return K('')
  if isinstance(args[0], K):
    return K(str(args[0].v))
  if I.is_str(args[0]):
    return args[0]
  return T('str', args[0])


@ext('builtins.int', 'builtins.float')
def _int(I, args, kw, node):
  nm = node.func.id if isinstance(node, ast.Call) and isinstance(
      node.func, ast.Name) else 'int'
  if args and isinstance(args[0], K):
    try:
      return K({'int': int, 'float': float}.get(nm, int)(args[0].v))
    except (ValueError, TypeError):
      I.raise_('ValueError', node)
  return T('num', K(nm), *args)


@ext('builtins.bool')
def _bool(I, args, kw, node):
  if not args:
    return FALSE
  return I.truth_term(args[0])


@ext('builtins.callable')
def _callable(I, args, kw, node):
  v = args[0]
  if isinstance(v, (Fn, HostFn, Bound, BoundM, Partial, Cls, Ext)):
    return TRUE
  if isinstance(v, (K, Tup)):
    return FALSE
  if isinstance(v, Obj) and isinstance(v.cls, Cls):
    return K(I.clookup(v.cls, '__call__')[0] is not None)
  return T('callable', v)


@ext('builtins.slice')
def _slice(I, args, kw, node):
  if all(isinstance(a, K) for a in args):
    return K(slice(*[a.v for a in args]))
  a = list(args)
  if len(a) == 1:
    a = [NONE] + a
  while len(a) < 3:
    a.append(NONE)
  return T('slice', *a)


@ext('builtins.property')
def _property(I, args, kw, node):
  a = list(args) + [None] * 3
  g = kw.get('fget', a[0])
  s = kw.get('fset', a[1])
  d = kw.get('fdel', a[2])
  return Prop(g, None if s == NONE else s, None if d == NONE else d)


@ext('builtins.staticmethod')
def _staticm(I, args, kw, node):
  return StaticM(args[0])


@ext('builtins.classmethod')
def _classm(I, args, kw, node):
  return ClassM(args[0])


@ext('abc.abstractmethod', 'typing.runtime_checkable',
     'typing_extensions.runtime_checkable', 'typing.no_type_check',
     'typing.overload', 'typing.final')
def _ident(I, args, kw, node):
  return args[0]


@ext('typing.cast')
def _cast(I, args, kw, node):
  return args[1]


@ext('builtins.object')
def _object(I, args, kw, node):
  return I.new('object', None)


@ext('builtins.print', 'warnings.warn', 'logging.warning', 'logging.info',
     'warnings.simplefilter', 'absl.logging.warning', 'absl.logging.info')
def _noop(I, args, kw, node):
  I.event('extcall', node, name='log', args=[a for a in args
                                            if isinstance(a, V)], kwargs=kw,
          result=NONE)
  return NONE


@ext('builtins.vars')
def _vars(I, args, kw, node):
  if args and isinstance(args[0], Obj):
    return T('objdict', args[0])
  return T('call', Ext('builtins.vars'), tuple(args), ())


# functools / contextlib / inspect -------------------------------------------
@ext('functools.partial')
def _partial(I, args, kw, node):
  return Partial(args[0], list(args[1:]), dict(kw))


@ext('functools.wraps')
def _wraps(I, args, kw, node):
  return T('wraps_deco', args[0])


@ext('functools.update_wrapper')
def _update_wrapper(I, args, kw, node):
  return call_term(I, T('wraps_deco', args[1]), [args[0]], {}, node)


@ext('functools.lru_cache', 'functools.cache')
def _lru(I, args, kw, node):
  I.event('cache', node, args=list(args))
  if len(args) == 1 and isinstance(args[0], Fn):
    return args[0]
  return T('identity_deco', K('lru_cache'))


@ext('functools.reduce')
def _reduce(I, args, kw, node):
  f, xs = args[0], args[1]
  es = I.iter_list(xs, node)
  acc = args[2] if len(args) > 2 else None
  for x, l in es:
    if acc is None:
      acc = x
      continue
    saved = I.loops
    I.loops = I.loops + l
    try:
      if l:
        acc = I.carry(acc, l[-1], 'acc')
      acc = I.call(f, [acc, x], {}, node)
    finally:
      I.loops = saved
  return acc


@ext('contextlib.contextmanager')
def _ctxm(I, args, kw, node):
  f = args[0]
  g = Fn(f.node, f.env, f.mod, f.qual, f.cls)
  g.attrs, g.defaults, g.kwdefaults, g.isgen = (f.attrs, f.defaults,
                                                f.kwdefaults, f.isgen)
  g.cm = True
  return g


@ext('contextlib.ExitStack')
def _exitstack(I, args, kw, node):
  o = I.new('ExitStack', None)
  o.extra['cbs'] = []
  return o


@ext('contextlib.suppress')
def _suppress(I, args, kw, node):
  o = I.new('suppress', None)
  o.extra['types'] = Tup(args)
  return o


@ext('contextlib.nullcontext')
def _nullctx(I, args, kw, node):
  o = I.new('extcm', None)
  o.extra['null'] = True
  return o


@ext('contextlib.closing')
def _closing(I, args, kw, node):
  return I.new('extcm', None)


def exitstack_exit(I, o, exc, node):
  cbs = o.extra['cbs']
  o.extra['cbs'] = []
  cur = exc
  swallowed = False
  while cbs:
    kind, x, a, k = cbs.pop()
    try:
      if kind == 'cm':
        if I.cm_exit(x, cur, node):
          cur = None
          swallowed = True
      elif kind == 'exit':
        r = I.call(x, [NONE, NONE, NONE] if cur is None else [
            I.exc_class(cur), cur, T('traceback', cur)], {}, node)
        if cur is not None and I.truth(r, node):
          cur = None
          swallowed = True
      else:
        I.call(x, a, k, node)
    except I_.AbsRaise as e:
      cur = e.exc
      pending = True
      if cur is not exc:
        # keep unwinding the remaining callbacks, then propagate
        o.extra['cbs'] = cbs
        exitstack_exit(I, o, cur, node)
        raise
  return swallowed and exc is not None


@ext('inspect.isfunction')
def _isfunction(I, args, kw, node):
  v = args[0]
  if isinstance(v, (Fn, HostFn)):
    return TRUE
  if isinstance(v, T):
    return T('boolcall', Ext('inspect.isfunction'), v)
  return FALSE


@ext('inspect.ismethod')
def _ismethod(I, args, kw, node):
  return K(isinstance(args[0], Bound)) if not isinstance(args[0], T) else T(
      'boolcall', Ext('inspect.ismethod'), args[0])


@ext('inspect.isclass')
def _isclass(I, args, kw, node):
  return K(isinstance(args[0], Cls)) if not isinstance(args[0], T) else T(
      'boolcall', Ext('inspect.isclass'), args[0])


@ext('inspect.signature')
def _signature(I, args, kw, node):
  o = I.new('signature', None)
  o.attrs['fn'] = args[0]
  o.attrs['parameters'] = T('attr', T('signature', args[0]), 'parameters')
  return o


# jax -----------------------------------------------------------------------
def leafmap(I, f, trees, node):
  """jax.tree_map: the function is applied once, to a generic leaf."""
  if not trees:
    I.raise_('TypeError')
  x = trees[0]
  if len(trees) == 1 and x == NONE:
    return NONE
  if I.arr is not None and isinstance(x, T) and I.arr.of(x) is not None:
    return I.call(f, list(trees), {}, node)
  if isinstance(x, Tup) and all(isinstance(t, Tup) and
                                len(t.items) == len(x.items) for t in trees):
    return Tup([leafmap(I, f, list(ts), node)
                for ts in zip(*[t.items for t in trees])])
  if isinstance(x, Obj) and isinstance(x.cls, Cls) and \
      x.cls.nt_fields is not None:
    o = I.new(x.cls, None)
    for k in x.cls.nt_fields:
      o.attrs[k] = leafmap(I, f, [I.getattr(t, k) for t in trees], node)
    return o
  if isinstance(x, Obj) and x.kind in ('list',) and I.plain(x) and \
      len(trees) == 1:
    return I.mklist([leafmap(I, f, [e[1]], node) for e in x.items])
  if isinstance(x, (Obj,)) and x.kind in I_.DICT:
    o = I.new(x.cls, [])
    o.extra['factory'] = x.extra.get('factory', NONE)
    o.extra['copyof'] = x
    for e in x.items:
      saved = I.loops
      if e[0] == 'kv':
        others = []
        for t in trees[1:]:
          others.append(I._gi(t, e[1]))
        I.loops = I.loops + e[3]
        try:
          o.items.append(('kv', e[1], leafmap(I, f, [e[2]] + others, node),
                          e[3]))
        finally:
          I.loops = saved
      else:
        r = leafmap(I, f, [e[1]] + [T('elemof', t) for t in trees[1:]], node)
        o.items.append(('spread', r, e[2]))
    return o
  if isinstance(x, Obj) and isinstance(x.cls, Cls) and x.cls.name == \
      'FlatMapping':
    # registered as a pytree node: rebuilt with the mapped leaves
    o = I.new(x.cls, None)
    o.extra['open'] = True
    o.extra['copyof'] = x
    for k, v in x.attrs.items():
      o.attrs[k] = v
      if isinstance(v, Obj) and v.kind in I_.DICT:
        o.attrs[k] = leafmap(I, f, [v] + [
            t.attrs.get(k, T('attr', t, k))
            if isinstance(t, Obj) else t for t in trees[1:]], node)
    return o
  if isinstance(x, (K, Fn, HostFn)) and len(trees) == 1:
    return I.call(f, [x], {}, node)
  if isinstance(x, Obj) and isinstance(x.cls, Cls) and x.items is None and \
      x.cls.nt_fields is None and x.cls not in getattr(I, 'pytrees', {}):
    # an instance of an unregistered class is a leaf
    return I.call(f, list(trees), {}, node)
  leaf = [T('leaf', t) if not isinstance(t, K) else t for t in trees]
  L = T('loop', I.uid(), T('leaves', x))
  saved = I.loops
  I.loops = I.loops + (L,)
  try:
    r = I.call(f, leaf, {}, node)
  finally:
    I.loops = saved
  if r == leaf[0] and len(trees) == 1:
    return T('treecopy', x) if not (isinstance(x, T) and x.op == 'treecopy') \
        else x
  return T('tree_map', r, *trees)


def tree_carry(I, v, L, name):
  """The loop-carried version of a pytree: same structure, new leaves."""
  if v is None or v == NONE:
    return NONE
  if isinstance(v, Tup):
    return Tup([tree_carry(I, x, L, f'{name}.{i}')
                for i, x in enumerate(v.items)])
  if isinstance(v, Obj):
    if isinstance(v.cls, Cls) and v.cls.nt_fields is not None:
      o = I.new(v.cls, None)
      o.attrs = {k: tree_carry(I, x, L, f'{name}.{k}')
                 for k, x in v.attrs.items()}
      return o
    if v.kind in I_.DICT:
      o = I.new(v.cls, [])
      o.extra['factory'] = v.extra.get('factory', NONE)
      for e in v.items:
        if e[0] == 'kv':
          o.items.append(('kv', e[1], tree_carry(I, e[2], L, f'{name}.{e[1]}'),
                          e[3]))
        else:
          o.items.append(('spread', T('carry', e[1], L, name), e[2]))
      return o
    if v.kind == 'list':
      o = I.new('list', [])
      for i, e in enumerate(v.items):
        if e[0] == 'v':
          o.items.append(('v', tree_carry(I, e[1], L, f'{name}.{i}'), e[2]))
        else:
          o.items.append(('spread', T('carry', e[1], L, name), e[2]))
      return o
    if isinstance(v.cls, Cls) and v.cls.name == 'FlatMapping':
      o = I.new(v.cls, None)
      o.extra['open'] = True
      for k, x in v.attrs.items():
        o.attrs[k] = x
        if isinstance(x, Obj) and x.kind in I_.DICT:
          o.attrs[k] = tree_carry(I, x, L, f'{name}.{k}')
      return o
  return I.carry(v, L, name)


@ext('jax.tree_map', 'jax.tree_multimap', 'jax.tree_util.tree_map',
     'jax.tree_util.tree_multimap', 'jax.tree.map', 'tree.map_structure',
     'jax.tree_util.tree_multimap')
def _tree_map(I, args, kw, node):
  if any(isinstance(a, I_.Star) for a in args):
    t = [a.t if isinstance(a, I_.Star) else a for a in args]
    return T('tree_map', t[0], *t[1:])
  return leafmap(I, args[0], list(args[1:]), node)


def array_leaves(I, x):
  """The leaves of a tree of known structure, or None."""
  if x == NONE:
    return []
  if isinstance(x, (K, Fn, HostFn)):
    return [x]
  if isinstance(x, Tup):
    xs = x.items
  elif isinstance(x, Obj) and isinstance(x.cls, Cls) and \
      x.cls.nt_fields is not None:
    xs = [x.attrs[k] for k in x.cls.nt_fields]
  elif isinstance(x, Obj) and x.kind == 'list' and I.plain(x):
    xs = [e[1] for e in x.items]
  elif isinstance(x, Obj) and x.kind == 'dict' and not isinstance(
      x.cls, Cls) and I.plain(
      x) and all(e[0] == 'kv' and isinstance(e[1], K) and isinstance(
          e[1].v, str) for e in x.items):
    xs = [e[2] for e in sorted(x.items, key=lambda e: e[1].v)]
  elif isinstance(x, Obj) and isinstance(x.cls, Cls) and x.items is None and \
      'shape' in x.attrs and 'dtype' in x.attrs:
    return [x]  # describes an array; no kind of tree
  elif isinstance(x, T) and I.arr.of(x) is not None:
    return [x]
  else:
    return None
  out = []
  for y in xs:
    l = array_leaves(I, y)
    if l is None:
      return None
    out.extend(l)
  return out


@ext('jax.tree_leaves', 'jax.tree_util.tree_leaves')
def _tree_leaves(I, args, kw, node):
  if I.arr is not None:
    ls = array_leaves(I, args[0])
    if ls is not None:
      return I.mklist(ls)
  return T('leaves', args[0])


@ext('jax.tree_flatten', 'jax.tree_util.tree_flatten')
def _tree_flatten(I, args, kw, node):
  if I.arr is not None:
    ls = array_leaves(I, args[0])
    if ls is not None:
      return Tup([I.mklist(ls), T('treedef', args[0])])
  return Tup([T('leaves', args[0]), T('treedef', args[0])])


@ext('jax.treedef_is_leaf', 'jax.tree_util.treedef_is_leaf')
def _treedef_is_leaf(I, args, kw, node):
  x = args[0].args[0] if isinstance(args[0], T) and args[0].op == 'treedef' \
      else None
  if x is not None:
    if isinstance(x, (Tup,)) or x == NONE or isinstance(x, Obj) and (
        x.kind in ('list',) or x.kind in I_.DICT or isinstance(
            x.cls, Cls) and x.cls.nt_fields is not None):
      return FALSE
    if I.arr is not None and isinstance(x, T) and I.arr.of(x) is not None:
      return TRUE
  return T('call', Ext('jax.treedef_is_leaf'), (args[0],), ())


@ext('jax.tree_structure', 'jax.tree_util.tree_structure')
def _tree_structure(I, args, kw, node):
  return T('treedef', args[0])


@ext('jax.tree_unflatten', 'jax.tree_util.tree_unflatten')
def _tree_unflatten(I, args, kw, node):
  td, lv = args
  if I.arr is not None and isinstance(td, T) and td.op == 'treedef' and \
      array_leaves(I, td.args[0]) is not None:
    es = I.iter_list(lv, node)
    if all(not l for _, l in es):
      it = iter([x for x, _ in es])
      return leafmap(I, HostFn(lambda I, a, k: next(it)), [td.args[0]], node)
  if isinstance(td, T) and td.op == 'treedef' and lv == T('leaves',
                                                          td.args[0]):
    return T('treecopy', td.args[0])
  return T('unflatten', td, freeze(I, lv))


@ext('jax.tree_util.register_pytree_node')
def _regnode(I, args, kw, node):
  I.event('register_pytree', node, cls=args[0], flatten=args[1],
          unflatten=args[2])
  if I.loading:
    I.pytrees = getattr(I, 'pytrees', {})
    I.pytrees[args[0]] = (args[1], args[2])
  return NONE


def hof(I, name, f, args, kw):
  o = I.new('hof', None)
  o.extra.update(name=name, f=f, args=list(args), kw=dict(kw))
  return o


def _mkhof(name):
  def h(I, args, kw, node):
    if not args:
      kw = dict(kw)
      f = kw.pop('fun', kw.pop('f', None))
      if f is None:
        return HostFn(lambda I2, a, k: hof(I2, name, a[0], a[1:], kw), name)
      return hof(I, name, f, [], kw)
    return hof(I, name, args[0], args[1:], kw)
  return h


for _n in ('jax.jit', 'jax.remat', 'jax.checkpoint', 'jax.named_call',
           'jax.value_and_grad', 'jax.grad', 'jax.vmap', 'jax.pmap',
           'jax.linearize', 'jax.jvp', 'jax.vjp', 'jax.make_jaxpr',
           'jax.xla_computation', 'jax.custom_jvp', 'jax.custom_vjp'):
  EXT[_n] = _mkhof(_n)


def call_hof(I, o, args, kwargs, node):
  name = o.extra['name']
  f = o.extra['f']
  kw = o.extra['kw']
  I.event('hofcall', node, name=name, f=f, args=list(args),
          kwargs=dict(kwargs), opts=(o.extra['args'], kw))
  I.tracing = getattr(I, 'tracing', 0) + 1
  try:
    r = I.call(f, args, kwargs, node)
  finally:
    I.tracing -= 1
  if name in ('jax.value_and_grad', 'jax.grad'):
    aux = kw.get('has_aux', FALSE)
    if len(o.extra['args']) > 1:
      aux = o.extra['args'][1]
    g = T('grads', K(I.uid()))
    if I.truth(aux, node):
      val, ax = I.unpack(r, [ast.Name(), ast.Name()], node)
      return Tup([Tup([val, ax]), g]) if name.endswith('value_and_grad') \
          else Tup([g, ax])
    return Tup([r, g]) if name.endswith('value_and_grad') else g
  if name == 'jax.make_jaxpr':
    return T('jaxpr', r)
  return r


def getarg(args, kw, i, name, default=None):
  if name in kw:
    return kw[name]
  if i < len(args):
    return args[i]
  return default


def body(I, node, name, branch, f, args):
  I.event('hofenter', node, name=name, branch=branch, args=list(args))
  before = [structure(I, a) for a in args]
  r = I.call(f, args, {}, node)
  I.event('hofbody', node, name=name, branch=branch, args=list(args),
          result=r, ins=before, outs=structure(I, r))
  return r


def structure(I, v, depth=0):
  """The pytree structure of a value, leaves as '*'."""
  if v is None or v == NONE:
    return 'None'
  if depth > 12:
    return '...'
  if isinstance(v, Tup):
    return ('tuple',) + tuple(structure(I, x, depth + 1) for x in v.items)
  if isinstance(v, Obj):
    if isinstance(v.cls, Cls) and v.cls.nt_fields is not None:
      return (v.cls.name,) + tuple(
          structure(I, v.attrs.get(k), depth + 1) for k in v.cls.nt_fields)
    w = v
    if isinstance(v.cls, Cls):
      w = I.view_of(v)
      if w is None:
        return '*'
    if isinstance(w, T):
      return ('map', str(digest(w)))
    if w.kind in I_.DICT:
      out = []
      for e in w.items:
        if e[0] == 'kv':
          out.append((repr(e[1]), structure(I, e[2], depth + 1)))
        else:
          out.append(('**', str(digest(strip(e[1])))))
      return ('map',) + tuple(sorted(out, key=str))
    if w.kind in ('list', 'deque'):
      return (w.kind,) + tuple(
          structure(I, e[1], depth + 1) if e[0] == 'v' else (
              '*' + str(digest(strip(e[1])))) for e in w.items)
  return '*'


def strip(t):
  while isinstance(t, T) and t.op in ('carry', 'treecopy') and isinstance(
      t.args[0], V):
    t = t.args[0]
  return t


@ext('jax.lax.cond')
def _cond(I, args, kw, node):
  pred = getarg(args, kw, 0, 'pred')
  if 'operand' in kw or 'true_fun' in kw or len(args) == 4:
    tf = getarg(args, kw, 1, 'true_fun')
    ff = getarg(args, kw, 2, 'false_fun')
    op = getarg(args, kw, 3, 'operand')
    ta = fa = [op]
  elif len(args) == 5 and not isinstance(args[1], (Fn, HostFn, Partial, Bound,
                                                    Obj)):
    ta, tf, fa, ff = [args[1]], args[2], [args[3]], args[4]
  else:
    tf, ff = args[1], args[2]
    ta = fa = list(args[3:])
  I.event('hofcall', node, name='jax.lax.cond', f=(tf, ff), args=list(args),
          kwargs=dict(kw), opts=None)
  if I.choice(2, 'cond') == 0:
    return body(I, node, 'jax.lax.cond', 0, tf, ta)
  return body(I, node, 'jax.lax.cond', 1, ff, fa)


@ext('jax.lax.switch')
def _switch(I, args, kw, node):
  br = getarg(args, kw, 1, 'branches')
  ops = list(args[2:]) or [kw.get('operand')]
  I.event('hofcall', node, name='jax.lax.switch', f=br, args=list(args),
          kwargs=dict(kw), opts=None)
  es = I.iter_list(br, node)
  if not es:
    I.raise_('ValueError', node)
  i = I.choice(len(es), 'switch') if len(es) > 1 else 0
  return body(I, node, 'jax.lax.switch', i, es[i][0], ops)


@ext('jax.lax.scan')
def _scan(I, args, kw, node):
  f = getarg(args, kw, 0, 'f')
  init = getarg(args, kw, 1, 'init')
  xs = getarg(args, kw, 2, 'xs')
  L = T('loop', I.uid(), T('scan', xs if xs is not None else NONE))
  e = I.event('hofcall', node, name='jax.lax.scan', f=f, args=list(args),
              kwargs=dict(kw), opts=(init, xs, L))
  saved = I.loops
  I.loops = I.loops + (L,)
  try:
    c0 = tree_carry(I, init, L, 'scan')
    sl = HostFn(lambda I, a, k: T('slice_of', a[0], L))
    r = body(I, node, 'jax.lax.scan', 0, f, [
        c0, T('slice_of', xs, L) if I.arr is None or xs is None or
        array_leaves(I, xs) is None else leafmap(I, sl, [xs], node)])
  finally:
    I.loops = saved
  c, y = I.unpack(r, [ast.Name(), ast.Name()], node)
  if I.arr is not None and array_leaves(I, y) is not None:
    return Tup([c, leafmap(I, HostFn(lambda I, a, k: T('stacked', a[0], L)),
                           [y], node)])
  return Tup([c, T('stacked', y, L)])


@ext('jax.lax.fori_loop')
def _fori(I, args, kw, node):
  lo = getarg(args, kw, 0, 'lower')
  hi = getarg(args, kw, 1, 'upper')
  f = getarg(args, kw, 2, 'body_fun')
  init = getarg(args, kw, 3, 'init_val')
  L = T('loop', I.uid(), T('fori', lo, hi))
  I.event('hofcall', node, name='jax.lax.fori_loop', f=f, args=list(args),
          kwargs=dict(kw), opts=(init, L))
  saved = I.loops
  I.loops = I.loops + (L,)
  try:
    r = body(I, node, 'jax.lax.fori_loop', 0, f, [
        T('iter', L), tree_carry(I, init, L, 'fori')])
  finally:
    I.loops = saved
  return r


@ext('jax.lax.while_loop')
def _while(I, args, kw, node):
  cf = getarg(args, kw, 0, 'cond_fun')
  f = getarg(args, kw, 1, 'body_fun')
  init = getarg(args, kw, 2, 'init_val')
  L = T('loop', I.uid(), T('while', K(0)))
  I.event('hofcall', node, name='jax.lax.while_loop', f=(cf, f),
          args=list(args), kwargs=dict(kw), opts=(init, L))
  saved = I.loops
  I.loops = I.loops + (L,)
  try:
    c0 = tree_carry(I, init, L, 'while')
    p = I.call(cf, [c0], {}, node)
    I.event('while_pred', node, pred=p)
    r = body(I, node, 'jax.lax.while_loop', 0, f, [c0])
  finally:
    I.loops = saved
  return r


@ext('jax.eval_shape')
def _eval_shape(I, args, kw, node):
  I.event('hofcall', node, name='jax.eval_shape', f=args[0],
          args=list(args), kwargs=dict(kw), opts=None)
  kw = dict(kw)
  I.scratch += 1
  try:
    r = I.call(args[0], list(args[1:]), kw, node)
  finally:
    I.scratch -= 1
  return T('shape_of', r) if isinstance(r, V) else NONE


# container and string methods ------------------------------------------------
MUTATORS = frozenset([
    'append', 'appendleft', 'extend', 'extendleft', 'insert', 'pop', 'popleft',
    'popitem', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard',
    'sort', 'reverse', '__setitem__', '__delitem__', 'subtract',
    'difference_update', 'intersection_update', 'rotate', 'move_to_end',
    '__setattr__'])


def call_method(I, o, name, args, kw, node):
  if isinstance(o, Obj):
    if o.kind in ('list', 'deque', 'set', 'frozenset', 'iter'):
      return seq_method(I, o, name, args, kw, node)
    if o.kind in I_.DICT:
      return dict_method(I, o, name, args, kw, node)
    if o.kind == 'ExitStack':
      return exitstack_method(I, o, name, args, kw, node)
    if o.kind == 'signature':
      return signature_method(I, o, name, args, kw, node)
    if o.kind == 'suppress':
      pass
    if o.kind == 'cm':
      if name == '__enter__':
        return I.cm_enter(o, node)
      if name == '__exit__':
        return K(bool(I.cm_exit(o, None if args[0] == NONE else args[1],
                                node)))
    if isinstance(o.cls, Cls):
      return objmethod(I, o, name, args, kw, node)
  if isinstance(o, K):
    return const_method(I, o, name, args, kw, node)
  if isinstance(o, Tup):
    if name == 'index' and all(isinstance(x, K) for x in o.items) and \
        isinstance(args[0], K):
      for i, x in enumerate(o.items):
        if x == args[0]:
          return K(i)
      I.raise_('ValueError', node)
    if name == 'count' and all(isinstance(x, K) for x in o.items) and \
        isinstance(args[0], K):
      return K(sum(1 for x in o.items if x.v == args[0].v))
    return T('mcall', o, name, tuple(a for a in args if isinstance(a, V)), ())
  if isinstance(o, Gen):
    if name in ('__next__', 'send'):
      try:
        return I.gen_resume(o, send=args[0] if args else None)
      except StopIteration:
        I.raise_('StopIteration', node)
    if name == 'close':
      return NONE
  if isinstance(o, Prop):
    if name == 'setter':
      return Prop(o.fget, args[0], o.fdel)
    if name == 'getter':
      return Prop(args[0], o.fset, o.fdel)
    if name == 'deleter':
      return Prop(o.fget, o.fset, args[0])
  if isinstance(o, (Fn, HostFn)) and name == '__get__':
    return Bound(o, args[0])
  if isinstance(o, T) and o.op == 'regex' and name in (
      'split', 'sub', 'match', 'search', 'fullmatch', 'findall'):
    return re_fold(I, name, [o.args[0]] + list(args), kw)
  if isinstance(o, T):
    return term_method(I, o, name, args, kw, node)
  if isinstance(o, Ext):
    return call_ext(I, o.name + '.' + name, args, kw, node)
  return T('mcall', o, name, tuple(a for a in args if isinstance(a, V)),
           tuple(sorted(kw.items())))


def seq_method(I, o, name, args, kw, node):
  if name in MUTATORS:
    if o.kind == 'frozenset':
      I.raise_('AttributeError', node)
    I.event('mutate', node, obj=o, name=name, args=list(args))
    o.ver += 1
  rl = I.rel_loops(o)
  if name in ('append', 'add'):
    if name == 'add':
      if any(e[0] == 'v' and e[1] == args[0] and e[-1] == rl for e in o.items):
        return NONE
    o.items.append(('v', args[0], rl))
    return NONE
  if name == 'appendleft':
    o.items.insert(0, ('v', args[0], rl))
    return NONE
  if name in ('extend', 'update'):
    for a in args:
      if isinstance(a, Obj) and a.kind in I_.SEQ and a is not o:
        o.items.extend(e[:-1] + (rl + e[-1],) for e in a.items)
      else:
        o.items.extend(e[:-1] + (rl + e[-1],) for e in I.spread_entries(a))
    return NONE
  if name == 'insert':
    if isinstance(args[0], K):
      o.items.insert(args[0].v, ('v', args[1], rl))
    else:
      o.items.append(('v', args[1], rl))
    return NONE
  if name in ('pop', 'popleft') and o.kind != 'set':
    left = name == 'popleft' or (args and args[0] == K(0))
    I.prune(o)
    if not o.items:
      I.raise_('IndexError', node)
    if args and isinstance(args[0], K) and args[0].v not in (0, -1):
      if I.plain(o):
        return o.items.pop(args[0].v)[1]
      return T('pop', I.seq_term(o), args[0], K(I.uid()))
    e = o.items[0] if left else o.items[-1]
    if e[0] == 'v' and (not e[-1] or (not left and
                                      e[-1] == I.rel_loops(o))):
      del o.items[0 if left else -1]
      return e[1]
    if e[0] == 'spread':
      if I.facts.get(T('truthy', e[1])) is not True:
        if not I.decide(T('truthy', e[1]), node):
          o.items = [x for x in o.items if x is not e]
          return seq_method(I, o, name, args, kw, node)
      t = e[1]
      if left:
        o.items[0] = ('spread', T('getitem', t, K(slice(1, None, None))), e[2])
        return T('getitem', t, K(0))
      o.items[-1] = ('spread', T('getitem', t, K(slice(None, -1, None))), e[2])
      return T('getitem', t, K(-1))
    # generic entry
    return T('pop', I.seq_term(o), K('left' if left else 'right'),
             K(I.uid()))
  if name == 'clear':
    o.items = []
    return NONE
  if name in ('remove', 'discard'):
    n = [e for e in o.items if not (e[0] == 'v' and e[1] == args[0])]
    if len(n) == len(o.items) and I.plain(o) and name == 'remove' and all(
        I.eq_term(e[1], args[0]) == FALSE for e in o.items):
      I.raise_('KeyError' if o.kind == 'set' else 'ValueError', node)
    o.items = n
    return NONE
  if name == 'count' and I.plain(o) and isinstance(args[0], K) and all(
      isinstance(e[1], K) for e in o.items):
    return K(sum(1 for e in o.items if e[1].v == args[0].v))
  if name == 'reverse':
    o.items.reverse()
    return NONE
  if name == 'sort':
    if I.plain(o) and all(isinstance(e[1], K) for e in o.items):
      try:
        o.items.sort(key=lambda e: e[1].v)
      except TypeError:
        pass
    return NONE
  if name == 'copy':
    return I.new(o.cls, list(o.items))
  if name == '__len__':
    return _len(I, [o], {}, node)
  if name == '__iter__':
    return _iter(I, [o], {}, node)
  if name in ('index', 'count'):
    if I.plain(o) and isinstance(args[0], K):
      for i, e in enumerate(o.items):
        if e[1] == args[0]:
          return K(i)
    return T('mcall', I.seq_term(o), name, tuple(args), ())
  if name in ('union', 'difference', 'intersection', 'symmetric_difference'):
    if name == 'union':
      r = I.new(o.cls, list(o.items))
      for a in args:
        r.items.extend(I.spread_entries(a))
      return r
    return T('mcall', I.snap_set(o), name,
             tuple(I.snap_set(a) for a in args), ())
  if name in ('issubset', 'issuperset', 'isdisjoint'):
    return T('boolcall', I.snap_set(o), name,
             tuple(I.snap_set(a) for a in args))
  if name == '__next__':
    return _next(I, [o], {}, node)
  return T('mcall', I.seq_term(o), name,
           tuple(a for a in args if isinstance(a, V)),
           tuple(sorted(kw.items())))


def dict_method(I, o, name, args, kw, node):
  if name == 'get':
    d = args[1] if len(args) > 1 else kw.get('default', NONE)
    fac = o.extra.get('factory')
    kind = o.cls
    o.cls = 'dict'
    try:
      if I.nofork:
        r = I.dict_find(o, args[0])
        if r[0] not in ('hit', 'miss'):
          return T('get', o, args[0], d, K(o.ver))
      return I.dict_get(o, args[0], node, default=d)
    finally:
      o.cls = kind
  if name in ('items', 'keys', 'values'):
    return T(name, I_snap(I, o))
  if name == 'setdefault':
    r = I.dict_find(o, args[0])
    if r[0] == 'hit':
      return r[1]
    d = args[1] if len(args) > 1 else NONE
    if r[0] == 'miss' or r[0] == 'open':
      I.setitem(o, args[0], d, node)
      return d
    try:
      kind, o.cls = o.cls, 'dict'
      sh, I.handlers = I.handlers, [['KeyError']]
      try:
        return I.dict_get(o, args[0], node)
      finally:
        o.cls = kind
        I.handlers = sh
    except I_.AbsRaise:
      I.setitem(o, args[0], d, node)
      return d
  if name in MUTATORS:
    I.event('mutate', node, obj=o, name=name, args=list(args))
    o.ver += 1
  if name == 'update':
    for a in args:
      if isinstance(a, V):
        before = len(o.items)
        dict_update(I, o, a, node)
    for k, v in kw.items():
      if k == '**':
        dict_update(I, o, v, node)
      else:
        I.setitem(o, K(k), v, node)
    return NONE
  if name == 'pop':
    kind, o.cls = o.cls, 'dict'
    try:
      v = I.dict_get(o, args[0], node,
                     default=args[1] if len(args) > 1 else None)
    finally:
      o.cls = kind
    o.items = [e for e in o.items if not (e[0] == 'kv' and e[1] == args[0])]
    return v
  if name == 'clear':
    o.items = []
    return NONE
  if name == 'copy':
    n = I.new(o.cls, list(o.items))
    n.extra['factory'] = o.extra.get('factory', NONE)
    return n
  if name == '__contains__':
    return I.contains(o, args[0])
  if name == '__getitem__':
    return I.getitem(o, args[0], node)
  if name == '__setitem__':
    I.setitem(o, args[0], args[1], node)
    return NONE
  if name == '__len__':
    return _len(I, [o], {}, node)
  if name == '__iter__':
    return mklist_from(I, o, 'iter', node)
  return T('mcall', o, name, tuple(a for a in args if isinstance(a, V)),
           tuple(sorted(kw.items())))


def I_snap(I, o):
  """A view term over a dict; if it only forwards a term, view that term."""
  if len(o.items) == 1 and o.items[0][0] == 'spread' and not o.items[0][-1]:
    return o.items[0][1]
  return o


def objmethod(I, o, name, args, kw, node):
  """Mixin methods of repo classes deriving from an external base."""
  cls = o.cls
  if cls.nt_fields is not None:
    if name == '_replace':
      n = I.new(cls, None)
      n.attrs = dict(o.attrs)
      for k, v in kw.items():
        if k not in cls.nt_fields:
          I.raise_('ValueError', node)
        n.attrs[k] = v
      return n
    if name == '_asdict':
      return I.mkdict({k: o.attrs[k] for k in cls.nt_fields})
  exts = [b for b in cls.mro() if isinstance(b, Ext)]
  if any(is_mapping_ext(b.name) for b in exts):
    if name == 'get':
      d = args[1] if len(args) > 1 else kw.get('default', NONE)
      try:
        sh, I.handlers = I.handlers, [['KeyError']]
        try:
          return I.getitem(o, args[0], node)
        finally:
          I.handlers = sh
      except I_.AbsRaise as e:
        if I.exc_matches(e.exc, Ext('builtins.KeyError')) is True:
          return d
        raise
    if name == '__contains__':
      return I.contains(o, args[0])
    if name in ('keys',):
      return I.mklist([x for x, _ in I.iter_list(o, node)], 'iter')
    if name in ('items', 'values'):
      out = I.new('iter', [])
      for x, l in I.iter_list(o, node):
        v = I.getitem(o, x, node)
        out.items.append(('v', Tup([x, v]) if name == 'items' else v, l))
      return out
  I.event('mcall', node, obj=o, name=name, args=list(args), kwargs=dict(kw))
  if name in MUTATORS:
    I.event('mutate', node, obj=o, name=name, args=list(args))
  return T('mcall', o, name, tuple(a for a in args if isinstance(a, V)),
           tuple(sorted(kw.items())), K(I.uid()))


def exitstack_method(I, o, name, args, kw, node):
  if name == 'enter_context':
    v = I.cm_enter(args[0], node)
    o.extra['cbs'] = o.extra['cbs'] + [('cm', args[0], (), {})]
    return v
  if name == 'callback':
    o.extra['cbs'] = o.extra['cbs'] + [('cb', args[0], list(args[1:]),
                                        dict(kw))]
    return args[0]
  if name == 'push':
    a = args[0]
    if isinstance(a, Obj) and (a.kind in ('cm', 'ExitStack') or isinstance(
        a.cls, Cls)):
      o.extra['cbs'] = o.extra['cbs'] + [('cm', a, (), {})]
    else:
      o.extra['cbs'] = o.extra['cbs'] + [('exit', a, (), {})]
    return a
  if name == 'close':
    exitstack_exit(I, o, None, node)
    return NONE
  if name == 'pop_all':
    n = _exitstack(I, [], {}, node)
    n.extra['cbs'] = o.extra['cbs']
    o.extra['cbs'] = []
    return n
  if name == '__enter__':
    return o
  if name == '__exit__':
    return K(bool(exitstack_exit(I, o, None if args[0] == NONE else args[1],
                                 node)))
  raise I_.Undecided('ExitStack.' + name)


def signature_method(I, o, name, args, kw, node):
  if name in ('bind', 'bind_partial'):
    fn = o.attrs['fn']
    if isinstance(fn, Fn):
      b = I.bind(fn, args, kw, node)
      r = I.new('object', None)
      names = [a.arg for a in fn.node.args.posonlyargs + fn.node.args.args]
      r.attrs['args'] = Tup([b[n] for n in names])
      r.attrs['kwargs'] = I.mkdict({})
      r.attrs['arguments'] = I.mkdict({n: b[n] for n in names})
      return r
    return T('bound_args', fn, tuple(a for a in args if isinstance(a, V)),
             tuple(sorted(kw.items())))
  return T('mcall', o, name, tuple(args), ())


STR_METHODS = frozenset(['split', 'rsplit', 'join', 'format', 'startswith',
                         'endswith', 'replace', 'lower', 'upper', 'strip',
                         'lstrip', 'rstrip', 'title', 'splitlines', 'find',
                         'count', 'index', 'rpartition', 'partition',
                         'isidentifier', 'isdigit', 'zfill', 'capitalize',
                         'ljust', 'rjust', 'center', 'encode', 'rfind'])


def const_method(I, o, name, args, kw, node):
  if isinstance(o.v, str):
    if name == 'join':
      es = I.iter_list(args[0], node)
      if all(not l for _, l in es):
        parts = []
        for i, (x, _) in enumerate(es):
          if i:
            parts.append(o)
          parts.append(x)
        return I.cat(parts)
      return T('str', T('join', o, tuple(es)))
    if name == 'format':
      return str_format(I, o, args, kw)
    if name in STR_METHODS and all(isinstance(a, K) for a in args) and not kw:
      try:
        r = getattr(o.v, name)(*[a.v for a in args])
      except Exception as e:  # constant folding
        I.raise_(type(e).__name__, node)
      if isinstance(r, list):
        return I.mklist([K(x) for x in r])
      if isinstance(r, tuple):
        return Tup([K(x) for x in r])
      return K(r)
    if name in ('startswith', 'endswith'):
      return T('boolcall', K(name), o, *args)
    return T('str', T('mcall', o, name, tuple(a for a in args
                                             if isinstance(a, V)), ()))
  if isinstance(o.v, (int, float)) and all(isinstance(a, K) for a in args):
    try:
      return K(getattr(o.v, name)(*[a.v for a in args]))
    except Exception:  # constant folding
      pass
  if isinstance(o.v, re.Match) and name in (
      'group', 'groups', 'start', 'end', 'span', 'groupdict') and all(
          isinstance(a, K) for a in args):
    r = getattr(o.v, name)(*[a.v for a in args])
    if isinstance(r, tuple):
      return Tup([K(x) for x in r])
    return K(r)
  if isinstance(o.v, slice) and name == 'indices':
    return T('mcall', o, name, tuple(args), ())
  return T('mcall', o, name, tuple(a for a in args if isinstance(a, V)),
           tuple(sorted(kw.items())))


def str_format(I, o, args, kw):
  import string
  parts = []
  auto = 0
  try:
    for lit, field, spec, conv in string.Formatter().parse(o.v):
      if lit:
        parts.append(K(lit))
      if field is None:
        continue
      if field == '':
        v = args[auto]
        auto += 1
      elif field.isdigit():
        v = args[int(field)]
      elif field in kw:
        v = kw[field]
      else:
        return T('fmt', o, *[a for a in args if isinstance(a, V)])
      if spec and not conv and '{' not in spec and isinstance(
          v, K) and isinstance(v.v, (int, float, str)):
        v = K(format(v.v, spec))
      elif spec or conv:
        v = T('fmt', K(f'{conv}:{spec}'), v)
      parts.append(v)
  except (IndexError, ValueError):
    return T('fmt', o, *[a for a in args if isinstance(a, V)])
  return I.cat(parts)


def term_method(I, o, name, args, kw, node):
  if name in ('items', 'keys', 'values') and not args:
    b = o.args[0] if o.op == 'treecopy' and isinstance(o.args[0], T) else o
    return T(name, o)
  if name == 'get' and args:
    d = args[1] if len(args) > 1 else kw.get('default', NONE)
    if I.nofork:
      return T('get', o, args[0], d)
    if I.contains_decide(o, args[0], node):
      return T('getitem', o, args[0])
    return d
  if name == '__getitem__':
    return I.getitem(o, args[0], node)
  if name == '__contains__':
    return I.contains(o, args[0])
  if name == '__len__':
    return _len(I, [o], {}, node)
  if name in MUTATORS:
    I.event('mutate', node, obj=o, name=name, args=list(args))
    return T('mcall', o, name, tuple(a for a in args if isinstance(a, V)), (),
             K(I.uid()))
  if name == 'copy' and not args:
    return T('treecopy', o)
  if name in ('startswith', 'endswith', 'isidentifier', 'isdigit'):
    return T('boolcall', K(name), o, *args)
  if name == 'format' and I.is_str(o):
    return T('fmt', o, *[a for a in args if isinstance(a, V)])
  if name == '_replace':
    pass
  if root_user(I, o):
    # a method of an unknown user object
    return I.user_call(T('attr', o, name), args, kw, node)
  clean = tuple(freeze(I, a) if isinstance(a, V) else T('star', a.t)
                for a in args)
  t = T('mcall', o, name, clean,
        tuple(sorted((k, freeze(I, v)) for k, v in kw.items())))
  I.event('mcall', node, obj=o, name=name, args=list(args), kwargs=dict(kw),
          result=t)
  return t


def root_user(I, o):
  """Is the receiver an opaque user object (not an array-like value)?"""
  x = o
  while isinstance(x, T) and x.op in ('attr', 'getitem', 'elem'):
    x = x.args[0]
  return isinstance(x, T) and x in getattr(I, 'user_objs', ())


def class_decorator(I, dv, cls, node):
  if isinstance(dv, T) and dv.op == 'call' and isinstance(dv.args[0], Ext):
    dv = dv.args[0]
  if isinstance(dv, Ext) and dv.name in ('dataclasses.dataclass',):
    fields = []
    for st in cls.node.body if cls.node else ():
      if isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
        fields.append(st.target.id)
    inherited = []
    for b in cls.mro()[1:]:
      if isinstance(b, Cls) and '__sa_dc__' in b.attrs:
        inherited = [f for f in b.attrs['__sa_dc__'].v if f not in fields]
        break
    cls.attrs['__sa_dc__'] = K(tuple(inherited + fields))
    return cls
  if isinstance(dv, (Fn,)):
    return I.call(dv, [cls], {}, node)
  return cls


# regex ---------------------------------------------------------------------
@ext('re.compile')
def _recompile(I, args, kw, node):
  return T('regex', *args)


def re_fold(I, nm, args, kw):
  """Folds a regular-expression operation on constants."""
  if all(isinstance(a, K) for a in args) and all(
      isinstance(a, K) for a in kw.values()):
    try:
      r = getattr(re, nm)(*[a.v for a in args],
                          **{k: v.v for k, v in kw.items()})
    except Exception:  # constant folding
      r = NotImplemented
    if isinstance(r, list):
      return I.mklist([K(x) if not isinstance(x, tuple) else
                       Tup([K(y) for y in x]) for x in r])
    if isinstance(r, str):
      return K(r)
    if r is None:
      return NONE
    if isinstance(r, re.Match):
      return K(r)
  return T('call', Ext('re.' + nm), tuple(args), tuple(sorted(kw.items())))


def _mkre(nm):
  def h(I, args, kw, node):
    return re_fold(I, nm, args, kw)
  return h


for _n in ('split', 'sub', 'match', 'search', 'fullmatch', 'findall'):
  EXT['re.' + _n] = _mkre(_n)


@ext('random.Random')
def _random(I, args, kw, node):
  return T('call', Ext('random.Random'), tuple(args), ())


@ext('threading.local')
def _tlocal(I, args, kw, node):
  o = I.new('object', None)
  o.extra['threadlocal'] = True
  return o


@ext('copy.copy', 'copy.deepcopy')
def _copy(I, args, kw, node):
  v = args[0]
  if isinstance(v, Obj) and v.items is not None:
    n = I.new(v.cls, list(v.items))
    n.extra['factory'] = v.extra.get('factory', NONE)
    return n
  if isinstance(v, T):
    return T('treecopy', v)
  return v


@ext('itertools.chain')
def _chain(I, args, kw, node):
  o = I.new('iter', [])
  for a in args:
    o.items.extend(I.spread_entries(a) if isinstance(a, V)
                   else [('spread', a.t, ())])
  return o


@ext('numpy.delete')
def _np_delete(I, args, kw, node):
  xs = plain_items(I, args[0]) if len(args) == 2 and not kw else None
  if xs is not None and isinstance(args[1], K) and isinstance(
      args[1].v, int) and -len(xs) <= args[1].v < len(xs):
    xs = list(xs)
    del xs[args[1].v]
    return I.mklist(xs)
  return T('call', Ext('numpy.delete'), tuple(freeze(I, a) for a in args),
           tuple(sorted((k, freeze(I, v)) for k, v in kw.items())))


@ext('numpy.prod', 'numpy.product', 'math.prod')
def _np_prod(I, args, kw, node):
  name = 'math.prod' if isinstance(node, ast.Call) and ast.unparse(
      node.func).startswith('math') else 'numpy.prod'
  xs = plain_items(I, args[0]) if len(args) == 1 and not kw else None
  if xs is not None and all(isinstance(x, K) and isinstance(
      x.v, (int, float)) and not isinstance(x.v, bool) for x in xs):
    r = 1. if not xs and name == 'numpy.prod' else 1
    for x in xs:
      r *= x.v
    return K(r)
  return T('call', Ext(name), tuple(freeze(I, a) for a in args),
           tuple(sorted((k, freeze(I, v)) for k, v in kw.items())))
