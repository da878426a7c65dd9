"""Shapes, element types and batch provenance of array terms.

An abstract interpretation of the Herbrand terms the interpreter builds: every
term that denotes an array is given

  shape  a tuple of sizes; a size is an integer or a polynomial with integer
         coefficients over symbolic sizes and opaque quotients
  dtype  'bool', 'int32', ..., a weak Python scalar type, or a symbolic
         floating type such as the type of the inputs
  batch  None when the value does not depend on any example, an axis when
         entry i along that axis depends on example i only, MIX otherwise

None for a whole value or a component means not known.
"""
from .vals import *

MIX = 'mixed'
SIZES = set('NCWHDTUBGM')  # names of symbolic sizes
SIZES |= {x + '_b' for x in SIZES}


# ------------------------------------------------------------- polynomials
class Poly:
  """Polynomial: {sorted tuple of atoms: integer coefficient}."""
  __slots__ = ('m', '_h')

  def __init__(self, m):
    self.m = {k: c for k, c in m.items() if c != 0}
    self._h = hash(frozenset(self.m.items()))

  def __eq__(self, o):
    return isinstance(o, Poly) and self.m == o.m

  def __hash__(self):
    return self._h

  def const(self):
    if not self.m:
      return 0
    if len(self.m) == 1 and () in self.m:
      return self.m[()]
    return None

  def __add__(self, o):
    m = dict(self.m)
    for k, c in o.m.items():
      m[k] = m.get(k, 0) + c
    return Poly(m)

  def __neg__(self):
    return Poly({k: -c for k, c in self.m.items()})

  def __sub__(self, o):
    return self + (-o)

  def __mul__(self, o):
    m = {}
    for k, c in self.m.items():
      for l, d in o.m.items():
        x = tuple(sorted(k + l, key=repr))
        m[x] = m.get(x, 0) + c * d
    return Poly(m)

  def div(self, o):
    """Exact quotient, or None."""
    if o.const() == 0:
      return None
    if len(o.m) == 1:
      (k, c), = o.m.items()
      out = {}
      for l, d in self.m.items():
        l = list(l)
        for a in k:
          if a not in l:
            return None
          l.remove(a)
        if d % c:
          return None
        out[tuple(l)] = d // c
      return Poly(out)
    return ONE if self == o else None

  def __repr__(self):
    if not self.m:
      return '0'
    out = []
    for k, c in sorted(self.m.items(), key=repr):
      s = '*'.join(str(a) for a in k)
      out.append(str(c) if not k else s if c == 1 else f'{c}*{s}')
    return ' + '.join(out)


def const(n):
  return Poly({(): n})


def atom(a):
  return Poly({(a,): 1})


ZERO, ONE = const(0), const(1)


def floordiv(p, q):
  if p.const() is not None and q.const() not in (None, 0):
    return const(p.const() // q.const())
  d = p.div(q)
  if d is not None:
    return d
  # whole multiples of the divisor come out of the quotient
  if q.const():
    n = q.const()
    whole = Poly({k: c // n for k, c in p.m.items() if k and c % n == 0})
    rest = Poly({k: c for k, c in p.m.items() if not k or c % n})
    if whole.m:
      c = rest.const()
      if c is not None:
        return whole + const(c // n)
      return whole + atom(f'({rest!r})//{n}')
  return atom(f'({p!r})//({q!r})')


def poly(t, dims=None):
  """The polynomial an integer term denotes, or None."""
  if isinstance(t, bool):
    return None
  if isinstance(t, int):
    return const(t)
  if isinstance(t, K):
    if isinstance(t.v, bool) or not isinstance(t.v, int):
      return None
    return const(t.v)
  if isinstance(t, T):
    if t.op == 'sym':
      return atom(t.args[0]) if t.args[0] in SIZES else None
    if t.op == 'size':
      return t.args[0]
    if t.op == 'binop':
      a, b = poly(t.args[1]), poly(t.args[2])
      if a is None or b is None:
        return None
      o = t.args[0]
      if o == 'Add':
        return a + b
      if o == 'Sub':
        return a - b
      if o == 'Mult':
        return a * b
      if o == 'FloorDiv':
        return floordiv(a, b)
      if o == 'Mod':
        return a - floordiv(a, b) * b
      return None
    if t.op == 'unop' and t.args[0] == 'USub':
      a = poly(t.args[1])
      return None if a is None else -a
    if t.op == 'call' and isinstance(t.args[0], Ext) and t.args[1] and \
        t.args[0].name in ('numpy.prod', 'numpy.product', 'math.prod'):
      xs = seq(t.args[1][0])
      if xs is None:
        return None
      r = ONE
      for x in xs:
        p = poly(x)
        if p is None:
          return None
        r = r * p
      return r
    if t.op == 'call' and isinstance(t.args[0], Ext) and t.args[0].name in (
        'builtins.int', 'numpy.int32', 'numpy.int64', 'operator.index'):
      return poly(t.args[1][0])
    if t.op == 'int' and t.args:
      return poly(t.args[0])
  return None


def parse(text):
  """Sizes written as Python expressions, e.g. 'N, (H+1)//2, 8'."""
  import ast

  def go(n):
    if isinstance(n, ast.Constant):
      return const(n.value)
    if isinstance(n, ast.Name):
      return atom(n.id)
    if isinstance(n, ast.UnaryOp):
      return -go(n.operand)
    a, b = go(n.left), go(n.right)
    return {ast.Add: lambda: a + b, ast.Sub: lambda: a - b,
            ast.Mult: lambda: a * b,
            ast.FloorDiv: lambda: floordiv(a, b)}[type(n.op)]()
  if not text:
    return ()
  t = ast.parse(f'({text},)', mode='eval').body
  return tuple(go(e) for e in t.elts)


def bounds(p):
  """Least and greatest value; symbolic sizes are at least 2."""
  lo = hi = p.m.get((), 0)
  for k, c in p.m.items():
    if not k:
      continue
    least = 1
    for x in k:
      least *= 2 if x.isidentifier() else 0
    if c > 0:
      lo, hi = None if lo is None else lo + c * least, None
    else:
      lo, hi = None, None if hi is None else hi + c * least
  return lo, hi


def term(p):
  """The term the interpreter sees for a size."""
  c = p.const()
  if c is not None:
    return K(c)
  if len(p.m) == 1:
    (k, v), = p.m.items()
    if v == 1 and len(k) == 1 and k[0].isidentifier():
      return T('sym', k[0])
  return T('size', p)


def seq(v):
  """The items of a tuple or list term, or None."""
  if isinstance(v, Tup):
    return list(v.items)
  if isinstance(v, K) and isinstance(v.v, (tuple, list)):
    return [K(x) for x in v.v]
  if isinstance(v, Obj) and v.kind == 'list' and v.items is not None and all(
      e[0] == 'v' and not e[-1] for e in v.items):
    return [e[1] for e in v.items]
  if isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], Ext) and \
      v.args[0].name in ('numpy.array', 'numpy.asarray') and v.args[1]:
    return seq(v.args[1][0])
  if isinstance(v, T) and v.op == 'range' and all(
      isinstance(x, K) for x in v.args):
    return [K(i) for i in range(*[x.v for x in v.args])]
  if isinstance(v, T) and v.op in ('tuple', 'list') and len(v.args) == 1:
    return seq(v.args[0])
  if isinstance(v, T) and v.op == 'seq':
    out = []
    for e in v.args[0]:
      if e[-1]:
        return None
      if e[0] == 'spread':
        s = seq(e[1])
        if s is None:
          return None
        out.extend(s)
      else:
        out.append(e[1])
    return out
  return None


# ------------------------------------------------------------------ dtypes
WEAK = {bool: 'bool', int: 'weak int', float: 'weak float',
        complex: 'weak complex'}
INTS = ('int8', 'int16', 'int32', 'int64', 'uint8', 'uint32', 'uint64')
FLOATS = ('float32', 'float16', 'bfloat16', 'float64')


def is_float(d):
  return d is not None and (d in FLOATS or d.startswith('$') or
                            d == 'weak float')


def promote(a, b):
  if a is None or b is None:
    return None
  if a == b:
    return a
  rank = lambda d: (0 if d == 'bool' else 1 if d == 'weak int' else
                    2 if d in INTS else 3 if d == 'weak float' else 4)
  if rank(a) < rank(b):
    a, b = b, a
  if rank(a) == rank(b):
    return f'promotion of {min(a, b)} and {max(a, b)}' if rank(a) == 4 else a
  if rank(a) == 3 and b in INTS:
    return 'float32'
  return a


def dtype_name(v):
  """dtype of a dtype-valued term."""
  if v is None or v == NONE:
    return None
  if isinstance(v, Ext):
    n = v.name.rsplit('.', 1)[-1]
    n = {'bool_': 'bool', 'float': 'float32', 'int': 'int32',
         'float_': 'float32', 'int_': 'int32', 'float64': 'float32',
         'int64': 'int32'}.get(n, n)
    return n if n in INTS + FLOATS + ('bool',) else None
  if isinstance(v, K) and isinstance(v.v, str):
    return v.v
  if isinstance(v, T) and v.op == 'dtype':
    return v.args[0]
  return None


class Info:
  __slots__ = ('shape', 'dtype', 'batch')

  def __init__(self, shape, dtype, batch=None):
    self.shape = None if shape is None else tuple(shape)
    self.dtype = dtype
    self.batch = batch

  @property
  def ndim(self):
    return None if self.shape is None else len(self.shape)

  def __repr__(self):
    return (f'shape {list(self.shape) if self.shape is not None else "?"}, '
            f'dtype {self.dtype}, batch {self.batch}')


def size(shape):
  r = ONE
  for d in shape:
    r = r * d
  return r


class Unknown(Exception):
  pass


# A batch position is (axis, before, after): the axis has before*N*after
# entries and example i owns those whose middle index is i.
def at(axis):
  return (axis, ONE, ONE)


def move(b, axis):
  return b if b is None or b == MIX else (axis, b[1], b[2])


def join(bs):
  bs = [b for b in bs if b is not None]
  if not bs:
    return None
  return bs[0] if all(b == bs[0] for b in bs) else MIX


def any_batch(bs):
  """Values that depend on examples are combined as a whole."""
  return MIX if any(b is not None for b in bs) else None


ELEMENTWISE = set('''relu sigmoid swish silu gelu elu softplus tanh exp sqrt
square abs absolute log log1p expm1 sin cos sign floor ceil round rsqrt
reciprocal negative leaky_relu relu6 selu celu hard_tanh soft_sign
logistic stop_gradient nan_to_num clip is_finite isfinite isnan isinf
optimization_barrier fabs neg erf erf_inv'''.split())
BINARY = set('''add subtract multiply divide true_divide maximum minimum power
sub mul div max min pow floor_divide mod remainder logaddexp'''.split())
COMPARE = set('''equal not_equal less less_equal greater greater_equal
logical_and logical_or logical_not eq ne lt le gt ge'''.split())
REDUCE = set('''mean sum var std max min amax amin prod any all argmax argmin
logsumexp nanmean nansum median'''.split())
ALONG = set('''softmax log_softmax cumsum cumprod normalize standardize flip
sort argsort cummax cummin'''.split())


class Arrays:
  """Inference over terms, memoised."""

  def __init__(self, I):
    self.I = I
    self.base = {}
    self.memo = {}
    self.problems = []
    self.types = []
    self.over = {}

  def declare(self, t, shape, dtype, batch=None):
    self.base[t] = Info([poly(d) if not isinstance(d, (str, Poly)) else
                         atom(d) if isinstance(d, str) else d for d in shape],
                        dtype, at(batch) if isinstance(batch, int) else batch)

  def of(self, t):
    if isinstance(t, K):
      if isinstance(t.v, (bool, int, float)):
        return Info((), WEAK[type(t.v)])
      return None
    if isinstance(t, Tup) or isinstance(t, Obj):
      return None
    if not isinstance(t, T):
      return None
    if t in self.base:
      return self.base[t]
    if poly(t) is not None:
      return Info((), 'weak int')
    if t not in self.memo:
      self.memo[t] = None
      try:
        self.memo[t] = self.infer(t)
      except Unknown:
        self.memo[t] = None
    return self.memo[t]

  def is_array(self, t):
    """Is the term known to be an array (and not a Python number)?"""
    return isinstance(t, T) and t.op not in ('size', 'len') and \
        poly(t) is None and self.of(t) is not None

  def pin(self, I, t):
    """Decides conditions on sizes and types."""
    o, a = t.op, t.args
    if o == 'isnone':
      if self.is_array(a[0]) or isinstance(a[0], T) and a[0].op in (
          'dtype', 'size'):
        return False
      return None
    if o == 'isinstance':
      n = getattr(a[1], 'name', '').rsplit('.', 1)[-1]
      if isinstance(a[0], T) and a[0].op == 'size':
        return n == 'int'
      if self.is_array(a[0]):
        return n in ('ndarray', 'Array')
      return None
    if o == 'truthy' and isinstance(a[0], T) and a[0].op == 'call' and \
        isinstance(a[0].args[0], Ext) and a[0].args[0].name.endswith(
            '.issubdtype'):
      d = dtype_name(a[0].args[1][0])
      k = getattr(a[0].args[1][1], 'name', '').rsplit('.', 1)[-1]
      if d is None:
        return None
      return d in INTS if k in ('integer', 'signedinteger') else is_float(
          d) if k in ('floating', 'inexact') else None
    if o == 'truthy' and isinstance(a[0], T) and a[0].op in ('size', 'dtype'):
      return True
    if o == 'is' and any(isinstance(x, T) and x.op == 'dtype' for x in a):
      return None
    if o == 'eq':
      x, y = a
      if isinstance(x, T) and x.op == 'dtype' or isinstance(
          y, T) and y.op == 'dtype':
        x, y = dtype_name(x), dtype_name(y)
        return None if x is None or y is None else x == y
      p, q = poly(x), poly(y)
      if p is not None and q is not None:
        d = (p - q).const()
        return False if d is None else d == 0
      return None
    if o in ('lt', 'le') and len(a) == 2:
      p, q = poly(a[0]), poly(a[1])
      if p is None or q is None:
        return None
      d = q - p
      lo, hi = bounds(d)
      if o == 'lt':
        return True if lo is not None and lo > 0 else \
            False if hi is not None and hi <= 0 else None
      return True if lo is not None and lo >= 0 else \
          False if hi is not None and hi < 0 else None
    return None

  def need(self, t):
    r = self.of(t)
    if r is None or r.shape is None:
      raise Unknown(t)
    return r

  # ------------------------------------------------------------ attributes
  def attr(self, t, name):
    """Value of an attribute for the interpreter, or None."""
    if name not in ('shape', 'ndim', 'dtype', 'size', 'T'):
      return None
    r = self.of(t)
    if r is None:
      return None
    if name == 'dtype':
      return self.dtype_term(r.dtype)
    if r.shape is None:
      return None
    if name == 'shape':
      return Tup([term(d) for d in r.shape])
    if name == 'ndim':
      return K(len(r.shape))
    if name == 'size':
      return term(size(r.shape))
    return T('mcall', t, 'transpose', (), ())

  def length(self, t):
    """Number of items when the term is iterated over, or None."""
    if t.op == 'call' and isinstance(t.args[0], Ext) and t.args[0].name in (
        'jax.numpy.split', 'numpy.split'):
      n = t.args[1][1] if len(t.args[1]) > 1 else dict(t.args[2]).get(
          'indices_or_sections')
      s = seq(n)
      if s is not None:
        return len(s) + 1
      p = poly(n)
      return p.const() if p is not None else None
    if t.op == 'call' and isinstance(t.args[0], Ext) and \
        t.args[0].name == 'jax.random.split':
      return None
    r = self.of(t)
    return r.shape[0].const() if r is not None and r.shape else None

  def size_term(self, p):
    return term(p)

  def dtype_term(self, d):
    if d is None:
      return None
    d = {'weak int': 'int32', 'weak float': 'float32'}.get(d, d)
    return T('dtype', d)

  # ------------------------------------------------------------- inference
  def infer(self, t):
    o, a = t.op, t.args
    if o in ('treecopy', 'leaf') and isinstance(a[0], V):
      return self.of(a[0])
    if o == 'carry':
      r = self.of(a[0])
      if r is not None and t in self.over:
        r = Info(r.shape, r.dtype, self.over[t])
      return r
    if o == 'ite':
      x, y = self.of(a[1]), self.of(a[2])
      if x is None or y is None or x.shape != y.shape:
        return None
      return Info(x.shape, promote(x.dtype, y.dtype), join(
          [x.batch, y.batch]))
    if o == 'binop':
      x, y = self.need(a[1]), self.need(a[2])
      if a[0] == 'MatMult':
        return self.matmul2(x, y)
      if a[0] in ('Add', 'Sub', 'Mult', 'Div', 'Pow', 'FloorDiv', 'Mod',
                  'BitAnd', 'BitOr', 'BitXor'):
        d = promote(x.dtype, y.dtype)
        if a[0] == 'Div' and d is not None and not is_float(d):
          d = 'float32' if 'weak' not in d else 'weak float'
        return self.broadcast([x, y], d)
      return None
    if o == 'unop':
      r = self.need(a[1])
      return Info(r.shape, 'bool' if a[0] == 'Not' else r.dtype, r.batch)
    if o == 'not' and len(a) == 1:
      r = self.need(a[0])
      return Info(r.shape, 'bool', r.batch)
    if o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(a) == 2:
      return self.broadcast([self.need(a[0]), self.need(a[1])], 'bool')
    if o == 'size' or o == 'len':
      return Info((), 'weak int')
    if o == 'getitem':
      return self.getitem(t)
    if o == 'slice_of':
      x = self.need(a[0])
      if not x.shape:
        raise Unknown(t)
      return Info(x.shape[1:], x.dtype, self.drop(x, [0]))
    if o == 'stacked':
      return self.stacked(t)
    if o == 'attr' and a[1] == 'T':
      return self.transpose(self.need(a[0]), None)
    if o == 'attr' and a[1] in ('size', 'ndim'):
      return Info((), 'weak int')
    if o == 'max' or o == 'min':
      xs = [self.need(x) for x in a]
      d = xs[0].dtype
      for x in xs[1:]:
        d = promote(d, x.dtype)
      if any(x.shape for x in xs):
        raise Unknown(t)
      return Info((), d, join([x.batch for x in xs]))
    if o == 'mcall':
      return self.method(t)
    if o in ('call', 'callm') and isinstance(a[0], Ext):
      return self.call(a[0].name, list(a[1]), dict(a[2]) if len(
          a) > 2 and isinstance(a[2], tuple) else {}, t)
    return None

  def stacked(self, t):
    x = self.need(t.args[0])
    L = t.args[1]
    xs = L.args[1].args[0] if isinstance(L.args[1], T) else None
    n = None
    for s in self.leaves(xs):
      i = self.of(s)
      if i is not None and i.shape:
        n = i.shape[0]
        break
    if n is None:
      raise Unknown(t)
    return Info((n,) + x.shape, x.dtype, x.batch if x.batch in (
        None, MIX) else move(x.batch, x.batch[0] + 1))

  def leaves(self, v):
    s = seq(v)
    if s is not None:
      return [y for x in s for y in self.leaves(x)]
    return [v]

  def broadcast(self, infos, dtype):
    n = max(len(i.shape) for i in infos)
    out = []
    for k in range(n):
      d = ONE
      for i in infos:
        j = k - (n - len(i.shape))
        if j < 0:
          continue
        x = i.shape[j]
        if x == ONE:
          continue
        if d == ONE:
          d = x
        elif d != x:
          self.clash(f'sizes {d!r} and {x!r} do not match')
          raise Unknown()
      out.append(d)
    bs = [move(i.batch, i.batch[0] + n - len(i.shape)) if i.batch not in (
        None, MIX) else i.batch for i in infos]
    return Info(out, dtype, join(bs))

  def clash(self, msg):
    self.problems.append(msg)

  def alike(self, fn, infos):
    """jax.lax does not promote: the element types have to be the same."""
    ds = {{'weak float': 'float32', 'weak int': 'int32'}.get(i.dtype, i.dtype)
          for i in infos}
    if None not in ds and len(ds) > 1:
      m = f'jax.lax.{fn} is given the types {", ".join(sorted(ds))}'
      if m not in self.types:
        self.types.append(m)

  def axes(self, v, n):
    """Normalised axes of a reduction."""
    if v is None or v == NONE:
      return list(range(n))
    s = seq(v)
    if s is None:
      s = [v]
    out = []
    for x in s:
      p = poly(x)
      c = p.const() if p is not None else None
      if c is None:
        raise Unknown(v)
      if not -n <= c < n:
        raise Unknown(v)
      out.append(c % n)
    return out

  def drop(self, x, axes):
    """Batch position after the axes are removed."""
    if x.batch in (None, MIX):
      return x.batch
    if x.batch[0] in axes:
      return MIX
    return move(x.batch, x.batch[0] - sum(1 for a in axes if a < x.batch[0]))

  def reduce(self, x, axis, keep, dtype):
    ax = self.axes(axis, len(x.shape))
    b = x.batch
    if b not in (None, MIX) and b[0] in ax:
      b = MIX
    if keep:
      return Info([ONE if i in ax else d for i, d in enumerate(x.shape)],
                  dtype, b)
    return Info([d for i, d in enumerate(x.shape) if i not in ax], dtype,
                self.drop(x, ax))

  def transpose(self, x, perm):
    n = len(x.shape)
    if perm is None:
      perm = list(range(n))[::-1]
    b = x.batch
    if b not in (None, MIX):
      b = move(b, perm.index(b[0]))
    return Info([x.shape[p] for p in perm], x.dtype, b)

  def reshape(self, x, dims):
    ps = [poly(d) for d in dims]
    if any(p is None for p in ps):
      raise Unknown()
    total = size(x.shape)
    hole = [i for i, p in enumerate(ps) if p.const() == -1]
    if len(hole) > 1:
      raise Unknown()
    if hole:
      rest = ONE
      for i, p in enumerate(ps):
        if i != hole[0]:
          rest = rest * p
      q = total.div(rest)
      if q is None:
        q = floordiv(total, rest)
      ps[hole[0]] = q
    elif size(ps) != total:
      self.clash(f'a value of {total!r} entries is reshaped to {ps}')
    b = x.batch
    if b not in (None, MIX):
      axis, pre, post = b
      left = size(x.shape[:axis]) * pre
      n = x.shape[axis].div(pre)
      n = None if n is None else n.div(post)
      b = MIX
      if n is not None:
        right = post * size(x.shape[axis + 1:])
        for j, p in enumerate(ps):
          l = left.div(size(ps[:j]))
          r = right.div(size(ps[j + 1:]))
          if l is not None and r is not None and l * n * r == p:
            b = (j, l, r)
            break
    return Info(ps, x.dtype, b)

  def matmul(self, x, y, dtype=None):
    d = promote(x.dtype, y.dtype)
    if len(x.shape) == 0 or len(y.shape) == 0:
      raise Unknown()
    k = len(x.shape) - 1
    j = len(y.shape) - 2 if len(y.shape) > 1 else 0
    if x.shape[k] != y.shape[j]:
      self.clash(f'sizes {x.shape[k]!r} and {y.shape[j]!r} are contracted')
    bx, by = self.drop(x, [k]), self.drop(y, [j])
    xs = [s for i, s in enumerate(x.shape) if i != k]
    ys = [s for i, s in enumerate(y.shape) if i != j]
    return xs, ys, bx, by, d

  def dot(self, x, y):
    xs, ys, bx, by, d = self.matmul(x, y)
    if not isinstance(by, str) and by is not None:
      by = move(by, by[0] + len(xs))
    return Info(xs + ys, d, join([bx, by]))

  def matmul2(self, x, y):
    if len(x.shape) == 2 and len(y.shape) <= 2 or len(y.shape) <= 2:
      return self.dot(x, y)
    if len(x.shape) == 1:
      raise Unknown()
    # batched
    nb = max(len(x.shape), len(y.shape)) - 2
    ox = Info(x.shape[:-2] + (ONE, ONE), x.dtype, x.batch)
    oy = Info(y.shape[:-2] + (ONE, ONE), y.dtype, y.batch)
    lead = self.broadcast([Info(ox.shape, None), Info(oy.shape, None)], None)
    bs = []
    for i, keep in ((x, len(x.shape) - 2), (y, len(y.shape) - 1)):
      b = i.batch
      if b not in (None, MIX):
        off = nb + 2 - len(i.shape)
        if b[0] < len(i.shape) - 2 or b[0] == keep:
          b = move(b, b[0] + off)
        else:
          b = MIX
      bs.append(b)
    return Info(lead.shape[:-2] + (x.shape[-2], y.shape[-1]), promote(
        x.dtype, y.dtype), join(bs))

  def einsum(self, spec, xs):
    spec = spec.replace(' ', '')
    if '->' not in spec:
      raise Unknown()
    lhs, out = spec.split('->')
    ins = lhs.split(',')
    if len(ins) != len(xs):
      raise Unknown()
    dims, ell = {}, ()
    bs = []
    for s, x in zip(ins, xs):
      names = list(s.replace('...', '.'))
      n = len(x.shape) - (len(names) - names.count('.'))
      full = []
      for c in names:
        if c == '.':
          full.extend(f'.{i - n}' for i in range(n))
        else:
          full.append(c)
      if len(full) != len(x.shape):
        raise Unknown()
      for c, d in zip(full, x.shape):
        if c in dims and dims[c] != d and ONE not in (d, dims[c]):
          self.clash(f'sizes {dims[c]!r} and {d!r} are contracted')
        if c not in dims or dims[c] == ONE:
          dims[c] = d
      if '.' in s and n > len(ell):
        ell = tuple(f'.{i - n}' for i in range(n))
      bs.append((x.batch, full))
    o = []
    for c in list(out.replace('...', '.')):
      if c == '.':
        o.extend(ell)
      else:
        o.append(c)
    res = []
    for b, full in bs:
      if b in (None, MIX):
        res.append(b)
      elif full[b[0]] in o:
        res.append(move(b, o.index(full[b[0]])))
      else:
        res.append(MIX)
    d = xs[0].dtype
    for x in xs[1:]:
      d = promote(d, x.dtype)
    return Info([dims[c] for c in o], d, join(res))

  # -------------------------------------------------------------- indexing
  def getitem(self, t):
    v, k = t.args[0], t.args[1]
    if isinstance(v, T) and v.op == 'call' and v.args[0] in (
        Ext('jax.numpy.linalg.qr'), Ext('jax.lax.linalg.qr')) and len(
            v.args[1]) == 1 and not v.args[2] and k in (K(0), K(1)):
      x = self.need(v.args[1][0])
      if len(x.shape) != 2 or None in (x.shape[0].const(),
                                       x.shape[1].const()):
        raise Unknown(t)
      m = min(x.shape, key=lambda p: p.const())
      return Info((x.shape[0], m) if k.v == 0 else (m, x.shape[1]), x.dtype)
    if isinstance(v, T) and v.op == 'call' and isinstance(
        v.args[0], Ext) and v.args[0].name.endswith('.split') and \
        not v.args[0].name.startswith('jax.random'):
      x = self.need(v.args[1][0])
      kw = dict(v.args[2])
      n = v.args[1][1] if len(v.args[1]) > 1 else kw.get(
          'indices_or_sections')
      ax = v.args[1][2] if len(v.args[1]) > 2 else kw.get('axis', K(0))
      ax = self.axes(ax, len(x.shape))[0]
      s = seq(n)
      if s is not None:
        ps = [poly(y) for y in s]
        i = poly(k)
        if any(p is None for p in ps) or i is None or i.const() is None:
          raise Unknown(t)
        i = i.const()
        if not 0 <= i <= len(ps):
          raise Unknown(t)
        lo = ps[i - 1] if i else ZERO
        hi = ps[i] if i < len(ps) else x.shape[ax]
        d = hi - lo
      else:
        n = poly(n)
        if n is None:
          raise Unknown(t)
        d = x.shape[ax].div(n) or floordiv(x.shape[ax], n)
      b = x.batch
      if b not in (None, MIX) and b[0] == ax:
        b = MIX
      return Info([d if i == ax else s for i, s in enumerate(x.shape)],
                  x.dtype, b)
    if isinstance(v, T) and v.op == 'call' and isinstance(
        v.args[0], Ext) and v.args[0].name == 'jax.random.split':
      return Info((const(2),), 'uint32')
    if isinstance(v, T) and v.op == 'call' and isinstance(
        v.args[0], Ext) and v.args[0].name in (
            'jax.numpy.broadcast_arrays', 'jax.numpy.meshgrid'):
      raise Unknown(t)
    if isinstance(v, T) and v.op in ('attr', 'mcall') and v.args[1] == 'at':
      raise Unknown(t)
    x = self.need(v)
    ks = list(k.items) if isinstance(k, Tup) else [K(y) for y in k.v] \
        if isinstance(k, K) and isinstance(k.v, tuple) else [k]
    def is_ell(y):
      return isinstance(y, K) and y.v is Ellipsis or isinstance(
          y, Ext) and y.name.endswith('Ellipsis')
    def is_new(y):
      return y == NONE or isinstance(y, Ext) and y.name.endswith('newaxis')
    used = sum(1 for y in ks if not is_ell(y) and not is_new(y))
    if any(is_ell(y) for y in ks):
      i = [is_ell(y) for y in ks].index(True)
      ks = ks[:i] + [K(slice(None))] * (len(x.shape) - used) + ks[i + 1:]
    else:
      ks = ks + [K(slice(None))] * (len(x.shape) - used)
    out, b, adv = [], x.batch if x.batch in (None, MIX) else MIX, []
    extra = []
    j = 0
    for y in ks:
      if is_new(y):
        out.append(ONE)
        continue
      if j >= len(x.shape):
        raise Unknown(t)
      mine = x.batch not in (None, MIX) and x.batch[0] == j
      if isinstance(y, K) and isinstance(y.v, slice) or isinstance(
          y, T) and y.op == 'slice':
        lo, hi, st = (K(y.v.start), K(y.v.stop), K(y.v.step)) if isinstance(
            y, K) else y.args
        if (lo, hi, st) == (NONE, NONE, NONE):
          if mine:
            b = move(x.batch, len(out))
          out.append(x.shape[j])
        elif (lo, hi) == (NONE, NONE) and st == K(-1):
          if mine:
            b = MIX
          out.append(x.shape[j])
        else:
          if st not in (NONE, K(1)):
            raise Unknown(t)
          n = x.shape[j]
          p = ZERO if lo == NONE else poly(lo)
          q = n if hi == NONE else poly(hi)
          if p is None or q is None:
            raise Unknown(t)
          p = p + n if p.const() is not None and p.const() < 0 else p
          q = q + n if q.const() is not None and q.const() < 0 else q
          if n.const() is not None and q.const() is not None:
            q = const(min(n.const(), q.const()))
          out.append(q - p)
          if mine:
            b = MIX
      elif isinstance(y, K) and isinstance(y.v, int) or poly(
          y) is not None and self.of(y) is None or isinstance(
              y, T) and y.op == 'size':
        if mine:
          b = MIX
      else:
        i = self.need(y)
        if i.shape == ():
          if mine:
            b = MIX
          extra.append(i.batch)
        else:
          adv.append((i, len(out), mine))
          if mine:
            b = MIX
      j += 1
    if len(adv) == 1:
      i, pos, mine = adv[0]
      if i.dtype == 'bool':
        raise Unknown(t)
      nb = b if b in (None, MIX) else move(
          b, b[0] + (len(i.shape) if b[0] >= pos else 0))
      ib = i.batch if i.batch in (None, MIX) else move(i.batch,
                                                       i.batch[0] + pos)
      out[pos:pos] = list(i.shape)
      b = join([nb, ib])
    elif adv:
      raise Unknown(t)
    if any(e is not None for e in extra):
      b = MIX
    return Info(out, x.dtype, b)

  # --------------------------------------------------------------- methods
  def method(self, t):
    a = t.args
    name = a[1].v if isinstance(a[1], K) else a[1]
    args = list(a[2]) if len(a) > 2 else []
    kw = dict(a[3]) if len(a) > 3 and isinstance(a[3], tuple) else {}
    x = self.need(a[0])
    if name == 'astype':
      d = dtype_name(args[0] if args else kw.get('dtype'))
      if d is None:
        raise Unknown(t)
      return Info(x.shape, d, x.batch)
    if name == 'reshape':
      s = seq(args[0]) if len(args) == 1 else None
      return self.reshape(x, s if s is not None else args)
    if name == 'transpose':
      s = seq(args[0]) if len(args) == 1 else args or None
      return self.transpose(x, None if not args else self.axes(
          Tup(s), len(x.shape)))
    if name in REDUCE or name in ('mean', 'sum'):
      return self.call('jax.numpy.' + name, [a[0]] + args, kw, t)
    if name == 'swapaxes':
      return self.call('jax.numpy.swapaxes', [a[0]] + args, kw, t)
    if name in ('copy', 'block_until_ready'):
      return x
    if name in ('flatten', 'ravel'):
      return self.reshape(x, [K(-1)])
    raise Unknown(t)

  # ----------------------------------------------------------------- calls
  def call(self, name, args, kw, t):
    mod, _, fn = name.rpartition('.')
    np = mod == 'numpy' or mod.startswith('numpy.')
    arg = lambda i, k, d=None: args[i] if len(args) > i else kw.get(k, d)
    if mod == 'jax.random':
      return self.random(fn, arg, t)
    if not mod.startswith(('jax', 'numpy')):
      return None
    if fn in ('zeros', 'ones', 'empty', 'full'):
      s = seq(arg(0, 'shape'))
      if s is None:
        p = poly(arg(0, 'shape'))
        s = None if p is None else [arg(0, 'shape')]
      if s is None or any(poly(d) is None for d in s):
        raise Unknown(t)
      i = 2 if fn == 'full' else 1
      dt = arg(i, 'dtype')
      d = dtype_name(dt)
      if d is None and (dt is None or dt == NONE):
        d = 'float32'
        if fn == 'full':
          f = self.need(arg(1, 'fill_value'))
          d = {'weak float': 'float32', 'weak int': 'int32'}.get(
              f.dtype, f.dtype)
      b = any_batch([self.need(arg(1, 'fill_value')).batch]) \
          if fn == 'full' else None
      return Info([poly(d_) for d_ in s], d, b)
    if fn in ('zeros_like', 'ones_like', 'full_like', 'empty_like'):
      x = self.need(arg(0, 'a'))
      d = dtype_name(arg(2 if fn == 'full_like' else 1, 'dtype')) or x.dtype
      return Info(x.shape, {'weak float': 'float32', 'weak int': 'int32'}.get(
          d, d), None)
    if fn == 'device_put':
      return self.need(args[0])
    if fn in ('asarray', 'array', 'stop_gradient'):
      s = seq(args[0])
      if s is not None:
        xs = [self.of(y) for y in s]
        if any(x is None or x.shape != () for x in xs):
          raise Unknown(t)
        d = 'float32' if any(is_float(x.dtype) for x in xs) else 'int32'
        return Info([const(len(xs))], dtype_name(arg(1, 'dtype')) or d,
                    any_batch([x.batch for x in xs]))
      x = self.need(args[0])
      d = dtype_name(arg(1, 'dtype'))
      if d is None:
        d = x.dtype
        if np or mod == 'jax.numpy':
          d = d if not np else {'weak float': 'float32', 'weak int': 'int32'
                                }.get(d, d)
      return Info(x.shape, d, x.batch)
    if fn == 'convert_element_type':
      x = self.need(args[0])
      d = dtype_name(arg(1, 'new_dtype'))
      if d is None:
        raise Unknown(t)
      return Info(x.shape, d, x.batch)
    if fn in ('float32', 'float16', 'bfloat16', 'int32', 'int64', 'float64',
              'uint32', 'uint8'):
      x = self.need(args[0])
      return Info(x.shape, dtype_name(Ext(name)), x.batch)
    if fn in ELEMENTWISE and args:
      x = self.need(args[0])
      d = x.dtype
      if fn not in ('abs', 'absolute', 'negative', 'clip', 'sign', 'square',
                    'relu', 'stop_gradient', 'neg', 'relu6') and \
          d is not None and not is_float(d):
        d = 'float32'
      if np and d in ('weak float', 'weak int'):
        d = 'float32'
      if fn in ('isfinite', 'isnan', 'isinf', 'is_finite'):
        d = 'bool'
      if fn == 'clip' or fn == 'nan_to_num':
        rest = [self.of(y) for y in args[1:] + list(kw.values())]
        if any(r is not None and r.shape != () for r in rest):
          raise Unknown(t)
      if x.dtype == 'weak float' and mod == 'jax.nn':
        d = 'weak float'
      return Info(x.shape, d, x.batch)
    if fn in BINARY and len(args) >= 2 and (mod != 'jax.numpy' or fn not in (
        'max', 'min', 'sub', 'mul', 'div', 'pow')):
      xs = [self.need(y) for y in args[:2]]
      if mod == 'jax.lax' and fn not in ('pow',):
        self.alike(fn, xs)
      d = promote(xs[0].dtype, xs[1].dtype)
      if fn in ('divide', 'true_divide', 'div') and d is not None and \
          not is_float(d) and mod != 'jax.lax':
        d = 'float32'
      return self.broadcast(xs, d)
    if fn in COMPARE:
      return self.broadcast([self.need(y) for y in args], 'bool')
    if fn in ('where', 'select'):
      xs = [self.need(y) for y in args]
      if len(xs) != 3:
        raise Unknown(t)
      if mod == 'jax.lax':
        self.alike(fn, xs[1:])
      return self.broadcast(xs, promote(xs[1].dtype, xs[2].dtype))
    if fn in REDUCE and mod != 'jax.lax':
      x = self.need(args[0])
      ax = arg(1, 'axis')
      d = x.dtype
      if fn in ('mean', 'var', 'std') and d is not None and not is_float(d):
        d = 'float32'
      if fn in ('argmax', 'argmin'):
        d = 'int32'
      if fn in ('any', 'all'):
        d = 'bool'
      if kw.get('dtype') is not None and kw['dtype'] != NONE:
        d = dtype_name(kw['dtype'])
      keep = kw.get('keepdims', FALSE)
      return self.reduce(x, ax, keep == TRUE, d)
    if fn == 'psum' or fn == 'pmean':
      x = self.need(args[0])
      return Info(x.shape, x.dtype, x.batch)
    if fn in ALONG:
      x = self.need(args[0])
      ax = arg(1, 'axis', K(-1) if mod == 'jax.nn' or fn in (
          'sort', 'argsort') else None)
      axes = self.axes(ax, len(x.shape))
      b = x.batch
      if b not in (None, MIX) and b[0] in axes:
        b = MIX
      d = x.dtype
      if fn == 'argsort':
        d = 'int32'
      return Info(x.shape, d, b)
    if fn == 'reshape':
      x = self.need(args[0])
      s = seq(arg(1, 'newshape', kw.get('new_sizes', kw.get('shape'))))
      if s is None:
        s = [args[1]]
      return self.reshape(x, s)
    if fn in ('ravel', 'flatten'):
      return self.reshape(self.need(args[0]), [K(-1)])
    if fn in ('transpose', 'permute_dims'):
      x = self.need(args[0])
      p = arg(1, 'axes', kw.get('permutation'))
      return self.transpose(x, None if p is None or p == NONE else self.axes(
          p, len(x.shape)))
    if fn == 'swapaxes':
      x = self.need(args[0])
      i = self.axes(arg(1, 'axis1'), len(x.shape))[0]
      j = self.axes(arg(2, 'axis2'), len(x.shape))[0]
      p = list(range(len(x.shape)))
      p[i], p[j] = p[j], p[i]
      return self.transpose(x, p)
    if fn == 'moveaxis':
      x = self.need(args[0])
      i = self.axes(arg(1, 'source'), len(x.shape))
      j = self.axes(arg(2, 'destination'), len(x.shape))
      if len(i) != 1 or len(j) != 1:
        raise Unknown(t)
      p = [a for a in range(len(x.shape)) if a != i[0]]
      p.insert(j[0], i[0])
      return self.transpose(x, p)
    if fn == 'expand_dims':
      x = self.need(args[0])
      s = seq(arg(1, 'axis', kw.get('dimensions')))
      s = [arg(1, 'axis')] if s is None else s
      n = len(x.shape) + len(s)
      new = self.axes(Tup(s), n)
      old = [i for i in range(n) if i not in new]
      return Info([ONE if i in new else x.shape[old.index(i)]
                   for i in range(n)], x.dtype, move(
                       x.batch, old[x.batch[0]]) if x.batch not in (
                           None, MIX) else x.batch)
    if fn == 'squeeze':
      x = self.need(args[0])
      ax = arg(1, 'axis')
      if ax is None or ax == NONE:
        axes = [i for i, d in enumerate(x.shape) if d == ONE]
      else:
        axes = self.axes(ax, len(x.shape))
      return Info([d for i, d in enumerate(x.shape) if i not in axes],
                  x.dtype, self.drop(x, axes))
    if fn == 'broadcast_to':
      x = self.need(args[0])
      s = seq(arg(1, 'shape'))
      if s is None:
        raise Unknown(t)
      ps = [poly(d) for d in s]
      if any(p is None for p in ps):
        raise Unknown(t)
      r = self.broadcast([x, Info(ps, x.dtype)], x.dtype)
      return r
    if fn == 'broadcast_to_rank':
      x = self.need(args[0])
      n = poly(arg(1, 'rank'))
      if n is None or n.const() is None:
        raise Unknown(t)
      k = n.const() - len(x.shape)
      return Info((ONE,) * k + x.shape, x.dtype, move(
          x.batch, x.batch[0] + k) if x.batch not in (None, MIX) else x.batch)
    if fn in ('concatenate', 'stack', 'hstack'):
      s = seq(args[0])
      if s is None or fn == 'hstack' or not s:
        raise Unknown(t)
      xs = [self.need(y) for y in s]
      n = len(xs[0].shape)
      if any(len(x.shape) != n for x in xs):
        raise Unknown(t)
      d = xs[0].dtype
      for x in xs[1:]:
        d = promote(d, x.dtype)
      ax = self.axes(arg(1, 'axis', K(0)), n + (fn == 'stack'))[0]
      b = join([x.batch for x in xs])
      if fn == 'stack':
        sh = list(xs[0].shape)
        sh.insert(ax, const(len(xs)))
        if b not in (None, MIX):
          b = move(b, b[0] + (b[0] >= ax))
        return Info(sh, d, b)
      if b not in (None, MIX) and b[0] == ax and len(xs) > 1:
        b = MIX
      sh = list(xs[0].shape)
      for x in xs[1:]:
        for i in range(n):
          if i == ax:
            sh[i] = sh[i] + x.shape[i]
          elif sh[i] != x.shape[i]:
            self.clash(f'sizes {sh[i]!r} and {x.shape[i]!r} are concatenated')
      return Info(sh, d, b)
    if fn in ('dot', 'tensordot') and len(args) >= 2:
      if fn == 'tensordot':
        raise Unknown(t)
      return self.dot(self.need(args[0]), self.need(args[1]))
    if fn == 'matmul':
      return self.matmul2(self.need(args[0]), self.need(args[1]))
    if fn == 'einsum':
      if not isinstance(args[0], K):
        raise Unknown(t)
      return self.einsum(args[0].v, [self.need(y) for y in args[1:]])
    if fn == 'one_hot':
      x = self.need(args[0])
      n = poly(arg(1, 'num_classes'))
      if n is None:
        raise Unknown(t)
      ax = arg(3, 'axis', kw.get('axis', K(-1)))
      if ax != K(-1):
        raise Unknown(t)
      dt = arg(2, 'dtype')
      return Info(x.shape + (n,), dtype_name(dt) if dt is not None and
                  dt != NONE else 'float32', x.batch)
    if fn == 'diag' and len(args) == 1 and len(self.need(args[0]).shape) == 2:
      x = self.need(args[0])
      n, m = x.shape
      if n.const() is None or m.const() is None:
        if n != m:
          raise Unknown(t)
      return Info((n if n == m or n.const() < m.const() else m,), x.dtype)
    if fn == 'eye':
      n = poly(args[0])
      m = args[1] if len(args) > 1 else kw.get('M', NONE)
      m = n if m == NONE else poly(m)
      if None in (n, m):
        raise Unknown(t)
      return Info((n, m), dtype_name(kw.get('dtype')) or 'float32')
    if fn == 'arange':
      p = poly(args[0])
      if len(args) != 1 or p is None:
        raise Unknown(t)
      return Info((p,), dtype_name(kw.get('dtype')) or 'int32')
    if fn == 'tril':
      return self.need(args[0])
    if fn == 'take':
      x, i = self.need(args[0]), self.need(arg(1, 'indices'))
      ax = self.axes(arg(2, 'axis'), len(x.shape))
      if len(ax) != 1 or x.batch is not None:
        raise Unknown(t)
      a = ax[0]
      return Info(x.shape[:a] + i.shape + x.shape[a + 1:], x.dtype, move(
          i.batch, i.batch[0] + a) if i.batch not in (None, MIX) else i.batch)
    if fn == 'split':
      return None
    if fn == 'tile' or fn == 'repeat':
      raise Unknown(t)
    if fn in ('sqrt', 'prod'):
      pass
    if fn in ('conv_general_dilated', 'conv'):
      return self.conv(arg, kw, t)
    if fn == 'conv_transpose':
      return self.conv_t(arg, kw, t)
    if fn == 'reduce_window':
      return self.window(arg, kw, t)
    if fn == 'pad':
      return self.padded(mod, arg, kw, t)
    raise Unknown(t)

  def padded(self, mod, arg, kw, t):
    x = self.need(arg(0, 'array'))
    w = seq(arg(1, 'pad_width'))
    if mod == 'jax.lax' or w is None or len(w) != len(x.shape):
      raise Unknown(t)
    sh = []
    for d, p in zip(x.shape, w):
      p = seq(p)
      ps = [poly(q) for q in p] if p else [None]
      if None in ps or len(ps) != 2:
        raise Unknown(t)
      sh.append(d + ps[0] + ps[1])
    b = x.batch
    if b not in (None, MIX) and sh[b[0]] != x.shape[b[0]]:
      b = MIX
    return Info(sh, x.dtype, b)

  def random(self, fn, arg, t):
    if fn in ('PRNGKey', 'fold_in', 'key'):
      return Info((const(2),), 'uint32')
    if fn == 'split':
      return None
    pos = {'normal': (1, 2), 'uniform': (1, 2), 'truncated_normal': (3, 4),
           'gumbel': (1, 2), 'orthogonal': (9, 9), 'bernoulli': (2, 9),
           'randint': (1, 4), 'exponential': (1, 2), 'rademacher': (1, 2),
           'laplace': (1, 2), 'cauchy': (1, 2)}
    if fn not in pos:
      raise Unknown(t)
    i, j = pos[fn]
    s = arg(i, 'shape')
    if fn == 'bernoulli' and (s is None or s == NONE):
      p = self.of(arg(1, 'p', K(.5)))
      if p is None:
        raise Unknown(t)
      return Info(p.shape, 'bool', any_batch([p.batch]))
    s = [] if s is None else seq(s)
    if s is None or any(poly(d) is None for d in s):
      raise Unknown(t)
    dt = arg(j, 'dtype')
    d = 'bool' if fn == 'bernoulli' else (
        'int32' if fn == 'randint' else 'float32') if dt is None or \
        dt == NONE else dtype_name(dt)
    return Info([poly(x) for x in s], d, None)

  # ----------------------------------------------------------- convolution
  def spec(self, dn, n):
    """(lhs, rhs, out) axis numbers of a convolution."""
    if isinstance(dn, T) and dn.op == 'call' and isinstance(
        dn.args[0], Ext) and dn.args[0].name.endswith('ConvDimensionNumbers'):
      xs = list(dn.args[1]) + [v for _, v in dn.args[2]]
      kw = dict(dn.args[2])
      get = lambda i, k: dn.args[1][i] if len(dn.args[1]) > i else kw[k]
      out = []
      for i, k in enumerate(('lhs_spec', 'rhs_spec', 'out_spec')):
        s = seq(get(i, k))
        if s is None:
          raise Unknown(dn)
        out.append([poly(x).const() for x in s])
      return out
    s = seq(dn)
    if s is not None and len(s) == 3 and all(
        isinstance(x, K) and isinstance(x.v, str) for x in s):
      out = []
      for i, x in enumerate(s):
        lead = 'OI' if i == 1 else 'NC'
        sp = [c for c in s[0].v if c not in 'NC']
        out.append([x.v.index(c) for c in lead] + [x.v.index(c) for c in sp])
      return out
    if dn is None or dn == NONE:
      r = list(range(n))
      return [r, r, r]
    raise Unknown(dn)

  def ints(self, v, n, default=1):
    if v is None or v == NONE:
      return [const(default)] * n
    s = seq(v)
    if s is None:
      p = poly(v)
      if p is None:
        raise Unknown(v)
      return [p] * n
    ps = [poly(x) for x in s]
    if None in ps or len(ps) != n:
      raise Unknown(v)
    return ps

  def out_size(self, h, k, s, pad, dil):
    eff = (k - ONE) * dil + ONE
    if pad == 'SAME':
      return floordiv(h + s - ONE, s)
    lo, hi = (ZERO, ZERO) if pad == 'VALID' else pad
    return floordiv(h + lo + hi - eff, s) + ONE

  def pads(self, v, n):
    if isinstance(v, K) and isinstance(v.v, str):
      return [v.v] * n
    s = seq(v)
    if s is None or len(s) != n:
      raise Unknown(v)
    out = []
    for x in s:
      y = seq(x)
      if y is None or len(y) != 2:
        raise Unknown(v)
      ps = [poly(z) for z in y]
      if None in ps:
        raise Unknown(v)
      out.append(tuple(ps))
    return out

  def conv(self, arg, kw, t):
    x, w = self.need(arg(0, 'lhs')), self.need(arg(1, 'rhs'))
    n = len(x.shape)
    ls, rs, os = self.spec(arg(6, 'dimension_numbers'), n)
    if sorted(ls) != list(range(n)) or len(w.shape) != n:
      self.clash(f'a convolution of {n} axes with weights of '
                 f'{len(w.shape)} axes')
      raise Unknown(t)
    st = self.ints(arg(2, 'window_strides'), n - 2)
    pad = self.pads(arg(3, 'padding'), n - 2)
    ld = self.ints(arg(4, 'lhs_dilation'), n - 2)
    rd = self.ints(arg(5, 'rhs_dilation'), n - 2)
    groups = poly(arg(7, 'feature_group_count', K(1)))
    if groups is None:
      raise Unknown(t)
    if x.shape[ls[1]] != w.shape[rs[1]] * groups:
      self.clash(f'{x.shape[ls[1]]!r} input channels meet weights for '
                 f'{w.shape[rs[1]] * groups!r}')
    out = [None] * n
    out[os[0]] = x.shape[ls[0]]
    out[os[1]] = w.shape[rs[0]]
    for i in range(n - 2):
      h = (x.shape[ls[i + 2]] - ONE) * ld[i] + ONE
      out[os[i + 2]] = self.out_size(h, w.shape[rs[i + 2]], st[i], pad[i],
                                     rd[i])
    b = x.batch
    if b not in (None, MIX):
      b = move(b, os[0]) if b[0] == ls[0] else MIX
    if w.batch is not None:
      b = MIX
    return Info(out, promote(x.dtype, w.dtype), b)

  def conv_t(self, arg, kw, t):
    x, w = self.need(arg(0, 'lhs')), self.need(arg(1, 'rhs'))
    n = len(x.shape)
    ls, rs, os = self.spec(arg(5, 'dimension_numbers'), n)
    if len(w.shape) != n:
      self.clash('ranks differ in a convolution')
      raise Unknown(t)
    st = self.ints(arg(2, 'strides'), n - 2)
    pad = self.pads(arg(3, 'padding'), n - 2)
    rd = self.ints(arg(4, 'rhs_dilation'), n - 2)
    tr = arg(6, 'transpose_kernel', FALSE) == TRUE
    o, i_ = (rs[1], rs[0]) if tr else (rs[0], rs[1])
    if x.shape[ls[1]] != w.shape[i_]:
      self.clash(f'{x.shape[ls[1]]!r} input channels meet weights for '
                 f'{w.shape[i_]!r}')
    out = [None] * n
    out[os[0]] = x.shape[ls[0]]
    out[os[1]] = w.shape[o]
    for i in range(n - 2):
      h, k, s = x.shape[ls[i + 2]], w.shape[rs[i + 2]], st[i]
      k = (k - ONE) * rd[i] + ONE
      if pad[i] == 'SAME':
        d = h * s
      elif pad[i] == 'VALID':
        extra = k - s
        if extra.const() is None:
          raise Unknown(t)
        d = h * s + const(max(extra.const(), 0))
      else:
        d = (h - ONE) * s + ONE + pad[i][0] + pad[i][1] - k + ONE
      out[os[i + 2]] = d
    b = x.batch
    if b not in (None, MIX):
      b = move(b, os[0]) if b[0] == ls[0] else MIX
    if w.batch is not None:
      b = MIX
    return Info(out, promote(x.dtype, w.dtype), b)

  def window(self, arg, kw, t):
    x = self.need(arg(0, 'operand'))
    n = len(x.shape)
    ws = self.ints(arg(3, 'window_dimensions'), n)
    st = self.ints(arg(4, 'window_strides'), n)
    pad = self.pads(arg(5, 'padding'), n)
    out = [self.out_size(x.shape[i], ws[i], st[i], pad[i], ONE)
           for i in range(n)]
    b = x.batch
    if b not in (None, MIX) and (ws[b[0]] != ONE or st[b[0]] != ONE):
      b = MIX
    i = self.of(arg(1, 'init_value'))
    d = x.dtype
    if i is not None and i.dtype is not None and 'weak' not in i.dtype and \
        i.dtype != d:
      d = promote(d, i.dtype)
    return Info(out, d, b)
