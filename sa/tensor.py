"""Normal forms of array terms in index notation.

An array term is read at symbolic indices and becomes a sum of products of
entries of the inputs, of sums over bound indices and of scalar functions.  Two
terms with the same normal form denote the same array for all inputs; whatever
has no rule raises Unknown and is never decided.
"""
from fractions import Fraction
import itertools

from .arrays import Poly, Unknown, poly, seq, size, const as pconst
from .vals import *

ONE_NF = None
LIMIT = 4000


class NF:
  """Sum of monomials {((atom id, exponent), ...): coefficient}."""
  __slots__ = ('m', '_h')

  def __init__(self, m):
    self.m = {k: c for k, c in m.items() if c != 0}
    if len(self.m) > LIMIT:
      raise Unknown()
    self._h = hash(frozenset(self.m.items()))

  def __eq__(self, o):
    return isinstance(o, NF) and self._h == o._h and self.m == o.m

  def __hash__(self):
    return self._h

  def const(self):
    if not self.m:
      return Fraction(0)
    if len(self.m) == 1 and () in self.m:
      return self.m[()]
    return None

  def __add__(self, o):
    m = dict(self.m)
    for k, c in o.m.items():
      m[k] = m.get(k, 0) + c
    return NF(m)

  def scale(self, f):
    return NF({k: c * f for k, c in self.m.items()})

  def __sub__(self, o):
    return self + o.scale(-1)


def num(v):
  """A number as the simple fraction it rounds, else its decimal form."""
  if isinstance(v, bool):
    v = int(v)
  if isinstance(v, float):
    if v != v or v in (float('inf'), float('-inf')):
      raise Unknown()
    r = Fraction(v).limit_denominator(10 ** 6)
    v = r if r and abs(r - Fraction(v)) * 10 ** 15 < abs(r) else Fraction(
        f'{v:.12g}')
  return NF({(): Fraction(v)})


UNARY = {}
for _names, _to in (
    ('jax.numpy.tanh jax.lax.tanh jax.nn.tanh', 'tanh'),
    ('jax.nn.sigmoid jax.lax.logistic jax.scipy.special.expit', 'sigmoid'),
    ('jax.numpy.exp jax.lax.exp', 'exp'), ('jax.numpy.log jax.lax.log', 'log'),
    ('jax.numpy.sin jax.lax.sin', 'sin'), ('jax.numpy.cos jax.lax.cos', 'cos'),
    ('jax.numpy.floor jax.lax.floor', 'floor'),
    ('jax.numpy.sign jax.lax.sign', 'sign'),
    ('jax.nn.softplus', 'softplus'), ('jax.nn.gelu', 'gelu'),
    ('jax.numpy.log1p jax.lax.log1p', 'log1p')):
  for _n in _names.split():
    UNARY[_n] = _to
SAMEVAL = set('''jax.lax.stop_gradient jax.lax.convert_element_type
jax.numpy.asarray jax.numpy.array numpy.asarray numpy.array jax.lax.optimization_barrier
jax.device_put'''.split())
DRAWS = {
    'normal': ('shape', 'dtype'), 'uniform': ('shape', 'dtype', 'minval',
                                              'maxval'),
    'truncated_normal': ('lower', 'upper', 'shape', 'dtype'),
}
FLOATS = ('float16', 'bfloat16', 'float32', 'float64', '$D', 'weak float',
          'float_', 'float')
BIN = {
    'add': 'Add', 'subtract': 'Sub', 'sub': 'Sub', 'multiply': 'Mult',
    'mul': 'Mult', 'divide': 'Div', 'true_divide': 'Div', 'div': 'Div',
    'power': 'Pow', 'pow': 'Pow', 'float_power': 'Pow',
}
CMP = {'less': 'lt', 'lt': 'lt', 'greater': 'gt', 'gt': 'gt', 'less_equal':
       'le', 'le': 'le', 'greater_equal': 'ge', 'ge': 'ge', 'equal': 'eq',
       'eq': 'eq', 'not_equal': 'ne', 'ne': 'ne'}


def members(groups):
  """Groups of replicas, written as ` in ((0, 2), (1, 3))`."""
  def read(v):
    if isinstance(v, Tup):
      out = tuple(read(x) for x in v.items)
    elif isinstance(v, Obj) and v.kind == 'list' and all(
        e[0] == 'v' and e[2] == () for e in v.items or ()):
      out = tuple(read(e[1]) for e in v.items)
    else:
      return v.v if isinstance(v, K) else None
    return None if None in out else out
  out = read(groups)
  return None if out is None else f' in {out}'


class Tensor:
  """Evaluates terms at symbolic indices."""

  def __init__(self, A, opaque=(), grads=False):
    self.A = A
    self.grads = grads     # tell stopped gradients from flowing ones
    self.rep, self.stopped = None, False
    self.atoms, self.ids = [], {}
    self.bools = set()     # atoms that are 0 or 1
    self.deps, self.lev = [], []
    self.memo = {}
    self.opaque = set(opaque)
    self.used = set()      # opaque operations met
    self.depth = 0
    self.keys = {}
    self.loops = {}        # the iteration a loop is read at (default: last)
    self.anykey = False    # random draws are compared up to the key

  # ----------------------------------------------------------------- atoms
  def atom(self, a, e=1):
    if a not in self.ids:
      self.ids[a] = len(self.atoms)
      self.atoms.append(a)
      self.deps.append(self.free_of(a))
      self.lev.append(self.level_of(a))
      if self.boolean(a):
        self.bools.add(self.ids[a])
    return NF({((self.ids[a], Fraction(e)),): Fraction(1)})

  def boolean(self, a):
    if a[0] == 'fn':
      return a[1] in ('lt', 'eq')
    if a[0] == 'bind':
      return a[1] in ('all', 'any')
    if a[0] == 'op':
      return a[1] == 'bernoulli'
    if a[0] == 'el':
      i = self.A.base.get(T('sym', a[1].split('|')[0]))
      return i is not None and i.dtype == 'bool'
    return False

  def truth(self, x):
    """A normal form that is 0 or 1: is x non-zero?"""
    if x.const() is not None:
      return num(int(x.const() != 0))
    r = self.mul(x, x)
    return x if r == x else num(1) - self.fn('eq', x, num(0))

  def free_of(self, a):
    k = a[0]
    if k == 'v':
      return frozenset([a])
    out = set()
    if k == 'sum':
      out = set(self.free(a[2])) - set(a[1])
      for v in a[1]:
        out |= self.free(v[2])
      return frozenset(out)
    if k == 'bind':
      return frozenset(set(self.free(a[3])) - set(a[2]))
    if k == 'op':
      for x in a[4]:
        out |= self.free(x)
      return frozenset(out)
    for x in a[1:]:
      if isinstance(x, NF):
        out |= self.free(x)
      elif isinstance(x, tuple):
        for y in x:
          if isinstance(y, NF):
            out |= self.free(y)
    return frozenset(out)

  def level_of(self, a):
    l = 0
    for x in a[1:]:
      for y in (x if isinstance(x, tuple) else (x,)):
        if isinstance(y, NF):
          l = max(l, self.level(y))
    return l + 1 if a[0] in ('sum', 'bind') else l

  def free(self, nf):
    out = set()
    for k in nf.m:
      for i, _ in k:
        out |= self.deps[i]
    return out

  def level(self, nf):
    return max([self.lev[i] for k in nf.m for i, _ in k] or [0])

  def var(self, tag, n):
    return self.atom(('v', tag, n))

  # ------------------------------------------------------------ arithmetic
  def mul(self, x, y):
    out = {}
    extra = []
    for k, c in x.m.items():
      for l, d in y.m.items():
        e = {}
        for i, p in k + l:
          e[i] = e.get(i, 0) + p
        grow = []
        for i, p in list(e.items()):
          if p == 0:
            del e[i]
          elif p > 1 and i in self.bools:
            e[i] = Fraction(1)  # true and false are 1 and 0
          elif self.atoms[i][0] == 'poly' and p >= 1 and p.denominator in (
              1, 2):
            n = p.numerator // p.denominator
            grow.append((i, n))
            if p - n == 0:
              del e[i]
            else:
              e[i] = p - n
        mono = tuple(sorted(e.items()))
        if grow:
          r = NF({mono: c * d})
          for i, n in grow:
            for _ in range(n):
              r = self.mul(r, self.atoms[i][1])
          extra.append(r)
        else:
          out[mono] = out.get(mono, 0) + c * d
    r = NF(out)
    for z in extra:
      r = r + z
    return r

  def power(self, x, n):
    if n < 0:
      return self.inv(self.power(x, -n))
    r = num(1)
    for _ in range(n):
      r = self.mul(r, x)
    return r

  def inv(self, x):
    if not x.m:
      raise Unknown()
    if len(x.m) == 1:
      (k, c), = x.m.items()
      return NF({tuple((i, -p) for i, p in k): 1 / c})
    lead = x.m[min(x.m)]
    return self.atom(('poly', x.scale(1 / lead)), -1).scale(1 / lead)

  def frac(self, x, r):
    """x ** r for a fraction r; x is taken to be positive."""
    if r.denominator == 1:
      return self.power(x, int(r))
    c = x.const()
    if c is not None:
      if c == 0 and r > 0:
        return x
      if c <= 0:
        raise Unknown()
      if r.denominator == 2:
        n, d = isqrt(c.numerator), isqrt(c.denominator)
        if n is not None and d is not None:
          return self.power(num(Fraction(n, d)), int(2 * r))
    elif len(x.m) == 1:
      (k, c), = x.m.items()
      if c > 0 and all(self.atoms[i][0] in ('size', 'poly') for i, _ in k):
        r1 = NF({tuple((i, p * r) for i, p in k): Fraction(1)})
        return r1 if c == 1 else self.mul(r1, self.frac(num(c), r))
    whole = r.numerator // r.denominator
    rest = r - whole
    return self.mul(self.power(x, whole), self.atom(('poly', x), rest)) \
        if whole >= 0 else self.atom(('poly', x), r)

  def equal(self, x, y):
    """Equal as rational functions of the atoms."""
    d = x - y
    for _ in range(12):
      low = {}
      for k in d.m:
        for i, p in k:
          if self.atoms[i][0] == 'poly' and p < 0:
            low[i] = min(low.get(i, 0), p)
      if not low:
        break
      i = min(low, key=lambda i: (self.lev[i], i))
      n = -(low[i].numerator // low[i].denominator)
      m = self.atom(self.atoms[i], 1)
      # multiply by p**n: exponents are raised, whole powers are expanded
      out = NF({})
      for k, c in d.m.items():
        e = dict(k)
        p = e.pop(i, Fraction(0)) + n
        whole = p.numerator // p.denominator
        if p - whole:
          e[i] = p - whole
        r = NF({tuple(sorted(e.items())): c})
        for _ in range(whole):
          r = self.mul(r, self.atoms[i][1])
        out = out + r
      d = out
      del m
    return not d.m

  # ---------------------------------------------------------- substitution
  def subst(self, nf, mp, memo=None):
    memo = {} if memo is None else memo
    out = NF({})
    for k, c in nf.m.items():
      r = NF({(): c})
      for i, p in k:
        a = self.sub_atom(i, mp, memo)
        if a is None:
          r = self.mul(r, NF({((i, p),): Fraction(1)}))
        else:
          r = self.mul(r, self.frac(a, p) if p.denominator != 1 else
                       self.power(a, int(p)))
      out = out + r
    return out

  def sub_atom(self, i, mp, memo):
    if not self.deps[i] & mp.keys():
      return None
    if i in memo:
      return memo[i]
    a = self.atoms[i]
    s = lambda x: self.subst(x, mp, memo)
    k = a[0]
    if k == 'v':
      r = mp[a]
    elif k == 'sum':
      r = self.sums(s(a[2]), list(a[1]))
    elif k == 'el':
      r = self.atom(('el', a[1], tuple(s(x) for x in a[2])))
    elif k == 'op':
      r = self.atom(('op', a[1], a[2], a[3], tuple(s(x) for x in a[4])))
    elif k == 'poly':
      r = s(a[1])
      if len(r.m) > 1 and r.m[min(r.m)] == 1 or len(r.m) <= 1:
        pass
    elif k == 'div':
      r = self.idiv(s(a[1]), a[2])
    elif k == 'fn':
      r = self.fn(a[1], *[s(x) for x in a[2]])
    elif k == 'cat':
      r = self.cat(s(a[1]), a[2], tuple(s(x) for x in a[3]))
    elif k == 'bind':
      r = self.bind(a[1], list(a[2]), s(a[3]))
    else:
      raise Unknown()
    memo[i] = r
    return r

  # ------------------------------------------------------------------ sums
  def sums(self, nf, vs):
    """Sum of nf over the index variables vs (atoms ('v', tag, size))."""
    out = NF({})
    for k, c in nf.m.items():
      out = out + self.sum_mono(k, c, vs)
    return out

  def sum_mono(self, k, c, vs):
    for v in vs:
      for i, p in k:
        a = self.atoms[i]
        if a[0] == 'cat' and a[1] == self.atom(v) and v[2] == a[2][-1]:
          # split the range of the sum at the seams of the concatenation
          out = NF({})
          lo = num(0)
          rest = [w for w in vs if w is not v]
          for hi, part in zip(a[2], a[3]):
            w = ('v', v[1], hi - lo)
            self.atom(w)
            body = NF({tuple(x for x in k if x[0] != i): c})
            body = self.subst(body, {v: self.atom(w) + lo})
            body = self.mul(body, self.power(self.subst(
                part, {v: self.atom(w) + lo}), int(p)))
            out = out + self.sums(body, rest + [w])
            lo = hi
          return out
    vset = set(vs)
    outer, inner = [], []
    for i, p in k:
      (inner if self.deps[i] & vset else outer).append((i, p))
    r = NF({tuple(outer): c})
    used = set()
    for i, _ in inner:
      used |= self.deps[i] & vset
    for v in vs:
      if v not in used:
        r = self.mul(r, v[2])
    # independent groups of variables
    groups = []
    for i, p in inner:
      d = self.deps[i] & vset
      g = [(d, [(i, p)])]
      rest = []
      for e, xs in groups:
        if e & g[0][0]:
          g = [(g[0][0] | e, g[0][1] + xs)]
        else:
          rest.append((e, xs))
      groups = rest + g
    for d, xs in groups:
      r = self.mul(r, self.sum_atom(NF({tuple(sorted(xs)): Fraction(1)}),
                                    sorted(d, key=repr_var)))
    return r

  def sum_atom(self, body, vs):
    if len(vs) > 5:
      raise Unknown()
    # inner sums of the same body are merged: sum_i sum_j = sum_{i,j}
    lv = self.level(body) + 1
    best = None
    by = sorted(vs, key=lambda v: rank(self, v[2]))
    for perm in itertools.permutations(by):
      if [rank(self, v[2]) for v in perm] != [rank(self, v[2]) for v in by]:
        continue
      names = [('v', ('s', lv, j), v[2]) for j, v in enumerate(perm)]
      b = self.subst(body, {v: self.atom(n) for v, n in zip(perm, names)})
      key = tuple(sorted(b.m.items()))
      if best is None or key < best[0]:
        best = (key, names, b)
    if len(best[2].m) != 1:
      return self.sums(best[2], best[1])
    return self.atom(('sum', tuple(best[1]), best[2]))

  # --------------------------------------------------------------- indices
  def size(self, p):
    """A size polynomial as a normal form."""
    out = NF({})
    for k, c in p.m.items():
      r = num(c)
      for a in k:
        r = self.mul(r, self.atom(('size', a)))
      out = out + r
    return out

  def bound(self, nf):
    """Largest value of an index expression, as a normal form, or None."""
    out = NF({})
    for k, c in nf.m.items():
      r = NF({(): c})
      for i, p in k:
        a = self.atoms[i]
        if p.denominator != 1 or p < 0:
          return None
        if a[0] == 'v':
          r = self.mul(r, self.power(a[2] - num(1), int(p)))
        elif a[0] == 'size':
          r = self.mul(r, NF({((i, p),): Fraction(1)}))
        else:
          return None
        if c < 0:
          return None
      out = out + r
    return out

  def below(self, nf, n):
    """0 <= nf < n for all values of its variables?"""
    if not nf.m:
      return True
    if any(c < 0 for c in nf.m.values()):
      return False
    b = self.bound(nf)
    if b is None:
      return False
    d = n - num(1) - b
    return all(c >= 0 for c in d.m.values())

  def idiv(self, x, n):
    if n.const() == 1:
      return x
    if len(n.m) != 1:
      if self.below(x, n):
        return num(0)
      return self.atom(('div', x, n))
    inv = self.inv(n)
    q, r = NF({}), NF({})
    for k, c in x.m.items():
      y = self.mul(NF({k: c}), inv)
      (l, d), = y.m.items()
      if d.denominator == 1 and all(
          p > 0 and p.denominator == 1 for _, p in l):
        q = q + y
      elif c.denominator == 1 and n.const() is not None and not \
          self.deps_of(k):
        whole = c.numerator // int(n.const())
        q = q + NF({k: Fraction(whole)})
        r = r + NF({k: c - whole * n.const()})
      else:
        r = r + NF({k: c})
    if self.below(r, n):
      return q
    if not q.m:
      return self.atom(('div', r, n))
    return q + self.idiv(r, n)

  def deps_of(self, k):
    return any(self.deps[i] for i, _ in k)

  def imod(self, x, n):
    return x - self.mul(n, self.idiv(x, n))

  # ---------------------------------------------------------------- values
  def shape(self, t):
    i = self.A.of(t)
    if i is None or i.shape is None:
      raise Unknown(t)
    return i.shape

  def formal(self, shape):
    return [num(0) if d.const() == 1 else self.var(('a', j), self.size(d))
            for j, d in enumerate(shape)]

  def at_formal(self, t, n):
    return self.bc(t, [self.var(('a', j), num(0)) for j in range(n)])

  def array(self, t):
    """(shape, normal form at formal indices): the identity of an array."""
    k = (t, self.rep, self.stopped, tuple(self.loops.items()))
    if k not in self.keys:
      s = self.shape(t)
      self.keys[k] = (tuple(self.size(d) for d in s),
                      self.at(t, self.formal(s)))
    return self.keys[k]

  def constant(self, f):
    """Evaluates what no gradient flows through."""
    old, self.stopped = self.stopped, self.grads
    try:
      return f()
    finally:
      self.stopped = old

  def replicas(self, t, fn, args, kw, idx):
    axis = args[1] if len(args) > 1 else kw.get('axis_name')
    groups = kw.get('axis_index_groups', NONE)
    part = '' if groups == NONE else members(groups)
    if not isinstance(axis, K) or part is None or self.rep is not None:
      raise Unknown(t)
    n = self.atom(('size', f'replicas of {axis.v}{part}'))
    v = ('v', ('rep', axis.v + part), n)
    self.rep = self.atom(v)
    try:
      body = self.bc(args[0], idx)
    finally:
      self.rep = None
    r = self.sums(body, [v])
    return self.mul(r, self.inv(n)) if fn == 'pmean' else r

  def at(self, t, idx):
    """Entry of t at idx (one index per axis of t)."""
    idx = tuple(idx)
    key = (t, idx, self.rep, self.stopped, tuple(self.loops.items()))
    if key in self.memo:
      return self.memo[key]
    self.depth += 1
    if self.depth > 900:
      self.depth -= 1
      raise Unknown()
    try:
      r = self.entry(t, idx)
    finally:
      self.depth -= 1
    self.memo[key] = r
    return r

  def turn(self, L):
    if L in self.loops:
      return self.loops[L]
    return self.atom(('size', 'turns')) - num(1)

  def bc(self, t, idx):
    """Entry of t broadcast against idx."""
    if isinstance(t, K):
      return num(t.v) if isinstance(t.v, (int, float)) else unknown(t)
    p = poly(t)
    if p is not None:
      return self.size(p)
    s = self.shape(t)
    if len(s) > len(idx):
      raise Unknown(t)
    mine = idx[len(idx) - len(s):]
    return self.at(t, [num(0) if d.const() == 1 else i
                       for d, i in zip(s, mine)])

  def fn(self, name, *xs):
    if name == 'exp' and xs[0].const() == 0:
      return num(1)
    if name in ('max', 'min') and xs[0] != xs[1]:
      if None not in (xs[0].const(), xs[1].const()):
        return num((max if name == 'max' else min)(x.const() for x in xs))
      for c, x in (xs, xs[::-1]):
        # sizes are at least one
        if c.const() is not None and self.atleast(x, c.const()):
          return x if name == 'max' else c
      xs = sorted(xs, key=lambda x: rank(self, x))
    if name in ('gt', 'ge'):
      name, xs = {'gt': 'lt', 'ge': 'le'}[name], xs[::-1]
    if name in ('lt', 'le', 'eq', 'ne'):
      d = xs[0] - xs[1] if len(xs) > 1 else xs[0]
      c = d.const()
      if c is not None:
        return num(int({'lt': c < 0, 'le': c <= 0, 'eq': c == 0,
                        'ne': c != 0}[name]))
      if name == 'ne':
        return num(1) - self.fn('eq', d)
      if name == 'le':  # a <= b  is  not (b < a)
        return num(1) - self.fn('lt', d.scale(-1))
      lead = d.m[min(d.m)]
      d = d.scale(1 / (lead if name == 'eq' else abs(lead)))
      xs = [d]
      if name == 'eq' and self.mul(d, d) == d:
        return num(1) - d
    if name == 'not':
      return num(1) - self.truth(xs[0])
    if name in ('and', 'or'):
      r = num(1)
      for x in xs:
        x = self.truth(x)
        r = self.mul(r, x if name == 'and' else num(1) - x)
      return r if name == 'and' else num(1) - r
    if name == 'ite':
      c = self.truth(xs[0])
      return self.mul(c, xs[1]) + self.mul(num(1) - c, xs[2])
    return self.atom(('fn', name, tuple(xs)))

  def atleast(self, x, c):
    return all(d > 0 and all(p > 0 and self.atoms[i][0] == 'size'
                             for i, p in k)
               for k, d in x.m.items()) and sum(x.m.values()) >= c

  def cat(self, e, ends, parts):
    """parts[j] where ends[j-1] <= e < ends[j]; parts are entries at e."""
    if len(parts) == 1:
      return parts[0]
    lo = num(0)
    for hi, p in zip(ends, parts):
      d = e - lo
      if self.below(d, hi - lo):
        return p
      lo = hi
    return self.atom(('cat', e, tuple(ends), tuple(parts)))

  def entry(self, t, idx):
    A = self.A
    if isinstance(t, K):
      return num(t.v) if isinstance(t.v, (int, float)) else unknown(t)
    if not isinstance(t, T):
      raise Unknown(t)
    o, a = t.op, t.args
    if t in A.base:
      if o == 'sym':
        n = a[0]
        if self.rep is not None and not n.startswith(('P:', 'S:')):
          idx += (self.rep,)  # another replica's value
        return self.atom(('el', n + '|stopped' if self.stopped else n, idx))
    p = poly(t)
    if p is not None:
      return self.size(p)
    if o in ('treecopy', 'leaf') and isinstance(a[0], V):
      return self.at(a[0], idx)
    if o == 'carry' and isinstance(a[0], V):
      # what the previous iterations left, starting from a[0]
      return self.atom(('op', 'carry', a[2:], self.array(a[0]),
                        (self.turn(a[1]),) + idx))
    if o == 'stacked':
      old = self.loops
      self.loops = {**old, a[1]: idx[0]}
      try:
        return self.at(a[0], idx[1:])
      finally:
        self.loops = old
    if o == 'binop':
      return self.binop(a[0], a[1], a[2], idx)
    if o == 'unop':
      x = self.bc(a[1], idx)
      if a[0] == 'USub':
        return x.scale(-1)
      if a[0] == 'UAdd':
        return x
      if a[0] in ('Not', 'Invert'):
        return self.fn('not', x)
      raise Unknown(t)
    if o == 'not':
      return self.fn('not', self.bc(a[0], idx))
    if o in ('lt', 'le', 'gt', 'ge', 'eq', 'ne') and len(a) == 2:
      return self.constant(lambda: self.fn(o, self.bc(a[0], idx), self.bc(
          a[1], idx)))
    if o in ('max', 'min') and len(a) == 2:
      return self.fn(o, self.bc(a[0], idx), self.bc(a[1], idx))
    if o == 'ite':
      raise Unknown(t)
    if o == 'getitem':
      return self.getitem(t, idx)
    if o == 'slice_of':
      return self.at(a[0], (self.turn(a[1]),) + idx)
    if o == 'attr' and a[1] == 'T':
      return self.at(a[0], idx[::-1])
    if o == 'mcall':
      return self.method(t, a[0], a[1], list(a[2]), dict(a[3]), idx)
    if o == 'call' and isinstance(a[0], Ext):
      return self.call(t, a[0].name, list(a[1]), dict(a[2]), idx)
    raise Unknown(t)

  def binop(self, op, x, y, idx):
    if op == 'MatMult':
      return self.contract(x, y, idx)
    if op == 'Pow':
      return self.pow_(self.bc(x, idx), self.bc(y, idx))
    u, v = self.bc(x, idx), self.bc(y, idx)
    if op == 'Add':
      return u + v
    if op == 'Sub':
      return u - v
    if op == 'Mult':
      return self.mul(u, v)
    if op == 'Div':
      return self.mul(u, self.inv(v))
    if op in ('BitAnd', 'BitOr'):
      return self.fn({'BitAnd': 'and', 'BitOr': 'or'}[op], *sorted(
          (u, v), key=lambda z: rank(self, z)))
    raise Unknown()

  def pow_(self, u, v):
    c = v.const()
    if c is not None and c.denominator in (1, 2) and abs(c) <= 8:
      return self.frac(u, c) if c.denominator == 2 else self.power(u, int(c))
    if u.const() == 1:
      return num(1)
    return self.fn('pow', u, v)

  def method(self, t, x, name, args, kw, idx):
    ext = {'reshape': 'jax.numpy.reshape', 'transpose': 'jax.numpy.transpose',
           'sum': 'jax.numpy.sum', 'mean': 'jax.numpy.mean',
           'max': 'jax.numpy.max', 'min': 'jax.numpy.min',
           'var': 'jax.numpy.var', 'swapaxes': 'jax.numpy.swapaxes',
           'dot': 'jax.numpy.dot', 'flatten': 'jax.numpy.ravel',
           'ravel': 'jax.numpy.ravel', 'squeeze': 'jax.numpy.squeeze',
           'astype': 'jax.lax.convert_element_type',
           'argmax': 'jax.numpy.argmax', 'argmin': 'jax.numpy.argmin',
           'all': 'jax.numpy.all', 'any': 'jax.numpy.any'}.get(name)
    if ext is None:
      raise Unknown(t)
    if name == 'reshape' and not (len(args) == 1 and seq(args[0]) is not None):
      args = [Tup(args)]
    if name == 'transpose' and args and seq(args[0]) is None:
      args = [Tup(args)]
    return self.call(t, ext, [x] + args, kw, idx)

  def axis(self, v, n):
    return self.A.axes(v, n)

  def call(self, t, name, args, kw, idx):
    mod, _, fn = name.rpartition('.')

    def arg(i, k, d=None):
      return args[i] if i < len(args) else kw.get(k, d)

    if name in ('jax.lax.stop_gradient',):
      return self.constant(lambda: self.bc(args[0], idx))
    if name in ('jax.lax.psum', 'jax.lax.pmean'):
      return self.replicas(t, fn, args, kw, idx)
    if name in UNARY:
      return self.fn(UNARY[name], self.bc(args[0], idx))
    if name in SAMEVAL or fn in ('float32', 'float16', 'float64', 'bfloat16') \
        and mod in ('jax.numpy', 'numpy'):
      i, j = self.A.of(args[0]), self.A.of(t)
      if fn not in ('stop_gradient', 'optimization_barrier', 'device_put'):
        if j is None or j.dtype is None or i is None or i.dtype is None:
          raise Unknown(t)
        if j.dtype not in FLOATS and i.dtype in FLOATS:
          raise Unknown(t)
      return self.bc(args[0], idx)
    if mod in ('jax.numpy', 'jax.lax', 'numpy') and fn in BIN and len(
        args) == 2:
      return self.binop(BIN[fn], args[0], args[1], idx)
    if mod in ('jax.numpy', 'jax.lax', 'numpy') and fn in CMP and len(
        args) == 2:
      return self.constant(lambda: self.fn(CMP[fn], self.bc(
          args[0], idx), self.bc(args[1], idx)))
    if fn == 'square':
      return self.power(self.bc(args[0], idx), 2)
    if fn == 'integer_pow':
      return self.pow_(self.bc(args[0], idx), self.bc(arg(1, 'y'), idx))
    if fn == 'reciprocal':
      return self.inv(self.bc(args[0], idx))
    if fn in ('negative', 'neg'):
      return self.bc(args[0], idx).scale(-1)
    if fn == 'sqrt':
      return self.frac(self.bc(args[0], idx), Fraction(1, 2))
    if fn == 'rsqrt':
      return self.frac(self.bc(args[0], idx), Fraction(-1, 2))
    if fn == 'relu' and mod in ('jax.nn',):
      return self.fn('max', self.bc(args[0], idx), num(0))
    if fn in ('maximum', 'minimum') or mod == 'jax.lax' and fn in (
        'max', 'min'):
      u, v = self.bc(args[0], idx), self.bc(args[1], idx)
      return u if u == v else self.fn(fn[:3], u, v)
    if fn in ('zeros', 'zeros_like'):
      return num(0)
    if fn in ('ones', 'ones_like'):
      return num(1)
    if fn in ('full', 'full_like'):
      return self.bc(arg(1, 'fill_value'), idx)
    if fn in ('where', 'select') and len(args) == 3:
      return self.fn('ite', *[self.bc(x, idx) for x in args])
    if fn in ('logical_not', 'logical_and', 'logical_or'):
      return self.fn(fn[8:], *sorted([self.bc(x, idx) for x in args],
                                     key=lambda z: rank(self, z)))
    if fn == 'broadcast_to':
      return self.bc(args[0], idx)
    if fn == 'broadcast_to_rank':
      return self.bc(args[0], idx)
    if fn == 'expand_dims':
      n = len(self.shape(args[0]))
      ax = arg(1, 'axis')
      k = seq(ax)
      ax = self.axis(ax, n + (len(k) if k is not None else 1))
      return self.at(args[0], [x for j, x in enumerate(idx) if j not in ax])
    if fn == 'squeeze':
      s = self.shape(args[0])
      ax = arg(1, 'axis')
      ax = [j for j, d in enumerate(s) if d.const() == 1] if ax in (
          None, NONE) else self.axis(ax, len(s))
      it = iter(idx)
      return self.at(args[0], [num(0) if j in ax else next(it)
                               for j in range(len(s))])
    if fn in ('reshape', 'ravel'):
      return self.reshape(args[0], self.shape(t), idx)
    if fn in ('transpose', 'swapaxes', 'moveaxis'):
      return self.at(args[0], self.permute(fn, args, kw, idx))
    if fn in ('dot', 'matmul') and len(args) >= 2:
      if fn == 'dot' and mod == 'jax.numpy':
        return self.contract(args[0], args[1], idx, dot=True)
      return self.contract(args[0], args[1], idx)
    if fn == 'einsum':
      return self.einsum(args, idx)
    if fn in ('sum', 'mean', 'var', 'max', 'min', 'amax', 'amin', 'prod',
              'all', 'any') and mod in ('jax.numpy', 'numpy'):
      return self.reduce(t, fn, args, kw, idx)
    if fn in ('argmax', 'argmin') and mod == 'jax.numpy':
      return self.constant(lambda: self.arg(t, fn, args, kw, idx))
    if fn in ('concatenate', 'stack'):
      return self.concat(t, fn, args, kw, idx)
    if fn == 'one_hot':
      n = arg(1, 'num_classes')
      if arg(3, 'axis', kw.get('axis')) not in (None, K(-1)):
        raise Unknown(t)
      del n
      return self.fn('ite', self.fn('eq', self.bc(args[0], idx[:-1]),
                                    idx[-1]), num(1), num(0))
    if fn in ('arange', 'iota') and len(args) == 1:
      return idx[-1]
    if fn == 'diag' and len(args) == 1 and len(self.shape(args[0])) == 2:
      return self.at(args[0], (idx[0], idx[0]))
    if fn == 'eye':
      return self.fn('ite', self.fn('eq', idx[0], idx[1]), num(1), num(0))
    if fn in ('softmax', 'log_softmax') and mod == 'jax.nn':
      s = self.shape(args[0])
      ax = self.axis(arg(1, 'axis', K(-1)), len(s))
      x = self.fn('exp', self.at(args[0], idx))
      vs = [('v', ('r', self.depth, j), self.size(s[j])) for j in ax]
      for v in vs:
        self.atom(v)
      mp = list(idx)
      for v in vs:
        mp[ax[vs.index(v)]] = self.atom(v)
      tot = self.sums(self.fn('exp', self.at(args[0], mp)), vs)
      if fn == 'log_softmax':
        return self.at(args[0], idx) - self.fn('log', tot)
      return self.mul(x, self.inv(tot))
    if name in ('jax.lax.conv_general_dilated', 'jax.lax.conv_transpose'):
      return self.conv(t, fn, arg, idx)
    if name == 'jax.lax.reduce_window':
      return self.window(t, arg, idx)
    if fn in ('prod', 'product') and mod == 'numpy' and seq(args[0]) is not None and len(
        args) == 1:
      r = num(1)
      for x in seq(args[0]):
        r = self.mul(r, self.bc(x, ()))
      return r
    if name == 'jax.random.bernoulli':
      sh = arg(2, 'shape')
      n = len(self.shape(t))
      if sh not in (None, NONE) and seq(sh) is None:
        raise Unknown(t)
      self.used.add(('bernoulli', arg(0, 'key')))
      return self.atom(('op', 'bernoulli', (), (arg(0, 'key'), self.at_formal(
          arg(1, 'p', K(.5)), n), tuple(self.size(d) for d in self.shape(t))),
                        idx))
    if mod == 'jax.random' and self.anykey and fn in DRAWS:
      return self.draw(t, fn, arg, idx)
    if name in self.opaque:
      return self.op(t, name, args, kw, idx)
    raise Unknown(t)

  def draw(self, t, fn, arg, idx):
    """Independent draws, whatever the key."""
    names = DRAWS[fn]
    base, scale = num(0), num(1)
    rest = [arg(j, k) for j, k in enumerate(names, 1)]
    sizes = tuple(self.size(d) for d in self.shape(t))
    ps = ()
    if fn == 'uniform':
      lo, hi = (num(d) if x is None else self.bc(x, idx)
                for x, d in zip(rest[2:], (0, 1)))
      base, scale = lo, hi - lo
    elif fn == 'truncated_normal':
      ps = tuple(self.bc(x, idx) for x in rest[:2])
    return base + self.mul(scale, self.atom(('op', fn, (), ps + sizes, idx)))

  def ordered(self, t, perm):
    """Identity of the array whose axis j is axis perm[j] of t."""
    s = self.shape(t)
    f = self.formal([s[p] for p in perm])
    at = [None] * len(s)
    for j, p in enumerate(perm):
      at[p] = f[j]
    return tuple(self.size(s[p]) for p in perm), self.at(t, at)

  def conv(self, t, fn, arg, idx):
    A = self.A
    x, w = arg(0, 'lhs'), arg(1, 'rhs')
    n = len(self.shape(x))
    if fn == 'conv_transpose':
      ls, rs, os = A.spec(arg(5, 'dimension_numbers'), n)
      st = A.ints(arg(2, 'strides'), n - 2)
      rd = A.ints(arg(4, 'rhs_dilation'), n - 2)
      more = (arg(6, 'transpose_kernel', FALSE) == TRUE,)
    else:
      ls, rs, os = A.spec(arg(6, 'dimension_numbers'), n)
      st = A.ints(arg(2, 'window_strides'), n - 2)
      rd = A.ints(arg(5, 'rhs_dilation'), n - 2)
      more = (tuple(A.ints(arg(4, 'lhs_dilation'), n - 2)),
              poly(arg(7, 'feature_group_count', K(1))),
              poly(arg(8, 'batch_group_count', K(1))))
    pad = A.pads(arg(3, 'padding'), n - 2)
    self.used.add(fn)
    return self.atom(('op', fn, (self.ordered(x, ls), self.ordered(w, rs)),
                      (tuple(st), self.padkey(pad, fn), tuple(rd)) + more,
                      tuple(idx[o] for o in os)))

  def padkey(self, pad, fn=''):
    return tuple((pconst(0), pconst(0)) if p == 'VALID' and fn !=
                 'conv_transpose' else p if isinstance(p, str) else tuple(p)
                 for p in pad)

  def window(self, t, arg, idx):
    A = self.A
    x = arg(0, 'operand')
    n = len(self.shape(x))
    f = arg(2, 'computation')
    if not isinstance(f, Ext):
      raise Unknown(t)
    self.used.add('reduce_window')
    init = arg(1, 'init_value')
    if isinstance(init, T) and init.op == 'unop' and init.args[0] == 'USub' \
        and init.args[1] in (Ext('jax.numpy.inf'), Ext('numpy.inf'), K(
            float('inf'))):
      init = '-inf'
    elif isinstance(init, K) and isinstance(init.v, float) and abs(
        init.v) == float('inf'):
      init = repr(init.v)
    else:
      init = self.bc(init, ())
    pad = A.pads(arg(5, 'padding'), n)
    return self.atom(('op', 'reduce_window', (self.array(x),), (
        init, f.name.split('.')[-1], tuple(A.ints(
            arg(3, 'window_dimensions'), n)),
        tuple(A.ints(arg(4, 'window_strides'), n)), self.padkey(pad)),
                      idx))

  # ------------------------------------------------------------ structure
  def permute(self, fn, args, kw, idx):
    n = len(idx)
    if fn == 'transpose':
      p = args[1] if len(args) > 1 else kw.get('axes', kw.get('permutation'))
      perm = list(range(n))[::-1] if p in (None, NONE) else self.axis(p, n)
      perm = [int(x) for x in perm]
    elif fn == 'swapaxes':
      a, = self.axis(args[1] if len(args) > 1 else kw['axis1'], n)
      b, = self.axis(args[2] if len(args) > 2 else kw['axis2'], n)
      perm = list(range(n))
      perm[a], perm[b] = b, a
    else:
      a = self.axis(args[1] if len(args) > 1 else kw['source'], n)
      b = self.axis(args[2] if len(args) > 2 else kw['destination'], n)
      perm = [x for x in range(n) if x not in a]
      for d, s in sorted(zip(b, a)):
        perm.insert(d, s)
    out = [None] * n
    for j, p in enumerate(perm):
      out[p] = idx[j]
    return out

  def reshape(self, x, shape, idx):
    src = self.shape(x)
    if tuple(src) == tuple(shape):
      return self.at(x, idx)
    # groups of axes with the same number of entries
    out = []
    i = j = 0
    S_, T_ = list(src), list(shape)
    while i < len(S_) or j < len(T_):
      i0, j0 = i, j
      a = S_[i] if i < len(S_) else pconst(1)
      b = T_[j] if j < len(T_) else pconst(1)
      i, j = min(i + 1, len(S_)), min(j + 1, len(T_))
      while a != b:
        if a.div(b) is not None and j < len(T_) and (
            b.div(a) is None or i >= len(S_)):
          b = b * T_[j]
          j += 1
        elif i < len(S_) and b.div(a) is not None:
          a = a * S_[i]
          i += 1
        elif j < len(T_):
          b = b * T_[j]
          j += 1
        elif i < len(S_):
          a = a * S_[i]
          i += 1
        else:
          raise Unknown()
      flat = num(0)
      for d, e in zip(T_[j0:j], idx[j0:j]):
        flat = self.mul(flat, self.size(d)) + e
      ds = [self.size(d) for d in S_[i0:i]]
      es = []
      for n, d in reversed(list(enumerate(ds))):
        if n == 0:
          es.append(flat)
        else:
          es.append(self.imod(flat, d))
          flat = self.idiv(flat, d)
      out += es[::-1]
    return self.at(x, out)

  def contract(self, x, y, idx, dot=False):
    s, u = self.shape(x), self.shape(y)
    if not s or not u:
      return self.mul(self.bc(x, idx), self.bc(y, idx))
    v = ('v', ('k', self.depth), self.size(s[-1]))
    k = self.atom(v)
    if len(u) == 1:
      return self.sums(self.mul(self.at(x, list(idx) + [k]),
                                self.at(y, [k])), [v])
    if dot or len(u) == 2:
      a = list(idx[:len(s) - 1])
      b = list(idx[len(s) - 1:])
      if len(s) == 1:
        a, b = [], list(idx)
      return self.sums(self.mul(self.at(x, a + [k]), self.at(
          y, b[:-1] + [k] + b[-1:])), [v])
    if len(s) == 1:
      raise Unknown()
    lead = list(idx[:-2])
    pick = lambda z, m: [num(0) if d.const() == 1 else e for d, e in zip(
        m[:-2], lead[len(lead) - len(m) + 2:])]
    return self.sums(self.mul(
        self.at(x, pick(x, s) + [idx[-2], k]),
        self.at(y, pick(y, u) + [k, idx[-1]])), [v])

  def einsum(self, args, idx):
    spec = args[0]
    if not isinstance(spec, K) or not isinstance(spec.v, str):
      raise Unknown()
    spec = spec.v.replace(' ', '')
    if '...' in spec:
      raise Unknown()
    ins, arrow, out = spec.partition('->')
    ins = ins.split(',')
    if not arrow:
      raise Unknown()
    at = dict(zip(out, idx))
    vs = []
    for l, x in zip(ins, args[1:]):
      for c, d in zip(l, self.shape(x)):
        if c not in at:
          v = ('v', ('e', self.depth, c), self.size(d))
          at[c] = self.atom(v)
          vs.append(v)
    r = num(1)
    for l, x in zip(ins, args[1:]):
      s = self.shape(x)
      r = self.mul(r, self.at(x, [num(0) if d.const() == 1 else at[c]
                                  for c, d in zip(l, s)]))
    return self.sums(r, vs)

  def reduce(self, t, fn, args, kw, idx):
    x = args[0]
    s = self.shape(x)
    ax = args[1] if len(args) > 1 else kw.get('axis')
    if set(kw) - {'axis', 'keepdims', 'dtype'} or len(args) > 2:
      raise Unknown(t)
    axes = list(range(len(s))) if ax in (None, NONE) else self.axis(ax, len(s))
    keep = kw.get('keepdims', FALSE)
    if keep not in (TRUE, FALSE):
      raise Unknown(t)
    it = iter(idx)
    at, vs = [], []
    for j, d in enumerate(s):
      if j in axes:
        v = ('v', ('r', self.depth, j), self.size(d))
        vs.append(v)
        at.append(self.atom(v))
        if keep == TRUE:
          next(it)
      else:
        at.append(next(it))
    n = num(1)
    for v in vs:
      n = self.mul(n, v[2])
    body = self.at(x, at)
    if fn == 'sum':
      return self.sums(body, vs)
    if fn == 'mean':
      return self.mul(self.sums(body, vs), self.inv(n))
    if fn == 'var':
      m = self.mul(self.sums(body, vs), self.inv(n))
      q = self.mul(self.sums(self.power(body, 2), vs), self.inv(n))
      return q - self.power(m, 2)
    if not self.free(body) & set(vs) and fn not in ('prod',):
      return body
    return self.bind({'amax': 'max', 'amin': 'min'}.get(fn, fn), vs, body)

  def bind(self, fn, vs, body):
    """A reduction of body over the index variables vs."""
    if fn in ('min', 'argmin'):
      r = self.bind(fn.replace('min', 'max'), vs, body.scale(-1))
      return r.scale(-1) if fn == 'min' else r
    if fn == 'argmax':
      body = NF({k: c for k, c in body.m.items() if any(
          self.deps[i] & set(vs) for i, _ in k)})
      if not body.m:
        return num(0)
      body = body.scale(1 / abs(body.m[min(body.m)]))
    lv = self.level(body) + 1
    best = None
    sizes = sorted(rank(self, v[2]) for v in vs)
    for perm in itertools.permutations(vs):
      if [rank(self, v[2]) for v in perm] != sizes:
        continue
      names = [('v', ('m', lv, j), v[2]) for j, v in enumerate(perm)]
      b = self.subst(body, {v: self.atom(w) for v, w in zip(perm, names)})
      key = tuple(sorted(b.m.items()))
      if best is None or key < best[0]:
        best = key, names, b
    return self.atom(('bind', fn, tuple(best[1]), best[2]))

  def arg(self, t, fn, args, kw, idx):
    x = args[0]
    s = self.shape(x)
    ax = args[1] if len(args) > 1 else kw.get('axis')
    if ax in (None, NONE) or set(kw) - {'axis', 'keepdims'} or len(args) > 2:
      raise Unknown(t)
    (a,), keep = self.axis(ax, len(s)), kw.get('keepdims', FALSE)
    if keep not in (TRUE, FALSE):
      raise Unknown(t)
    idx = list(idx)
    if keep == TRUE:
      del idx[a]
    v = ('v', ('r', self.depth, a), self.size(s[a]))
    return self.bind(fn, [v], self.at(x, idx[:a] + [self.atom(v)] + idx[a:]))

  def concat(self, t, fn, args, kw, idx):
    parts = seq(args[0])
    if parts is None:
      raise Unknown(t)
    ax = args[1] if len(args) > 1 else kw.get('axis', K(0))
    n = len(idx)
    ax, = self.axis(ax, n)
    ends, es = [], []
    lo = num(0)
    for j, p in enumerate(parts):
      if fn == 'stack':
        hi = lo + num(1)
        sub = idx[:ax] + idx[ax + 1:]
      else:
        hi = lo + self.size(self.shape(p)[ax])
        sub = idx[:ax] + (idx[ax] - lo,) + idx[ax + 1:]
      ends.append(hi)
      es.append(self.at(p, sub))
      lo = hi
    return self.cat(idx[ax], ends, es)

  def getitem(self, t, idx):
    v, k = t.args[0], t.args[1]
    if isinstance(v, T) and v.op == 'call' and isinstance(
        v.args[0], Ext) and v.args[0].name.endswith('linalg.qr'):
      self.shape(t)
      return self.atom(('op', f'qr{k.v}', (), self.array(v.args[1][0]), idx))
    if isinstance(v, T) and v.op == 'call' and isinstance(v.args[0], Ext) and \
        v.args[0].name.endswith('.split'):
      if v.args[0].name.startswith('jax.random'):
        raise Unknown(t)
      x = v.args[1][0]
      s = self.shape(x)
      kw = dict(v.args[2])
      n = v.args[1][1] if len(v.args[1]) > 1 else kw['indices_or_sections']
      ax = v.args[1][2] if len(v.args[1]) > 2 else kw.get('axis', K(0))
      ax, = self.axis(ax, len(s))
      i = poly(k)
      if i is None or i.const() is None:
        raise Unknown(t)
      i = i.const()
      if seq(n) is not None:
        ps = [poly(y) for y in seq(n)]
        if i < 0:
          i += len(ps) + 1
        lo = ps[i - 1] if i else pconst(0)
      else:
        n = poly(n)
        if n is None or n.const() is None:
          raise Unknown(t)
        w = s[ax].div(n)
        if w is None:
          raise Unknown(t)
        if i < 0:
          i += n.const()
        lo = w * pconst(i)
      at = list(idx)
      at[ax] = at[ax] + self.size(lo)
      return self.at(x, at)
    if isinstance(v, T) and v.op in ('attr', 'mcall') and v.args[1] == 'at':
      raise Unknown(t)
    s = self.shape(v)
    ks = list(k.items) if isinstance(k, Tup) else [K(y) for y in k.v] \
        if isinstance(k, K) and isinstance(k.v, tuple) else [k]
    ell = lambda y: isinstance(y, K) and y.v is Ellipsis or isinstance(
        y, Ext) and y.name.endswith('Ellipsis')
    new = lambda y: y == NONE or isinstance(y, Ext) and y.name.endswith(
        'newaxis')
    used = sum(1 for y in ks if not ell(y) and not new(y))
    full = [K(slice(None))] * (len(s) - used)
    if any(ell(y) for y in ks):
      i = [bool(ell(y)) for y in ks].index(True)
      ks = ks[:i] + full + ks[i + 1:]
    else:
      ks = ks + full
    at, pos, j = [], 0, 0
    for y in ks:
      if new(y):
        pos += 1
        continue
      if isinstance(y, K) and isinstance(y.v, slice) or isinstance(
          y, T) and y.op == 'slice':
        lo, hi, st = (K(y.v.start), K(y.v.stop), K(y.v.step)) if isinstance(
            y, K) else y.args
        if st not in (NONE, K(1)):
          if st == K(-1) and (lo, hi) == (NONE, NONE):
            at.append(self.size(s[j]) - num(1) - idx[pos])
            pos, j = pos + 1, j + 1
            continue
          raise Unknown(t)
        p = pconst(0) if lo == NONE else poly(lo)
        if p is None:
          raise Unknown(t)
        if p.const() is not None and p.const() < 0:
          p = p + s[j]
        at.append(idx[pos] + self.size(p))
        pos += 1
      elif poly(y) is not None:
        p = poly(y)
        if p.const() is not None and p.const() < 0:
          p = p + s[j]
        at.append(self.size(p))
      else:
        i = self.A.of(y)
        if i is None or i.shape is None or i.dtype == 'bool':
          raise Unknown(t)
        at.append(self.at(y, idx[pos:pos + len(i.shape)]))
        pos += len(i.shape)
      j += 1
    if pos != len(idx) or len(at) != len(s):
      raise Unknown(t)
    return self.at(v, at)

  def op(self, t, name, args, kw, idx):
    """An operation compared by name, arguments and parameters."""
    self.used.add(name)
    keys, static = [], []

    def put(k, v):
      i = self.A.of(v) if isinstance(v, T) else None
      if i is not None and i.shape is not None and poly(v) is None:
        try:
          keys.append((k,) + self.array(v))
          return
        except Unknown:
          pass
      static.append((k, v))
    for j, v in enumerate(args):
      put(j, v)
    for k, v in sorted(kw.items()):
      put(k, v)
    return self.atom(('op', name, tuple(keys), tuple(static), idx))

  # ------------------------------------------------------------- compare
  def generic(self, shape):
    return [num(0) if d.const() == 1 else self.var(('o', j), self.size(d))
            for j, d in enumerate(shape)]

  def same(self, x, y):
    """Are two array terms equal for all inputs?  True, False or None."""
    try:
      s, u = self.shape(x), self.shape(y)
      if tuple(s) != tuple(u):
        return None
      g = self.generic(s)
      self.memo.clear()
      self.keys.clear()
      self.used = set()
      a = self.at(x, g)
      one = self.used
      self.memo.clear()
      self.keys.clear()
      self.used = set()
      b = self.at(y, g)
      self.last = a, b
      if self.equal(a, b):
        return True
    except (Unknown, RecursionError, OverflowError):
      return None
    return False if one == self.used else None

  def show(self, nf, n=400):
    out = []
    for k, c in list(nf.m.items())[:12]:
      s = [] if c == 1 and k else [str(float(c)) if c.denominator > 1 else
                                   str(c)]
      for i, p in k:
        x = self.show_atom(i)
        s.append(x if p == 1 else f'{x}^{p}')
      out.append('*'.join(s))
    return (' + '.join(out) or '0')[:n]

  def show_atom(self, i):
    a = self.atoms[i]
    f = lambda x: self.show(x, 120)
    if a[0] == 'v':
      return '.'.join(map(str, a[1]))
    if a[0] == 'el':
      return f'{a[1]}[{",".join(f(x) for x in a[2])}]'
    if a[0] == 'sum':
      return f'sum({f(a[2])})'
    if a[0] == 'fn':
      return f'{a[1]}({",".join(f(x) for x in a[2])})'
    if a[0] == 'poly':
      return f'({f(a[1])})'
    if a[0] == 'size':
      return str(a[1])
    if a[0] == 'op':
      return f'{a[1].split(".")[-1]}(..)[{",".join(f(x) for x in a[4])}]'
    if a[0] == 'cat':
      return f'cat({", ".join(f(x) for x in a[3])})'
    return a[0]


def isqrt(n):
  r = int(n ** .5)
  for x in (r - 1, r, r + 1):
    if x >= 0 and x * x == n:
      return x
  return None


def rank(self, nf):
  return tuple(sorted(nf.m.items()))


def repr_var(v):
  return repr(v[1])


def unknown(t):
  raise Unknown(t)
