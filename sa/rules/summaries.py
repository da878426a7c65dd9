"""Summaries list every module method called."""
from ..harness import *
from ..arrays import parse
from .hooks import nest
from .numeric import TRAIN, arrays
from .params import last_loc, norm_copy
from .structures import content


class Log:
  """What the program itself sees of its calls."""

  def __init__(self):
    self.calls, self.stack = [], []

  def module(self, I, act=None, name=None):
    def on(I, a, k):
      m, n, args, kw = a
      e = dict(m=m, n=n.v, args=args, kw=kw, out=None,
               stack=[(m, n.v)] + self.stack)
      self.calls.append(e)
      self.stack.insert(0, (m, n.v))
      try:
        e['out'] = act(I, m, n.v, args.items, kw) if act and args.items \
            else args.items[0] if args.items else S('c1')
      finally:
        del self.stack[0]
      e['owned'] = {k: {x[1].v: x[2] for x in I.call(I.getattr(
          m, k + '_dict'), []).items} for k in ('params', 'state')}
      e['done'] = True
      return e['out']
    return I.call(client(I, 'Traced'), [HostFn(on)],
                  {} if name is None else {'name': K(name)})


def owning(I, m, n, a, kw):
  """Parameters and state, made at the first call."""
  hk(I, 'get_parameter', K('w'), Tup([S('C'), K(3)]), Ref_dtype(I),
     init=Ext('jax.numpy.ones'))
  hk(I, 'get_state', K('s'), Tup([K(2)]), Ref_dtype(I),
     init=Ext('jax.numpy.zeros'))
  return a[0]


def Ref_dtype(I):
  return I.getattr(S('x2'), 'dtype')


def one(I, log, x):
  return I.call(log.module(I), [x, K(3), S('c1')],
                {'flag': K(True), 'k': S('x3')})


def twice(I, log, x):
  m = log.module(I)
  I.call(I.getattr(m, 'other'), [S('x4')])
  return I.call(m, [I.call(m, [x])])


def structures(I, log, x):
  def act(I, m, n, a, kw):
    return I.mkdict({'a': Tup([a[0], NONE, S('c1')]), 'b': K('text')})
  return I.call(log.module(I, act), [
      Tup([x, I.mkdict({'k': S('x4')})]), I.mklist([S('c1'), K(2.5)])])


def nested(I, log, x):
  def act(I, m, n, a, kw):
    return I.call(I.getattr(inner[0], 'other'), [a[0], S('c1')])
  inner = [None]

  def deep(I, m, n, a, kw):
    return I.call(log.module(I, name='deepest'), [S('x4')])
  inner[0] = log.module(I, deep, 'within')
  return Tup([I.call(log.module(I, act), [x]), I.call(inner[0], [x])])


def owners(I, log, x):
  def act(I, m, n, a, kw):
    owning(I, m, n, a, kw)
    return I.call(log.module(I, owning, 'sub'), [a[0]])
  m = log.module(I, act)
  return I.call(log.module(I, owning), [I.call(m, [I.call(m, [x])])])


def outside(I, log, x):
  """A module that calls two made elsewhere, one of them used before."""
  a, b = log.module(I, owning, 'a'), log.module(I, owning, 'b')
  I.call(b, [x])

  def act(I, m, n, a_, kw):
    return I.call(b, [I.call(a, [a_[0]])])
  return I.call(log.module(I, act), [x])


def methods(I, log, x):
  m = log.module(I)
  I.call(I.getattr(m, 'params_dict'), [])
  I.call(I.getattr(m, 'state_dict'), [])
  return I.call(I.getattr(m, 'other'), [x], {'k': x})


def odd(I, log, x):
  """Methods that are not called in the usual way."""
  m = log.module(I, owning)
  I.call(I.getattr(m, '_hidden'), [x], {'k': x})
  I.getattr(m, 'prop')
  return I.call(log.module(I, lambda I, m_, n, a, kw: I.getattr(m, 'prop')),
                [x])


def scoped(I, log, x):
  return using(I, hk(I, 'experimental.name_scope', K('scope')),
               lambda _: I.call(log.module(I), [x]))


def jitted(I, log, x):
  m = log.module(I, owning)
  f = hk(I, 'jit', HostFn(lambda I, a, k: I.call(m, [a[0]]), 'jitted'))
  return I.call(f, [x])


def hooked(I, log, x):
  def icpt(I, a, k):
    return I.call(client(I, 'forward'), a[:3])
  return nest(I, [lambda: hk(I, 'experimental.intercept_methods',
                             HostFn(icpt, 'interceptor'))] * 2,
              lambda: I.call(log.module(I), [x]))


def caught(I, log, x):
  def act(I, m, n, a, kw):
    log.module(I)
    I.call(log.module(I), [a[0]])
    return I.call(client(I, 'fail'), [])
  bad = log.module(I, act, 'bad')
  good = log.module(I, None, 'good')
  I.call(good, [x])
  return I.call(client(I, 'guarded'), [
      HostFn(lambda I, a, k: I.call(bad, [x])),
      HostFn(lambda I, a, k: I.call(good, [x]))])


def nothing(I, log, x):
  log.module(I)
  return x


PROGS = [(f.__name__, f) for f in (
    one, twice, structures, nested, owners, outside, odd, methods, scoped, jitted, hooked,
    nothing, caught)]
KINDS = {
    'a function': lambda I, f: f,
    'hk.transform': lambda I, f: hk(I, 'transform', f),
    'hk.transform_with_state': lambda I, f: hk(I, 'transform_with_state', f),
    'hk.without_apply_rng': lambda I, f: hk(
        I, 'without_apply_rng', hk(I, 'transform', f)),
    'hk.without_state': lambda I, f: hk(
        I, 'without_state', hk(I, 'transform_with_state', f)),
}


def rule_eval_summary(R):
  """One record for each call, with everything about it."""
  for label, prog in PROGS:
    for kind in KINDS:
      def scen(I, label=label, prog=prog, kind=kind):
        A = arrays(I)
        TRAIN[0] = True
        runs = []

        def fn(I, a, k):
          runs.append(Log())
          return prog(I, runs[-1], a[0])
        f = KINDS[kind](I, HostFn(fn, 'f'))
        s = hk(I, 'experimental.eval_summary', f)
        what = f'{label}, {kind}'
        for time in ('', ', again'):
          o = attempt(I, s, [S('x2')])
          if not o.ok:
            R.need(False if o.exc_name(I) != 'Undecided' else None,
                   'summary', what, f'ends with {o!r}', last_loc(I))
            return
          if not runs:
            R.need(False, 'summary', what, 'the function is not run',
                   last_loc(I))
            return
          records(R, I, A, what + time, o.v, runs[-1].calls)
      R.explore(f'{label} {kind}', scen)


def seq(v):
  if isinstance(v, Tup):
    return list(v.items)
  if isinstance(v, Obj) and v.items is not None:
    return [e[1] for e in v.items]
  return None


def records(R, I, A, what, got, calls):
  got = seq(got)
  calls = [c for c in calls if c.get('done')]
  g = lambda o, n: I.getattr(o, n)
  have = None if got is None else [
      None if x == NONE else (g(g(x, 'module_details'), 'module'),
                              g(g(x, 'module_details'), 'method_name'))
      for x in got]
  want = [(c['m'], K(c['n'])) for c in calls]
  R.need(None if have is None else have == want, 'every-call', what,
         f'records {have}, the calls are {want}', last_loc(I))
  if have != want:
    return
  for i, (x, c) in enumerate(zip(got, calls)):
    w = f'{what}, call {i} ({c["n"]})'
    for field, v in (('args_spec', c['args']), ('kwargs_spec', c['kw']),
                     ('output_spec', c['out'])):
      describes(R, I, A, f'{w}, {field}', g(x, field), v)
    R.need(g(g(x, 'context'), 'module') == c['m'] and
           g(g(x, 'context'), 'method_name') == K(c['n']), 'context', w,
           f'the context is {g(x, "context")!r}', last_loc(I))
    st = seq(g(x, 'call_stack'))
    have = None if st is None else [
        (g(s, 'module'), g(s, 'method_name')) for s in st
        if g(s, 'module').cls == c['m'].cls]  # not the name scopes
    want = [(m, K(n)) for m, n in c['stack']]
    R.need(None if have is None else have == want, 'call-stack', w,
           f'is {have}, the active modules are {want}', last_loc(I))
    for part in ('params', 'state'):
      v = g(g(x, 'module_details'), part)
      have = {}
      for e in (v.items if isinstance(v, Obj) and v.items is not None else []):
        have[e[1]] = e[2]
      want = c['owned'][part]
      R.need({k.v for k in have} == set(want), 'owned', f'{w}, {part}',
             f'lists {sorted(k.v for k in have)}, the module owns '
             f'{sorted(want)}', last_loc(I))
      for k, y in have.items():
        if k.v in want:
          describes(R, I, A, f'{w}, {part} {k.v}', y, want[k.v])


def describes(R, I, A, w, have, v):
  """The value with each array replaced by its shape and type."""
  def put(ok, msg):
    R.need(ok, 'described', w, msg, last_loc(I))

  def go(p, x, y):
    if isinstance(y, Tup):
      if not isinstance(x, Tup) or len(x.items) != len(y.items):
        return put(False, f'{p} is {x!r} for {y!r}')
      for i, (a, b) in enumerate(zip(x.items, y.items)):
        go(f'{p}[{i}]', a, b)
    elif isinstance(y, Obj) and y.kind in ('dict', 'list'):
      if not isinstance(x, Obj) or x.kind != y.kind or len(x.items) != len(
          y.items):
        return put(False, f'{p} is {x!r} for {y!r}')
      if y.kind == 'list':
        for i, (a, b) in enumerate(zip(x.items, y.items)):
          go(f'{p}[{i}]', a[1], b[1])
        return
      a, b = {e[1]: e[2] for e in x.items}, {e[1]: e[2] for e in y.items}
      if set(a) != set(b):
        return put(False, f'{p} has the keys {sorted(map(repr, a))}')
      for k in a:
        go(f'{p}[{k}]', a[k], b[k])
    elif isinstance(y, K):
      put(x == y, f'{p} is {x!r} for {y!r}')
    else:
      if not isinstance(x, Obj) or 'shape' not in x.attrs:
        return put(False, f'{p} is {x!r} for an array')
      for n in ('shape', 'dtype'):
        a, b = norm_copy(x.attrs[n]), norm_copy(I.getattr(y, n))
        put(a == b, f'{p} has the {n} {a!r}, the array {b!r}')
  go('it', have, v)


def sizes(I, log, x):
  """Parameters of known sizes, some of which belong to a submodule."""
  def sub(I, m, n, a, kw):
    hk(I, 'get_parameter', K('w'), Tup([K(20), K(100)]), init=ONES)
    return a[0]

  def act(I, m, n, a, kw):
    hk(I, 'get_parameter', K('b'), Tup([K(7)]), init=ONES)
    hk(I, 'get_parameter', K('w'), Tup([K(5), K(3)]), init=ONES)
    hk(I, 'get_parameter', K('a'), Tup([K(7)]), init=ONES)
    hk(I, 'get_state', K('s'), Tup([K(2)]), init=ONES)
    I.call(I.getattr(log.module(I, sub, 'sub'), 'other'), [S('x4')],
           {'k': a[0]})
    return Tup([a[0], S('x3')])
  I.call(log.module(I), [x])
  I.call(log.module(I, act), [x])
  return I.call(log.module(I, lambda *_: NONE), [x])


ONES = Ext('jax.numpy.ones')
TABLES = [
    ('by default', None, None), ('given None', None, None),
    ('every call', ['module', 'config', 'owned_params', 'input', 'output',
                    'params_size'], []),
    ('calls with parameters', ['params_size', 'module'], ['has_params']),
    ('calls with results', ['output', 'owned_params', 'module'],
     ['has_output']),
    ('both', ['module', 'input', 'params_size'],
     ['has_params', 'has_output']),
]
ALL = ['module', 'config', 'owned_params', 'input', 'output', 'params_size',
       'params_bytes']


def text(v):
  """The part of a string that is known."""
  if isinstance(v, K):
    return str(v.v)
  if isinstance(v, T) and v.op == 'cat':
    return ''.join(map(text, v.args))
  return ''


def inside(v, out=None):
  """Objects a term mentions, in order."""
  out = [] if out is None else out
  if isinstance(v, Obj):
    if v.items is not None:
      for e in v.items:
        inside(e[2] if e[0] == 'kv' else e[1], out)
    else:
      out.append(v)
  elif isinstance(v, Tup):
    for x in v.items:
      inside(x, out)
  elif isinstance(v, T):
    for x in v.args:
      if isinstance(x, (V, tuple)):
        inside(Tup(list(x)) if isinstance(x, tuple) else x, out)
  return out


def flat(v):
  if isinstance(v, Tup):
    return [y for x in v.items for y in flat(x)]
  if isinstance(v, Obj) and v.items is not None:
    return [y for e in v.items
            for y in flat(e[2] if e[0] == 'kv' else e[1])]
  return [] if isinstance(v, K) else [v]


def rule_tabulate(R):
  """One row for each call that passes the filters, with what was asked for."""
  for label, prog in [('sizes', sizes), ('nested', nested), ('one', one)]:
    for how, columns, filters in TABLES:
      if columns is None and label == 'nested':
        continue

      def scen(I, label=label, prog=prog, how=how, columns=columns,
               filters=filters):
        A = arrays(I)
        TRAIN[0] = True
        runs, tables = [], []

        def fn(I, a, k):
          runs.append(Log())
          return prog(I, runs[-1], a[0])
        kw = {}
        if how == 'given None':
          kw = dict(columns=NONE, filters=NONE)
        if columns is not None:
          kw['columns'] = I.mklist([K(c) for c in columns])
        if filters is not None:
          kw['filters'] = I.mklist([K(c) for c in filters])
        f = HostFn(fn, 'f')
        o = attempt(I, hk(I, 'experimental.tabulate', f, **kw), [S('x2')])
        what = f'{label}, {how}'
        if not o.ok:
          R.need(False if o.exc_name(I) != 'Undecided' else None, 'table',
                 what, f'ends with {o!r}', last_loc(I))
          return
        if not runs:
          R.need(False, 'table', what, 'the function is not run', last_loc(I))
          return
        want = [c for c in runs[-1].calls if not (
            'has_output' in (filters if filters is not None else FILTERS) and
            c['out'] == NONE or
            'has_params' in (filters if filters is not None else FILTERS) and
            not c['owned']['params'])]
        t = o.v
        if not want:
          R.need(isinstance(t, K), 'rows', what, 'there is a table for no rows',
                 last_loc(I))
          return
        if not isinstance(t, T) or t.op != 'call' or t.args[0] != Ext(
            'tabulate.tabulate'):
          R.need(False if isinstance(t, K) else None, 'rows', what,
                 f'returns {t!r}'[:200], last_loc(I))
          return
        rows = seq(t.args[1].items[0] if isinstance(t.args[1], Tup) else
                   t.args[1][0])
        rows = None if rows is None else [seq(r) for r in rows]
        R.need(None if rows is None else len(rows) == len(want), 'rows', what,
               f'has {rows and len(rows)} rows for {len(want)} calls',
               last_loc(I))
        kws = dict(t.args[2]) if not isinstance(t.args[2], Tup) else {}
        cols = columns or ALL
        heads = seq(kws.get('headers', NONE))
        R.need(None if heads is None else len(heads) == len(cols), 'columns',
               what, f'has the headers {heads}', last_loc(I))
        if rows is None or len(rows) != len(want):
          return
        for i, (r, c) in enumerate(zip(rows, want)):
          w = f'{what}, row {i}'
          R.need(len(r) == len(cols), 'columns', w, f'has {len(r)} cells',
                 last_loc(I))
          for cell, col in zip(r, cols):
            check_cell(R, I, f'{w}, {col}', col, cell, c)
      R.explore(f'{label} {how}', scen)


FILTERS = ['has_output', 'has_params']


def check_cell(R, I, w, col, cell, c):
  def put(ok, msg):
    R.need(ok, 'cell', w, msg, last_loc(I))
  if col == 'module':
    have = [l.strip(' \u2514') for l in text(cell).split('\n')]
    want = []
    for m, n in c['stack']:
      name, cls = I.getattr(m, 'module_name').v, m.cls.name
      want.append(f'{name} ({cls})' if n == '__call__' else
                  f'{name} ({cls}.{n})')
    put(have == want, f'says {have}, the call is {want}')
  elif col == 'config':
    put(c['m'] in inside(cell), f'is {cell!r}'[:200])
  elif col in ('input', 'output'):
    v = flat(Tup([c['args'], c['kw']]) if col == 'input' else c['out'])
    have = [norm_copy(x.attrs['shape']) if 'shape' in x.attrs else x
            for x in inside(cell)]
    want = [norm_copy(I.getattr(x, 'shape')) for x in v]
    put(have == want, f'shows arrays of the shapes {have} for {want}')
  elif col == 'params_size':
    n = 0
    for x in c['owned']['params'].values():
      sh = I.getattr(x, 'shape')
      p = 1
      for d in sh.items:
        p = p * d.v if isinstance(d, K) and p is not None else None
      n = n + p if n is not None and p is not None else None
    if n is not None:
      put(cell == K(f'{n:,}') or text(cell) == f'{n:,}',
          f'is {cell!r} for {n} numbers')
  elif col == 'owned_params':
    name = I.getattr(c['m'], 'module_name').v
    own = {k[len(name) + 1:]: I.getattr(x, 'shape').items
           for k, x in c['owned']['params'].items()
           if k.rsplit('/', 1)[0] == name}
    if all(isinstance(d, K) for x in own.values() for d in x):
      def size(x):
        p = 1
        for d in x:
          p *= d.v
        return p
      have = text(cell).split('\n') if own else [text(cell)]
      want = [f'{k}: [{",".join(str(d.v) for d in x)}]' for k, x in sorted(
          own.items(), key=lambda e: (-size(e[1]), e[0]))] or ['']
      put(have == want, f'says {have} for {want}')
