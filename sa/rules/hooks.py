"""Creator/getter/interceptor combinations (used by C04, C06, C13, C14)."""
from ..harness import *
from .params import (calls_of, getp, last_loc, lookup2, norm_copy, mentions)


def nest(I, cms, f):
  """`with cms[0](), cms[1](), ...: f()`."""
  if not cms:
    return f()
  return using(I, cms[0](), lambda _: nest(I, cms[1:], f))


def place(I, where, f):
  if where == '~':
    return f()
  if where == 'm':
    return I.call(I.call(client(I, 'Leaf'), [K('m')]), [HostFn(
        lambda I, a, k: f())])

  def inner(I, a, k):
    return I.call(I.getattr(I.call(client(I, 'Leaf'), [K('b')]), 'other'),
                  [HostFn(lambda I, a, k: f())])
  return I.call(I.call(client(I, 'Leaf'), [K('a')]), [HostFn(inner)])


BUNDLE = {'~': '~', 'm': 'm', 'a/b': 'a/b'}


def store_matrix(R, kind):
  """What is stored, and what reads give, under every number of hooks."""
  st = kind == 'state'
  n = 'w'

  def run(phase, where, nc, ng, tail):
    name = (f'{kind} at {where} during {phase}, {nc} creators, {ng} getters' +
            (', written' if tail else ''))

    def scen(I):
      setup(I, arrays=('w', 'x', 'v2', 'shape', 'dtype'),
            shapes_ok=('shape',))
      I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
          t, S('shape')) else None)
      log, got = [], {}

      def creator(i):
        def f(I, a, k):
          log.append(('c', i))
          return T('sym2', f'c{i}', I.call(a[0], list(a[1:4])))
        return HostFn(f, f'creator{i}')

      def getter(i):
        def f(I, a, k):
          log.append(('g', i))
          return T('sym2', f'g{i}', I.call(a[0], [a[1]]))
        return HostFn(f, f'getter{i}')

      def wrong(tag):
        def f(I, a, k):
          log.append(('wrong', tag))
          return I.call(a[0], list(a[1:-1]))
        return HostFn(f, 'wrong kind')

      def flags(i):
        both = i % 2 == 1
        return dict(params=K(both or not st), state=K(both or st))
      other = dict(params=K(st), state=K(not st))
      cms = [lambda i=i: hk(I, 'experimental.custom_creator', creator(i),
                            **flags(i)) for i in range(nc)]
      cms += [lambda i=i: hk(I, 'experimental.custom_getter', getter(i),
                             **flags(i)) for i in range(ng)]
      cms += [lambda: hk(I, 'experimental.custom_getter', wrong('getter'),
                         **other),
              lambda: hk(I, 'experimental.custom_creator', wrong('creator'),
                         **other)]

      def read():
        if not st:
          return getp(I)
        return hk(I, 'get_state', K(n), S('shape'), S('dtype'), init=S('init'))

      def block():
        got['a'] = read()
        got['b'] = read()
        if tail:
          hk(I, 'set_state', K(n), S('v2'))
          got['c'] = read()
          got['tail'] = hk(I, 'get_state', K(n))

      def body(I, a, k):
        def f():
          nest(I, cms, block)
          got['n'] = len(log)
          got['after'] = read()
          got['left'] = log[got['n']:]
          return S('x')
        return place(I, where, f)
      t = transformed(I, body)
      b = BUNDLE[where]
      full = I.mkdict({b: I.mkdict({n: S('w')})})
      if phase == 'init':
        out = attempt(I, I.getattr(t, 'init'), [S('rng')])
      else:
        empty = I.mkdict({})
        out = attempt(I, I.getattr(t, 'apply'), [
            empty if st else full, full if st else empty, NONE])
      if not out.ok:
        R.need(None, 'hook-run', name, f'ended with {out!r}', last_loc(I))
        return
      made = calls_of(I, S('init'))
      if phase == 'init':
        R.need(len(made) == 1, 'created-once', name,
               f'the initializer runs {len(made)} times', last_loc(I))
        if not made:
          return
        raw = made[0].result
        for i in reversed(range(nc)):
          raw = T('sym2', f'c{i}', raw)
      else:
        R.need(not made, 'not-created', name,
               'the initializer runs although a value was passed in',
               last_loc(I))
        raw = S('w')

      def G(v):
        for i in range(0):
          pass
        for i in reversed(range(ng)):
          v = T('sym2', f'g{i}', v)
        return v
      cur = S('v2') if tail else raw
      want = {'a': G(raw), 'b': G(raw), 'after': cur}
      if tail:
        want.update(c=G(cur), tail=G(cur))
      label = {'a': 'the first read', 'b': 'the second read',
               'c': 'a read after a write', 'tail': 'a read by name',
               'after': 'a read after the hooks are removed'}
      for k, w in want.items():
        R.need(norm_copy(got[k]) == w, 'read-value', f'{name}: {label[k]}',
               f'{label[k]} gives {show(got[k])} instead of {show(w)}',
               last_loc(I), guards_text(I))
      seq = [('c', i) for i in range(nc)] if phase == 'init' else []
      seq += [('g', i) for i in range(ng)] * (4 if tail else 2)
      R.need(log[:got['n']] == seq, 'hooks-run', name,
             f'hooks run as {log[:got["n"]]} instead of {seq}', last_loc(I))
      R.need(not got['left'], 'hooks-removed', name,
             f'{got["left"]} still run after their block', last_loc(I))
      res = I.getitem(out.v, K(0 if phase == 'init' else 1)) if not (
          phase == 'init' and st) else I.getitem(out.v, K(1))
      if st or phase == 'init':
        v = lookup2(I, res, b, n)
        w = raw if phase == 'init' else cur
        R.need(v.ok and norm_copy(v.v) == w, 'stored-value', name,
               f'{phase} returns {v!r} for it instead of {show(w)}',
               last_loc(I), guards_text(I))
    R.explore(name, scen)

  for phase in ('init', 'apply'):
    for where in ('~', 'm', 'a/b'):
      for nc in range(4):
        for ng in range(4):
          for tail in ((False, True) if st else (False,)):
            run(phase, where, nc, ng, tail)


def rule_params(R):
  store_matrix(R, 'parameter')


def rule_state(R):
  store_matrix(R, 'state')


# ------------------------------------------------------------ method calls
METHODS = ('__call__', 'other')


def rule_methods(R):
  """Nested method calls: each is scoped to its module and intercepted."""
  import itertools
  progs = []
  for depth in (1, 2, 3, 4):
    for who in itertools.product('ab', repeat=depth):
      if who[0] == 'a':
        progs.append(who)
  for phase in ('init', 'apply'):
    for who in progs:
      for ni in (0, 1, 2):
        method_prog(R, phase, who, ni, 'per call')
    for who in (('a',), ('a', 'a', 'a'), ('a', 'b', 'a')):
      for ni in (1, 2, 3):
        method_prog(R, phase, who, ni, 'inside')


def method_prog(R, phase, who, ni, where):
  meths = [METHODS[i % 2] for i in range(len(who))]
  text = '>'.join(f'{w}.{m}' for w, m in zip(who, meths))
  name = f'{text} during {phase}, {ni} interceptors {where}'

  def scen(I):
    want = {'~': {'top0', 'top1'}}
    for d, w in enumerate(who):
      want.setdefault(w, set()).update({f'p{d}', f'q{d}'})
    setup(I, arrays=['x', 'shape', 'dtype'] + [
        f'{b}.{x}' for b, xs in want.items() for x in sorted(xs)],
          shapes_ok=('shape',))
    log, got = [], {}

    def icpt(i):
      def f(I, a, k):
        ctx = a[3]
        log.append((i, I.getattr(ctx, 'module'),
                    I.getattr(ctx, 'method_name'),
                    I.getitem(a[1], K(0)), I.getattr(ctx, 'orig_method')))
        return T('sym2', f'i{i}', I.call(a[0], [I.getitem(a[1], K(0))]))
      return HostFn(f, f'interceptor{i}')
    mods = {}
    bodies = []

    def step(d):
      def f(I, a, k):
        getp(I, name=f'p{d}')
        if d + 1 < len(who):
          r = invoke(d + 1)
        else:
          r = S('ran')
        getp(I, name=f'q{d}')
        return T('sym2', f'b{d}', r)
      h = HostFn(f, f'body{d}')
      bodies.append(h)
      return h

    def invoke(d):
      m = mods[who[d]]
      f = m if meths[d] == '__call__' else I.getattr(m, meths[d])
      return I.call(f, [step(d)])

    def body(I, a, k):
      mods['a'] = I.call(client(I, 'Leaf'), [K('a')])
      mods['b'] = I.call(client(I, 'Leaf'), [K('b')])
      getp(I, name='top0')
      cms = [lambda i=i: hk(I, 'experimental.intercept_methods', icpt(i))
             for i in range(ni)]
      got['r'] = nest(I, cms, lambda: invoke(0))
      getp(I, name='top1')
      return S('x')
    t = transformed(I, body)
    if phase == 'init':
      out = attempt(I, I.getattr(t, 'init'), [S('rng')])
    else:
      P = I.mkdict({b: I.mkdict({x: S(f'{b}.{x}') for x in sorted(xs)})
                    for b, xs in want.items()})
      I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
          t, S('shape')) else None)
      out = attempt(I, I.getattr(t, 'apply'), [P, I.mkdict({}), NONE])
    if phase == 'apply':
      R.need(out.ok, 'method-scope', name,
             'a read inside a method does not resolve to the module whose '
             f'method runs: {out!r}', last_loc(I), guards_text(I))
    if not out.ok:
      R.need(None, 'method-run', name, f'ended with {out!r}', last_loc(I))
      return
    if phase == 'init':
      p = I.getitem(out.v, K(0))
      for b, xs in want.items():
        for x in sorted(xs):
          v = lookup2(I, p, b, x)
          R.need(v.ok, 'method-scope', f'{name}: {x}',
                 f'parameter {x} is not created in {b}', last_loc(I))
    r = S('ran')
    for d in reversed(range(len(who))):
      r = T('sym2', f'b{d}', r)
      for i in reversed(range(ni)):
        r = T('sym2', f'i{i}', r)
    R.need(got['r'] == r, 'method-result', name,
           f'the call returns {show(got["r"])} instead of {show(r)}',
           last_loc(I))
    seq = [(i, w, m) for w, m in zip(who, meths) for i in range(ni)]
    inv = {id(m): k for k, m in mods.items()}
    act = [(i, inv.get(id(m), '?'), getattr(mn, 'v', '?'))
           for i, m, mn, _, _ in log]
    R.need(act == seq, 'interceptors-run', name,
           f'interceptors see {act} instead of {seq}', last_loc(I))
    for (i, m, mn, a, om), d in zip(log, [d for d in range(len(who))
                                          for _ in range(ni)]):
      R.need(a is bodies[d], 'interceptor-arguments', name,
             f'an interceptor receives {show(a)}', last_loc(I))
  R.explore(name, scen)
