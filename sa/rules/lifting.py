"""C25/C30: lifted functions, params_dict and state_dict."""
from ..harness import *
from .params import WRAPPERS, getp, last_loc, lookup2, norm_copy, mentions
from .structures import content


def inner_fn(I, names, log):
  """A transformed function with parameters in the given modules."""
  def f(I, a, k):
    for n in names:
      if n == '~':
        log.append((n, attempt(I, HostFn(lambda I, a, k: getp(I)))))
      else:
        outer, _, sub = n.partition('/')
        def leaf(I, a, k, n=n):
          log.append((n, attempt(I, HostFn(lambda I, a, k: getp(I)))))
          return S('z')
        m = I.call(client(I, 'Leaf'), [K(outer)])
        if sub:
          I.call(m, [HostFn(lambda I, a, k, sub=sub, leaf=leaf: I.call(
              I.call(client(I, 'Leaf'), [K(sub)]), [HostFn(leaf)]))])
        else:
          I.call(m, [HostFn(leaf)])
    return S('out')
  return I.call(pub(I, 'transform'), [HostFn(f, 'inner')])


INNER = [(), ('~',), ('a',), ('~', 'a', 'b/c'), ('lifted', 'lifted_1')]
LNAMES = [(None,), (None, None), ('l', 'l2'), ('l', 'l_1'), (None, 'linear')]


def rule_c25(R):
  for inner in INNER:
    for names in LNAMES:
      for place in ('directly', 'in a module', 'in a method', 'lifted again'):
        lift_prog(R, inner, names, place)
  for w in WRAPPERS:
    if w[0] not in ('under hk.eval_shape', 'under hk.while_loop',
                    'under hk.scan', 'under hk.fori_loop', 'directly',
                    'in a module'):
      lift_prog(R, ('~', 'a'), (None,), 'directly', w)


def lift_prog(R, inner, names, place, wrapper=None):
  text = f'lifts {list(names)} of {list(inner)} {place}' + (
      f' {wrapper[0]}' if wrapper else '')

  def scen(I):
    syms = [f'v{i}.{j}' for i in range(len(names)) for j in range(len(inner))]
    setup(I, arrays=['x', 'z', 'out', 'shape', 'dtype', 'rng', 'own'] + syms,
          shapes_ok=('shape',), keys=('rng', 'key2'))
    I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
        t, S('shape')) else None)
    pre = {'directly': '', 'in a module': 'm/', 'in a method': 'm/~other/',
           'lifted again': 'again/'}[place]
    if wrapper and wrapper[2] == 'm':
      pre = 'm/'
    full = []
    for i, n in enumerate(names):
      n = n or 'lifted'
      if n in [x for x, _ in full]:
        n += '_1'
      full.append((n, pre + n))

    def prog(log):
      def use(I, a, k):
        for i, n in enumerate(names):
          mine = []
          t = inner_fn(I, inner, mine)
          kw = {} if n is None else {'name': K(n)}
          l = I.call(pub(I, 'experimental.lift'), [I.getattr(t, 'init')], kw)
          before = attempt(I, pub(I, 'maybe_next_rng_key'))
          p = attempt(I, l, [S('rng')])
          mine.clear()
          r = attempt(I, I.getattr(t, 'apply'), [p.v, NONE]) if p.ok else p
          log.append((p, r, list(mine)))
        log.append(attempt(I, HostFn(lambda I, a, k: getp(I, name='own'))))
        return S('x')

      def body(I, a, k):
        h = HostFn(use, 'use')
        if wrapper:
          wrapper[1](I, h)
        elif place == 'in a module':
          I.call(I.call(client(I, 'Leaf'), [K('m')]), [h])
        elif place == 'in a method':
          I.call(I.getattr(I.call(client(I, 'Leaf'), [K('m')]), 'other'), [h])
        elif place == 'lifted again':
          t2 = I.call(pub(I, 'transform'), [h])
          l2 = I.call(pub(I, 'experimental.lift'), [I.getattr(t2, 'init')],
                      {'name': K('again')})
          p2 = I.call(l2, [S('rng')])
          log.clear()
          I.call(I.getattr(t2, 'apply'), [p2, NONE])
        else:
          use(I, [], {})
        return S('x')
      return body

    own = {'in a module': 'm', 'in a method': 'm', 'lifted again': 'again/~'
           }.get(place, wrapper[2] if wrapper else '~')
    # init
    log = []
    t = I.call(pub(I, 'transform'), [HostFn(prog(log), 'prog')])
    out = attempt(I, I.getattr(t, 'init'), [S('rng')])
    c = text + ' during init'
    if not out.ok:
      R.need(None, 'run', c, f'ended with {out!r}', last_loc(I))
      return
    # optimize_rng_use may run the body once more beforehand: the last run
    # is the one whose effects stay.
    log = log[-len(names) - 1:]
    for (short, n), (p, r, reads) in zip(full, log):
      for b in inner:
        v = lookup2(I, out.v, f'{n}/{b}', 'w')
        R.need(v.ok, 'params-lifted', f'{c}: {n}/{b}',
               'the parameter is not among those of the outer function',
               last_loc(I))
        q = lookup2(I, p.v, b, 'w') if p.ok else p
        R.need(v.ok and q.ok and norm_copy(q.v) == norm_copy(v.v),
               'init-returns-params', f'{c}: {n}/{b}',
               f'the lifted function returns {q!r}, the outer init {v!r}',
               last_loc(I))
    have = {a for a, _ in content(I, out.v)}
    want = {f'{n}/{b}' for _, n in full for b in inner} | {own}
    R.need(have == want, 'params-lifted', c,
           f'the outer parameters are in {sorted(have)}', last_loc(I))
    # apply
    log = []
    t = I.call(pub(I, 'transform'), [HostFn(prog(log), 'prog')])
    P = {own: I.mkdict({'own': S('own')})}
    for i, (_, n) in enumerate(full):
      for j, b in enumerate(inner):
        P[f'{n}/{b}'] = I.mkdict({'w': S(f'v{i}.{j}')})
    out = attempt(I, I.getattr(t, 'apply'), [I.mkdict(P), S('rng')])
    c = text + ' during apply'
    if not out.ok:
      R.need(None, 'run', c, f'ended with {out!r}', last_loc(I))
      return
    log = log[-len(names) - 1:]
    for i, (p, r, reads) in enumerate(log[:len(full)]):
      got = content(I, p.v) if p.ok else p
      want = {(b, 'w'): S(f'v{i}.{j}') for j, b in enumerate(inner)}
      R.need(got == want, 'apply-returns-params', f'{c}: {full[i][1]}',
             f'the lifted function gives {show(got)}', last_loc(I))
      R.need(r.ok and norm_copy(r.v) == S('out') and [
          (n, v.ok and norm_copy(v.v)) for n, v in reads] == [
              (b, S(f'v{i}.{j}')) for j, b in enumerate(inner)],
             'apply-usable', f'{c}: {full[i][1]}',
             f'applying with the lifted parameters gives {r!r}, reads '
             f'{show(reads)}', last_loc(I))
    R.need(log[-1].ok and norm_copy(log[-1].v) == S('own'), 'outer-unaffected',
           c, f'a parameter of the outer function reads as {log[-1]!r}',
           last_loc(I))
  R.explore(text, scen)


# ------------------------------------------------------------------- C30
def rule_c30(R):
  for phase in ('init', 'apply'):
    for wname, wrap, bundle in WRAPPERS:
      if wname in ('under hk.eval_shape', 'under hk.while_loop',
                   'under hk.scan', 'under hk.fori_loop'):
        continue
      for share in (False, True):
        dicts(R, phase, wname, wrap, bundle, share)


def dicts(R, phase, wname, wrap, bundle, share):
  """The modules of the program and the parameters each one owns:

  m (w); m/sub made in m (w, b); shared made outside, called by m when share;
  m_1 and mm (names that start alike) not part of m; '~' outside.
  """
  name = f'params_dict/state_dict {wname} during {phase}' + (
      ', with a shared module' if share else '')
  pre = 'm/' if bundle == 'm' else ''
  mods = ['own', 'own/sub', 'shared', 'own_1', 'ownother', 'own_1/sub']

  def scen(I):
    setup(I, arrays=['x', 'z', 'shape', 'dtype', 'rng'] + [
        f'{m}.{k}' for m in mods for k in ('w', 'w.s', 'w.n')],
          shapes_ok=('shape',), keys=('rng', 'key2'))
    I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
        t, S('shape')) else None)
    got = {}

    def use(m):
      def f(I, a, k):
        got['p', m] = getp(I)
        hk(I, 'get_state', K('w'), S('shape'), S('dtype'), init=S('init2'))
        hk(I, 'set_state', K('w'), S(f'{m}.w.n'))
        return S('z')
      return HostFn(f, m)

    def mk(n):
      return I.call(client(I, 'Leaf'), [K(n)])

    def prog(I, a, k):
      shared = mk('shared')

      def own(I, a, k):
        I.call(use('own'), [])
        I.call(mk('sub'), [use('own/sub')])
        if share:
          I.call(shared, [use('shared')])
        return S('z')
      m = mk('own')
      I.call(m, [HostFn(own)])
      if not share:
        I.call(shared, [use('shared')])

      def own1(I, a, k):
        I.call(use('own_1'), [])
        I.call(mk('sub'), [use('own_1/sub')])
        return S('z')
      I.call(mk('own'), [HostFn(own1)])
      I.call(mk('ownother'), [use('ownother')])
      got['pd'] = attempt(I, I.getattr(m, 'params_dict'))
      got['sd'] = attempt(I, I.getattr(m, 'state_dict'))
      return S('x')
    t = transformed(I, lambda I, a, k: (wrap(I, HostFn(prog, 'prog')),
                                        S('x'))[1])
    if phase == 'init':
      args = [S('rng')]
    else:
      args = [I.mkdict({pre + m: I.mkdict({'w': S(f'{m}.w')}) for m in mods}),
              I.mkdict({pre + m: I.mkdict({'w': S(f'{m}.w.s')})
                        for m in mods}), S('rng')]
    out = attempt(I, I.getattr(t, phase), args)
    if not out.ok or 'pd' not in got:
      R.need(None, 'run', name, f'ended with {out!r}', last_loc(I))
      return
    mine = ['own', 'own/sub'] + ['shared'] * share
    for kind in ('pd', 'sd'):
      r = got[kind]
      api = 'params_dict' if kind == 'pd' else 'state_dict'
      if not r.ok:
        R.need(False, 'readable', f'{name} {api}', f'gives {r!r}', last_loc(I))
        continue
      ks = I.entries(r.v)
      keys = {x.v for x, l in ks if not l and isinstance(x, K)}
      R.need(len(keys) == len(ks) and keys == {f'{pre}{m}/w' for m in mine},
             'owns-exactly', f'{name} {api}',
             f'holds {sorted(keys)}', last_loc(I))
      for m in mine:
        v = attempt(I, HostFn(lambda I, a, k, m=m: I.getitem(
            r.v, K(f'{pre}{m}/w'))))
        want = norm_copy(got['p', m]) if kind == 'pd' else S(f'{m}.w.n')
        R.need(v.ok and norm_copy(v.v) == want, 'current-values',
               f'{name} {api} {m}', f'gives {v!r}', last_loc(I))
  R.explore(name, scen)
