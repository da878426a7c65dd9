"""C01: every exit restores the ambient context."""
from ..harness import *


def user_body(*extra):
  """A client body: runs `extra` steps, then a callback that may raise."""
  def body(I, args, kwargs):
    for s in extra:
      s(I)
    return I.call(S('user'), [])
  return body


def rule_c01(R):
  for opt in (False, True):
    o = ' (python -O)' if opt else ''
    for which in ('transform', 'transform_with_state'):
      for phase in ('init', 'apply'):
        def scen(I, which=which, phase=phase):
          setup(I, arrays=('x', 'w'), maps=('P', 'St'))
          if which == 'transform':
            I.assume(T('truthy', S('St')), False)
          I.raising = frozenset([S('user')])
          t = transformed(I, user_body(), which)
          before = heap(I)
          args = [S('rng'), S('x')]
          if phase == 'apply':
            args = [S('P')] + ([S('St')] if which != 'transform' else []) + args
          out = attempt(I, I.getattr(t, phase), args)
          construct = f'hk.{which}(f).{phase}'
          how = 'f raises' if any(e.kind == 'usercall' and e.d.get('raised')
                                  for e in I.trace) else 'f returns'
          if how == 'f raises':
            R.need(out.user(), 'exception-propagates', construct,
                   f'an exception raised by f is not propagated{o}')
          for x, k in heap_diff(I, before):
            R.need(False, 'context-restored', construct + o,
                   f'{name_of(I, x)} ({k}) is left changed after {phase} when '
                   f'{how}{o}', I.loc(), guards_text(I))
          R.need(True, 'context-restored', construct + o, '')
        R.explore(f'{which}.{phase}{o}', scen, optimized=opt)
  for opt in (False, True):
    for phase in ('init', 'apply'):
      for rname, region in REGIONS:
        in_transform(R, rname, region, phase, opt)


def cm_region(make):
  def region(I, inner):
    return using(I, make(I), lambda _: I.call(inner, []))
  return region


def dec_region(name, *args, **kw):
  def region(I, inner):
    f = hk(I, name, inner, **kw)
    return I.call(f, list(args))
  return region


def _cond(I, inner):
  br = HostFn(lambda I, a, k: I.call(inner, []), 'branch')
  return hk(I, 'cond', S('pred'), br, br, S('x'))


def _switch(I, inner):
  br = HostFn(lambda I, a, k: I.call(inner, []), 'branch')
  return hk(I, 'switch', S('ix'), I.mklist([br]), S('x'))


def _scan(I, inner):
  f = HostFn(lambda I, a, k: (I.call(inner, []), Tup([S('x'), S('x')]))[1],
             'scan_body')
  return hk(I, 'scan', f, S('x'), S('xs'), S('n'))


def _fori(I, inner):
  f = HostFn(lambda I, a, k: I.call(inner, []), 'fori_body')
  return hk(I, 'fori_loop', K(0), S('n'), f, S('x'))


def _while(I, inner):
  f = HostFn(lambda I, a, k: I.call(inner, []), 'while_body')
  g = HostFn(lambda I, a, k: S('go'), 'while_cond')
  return hk(I, 'while_loop', g, f, S('x'))


def _while_cond(I, inner):
  f = HostFn(lambda I, a, k: S('x'), 'while_body')
  g = HostFn(lambda I, a, k: I.call(inner, []), 'while_cond')
  return hk(I, 'while_loop', g, f, S('x'))


def _eval_shape(I, inner):
  return hk(I, 'eval_shape', inner)


def _nested(I, inner):
  t = hk(I, 'transform', inner)
  return I.call(I.getattr(t, 'init'), [S('key2')])


def _nested_apply(I, inner):
  t = hk(I, 'transform', inner)
  return I.call(I.getattr(t, 'apply'), [I.mkdict(), S('key2')])


def _lift(I, inner):
  t = hk(I, 'transform', inner)
  m = hk(I, 'experimental.lift', I.getattr(t, 'init'))
  return I.call(m, [S('key2')])


def mod_region(method):
  def region(I, inner):
    m = I.call(client(I, 'Leaf'), [])
    if method == '__call__':
      return I.call(m, [inner])
    if method == 'prop':
      I.setattr(m, 'prop_init', HostFn(lambda I, a, k: I.call(inner, [])))
      return I.getattr(m, 'prop')
    return I.call(I.getattr(m, method), [inner])
  return region


def _hook(I, inner):
  m = I.call(client(I, 'Leaf'), [])
  return using(I, hk(I, 'experimental.intercept_methods', S('ic')),
               lambda _: I.call(m, [inner]))


REGIONS = [
    ('hk.with_rng', cm_region(lambda I: hk(I, 'with_rng', S('key2')))),
    ('hk.experimental.custom_creator', cm_region(
        lambda I: hk(I, 'experimental.custom_creator', S('cr'),
                     params=TRUE, state=TRUE))),
    ('hk.experimental.custom_getter', cm_region(
        lambda I: hk(I, 'experimental.custom_getter', S('ge'),
                     params=TRUE, state=TRUE))),
    ('hk.experimental.intercept_methods', cm_region(
        lambda I: hk(I, 'experimental.intercept_methods', S('ic')))),
    ('intercepted method', _hook),
    ('hk.experimental.name_scope', cm_region(
        lambda I: hk(I, 'experimental.name_scope', K('scope')))),
    ('nested name_scope', cm_region(
        lambda I: hk(I, 'experimental.name_scope', K('a/b')))),
    ('module constructor', lambda I, inner: I.call(client(I, 'InCtor'),
                                                   [inner])),
    ('module __call__', mod_region('__call__')),
    ('module method', mod_region('other')),
    ('module property', mod_region('prop')),
    ('transparent method', mod_region('clear')),
    ('hk.jit', dec_region('jit')),
    ('hk.remat', dec_region('remat')),
    ('hk.experimental.named_call', dec_region('experimental.named_call')),
    ('hk.grad', dec_region('grad', S('x'))),
    ('hk.value_and_grad', dec_region('value_and_grad', S('x'))),
    ('hk.vmap', dec_region('vmap', S('x'))),
    ('hk.eval_shape', _eval_shape),
    ('hk.cond', _cond),
    ('hk.switch', _switch),
    ('hk.scan', _scan),
    ('hk.fori_loop', _fori),
    ('hk.while_loop body', _while),
    ('hk.while_loop cond', _while_cond),
    ('hk.experimental.optimize_rng_use',
     dec_region('experimental.optimize_rng_use')),
    ('nested init', _nested),
    ('nested apply', _nested_apply),
    ('hk.experimental.lift', _lift),
]


def in_transform(R, rname, region, phase, opt):
  """Region left normally or by an exception: the context is as before it."""
  o = ' (python -O)' if opt else ''
  construct = f'{rname}{o}'

  def scen(I):
    setup(I, arrays=('x', 'w'), maps=('P', 'St'), keys=('rng', 'key2'))
    I.raising = frozenset([S('user')])
    got = {}

    def inner(I, args, kwargs):
      return I.call(S('user'), [])

    def body(I, args, kwargs):
      got['a'] = probe(I, 'a')
      n0 = len(I.trace)
      got['o'] = attempt(I, HostFn(
          lambda I, a, k: region(I, HostFn(inner, 'inner'))))
      got['raised'] = any(e.kind == 'usercall' and e.d.get('raised')
                          for e in I.trace[n0:])
      got['b'] = probe(I, 'b')
      return S('x')
    t = transformed(I, body)
    P = I.mkdict({'~': I.mkdict({'probe_a': S('w'), 'probe_b': S('w')})})
    args = [S('rng')] if phase == 'init' else [P, I.mkdict(), S('rng')]
    before = heap(I)
    out = attempt(I, I.getattr(t, phase), args)
    if 'b' not in got:
      return
    a, b, how = got['a'], got['b'], (
        'the region raises' if got['o'].kind == 'raise'
        else 'the region completes')
    if got['raised']:
      R.need(got['o'].kind == 'raise', 'exception-propagates', construct,
             f'an exception raised inside {rname} is swallowed')
    na, nb = a.get('name'), b.get('name')
    if na is not None and nb is not None:
      ok = (const_str(na) or '').replace('probe_a', '') == (
          const_str(nb) or '').replace('probe_b', '')
      if const_str(na) is None or const_str(nb) is None:
        ok = None
      R.need(ok, 'module-scope-restored', construct,
             f'after {rname} ({how}, during {phase}) parameters are looked up '
             f'under {nb!r} instead of {na!r}', I.loc(), guards_text(I))
    else:
      R.need(None if na is None else False, 'module-scope-restored', construct,
             f'after {rname} ({how}, during {phase}) the context is unusable: '
             f'{b["param"]!r}', I.loc(), guards_text(I))
    ka, kb = a.get('rng'), b.get('rng')
    ok = isinstance(kb, V) and mentions(kb, S('rng')) and \
        not mentions(kb, S('key2'))
    R.need(ok, 'rng-scope-restored', construct,
           f'after {rname} ({how}, during {phase}) random keys no longer come '
           f'from the surrounding transform: {show(kb)}', I.loc(),
           guards_text(I))
    extra = [f for f in b['called'] if f in (S('cr'), S('ge'), S('ic'))]
    R.need(not extra, 'hooks-restored', construct,
           f'after {rname} ({how}, during {phase}) {extra} still runs',
           I.loc(), guards_text(I))
    for x, k in heap_diff(I, before):
      R.need(False, 'context-restored', construct,
             f'{name_of(I, x)} ({k}) is left changed by {rname} when {how}{o}',
             I.loc(), guards_text(I))
  R.explore(f'{rname}/{phase}{o}', scen, optimized=opt)
