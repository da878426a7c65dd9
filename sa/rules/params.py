"""Parameter rules: creation, freezing, reuse, shape, getter/creator chains."""
from ..harness import *

GETP = ('haiku.get_parameter')


def getp(I, name='w', init='init', shape='shape', dtype='dtype'):
  return hk(I, 'get_parameter', K(name), S(shape), S(dtype), init=S(init))


def calls_of(I, sym, n0=0):
  return [e for e in I.trace[n0:] if e.kind == 'usercall' and e.f == sym]


def last_loc(I, *kinds):
  for e in reversed(I.trace):
    if e.loc[0] != '<client>' and not e.loc[0].startswith('<client'):
      return e.loc
  return None


def find_loc(I, pred):
  for e in I.trace:
    if pred(e):
      return e.loc
  return None


def norm_copy(v, memo=None):
  """Strips structure-preserving copies: treecopy(x) is x leafwise."""
  if memo is None:
    memo = {}
  if id(v) in memo:
    return memo[id(v)]
  r = v
  if isinstance(v, T):
    if v.op in ('treecopy', 'carry') and isinstance(v.args[0], V):
      r = norm_copy(v.args[0], memo)
    else:
      na = tuple(norm_copy(a, memo) if isinstance(a, V) else a for a in v.args)
      if not all(x is y for x, y in zip(na, v.args)):
        r = T(v.op, *na)
  elif isinstance(v, Tup):
    r = Tup([norm_copy(x, memo) for x in v.items])
  memo[id(v)] = r
  return r


def lookup2(I, m, a, b):
  """m[a][b] as the client sees it, or None when absent / open."""
  r = attempt(I, HostFn(lambda I, x, k: I.getitem(I.getitem(m, K(a)), K(b))))
  return r


def key_list(I, m):
  """Constant keys of a returned mapping, or None if not all constant."""
  ents = I.entries(m)
  out = []
  for x, l in ents:
    if l or not isinstance(x, K):
      return None
    out.append(x.v)
  return out


# --------------------------------------------------------------- wrappers
def _direct(I, f):
  return I.call(f, [])


def _in_module(I, f):
  return I.call(I.call(client(I, 'Leaf'), [], {'name': K('m')}), [f])


def _dec(name):
  def w(I, f):
    return I.call(hk(I, name, f), [])
  return w


def _cond(I, f):
  br = HostFn(lambda I, a, k: I.call(f, []), 'branch')
  return hk(I, 'cond', S('pred'), br, br, S('x'))


def _switch(I, f):
  br = HostFn(lambda I, a, k: I.call(f, []), 'branch')
  return hk(I, 'switch', S('ix'), I.mklist([br, br]), S('x'))


def _scan(I, f):
  g = HostFn(lambda I, a, k: Tup([a[0], I.call(f, [])]), 'scan_body')
  return hk(I, 'scan', g, S('x'), S('xs'), S('n'))


def _fori(I, f):
  g = HostFn(lambda I, a, k: I.call(f, []), 'fori_body')
  return hk(I, 'fori_loop', K(0), S('n'), g, S('x'))


def _while(I, f):
  g = HostFn(lambda I, a, k: I.call(f, []), 'while_body')
  c = HostFn(lambda I, a, k: S('go'), 'while_cond')
  return hk(I, 'while_loop', c, g, S('x'))


def _grad(I, f):
  g = HostFn(lambda I, a, k: I.call(f, []), 'loss')
  return I.call(hk(I, 'value_and_grad', g), [S('x')])


def _vmap(I, f):
  g = HostFn(lambda I, a, k: I.call(f, []), 'mapped')
  return I.call(hk(I, 'vmap', g), [S('x')])


def _eval_shape(I, f):
  return hk(I, 'eval_shape', f)


def _with_rng(I, f):
  return using(I, hk(I, 'with_rng', S('key2')), lambda _: I.call(f, []))


def _name_scope(I, f):
  return using(I, hk(I, 'experimental.name_scope', K('m')),
               lambda _: I.call(f, []))


WRAPPERS = [
    ('directly', _direct, '~'),
    ('in a module', _in_module, 'm'),
    ('in a name_scope', _name_scope, 'm'),
    ('under hk.with_rng', _with_rng, '~'),
    ('under hk.jit', _dec('jit'), '~'),
    ('under hk.remat', _dec('remat'), '~'),
    ('under named_call', _dec('experimental.named_call'), '~'),
    ('under optimize_rng_use', _dec('experimental.optimize_rng_use'), '~'),
    ('under hk.value_and_grad', _grad, '~'),
    ('under hk.vmap', _vmap, '~'),
    ('under hk.cond', _cond, '~'),
    ('under hk.switch', _switch, '~'),
    ('under hk.scan', _scan, '~'),
    ('under hk.fori_loop', _fori, '~'),
    ('under hk.while_loop', _while, '~'),
    ('under hk.eval_shape', _eval_shape, '~'),
]


def rule_c03(R):
  """apply never creates parameters."""
  # 1. concrete parameter sets
  cases = [('present', lambda b, I: I.mkdict({b: I.mkdict({'w': S('w')})})),
           ('absent name', lambda b, I: I.mkdict({b: I.mkdict({'v': S('w')})})),
           ('absent module', lambda b, I: I.mkdict(
               {'zz': I.mkdict({'w': S('w')})})),
           ('empty', lambda b, I: I.mkdict()),
           ('None', lambda b, I: NONE)]
  for wname, wrap, bundle in WRAPPERS:
    for cname, mk in cases:
      if R.tier == 'quick' and wname not in ('directly', 'in a module',
                                             'under hk.jit', 'under hk.scan') \
          and cname in ('absent name', 'None'):
        continue
      for flat in ((False, True) if wname == 'directly' and cname != 'None'
                   else (False,)):
        def scen(I, wrap=wrap, mk=mk, cname=cname, wname=wname, flat=flat,
                 bundle=bundle):
          setup(I, arrays=('w', 'x', 'xs', 'shape', 'dtype'), shapes_ok=(
              'shape',), keys=('rng', 'key2'))
          got = {'n': 0}

          def use(I, args, kwargs):
            got['init_flag'] = hk(I, 'running_init')
            r = attempt(I, HostFn(lambda I, a, k: getp(I)))
            got.setdefault('reads', []).append(r)
            if not r.ok:
              raise AbsRaise(r.v, r.node)
            return r.v

          def body(I, args, kwargs):
            return using(I, hk(I, 'experimental.custom_creator', S('cr')),
                         lambda _: wrap(I, HostFn(use, 'use')))
          t = transformed(I, body)
          P = mk(bundle, I)
          if flat:
            P = hk(I, 'data_structures.to_immutable_dict', P)
          out = attempt(I, I.getattr(t, 'apply'), [P, NONE, S('rng')])
          construct = f'hk.get_parameter {wname}, parameter {cname}'
          made = calls_of(I, S('init')) + calls_of(I, S('cr'))
          R.need(not made, 'no-creation-in-apply', construct,
                 'apply runs an initializer/creator and so creates a parameter',
                 made[0].loc if made else None, guards_text(I))
          f = got.get('init_flag')
          if f is not None:
            R.need(I.truth_term(f) == FALSE, 'running-init-false', construct,
                   f'hk.running_init() is {f!r} during apply {wname}')
          for r in got.get('reads', ()):
            if cname == 'present':
              R.need(r.ok and norm_copy(r.v) == S('w'), 'reads-given-value',
                     construct, f'apply reads {r!r} instead of the value passed '
                     'in params', last_loc(I), guards_text(I))
            else:
              R.need(r.raises(I, 'ValueError'), 'missing-raises', construct,
                     f'a parameter that is missing from params gives {r!r} '
                     'instead of ValueError', last_loc(I), guards_text(I))
          if not got.get('reads'):
            # zero-trip control flow only
            R.need(out.ok or out.raises(I, 'ValueError') or None,
                   'missing-raises', construct, f'apply ended with {out!r}')
        R.explore(f'apply/{wname}/{cname}{"/flat" if flat else ""}', scen)

  # 2. an arbitrary parameter mapping
  for kind in ('dict', 'flat'):
    def scen(I, kind=kind):
      setup(I, kind=kind, arrays=('w', 'x', 'shape', 'dtype'), maps=('P',),
            shapes_ok=('shape',))
      got = {}

      def body(I, args, kwargs):
        got['r'] = attempt(I, HostFn(lambda I, a, k: getp(I)))
        return S('x')
      t = transformed(I, body)
      attempt(I, I.getattr(t, 'apply'), [S('P'), NONE, S('rng')])
      made = calls_of(I, S('init'))
      construct = f'hk.get_parameter, arbitrary params ({kind})'
      R.need(not made, 'no-creation-in-apply', construct,
             'apply runs an initializer', made[0].loc if made else None,
             guards_text(I))
      if 'r' in got:
        r = got['r']
        if r.ok:
          want = T('getitem', T('getitem', S('P'), K('~')), K('w'))
          R.need(norm_copy(r.v) == want, 'reads-given-value', construct,
                 f'apply reads {show(r.v)}, not the value stored in params')
        else:
          R.need(r.raises(I, 'ValueError'), 'missing-raises', construct,
                 f'a missing parameter gives {r!r} instead of ValueError',
                 last_loc(I), guards_text(I))
    R.explore(f'apply/arbitrary params/{kind}', scen)

  # 3. init is init everywhere
  for wname, wrap, bundle in WRAPPERS:
    if wname == 'under hk.while_loop':
      continue
    def scen(I, wrap=wrap, wname=wname):
      setup(I, arrays=('w', 'x', 'xs', 'shape', 'dtype'), shapes_ok=('shape',),
            keys=('rng', 'key2'))
      got = {}

      def use(I, args, kwargs):
        got['flag'] = hk(I, 'running_init')
        return S('x')
      t = transformed(I, lambda I, a, k: wrap(I, HostFn(use, 'use')))
      attempt(I, I.getattr(t, 'init'), [S('rng')])
      if 'flag' in got:
        R.need(I.truth_term(got['flag']) == TRUE, 'running-init-true',
               f'hk.running_init {wname}',
               f'hk.running_init() is {got["flag"]!r} during init {wname}')
    R.explore(f'init/{wname}', scen)


# ------------------------------------------------------------------- C04
def rule_c04(R):
  """A parameter is created once, stored raw, and reused by every read."""
  for wname, wrap, bundle in WRAPPERS:
    if wname in ('under hk.while_loop', 'under hk.eval_shape'):
      continue
    for hooks in (False, True):
      def scen(I, wrap=wrap, wname=wname, bundle=bundle, hooks=hooks):
        setup(I, arrays=('w', 'x', 'xs', 'shape', 'dtype', 'n'),
              shapes_ok=('shape',), keys=('rng', 'key2'))
        if wname == 'under hk.fori_loop':
          I.assume(T('lt', K(0), S('n')))
        got = {'reads': []}

        def use(I, args, kwargs):
          got['reads'].append(getp(I))
          got['reads'].append(getp(I))
          return got['reads'][-1]

        def body(I, args, kwargs):
          if not hooks:
            return wrap(I, HostFn(use, 'use'))
          def inner(_):
            return using(I, hk(I, 'experimental.custom_getter', S('ge')),
                         lambda _: wrap(I, HostFn(use, 'use')))
          return using(I, hk(I, 'experimental.custom_creator', S('cr')), inner)
        t = transformed(I, body)
        out = attempt(I, I.getattr(t, 'init'), [S('rng')])
        construct = f'hk.get_parameter {wname}' + (
            ' with creator and getter' if hooks else '')
        if not out.ok:
          R.need(None, 'created-once', construct, f'init ended with {out!r}')
          return
        made = calls_of(I, S('cr' if hooks else 'init'))
        # optimize_rng_use traces the function once more in a scratch context
        scratch = 2 if 'optimize' in wname else 1
        R.need(1 <= len(made) <= scratch, 'created-once', construct,
               f'{len(made)} creations for one parameter read '
               f'{len(got["reads"])} times', made[-1].loc if made else
               last_loc(I), guards_text(I))
        for e in made:
          a = e.args if not hooks else e.args[1:3]
          R.need(list(a[:2]) == [S('shape'), S('dtype')],
                 'creation-arguments', construct,
                 f'the initializer/creator gets {a!r} instead of the requested '
                 'shape and dtype', e.loc)
        if not made:
          return
        raw = made[-1].d.get('result')
        reads = got['reads'][-2:]
        if hooks:
          ge = calls_of(I, S('ge'))
          R.need(len(ge) == len(got['reads']), 'getter-every-read', construct,
                 f'{len(ge)} getter calls for {len(got["reads"])} reads',
                 ge[-1].loc if ge else last_loc(I), guards_text(I))
          for e in ge[-2:]:
            R.need(norm_copy(e.args[1]) == raw, 'getter-sees-stored-value',
                   construct, f'the getter is given {show(e.args[1])} instead '
                   'of the stored value', e.loc)
          for e, r in zip(ge[-2:], reads):
            R.need(norm_copy(r) == e.result, 'getter-result-returned',
                   construct, f'the read returns {show(r)}, not what the getter '
                   'returned', e.loc)
        else:
          for r in reads:
            R.need(norm_copy(r) == raw, 'reads-created-value', construct,
                   f'a read returns {show(r)}, not the created value',
                   last_loc(I))
        p = I.getitem(out.v, K(0))
        v = lookup2(I, p, bundle, 'w')
        R.need(v.ok and norm_copy(v.v) == raw, 'stored-value', construct,
               f'init returns params[{bundle!r}]["w"] = {v!r}, not the created '
               'value', last_loc(I), guards_text(I))
        ks = key_list(I, p)
        if ks is not None:
          R.need(set(ks) == {bundle}, 'no-extra-entries', construct,
                 f'init returns entries for {ks}')
      R.explore(f'init/{wname}{"/hooks" if hooks else ""}', scen)

  # reads from two different places with the same name refer to one parameter,
  # different names or modules to different ones
  def scen2(I):
    setup(I, arrays=('shape', 'dtype'), shapes_ok=('shape',))
    got = {}

    def body(I, args, kwargs):
      m = I.call(client(I, 'Leaf'), [], {'name': K('m')})
      n = I.call(client(I, 'Leaf'), [], {'name': K('n')})
      f = HostFn(lambda I, a, k: getp(I))
      g = HostFn(lambda I, a, k: getp(I, 'v'))
      got['a'] = I.call(m, [f])
      got['b'] = I.call(n, [f])
      got['c'] = I.call(m, [f])
      got['d'] = I.call(m, [g])
      got['e'] = getp(I)
      got['f'] = I.call(I.getattr(m, 'other'), [f])
      return S('x')
    out = attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
    if not out.ok:
      R.need(None, 'sharing', 'two modules', f'init ended with {out!r}')
      return
    R.need(got['a'] == got['c'] == got['f'], 'sharing', 'same module and name',
           'two reads of one parameter of one module give different values',
           last_loc(I))
    R.need(len({got[k] for k in 'abde'}) == 4, 'separation',
           'different module or name',
           'parameters of different modules or names share a value',
           last_loc(I))
    p = I.getitem(out.v, K(0))
    for k, (b, n) in dict(a=('m', 'w'), b=('n', 'w'), d=('m', 'v'),
                          e=('~', 'w')).items():
      v = lookup2(I, p, b, n)
      R.need(v.ok and v.v == got[k], 'stored-value', f'{b}/{n}',
             f'init returns {v!r} for {b}/{n}', last_loc(I))
  R.explore('init/two modules', scen2)

  # hook flags: params-only / state-only
  for what in ('creator', 'getter'):
    for p in (True, False):
      for s in (True, False):
        def scen3(I, what=what, p=p, s=s):
          setup(I, arrays=('shape', 'dtype', 'w'), shapes_ok=('shape',))
          def body(I, args, kwargs):
            def go(_):
              getp(I)
              I.mark_p = len(I.trace)
              return hk(I, 'get_state', K('s'), S('shape'), S('dtype'),
                        init=S('init2'))
            return using(I, hk(I, 'experimental.custom_' + what, S('h'),
                               params=K(p), state=K(s)), go)
          out = attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
          hs = calls_of(I, S('h'))
          np_ = len([e for e in hs if e.i < I.mark_p])
          ns = len([e for e in hs if e.i >= I.mark_p])
          c = f'custom_{what}(params={p}, state={s})'
          R.need((np_, ns) == (int(p), int(s)), 'hook-scope', c,
                 f'runs {np_} times for a parameter and {ns} times for state',
                 last_loc(I))
        R.explore(f'custom_{what}/{p}/{s}', scen3)


# ------------------------------------------------------------------- C05
def rule_c05(R):
  """Every read is checked against the requested shape."""
  for phase in ('init', 'apply'):
    for hooks in (False, True):
      def scen(I, phase=phase, hooks=hooks):
        setup(I, arrays=('w', 'x', 'dtype'))
        I.levels[S('shape')] = None
        del I.levels[S('shape')]
        got = {}

        def body(I, args, kwargs):
          if hooks:
            got['r'] = attempt(I, HostFn(lambda I, a, k: using(
                I, hk(I, 'experimental.custom_getter', S('ge')),
                lambda _: getp(I))))
          else:
            got['r'] = attempt(I, HostFn(lambda I, a, k: getp(I)))
          return S('x')
        t = transformed(I, body)
        P = I.mkdict({'~': I.mkdict({'w': S('w')})})
        args = [S('rng')] if phase == 'init' else [P, NONE, S('rng')]
        attempt(I, I.getattr(t, phase), args)
        r = got.get('r')
        construct = f'hk.get_parameter during {phase}' + (
            ' under a getter' if hooks else '')
        if r is None:
          R.need(None, 'shape-checked', construct, 'body not reached')
          return
        rel = [(g, b) for g, b, _ in I.guards
               if mentions(g, S('shape')) and isinstance(g, T)]
        if r.ok:
          v = r.v
          sure = any(b and g.op == 'eq' and shape_pair(I, g, v)
                     for g, b in rel) or any(
                         not b and g.op == 'ne' and shape_pair(I, g, v)
                         for g, b in rel)
          if sure:
            ok = True
          elif any(mentions(g, v) for g, b in rel):
            wrong = any(not b and g.op == 'eq' and shape_pair(I, g, v)
                        for g, b in rel)
            ok = False if wrong else None
          else:
            ok = False
          R.need(ok, 'shape-checked', construct,
                 f'a value is returned whose shape was not compared with the '
                 f'requested shape ({show(v)})', last_loc(I), guards_text(I))
        else:
          bad = any(b and g.op == 'eq' for g, b in rel) and not any(
              not b for g, b in rel)
          R.need(not bad, 'matching-shape-accepted', construct,
                 f'a value of the requested shape is rejected: {r!r}',
                 last_loc(I), guards_text(I))
      R.explore(f'{phase}{"/getter" if hooks else ""}', scen)
      shapes_c05(R, phase, hooks)


def shapes_c05(R, phase, hooks):
  """Concrete pairs of requested and actual shapes."""
  def tup(s):
    return Tup([K(d) for d in s])
  shapes = [(), (1,), (3,), (3, 1), (1, 3), (2, 3), (3, 2), (0,)]
  for want in shapes:
    for aslist in (False, True):
      def scen(I, want=want, aslist=aslist):
        for i, have in enumerate(shapes):
          I.shapes[S(f'w{i}')] = I.shapes[S(f'g{i}')] = tup(have)
        setup(I, arrays=('x', 'dtype') + tuple(
            f'{c}{i}' for i in range(len(shapes)) for c in 'wg'))
        t = None
        for i, have in enumerate(shapes):
          got = {}
          w = S(f'w{i}')
          # under a getter the stored value has the requested shape
          g = HostFn(lambda I, a, k, i=i: S(f'g{i}'), 'getter')

          def body(I, args, kwargs, w=w, g=g, got=got):
            def read(I, a, k):
              shape = I.mklist([K(d) for d in want]) if aslist else tup(want)
              return hk(I, 'get_parameter', K('w'), shape, S('dtype'),
                        init=HostFn(lambda I, a, k: w, 'init'))
            got['r'] = attempt(I, HostFn(lambda I, a, k: using(
                I, hk(I, 'experimental.custom_getter', g),
                lambda _: read(I, [], {})) if hooks else read(I, [], {})))
            return S('x')
          if hooks:
            w = S(f'w{shapes.index(want)}')
            body.__defaults__ = (w,) + body.__defaults__[1:]
          t = transformed(I, body)
          P = I.mkdict({'~': I.mkdict({'w': w})})
          args = [S('rng')] if phase == 'init' else [P, NONE, S('rng')]
          attempt(I, I.getattr(t, phase), args)
          r = got.get('r')
          c = (f'hk.get_parameter({"list" if aslist else "tuple"} {want}) '
               f'of a value of shape {have} during {phase}' +
               (' from a getter' if hooks else ''))
          if have == want:
            R.need(r and r.ok, 'matching-shape-accepted', c, f'gives {r!r}',
                   last_loc(I), guards_text(I))
          else:
            R.need(r and not r.ok, 'wrong-shape-rejected', c,
                   f'returns {r!r}', last_loc(I), guards_text(I))
      R.explore(f'shapes/{want}/{aslist}/{phase}/{hooks}', scen)


def shape_pair(I, g, v):
  """g compares the shape of v with the requested shape."""
  for a, b in (g.args[:2], g.args[1::-1]):
    if mentions(a, S('shape')) and not mentions(a, v) and \
        isinstance(b, T) and mentions(b, v):
      x = b
      while isinstance(x, T) and x.op in ('tuple', 'list', 'call', 'seq'):
        x = x.args[-2] if x.op == 'call' else x.args[0]
        if isinstance(x, tuple):
          x = x[0] if x else None
      y = a
      while isinstance(y, T) and y.op in ('tuple', 'list'):
        y = y.args[0]
      full = y == S('shape')
      if isinstance(x, T) and x.op == 'attr' and x.args[0] == v and \
          x.args[1] in ('shape', K('shape')):
        return full
      if x == v and b.op == 'call':
        return full
  return False


# ------------------------------------------------------------------- C14
def rule_c14(R):
  """Hook chains run outermost first, each hook once, next = the rest."""
  n = 3

  def hook(i, log, sig):
    """A client hook that records its call and forwards to `next`."""
    def f(I, args, kwargs):
      log.append((i, list(args)))
      return sig(I, args, i)
    return HostFn(f, f'hook{i}')

  def fwd_creator(I, args, i):
    nxt, shape, dtype, init = args[:4]
    return T('sym2', i, I.call(nxt, [T('mod', i, shape), T('mod', i, dtype),
                                     init]))

  def fwd_getter(I, args, i):
    return T('sym2', i, I.call(args[0], [T('mod', i, args[1])]))

  def fwd_interceptor(I, args, i):
    nxt, a, kw, ctx = args[:4]
    return T('sym2', i, I.call(nxt, [T('mod', i, I.getitem(a, K(0)))]))

  def nest(I, mk, hooks, f):
    if not hooks:
      return f()
    return using(I, mk(I, hooks[0]), lambda _: nest(I, mk, hooks[1:], f))

  def mods(x):
    for i in range(n):
      x = T('mod', i, x)
    return x

  def wrapd(x):
    for i in reversed(range(n)):
      x = T('sym2', i, x)
    return x

  def run(name, mk, fwd, act, check):
    def scen(I):
      setup(I, arrays=('w', 'x', 'shape', 'dtype'), shapes_ok=('shape',))
      I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
          t, S('shape')) else None)
      log = []
      got = {}
      hooks = [hook(i, log, fwd) for i in range(n)]

      def body(I, args, kwargs):
        got['r'] = nest(I, mk, hooks, lambda: act(I))
        k = len(log)
        got['n1'] = k
        got['r2'] = attempt(I, HostFn(lambda I, a, kw: act(I)))
        got['n2'] = len(log) - k
        return S('x')
      out = attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
      if not out.ok:
        R.need(None, 'chain-order', name, f'init ended with {out!r}')
        return
      check(I, got, log)
    R.explore(name, scen)

  def order_ok(name, I, log, reads=1):
    seq = [i for i, _ in log]
    R.need(seq == list(range(n)) * reads, 'chain-order', name,
           f'hooks run in order {seq}; outermost first and once each is '
           f'{list(range(n)) * reads}', last_loc(I))

  def chk_creator(name, stateful_):
    def check(I, got, log):
      order_ok(name, I, log)
      made = calls_of(I, S('init'))
      R.need(made and made[0].args[:2] == [mods(S('shape')), mods(S('dtype'))],
             'chain-threading', name, 'the initializer does not receive what '
             f'the last hook passed on: {made and made[0].args}', last_loc(I))
      if made:
        R.need(got['r'] == wrapd(made[0].result), 'chain-result', name,
               f'the created value is {show(got["r"])}', last_loc(I))
      for i, args in log:
        ok = len(args) == 5 and args[3] == S('init')
        R.need(ok, 'chain-arguments', name,
               'a creator is not called as creator(next, shape, dtype, init, '
               f'context): {show(args)}', last_loc(I))
        if len(args) == 5:
          context_ok(I, name, args[4], 'w')
      R.need(got['n2'] == 0, 'chain-uninstalled', name,
             'hooks still run after their block', last_loc(I))
    return check

  def context_ok(I, name, ctx, pname):
    full = attempt(I, HostFn(lambda I, a, k: I.getattr(ctx, 'full_name')))
    sh = attempt(I, HostFn(lambda I, a, k: I.getattr(ctx, 'original_shape')))
    dt = attempt(I, HostFn(lambda I, a, k: I.getattr(ctx, 'original_dtype')))
    R.need(full.ok and full.v == K('~/' + pname), 'context-name', name,
           f'the hook context names {full!r}', last_loc(I))
    R.need(sh.ok and sh.v == S('shape') and dt.ok and dt.v == S('dtype'),
           'context-original', name,
           f'the hook context reports shape {sh!r} dtype {dt!r} instead of the '
           'requested ones', last_loc(I))

  def act_p(I):
    return getp(I)

  def act_s(I):
    return hk(I, 'get_state', K('w'), S('shape'), S('dtype'), init=S('init'))

  for kind, act in (('parameter', act_p), ('state', act_s)):
    st = kind == 'state'
    kw = dict(params=K(not st), state=K(st))
    nm = f'custom_creator chain, {kind}'
    run(nm, lambda I, h, kw=kw: hk(I, 'experimental.custom_creator', h, **kw),
        fwd_creator, act, chk_creator(nm, st))
    nm = f'custom_getter chain, {kind}'

    def chk_getter(I, got, log, nm=nm):
      order_ok(nm, I, log)
      made = calls_of(I, S('init'))
      if made:
        R.need(got['r'] == wrapd(mods(made[0].result)), 'chain-result', nm,
               f'the value read is {show(got["r"])}', last_loc(I))
      for i, args in log:
        R.need(len(args) == 3, 'chain-arguments', nm,
               'a getter is not called as getter(next, value, context): '
               f'{show(args)}', last_loc(I))
        if len(args) == 3:
          context_ok(I, nm, args[2], 'w')
      R.need(got['n2'] == 0 and got['r2'].ok and made and norm_copy(
          got['r2'].v) == made[0].result,
             'getter-not-stored', nm,
             'a read after the block does not give the raw stored value: '
             f'{got["r2"]!r}', last_loc(I))
    run(nm, lambda I, h, kw=kw: hk(I, 'experimental.custom_getter', h, **kw),
        fwd_getter, act, chk_getter)

  for meth in ('__call__', 'other'):
    nm = f'intercept_methods chain, {meth}'

    def act_i(I, meth=meth):
      m = I.client_module
      seen = []
      f = HostFn(lambda I, a, k: S('ran'))
      if meth == '__call__':
        return I.call(m, [f])
      return I.call(I.getattr(m, meth), [f])

    def scen(I, nm=nm, meth=meth):
      setup(I, arrays=('x',))
      log = []
      got = {}
      hooks = [hook(i, log, fwd) for i in range(n)]
      f = HostFn(lambda I, a, k: S('ran'), 'leaf')
      ran = []

      def fwd_unused():
        pass

      def body(I, args, kwargs):
        m = I.call(client(I, 'Leaf'), [])
        target = m if meth == '__call__' else I.getattr(m, meth)
        got['m'] = m
        n0 = len(I.trace)
        got['r'] = nest(I, lambda I, h: hk(
            I, 'experimental.intercept_methods', h), hooks,
                        lambda: I.call(target, [f]))
        got['ran'] = [e for e in I.trace[n0:] if e.kind == 'hostcall'
                      and e.f is f]
        k = len(log)
        got['r2'] = attempt(I, target, [f])
        got['n2'] = len(log) - k
        got['log'] = list(log[:k])
        return S('x')
      out = attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
      if not out.ok:
        R.need(None, 'chain-order', nm, f'init ended with {out!r}')
        return
      order_ok(nm, I, got['log'])
      R.need(len(got['ran']) == 1, 'chain-order', nm + ' (method body)',
             f'the intercepted method runs {len(got["ran"])} times',
             last_loc(I))
      R.need(got['r'] == wrapd(S('ran')), 'chain-result', nm,
             f'the call returns {show(got["r"])}', last_loc(I))
      for i, args in got['log']:
        R.need(len(args) == 4, 'chain-arguments', nm,
               'an interceptor is not called as f(next, args, kwargs, context)',
               last_loc(I))
        if len(args) == 4:
          a = args[1]
          first = I.getitem(a, K(0))
          R.need(first == f, 'chain-threading', nm,
                 f'an interceptor receives argument {first!r}', last_loc(I))
          R.need(I.getattr(args[3], 'module') is got['m'] and
                 I.getattr(args[3], 'method_name') == K(meth),
                 'context-name', nm, 'the method context names another module '
                 'or method', last_loc(I))
      R.need(got['n2'] == 0, 'chain-uninstalled', nm,
             'interceptors still run after their block', last_loc(I))

    def fwd(I, args, i):
      nxt, a, kw, ctx = args[:4]
      return T('sym2', i, I.call(nxt, [I.getitem(a, K(0))]))
    R.explore(nm, scen)
