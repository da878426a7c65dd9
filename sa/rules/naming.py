"""C12/C13: which module a name belongs to, and how modules are named."""
from ..harness import *
from .hooks import nest
from .params import getp, last_loc, lookup2, norm_copy, mentions

# kind -> (how to run f in it, method name or None when the caller's scope)
def _meth(n):
  return lambda I, m, f: I.call(I.getattr(m, n), [f])


def _setf(I, m, f):
  I.setattr(m, 'f', f)


def _getprop(n):
  def go(I, m, f):
    _setf(I, m, f)
    return I.getattr(m, n)
  return go


def _del(I, m, f):
  _setf(I, m, f)
  I.call(client(I, 'prop_del'), [m])
  return I.getattr(m, 'result')


def _set(I, m, f):
  I.call(client(I, 'prop_set'), [m, f])
  return I.getattr(m, 'result')


KINDS = [
    ('__call__', lambda I, m, f: I.call(m, [f]), '__call__', 1),
    ('a method', _meth('meth'), 'meth', 1),
    ('a private method', _meth('_private'), '_private', 1),
    ('an inherited method', _meth('inherited'), 'inherited', 1),
    ('an overridden method', _meth('overridden'), 'overridden', 1),
    ('an extended method', _meth('extended'), 'extended', 2),
    ('a method called by a method', _meth('relay'), 'meth', 1),
    ('a recursive method', _meth('recurse'), 'recurse', 2),
    ('a keyword-only method', lambda I, m, f: I.call(
        I.getattr(m, 'kwonly'), [K(1)], {'f': f, 'z': K(2)}), 'kwonly', 1),
    ('a decorated method', _meth('decorated'), 'decorated', 1),
    ('a lambda method', _meth('lam'), 'lam', 1),
    ('an unbound method', lambda I, m, f: I.call(
        I.getattr(client(I, 'Kinds'), 'meth'), [m, f]), 'meth', 1),
    ('a stored bound method', lambda I, m, f: I.call(
        HostFn(lambda I, a, k: I.call(a[0], [f])), [I.getattr(m, 'meth')]),
     'meth', 1),
    ('a property', _getprop('prop'), 'prop', 1),
    ('an inherited property', _getprop('inherited_prop'), 'inherited_prop', 1),
    ('a property setter', _set, 'prop', 1),
    ('a property deleter', _del, 'prop', 1),
    ('a transparent method', _meth('clear'), None, 0),
    ('a static method', _meth('static'), None, 0),
    ('a class method', _meth('klass'), None, 0),
]


def rule_c13(R):
  for phase in ('init', 'apply'):
    for kind in KINDS:
      for ni in (0, 2):
        for owner in (None, 'own', 'same'):
          kind_prog(R, phase, kind, ni, owner)
  ctor(R)


def scope_use(I, got, tag='w'):
  def f(I, a, k):
    got[tag] = attempt(I, HostFn(lambda I, a, k: getp(I, name=tag)))
    got[tag + 's'] = attempt(I, HostFn(lambda I, a, k: hk(
        I, 'get_state', K(tag), S('shape'), S('dtype'), init=S('init2'))))
    m = I.call(client(I, 'Leaf'), [])
    got[tag + 'n'] = I.getattr(m, 'module_name')
    return S('z')
  return HostFn(f, 'use')


def kind_prog(R, phase, kind, ni, owner):
  kname, run, mname, ncalls = kind
  where = {None: 'at top level', 'own': 'in another module',
           'same': 'in a method of the same module'}[owner]
  name = f'{kname} called {where} during {phase}, {ni} interceptors'

  def scen(I):
    setup(I, arrays=('w', 'x', 'z', 'shape', 'dtype', 'rng', 'top', 'own',
                     'kinds', 'topS', 'ownS', 'kindsS'),
          shapes_ok=('shape',))
    I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
        t, S('shape')) else None)
    got, log = {}, []

    def icpt(i):
      def f(I, a, k):
        log.append((i, I.getattr(a[3], 'module'),
                    I.getattr(a[3], 'method_name')))
        return I.call(client(I, 'forward'), a[:3])
      return HostFn(f, f'interceptor{i}')

    def prog(I, a, k):
      m = I.call(client(I, 'Kinds'), [], {'name': K('kinds')})
      got['m'] = m
      use = scope_use(I, got)
      go = lambda: nest(I, [lambda i=i: hk(
          I, 'experimental.intercept_methods', icpt(i)) for i in range(ni)],
                        lambda: run(I, m, use))
      if owner == 'own':
        o = I.call(client(I, 'Leaf'), [K('own')])
        got['r'] = I.call(o, [HostFn(lambda I, a, k: go())])
      elif owner == 'same':
        got['r'] = I.call(I.getattr(m, 'inherited'), [HostFn(
            lambda I, a, k: go())])
      else:
        got['r'] = go()
      # what the caller does next is the caller's again
      I.call(scope_use(I, got, 'after'), [])
      return S('x')
    t = transformed(I, prog)
    if phase == 'init':
      out = attempt(I, I.getattr(t, 'init'), [S('rng')])
    else:
      def both(sfx):
        return I.mkdict({b: I.mkdict({'w': S(n + sfx), 'after': S(n + sfx)})
                         for b, n in (('~', 'top'), ('own', 'own'),
                                      ('kinds', 'kinds'))})
      out = attempt(I, I.getattr(t, 'apply'), [both(''), both('S'), NONE])
    if not out.ok:
      R.need(None, 'method-run', name, f'ended with {out!r}', last_loc(I),
             guards_text(I))
      return
    caller = {'own': 'own', None: '~', 'same': 'kinds'}[owner]
    inside = 'kinds' if mname is not None else caller
    outer_m = {'own': 'own/', None: '', 'same': 'kinds/~inherited/'}[owner]
    pre = outer_m if mname is None else 'kinds/' if mname == '__call__' else \
        f'kinds/~{mname}/'
    if phase == 'apply':
      nm = {'~': 'top', 'own': 'own', 'kinds': 'kinds'}
      R.need(norm_copy(got['w'].v) == S(nm[inside]), 'method-scope', name,
             f'a parameter reads as {got["w"]!r}, not that of {inside}',
             last_loc(I))
      R.need(norm_copy(got['ws'].v) == S(nm[inside] + 'S'), 'method-scope',
             name, f'state reads as {got["ws"]!r}, not that of {inside}',
             last_loc(I))
      R.need(norm_copy(got['after'].v) == S(nm['~']), 'caller-scope',
             name, 'after the call a parameter of the caller reads as '
             f'{got["after"]!r}', last_loc(I))
    else:
      for i, what in ((0, 'parameter'), (1, 'state')):
        p = I.getitem(out.v, K(i))
        v = lookup2(I, p, inside, 'w')
        R.need(v.ok, 'method-scope', name,
               f'a {what} made in it does not belong to {inside}', last_loc(I))
        v = lookup2(I, p, '~', 'after')
        R.need(v.ok, 'caller-scope', name,
               f'a {what} made after the call does not belong to the caller',
               last_loc(I))
    R.need(got['wn'] == K(pre + 'leaf'), 'submodule-scope', name,
           f'a module made in it is named {got["wn"]}, not {pre}leaf',
           last_loc(I))
    R.need(got['aftern'] == K('leaf_1' if pre == '' else 'leaf'),
           'caller-scope', name, 'after the call a module made by the caller '
           f'is named {got["aftern"]}', last_loc(I))
    R.need(got['r'] == S('z'), 'method-result', name,
           f'the call returns {show(got["r"])}', last_loc(I))
    seen = [x for x in log if x[1] is got['m']]
    by = [[x[0] for x in seen if x[2] == K(mname)]]
    R.need(by[0] == list(range(ni)) * ncalls, 'interceptors-run', name,
           f'interceptors run as {by[0]} for the method', last_loc(I))
    if mname is None:
      R.need(not seen, 'interceptors-run', name,
             f'interceptors run: {seen}', last_loc(I))
  R.explore(name, scen)


def ctor(R):
  for phase in ('init', 'apply'):
    for ni in (0, 1, 2):
      for owner in (False, True):
        def scen(I, phase=phase, ni=ni, owner=owner):
          name = (f'a constructor{" in another module" if owner else ""} '
                  f'during {phase}, {ni} interceptors')
          setup(I, arrays=('x', 'z', 'shape', 'dtype', 'rng', 'k', 'ks'),
                shapes_ok=('shape',))
          I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
              t, S('shape')) else None)
          got, log = {}, []

          def icpt(i):
            def f(I, a, k):
              log.append((i, I.getattr(a[3], 'method_name')))
              return I.call(client(I, 'forward'), a[:3])
            return HostFn(f, f'interceptor{i}')

          def prog(I, a, k):
            use = scope_use(I, got)
            def go(*_):
              got['m'] = nest(I, [lambda i=i: hk(
                  I, 'experimental.intercept_methods', icpt(i))
                                  for i in range(ni)],
                              lambda: I.call(client(I, 'Kinds'), [use]))
              return S('z')
            if owner:
              I.call(I.call(client(I, 'Leaf'), [K('own')]), [HostFn(go)])
            else:
              go()
            return S('x')
          t = transformed(I, prog)
          pre = 'own/' if owner else ''
          if phase == 'init':
            out = attempt(I, I.getattr(t, 'init'), [S('rng')])
          else:
            P = I.mkdict({pre + 'kinds': I.mkdict({'w': S('k')})})
            ST = I.mkdict({pre + 'kinds': I.mkdict({'w': S('ks')})})
            out = attempt(I, I.getattr(t, 'apply'), [P, ST, NONE])
          if not out.ok:
            R.need(None, 'method-run', name, f'ended with {out!r}',
                   last_loc(I), guards_text(I))
            return
          if phase == 'apply':
            R.need(got['w'].ok and norm_copy(got['w'].v) == S('k') and
                   got['ws'].ok and norm_copy(got['ws'].v) == S('ks'),
                   'method-scope', name, f'reads give {got["w"]!r} and '
                   f'{got["ws"]!r}', last_loc(I))
          else:
            for i in (0, 1):
              v = lookup2(I, I.getitem(out.v, K(i)), pre + 'kinds', 'w')
              R.need(v.ok, 'method-scope', name, 'what it makes does not '
                     'belong to the module', last_loc(I))
          R.need(got['wn'] == K(pre + 'kinds/~/leaf'), 'submodule-scope', name,
                 f'a module made in it is named {got["wn"]}', last_loc(I))
          mine = [x[0] for x in log if x[1] == K('__init__')]
          R.need(mine[:ni] == list(range(ni)), 'interceptors-run', name,
                 f'interceptors run as {log}', last_loc(I))
        R.explore(f'ctor/{phase}/{ni}/{owner}', scen)


# ------------------------------------------------------------------- C12
def rule_c12(R):
  import itertools
  reqs = [None, 'leaf', 'leaf_1', 'leaf_3', 'leaf_1_1', 'kinds']
  progs = [p for n in (1, 2, 3) for p in itertools.product(reqs, repeat=n)]
  progs += [p for p in itertools.product([None, 'leaf_1', 'leaf_2'], repeat=4)]
  for place in PLACES:
    ps = progs if place in PLACES[:3] or R.tier == 'thorough' else [
        p for p in progs if len(p) < 3]
    for chunk in range(0, len(ps), 40):
      names_chunk(R, place, ps[chunk:chunk + 40], chunk)
  repeat(R)
  invalid(R)
  scopes(R)


PLACES = ['at top level', 'in __call__', 'in a method', 'in a constructor',
          'in a property', 'in a transparent method', 'in a name_scope',
          'in a nested module', 'in a second module']


def put(I, place, f):
  """Runs f at the place; gives the prefix that modules made there have."""
  h = HostFn(lambda I, a, k: (f(), S('z'))[1], 'f')
  if place == 'at top level':
    f()
    return ''
  if place == 'in a name_scope':
    using(I, hk(I, 'experimental.name_scope', K('scope')), lambda _: f())
    return 'scope/'
  kinds = client(I, 'Kinds')
  if place == 'in a constructor':
    I.call(kinds, [h], {'name': K('owner')})
    return 'owner/~/'
  if place == 'in a nested module':
    o = I.call(kinds, [], {'name': K('owner')})
    I.call(I.getattr(o, 'meth'), [HostFn(lambda I, a, k: I.call(I.call(
        kinds, [], {'name': K('inner')}), [h]))])
    return 'owner/~meth/inner/'
  o = I.call(kinds, [], {'name': K('owner')})
  if place == 'in a second module':
    I.call(o, [HostFn(lambda I, a, k: I.call(client(I, 'Leaf'), []))])
    o = I.call(kinds, [], {'name': K('owner')})
    I.call(o, [h])
    return 'owner_1/'
  if place == 'in __call__':
    I.call(o, [h])
    return 'owner/'
  if place == 'in a method':
    I.call(I.getattr(o, 'meth'), [h])
    return 'owner/~meth/'
  if place == 'in a property':
    I.setattr(o, 'f', h)
    I.getattr(o, 'prop')
    return 'owner/~prop/'
  assert place == 'in a transparent method'
  I.call(I.getattr(o, 'clear'), [h])
  return ''


def split(n):
  b, _, d = n.rpartition('_')
  return (b, int(d)) if b and d.isdigit() else (n, None)


def names_chunk(R, place, progs, chunk):
  for phase in ('init', 'apply'):
    def scen(I, phase=phase):
      setup(I, arrays=('x', 'z', 'shape', 'dtype', 'rng'))
      for prog in progs:
        made = []

        def make():
          for r in prog:
            m = attempt(I, client(I, 'Leaf'), [] if r is None else [K(r)])
            if m.ok:
              made.append((I.getattr(m.v, 'module_name'),
                           I.getattr(m.v, 'name'), m.v))
            else:
              made.append(m)
        got = {}
        t = transformed(I, lambda I, a, k: (got.update(
            pre=put(I, place, make)), S('x'))[1])
        args = [S('rng')] if phase == 'init' else [I.mkdict(), I.mkdict(),
                                                   NONE]
        out = attempt(I, I.getattr(t, phase), args)
        c = f'modules {list(prog)} made {place} during {phase}'
        if not out.ok:
          R.need(None, 'made', c, f'ended with {out!r}', last_loc(I))
          continue
        pre, seen, explicit = got['pre'], {}, False
        count = {}
        for r, m in zip(prog, made):
          want, n = split(r or 'leaf')
          if not isinstance(m, tuple):
            R.need(n is not None and pre + r in seen and m.raises(
                I, 'ValueError'), 'name-accepted', c,
                   f'a module named {r} gives {m!r}', last_loc(I))
            continue
          full, short, _ = m
          if not (isinstance(full, K) and isinstance(short, K)):
            R.need(None, 'name-known', c, f'named {full}')
            continue
          full, short = full.v, short.v
          R.need(full not in seen, 'name-unique', c,
                 f'two modules are named {full}', last_loc(I))
          seen[full] = 1
          R.need(full.startswith(pre) and '/' not in full[len(pre):] and
                 full.rsplit('/', 1)[-1] == short, 'name-prefix', c,
                 f'a module made there is named {full}', last_loc(I))
          b, k = split(short)
          if n is not None:
            R.need(short == r, 'name-kept', c,
                   f'a module explicitly named {r} is named {short}',
                   last_loc(I))
            explicit = True
          else:
            R.need(short == want or split(short)[0] == want, 'name-kept', c,
                   f'a module named {want} is named {short}', last_loc(I))
            if not explicit:
              i = count.get(want, 0)
              R.need(short == (f'{want}_{i}' if i else want), 'name-counts', c,
                     f'module number {i} named {want} is named {short}',
                     last_loc(I))
          count[want] = count.get(want, 0) + 1
    R.explore(f'{place}/{chunk}/{phase}', scen)


def repeat(R):
  """Names depend on the order of construction in the method only."""
  for phase in ('init', 'apply'):
    for place in PLACES:
      if place in ('at top level', 'in a constructor', 'in a name_scope',
                   'in a transparent method'):
        continue

      def scen(I, phase=phase, place=place):
        setup(I, arrays=('x', 'z', 'shape', 'dtype', 'rng'))
        runs = []

        def body(I, a, k):
          mine = []
          h = HostFn(lambda I, a, k: (mine.append(tuple(
              I.getattr(I.call(client(I, n), []), 'module_name')
              for n in ('Leaf', 'Leaf', 'Kinds'))), S('z'))[1])
          o = I.call(client(I, 'Kinds'), [], {'name': K('owner')})
          I.setattr(o, 'f', h)

          def once():
            if place == 'in a method':
              I.call(I.getattr(o, 'meth'), [h])
            elif place == 'in a property':
              I.getattr(o, 'prop')
            elif place == 'in a nested module':
              I.call(I.getattr(o, 'meth'), [HostFn(lambda I, a, k: I.call(
                  I.call(client(I, 'Kinds'), [], {'name': K('inner')}), [h]))])
            else:
              I.call(o, [h])
          once()
          I.call(client(I, 'Leaf'), [])
          once()
          I.call(I.getattr(o, 'inherited'), [h])
          other = mine.pop()
          once()
          runs.append((tuple(mine), other))
          return S('x')
        t = transformed(I, body)
        args = [S('rng')] if phase == 'init' else [I.mkdict(), I.mkdict(),
                                                   NONE]
        for _ in range(2):
          out = attempt(I, I.getattr(t, phase), list(args))
          if not out.ok:
            R.need(None, 'made', place, f'ended with {out!r}', last_loc(I))
            return
        c = f'one module called three times, {place}, during {phase}'
        for mine, other in runs:
          R.need(mine[0] == mine[1] == mine[2], 'names-reused', c,
                 f'repeated calls name their modules {mine}', last_loc(I))
          R.need(other != mine[0], 'name-unique', c,
                 f'another method gives the same names {other}', last_loc(I))
        R.need(runs[0] == runs[1], 'names-reproducible', c,
               f'a second run names its modules {runs[1]} instead of '
               f'{runs[0]}', last_loc(I))
      R.explore(f'repeat/{place}/{phase}', scen)


def invalid(R):
  bad = ['', '1', '1a', 'a-b', 'a b', 'a/b', '~', 'a.b', '/a', 'a~', 'a\n']
  good = ['a', '_', '_a', 'A1', 'a_1', 'a1_', 'camelCase']

  def scen(I):
    setup(I, arrays=('x', 'rng'))

    def body(I, a, k):
      for n in bad:
        r = attempt(I, client(I, 'Leaf'), [K(n)])
        R.need(r.raises(I, 'ValueError'), 'invalid-name-rejected',
               f'module named {n!r}', f'gives {r!r}', last_loc(I),
               guards_text(I))
      for n in good:
        r = attempt(I, client(I, 'Leaf'), [K(n)])
        R.need(r.ok and I.getattr(r.v, 'name') == K(n), 'valid-name-accepted',
               f'module named {n!r}', f'gives {r!r}', last_loc(I),
               guards_text(I))
      for n in ('', '/', '/a', 'a//b', 'a/', 'a-b/c'):
        r = attempt(I, pub(I, 'experimental.name_scope'), [K(n)])
        R.need(r.raises(I, 'ValueError'), 'invalid-name-rejected',
               f'name_scope {n!r}', f'gives {r!r}', last_loc(I),
               guards_text(I))
      return S('x')
    out = attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
    R.need(True if out.ok else None, 'run', 'invalid names', f'{out!r}')
  R.explore('invalid', scen)

  def scen2(I):
    setup(I, arrays=('x', 'rng'))

    def body(I, a, k):
      r = attempt(I, client(I, 'NoSuper'), [])
      R.need(r.raises(I, 'ValueError'), 'no-super-rejected',
             'a module that does not call super().__init__', f'gives {r!r}',
             last_loc(I))
      return S('x')
    attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
  R.explore('nosuper', scen2)


def scopes(R):
  """name_scope: one use, prefix on modules, parameters and state."""
  for phase in ('init', 'apply'):
    for outer in (None, 'm'):
      for sname in ('s', 's/t'):
        def scen(I, phase=phase, outer=outer, sname=sname):
          setup(I, arrays=('x', 'z', 'shape', 'dtype', 'rng', 'in', 'out',
                           'inS', 'outS'), shapes_ok=('shape',))
          I.pins.append(lambda I, t: True if t.op == 'eq' and mentions(
              t, S('shape')) else None)
          got = {}

          def go():
            cm = hk(I, 'experimental.name_scope', K(sname))
            using(I, cm, lambda _: I.call(scope_use(I, got), []))
            I.call(scope_use(I, got, 'after'), [])
            got['again'] = attempt(I, HostFn(lambda I, a, k: using(
                I, cm, lambda _: S('z'))))
            cm2 = hk(I, 'experimental.name_scope', K(sname))
            got['nested'] = using(I, cm2, lambda _: attempt(
                I, HostFn(lambda I, a, k: using(I, cm2, lambda _: S('z')))))

          def body(I, a, k):
            if outer:
              I.call(I.call(client(I, 'Leaf'), [K(outer)]), [HostFn(
                  lambda I, a, k: (go(), S('z'))[1])])
            else:
              go()
            return S('x')
          pre = outer + '/' if outer else ''
          ob = outer or '~'
          if phase == 'init':
            args = [S('rng')]
          else:
            args = [I.mkdict({pre + sname: I.mkdict({'w': S('in')}),
                              ob: I.mkdict({'after': S('out')})}),
                    I.mkdict({pre + sname: I.mkdict({'w': S('inS')}),
                              ob: I.mkdict({'after': S('outS')})}), NONE]
          out = attempt(I, I.getattr(transformed(I, body), phase), args)
          c = f'name_scope {sname} in {outer} during {phase}'
          if not out.ok:
            R.need(None, 'run', c, f'ended with {out!r}', last_loc(I))
            return
          if phase == 'apply':
            for k, v in (('w', 'in'), ('ws', 'inS'), ('after', 'out'),
                         ('afters', 'outS')):
              R.need(got[k].ok and norm_copy(got[k].v) == S(v), 'scope-prefix',
                     c, f'{k} reads as {got[k]!r}', last_loc(I))
          else:
            for i in (0, 1):
              p = I.getitem(out.v, K(i))
              R.need(lookup2(I, p, pre + sname, 'w').ok and lookup2(
                  I, p, ob, 'after').ok, 'scope-prefix', c,
                     'what is made inside does not have the prefix, or what '
                     'is made after it does', last_loc(I))
          R.need(got['wn'] == K(f'{pre}{sname}/leaf') and
                 got['aftern'] == K(f'{pre}leaf'), 'scope-prefix', c,
                 f'modules are named {got["wn"]} and {got["aftern"]}',
                 last_loc(I))
          R.need(got['again'].raises(I, 'ValueError') and
                 got['nested'].raises(I, 'ValueError'), 'scope-single-use', c,
                 f'entering it again gives {got["again"]!r}, entering it '
                 f'inside itself {got["nested"]!r}', last_loc(I))
        R.explore(f'scope/{outer}/{sname}/{phase}', scen)
