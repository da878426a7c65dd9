"""C02: no state shared between threads.  C17: use outside a transform."""
import ast

from ..harness import *
from .context import REGIONS
from .params import last_loc


def is_threadlocal(I, o):
  if not isinstance(o, Obj):
    return False
  if o.extra.get('threadlocal'):
    return True
  return isinstance(o.cls, Cls) and any(
      isinstance(b, Ext) and b.name.endswith('threading.local') or
      b == Ext('threading.local') for b in o.cls.mro())


def shared(I):
  """id -> path of load-time objects reachable without a thread-local."""
  out = {}

  def walk(v, path, depth=0):
    if depth > 12 or not isinstance(v, V):
      return
    if isinstance(v, Tup):
      for i, x in enumerate(v.items):
        walk(x, f'{path}[{i}]', depth + 1)
      return
    if isinstance(v, ModV):
      return
    if isinstance(v, (Obj, Cls, Fn, Partial, Bound)):
      if id(v) in out:
        return
      if is_threadlocal(I, v):
        return
      out[id(v)] = (path, v)
    if isinstance(v, Obj):
      for k, x in v.attrs.items():
        walk(x, f'{path}.{k}', depth + 1)
      for e in v.items or ():
        for x in e[1:]:
          walk(x, f'{path}[...]', depth + 1)
    elif isinstance(v, Cls):
      for k, x in v.attrs.items():
        walk(x, f'{path}.{k}', depth + 1)
    elif isinstance(v, Fn):
      for x in list(v.defaults or ()):
        walk(x, f'default of {path}', depth + 1)
      kd = getattr(v, 'kwdefaults', None) or {}
      for x in (kd.values() if isinstance(kd, dict) else ()):
        walk(x, f'default of {path}', depth + 1)
      at = getattr(v, 'attrs', None) or {}
      for k, x in at.items():
        walk(x, f'{path}.{k}', depth + 1)
      e = v.env
      while e is not None and e.kind == 'func':
        for k, x in e.vars.items():
          walk(x, f'{path}:{k}', depth + 1)
        e = e.parent
    elif isinstance(v, Partial):
      for x in list(v.args) + [v.f]:
        walk(x, f'{path}', depth + 1)
    elif isinstance(v, Bound):
      walk(v.self_, path, depth + 1)
      walk(v.f, path, depth + 1)
  for e in I.persist:
    nm = e.vars['__name__'].v
    if not nm.startswith('haiku'):
      continue
    for k, v in e.vars.items():
      walk(v, f'{nm}.{k}')
  return out


WRITES = ('setattr', 'setitem', 'delitem', 'delattr', 'mutate', 'global_store')


def check_writes(R, I, sh, construct, n0=0):
  """No write on this trace hits an object that other threads can see."""
  done = 0
  for e in I.trace[n0:]:
    if e.kind in WRITES:
      if e.loc[0].startswith('<client'):
        continue
      done += 1
      o = e.d.get('obj', e.d.get('target'))
      if e.kind == 'global_store' or isinstance(o, ModV):
        R.need(False, 'no-shared-writes', f'{construct}',
               f'{e.kind} of module-level name {e.d.get("name")!r}', e.loc,
               guards_text(I))
        continue
      if o is not None and id(o) in sh:
        R.need(False, 'no-shared-writes', f'{construct}: {sh[id(o)][0]}',
               f'{e.kind} on {sh[id(o)][0]}, which every thread shares, at '
               f'{fmt(e.loc)}', e.loc, guards_text(I))
        continue
      R.need(True, 'no-shared-writes', construct, '')
    elif e.kind == 'next':
      o = e.d.get('obj', e.d.get('it'))
      if o is not None and id(o) in sh:
        R.need(False, 'no-shared-writes', f'{construct}: {sh[id(o)][0]}',
               f'advances {sh[id(o)][0]}, which every thread shares', e.loc)
  return done


def rule_c02(R):
  from . import layers
  for phase in ('init', 'apply'):
    for rname, region in REGIONS:
      def scen(I, region=region, rname=rname, phase=phase):
        setup(I, arrays=('x', 'w', 'v', 'n', 'xs', 'shape', 'dtype'),
              keys=('rng', 'key2'), shapes_ok=('shape',))
        sh = shared(I)
        n0 = len(I.trace)

        def inner(I, a, k):
          hk(I, 'get_parameter', K('w'), S('shape'), S('dtype'),
             init=S('init'))
          hk(I, 'set_state', K('s'), S('v'))
          hk(I, 'next_rng_key')
          m = I.call(client(I, 'Leaf'), [])
          return I.call(m, [HostFn(lambda I, a, k: S('x'))])

        def body(I, a, k):
          region(I, HostFn(inner, 'inner'))
          return S('x')
        t = transformed(I, body)
        P = I.mkdict({b: I.mkdict({'w': S('w')}) for b in ('~', 'leaf')})
        args = [S('rng')] if phase == 'init' else [P, NONE, S('rng')]
        attempt(I, I.getattr(t, phase), args)
        check_writes(R, I, sh, f'{rname} during {phase}', n0)
      R.explore(f'{rname}/{phase}', scen)
  # the library's own layers and utilities
  for lname, run in layers.LAYERS:
    def scen(I, lname=lname, run=run):
      layers.prepare(I)
      sh = shared(I)
      t = transformed(I, lambda I, a, k: run(I))
      attempt(I, I.getattr(t, 'init'), [S('rng')])
      if not check_writes(R, I, sh, lname):
        R.need(True, 'no-shared-writes', lname, '')
    R.explore(f'layer {lname}', scen)

  # thread-locals exist in every thread, not only in the importing one
  def scen2(I):
    for e in I.persist:
      nm = e.vars['__name__'].v
      for k, v in e.vars.items():
        if is_threadlocal(I, v):
          plain = not isinstance(v.cls, Cls)
          R.need(not (plain and v.attrs), 'thread-local-initialised',
                 f'{nm}.{k}', 'attributes of a plain thread-local set at '
                 f'import exist only in the importing thread: '
                 f'{sorted(v.attrs)}')
          if not plain:
            # what __init__ stores must not be an object made once at load
            sh = shared(I)
            for a, x in v.attrs.items():
              R.need(not (isinstance(x, Obj) and id(x) in sh and
                          x.items is not None), 'thread-local-initialised',
                     f'{nm}.{k}.{a}', 'the thread-local holds an object that '
                     'every thread shares')
  R.explore('thread-locals', scen2)
  syntactic(R)


MUTATORS = {'append', 'appendleft', 'extend', 'insert', 'pop', 'popleft',
            'remove', 'clear', 'update', 'setdefault', 'add', 'discard',
            'popitem', 'sort', 'reverse', 'extendleft', 'rotate'}


def syntactic(R):
  """Every function of the package: stores into module-level containers."""
  I = session()
  tl = set()
  for e in I.persist:
    for k, v in e.vars.items():
      if is_threadlocal(I, v):
        tl.add((e.vars['__name__'].v, k))
  for e in I.persist:
    nm = e.vars['__name__'].v
    if not nm.startswith('haiku._src') or nm.endswith('_test'):
      continue
    m = I.project.mods.get(nm)
    if m is None:
      continue
    tree = m.tree
    top = {k for k, v in e.vars.items() if isinstance(v, Obj)
           and v.items is not None}
    for fn in ast.walk(tree):
      if not isinstance(fn, (ast.FunctionDef, ast.Lambda)):
        continue
      loc = set()
      glob = set()
      for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
          loc.add(n.id)
        elif isinstance(n, ast.arg):
          loc.add(n.arg)
        elif isinstance(n, ast.Global):
          glob |= set(n.names)
      name = getattr(fn, 'name', '<lambda>')
      R.need(True, 'no-shared-containers', f'{nm}.{name}', '')
      for n in ast.walk(fn):
        tgt = None
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            n.func.attr in MUTATORS and isinstance(n.func.value, ast.Name):
          tgt = n.func.value.id
        elif isinstance(n, (ast.Subscript,)) and isinstance(
            n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name):
          tgt = n.value.id
        if tgt is None or tgt in (loc - glob) or tgt not in top:
          continue
        if (nm, tgt) in tl:
          continue
        R.need(False, 'no-shared-containers', f'{nm}.{name}: {tgt}',
               f'writes into the module-level container {tgt}, which every '
               'thread shares', f'{nm}:{n.lineno} in {name}')


# ------------------------------------------------------------------- C17
def rule_c17(R):
  inner = lambda: HostFn(lambda I, a, k: I.call(S('user'), []), 'inner')
  calls = [
      ('hk.get_parameter', lambda I: hk(
          I, 'get_parameter', K('w'), S('shape'), S('dtype'), init=S('user'))),
      ('hk.get_state', lambda I: hk(I, 'get_state', K('w'))),
      ('hk.get_state with init', lambda I: hk(
          I, 'get_state', K('w'), S('shape'), S('dtype'), init=S('user'))),
      ('hk.set_state', lambda I: hk(I, 'set_state', K('w'), S('x'))),
      ('hk.next_rng_key', lambda I: hk(I, 'next_rng_key')),
      ('hk.next_rng_keys', lambda I: hk(I, 'next_rng_keys', K(2))),
      ('hk.maybe_next_rng_key', lambda I: hk(I, 'maybe_next_rng_key')),
      ('hk.reserve_rng_keys', lambda I: hk(I, 'reserve_rng_keys', K(2))),
      ('hk.running_init', lambda I: hk(I, 'running_init')),
  ]
  skip = ('nested init', 'nested apply', 'hk.experimental.named_call')
  for n, r in REGIONS:
    if n not in skip:
      calls.append((n, lambda I, r=r: r(I, inner())))
  for when in ('before any transform', 'after init', 'after a failed init'):
    for n, f in calls:
      def scen(I, n=n, f=f, when=when):
        setup(I, arrays=('x', 'n', 'xs', 'shape', 'dtype'),
              keys=('rng', 'key2'))
        if when != 'before any transform':
          def body(I, a, k):
            m = I.call(client(I, 'Leaf'), [])
            I.call(m, [HostFn(lambda I, a, k: S('x'))])
            if when == 'after a failed init':
              I.raise_('RuntimeError')
            return S('x')
          attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
        before = heap(I)
        out = attempt(I, HostFn(lambda I, a, k: f(I)))
        ran = [e for e in I.trace if e.kind == 'usercall' and e.f == S('user')]
        c = f'{n} {when}'
        R.need(out.raises(I, 'ValueError'), 'outside-raises', c,
               f'outside of hk.transform it gives {out!r} instead of '
               'ValueError', last_loc(I), guards_text(I))
        R.need(not ran, 'outside-runs-nothing', c,
               'client code is run outside of hk.transform', ran[0].loc if ran
               else None)
        for x, k in heap_diff(I, before):
          R.need(False, 'outside-leaves-nothing', c,
                 f'{name_of(I, x)} ({k}) is changed', last_loc(I))
      R.explore(f'{n} {when}', scen)

  # every module class the library exports
  I = session()
  n = 0
  for pkg in ('haiku', 'haiku.nets'):
    base_ = pub(I, 'Module')
    for k, v in sorted(I.module(pkg).env.vars.items()):
      if isinstance(v, Cls) and I.is_sub(v, base_) and v is not base_:
        n += 1
        ctor_outside(R, f'{pkg}.{k}', v)
  R.need(n > 30, 'classes-found', 'exported module classes',
         f'only {n} module classes found' if n else 'none')

  # modules that outlive their transform
  for meth in ('__call__', 'other'):
    def scen3(I, meth=meth):
      setup(I, arrays=('x',))
      got = {}

      def body(I, a, k):
        got['m'] = I.call(client(I, 'Leaf'), [])
        return S('x')
      attempt(I, I.getattr(transformed(I, body), 'init'), [S('rng')])
      f = HostFn(lambda I, a, k: hk(I, 'get_parameter', K('w'), S('shape'),
                                    S('dtype'), init=S('user')))
      m = got['m']
      out = attempt(I, m if meth == '__call__' else I.getattr(m, meth), [f])
      ran = [e for e in I.trace if e.kind == 'usercall']
      R.need(out.raises(I, 'ValueError') and not ran, 'outside-raises',
             f'method {meth} of a module after its transform ended',
             f'gives {out!r}', last_loc(I))
    R.explore(f'leaked module {meth}', scen3)


def ctor_outside(R, name, cls):
  def scen(I):
    setup(I, arrays=('x',))
    c = pub(I, name)
    init, _ = I.clookup(c, '__init__')
    args = {}
    f = init
    while not isinstance(f, Fn) and hasattr(f, 'f'):
      f = f.f
    if isinstance(f, Fn):
      from .layers import raw_init
      f = raw_init(I, c) or f
      a = f.node.args
      nd = len(f.defaults or ())
      pos = [x.arg for x in a.args][1:]
      for p in pos[:len(pos) - nd] if nd else pos:
        args[p] = S('arg_' + p)
      for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is None:
          args[x.arg] = S('arg_' + x.arg)
    out = attempt(I, c, [], args)
    R.need(out.raises(I, 'ValueError'), 'outside-raises', f'{name}(...)',
           f'constructing it outside of hk.transform gives {out!r} instead of '
           'ValueError', last_loc(I), guards_text(I))
  R.explore(f'construct {name}', scen, max_paths=60)
