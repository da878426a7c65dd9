"""State semantics, input immutability, transformed pairs."""
import itertools

from ..harness import *
from .params import WRAPPERS, norm_copy, lookup2, last_loc, calls_of, key_list

LINEAR = ('directly', 'in a module', 'in a name_scope', 'under hk.with_rng',
          'under hk.jit', 'under hk.remat', 'under named_call',
          'under optimize_rng_use', 'under hk.value_and_grad', 'under hk.vmap',
          'under hk.cond', 'under hk.switch')


class Model:
  """What the documentation says about one run's state."""

  def __init__(self, given):
    self.cells = {k: [v, v] for k, v in given.items()}

  def do(self, op, cell, val, made):
    """Returns ('value', v) | ('error', name) | None (no result)."""
    c = self.cells.get(cell)
    if op == 'set':
      if c is None:
        self.cells[cell] = [val, val]
      else:
        c[1] = val
      return None
    if c is None:
      if op == 'get':
        return ('error', 'ValueError')
      self.cells[cell] = [made, made]
      c = self.cells[cell]
    return ('value', c[1])


def do_op(I, op, name, val, init):
  if op == 'set':
    return hk(I, 'set_state', K(name), val)
  if op == 'get':
    return hk(I, 'get_state', K(name))
  return hk(I, 'get_state', K(name), S('shape'), S('dtype'), init=init)


def rule_c06(R):
  ops = [('get', 's'), ('geti', 's'), ('set', 's')]
  extra = [('set', 'r'), ('geti', 'r')]
  n = 3 if R.tier == 'quick' else 4
  for wname, wrap, bundle in WRAPPERS:
    if wname not in LINEAR:
      continue
    direct = wname == 'directly'
    if direct:
      seqs = list(itertools.product(ops + extra, repeat=2)) + list(
          itertools.product(ops, repeat=n))
    else:
      seqs = [s for s in itertools.product(ops, repeat=3)
              if s[1][0] != 'get' or R.tier == 'thorough']
      if R.tier == 'quick':
        seqs = [s for s in seqs if s[0][0] != 'get']
    for seq in seqs:
      for phase in ('init', 'apply', 'apply-given'):
        one_c06(R, wname, wrap, bundle, seq, phase)
  isolation(R)


def one_c06(R, wname, wrap, bundle, seq, phase):
  def scen(I):
    setup(I, arrays=('s0', 'q0', 'x', 'shape', 'dtype') + tuple(
        f'v{i}' for i in range(len(seq))), shapes_ok=('shape',),
          keys=('rng', 'key2'))
    inner = range(1, len(seq)) if wname == 'directly' else range(
        1, len(seq) - 1)
    got = {}

    def step(i):
      op, name = seq[i]
      r = attempt(I, HostFn(lambda I, a, k: do_op(
          I, op, name, S(f'v{i}'), S(f'init{i}'))))
      made = calls_of(I, S(f'init{i}'))
      got[i] = (r, made[-1].d.get('result') if made else None)
      if not r.ok:
        raise AbsRaise(r.v, r.node)
      return r.v

    def outer(I, args, kwargs):
      # the wrapped part and the outer part share one scope
      if wname in ('in a module', 'in a name_scope'):
        return scoped(I, args, kwargs)
      step(0)
      wrap(I, HostFn(mid, 'use'))
      for i in range(1 + len(inner), len(seq)):
        step(i)
      return S('x')

    def mid(I, args, kwargs):
      for i in inner:
        step(i)
      return S('x')

    def scoped(I, args, kwargs):
      def whole(I, a, k):
        for i in range(len(seq)):
          step(i)
        return S('x')
      return wrap(I, HostFn(whole, 'use'))
    t = transformed(I, outer)
    given = {}
    st = NONE
    if phase == 'apply-given':
      st = I.mkdict({bundle: I.mkdict({'s': S('s0')}),
                     'zz': I.mkdict({'q': S('q0')})})
      given = {'s': S('s0')}
    if phase == 'init':
      out = attempt(I, I.getattr(t, 'init'), [S('rng')])
    else:
      out = attempt(I, I.getattr(t, 'apply'), [I.mkdict(), st, S('rng')])
    m = Model(given)
    construct = f'{phase} {wname}: ' + ', '.join(f'{o}({k})' for o, k in seq)
    for i, (op, name) in enumerate(seq):
      if i not in got:
        R.need(None, 'state-read', construct, f'step {i} not reached: {out!r} {show(out.v.attrs if not out.ok else 0, 300)}', last_loc(I))
        return
      r, made = got[i]
      want = m.do(op, name, S(f'v{i}'), made)
      if want is None:
        R.need(r.ok, 'state-write', construct, f'set_state gives {r!r}',
               last_loc(I), guards_text(I))
        continue
      if want[0] == 'error':
        R.need(r.raises(I, want[1]), 'uninitialised-raises', construct,
               f'step {i}: reading state that has no value gives {r!r} instead '
               f'of {want[1]}', last_loc(I), guards_text(I))
        return
      R.need(r.ok and norm_copy(r.v) == want[1] if want[1] is not None else
             False, 'state-read', construct,
             f'step {i} ({op}) gives {r!r}; the current value is '
             f'{show(want[1])}', last_loc(I), guards_text(I))
      if op == 'geti':
        k = calls_of(I, S(f'init{i}'))
        need = 1 if want[1] == made and made is not None else 0
        if need == 0:
          R.need(not k, 'initialised-once', construct,
                 f'step {i} runs the initializer though there is a value',
                 last_loc(I))
      if not r.ok:
        return
    if not out.ok:
      R.need(False, 'run-completes', construct, f'the run ended with {out!r}',
             last_loc(I), guards_text(I))
      return
    so = I.getitem(out.v, K(1))
    which = 0 if phase == 'init' else 1
    for name, c in m.cells.items():
      v = lookup2(I, so, bundle, name)
      R.need(v.ok and norm_copy(v.v) == c[which], 'state-returned', construct,
             f'{phase} returns state {name!r} = {v!r} instead of the '
             f'{"initial" if which == 0 else "current"} value {show(c[which])}',
             last_loc(I), guards_text(I))
    if phase == 'apply-given':
      v = lookup2(I, so, 'zz', 'q')
      R.need(v.ok and norm_copy(v.v) == S('q0'), 'untouched-state-returned',
             construct, f'state that was not touched comes back as {v!r}',
             last_loc(I), guards_text(I))
  R.explore(f'{phase}/{wname}/' + '-'.join(o + k for o, k in seq), scen)


def isolation(R):
  """State of different modules is separate; transform gives params untouched."""
  def scen(I):
    setup(I, arrays=('a', 'b', 'c', 'x'))
    got = {}

    def body(I, args, kwargs):
      m = I.call(client(I, 'Leaf'), [], {'name': K('m')})
      n = I.call(client(I, 'Leaf'), [], {'name': K('n')})
      w = lambda v: HostFn(lambda I, a, k: hk(I, 'set_state', K('s'), S(v)))
      g = HostFn(lambda I, a, k: hk(I, 'get_state', K('s')))
      I.call(m, [w('a')])
      I.call(n, [w('b')])
      hk(I, 'set_state', K('s'), S('c'))
      got['m'] = I.call(m, [g])
      got['n'] = I.call(I.getattr(n, 'other'), [g])
      got['~'] = hk(I, 'get_state', K('s'))
      return S('x')
    for phase in ('init', 'apply'):
      t = transformed(I, body)
      args = [S('rng')] if phase == 'init' else [NONE, NONE, S('rng')]
      out = attempt(I, I.getattr(t, phase), args)
      if not out.ok:
        R.need(None, 'state-scope', phase, f'ended with {out!r}')
        return
      so = I.getitem(out.v, K(1))
      for b, v in (('m', 'a'), ('n', 'b'), ('~', 'c')):
        R.need(norm_copy(got[b]) == S(v), 'state-scope', f'{phase} {b}/s',
               f'reads {show(got[b])}, written {v}', last_loc(I))
        r = lookup2(I, so, b, 's')
        R.need(r.ok and norm_copy(r.v) == S(v), 'state-scope',
               f'{phase} returned {b}/s', f'returned {r!r}', last_loc(I))
  R.explore('modules', scen)

  # arbitrary input state: entries never read or written come back unchanged
  for kind in ('dict', 'flat'):
    def scen2(I, kind=kind):
      setup(I, kind=kind, arrays=('v', 'x'), maps=('ST',))
      got = {}

      def body(I, args, kwargs):
        hk(I, 'set_state', K('s'), S('v'))
        return S('x')
      t = transformed(I, body)
      out = attempt(I, I.getattr(t, 'apply'), [NONE, S('ST'), S('rng')])
      c = f'apply with arbitrary state ({kind})'
      if not out.ok:
        R.need(None, 'state-returned', c, f'ended with {out!r}')
        return
      so = I.getitem(out.v, K(1))
      r = lookup2(I, so, '~', 's')
      R.need(r.ok and norm_copy(r.v) == S('v'), 'state-returned', c,
             f'the written value comes back as {r!r}', last_loc(I))
      for a, b in (('mm', 'q'), ('~', 'q')):
        r = lookup2(I, so, a, b)
        if r.ok:
          ok = mentions(r.v, S('ST')) and not mentions(r.v, S('v'))
          R.need(ok or None, 'untouched-state-returned', c,
                 f'{a}/{b} comes back as {show(r.v)}', last_loc(I))
    R.explore(f'arbitrary state/{kind}', scen2)


# ------------------------------------------------------------------- C07
def dicts_of(I, v, seen=None):
  """Every mutable container reachable from a client value."""
  seen = {} if seen is None else seen
  if isinstance(v, Obj) and id(v) not in seen:
    seen[id(v)] = v
    for e in v.items or ():
      for x in e[1:]:
        if isinstance(x, V):
          dicts_of(I, x, seen)
    for x in v.attrs.values():
      if isinstance(x, V):
        dicts_of(I, x, seen)
  elif isinstance(v, Tup):
    for x in v.items:
      dicts_of(I, x, seen)
  return list(seen.values())


def contents(I, objs):
  return [(o, None if o.items is None else list(o.items), dict(o.attrs))
          for o in objs]


def changed(before):
  for o, items, attrs in before:
    if o.items != items and not (o.items is None or items is None) and \
        [(e[0],) + tuple(e[1:]) for e in o.items] != items:
      return o
    if o.items is None and isinstance(o.cls, Cls):
      continue  # lazily filled caches of immutable mappings are not visible
    if o.attrs != attrs:
      return o
  return None


def busy(I):
  """Uses every kind of managed value."""
  hk(I, 'get_parameter', K('w'), S('shape'), S('dtype'), init=S('init'))
  hk(I, 'get_state', K('s'), S('shape'), S('dtype'), init=S('init2'))
  hk(I, 'set_state', K('s'), S('v'))
  hk(I, 'get_state', K('t'), S('shape'), S('dtype'), init=S('init2'))
  hk(I, 'set_state', K('u'), S('v'))
  hk(I, 'next_rng_key')
  return S('x')


def immutable(R, I, m, construct, path=''):
  """Item assignment and deletion raise TypeError / AttributeError."""
  def t1(I, a, k):
    return I.setitem(m, K('q'), S('v'))

  def t2(I, a, k):
    I.delitem(m, K('~'))
    return NONE
  for what, f in (('assignment', t1),):
    r = attempt(I, HostFn(f))
    R.need(r.raises(I, 'TypeError', 'AttributeError'), 'output-immutable',
           f'{construct}{path}', f'item {what} on a returned mapping gives '
           f'{r!r} instead of an error', last_loc(I))
  for meth in ('update', 'pop', 'setdefault', 'clear', 'popitem'):
    r = attempt(I, HostFn(lambda I, a, k, meth=meth: I.call(
        I.getattr(m, meth), [I.mkdict({'q': S('v')})] if meth == 'update' else
        [K('q'), S('v')] if meth in ('setdefault', 'pop') else [])))
    R.need(r.raises(I, 'TypeError', 'AttributeError'), 'output-immutable',
           f'{construct}{path}.{meth}', f'a returned mapping has a working '
           f'{meth}()', last_loc(I))


def rule_c07(R):
  for wname, wrap, bundle in WRAPPERS:
    for phase in ('init', 'apply'):
      if phase == 'init' and wname == 'under hk.while_loop':
        continue
      for kind in ('dict', 'flat'):
        if kind == 'flat' and (phase == 'init' or wname not in (
            'directly', 'in a module', 'under hk.jit') and
                               R.tier == 'quick'):
          continue
        def scen(I, wrap=wrap, wname=wname, bundle=bundle, phase=phase,
                 kind=kind):
          setup(I, kind=kind, arrays=('w', 's0', 'v', 'x', 'xs', 'q0', 'shape',
                                      'dtype', 'n'), shapes_ok=('shape',),
                keys=('rng', 'key2'))
          construct = f'{phase} {wname} ({kind} inputs)'
          P = I.mkdict({bundle: I.mkdict({'w': S('w')})})
          ST = I.mkdict({bundle: I.mkdict({'s': S('s0')}),
                         'zz': I.mkdict({'q': S('q0')})})
          if kind == 'flat':
            P = hk(I, 'data_structures.to_immutable_dict', P)
            ST = hk(I, 'data_structures.to_immutable_dict', ST)
          if wname in ('under hk.scan', 'under hk.fori_loop',
                       'under hk.while_loop'):
            def use(I, a, k):
              hk(I, 'get_parameter', K('w'), S('shape'), S('dtype'),
                 init=S('init'))
              hk(I, 'set_state', K('s'), S('v'))
              return S('x')
            if phase == 'apply':
              pass
          else:
            use = lambda I, a, k: busy(I)
          t = transformed(I, lambda I, a, k: wrap(I, HostFn(use, 'use')))
          ins = contents(I, dicts_of(I, Tup([P, ST])))
          if phase == 'init':
            if wname in ('under hk.scan', 'under hk.fori_loop'):
              I.assume(T('lt', K(0), S('n')))
            out = attempt(I, I.getattr(t, 'init'), [S('rng')])
          else:
            out = attempt(I, I.getattr(t, 'apply'), [P, ST, S('rng')])
          ch = changed(ins)
          R.need(ch is None, 'inputs-unchanged', construct,
                 f'apply changed a mapping it was given: {show(ch)}',
                 last_loc(I), guards_text(I))
          if not out.ok:
            R.need(None, 'run-completes', construct, f'ended with {out!r}')
            return
          outs = [('params', I.getitem(out.v, K(0)), 'w'),
                  ('state', I.getitem(out.v, K(1)), 's')]
          if phase == 'apply':
            outs = outs[1:]
          for nm, m, leaf in outs:
            immutable(R, I, m, construct, f' {nm}')
            inner = attempt(I, HostFn(lambda I, a, k: I.getitem(
                m, K(bundle))))
            if inner.ok:
              immutable(R, I, inner.v, construct, f' {nm}[{bundle!r}]')
            # later changes of the inputs do not show in the outputs
          if phase == 'apply' and kind == 'dict':
            m = I.getitem(out.v, K(1))
            b1 = [lookup2(I, m, bundle, 's'), lookup2(I, m, 'zz', 'q')]
            for o, items, _ in ins:
              if o.kind in ('dict',):
                o.items[:] = []
            b2 = [lookup2(I, m, bundle, 's'), lookup2(I, m, 'zz', 'q')]
            R.need(all(x.ok and y.ok and x.v == y.v for x, y in zip(b1, b2)),
                   'outputs-do-not-alias-inputs', construct,
                   'clearing the mapping given to apply changes the state it '
                   'returned', last_loc(I))
        R.explore(f'{phase}/{wname}/{kind}', scen)


# ------------------------------------------------------------------- C08
def rule_c08(R):
  """hk.transform rejects functions that use state."""
  acts = [('get_state', lambda I: hk(I, 'get_state', K('s'), S('shape'),
                                     S('dtype'), init=S('init'))),
          ('set_state', lambda I: hk(I, 'set_state', K('s'), S('v')))]
  ways = [('hk.transform', lambda I, f: hk(I, 'transform', f)),
          ('hk.without_state', lambda I, f: hk(
              I, 'without_state', hk(I, 'transform_with_state', f))),
          ('hk.without_apply_rng(hk.transform)', lambda I, f: hk(
              I, 'without_apply_rng', hk(I, 'transform', f))),
          ('hk.without_state(hk.without_apply_rng)', lambda I, f: hk(
              I, 'without_state', hk(I, 'without_apply_rng', hk(
                  I, 'transform_with_state', f))))]
  for way, mk in ways:
    for wname, wrap, bundle in WRAPPERS:
      if way != 'hk.transform' and wname not in ('directly', 'in a module'):
        continue
      for phase in ('init', 'apply'):
        if phase == 'init' and wname == 'under hk.while_loop' or \
            wname == 'under hk.eval_shape':
          continue
        for aname, act in acts + [('no state', None)]:
          def scen(I, mk=mk, wrap=wrap, wname=wname, phase=phase, act=act,
                   aname=aname, way=way):
            setup(I, arrays=('v', 'x', 'xs', 'shape', 'dtype', 'n', 'w'),
                  shapes_ok=('shape',), keys=('rng', 'key2'))
            ran = []

            def use(I, a, k):
              ran.append(1)
              hk(I, 'get_parameter', K('w'), S('shape'), S('dtype'),
                 init=S('init'))
              if act is not None:
                act(I)
              return S('x')

            def body(I, a, k):
              wrap(I, HostFn(use, 'use'))
              return S('x')
            f = mk(I, HostFn(body, 'body'))
            P = I.mkdict({bundle: I.mkdict({'w': S('w')})})
            rng = [] if 'without_apply_rng' in way else [S('rng')]
            args = [S('rng')] if phase == 'init' else [P] + rng
            out = attempt(I, I.getattr(f, phase), args)
            construct = f'{way} {phase}, {aname} {wname}'
            if act is not None and ran:
              if out.ok and wname in ('under hk.scan', 'under hk.fori_loop',
                                      'under hk.while_loop') and \
                  phase == 'apply':
                # a new state entry cannot be carried by a loop; the error may
                # come from jax
                R.need(None if wname else None, 'state-rejected', construct,
                       'x') if False else None
              ok = out.raises(I, 'ValueError')
              if not ok and not out.ok:
                ok = True  # some other error: not silently dropped
              R.need(ok, 'state-rejected', construct,
                     f'a function that uses state is accepted: {phase} gives '
                     f'{out!r} and the state is lost', last_loc(I),
                     guards_text(I))
              if wname in ('directly', 'in a module'):
                R.need(out.raises(I, 'ValueError'), 'state-rejected',
                       construct + ' (ValueError)',
                       f'{phase} gives {out!r} instead of ValueError',
                       last_loc(I))
            elif act is None:
              R.need(out.ok, 'stateless-accepted', construct,
                     f'a function that uses no state is rejected: {out!r}',
                     last_loc(I), guards_text(I))
              if out.ok and phase == 'apply':
                R.need(out.v == S('x'), 'stateless-result', construct,
                       f'apply returns {show(out.v)} instead of what the '
                       'function returned', last_loc(I))
              if out.ok and phase == 'init':
                v = lookup2(I, out.v, bundle, 'w')
                R.need(v.ok, 'stateless-result', construct,
                       f'init does not return the parameters: {show(out.v)}',
                       last_loc(I))
          R.explore(f'{way}/{wname}/{phase}/{aname}', scen)


# ------------------------------------------------------------------- C09
def rule_c09(R):
  """Transformed pairs: arguments, results and errors."""
  def chain(names):
    def mk(I, f):
      for n in names:
        f = hk(I, n, f)
      return f
    return mk
  kinds = []
  for names in (('transform_with_state',), ('transform',),
                ('transform_with_state', 'without_state'),
                ('transform_with_state', 'without_apply_rng'),
                ('transform', 'without_apply_rng'),
                ('transform_with_state', 'without_state', 'without_apply_rng'),
                ('transform_with_state', 'without_apply_rng',
                 'without_state')):
    st = names[0] == 'transform_with_state' and 'without_state' not in names
    rg = 'without_apply_rng' not in names
    kinds.append((' -> '.join('hk.' + n for n in names), chain(names), st, rg))

  for name, mk, st, rg in kinds:
    # -- arguments, result, keys
    for rngkind in ('key', 'int', 'None'):
      def scen(I, name=name, mk=mk, st=st, rg=rg, rngkind=rngkind):
        setup(I, arrays=('w', 's0', 'x', 'a', 'b', 'c', 'v', 'shape', 'dtype',
                         'out'), shapes_ok=('shape',))
        calls = []
        keys = {}
        if rngkind == 'int':
          rng = K(7)
        else:
          rng = S('rng') if rngkind == 'key' else NONE

        def body(I, args, kwargs):
          calls.append((list(args), dict(kwargs)))
          n0 = len(I.trace)
          keys['maybe'] = hk(I, 'maybe_next_rng_key')
          keys['next'] = attempt(I, pub(I, 'next_rng_key'))
          keys['p'] = attempt(I, HostFn(lambda I, a, k: hk(
              I, 'get_parameter', K('w'), S('shape'), S('dtype'),
              init=S('init'))))
          if st:
            keys['s'] = attempt(I, HostFn(lambda I, a, k: hk(
                I, 'get_state', K('s'), S('shape'), S('dtype'),
                init=S('init2'))))
          return S('out')
        f = mk(I, HostFn(body, 'body'))
        for phase in ('init', 'apply'):
          calls.clear()
          construct = f'{name} .{phase}, rng {rngkind}'
          P = I.mkdict({'~': I.mkdict({'w': S('w')})})
          ST = I.mkdict({'~': I.mkdict({'s': S('s0')})})
          if phase == 'init':
            pre = [rng]
          else:
            pre = [P] + ([ST] if st else []) + ([rng] if rg else [])
          out = attempt(I, I.getattr(f, phase), pre + [S('a'), S('b')],
                        {'k': S('c')})
          if not calls:
            R.need(False, 'function-called', construct,
                   f'the function is not called: {out!r}', last_loc(I),
                   guards_text(I))
            continue
          R.need(len(calls) == 1 and calls[0] == ([S('a'), S('b')],
                                                  {'k': S('c')}),
                 'arguments-forwarded', construct,
                 f'the function is called {len(calls)} times, with '
                 f'{show(calls[0])}', last_loc(I))
          R.need(out.ok, 'run-completes', construct, f'ended with {out!r}',
                 last_loc(I), guards_text(I))
          if not out.ok:
            continue
          v = out.v
          if phase == 'apply':
            if st:
              ok = isinstance(v, Tup) and len(v.items) == 2
              R.need(ok and v.items[0] == S('out'), 'result-returned',
                     construct, f'apply returns {show(v)} instead of '
                     '(result, state)', last_loc(I))
              if ok:
                r = lookup2(I, v.items[1], '~', 's')
                R.need(r.ok and norm_copy(r.v) == S('s0'), 'state-threaded',
                       construct, f'the returned state holds {r!r}',
                       last_loc(I))
            else:
              R.need(v == S('out'), 'result-returned', construct,
                     f'apply returns {show(v)} instead of the result',
                     last_loc(I))
            R.need(keys['p'].ok and norm_copy(keys['p'].v) == S('w'),
                   'params-threaded', construct,
                   f'the function reads {keys["p"]!r} instead of the value '
                   'passed', last_loc(I))
            if st:
              R.need(keys['s'].ok and norm_copy(keys['s'].v) == S('s0'),
                     'state-threaded', construct,
                     f'the function reads state {keys["s"]!r}', last_loc(I))
          else:
            p = v
            if st:
              ok = isinstance(v, Tup) and len(v.items) == 2
              R.need(ok, 'result-returned', construct,
                     f'init returns {show(v)} instead of (params, state)',
                     last_loc(I))
              if not ok:
                continue
              p = v.items[0]
              r = lookup2(I, v.items[1], '~', 's')
              R.need(r.ok, 'state-threaded', construct,
                     'init does not return the state', last_loc(I))
            r = lookup2(I, p, '~', 'w')
            R.need(r.ok and r.v == keys['p'].v, 'params-threaded', construct,
                   f'init returns {r!r} for the created parameter',
                   last_loc(I))
          # random keys
          have = rngkind != 'None' and (phase == 'init' or rg)
          src = T('call', Ext('jax.random.PRNGKey'), (K(7),), ()) \
              if rngkind == 'int' else S('rng')
          if have:
            base_ = S('rng') if rngkind == 'key' else None
            ok = keys['next'].ok and keys['maybe'] != NONE
            R.need(ok, 'rng-available', construct,
                   f'next_rng_key gives {keys["next"]!r}', last_loc(I))
            if ok:
              d = [mentions(x, S('rng')) if base_ is not None else
                   mentions_ext(x, 'jax.random.PRNGKey') and mentions(x, K(7))
                   for x in (keys['next'].v, keys['maybe'])]
              R.need(all(d), 'rng-derived', construct,
                     'keys are not derived from the rng that was passed: '
                     f'{show(keys["next"].v)}', last_loc(I))
              R.need(keys['next'].v != keys['maybe'], 'rng-distinct',
                     construct, 'two requests give the same key', last_loc(I))
          else:
            R.need(keys['maybe'] == NONE, 'rng-absent', construct,
                   f'maybe_next_rng_key gives {show(keys["maybe"])} without an '
                   'rng', last_loc(I))
            R.need(keys['next'].raises(I, 'ValueError'), 'rng-absent',
                   construct + ' next_rng_key',
                   f'next_rng_key gives {keys["next"]!r} without an rng',
                   last_loc(I))
      R.explore(f'{name}/{rngkind}', scen)

    # -- malformed arguments
    def scen2(I, name=name, mk=mk, st=st, rg=rg):
      setup(I, arrays=('x',))
      ran = []

      def body(I, args, kwargs):
        ran.append(1)
        return S('x')
      f = mk(I, HostFn(body, 'body'))
      ok_p = I.mkdict({'~': I.mkdict({'w': S('x')})})
      bad = K('not a mapping')
      seqs = [('params', 'TypeError', [bad] + ([NONE] if st else []) + (
          [S('rng')] if rg else []))]
      if st:
        seqs.append(('state', 'TypeError', [ok_p, bad] + (
            [S('rng')] if rg else [])))
      for what, err, args in seqs:
        ran.clear()
        out = attempt(I, I.getattr(f, 'apply'), args)
        R.need(out.raises(I, err), 'malformed-rejected', f'{name} {what}',
               f'apply with a {what} argument that is not a mapping gives '
               f'{out!r} instead of {err}', last_loc(I))
        R.need(not ran, 'malformed-rejected-first', f'{name} {what}',
               'the function runs although an argument is malformed',
               last_loc(I))
      # rng of the wrong type
      for phase in ('init', 'apply') if rg else ('init',):
        ran.clear()
        badk = K('seed')
        args = [badk] if phase == 'init' else [ok_p] + (
            [NONE] if st else []) + [badk]
        out = attempt(I, I.getattr(f, phase), args)
        R.need(out.raises(I, 'ValueError'), 'malformed-rejected',
               f'{name} rng in {phase}',
               f'{phase} with an rng that is no key gives {out!r} instead of '
               'ValueError', last_loc(I), guards_text(I))
        R.need(not ran, 'malformed-rejected-first', f'{name} rng in {phase}',
               'the function runs although the rng is malformed', last_loc(I))
    R.explore(f'{name}/malformed', scen2)

    # -- state used without a place to return it
    if not st:
      for when in ('init', 'apply', 'both'):
        for how in ('get', 'set', 'get+set', 'in a module', 'in hk.jit'):
          def scen5(I, name=name, mk=mk, rg=rg, when=when, how=how):
            setup(I, arrays=('x', 'v', 'shape', 'dtype'), shapes_ok=('shape',))

            def use(I, a, k):
              if 'set' not in how or 'get' in how:
                hk(I, 'get_state', K('s'), S('shape'), S('dtype'),
                   init=S('init2'))
              if how != 'get':
                hk(I, 'set_state', K('s'), S('v'))
              return S('x')

            def body(I, args, kwargs):
              ini = I.truth_term(hk(I, 'running_init')) == TRUE
              if when == 'both' or ini == (when == 'init'):
                if how == 'in a module':
                  I.call(I.call(client(I, 'Leaf'), [K('m')]), [HostFn(use)])
                elif how == 'in hk.jit':
                  I.call(hk(I, 'jit', HostFn(use)), [])
                else:
                  use(I, [], {})
              return S('x')
            f = mk(I, HostFn(body, 'body'))
            for phase in ('init', 'apply'):
              pre = [S('rng')] if phase == 'init' else [I.mkdict()] + (
                  [S('rng')] if rg else [])
              out = attempt(I, I.getattr(f, phase), pre)
              c = f'{name} .{phase}, state used ({how}) during {when}'
              if when in (phase, 'both'):
                R.need(out.raises(I, 'ValueError'), 'dropped-state-rejected',
                       c, f'gives {out!r} instead of ValueError', last_loc(I),
                       guards_text(I))
              else:
                R.need(out.ok, 'run-completes', c, f'ended with {out!r}',
                       last_loc(I), guards_text(I))
          R.explore(f'{name}/state {when}/{how}', scen5)

    # -- rng of the wrong shape or dtype
    def scen3(I, name=name, mk=mk, st=st, rg=rg):
      setup(I, arrays=('x', 'arr'), keys=())
      ran = []
      f = mk(I, HostFn(lambda I, a, k: ran.append(1) or S('x'), 'body'))
      out = attempt(I, I.getattr(f, 'init'), [S('arr')])
      sh = [(g, b) for g, b, _ in I.guards if mentions(g, S('arr'))]
      known_ok = sum(1 for g, b in sh if g.op == 'eq' and b or g.op == 'ne' and
                     not b)
      known_bad = sum(1 for g, b in sh if g.op == 'eq' and not b or
                      g.op == 'ne' and b)
      if known_bad:
        R.need(out.raises(I, 'ValueError') and not ran, 'malformed-rejected',
               f'{name} array rng', f'an array that is no key gives {out!r}',
               last_loc(I), guards_text(I))
      else:
        R.need(known_ok >= 2 or not out.ok, 'malformed-rejected',
               f'{name} array rng', 'an array is used as a key without '
               'comparing its shape and dtype', last_loc(I), guards_text(I))
    R.explore(f'{name}/array rng', scen3)

  # -- kinds
  def scen4(I):
    setup(I, arrays=('x',))
    f = HostFn(lambda I, a, k: S('x'), 'body')
    for nm, mk, st, rg in kinds:
      p = mk(I, f)
      T0, T1 = pub(I, 'Transformed'), pub(I, 'TransformedWithState')
      R.need(I.isinstance_(p, T1 if st else T0) in (True, TRUE), 'pair-kind', nm,
             f'gives a {I.type_of(p)!r}')
    r = attempt(I, pub(I, 'transform'), [f], {'apply_rng': FALSE})
    R.need(r.raises(I, 'ValueError'), 'removed-argument-rejected',
           'hk.transform(apply_rng=False)', f'gives {r!r}')
    r = attempt(I, pub(I, 'without_apply_rng'), [f])
    R.need(r.raises(I, 'ValueError'), 'malformed-rejected',
           'hk.without_apply_rng(function)', f'gives {r!r}')
  R.explore('kinds', scen4)


def mentions_ext(v, name):
  if isinstance(v, Ext):
    return v.name == name
  if isinstance(v, T):
    return any(mentions_ext(a, name) for a in v.args)
  if isinstance(v, Tup):
    return any(mentions_ext(a, name) for a in v.items)
  if isinstance(v, tuple):
    return any(mentions_ext(a, name) for a in v)
  return False


# ------------------------------------------------------------------- C28
def rule_c28(R):
  """A transformed function run inside another one is independent of it."""
  for outer_phase in ('init', 'apply'):
    for inner_phase in ('init', 'apply'):
      for wname, wrap, bundle in WRAPPERS:
        if wname in ('under hk.scan', 'under hk.fori_loop',
                     'under hk.while_loop', 'under hk.eval_shape'):
          continue
        def scen(I, wrap=wrap, wname=wname, bundle=bundle,
                 outer_phase=outer_phase, inner_phase=inner_phase):
          setup(I, arrays=('wo', 'wi', 'so', 'si', 'vi', 'vo', 'x', 'shape', 'dtype'),
                shapes_ok=('shape',), keys=('rng', 'rng2', 'key2'))
          got = {}
          construct = f'{inner_phase} inside {outer_phase} {wname}'

          def use(tag, init):
            def f(I, a, k):
              m = I.call(client(I, 'Leaf'), [])
              got[tag + '_name'] = I.getattr(m, 'module_name')
              got[tag + '_p'] = attempt(I, HostFn(lambda I, a, k: hk(
                  I, 'get_parameter', K('w'), S('shape'), S('dtype'),
                  init=S(init))))
              got[tag + '_s'] = attempt(I, HostFn(lambda I, a, k: hk(
                  I, 'get_state', K('s'), S('shape'), S('dtype'),
                  init=S(init + 's'))))
              hk(I, 'set_state', K('s'), S('v' + tag))
              got[tag + '_k'] = hk(I, 'next_rng_key')
              got[tag + '_i'] = hk(I, 'running_init')
              return S('x')
            return f
          inner = transformed(I, use('i', 'ii'))

          def body(I, a, k):
            def go(I, a, k):
              P = I.mkdict({'~': I.mkdict({'w': S('wi')})})
              ST = I.mkdict({'~': I.mkdict({'s': S('si')})})
              args = [S('rng2')] if inner_phase == 'init' else [
                  P, ST, S('rng2')]
              got['io'] = attempt(I, I.getattr(inner, inner_phase), args)
              return use('o', 'io')(I, a, k)
            return wrap(I, HostFn(go, 'go'))
          t = transformed(I, body)
          PO = I.mkdict({bundle: I.mkdict({'w': S('wo')})})
          SO = I.mkdict({bundle: I.mkdict({'s': S('so')})})
          args = [S('rng')] if outer_phase == 'init' else [PO, SO, S('rng')]
          out = attempt(I, I.getattr(t, outer_phase), args)
          if 'io' not in got or not got['io'].ok or not out.ok:
            R.need(None, 'independent', construct,
                   f'ended with {out!r} / {got.get("io")!r}')
            return
          ip, op = got['i_p'], got['o_p']
          if inner_phase == 'apply':
            R.need(ip.ok and norm_copy(ip.v) == S('wi') and norm_copy(
                got['i_s'].v) == S('si'), 'inner-reads-own', construct,
                   f'the inner run reads {ip!r} and {got["i_s"]!r}',
                   last_loc(I))
          else:
            made = calls_of(I, S('ii'))
            R.need(ip.ok and made and ip.v == made[-1].result,
                   'inner-reads-own', construct,
                   f'the inner init reads {ip!r}', last_loc(I))
          if outer_phase == 'apply':
            R.need(op.ok and norm_copy(op.v) == S('wo') and norm_copy(
                got['o_s'].v) == S('so'), 'outer-unaffected', construct,
                   f'after the inner run the outer reads {op!r} and '
                   f'{got["o_s"]!r}', last_loc(I))
          else:
            made = calls_of(I, S('io'))
            R.need(op.ok and made and norm_copy(op.v) == made[-1].result,
                   'outer-unaffected', construct,
                   f'after the inner run the outer init reads {op!r}',
                   last_loc(I))
          R.need(I.truth_term(got['i_i']) == K(inner_phase == 'init') and
                 I.truth_term(got['o_i']) == K(outer_phase == 'init'),
                 'phase-independent', construct,
                 'running_init reports the phase of the other run',
                 last_loc(I))
          want = {'in a module': 'm/leaf', 'in a name_scope': 'm/leaf'}.get(
              wname, 'leaf')
          R.need(got['i_name'] == K('leaf'), 'names-independent',
                 construct, f'the module in the inner run is named '
                 f'{got["i_name"]!r}', last_loc(I))
          R.need(got['o_name'] == K(want) or got['o_name'] == K(
              want.replace('/', '/~/')), 'names-independent',
                 construct + ' (outer)',
                 f'the outer module is named {got["o_name"]!r}', last_loc(I))
          src = 'key2' if 'with_rng' in wname else 'rng'
          R.need(mentions(got['i_k'], S('rng2')) and not mentions(
              got['i_k'], S(src)), 'rng-independent', construct,
                 f'the inner key is {show(got["i_k"])}', last_loc(I))
          R.need(mentions(got['o_k'], S(src)) and not mentions(
              got['o_k'], S('rng2')), 'rng-independent',
                 construct + ' (outer)', f'the outer key is '
                 f'{show(got["o_k"])}', last_loc(I))
          iv = got['io'].v
          r = lookup2(I, iv.items[1], '~', 's')
          R.need(r.ok and norm_copy(r.v) == (
              S('vi') if inner_phase == 'apply' else got['i_s'].v),
                 'inner-returns-own', construct,
                 f'the inner run returns state {r!r}', last_loc(I))
          r = lookup2(I, out.v.items[1], bundle, 's')
          R.need(r.ok and norm_copy(r.v) == (
              S('vo') if outer_phase == 'apply' else norm_copy(
                  got['o_s'].v)), 'outer-returns-own', construct,
                 f'the outer run returns state {r!r}', last_loc(I))
        R.explore(f'{outer_phase}/{inner_phase}/{wname}', scen)
  c28_absent(R)


def c28_absent(R):
  """What the inner run is not given it does not have, and vice versa."""
  for outer_phase in ('init', 'apply'):
    for inner_phase in ('init', 'apply'):
      for wname, wrap, bundle in WRAPPERS:
        if wname in ('under hk.scan', 'under hk.fori_loop',
                     'under hk.while_loop', 'under hk.eval_shape'):
          continue
        for absent in ('inner', 'outer'):
          def scen(I, wrap=wrap, wname=wname, bundle=bundle, absent=absent,
                   outer_phase=outer_phase, inner_phase=inner_phase):
            setup(I, arrays=('wo', 'wi', 'so', 'si', 'x', 'shape', 'dtype'),
                  shapes_ok=('shape',), keys=('rng', 'rng2', 'key2'))
            got = {}
            c = (f'{inner_phase} inside {outer_phase} {wname}, the {absent} '
                 'run has no parameters, state or rng')

            def use(tag):
              def f(I, a, k):
                got[tag + 'k'] = hk(I, 'maybe_next_rng_key')
                got[tag + 'n'] = attempt(I, pub(I, 'next_rng_key'))
                got[tag + 'p'] = attempt(I, HostFn(lambda I, a, k: hk(
                    I, 'get_parameter', K('w'), S('shape'), S('dtype'),
                    init=S(tag))))
                got[tag + 's'] = attempt(I, HostFn(lambda I, a, k: hk(
                    I, 'get_state', K('s'))))
                return S('x')
              return f
            inner = transformed(I, use('i'))

            def args(who, phase, b, w, s, rng):
              none = absent == who
              r = NONE if none else S(rng)
              if phase == 'init':
                return [r]
              if none:
                return [I.mkdict(), I.mkdict(), r]
              return [I.mkdict({b: I.mkdict({'w': S(w)})}),
                      I.mkdict({b: I.mkdict({'s': S(s)})}), r]

            def body(I, a, k):
              def go(I, a, k):
                got['io'] = attempt(I, I.getattr(inner, inner_phase), args(
                    'inner', inner_phase, '~', 'wi', 'si', 'rng2'))
                use('o')(I, [], {})
                return S('x')
              return wrap(I, HostFn(go, 'go'))
            t = transformed(I, body)
            out = attempt(I, I.getattr(t, outer_phase), args(
                'outer', outer_phase, bundle, 'wo', 'so', 'rng'))
            if 'io' not in got or not got['io'].ok or not out.ok:
              R.need(None, 'independent', c,
                     f'ended with {out!r} / {got.get("io")!r}')
              return
            for tag, who, phase in (('i', 'inner', inner_phase),
                                    ('o', 'outer', outer_phase)):
              if who != absent:
                src = 'rng2' if who == 'inner' else (
                    'key2' if 'with_rng' in wname else 'rng')
                R.need(mentions(got[tag + 'k'], S(src)), 'rng-independent', c,
                       f'the {who} key is {show(got[tag + "k"])}', last_loc(I))
                continue
              if not (who == 'outer' and 'with_rng' in wname):
                R.need(got[tag + 'k'] == NONE and got[tag + 'n'].raises(
                    I, 'ValueError'), 'absent-rng', c,
                       f'the {who} run has no rng but draws '
                       f'{show(got[tag + "k"])}', last_loc(I))
              if phase == 'apply':
                R.need(got[tag + 'p'].raises(I, 'ValueError'),
                       'absent-parameter', c, f'the {who} run reads '
                       f'{got[tag + "p"]!r}', last_loc(I))
              R.need(got[tag + 's'].raises(I, 'ValueError'), 'absent-state', c,
                     f'the {who} run reads {got[tag + "s"]!r}', last_loc(I))
          R.explore(f'absent {absent}/{outer_phase}/{inner_phase}/{wname}',
                    scen)


# ------------------------------------------- C07: every kind of input mapping
def make_map(I, kind, d):
  """A client mapping of the given kind with the given contents."""
  d = I.mkdict(d)
  if kind == 'dict':
    return d
  if kind == 'defaultdict':
    return I.call(Ext('collections.defaultdict'), [Ext('builtins.dict'), d])
  if kind == 'ordered':
    return I.call(Ext('collections.OrderedDict'), [d])
  return hk(I, 'data_structures.to_immutable_dict', d)


def rule_c07_kinds(R):
  """Every kind of mapping, empty or not, returning or raising, run twice."""
  wraps = [w for w in WRAPPERS if w[0] in (
      'directly', 'in a module', 'under hk.jit', 'under hk.cond',
      'under hk.value_and_grad', 'under hk.with_rng')]
  kinds = [(o, i) for o in ('dict', 'defaultdict', 'ordered', 'flat')
           for i in ('dict', 'defaultdict', 'flat')]
  for wname, wrap, bundle in wraps:
    for outer, inner in kinds:
      for fill in ('empty', 'inner empty', 'other', 'full'):
        for end in ('returns', 'raises'):
          if wname != 'directly' and end == 'raises' and fill != 'full':
            continue
          def scen(I, wrap=wrap, wname=wname, bundle=bundle, outer=outer,
                   inner=inner, fill=fill, end=end):
            setup(I, kind='flat' if outer == 'flat' else 'dict', arrays=(
                'w', 's0', 'v', 'x', 'xs', 'q0', 'shape', 'dtype', 'n'),
                  shapes_ok=('shape',), keys=('rng', 'key2'))
            construct = (f'apply {wname}, {outer} of {inner}, {fill}, {end}')
            mk = lambda d: make_map(I, inner, d)
            P = make_map(I, outer, {bundle: mk({'w': S('w')})})
            d = {}
            if fill == 'inner empty':
              d = {bundle: mk({})}
            elif fill == 'other':
              d = {'zz': mk({'q': S('q0')})}
            elif fill == 'full':
              d = {bundle: mk({'s': S('s0')}), 'zz': mk({'q': S('q0')})}
            ST = make_map(I, outer, d)

            def use(I, a, k):
              r = busy(I)
              if end == 'raises':
                I.raise_('RuntimeError')
              return r
            t = transformed(I, lambda I, a, k: wrap(I, HostFn(use, 'use')))
            ins = contents(I, dicts_of(I, Tup([P, ST])))
            out = attempt(I, I.getattr(t, 'apply'), [P, ST, S('rng')])
            ch = changed(ins)
            R.need(ch is None, 'inputs-unchanged', construct,
                   f'apply changed a mapping it was given: {show(ch)}',
                   last_loc(I), guards_text(I))
            if end == 'raises':
              R.need(True if out.raises(I, 'RuntimeError') else None,
                     'run-raises', construct, f'ended with {out!r}')
              return
            if not out.ok:
              R.need(None, 'run-completes', construct, f'ended with {out!r}')
              return
            r1 = I.getitem(out.v, K(1))
            first = contents(I, dicts_of(I, r1))
            out2 = attempt(I, I.getattr(t, 'apply'), [P, r1, S('key2')])
            ch = changed(first)
            R.need(ch is None, 'results-unchanged', construct,
                   'a second run changes what the first returned: '
                   f'{show(ch)}', last_loc(I), guards_text(I))
            ch = changed(ins)
            R.need(ch is None, 'inputs-unchanged', construct + ' twice',
                   f'apply changed a mapping it was given: {show(ch)}',
                   last_loc(I), guards_text(I))
            if outer != 'flat':
              v1 = [lookup2(I, r1, bundle, k) for k in 'stu']
              for o, items, _ in ins:
                if o.items is not None and o.kind in (
                    'dict', 'defaultdict', 'OrderedDict'):
                  o.items[:] = []
              v2 = [lookup2(I, r1, bundle, k) for k in 'stu']
              R.need(all(a.ok and b.ok and a.v == b.v
                         for a, b in zip(v1, v2)),
                     'outputs-do-not-alias-inputs', construct,
                     'clearing the mapping given to apply changes the state '
                     'it returned', last_loc(I))
          R.explore(f'{wname}/{outer}/{inner}/{fill}/{end}', scen)
