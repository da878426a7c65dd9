"""C10: random keys are unique, derived from the given key, used once."""
import itertools

from ..harness import *
from .params import WRAPPERS, last_loc, norm_copy, mentions

PURE = ('getitem', 'carry', 'treecopy', 'sym', 'hofret')


def derived(t, roots):
  """The key is computed from one of the roots by splitting only."""
  t = norm_copy(t)
  if t in roots:
    return True
  if isinstance(t, T) and t.op == 'getitem':
    return derived(t.args[0], roots)
  if isinstance(t, T) and t.op == 'call' and isinstance(t.args[0], Ext) and \
      t.args[0].name in ('jax.random.split', 'jax.random.fold_in',
                         'jax.random.PRNGKey'):
    return bool(t.args[1]) and derived(t.args[1][0], roots)
  if isinstance(t, T) and t.op == 'pop':  # taken from a reserve in a loop
    return any(mentions(t, r) for r in roots)
  return False


def splits(I, n0=0):
  out = []
  for e in I.trace[n0:]:
    if e.kind == 'extcall' and e.name in (
        'jax.random.split', 'jax.random.fold_in') and not e.d.get('scratch') \
        and not e.loc[0].startswith('<client'):
      a = e.args[0] if e.args else e.kwargs.get('key')
      out.append((norm_copy(a), e))
  return out


def keytext(k):
  """split(split(rng)[0])[1] -> rng/0/1 (readable)."""
  k = norm_copy(k)
  if isinstance(k, T) and k.op == 'getitem':
    b = k.args[0]
    if isinstance(b, T) and b.op == 'call' and b.args[0] == Ext(
        'jax.random.split'):
      return f'split({keytext(b.args[1][0])}, {b.args[1][1]!r})' \
          f'[{k.args[1]!r}]'
  return show(k, 60)


def linear(R, I, handed, construct, roots, n0=0):
  """The obligations on the keys handed out in one run."""
  hs = [norm_copy(h) for h in handed]
  for i, h in enumerate(hs):
    R.need(derived(h, roots), 'key-derived', construct,
           f'key number {i} is {keytext(h)}, not split from the given key',
           last_loc(I), guards_text(I))
    j = hs.index(h)
    R.need(j == i, 'keys-distinct', construct,
           f'keys number {j} and {i} are the same: {keytext(h)}', last_loc(I),
           guards_text(I))
    R.need(h not in roots, 'given-key-not-handed-out', construct,
           f'key number {i} is the given key itself', last_loc(I))
  seen = {}
  for a, e in splits(I, n0):
    R.need(a not in seen, 'key-split-once', construct,
           f'the key {keytext(a)} is split twice', e.loc, guards_text(I))
    seen[a] = e
    R.need(a not in hs, 'handed-key-not-split', construct,
           f'a key that was handed out is split again: {keytext(a)}', e.loc)


# ------------------------------------------------------------ PRNGSequence
def rule_seq(R):
  ops = ['next', 'take0', 'take1', 'take2', 'reserve0', 'reserve1', 'reserve3',
         'full', 'state', 'replace']
  depth = 4 if R.tier == 'thorough' else 3
  progs = [p for d in range(1, depth + 1)
           for p in itertools.product(ops, repeat=d)]
  for start in ('key', 'seed', 'state'):
    for block in (1, 3):
      chunk = []
      for p in progs:
        if (start != 'key' or block != 1) and len(p) > 2:
          continue
        chunk.append(p)
      for first in ops:
        sub = [p for p in chunk if p[0] == first]
        if sub:
          seq_chunk(R, start, block, first, sub)


def seq_chunk(R, start, block, first, progs):
  def scen(I):
    setup(I, keys=('rng', 'k1', 'k2'))
    base = I.module('haiku._src.base')
    base.env.vars['DEFAULT_PRNG_RESERVE_SIZE'] = K(block)
    cls = pub(I, 'PRNGSequence')
    for p in progs:
      n0 = len(I.trace)
      construct = f'PRNGSequence({start}), block {block}: ' + ', '.join(p)
      if start == 'key':
        arg, roots = S('rng'), [S('rng')]
      elif start == 'seed':
        arg = K(42)
        roots = [K(42)]
      else:
        arg = Tup([S('rng'), Tup([S('k1'), S('k2')])])
        roots = [S('rng')]
      handed = []

      def run(I, a, k, arg=arg, p=p, handed=handed):
        s = I.call(cls, [arg])
        for o in p:
          if o == 'next':
            handed.append(I.call(Ext('builtins.next'), [s]))
          elif o.startswith('take'):
            r = I.call(I.getattr(s, 'take'), [K(int(o[4:]))])
            handed.extend(x for x, _ in I.iter_list(r))
          elif o.startswith('reserve'):
            I.call(I.getattr(s, 'reserve'), [K(int(o[7:]))])
          elif o == 'full':
            I.call(I.getattr(s, 'reserve_up_to_full'), [])
          elif o == 'state':
            s = I.call(cls, [I.getattr(s, 'internal_state')])
          else:
            st = I.getattr(s, 'internal_state')
            s = I.call(cls, [S('k9')] if 0 else [K(7)])
            I.call(I.getattr(s, 'replace_internal_state'), [st])
        for _ in range(7):
          handed.append(I.call(Ext('builtins.next'), [s]))
        return NONE
      out = attempt(I, HostFn(run))
      R.need(out.ok, 'sequence-runs', construct, f'ended with {out!r}',
             last_loc(I))
      if out.ok:
        want = 7 + sum(1 if o == 'next' else int(o[4:])
                       for o in p if o[:4] in ('next', 'take'))
        R.need(len(handed) == want, 'number-of-keys', construct,
               f'{len(handed)} keys instead of {want}', last_loc(I))
        if start == 'state':
          given = [h for h in handed if norm_copy(h) in (S('k1'), S('k2'))]
          rest = [h for h in handed if norm_copy(h) not in (S('k1'), S('k2'))]
          R.need(len(given) == len(set(map(norm_copy, given))),
                 'keys-distinct', construct, 'a reserved key is handed out '
                 'twice', last_loc(I))
          linear(R, I, rest, construct, roots, n0)
          continue
        linear(R, I, handed, construct, roots, n0)
  R.explore(f'{start}/{block}/{first}', scen)


# ------------------------------------------------------------ inside a run
def rule_run(R):
  """Sequences of requests, reservations and wrapped requests."""
  simple = {
      'next': lambda I, h: h(hk(I, 'next_rng_key')),
      'keys': lambda I, h: [h(x) for x, _ in I.iter_list(
          hk(I, 'next_rng_keys', K(2)))],
      'maybe': lambda I, h: h(hk(I, 'maybe_next_rng_key')),
      'reserve': lambda I, h: hk(I, 'reserve_rng_keys', K(2)),
      'param': lambda I, h: hk(I, 'get_parameter', K('w'), S('shape'),
                               S('dtype'), init=HostFn(
                                   lambda I, a, k: (h(hk(I, 'next_rng_key')),
                                                    S('w'))[1])),
  }
  wr = {w[0]: w[1] for w in WRAPPERS if w[0] not in (
      'directly', 'under hk.eval_shape')}

  def lift(I, f):
    inner = transformed(I, lambda I, a, k: (
        hk(I, 'get_parameter', K('w'), S('shape'), S('dtype'), init=HostFn(
            lambda I, a, k: S('w'))), I.call(f, []))[1], 'transform')
    return I.call(hk(I, 'lift', I.getattr(inner, 'init')), [
        hk(I, 'next_rng_key'), ])
  prefixes = [(), ('next',), ('reserve',), ('keys', 'reserve'),
              ('reserve', 'next'), ('param',), ('maybe', 'maybe'),
              ('reserve', 'reserve', 'keys', 'next'), ('next', 'keys')]
  inners = [('next',), ('keys',), ('maybe', 'next'), ('reserve', 'next'),
            ('reserve', 'keys', 'reserve'), (), ('reserve', 'reserve')]

  for phase in ('init', 'apply'):
    def plain(I, phase=phase):
      pass
    for pre in prefixes:
      run_prog(R, phase, pre, None, None, (), simple)
    for wname, wrap in wr.items():
      if phase == 'init' and wname == 'under hk.while_loop':
        continue
      for pre in prefixes[:5]:
        for inn in inners:
          if R.tier == 'quick' and prefixes.index(pre) > 2 and \
              inners.index(inn) > 3:
            continue
          run_prog(R, phase, pre, wname, wrap, inn, simple)
    for w1, w2 in (('under hk.with_rng', 'under hk.jit'),
                   ('under hk.jit', 'under hk.cond'),
                   ('under hk.scan', 'under hk.cond'),
                   ('under hk.jit', 'under hk.scan'),
                   ('in a module', 'under hk.value_and_grad'),
                   ('under hk.vmap', 'under hk.remat'),
                   ('under hk.cond', 'under hk.with_rng'),
                   ('under hk.fori_loop', 'under hk.with_rng')):
      if 'with_rng' in w2 and ('loop' in w1 or 'scan' in w1):
        continue
      wrap = lambda I, f, w1=w1, w2=w2: wr[w1](I, HostFn(
          lambda I, a, k: wr[w2](I, f)))
      for pre in prefixes[:2]:
        for inn in inners[:3]:
          run_prog(R, phase, pre, f'{w1} {w2}', wrap, inn, simple)


def run_prog(R, phase, pre, wname, wrap, inn, simple):
  name = ', '.join(pre + ((f'[{", ".join(inn)}] {wname}',) if wrap else ())
                   ) or 'nothing'
  construct = f'{phase}: {name}'

  def scen(I):
    setup(I, arrays=('w', 'x', 'xs', 'n', 'shape', 'dtype'),
          shapes_ok=('shape',), keys=('rng', 'key2'))
    handed = []

    def h(k):
      if not I.scratch:
        handed.append(k)

    def body(I, a, k):
      for o in pre:
        simple[o](I, h)
      if wrap:
        def use(I, a, k):
          for o in inn:
            simple[o](I, h)
          return S('x')
        wrap(I, HostFn(use, 'use'))
      for _ in range(5):
        simple['next'](I, h)
      simple['keys'](I, h)
      return S('x')
    t = transformed(I, body)
    P = I.mkdict({'~': I.mkdict({'w': S('w')})})
    if phase == 'init':
      I.assume(T('lt', K(0), S('n')))
      out = attempt(I, I.getattr(t, 'init'), [S('rng')])
    else:
      out = attempt(I, I.getattr(t, 'apply'), [P, I.mkdict({}), S('rng')])
    if not out.ok:
      R.need(None, 'run-completes', construct, f'ended with {out!r}',
             last_loc(I))
      return
    roots = [S('rng')] + ([S('key2')] if wname and 'with_rng' in wname else [])
    linear(R, I, handed, construct, roots)
  R.explore(construct, scen)


# ------------------------------------------------------------ layers
def rule_layers(R):
  """Every key a layer draws is consumed by at most one random function."""
  from . import layers
  for lname, run in layers.LAYERS:
    for phase in ('init',):
      def scen(I, lname=lname, run=run):
        layers.prepare(I)
        t = transformed(I, lambda I, a, k: run(I))
        attempt(I, I.getattr(t, 'init'), [S('rng')])
        seen = {}
        n = 0
        for e in I.trace:
          if e.kind == 'extcall' and e.name.startswith('jax.random.') and \
              e.name != 'jax.random.PRNGKey' and not e.d.get('scratch'):
            k = e.args[0] if e.args else e.kwargs.get('key')
            if not isinstance(k, V):
              continue
            k = norm_copy(k)
            n += 1
            R.need(k not in seen, 'key-used-once', lname,
                   f'{e.name} and {getattr(seen.get(k), "name", None)} use '
                   f'the same key {keytext(k)}', e.loc, guards_text(I, 6))
            R.need(derived(k, [S('rng'), S('key2')]), 'key-derived', lname,
                   f'{e.name} uses {keytext(k)}, which is not derived from '
                   'the given key', e.loc)
            seen[k] = e
        R.need(True, 'layer-analysed', lname, '')
      R.explore(lname, scen)
