"""hk.testing.transform_and_run."""
from ..harness import *
from ..arrays import const, poly
from .numeric import arrays
from .params import calls_of, getp, last_loc, norm_copy
from .structures import content


def rule_run(R):
  """One init, then one apply with what init made, of the function given."""
  for how in ('bare', 'called'):
    for seed in (None, 'none', 7):
      for apply in (None, False, True):
        if how == 'bare' and (seed is not None or apply is not None):
          continue

        def scen(I, how=how, seed=seed, apply=apply):
          setup(I, arrays=('x', 'y', 'w', 'shape', 'dtype'),
                shapes_ok=('shape',))
          I.pins.append(lambda I, t: True if t.op == 'eq' and mentions_shape(
              t) else None)
          runs = []

          def f(I, a, k):
            e = dict(args=a, kw=dict(k), init=hk(I, 'running_init'))
            runs.append(e)
            e['w'] = getp(I)
            e['s'] = hk(I, 'get_state', K('s'), S('shape'), S('dtype'),
                        init=S('sinit'))
            e['key'] = attempt(I, pub(I, 'next_rng_key'))
            hk(I, 'set_state', K('s'), T('sym2', 'new', e['s']))
            return T('sym2', 'out', K(len(runs)))
          f = HostFn(f, 'f')
          run = pub(I, 'testing.transform_and_run')
          kw = {}
          if seed is not None:
            kw['seed'] = NONE if seed == 'none' else K(seed)
          if apply is not None:
            kw['run_apply'] = K(apply)
          d = I.call(run, [f]) if how == 'bare' else I.call(
              I.call(run, [], kw), [f]) if how == 'called' else None
          what = f'transform_and_run {how}, seed={seed}, run_apply={apply}'
          for time in (0, 1):
            n0, t0 = len(runs), len(I.trace)
            o = attempt(I, d, [S('x'), K(2)], {'k': S('y')})
            if not o.ok:
              R.need(False if o.exc_name(I) != 'Undecided' else None, 'run',
                     what, f'ends with {o!r}', last_loc(I))
              return
            rs = runs[n0:]
            both = apply is not False
            R.need([r['init'] for r in rs] == [TRUE, FALSE][:1 + both], 'runs',
                   what, 'runs the function with running_init() = '
                   f'{[r["init"] for r in rs]}', last_loc(I))
            if len(rs) != 1 + both:
              return
            for r in rs:
              R.need(list(r['args']) == [S('x'), K(2)] and r['kw'] == {
                  'k': S('y')}, 'arguments', what,
                     f'calls it with {r["args"]} {r["kw"]}', last_loc(I))
              R.need(r['key'].ok == (seed != 'none'), 'rng', what,
                     f'next_rng_key gives {r["key"]!r}', last_loc(I))
            made = calls_of(I, S('init'), t0)
            R.need(len(made) == 1, 'created', what,
                   f'the initializer runs {len(made)} times', last_loc(I))
            if both:
              a, b = rs
              R.need(norm_copy(a['w']) == norm_copy(b['w']), 'params', what,
                     f'apply reads {b["w"]!r}', last_loc(I))
              R.need(norm_copy(a['s']) == norm_copy(b['s']), 'state', what,
                     f'apply reads {b["s"]!r}, init made {a["s"]!r}',
                     last_loc(I))
              R.need(o.v == T('sym2', 'out', K(len(runs))), 'result', what,
                     f'returns {o.v!r}', last_loc(I))
            else:
              R.need(o.v == NONE, 'result', what, f'returns {o.v!r}',
                     last_loc(I))
        R.explore(f'{how} {seed} {apply}', scen)


def mentions_shape(t):
  from .params import mentions
  return mentions(t, S('shape'))


def rule_sizes(R):
  """tree_size and tree_bytes add up every array of a tree."""
  trees = {
      'two modules': lambda I: I.mkdict({
          'a': I.mkdict({'w': S('x2'), 'b': S('c1')}),
          'b': I.mkdict({'w': S('x4')})}),
      'a tuple': lambda I: Tup([S('x2'), S('x3'), Tup([S('x2')])]),
      'a list': lambda I: I.mklist([S('x3'), NONE, S('k')]),
      'one array': lambda I: S('x4'),
      'nothing': lambda I: I.mkdict({}),
  }
  sizes = {'two modules': ('x2', 'c1', 'x4'), 'a tuple': ('x2', 'x3', 'x2'),
           'a list': ('x3', 'k'), 'one array': ('x4',), 'nothing': ()}
  for label, mk in trees.items():
    for api in ('tree_size', 'tree_bytes'):
      def scen(I, label=label, mk=mk, api=api):
        A = arrays(I)
        o = attempt(I, hk_ds(I, api), [mk(I)])
        what = f'{api} of {label}'
        if not o.ok:
          R.need(None, 'total', what, f'ends with {o!r}', last_loc(I))
          return
        want = poly(K(0))
        for x in sizes[label]:
          p = poly(K(1))
          for d in A.of(S(x)).shape:
            p = p * d
          want = want + p
        got = total(A, o.v, api == 'tree_bytes')
        R.need(None if got is None else got == want, 'total', what,
               f'is {o.v!r}'[:200] + f', the sizes add up to {want!r}',
               last_loc(I))
      R.explore(f'{api} {label}', scen)


def hk_ds(I, api):
  return pub(I, 'data_structures.' + api)


ITEM = T('attr', T('dtype', '$D'), 'itemsize')


def total(A, v, per_item):
  """The value as a number of items."""
  if isinstance(v, K):
    return poly(v)
  if isinstance(v, T) and v.op == 'sum' and isinstance(v.args[0], Tup):
    r = poly(K(0))
    for x in v.args[0].items:
      p = total(A, x, per_item)
      if p is None:
        return None
      r = r + p
    return r
  if per_item and isinstance(v, T) and v.op == 'binop' and v.args[
      0] == 'Mult' and ITEM in v.args[1:]:
    x = v.args[2] if v.args[1] == ITEM else v.args[1]
    return poly(x)
  if per_item:
    return None if poly(v) is None else const(-1)  # items, not bytes
  return poly(v)
