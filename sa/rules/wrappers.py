"""C15/C16: jax transformations used inside a transform.

C15: the wrapped function receives the client's arguments, the jax function of
the same name receives the client's options, and the client gets its result.
C16: what a control-flow construct carries has one fixed structure, whatever
the body draws, reads or writes; init and apply run the body as documented.
"""
import itertools

from ..harness import *
from .params import calls_of, getp, last_loc, lookup2, norm_copy, mentions


def in_transform(I, phase, f, **kw):
  t = transformed(I, lambda I, a, k: f(I))
  P = kw.get('params')
  if P is None:
    P = I.mkdict({'~': I.mkdict({'w': S('w')})})
  ST = kw.get('state')
  if ST is None:
    ST = I.mkdict({'~': I.mkdict({'s': S('s0')})})
  rng = kw.get('rng', S('rng'))
  if phase == 'init':
    return attempt(I, I.getattr(t, 'init'), [rng])
  return attempt(I, I.getattr(t, 'apply'), [P, ST, rng])


def std(I, *more):
  setup(I, arrays=('w', 'x', 'y', 'z', 'xs', 's0', 'v', 'pred', 'ix', 'shape',
                   'dtype', 'n', 'hi', 'lo') + more,
        shapes_ok=('shape',), keys=('rng', 'key2'))


def hofs(I, name):
  return [e for e in I.trace if e.kind == 'hofcall' and e.name == name
          and not e.d.get('scratch')]


def opt(e, i, name, default=None):
  """Option of a jax decorator call."""
  args, kw = e.opts
  if name in kw:
    return kw[name]
  if i is not None and i < len(args):
    return args[i]
  return default


# ------------------------------------------------------------------- C15
def rule_c15(R):
  decorators(R)
  gradients(R)
  vmaps(R)
  conds(R)
  loops(R)
  threading(R)


def decorators(R):
  for api, jx in (('jit', 'jax.jit'), ('remat', 'jax.remat')):
    for phase in ('init', 'apply'):
      for opts in ({}, {'static_argnums': K(1)},
                   {'donate_argnums': K(0), 'backend': S('be')}):
        if api == 'remat' and opts:
          opts = {'concrete': TRUE}
        def scen(I, api=api, jx=jx, phase=phase, opts=opts):
          std(I)
          got = {}
          f = HostFn(lambda I, a, k: (got.update(a=a, k=k), S('z'))[1], 'f')

          def prog(I):
            g = I.call(pub(I, api), [f], dict(opts))
            got['r'] = I.call(g, [S('x'), S('y')], {'kk': S('v')})
            return S('x')
          out = in_transform(I, phase, prog)
          c = f'hk.{api} with {sorted(opts)} during {phase}'
          forwarded(R, I, out, got, c, [S('x'), S('y')], {'kk': S('v')})
          es = hofs(I, jx)
          R.need(len(es) == 1, 'jax-function-used', c,
                 f'{jx} is used {len(es)} times', last_loc(I))
          for e in es:
            args, kw = e.opts
            R.need({k: v for k, v in kw.items()} == opts and not args,
                   'options-forwarded', c, f'{jx} receives options {args} '
                   f'{kw} instead of {opts}', e.loc)
        R.explore(f'{api}/{phase}/{sorted(opts)}', scen)


def forwarded(R, I, out, got, c, args, kw, result=None):
  if not out.ok:
    R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
    return
  if 'a' not in got:
    R.need(False, 'function-called', c, 'the function is never called',
           last_loc(I))
    return
  R.need([norm_copy(a) for a in got['a']] == args and
         {k: norm_copy(v) for k, v in got['k'].items()} == kw,
         'arguments-forwarded', c,
         f'the function receives {show(got["a"])} {show(got["k"])}',
         last_loc(I))
  want = S('z') if result is None else result
  R.need(norm_copy(got['r']) == want, 'result-returned', c,
         f'the call returns {show(got["r"])} instead of {show(want)}',
         last_loc(I))


def gradients(R):
  for api in ('grad', 'value_and_grad'):
    for aux in (False, True):
      for argnums in (None, K(1), Tup([K(0), K(1)])):
        for phase in ('init', 'apply'):
          def scen(I, api=api, aux=aux, argnums=argnums, phase=phase):
            std(I)
            got = {}
            ret = Tup([S('z'), S('v')]) if aux else S('z')
            f = HostFn(lambda I, a, k: (got.update(a=a, k=k), ret)[1], 'f')

            def prog(I):
              kw = {}
              if argnums is not None:
                kw['argnums'] = argnums
              if aux:
                kw['has_aux'] = TRUE
              g = I.call(pub(I, api), [f], kw)
              got['r'] = I.call(g, [S('x'), S('y')], {'kk': S('w')})
              return S('x')
            out = in_transform(I, phase, prog)
            c = f'hk.{api}(argnums={argnums}, has_aux={aux}) during {phase}'
            es = hofs(I, 'jax.value_and_grad') + hofs(I, 'jax.grad')
            R.need(len(es) == 1 or not out.ok, 'jax-function-used', c,
                   f'jax.value_and_grad is used {len(es)} times', last_loc(I))
            if not out.ok:
              R.need(None, 'run-completes', c, f'ended with {out!r}',
                     last_loc(I))
              return
            for e in es:
              R.need(opt(e, 0, 'argnums', K(0)) == (argnums or K(0)),
                     'options-forwarded', c,
                     f'differentiates argument {opt(e, 0, "argnums")}', e.loc)
            r = norm_copy(got['r'])
            def isg(v):
              return isinstance(v, T) and v.op == 'grads'
            if api == 'grad' and not aux:
              ok = isg(r)
            elif api == 'grad':
              ok = isinstance(r, Tup) and len(r.items) == 2 and isg(
                  r.items[0]) and r.items[1] == S('v')
            elif not aux:
              ok = isinstance(r, Tup) and len(r.items) == 2 and r.items[
                  0] == S('z') and isg(r.items[1])
            else:
              ok = isinstance(r, Tup) and len(r.items) == 2 and r.items[
                  0] == Tup([S('z'), S('v')]) and isg(r.items[1])
            R.need(ok, 'result-returned', c, f'returns {show(r)}', last_loc(I))
            got['r'] = S('z')
            forwarded(R, I, out, got, c, [S('x'), S('y')], {'kk': S('w')})
          R.explore(f'{api}/{aux}/{argnums}/{phase}', scen)
  for api in ('grad', 'value_and_grad'):
    def scen(I, api=api):
      std(I)
      f = HostFn(lambda I, a, k: S('z'), 'f')

      def prog(I):
        g = I.call(pub(I, api), [f], {'holomorphic': TRUE})
        I.call(g, [S('x')])
        return S('x')
      out = in_transform(I, 'apply', prog)
      for e in hofs(I, 'jax.value_and_grad') + hofs(I, 'jax.grad'):
        R.need(opt(e, 2, 'holomorphic') == TRUE, 'options-forwarded',
               f'hk.{api}(holomorphic=True)', 'holomorphic is not forwarded',
               e.loc)
    R.explore(f'{api}/holomorphic', scen)


def vmaps(R):
  cases = [({}, K(0), K(0), NONE),
           ({'in_axes': K(1), 'out_axes': K(2)}, K(1), K(2), NONE),
           ({'in_axes': Tup([K(0), NONE]), 'axis_name': K('i')},
            Tup([K(0), NONE]), K(0), K('i'))]
  for phase in ('init', 'apply'):
    for kw, ia, oa, an in cases:
      def scen(I, kw=kw, ia=ia, oa=oa, an=an, phase=phase):
        std(I)
        got = {}
        f = HostFn(lambda I, a, k: (got.update(a=a, k=k), S('z'))[1], 'f')

        def prog(I):
          got['r'] = I.call(I.call(pub(I, 'vmap'), [f], dict(kw)),
                            [S('x'), S('y')])
          return S('x')
        out = in_transform(I, phase, prog)
        c = f'hk.vmap({sorted(kw)}) during {phase}'
        forwarded(R, I, out, got, c, [S('x'), S('y')], {})
        es = hofs(I, 'jax.vmap')
        R.need(len(es) == 1, 'jax-function-used', c,
               f'jax.vmap is used {len(es)} times', last_loc(I))
        for e in es:
          i, o, n = (opt(e, 0, 'in_axes', K(0)), opt(e, 1, 'out_axes', K(0)),
                     opt(e, None, 'axis_name', NONE))
          R.need(mapped_ok(i, ia) and mapped_ok(o, oa), 'options-forwarded', c,
                 f'jax.vmap maps in_axes={i} out_axes={o}; the client asked '
                 f'for {ia}, {oa} and nothing else is mapped', e.loc)
          R.need(n == an, 'options-forwarded', c,
                 f'axis_name is {n} instead of {an}', e.loc)
      R.explore(f'vmap/{sorted(kw)}/{phase}', scen)


def mapped_ok(axes, want):
  """The client's axes for its own values, None for everything else."""
  if not isinstance(axes, Tup):
    return False
  rest = [x for x in axes.items if x != want]
  return want in axes.items and all(x == NONE for x in rest) and (
      want == NONE or len(rest) == len(axes.items) - 1 or want in axes.items)


def conds(R):
  def branch(tag, log):
    return HostFn(lambda I, a, k: (log.append((tag, list(a))),
                                   T('sym2', tag, S('z')))[1], tag)
  styles = {
      'new style': lambda I, t, f: hk(I, 'cond', S('pred'), t, f, S('x')),
      'keywords': lambda I, t, f: I.call(pub(I, 'cond'), [S('pred')], {
          'true_fun': t, 'false_fun': f, 'operand': S('x')}),
      'old style': lambda I, t, f: hk(I, 'cond', S('pred'), S('x'), t, S('y'),
                                      f),
      'same branch': lambda I, t, f: hk(I, 'cond', S('pred'), t, t, S('x')),
  }
  for phase in ('init', 'apply'):
    for sname, st in styles.items():
      def scen(I, st=st, sname=sname, phase=phase):
        std(I)
        log, got = [], {}
        t, f = branch('true', log), branch('false', log)

        def prog(I):
          got['r'] = st(I, t, f)
          return S('x')
        out = in_transform(I, phase, prog)
        c = f'hk.cond {sname} during {phase}'
        if not out.ok:
          R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
          return
        es = [e for e in I.trace if e.kind == 'hofenter' and
              e.name == 'jax.lax.cond']
        R.need(len(es) == 1, 'jax-function-used', c,
               f'jax.lax.cond is used {len(es)} times', last_loc(I))
        if len(es) != 1:
          return
        b = es[0].branch
        tag = 'true' if b == 0 or sname == 'same branch' else 'false'
        arg = S('y') if sname == 'old style' and b == 1 else S('x')
        R.need([(t_, [norm_copy(x) for x in a]) for t_, a in log] == [
            (tag, [arg])], 'branch-runs', f'{c}, branch {b}',
               f'for a predicate that selects the {tag} branch the client '
               f'functions run as {show(log)}', last_loc(I))
        R.need(norm_copy(got['r']) == T('sym2', tag, S('z')),
               'result-returned', c, f'returns {show(got["r"])}', last_loc(I))
        h = hofs(I, 'jax.lax.cond')[0]
        p = h.kwargs.get('pred', h.args[0] if h.args else None)
        R.need(p == S('pred'), 'options-forwarded', c,
               f'the predicate is {show(p)}', h.loc)
      R.explore(f'cond/{sname}/{phase}', scen)
    for n in (1, 2, 3):
      for same in (False, True):
        def scen2(I, n=n, phase=phase, same=same):
          std(I)
          log, got = [], {}
          bs = [branch(f'b{i}', log) for i in range(n)]
          if same:
            bs = [bs[0]] * n

          def prog(I):
            got['r'] = hk(I, 'switch', S('ix'), I.mklist(bs), S('x'))
            return S('x')
          out = in_transform(I, phase, prog)
          c = f'hk.switch of {n}{" equal" if same else ""} during {phase}'
          if not out.ok:
            R.need(None, 'run-completes', c, f'ended with {out!r}',
                   last_loc(I))
            return
          es = [e for e in I.trace if e.kind == 'hofenter' and
                e.name == 'jax.lax.switch']
          R.need(len(es) == 1, 'jax-function-used', c,
                 f'jax.lax.switch is used {len(es)} times', last_loc(I))
          if len(es) != 1:
            return
          tag = f'b{0 if same else es[0].branch}'
          R.need([(t_, [norm_copy(x) for x in a]) for t_, a in log] == [
              (tag, [S('x')])], 'branch-runs', f'{c}, branch {es[0].branch}',
                 f'client functions run as {show(log)}', last_loc(I))
          R.need(norm_copy(got['r']) == T('sym2', tag, S('z')),
                 'result-returned', c, f'returns {show(got["r"])}',
                 last_loc(I))
          h = hofs(I, 'jax.lax.switch')[0]
          p = h.kwargs.get('index', h.args[0] if h.args else None)
          R.need(p == S('ix'), 'options-forwarded', c,
                 f'the index is {show(p)}', h.loc)
        R.explore(f'switch/{n}/{same}/{phase}', scen2)


def is_carry(v, of):
  """v is the loop-carried version of `of`."""
  return norm_copy(v) == of


def loops(R):
  """Loops forward bounds, carries and options; results are the final carry."""
  for reverse in (None, FALSE, TRUE):
    for unroll in (None, K(4)):
      def scen(I, reverse=reverse, unroll=unroll):
        std(I)
        got = {'n': 0}

        def f(I, a, k):
          got['n'] += 1
          got['a'] = a
          return Tup([T('sym2', 'c', a[0]), S('y')])

        def prog(I):
          kw = {}
          if reverse is not None:
            kw['reverse'] = reverse
          if unroll is not None:
            kw['unroll'] = unroll
          got['r'] = I.call(pub(I, 'scan'), [HostFn(f, 'f'), S('x'), S('xs'),
                                             S('n')], kw)
          return S('x')
        out = in_transform(I, 'apply', prog)
        c = f'hk.scan(reverse={reverse}, unroll={unroll}) during apply'
        es = hofs(I, 'jax.lax.scan')
        if not out.ok:
          R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
          return
        R.need(len(es) == 1 and got['n'] == 1, 'jax-function-used', c,
               f'jax.lax.scan is used {len(es)} times', last_loc(I))
        if not es:
          return
        e = es[0]
        def arg(i, nm, d=None):
          return e.kwargs.get(nm, e.args[i] if i < len(e.args) else d)
        R.need(norm_copy(arg(2, 'xs')) == S('xs') and
               arg(3, 'length', NONE) in (S('n'), NONE),
               'options-forwarded', c,
               f'scans over {show(arg(2, "xs"))} length '
               f'{show(arg(3, "length"))}', e.loc)
        R.need(arg(4, 'reverse', FALSE) == (reverse or FALSE),
               'options-forwarded', c,
               f'reverse is {arg(4, "reverse")}', e.loc)
        R.need(arg(5, 'unroll', K(1)) == (unroll or K(1)),
               'options-forwarded', c, f'unroll is {arg(5, "unroll")}', e.loc)
        a = got['a']
        R.need(len(a) == 2 and is_carry(a[0], S('x')) and isinstance(
            a[1], T) and a[1].op == 'slice_of' and norm_copy(
                a[1].args[0]) == S('xs'), 'arguments-forwarded', c,
               f'the body receives {show(a)}', last_loc(I))
        r = got['r']
        ok = isinstance(r, Tup) and len(r.items) == 2 and norm_copy(
            r.items[0]) == T('sym2', 'c', S('x')) and isinstance(
                r.items[1], T) and r.items[1].op == 'stacked' and norm_copy(
                    r.items[1].args[0]) == S('y')
        R.need(ok, 'result-returned', c, f'returns {show(r)}', last_loc(I))
      R.explore(f'scan/{reverse}/{unroll}', scen)

  def scen2(I):
    std(I)
    got = {'n': 0}

    def f(I, a, k):
      got['n'] += 1
      got['a'] = a
      return T('sym2', 'c', a[1])

    def prog(I):
      got['r'] = hk(I, 'fori_loop', S('lo'), S('hi'), HostFn(f, 'f'), S('x'))
      return S('x')
    out = in_transform(I, 'apply', prog)
    c = 'hk.fori_loop during apply'
    es = hofs(I, 'jax.lax.fori_loop')
    if not out.ok:
      R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
      return
    R.need(len(es) == 1 and got['n'] == 1, 'jax-function-used', c,
           f'jax.lax.fori_loop is used {len(es)} times', last_loc(I))
    if not es:
      return
    e = es[0]
    lo = e.kwargs.get('lower', e.args[0] if e.args else None)
    hi = e.kwargs.get('upper', e.args[1] if len(e.args) > 1 else None)
    R.need((lo, hi) == (S('lo'), S('hi')), 'options-forwarded', c,
           f'the loop runs from {show(lo)} to {show(hi)}', e.loc)
    a = got['a']
    R.need(isinstance(a[0], T) and a[0].op == 'iter' and is_carry(
        a[1], S('x')), 'arguments-forwarded', c,
           f'the body receives {show(a)}', last_loc(I))
    R.need(norm_copy(got['r']) == T('sym2', 'c', S('x')), 'result-returned', c,
           f'returns {show(got["r"])}', last_loc(I))
  R.explore('fori/apply', scen2)

  def scen3(I):
    std(I)
    got = {'n': 0}

    def f(I, a, k):
      got['n'] += 1
      got['a'] = a
      return T('sym2', 'c', a[0])

    def cf(I, a, k):
      got['c'] = a
      return S('pred')

    def prog(I):
      got['r'] = hk(I, 'while_loop', HostFn(cf, 'cond'), HostFn(f, 'f'),
                    S('x'))
      return S('x')
    out = in_transform(I, 'apply', prog)
    c = 'hk.while_loop during apply'
    if not out.ok:
      R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
      return
    es = hofs(I, 'jax.lax.while_loop')
    R.need(len(es) == 1 and got['n'] == 1, 'jax-function-used', c,
           f'jax.lax.while_loop is used {len(es)} times', last_loc(I))
    R.need(is_carry(got['a'][0], S('x')) and is_carry(got['c'][0], S('x')),
           'arguments-forwarded', c, f'body gets {show(got["a"])}, condition '
           f'{show(got["c"])}', last_loc(I))
    ps = [e for e in I.trace if e.kind == 'while_pred']
    R.need(all(e.pred == S('pred') for e in ps) and ps, 'result-returned',
           c + ' (condition)', 'the loop does not test what the condition '
           'returns', last_loc(I))
    R.need(norm_copy(got['r']) == T('sym2', 'c', S('x')), 'result-returned', c,
           f'returns {show(got["r"])}', last_loc(I))
  R.explore('while/apply', scen3)


def carried(v):
  v = strip_copy(v)
  return isinstance(v, T) and v.op == 'carry'


def threading(R):
  """Condition and body of a loop, and nested wrappers, see current state."""
  from .params import WRAPPERS
  wr = [w for w in WRAPPERS if w[0] not in ('directly', 'under hk.eval_shape')]
  for phase in ('init', 'apply'):
    for wname, wrap, b in wr:
      if phase == 'init' and wname == 'under hk.while_loop':
        continue
      def scen(I, wname=wname, wrap=wrap, b=b, phase=phase):
        std(I)
        got = {}

        def use(I, a, k):
          # the outermost bundle is visible through a module of the same scope
          got['p'] = attempt(I, HostFn(lambda I, a, k: getp(I)))
          got['s'] = attempt(I, HostFn(lambda I, a, k: hk(
              I, 'get_state', K('s'), S('shape'), S('dtype'),
              init=S('init2'))))
          hk(I, 'set_state', K('s'), S('v'))
          got['frozen'] = hk(I, 'running_init')
          return S('z')

        def prog(I):
          got['r'] = wrap(I, HostFn(use, 'use'))

          def look(I, a, k):
            got['s2'] = attempt(I, HostFn(lambda I, a, k: hk(
                I, 'get_state', K('s'))))
            got['p2'] = attempt(I, HostFn(lambda I, a, k: getp(
                I, init='bad')))
            return S('x')
          if b == '~':
            I.call(HostFn(look), [])
          return S('x')
        if phase == 'init':
          I.assume(T('lt', K(0), S('n')))
        P = I.mkdict({b: I.mkdict({'w': S('w')})})
        ST = I.mkdict({b: I.mkdict({'s': S('s0')})})
        out = in_transform(I, phase, prog, params=P, state=ST)
        c = f'{wname} during {phase}'
        if not out.ok:
          R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
          return
        R.need(got['frozen'] == K(phase == 'init'), 'phase-visible', c,
               f'running_init() is {got["frozen"]} inside', last_loc(I))
        if phase == 'apply':
          R.need(got['p'].ok and norm_copy(got['p'].v) == S('w'),
                 'params-in', c, f'a parameter reads as {got["p"]!r} inside',
                 last_loc(I))
          R.need(got['s'].ok and norm_copy(got['s'].v) in (S('s0'), S('v')),
                 'state-in', c, f'state reads as {got["s"]!r} inside',
                 last_loc(I))
        if b == '~':
          R.need(got['s2'].ok and norm_copy(got['s2'].v) == S('v'),
                 'state-out', c,
                 f'state set inside reads as {got["s2"]!r} afterwards',
                 last_loc(I), guards_text(I))
          bad = calls_of(I, S('bad'))
          R.need(got['p2'].ok and not bad and (
              norm_copy(got['p2'].v) == norm_copy(got['p'].v)), 'params-out',
                 c, 'a parameter made inside is not the one read afterwards: '
                 f'{got["p2"]!r}', last_loc(I), guards_text(I))
      R.explore(f'threading/{wname}/{phase}', scen)

  # a decorated function sees the state at the time of each call
  for api in ('jit', 'remat', 'vmap', 'grad', 'value_and_grad'):
    for phase in ('init', 'apply'):
      def scen0(I, api=api, phase=phase):
        std(I, 'v1', 'v2', 'v3')
        seen, keys = [], []

        def use(I, a, k):
          n = len(seen)
          seen.append(hk(I, 'get_state', K('s')))
          keys.append(hk(I, 'next_rng_key'))
          hk(I, 'set_state', K('s'), S(f'v{n + 2}'))
          return S('z')

        def prog(I):
          hk(I, 'get_state', K('s'), S('shape'), S('dtype'), init=S('init2'))
          keys.append(hk(I, 'next_rng_key'))
          g = I.call(pub(I, api), [HostFn(use, 'use')])
          keys.append(hk(I, 'next_rng_key'))
          hk(I, 'set_state', K('s'), S('v1'))
          I.call(g, [S('x')])
          keys.append(hk(I, 'next_rng_key'))
          I.call(g, [S('x')])
          keys.append(hk(I, 'next_rng_key'))
          seen.append(hk(I, 'get_state', K('s')))
          return S('x')
        out = in_transform(I, phase, prog)
        c = f'two calls of one hk.{api} function during {phase}'
        if not out.ok:
          R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
          return
        R.need([norm_copy(v) for v in seen] == [S('v1'), S('v2'), S('v3')],
               'state-current', c, 'the calls and the code after them read '
               f'state as {show(seen)}, not as last written', last_loc(I))
        ks = [norm_copy(k) for k in keys]
        R.need(len(set(ks)) == len(ks), 'keys-current', c,
               f'keys drawn around and inside the calls repeat: {show(ks)}',
               last_loc(I))
      R.explore(f'threading/{api} twice/{phase}', scen0)

  # the condition of while_loop sees what the body wrote
  def scen2(I):
    std(I)
    got = {}

    def f(I, a, k):
      hk(I, 'set_state', K('s'), S('v'))
      return S('z')

    def cf(I, a, k):
      got['c'] = hk(I, 'get_state', K('s'))
      return S('pred')

    def prog(I):
      hk(I, 'while_loop', HostFn(cf, 'cond'), HostFn(f, 'f'), S('x'))
      return S('x')
    out = in_transform(I, 'apply', prog)
    c = 'condition of hk.while_loop'
    if not out.ok:
      R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
      return
    v = got['c']
    R.need(carried(v) and norm_copy(v) == S('s0'),
           'loop-state-in', c, 'the condition reads state as '
           f'{show(v)}, not the state of the current iteration', last_loc(I))
  R.explore('threading/while cond', scen2)
  for api in ('scan', 'fori_loop', 'while_loop'):
    def scen3(I, api=api):
      std(I)
      got = {}

      def f(I, a, k):
        got['s'] = hk(I, 'get_state', K('s'))
        hk(I, 'set_state', K('s'), S('v'))
        return Tup([S('z'), S('y')]) if api == 'scan' else S('z')
      g = HostFn(f, 'f')

      def prog(I):
        if api == 'scan':
          hk(I, 'scan', g, S('x'), S('xs'), S('n'))
        elif api == 'fori_loop':
          hk(I, 'fori_loop', S('lo'), S('hi'), g, S('x'))
        else:
          hk(I, 'while_loop', HostFn(lambda I, a, k: S('pred')), g, S('x'))
        got['after'] = hk(I, 'get_state', K('s'))
        return S('x')
      out = in_transform(I, 'apply', prog)
      c = f'body of hk.{api}'
      if not out.ok:
        R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
        return
      v = got['s']
      R.need(carried(v) and norm_copy(v) == S('s0'),
             'loop-state-in', c, f'an iteration reads state as {show(v)}, not '
             'as the previous iteration left it', last_loc(I))
      R.need(norm_copy(got['after']) == S('v'), 'loop-state-out', c,
             f'after the loop state reads as {show(got["after"])}',
             last_loc(I))
    R.explore(f'threading/{api} body', scen3)


# ------------------------------------------------------------------- C16
def rule_c16(R):
  structures(R)
  init_time(R)


INNER = {
    'nothing': lambda I: None,
    'next': lambda I: hk(I, 'next_rng_key'),
    'next x3': lambda I: [hk(I, 'next_rng_key') for _ in range(3)],
    'keys(2)': lambda I: hk(I, 'next_rng_keys', K(2)),
    'reserve(4)': lambda I: hk(I, 'reserve_rng_keys', K(4)),
    'reserve(3), next': lambda I: (hk(I, 'reserve_rng_keys', K(3)),
                                   hk(I, 'next_rng_key')),
    'maybe': lambda I: hk(I, 'maybe_next_rng_key'),
    'write': lambda I: hk(I, 'set_state', K('s'), S('v')),
    'read': lambda I: (getp(I), hk(I, 'get_state', K('s'))),
    'module': lambda I: I.call(I.call(client(I, 'Leaf'), []), [HostFn(
        lambda I, a, k: hk(I, 'next_rng_key'))]),
}

OUTER = {
    'nothing': lambda I: None,
    'next': lambda I: hk(I, 'next_rng_key'),
    'reserve(5)': lambda I: hk(I, 'reserve_rng_keys', K(5)),
    'reserve(2), next': lambda I: (hk(I, 'reserve_rng_keys', K(2)),
                                   hk(I, 'next_rng_key')),
}


def structures(R):
  """Carries keep their structure; branches agree on theirs."""
  for phase in ('init', 'apply'):
    for api in ('cond', 'switch', 'scan', 'fori_loop', 'while_loop'):
      if phase == 'init' and api == 'while_loop':
        continue
      for rng in ((S('rng'), NONE) if phase == 'apply' else (S('rng'),)):
        for oname, outer in OUTER.items():
          if rng == NONE and oname != 'nothing':
            continue
          base = {}
          for iname, inner in INNER.items():
            if rng == NONE and iname not in ('nothing', 'write', 'read',
                                             'maybe'):
              continue
            struct_prog(R, phase, api, rng, oname, outer, iname, inner, base)


def struct_prog(R, phase, api, rng, oname, outer, iname, inner, base):
  def scen(I):
    std(I)

    def f(I, a, k):
      inner(I)
      return Tup([S('z'), S('y')]) if api == 'scan' else S('z')
    g = HostFn(f, 'f')

    def prog(I):
      getp(I)
      hk(I, 'get_state', K('s'), S('shape'), S('dtype'), init=S('init2'))
      outer(I)
      if api == 'cond':
        hk(I, 'cond', S('pred'), g, g, S('x'))
      elif api == 'switch':
        hk(I, 'switch', S('ix'), I.mklist([g, g]), S('x'))
      elif api == 'scan':
        hk(I, 'scan', g, S('x'), S('xs'), S('n'))
      elif api == 'fori_loop':
        hk(I, 'fori_loop', K(0), S('n'), g, S('x'))
      else:
        hk(I, 'while_loop', HostFn(lambda I, a, k: S('pred')), g, S('x'))
      return S('x')
    if phase == 'init':
      I.assume(T('lt', K(1), S('n')))
    out = in_transform(I, phase, prog, rng=rng)
    c = f'hk.{api} during {phase}, {oname} before, {iname} inside' + (
        ', no rng' if rng == NONE else '')
    es = [e for e in I.trace if e.kind == 'hofbody' and
          e.name == f'jax.lax.{api}']
    if not out.ok:
      R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
      return
    for e in es:
      if api in ('cond', 'switch'):
        base.setdefault('s', e.outs)
        R.need(e.outs == base['s'], 'branches-agree', c,
               'a branch that uses this has another result structure than a '
               f'branch that does nothing: {diff(base["s"], e.outs)}', e.loc)
      else:
        cin = e.ins[1] if api == 'fori_loop' else e.ins[0]
        cout = e.outs[1] if api == 'scan' else e.outs
        R.need(cin == cout, 'carry-structure', c,
               'the body changes the structure of what is carried: '
               f'{diff(cin, cout)}', e.loc)
    if not es:
      R.need(True if phase == 'init' and api in ('scan', 'fori_loop') else
             None, 'loop-reached', c, f'jax.lax.{api} is not reached')
  R.explore(f'{api}/{phase}/{oname}/{iname}/{rng}', scen)


def diff(a, b, path=''):
  if a == b:
    return ''
  if isinstance(a, tuple) and isinstance(b, tuple):
    if len(a) != len(b) or a[:1] != b[:1]:
      return f'at {path or "/"}: {len(a) - 1} {a[0]} entries become ' \
          f'{len(b) - 1} {b[0]}'
    for i, (x, y) in enumerate(zip(a, b)):
      d = diff(x, y, f'{path}/{i}')
      if d:
        return d
  return f'at {path}: {str(a)[:60]} becomes {str(b)[:60]}'


def leafwise(v, xs):
  """The constant index or slice that v takes of every leaf of xs."""
  v = norm_copy(v)
  if isinstance(v, T) and v.op == 'tree_map' and v.args[1:] == (xs,):
    v = v.args[0]
  if isinstance(v, T) and v.op == 'getitem' and v.args[0] in (
      xs, T('leaf', xs)):
    k = v.args[1]
    if isinstance(k, K) and isinstance(k.v, slice):
      return K(k.v.start), K(k.v.stop), K(k.v.step)
    if isinstance(k, K):
      return k
    if isinstance(k, T) and k.op == 'slice' and all(
        isinstance(a, K) for a in k.args):
      return k.args
  return None


def init_time(R):
  # while_loop cannot initialise
  def scen(I):
    std(I)
    ran = []

    def prog(I):
      hk(I, 'while_loop', HostFn(lambda I, a, k: (ran.append(1), S('pred'))[1]),
         HostFn(lambda I, a, k: (ran.append(1), S('z'))[1]), S('x'))
      return S('x')
    out = in_transform(I, 'init', prog)
    R.need(out.raises(I, 'ValueError') and not ran, 'while-init-rejected',
           'hk.while_loop during init', f'gives {out!r}', last_loc(I))
  R.explore('while/init', scen)

  # the condition may not have effects
  for what, act in (('sets state', lambda I: hk(I, 'set_state', K('s'),
                                                S('v'))),
                    ('creates state', lambda I: hk(I, 'set_state', K('new'),
                                                   S('v'))),
                    ('draws a key', lambda I: hk(I, 'next_rng_key')),
                    ('draws keys', lambda I: hk(I, 'next_rng_keys', K(2))),
                    ('reserves keys', lambda I: hk(I, 'reserve_rng_keys',
                                                   K(2))),
                    ('draws maybe', lambda I: hk(I, 'maybe_next_rng_key'))):
    def scen2(I, what=what, act=act):
      std(I)

      def prog(I):
        hk(I, 'while_loop', HostFn(lambda I, a, k: (act(I), S('pred'))[1]),
           HostFn(lambda I, a, k: S('z')), S('x'))
        return S('x')
      out = in_transform(I, 'apply', prog)
      R.need(out.raises(I, 'ValueError'), 'condition-effects-rejected',
             f'hk.while_loop whose condition {what}',
             f'gives {out!r} instead of ValueError', last_loc(I),
             guards_text(I))
    R.explore(f'while/cond {what}', scen2)

  def scen2b(I):
    std(I)

    def prog(I):
      hk(I, 'while_loop', HostFn(lambda I, a, k: (
          getp(I), hk(I, 'get_state', K('s')), S('pred'))[2]),
         HostFn(lambda I, a, k: S('z')), S('x'))
      return S('x')
    out = in_transform(I, 'apply', prog)
    R.need(out.ok, 'pure-condition-accepted', 'hk.while_loop whose condition '
           'only reads', f'gives {out!r}', last_loc(I), guards_text(I))
  R.explore('while/cond reads', scen2b)

  # scan: no parameters beyond the first iteration
  def scen3(I):
    std(I)
    n = [0]

    def f(I, a, k):
      n[0] += 1
      getp(I, name=f'w{n[0]}')
      return Tup([S('z'), S('y')])

    def prog(I):
      hk(I, 'scan', HostFn(f, 'f'), S('x'), S('xs'), S('n'))
      return S('x')
    I.assume(T('lt', K(1), S('n')))
    out = in_transform(I, 'init', prog)
    if n[0] > 1:
      R.need(not out.ok, 'no-late-parameters',
             'hk.scan whose later iterations create parameters',
             f'gives {out!r} instead of an error', last_loc(I))
    else:
      R.need(True, 'no-late-parameters', 'hk.scan, one iteration', '')
  R.explore('scan/late params', scen3)

  # at init the body runs once outside of the loop, then the loop does the rest
  for reverse in (FALSE, TRUE):
    def scen4(I, reverse=reverse):
      std(I)
      calls = []

      def f(I, a, k):
        calls.append(list(a))
        getp(I)
        return Tup([T('sym2', 'c', a[0]), T('sym2', 'y', a[1])])
      got = {}

      def prog(I):
        got['r'] = I.call(pub(I, 'scan'), [HostFn(f, 'f'), S('x'), S('xs'),
                                           S('n')], {'reverse': reverse})
        return S('x')
      out = in_transform(I, 'init', prog)
      c = f'hk.scan(reverse={reverse}) during init'
      if not out.ok:
        R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
        return
      es = hofs(I, 'jax.lax.scan')
      made = calls_of(I, S('init'))
      R.need(len(made) == 1, 'created-once', c,
             f'the parameter is created {len(made)} times', last_loc(I))
      if es:
        e = es[0]
        ln = e.kwargs.get('length', e.args[3] if len(e.args) > 3 else NONE)
        R.need(ln in (T('binop', 'Sub', S('n'), K(1)), NONE), 'iteration-count',
               c, f'after one iteration the rest has length {show(ln)}', e.loc)
        rv = e.kwargs.get('reverse', e.args[4] if len(e.args) > 4 else FALSE)
        R.need(rv == reverse, 'options-forwarded', c, f'reverse is {rv}',
               e.loc)
        R.need(len(calls) == 2 and norm_copy(calls[1][0]) == T(
            'sym2', 'c', S('x')), 'carry-continues', c,
               'the remaining iterations do not start from the carry of the '
               f'first one: {show(calls[1:])}', last_loc(I))
      R.need(len(calls) >= 1 and calls[0][0] == S('x'), 'carry-start', c,
             f'the first iteration starts from {show(calls[:1])}',
             last_loc(I))
      part = leafwise(calls[0][1], S('xs'))
      if es or isinstance(part, K):
        R.need(None if part is None else part == K(-1 if reverse == TRUE else
                                                   0),
               'first-iteration', c, 'the first iteration run receives '
               f'{show(calls[0][1])}', last_loc(I))
      if es:
        xs = es[0].kwargs.get('xs', es[0].args[2] if len(es[0].args) > 2
                              else NONE)
        part = leafwise(xs, S('xs'))
        want = ((NONE, K(0)), (K(-1),)) if reverse == TRUE else (
            (K(1),), (NONE,))
        R.need(None if part is None else isinstance(part, tuple) and
               part[0] in want[0] and part[1] in want[1] and part[2] in (
                   NONE, K(1)), 'remaining-iterations', c,
               f'the other iterations run over {show(xs)}', last_loc(I))
      r = got['r']
      want = S('x')
      for _ in calls[:2]:
        want = T('sym2', 'c', want)
      empty = len(calls) == 1 and not es
      ok = isinstance(r, Tup) and len(r.items) == 2 and (
          norm_copy(r.items[0]) == want or
          (empty and norm_copy(r.items[0]) == S('x')))
      R.need(ok, 'result-returned', c, f'the final carry is {show(r)}',
             last_loc(I), guards_text(I))
    R.explore(f'scan/init/{reverse}', scen4)

  def scen5(I):
    std(I)
    calls = []

    def f(I, a, k):
      calls.append(list(a))
      getp(I)
      return T('sym2', 'c', a[1])
    got = {}

    def prog(I):
      got['r'] = hk(I, 'fori_loop', S('lo'), S('hi'), HostFn(f, 'f'), S('x'))
      return S('x')
    out = in_transform(I, 'init', prog)
    c = 'hk.fori_loop during init'
    if not out.ok:
      R.need(None, 'run-completes', c, f'ended with {out!r}', last_loc(I))
      return
    es = hofs(I, 'jax.lax.fori_loop')
    R.need(calls and calls[0] == [S('lo'), S('x')], 'first-iteration', c,
           f'the first iteration receives {show(calls[:1])}', last_loc(I))
    if es:
      e = es[0]
      lo, hi = e.args[0], e.args[1]
      R.need((lo, hi) == (T('binop', 'Add', S('lo'), K(1)), S('hi')),
             'iteration-count', c, 'after the first iteration the loop runs '
             f'from {show(lo)} to {show(hi)}', e.loc)
    want = S('x')
    for _ in calls[:2]:
      want = T('sym2', 'c', want)
    R.need(norm_copy(got['r']) == want, 'result-returned', c,
           f'the final value is {show(got["r"])}', last_loc(I), guards_text(I))
  R.explore('fori/init', scen5)
