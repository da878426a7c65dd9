"""Initial values of parameters and state."""
from ..harness import *
from ..arrays import poly
from ..tensor import Tensor
from .formulas import SPECS, Env, E, call, size_term
from .numeric import (PROGRAMS, TRAIN, accepts, arrays, cell, core, lay,
                      leaves, mods, run_program)
from .params import last_loc, norm_copy
from .structures import content

DT = T('dtype', '$D')


def draw(fn, shape, *ps):
  return call('jax.random', fn, S('rng'), *ps[:2 if fn[0] == 't' else 0],
              Tup([size_term(d) for d in shape]), DT,
              *(ps if fn[0] == 'u' else ()))


def constant(shape, c):
  return call('jax.numpy', 'full', Tup([size_term(d) for d in shape]), c, DT)


def prod(ds):
  r = poly(K(1))
  for d in ds:
    r = r * d
  return E(size_term(r))


def root(x):
  return call('jax.numpy', 'sqrt', x)


def tn(shape, std=1., mean=0.):
  return draw('truncated_normal', shape, -2., 2.) * std + mean


def fans(shape):
  """Input and output units of a weight."""
  if len(shape) < 2:
    n = shape[0] if shape else poly(K(1))
    return E(size_term(n)), E(size_term(n))
  k = prod(shape[:-2])
  return k * E(size_term(shape[-2])), k * E(size_term(shape[-1]))


def scaling(shape, scale=1., mode='fan_in', dist='truncated_normal'):
  i, o = fans(shape)
  n = dict(fan_in=i, fan_out=o, fan_avg=(i + o) / 2.)[mode]
  s = E(K(scale)) / n
  if dist == 'uniform':
    l = root(s * 3.)
    return draw('uniform', shape) * l * 2. - l
  if dist == 'normal':
    return draw('normal', shape) * root(s)
  return tn(shape, root(s) / .87962566103423978)


def expected(label, mod, name, shape):
  """The documented initial value, None where nothing is documented."""
  last = mod.split('/')[-1]
  net = label.startswith(('ResNet', 'MobileNet'))
  if net and name == 'w' and last in ('logits', 'head') and label[0] == 'R':
    return constant(shape, 0.)
  if label in ('ResNet', 'ResNet50', 'ResNet, statistics of the batch') and \
      last == 'batchnorm_2':
    return constant(shape, 0.)  # each residual block starts as the identity
  if name == 'counter':
    return constant(shape, -3 if label.endswith('warm-up') else 0)
  if name in ('b', 'offset', 'hidden') or name == 'average' and \
      label.startswith('VectorQ'):
    return constant(shape, 0.)
  if name == 'scale':
    return constant(shape, 1.)
  if name == 'u0':
    return draw('normal', shape)
  if name == 'embeddings':
    if label == 'Embed with a matrix':
      return E(S('em'))
    return scaling(shape, dist='uniform') if label.startswith(
        'Vector') else tn(shape)
  if 'attention' in mod and name == 'w' or name in ('w_i', 'w_h'):
    return scaling(shape)
  if name == 'w' and 'Transpose' in label:
    return tn(shape, E(K(1.)) / root(prod(shape[:-2]) * E(size_term(
        shape[-1]))))
  if name == 'w':
    return tn(shape, E(K(1.)) / root(prod(shape[:-1])))
  return None


def rule_initial(R):
  """Every parameter and state entry of a layer."""
  for label, prog, want, opts in PROGRAMS:
    def scen(I, label=label, prog=prog, opts=opts):
      r = run_program(R, I, label, prog, opts)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      if not pn + sn:
        R.need(True, 'stateless', label, '', last_loc(I))
      later = {}
      if label in SPECS and not opts.get('slow'):
        # statistics are stored by the first call already
        later = SPECS[label](Env(*[[(m, n, norm_copy(v), i, v)
                                    for m, n, _, i, v in x]
                                   for x in (pn, sn)], A), True)[1] or {}
      for m, n, s, i, v in pn + sn:
        if i is None or i.shape is None:
          R.need(None, 'initial', f'{label} {m}/{n}', 'shape not known',
                 last_loc(I))
          continue
        w = expected(label, m, n, i.shape)
        if w is None:
          w = later.get(f'{m}/{n}')
        if w is None:
          continue
        value(R, I, A, f'{label} {m}/{n}', v, w.t)
    R.explore(label, scen)


def value(R, I, A, what, got, want, rule='initial'):
  X = Tensor(A)
  X.anykey = True
  ok = X.same(norm_copy(got), want)
  msg = ''
  if ok is False:
    a, b = X.last
    msg = f'starts as {X.show(a)} instead of {X.show(b)}'
  elif ok is None:
    msg = f'not decided: {norm_copy(got)!r}'[:300]
  R.need(ok, rule, what, msg, last_loc(I))


def ini(name, *args, **kw):
  return lambda I: hk(I, 'initializers.' + name, *args, **kw)


SHAPES = {
    'matrix': ('C', 8), 'bias': ('C',), 'kernel': (3, 5, 'C', 8),
    'number': (), 'stack': ('H', 'W', 'C'), 'empty': (0, 4),
    'three': (3, 4, 6), 'wide': (2, 5), 'tall': (5, 2), 'square': (4, 4),
}


def identity(shape, gain):
  eye = call('jax.numpy', 'eye', *[size_term(d) for d in shape[-2:]])
  return call('jax.numpy', 'broadcast_to', eye, Tup(
      [size_term(d) for d in shape])) * gain


def orthogonal(shape, scale, axis):
  """Orthonormal along the axis, the smaller side deciding."""
  n = shape[axis].const()
  rest = [d.const() for i, d in enumerate(shape) if i != axis % len(shape)]
  m = 1
  for d in rest:
    m *= d
  qr = T('call', Ext('jax.numpy.linalg.qr'), (draw('normal', [
      poly(K(max(n, m))), poly(K(min(n, m)))]).t,), ())
  q, r = (E(T('getitem', qr, K(i))) for i in (0, 1))
  q = q * call('jax.numpy', 'sign', call('jax.numpy', 'diag', r))
  if n < m:
    q = call('jax.numpy', 'transpose', q)
  q = call('jax.numpy', 'reshape', q, Tup([K(d) for d in [n] + rest]))
  return call('jax.numpy', 'moveaxis', q, 0, axis) * scale


def only_for(*ks):
  return lambda s: s in ks


INITIALIZERS = [
    ('Constant', ini('Constant', K(2.5)), lambda s: constant(s, 2.5), None),
    ('Constant from an array', ini('Constant', S('c1')),
     lambda s: call('jax.numpy', 'broadcast_to', S('c1'), Tup(
         [size_term(d) for d in s])), only_for('bias', 'stack')),
    ('RandomNormal', ini('RandomNormal'), lambda s: draw('normal', s), None),
    ('RandomNormal(3, -1)', ini('RandomNormal', K(3.), K(-1.)),
     lambda s: draw('normal', s) * 3. - 1., None),
    ('RandomNormal by name', ini('RandomNormal', mean=K(2.), stddev=K(.5)),
     lambda s: draw('normal', s) * .5 + 2., None),
    ('TruncatedNormal', ini('TruncatedNormal'), tn, None),
    ('TruncatedNormal(3, -1)', ini('TruncatedNormal', K(3.), K(-1.)),
     lambda s: tn(s, 3., -1.), None),
    ('RandomUniform', ini('RandomUniform'), lambda s: draw('uniform', s),
     None),
    ('RandomUniform(-2, 5)', ini('RandomUniform', K(-2.), K(5.)),
     lambda s: draw('uniform', s) * 7. - 2., None),
    ('UniformScaling', ini('UniformScaling', K(2.)),
     lambda s: (lambda l: draw('uniform', s) * l * 2. - l)(
         root(3. / prod(s[:-1])) * 2.), lambda s: s not in (
             'number', 'empty')),
    ('UniformScaling by default', ini('UniformScaling'),
     lambda s: (lambda l: draw('uniform', s) * l * 2. - l)(
         root(3. / prod(s[:-1]))), only_for('kernel')),
    ('Orthogonal', ini('Orthogonal'), lambda s: orthogonal(s, 1., -1),
     only_for('three')),
    ('VarianceScaling(0)', ini('VarianceScaling', K(0.)),
     lambda s: constant(s, 0.), only_for('matrix', 'kernel')),
    ('VarianceScaling', ini('VarianceScaling'), scaling,
     lambda s: s != 'empty'),
    ('Identity', ini('Identity'), lambda s: identity(s, 1.),
     only_for('matrix', 'stack', 'kernel')),
    ('Identity(3)', ini('Identity', K(3.)), lambda s: identity(s, 3.),
     only_for('matrix', 'stack', 'kernel')),
] + [
    (f'Orthogonal({k}, {a})', ini('Orthogonal', K(k), K(a)),
     lambda s, k=k, a=a: orthogonal(s, k, a), only_for(
         'three', 'wide', 'tall', 'square'))
    for k in (1., 3.) for a in (-1, 0)] + [
    (f'VarianceScaling({k}, {m}, {d})', ini('VarianceScaling', K(k), K(m),
                                            K(d)),
     lambda s, k=k, m=m, d=d: scaling(s, k, m, d),
     lambda s: s != 'empty')
    for k in (1., 2.) for m in ('fan_in', 'fan_out', 'fan_avg')
    for d in ('truncated_normal', 'normal', 'uniform')]


def rule_initializers(R):
  """Each initializer at each kind of shape."""
  for label, make, want, ok in INITIALIZERS:
    for kind, sh in SHAPES.items():
      if ok and not ok(kind):
        continue

      def scen(I, label=label, make=make, want=want, kind=kind, sh=sh):
        shape = Tup([S(d) if isinstance(d, str) else K(d) for d in sh])
        r = run_program(R, I, f'{label} {kind}', lambda I: call_hk(
            I, 'get_parameter', K('w'), shape, init=make(I)), {}, True)
        if r is None:
          return
        A, t, P, st, pn, sn = r
        (_, _, _, i, v), = pn
        value(R, I, A, f'{label} {kind}', v, want(parse_shape(sh)).t)
      R.explore(f'{label} {kind}', scen)


def parse_shape(sh):
  return tuple(poly(S(d) if isinstance(d, str) else K(d)) for d in sh)


def call_hk(I, name, *args, **kw):
  return I.call(pub(I, name), list(args), kw)


def con(c):
  return lambda I: hk(I, 'initializers.Constant', K(c))


WB = dict(w_init=con(2.), b_init=con(3.))
SO = dict(scale_init=con(2.), offset_init=con(3.))
GIVEN = [
    ('Linear', lay('Linear', K(8), **WB)),
    ('Bias', lay('Bias', on='x4', b_init=con(3.))),
    ('Conv1D', lay('Conv1D', K(8), K(3), on='x3', **WB)),
    ('Conv2D', lay('Conv2D', K(8), K(3), on='x4', **WB)),
    ('Conv3D', lay('Conv3D', K(8), K(3), on='x5', **WB)),
    ('ConvND', lay('ConvND', K(2), K(8), K(3), on='x4', **WB)),
    ('Conv1DTranspose', lay('Conv1DTranspose', K(8), K(3), on='x3', **WB)),
    ('Conv2DTranspose', lay('Conv2DTranspose', K(8), K(3), on='x4', **WB)),
    ('Conv3DTranspose', lay('Conv3DTranspose', K(8), K(3), on='x5', **WB)),
    ('ConvNDTranspose', lay('ConvNDTranspose', K(2), K(8), K(3), on='x4',
                            **WB)),
    ('DepthwiseConv2D', lay('DepthwiseConv2D', K(2), K(3), on='x4', **WB)),
    ('SeparableDepthwiseConv2D', lay('SeparableDepthwiseConv2D', K(2), K(3),
                                     on='x4', **WB)),
    ('LayerNorm', lay('LayerNorm', K(-1), TRUE, TRUE, on='x4', **SO)),
    ('InstanceNorm', lay('InstanceNorm', TRUE, TRUE, on='x4', **SO)),
    ('GroupNorm', lay('GroupNorm', K(4), on='z4', **SO)),
    ('BatchNorm', lay('BatchNorm', TRUE, TRUE, K(.9), on=('x4',), kwc=dict(
        is_training=TRUE), **SO)),
    ('Embed', lay('Embed', K(10), K(4), on='ids', w_init=con(2.))),
    ('GRU', cell('GRU', K(8), w_i_init=con(2.), w_h_init=con(4.),
                 b_init=con(3.))),
    ('MultiHeadAttention', lay('MultiHeadAttention', K(2), K(4), K(3.),
                               on=('q', 'k', 'v'))),
    ('MLP', lay('nets.MLP', Tup([K(8), K(4)]), **WB)),
]


def reversed_mlp(I):
  m = hk(I, 'nets.MLP', Tup([K(8), K(4)]), **{k: v(I) for k, v in WB.items()})
  y = I.call(m, [S('x2')])
  return I.call(I.call(I.getattr(m, 'reverse'), []), [y])


VALUES = dict(w=2., b=3., scale=2., offset=3., embeddings=2., w_i=2., w_h=4.)


def rule_given(R):
  """Initializers given to a layer make the parameters they are given for."""
  for label, prog in GIVEN + [('MLP reversed', reversed_mlp)]:
    def scen(I, label=label, prog=prog):
      r = run_program(R, I, label, prog, {}, True)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      for m, n, s, i, v in pn:
        if i is None or i.shape is None or n not in VALUES:
          R.need(None, 'given', f'{label} {m}/{n}', 'shape not known',
                 last_loc(I))
          continue
        w = constant(i.shape, VALUES[n])
        if label == 'MultiHeadAttention' and n == 'w':
          w = scaling(i.shape, 3.)
        elif label == 'MultiHeadAttention':
          w = constant(i.shape, 0.)
        value(R, I, A, f'{label} {m}/{n}', v, w.t, 'given')
    R.explore(label, scen)


CORES = [
    ('VanillaRNN', core('VanillaRNN', K(8))), ('LSTM', core('LSTM', K(8))),
    ('GRU', core('GRU', K(8))),
    ('Conv1DLSTM', core('Conv1DLSTM', Tup([S('W')]), K(4), K(3))),
    ('Conv2DLSTM', core('Conv2DLSTM', Tup([S('H'), S('W')]), K(4), K(3))),
    ('Conv3DLSTM', core('Conv3DLSTM', Tup([S('D'), S('H'), S('W')]), K(4),
                        K(3))),
    ('DeepRNN', lambda I: hk(I, 'DeepRNN', mods(
        core('VanillaRNN', K(8)), lambda I: HostFn(lambda I, a, k: a[0]),
        core('LSTM', K(4)))(I))),
    ('ResetCore', lambda I: hk(I, 'ResetCore', core('LSTM', K(8))(I))),
    ('IdentityCore', core('IdentityCore')),
]
STATES = {
    'VanillaRNN': {'': (8,)}, 'GRU': {'': (8,)},
    'LSTM': {'.hidden': (8,), '.cell': (8,)},
    'ResetCore': {'.hidden': (8,), '.cell': (8,)},
    'Conv1DLSTM': {'.hidden': ('W', 4), '.cell': ('W', 4)},
    'Conv2DLSTM': {'.hidden': ('H', 'W', 4), '.cell': ('H', 'W', 4)},
    'Conv3DLSTM': {'.hidden': ('D', 'H', 'W', 4),
                   '.cell': ('D', 'H', 'W', 4)},
    'DeepRNN': {'[0]': (8,), '[1].hidden': (4,), '[1].cell': (4,)},
    'IdentityCore': {},
}


def rule_states(R):
  """The states a recurrent core starts from."""
  for label, make in CORES:
    for batch in ('N', 2, None):
      def scen(I, label=label, make=make, batch=batch):
        A = arrays(I)
        TRAIN[0] = True
        b = NONE if batch is None else S('N') if batch == 'N' else K(batch)

        def prog(I, a, k):
          c = I.getattr(make(I), 'initial_state')
          return I.call(c, [b])
        t = transformed(I, prog)
        o = attempt(I, I.getattr(t, 'apply'), [I.mkdict({}), I.mkdict({}),
                                               NONE])
        what = f'{label} batch_size={batch}'
        if not o.ok:
          accepts(R, I, what, 'initial_state', o)
          return
        got = dict(leaves(I, o.v.items[0]))
        R.need(set(got) == set(STATES[label]), 'state-parts', what,
               f'has the parts {sorted(got)}', last_loc(I))
        for k, sh in STATES[label].items():
          sh = parse_shape((() if batch is None else (batch,)) + sh)
          i = A.of(got[k]) if k in got else None
          if i is None or i.shape is None:
            R.need(None, 'state', f'{what} {k}', 'not known', last_loc(I))
            continue
          R.need(i.shape == sh, 'state-shape', f'{what} {k}',
                 f'has shape {list(i.shape)}', last_loc(I))
          if i.shape == sh:
            value(R, I, A, f'{what} {k}', got[k], constant(sh, 0.).t, 'state')
      R.explore(f'{label} {batch}', scen)
