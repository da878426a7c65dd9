"""Layers compute the functions their documentation defines."""
from ..harness import *
from ..tensor import Tensor
from . import numeric
from .numeric import (PROGRAMS, TRAIN, arrays, leaves, run_program, symbolic,
                      MODES)
from .params import last_loc, norm_copy
from .structures import content

OPAQUE = ('jax.random.bernoulli', 'jax.random.categorical')


class E:
  """An array expression of the reference."""

  def __init__(self, t):
    self.t = t

  def _b(self, op, o, swap=False):
    o = o.t if isinstance(o, E) else K(o)
    return E(T('binop', op, o, self.t) if swap else T('binop', op, self.t, o))

  def __add__(self, o):
    return self._b('Add', o)

  __radd__ = __add__

  def __sub__(self, o):
    return self._b('Sub', o)

  def __rsub__(self, o):
    return self._b('Sub', o, True)

  def __mul__(self, o):
    return self._b('Mult', o)

  __rmul__ = __mul__

  def __truediv__(self, o):
    return self._b('Div', o)

  def __rtruediv__(self, o):
    return self._b('Div', o, True)

  def __pow__(self, o):
    return self._b('Pow', o)

  def __getitem__(self, k):
    if not isinstance(k, tuple):
      k = (k,)
    return E(T('getitem', self.t, Tup([K(x) for x in k])))


def val(v):
  if isinstance(v, E):
    return v.t
  if isinstance(v, (list, tuple)):
    return Tup([val(x) for x in v])
  return v if isinstance(v, V) else K(v)


def call(mod, fn, *args, **kw):
  return E(T('call', Ext(f'{mod}.{fn}'), tuple(val(a) for a in args),
             tuple(sorted((k, val(v)) for k, v in kw.items()))))


class J:
  """jax.numpy, written down."""

  def __getattr__(self, fn):
    mod = {'sigmoid': 'jax.nn', 'relu': 'jax.nn', 'softmax': 'jax.nn',
           'one_hot': 'jax.nn', 'rsqrt': 'jax.lax',
           'conv_general_dilated': 'jax.lax', 'conv_transpose': 'jax.lax',
           'reduce_window': 'jax.lax',
           'stop_gradient': 'jax.lax', 'pmean': 'jax.lax', 'psum': 'jax.lax',
           'bernoulli': 'jax.random'}.get(fn, 'jax.numpy')
    return lambda *a, **k: call(mod, fn, *a, **k)


j = J()


class Env:
  """Inputs, parameters and state of one run."""

  def __init__(self, pn, sn, A):
    self.p = {f'{m}/{n}': E(s) for m, n, s, *_ in pn}
    self.s = {f'{m}/{n}': E(s) for m, n, s, *_ in sn}
    self.A = A

  def __getattr__(self, n):
    return E(S(n))


def linear(e, x, name, bias=True):
  y = j.dot(x, e.p[name + '/w'])
  return y + e.p[name + '/b'] if bias else y


def normalise(x, axis, eps=1e-5):
  m = j.mean(x, axis=axis, keepdims=True)
  v = j.mean((x - m) ** 2, axis=axis, keepdims=True)
  return (x - m) / j.sqrt(v + eps)


def conv(e, x, name, rank, strides=1, padding='SAME', rate=1, groups=1,
         first=False, bias=True, mask=1.):
  sp = 'DHW'[3 - rank:]
  lhs = 'NC' + sp if first else 'N' + sp + 'C'
  rep = lambda v: v if isinstance(v, tuple) else (v,) * rank
  y = j.conv_general_dilated(
      x, e.p[name + '/w'] * mask, rep(strides), padding, (1,) * rank, rep(rate),
      (lhs, sp + 'IO', lhs), groups)
  return y + e.p[name + '/b'] if bias else y


def conv_t(e, x, name, rank, strides, padding='SAME', first=False, bias=True,
           mask=1.):
  sp = 'DHW'[3 - rank:]
  lhs = 'NC' + sp if first else 'N' + sp + 'C'
  rep = lambda v: v if isinstance(v, tuple) else (v,) * rank
  y = j.conv_transpose(
      x, e.p[name + '/w'] * mask, rep(strides), padding,
      dimension_numbers=(lhs, sp + 'OI', lhs))
  return y + e.p[name + '/b'] if bias else y


def vanilla(e, x, h, name, bias=True):
  return j.relu(linear(e, x, name + '/linear') + linear(
      e, h, name + '/linear_1', bias))


def gates(y, n, size, axis=-1):
  return [E(T('getitem', call('jax.numpy', 'split', y, n, axis=axis).t, K(i)))
          for i in range(n)]


def lstm(y, c):
  i, g, f, o = gates(y, 4, None)
  c = j.sigmoid(f + 1.) * c + j.sigmoid(i) * j.tanh(g)
  return j.sigmoid(o) * j.tanh(c), c


def gru(e, x, h, name, n):
  w, u, b = e.p[name + '/w_i'], e.p[name + '/w_h'], e.p[name + '/b']
  s = slice(None)
  part = lambda i: slice(i * n, (i + 1) * n)
  z = j.sigmoid(j.dot(x, w[s, part(0)]) + j.dot(h, u[s, part(0)]) + b[part(0)])
  r = j.sigmoid(j.dot(x, w[s, part(1)]) + j.dot(h, u[s, part(1)]) + b[part(1)])
  a = j.tanh(j.dot(x, w[s, part(2)]) + j.dot(r * h, u[s, part(2)]) +
             b[part(2)])
  return (1 - z) * h + z * a


def attention(e, q, k, v, heads, size, vsize, mask=None,
              name='multi_head_attention'):
  def split(x, n, what):
    y = linear(e, x, f'{name}/{what}')
    sh = e.A.of(x.t).shape
    return j.reshape(y, (size_term(sh[0]), size_term(sh[1]), heads, n))
  q_, k_ = split(q, size, 'query'), split(k, size, 'key')
  v_ = split(v, vsize, 'value')
  l = j.einsum('bthd,bThd->bhtT', q_, k_) / float(size) ** .5
  if mask is not None:
    l = l - 1e10 * (1. - mask)
  a = j.einsum('bhtT,bThd->bthd', j.softmax(l), v_)
  sh = e.A.of(q.t).shape
  return linear(e, j.reshape(a, (size_term(sh[0]), size_term(sh[1]),
                                 heads * vsize)), name + '/linear')


def size_term(p):
  from ..arrays import term
  return term(p)


def batch_norm(e, x, axes, train, scale, offset, name='batch_norm',
               over=None, eps=1e-5):
  if train:
    m = j.mean(x, axis=axes, keepdims=True)
    q = j.mean(x ** 2, axis=axes, keepdims=True)
    if over:
      kw = {}
      if isinstance(over, tuple):
        over, kw['axis_index_groups'] = over
      m, q = (j.pmean(z, axis_name=over, **kw) for z in (m, q))
    v = q - m ** 2
  else:
    m = e.s[name + '/~/mean_ema/average']
    v = e.s[name + '/~/var_ema/average']
  out = (x - m) / j.sqrt(v + eps)
  return out * scale + offset, m, v


def ema(e, name, value, decay, debias=True, warm=False):
  """counter, hidden and average after one step."""
  c = e.s[name + '/counter'] + 1
  if warm:
    decay = E(T('call', Ext('jax.numpy.where'), (
        T('le', c.t, K(0)), K(0.), K(decay)), ()))
  h = e.s[name + '/hidden'] * decay + value * (1. - decay)
  a = h / (1. - E(K(decay)) ** c) if debias else h
  return {f'{name}/counter': c, f'{name}/hidden': h, f'{name}/average': a}, a


def bn(axes, x, scaled=True, offset=True, over=None, eps=1e-5, local=False):
  def spec(e, train):
    x_ = getattr(e, x)
    if scaled:
      sc = e.p.get('batch_norm/scale', 1.)
      off = e.p['batch_norm/offset'] if offset else 0.
    else:
      sc, off = e.c1, e.c1
    y, m, v = batch_norm(e, x_, axes, train or local, sc, off,
                         over=over, eps=eps)
    st = {}
    if train:
      for n, z in (('mean', m), ('var', v)):
        st.update(ema(e, f'batch_norm/~/{n}_ema', z, .75)[0])
    return {'': y}, st
  return spec


def groups(n, axes, first=False, scaled=True):
  def spec(e):
    x = e.w4 if first else e.z4
    sp = (S('H'), S('W'))
    shape = (S('N'), 8) + sp if first else (S('N'),) + sp + (8,)
    parts = (n, 8 // n)
    cut = (S('N'),) + parts + sp if first else (S('N'),) + sp + parts
    y = j.reshape(normalise(j.reshape(x, cut), axes), shape)
    if scaled:
      y = y * e.p['group_norm/scale']
    return y + e.p['group_norm/offset']
  return only(spec)


def averaged(update=True, **kw):
  def spec(e, train):
    st, a = ema(e, 'exponential_moving_average', e.x2, .75, **kw)
    return {'': a}, st if train and update else {
        k: e.s[k] for k in st if k in e.s}
  return spec


def tree_of(one, names, skip=()):
  """A layer applied to each leaf of a tree of parameters on its own."""
  def spec(e, train):
    st, out = {}, {}
    for i, (n, x) in enumerate(names):
      if i in skip:
        out[f'[{i}]'] = getattr(e, x)
        continue
      s, y = one(e, n, getattr(e, x))
      st.update(s)
      out[f'[{i}]'] = y
    return out, st if train else {k: e.s[k] for k in st}
  return spec


TREE = ('a__b__w', 'a__b__v', 'c___tilde___d__w')
ema_tree = lambda ws, skip=(), **kw: tree_of(
    lambda e, n, v: ema(e, 'ema_params_tree/' + n, v, .75, **kw),
    list(zip(TREE, ws)), skip)
sn_tree = lambda ws, skip=(), flat=(), **kw: tree_of(
    lambda e, n, v: normed(e, 'sn_params_tree/' + n.replace(
        '_tilde_', '_tilde'), v, n[0] in flat, **kw), list(zip(TREE, ws)), skip)


def only(f):
  """A specification of the single output."""
  return lambda e, train: ({'': f(e)}, None)


def normed(e, name, v, flat, steps=1, eps=1e-4):
  """State after a step and the value divided by its largest singular value."""
  sh = e.A.of(v.t).shape
  m = j.reshape(v, (-1, size_term(sh[-1]))) if flat else v
  u = e.s[name + '/u0']
  norm = lambda y: y / j.sqrt(j.sum(y * y, keepdims=True) + eps)
  for _ in range(steps):
    w = norm(j.matmul(u, j.transpose(m)))
    u = norm(j.matmul(w, m))
  u, w = j.stop_gradient(u), j.stop_gradient(w)
  sigma = j.matmul(j.matmul(w, m), j.transpose(u))[0, 0]
  return {name + '/u0': u, name + '/sigma': sigma}, v / sigma


def spectral(x, flat, steps, eps, update=True):
  def spec(e, train):
    st, y = normed(e, 'spectral_norm', getattr(e, x), flat, steps, eps)
    return {'': y}, st if update else {k: e.s[k] for k in st if k in e.s}
  return spec


def pairs2(h, c):
  return {'[0]': h, '[1].hidden': h, '[1].cell': c}


def pool(x, window, strides, padding, how):
  if how == 'max':
    return call('jax.lax', 'reduce_window', x, -float('inf'),
                Ext('jax.lax.max'), window, strides, padding)
  total = lambda y: call('jax.lax', 'reduce_window', y, 0.,
                         Ext('jax.lax.add'), window, strides, padding)
  if padding == 'VALID':
    n = 1
    for w in window:
      n *= w
    return total(x) / float(n)
  return total(x) / total(j.ones_like(x))


def conv_lstm(e, x, h, c, name, rank):
  y = conv(e, x, name + '/input_to_hidden', rank) + conv(
      e, h, name + '/hidden_to_hidden', rank)
  i, g, f, o = gates(y, 4, None)
  f = j.sigmoid(f + 1)
  c = f * c + j.sigmoid(i) * j.tanh(g)
  return pairs2(j.sigmoid(o) * j.tanh(c), c)


def unrolled(seq, n, major):
  """n steps of the core, outputs stacked."""
  def spec(e, train):
    h, outs = e.h1, []
    for i in range(n):
      x = getattr(e, seq)
      x = x[i] if major else x[slice(None), i]
      h = vanilla(e, x, h, 'vanilla_rnn')
      outs.append(h)
    return {'[0]': j.stack(outs, axis=0 if major else 1), '[1]': h}, None
  return spec


def scanned(seq, major):
  """The core at a turn of the loop, on what the turn before left."""
  def spec(e, train):
    x = getattr(e, seq).t
    if not major:
      x = j.swapaxes(E(x), 0, 1).t
    L = T('loop', 0, T('scan', x))
    h = vanilla(e, E(T('slice_of', x, L)), E(T('carry', e.h1.t, L, 'scan.0')),
                'vanilla_rnn')
    y = E(T('stacked', h.t, L))
    return {'[0]': y if major else j.swapaxes(y, 0, 1), '[1]': h}, None
  return spec


def deep(e, t):
  h1 = vanilla(e, e.x2, e.h1, 'vanilla_rnn')
  h2 = gru(e, h1, e.h2, 'gru', 4)
  return {'[0]': h2, '[1][0]': h1, '[1][1]': h2}, None


def skips(e, t):
  h1 = vanilla(e, e.x2, e.h1, 'vanilla_rnn')
  h2 = vanilla(e, j.concatenate((e.x2, h1), axis=-1), e.h2, 'vanilla_rnn_1')
  return {'[0]': j.concatenate((h1, h2), axis=-1), '[1][0]': h1,
          '[1][1]': h2}, None


def vq(ema_=False, over=None, cost=.25, eps=1e-5):
  name = 'vector_quantizer' + '_ema' * ema_

  def spec(e, train):
    w = (e.s if ema_ else e.p)[name + '/embeddings']
    x = j.reshape(e.z4, (-1, 8))
    d = j.sum(x ** 2, axis=1, keepdims=True) - 2. * j.matmul(x, w) + j.sum(
        w ** 2, axis=0, keepdims=True)
    i = j.argmax(0. - d, axis=1)
    enc = j.one_hot(i, 16)
    i = j.reshape(i, (S('N'), S('H'), S('W')))
    q = E(T('getitem', j.transpose(w).t, Tup([i.t])))
    p = j.mean(enc, axis=0)
    total = (lambda x: j.psum(x, over)) if over else lambda x: x
    if over:
      p = j.pmean(p, over)
    loss = cost * j.mean((j.stop_gradient(q) - e.z4) ** 2)
    st = {}
    if not ema_:
      loss = loss + j.mean((q - j.stop_gradient(e.z4)) ** 2)
    elif train:
      a, size = ema(e, name + '/~/ema_cluster_size', total(
          j.sum(enc, axis=0)), .75)
      b, dw = ema(e, name + '/~/ema_dw', total(
          j.matmul(j.transpose(x), enc)), .75)
      n = j.sum(size)
      size = (size + eps) / (n + 16 * eps) * n
      st = {**a, **b, name + '/embeddings': dw / size}
    return {"['quantize']": e.z4 + j.stop_gradient(q - e.z4),
            "['encoding_indices']": i, "['encodings']": enc,
            "['distances']": d, "['loss']": loss,
            "['perplexity']": j.exp(0. - j.sum(p * j.log(p + 1e-10)))}, st
  return spec


def key(e, *path):
  k = e.rng.t
  for i in path:
    k = T('getitem', call('jax.random', 'split', k, 2).t, K(i))
  return k


def dropped(e, x, rate, k, shape):
  return x * j.bernoulli(k, 1. - rate, shape=shape) / (1. - rate)


def mlp_dropout(e, final=False):
  x = e.x2
  for i in (0, 1, 2):
    x = linear(e, x, f'mlp/~/linear_{i}')
    if i < 2 or final:
      x = j.relu(dropped(e, x, .5, key(e, 1, *[0] * i, 1), (
          S('N'), 4 if i == 2 else 8)))
  return x


def reset(e, t):
  keep = lambda h: j.where(E(S('reset'))[slice(None), None], 0., h)
  return pairs2(*lstm(linear(e, j.concatenate(
      (e.x2, keep(e.h1)), axis=-1), 'lstm/linear'), keep(e.h2))), None


def norm_of(e, x, name, train, eps=1e-5, decay=.999, local=False):
  """BatchNorm over (0, 1, 2) inside a network; e.new collects the averages."""
  y, m, v = batch_norm(e, x, (0, 1, 2), train or local, e.p[name + '/scale'],
                       e.p[name + '/offset'], name, eps=eps)
  if train:
    for n, z in (('mean', m), ('var', v)):
      e.new.update(ema(e, f'{name}/~/{n}_ema', z, decay)[0])
  return y


def res_block(e, x, name, v2, stride, project, bottleneck, norm_):
  n = name + '/~/'
  cv = lambda x, i, s: conv(e, x, f'{n}{i}', 2, s, bias=False)
  norm = lambda x, i: norm_(x, f'{n}{i}')
  strides = (1, stride, 1) if bottleneck else (stride, 1)
  y = x
  if v2:
    for i, s in enumerate(strides):
      y = j.relu(norm(y, f'batchnorm_{i}'))
      if i == 0 and project:
        x = cv(y, 'shortcut_conv', stride)
      y = cv(y, f'conv_{i}', s)
    return y + x
  if project:
    x = norm(cv(x, 'shortcut_conv', stride), 'shortcut_batchnorm')
  for i, s in enumerate(strides):
    if i:
      y = j.relu(y)
    y = norm(cv(y, f'conv_{i}', s), f'batchnorm_{i}')
  return j.relu(y + x)


def resnet(name, blocks, v2, bottleneck=True, projections=(True,) * 4,
           head='logits', bias=True, **kw):
  def spec(e, train):
    if train and sum(blocks) > 5:
      return {}, None
    e.new = {}
    norm = lambda x, n: norm_of(e, x, n, train, **{'decay': .9, **kw})
    n = name + '/~/'
    x = conv(e, e.img, n + 'initial_conv', 2, 2, bias=False)
    if not v2:
      x = j.relu(norm(x, n + 'initial_batchnorm'))
    x = pool(x, (1, 3, 3, 1), (1, 2, 2, 1), 'SAME', 'max')
    for g, (count, project) in enumerate(zip(blocks, projections)):
      for b in range(count):
        x = res_block(e, x, f'{n}block_group_{g}/~/block_{b}', v2,
                      2 if g and not b else 1, project and not b, bottleneck,
                      norm)
    if v2:
      x = j.relu(norm(x, n + 'final_batchnorm'))
    return {'': linear(e, j.mean(x, axis=(1, 2)), n + head, bias)}, e.new
  return spec


def mobilenet(strides, channels, norm=True):
  def spec(e, train):
    if train and len(strides) > 5:
      return {}, None
    e.new = {}
    n = 'mobile_net_v1/'
    bn_ = (lambda x, k: j.relu(norm_of(e, x, k, train))) if norm else (
        lambda x, k: j.relu(x))
    x = bn_(conv(e, e.img, n + 'conv2_d', 2, 2, 'VALID', bias=not norm),
            n + 'batch_norm')
    c = 32
    for i, (s, d) in enumerate(zip(strides, channels)):
      k = n + 'mobile_net_v1_block' + (f'_{i}' if i else '') + '/'
      x = bn_(conv(e, x, k + 'depthwise_conv', 2, s, ((1, 1), (1, 1)),
                   groups=c, bias=not norm), k + 'batch_norm')
      x = bn_(conv(e, x, k + 'pointwise_conv', 2, 1, 'VALID', bias=not norm),
              k + 'batch_norm_1')
      c = d
    return {'': linear(e, j.mean(x, axis=(1, 2)), n + 'logits')}, e.new
  return spec


def one_of(e, x, f, axis=0):
  """A layer applied to a single example: a batch of one."""
  return j.squeeze(f(j.expand_dims(x, axis)), axis=axis)


SPECS = {
    'Linear': only(lambda e: linear(e, e.x2, 'linear')),
    'Linear on 3 axes': only(lambda e: linear(e, e.x3, 'linear')),
    'Linear on one example': only(lambda e: linear(e, e.u1, 'linear')),
    'Linear on 4 axes without bias': only(
        lambda e: linear(e, e.x4, 'linear', False)),
    'Bias': only(lambda e: e.x4 + e.p['bias/b']),
    'Bias on the last axis': only(lambda e: e.x4 + e.p['bias/b']),
    'Bias on axis 1': only(lambda e: e.x4 + e.p['bias/b']),
    'Bias, one number': only(lambda e: e.x4 + e.p['bias/b']),
    'Bias with multiplier': only(lambda e: e.x4 + e.p['bias/b'] * 2.),
    'Sequential': only(lambda e: linear(e, linear(e, e.x2, 'linear'),
                                        'linear_1')),
    'MLP': only(lambda e: linear(e, j.relu(linear(
        e, e.x2, 'mlp/~/linear_0')), 'mlp/~/linear_1')),
    'Conv1D': only(lambda e: conv(e, e.x3, 'conv1_d', 1)),
    'LayerNorm': only(lambda e: normalise(e.x4, -1) * e.p['layer_norm/scale'] +
                      e.p['layer_norm/offset']),
    'LayerNorm over several axes': only(lambda e: normalise(
        e.x4, (1, 2, 3)) * e.p['layer_norm/scale'] +
                                        e.p['layer_norm/offset']),
    'LayerNorm over a slice': only(lambda e: normalise(
        e.x4, (1, 2, 3)) * e.p['layer_norm/scale'] +
                                   e.p['layer_norm/offset']),
    'LayerNorm with scale and offset': only(
        lambda e: normalise(e.x2, -1) * e.c1 + e.c1),
    'InstanceNorm': only(lambda e: normalise(
        e.x4, (1, 2)) * e.p['instance_norm/scale'] +
                         e.p['instance_norm/offset']),
    'InstanceNorm channels first': only(lambda e: normalise(e.y4, (2, 3))),
    'GroupNorm': only(lambda e: j.reshape(normalise(j.reshape(e.z4, (
        S('N'), S('H'), S('W'), 4, 2)), (1, 2, 4)), (
            S('N'), S('H'), S('W'), 8)) * e.p['group_norm/scale'] +
                      e.p['group_norm/offset']),
    'GroupNorm channels first': only(lambda e: j.reshape(normalise(j.reshape(
        e.w4, (S('N'), 4, 2, S('H'), S('W'))), (2, 3, 4)), (
            S('N'), 8, S('H'), S('W'))) * e.p['group_norm/scale'] +
                                     e.p['group_norm/offset']),
    'GroupNorm over given axes': groups(2, (1, 4)),
    'GroupNorm over axes from the end': groups(2, (1, 4)),
    'GroupNorm over axes from the end, channels first': groups(
        4, (2, 3), True),
    'GroupNorm over one axis': groups(4, (4,), False, False),
    'GroupNorm over the axes after two': groups(2, (2, 4)),
    'BatchNorm on axes from the end': bn((0, 2), 'x4'),
    'BatchNorm': bn((0, 1, 2), 'x4'),
    'BatchNorm channels first': bn((0, 2, 3), 'y4'),
    'BatchNorm with scale and offset': bn((0,), 'x2', False),
    'BatchNorm across replicas': bn((0, 1, 2), 'x4', True, False, 'i'),
    'BatchNorm on given axes': bn((0, 1), 'x4'),
    'ExponentialMovingAverage': averaged(),
    'ExponentialMovingAverage, not debiased': averaged(debias=False),
    'ExponentialMovingAverage with warm-up': averaged(debias=False, warm=True),
    'SpectralNorm': spectral('x2', False, 1, 1e-4),
    'SpectralNorm of a kernel': spectral('x4', True, 2, 1e-4),
    'VanillaRNN': lambda e, t: (
        (lambda h: {'[0]': h, '[1]': h})(vanilla(e, e.x2, e.h1,
                                                 'vanilla_rnn')), None),
    'LSTM': lambda e, t: (pairs2(*lstm(linear(e, j.concatenate(
        (e.x2, e.h1), axis=-1), 'lstm/linear'), e.h2)), None),
    'GRU': lambda e, t: ((lambda h: {'[0]': h, '[1]': h})(
        gru(e, e.x2, e.h1, 'gru', 8)), None),
    'MultiHeadAttention': only(lambda e: attention(e, e.q, e.k, e.v, 2, 4, 4)),
    'MultiHeadAttention with mask and sizes': only(
        lambda e: attention(e, e.q, e.k, e.v, 2, 4, 6, e.mask)),
    'Conv2D': only(lambda e: conv(e, e.x4, 'conv2_d', 2)),
    'ConvND': only(lambda e: conv(e, e.x4, 'conv_nd', 2)),
    'Conv2D, oblong kernel': only(lambda e: conv(
        e, e.x4, 'conv2_d', 2, padding='VALID')),
    'Conv2D with strides': only(lambda e: conv(
        e, e.x4, 'conv2_d', 2, strides=(2, 3))),
    'Conv2D with rate': only(lambda e: conv(
        e, e.x4, 'conv2_d', 2, padding='VALID', rate=(2, 3))),
    'Conv2D with pad function': only(lambda e: conv(
        e, e.x4, 'conv2_d', 2, padding=((4, 0), (4, 0)))),
    'Conv2D with pad functions and rate': only(lambda e: conv(
        e, e.x4, 'conv2_d', 2, padding=((4, 4), (3, 3)), rate=2)),
    'Conv2D with pad pairs': only(lambda e: conv(
        e, e.x4, 'conv2_d', 2, padding=((1, 2), (0, 5)))),
    'Conv2D with groups': only(lambda e: conv(
        e, e.z4, 'conv2_d', 2, groups=4)),
    'Conv2D NCHW': only(lambda e: conv(
        e, e.y4, 'conv2_d', 2, strides=(2, 1), first=True)),
    'Conv3D': only(lambda e: conv(e, e.x5, 'conv3_d', 3, padding='VALID')),
    'Conv1DTranspose': only(lambda e: conv_t(
        e, e.x3, 'conv1_d_transpose', 1, 2)),
    'Conv2DTranspose': only(lambda e: conv_t(
        e, e.x4, 'conv2_d_transpose', 2, (1, 2))),
    'Conv2DTranspose NCHW': only(lambda e: conv_t(
        e, e.y4, 'conv2_d_transpose', 2, (1, 2), first=True)),
    'Conv2DTranspose VALID': only(lambda e: conv_t(
        e, e.x4, 'conv2_d_transpose', 2, 2, 'VALID')),
    'Conv3DTranspose': only(lambda e: conv_t(
        e, e.x5, 'conv3_d_transpose', 3, 2)),
    'DepthwiseConv2D': only(lambda e: conv(
        e, e.x4, 'depthwise_conv2_d', 2, groups=S('C'))),
    'DepthwiseConv2D NCHW': only(lambda e: conv(
        e, e.y4, 'depthwise_conv2_d', 2, strides=2, groups=S('C'),
        first=True)),
    'SeparableDepthwiseConv2D': only(lambda e: conv(
        e, conv(e, e.x4, 'separable_depthwise_conv2_d/~/depthwise_conv2_d', 2,
                padding='VALID', groups=S('C'), bias=False),
        'separable_depthwise_conv2_d/~/depthwise_conv2_d_1', 2,
        padding='VALID', groups=(E(S('C')) * 2).t)),
    'MaxPool': only(lambda e: pool(e.x4, (1, 2, 2, 1), (1, 2, 2, 1), 'SAME',
                                   'max')),
    'MaxPool VALID': only(lambda e: pool(
        e.x4, (1, 2, 3, 1), (1, 1, 2, 1), 'VALID', 'max')),
    'MaxPool channels first': only(lambda e: pool(
        e.y4, (1, 1, 2, 2), (1, 1, 2, 2), 'SAME', 'max')),
    'MaxPool of one example': only(lambda e: pool(
        e.u3, (2, 2, 1), (1, 1, 1), 'SAME', 'max')),
    'AvgPool': only(lambda e: pool(e.x4, (1, 3, 3, 1), (1, 2, 2, 1), 'SAME',
                                   'avg')),
    'AvgPool VALID': only(lambda e: pool(
        e.x4, (1, 2, 2, 1), (1, 1, 1, 1), 'VALID', 'avg')),
    'Reshape': only(lambda e: j.reshape(e.z4, (S('N'), 4, -1))),
    'Reshape, two axes kept': only(lambda e: j.reshape(
        e.z4, (S('N'), S('H'), -1))),
    'Flatten': only(lambda e: j.reshape(e.x4, (S('N'), -1))),
    'Flatten, two axes kept': only(lambda e: j.reshape(
        e.x4, (S('N'), S('H'), -1))),
    'BatchApply': only(lambda e: linear(e, e.x3, 'linear')),
    'BatchApply of three axes': only(lambda e: linear(e, e.x4, 'linear')),
    'expand_apply': only(lambda e: linear(e, e.x2, 'linear')),
    'Embed': only(lambda e: E(T('getitem', e.p['embed/embeddings'].t,
                                Tup([e.ids.t])))),
    'Embed one hot': only(lambda e: j.matmul(
        j.one_hot(e.ids, 10), e.p['embed/embeddings'])),
    'one_hot': only(lambda e: j.one_hot(e.ids, 10)),
    'Conv2DLSTM': lambda e, t: (conv_lstm(
        e, e.x4, e.h1, e.h2, 'conv2_dlstm', 2), None),
    'Conv1DLSTM': lambda e, t: (conv_lstm(
        e, e.x3, e.h1, e.h2, 'conv1_dlstm', 1), None),
    'Conv3DLSTM': lambda e, t: (conv_lstm(
        e, e.x5, e.h1, e.h2, 'conv3_dlstm', 3), None),
    'DeepRNN': deep,
    'deep_rnn_with_skip_connections': skips,
    'static_unroll': unrolled('xt5', 5, True),
    'static_unroll, batch first': unrolled('xs5', 5, False),
    'IdentityCore': lambda e, t: ({'[0]': e.x2}, None),
    'VectorQuantizer': vq(),
    'VectorQuantizerEMA': vq(True),
    'dropout': only(lambda e: dropped(e, e.x4, .5, key(e, 1), (
        S('N'), S('H'), S('W'), S('C')))),
    'MLP with dropout': only(mlp_dropout),
    'Conv1D masked': only(lambda e: conv(e, e.x3, 'conv1_d', 1, bias=False,
                                         mask=e.m1)),
    'Conv1D with groups': only(lambda e: conv(e, e.z3, 'conv1_d', 1, 3,
                                              groups=2)),
    'Conv3D with groups and mask': only(lambda e: conv(
        e, e.z5, 'conv3_d', 3, groups=4, mask=e.m3)),
    'ConvND with everything': only(lambda e: conv(
        e, e.y4, 'conv_nd', 2, 1, 'VALID', (1, 2), first=True, bias=False,
        mask=e.km)),
    'ConvND of one axis': only(lambda e: conv(e, e.z3, 'conv_nd', 1, 2,
                                              groups=8)),
    'Conv1DTranspose masked': only(lambda e: conv_t(
        e, e.x3, 'conv1_d_transpose', 1, 1, 'VALID', bias=False, mask=e.tm1)),
    'Conv1DTranspose with output shape': only(lambda e: conv_t(
        e, e.im1, 'conv1_d_transpose', 1, 2, ((2, 2),))),
    'Conv2DTranspose with output shape NCHW': only(lambda e: conv_t(
        e, e.ci4, 'conv2_d_transpose', 2, 2, ((1, 1), (2, 2)), first=True)),
    'Conv3DTranspose with output shape': only(lambda e: conv_t(
        e, e.im3, 'conv3_d_transpose', 3, (1, 2, 3), (
            (1, 1), (1, 1), (3, 2)))),
    'Conv3DTranspose masked': only(lambda e: conv_t(
        e, e.im3, 'conv3_d_transpose', 3, 1, 'VALID', bias=False,
        mask=e.tm3)),
    'ConvNDTranspose': only(lambda e: conv_t(
        e, e.y4, 'conv_nd_transpose', 2, 2, first=True)),
    'ConvNDTranspose of one example': only(lambda e: one_of(
        e, e.u2, lambda x: conv_t(e, x, 'conv_nd_transpose', 1, 2, 'VALID',
                                  bias=False))),
    'SeparableDepthwiseConv2D without bias': only(lambda e: conv(
        e, conv(e, e.x4, 'separable_depthwise_conv2_d/~/depthwise_conv2_d', 2,
                groups=S('C'), bias=False),
        'separable_depthwise_conv2_d/~/depthwise_conv2_d_1', 2,
        groups=(E(S('C')) * 2).t, bias=False)),
    'GroupNorm with scale and offset': only(lambda e: j.reshape(normalise(
        j.reshape(e.z4, (S('N'), S('H'), S('W'), 2, 4)), (1, 2, 4)), (
            S('N'), S('H'), S('W'), 8)) * e.g8 + e.g8),
    'EMAParamsTree with warm-up': ema_tree(('x2', 'c1', 'x4'), debias=False,
                                           warm=True),
    'Bias of rows': only(lambda e: e.x2 + e.p['bias/b']),
    'LayerNorm of rows': only(lambda e: normalise(e.x2, -1) * e.p[
        'layer_norm/scale'] + e.p['layer_norm/offset']),
    'Conv1D on one example': only(lambda e: one_of(
        e, e.u2, lambda x: conv(e, x, 'conv1_d', 1))),
    'Conv2D on one example': only(lambda e: one_of(
        e, e.u3, lambda x: conv(e, x, 'conv2_d', 2))),
    'Conv2D on one example NCHW': only(lambda e: one_of(
        e, e.v3, lambda x: conv(e, x, 'conv2_d', 2, first=True))),
    'Conv2DTranspose on one example': only(lambda e: one_of(
        e, e.u3, lambda x: conv_t(e, x, 'conv2_d_transpose', 2, 2))),
    'Linear without bias': only(lambda e: linear(e, e.x2, 'linear', False)),
    'MLP, all activated': only(lambda e: j.tanh(linear(e, j.tanh(linear(
        e, e.x2, 'mlp/~/linear_0', False)), 'mlp/~/linear_1', False))),
    'Conv2D masked': only(lambda e: conv(e, e.x4, 'conv2_d', 2, bias=False,
                                         mask=e.km)),
    'Conv1D NCW': only(lambda e: conv(e, e.y3, 'conv1_d', 1, 2, first=True)),
    'Conv1D with rate': only(lambda e: conv(e, e.x3, 'conv1_d', 1, 1, 'VALID',
                                            2)),
    'Conv3D NCDHW': only(lambda e: conv(e, e.y5, 'conv3_d', 3, (1, 2, 3),
                                        first=True)),
    'Conv3D with rate': only(lambda e: conv(
        e, e.x5, 'conv3_d', 3, 1, 'VALID', (1, 2, 3), bias=False)),
    'Conv2DTranspose with output shape': only(lambda e: conv_t(
        e, e.img, 'conv2_d_transpose', 2, 2, ((1, 1), (2, 2)))),
    'Conv2DTranspose VALID with output shape': only(lambda e: conv_t(
        e, e.img, 'conv2_d_transpose', 2, 2, ((2, 2), (2, 3)))),
    'Conv2DTranspose masked': only(lambda e: conv_t(
        e, e.img, 'conv2_d_transpose', 2, 1, bias=False, mask=e.tm)),
    'Conv1DTranspose NCW': only(lambda e: conv_t(
        e, e.y3, 'conv1_d_transpose', 1, 2, first=True)),
    'Conv3DTranspose NCDHW': only(lambda e: conv_t(
        e, e.y5, 'conv3_d_transpose', 3, (1, 2, 3), first=True)),
    'DepthwiseConv2D VALID': only(lambda e: conv(
        e, e.x4, 'depthwise_conv2_d', 2, (1, 2), 'VALID', groups=S('C'),
        bias=False)),
    'SeparableDepthwiseConv2D NCHW': only(lambda e: conv(
        e, conv(e, e.y4, 'separable_depthwise_conv2_d/~/depthwise_conv2_d', 2,
                2, groups=S('C'), bias=False, first=True),
        'separable_depthwise_conv2_d/~/depthwise_conv2_d_1', 2,
        groups=(E(S('C')) * 2).t, first=True)),
    'AvgPool channels first': only(lambda e: pool(
        e.y4, (1, 1, 3, 3), (1, 1, 2, 2), 'SAME', 'avg')),
    'AvgPool of every axis': only(lambda e: pool(
        e.x4, (1, 2, 2, 2), (1, 2, 2, 2), 'VALID', 'avg')),
    'max_pool': only(lambda e: pool(
        e.x4, (1, 3, 2, 1), (1, 1, 2, 1), 'SAME', 'max')),
    'avg_pool': only(lambda e: pool(
        e.x3, (1, 3, 1), (1, 2, 1), 'VALID', 'avg')),
    'Bias on two axes': only(lambda e: e.x4 + e.p['bias/b']),
    'Bias with output size': only(lambda e: e.x4 + e.p['bias/b']),
    'LayerNorm, other epsilon': only(lambda e: normalise(e.x4, 1, .125)),
    'LayerNorm, scale only': only(lambda e: normalise(e.x3, -1) * e.p[
        'layer_norm/scale'] + e.c1),
    'LayerNorm, offset only': only(lambda e: normalise(e.x3, -1) + e.p[
        'layer_norm/offset']),
    'InstanceNorm, other epsilon': only(lambda e: normalise(
        e.x3, 1, .125) + e.p['instance_norm/offset']),
    'GroupNorm, other epsilon': only(lambda e: j.reshape(normalise(j.reshape(
        e.z4, (S('N'), S('H'), S('W'), 2, 4)), (1, 2, 4), .125), (
            S('N'), S('H'), S('W'), 8))),
    'BatchNorm, other epsilon': bn((0, 1), 'x3', eps=.125),
    'BatchNorm with local statistics': bn((0, 1, 2), 'x4', True, False,
                                          local=True),
    'ExponentialMovingAverage, not updated': averaged(False),
    'EMAParamsTree': ema_tree(('x2', 'c1', 'x4')),
    'EMAParamsTree ignoring some': ema_tree(('x2', 'c1', 'x4'), (0,),
                                            debias=False),
    'SNParamsTree': sn_tree(('x2',) * 3),
    'SNParamsTree ignoring some': sn_tree(('x2', 'x2', 'x4'), (2,), steps=2,
                                          eps=.125),
    'SpectralNorm, not updated': spectral('x2', False, 1, 1e-4, False),
    'Embed with a matrix': only(lambda e: E(T(
        'getitem', e.p['embed/embeddings'].t, Tup([e.ids.t])))),
    'Embed, style given at the call': only(lambda e: j.matmul(
        j.one_hot(e.ids, 10), e.p['embed/embeddings'])),
    'VanillaRNN, one bias': lambda e, t: ((lambda h: {'[0]': h, '[1]': h})(
        vanilla(e, e.x2, e.h1, 'vanilla_rnn', False)), None),
    'VanillaRNN on one example': lambda e, t: (
        (lambda h: {'[0]': h, '[1]': h})(vanilla(e, e.u1, e.h1,
                                                 'vanilla_rnn')), None),
    'LSTM on one example': lambda e, t: (pairs2(*lstm(linear(e, j.concatenate(
        (e.u1, e.h1), axis=-1), 'lstm/linear'), e.h2)), None),
    'GRU on one example': lambda e, t: ((lambda h: {'[0]': h, '[1]': h})(
        gru(e, e.u1, e.h1, 'gru', 8)), None),
    'ResetCore': reset,
    'dynamic_unroll': scanned('xt', True),
    'dynamic_unroll, batch first': scanned('x3', False),
    'Conv1DLSTM, two wide': lambda e, t: (conv_lstm(
        e, e.x3, e.h1, e.h2, 'conv1_dlstm', 1), None),
    'dropout of nothing': only(lambda e: e.x4),
    'BatchApply of two arguments': only(lambda e: e.x3 + e.c1),
    'MultiHeadAttention, own query size': only(lambda e: attention(
        e, e.q, e.k, e.v, 2, 4, 3)),
    'BatchNorm across groups of replicas': bn((0, 1, 2), 'x4', over=(
        'i', ((0, 2), (1, 3))), offset=False),
    'VectorQuantizerEMA, other epsilon': vq(True, eps=.125),
    'Sequential used twice': only(lambda e: linear(
        e, linear(e, e.x2, 'linear'), 'linear')),
    'Sequential with arguments': only(lambda e: e.x2 + e.c1),
    'MLP with dropout, all activated': only(lambda e: mlp_dropout(e, True)),
    'BatchApply with a keyword': only(lambda e: e.x3 + e.c1),
    'VectorQuantizerEMA across replicas': vq(True, 'i', .5),
    'ResNet': resnet('res_net', (1, 2, 1, 1), False),
    'ResNet v2': resnet('res_net', (1, 1, 1, 2), True),
    'ResNet, set up differently': resnet(
        'res_net', (1, 1, 2, 1), False, False, (False, True, True, True),
        'head', False, decay=.5, eps=.125),
    'ResNet v2, set up differently': resnet(
        'res_net', (2, 1, 1, 1), True, False, (False, True, True, True),
        decay=.5, eps=.125),
    'ResNet, statistics of the batch': resnet(
        'res_net', (1, 1, 1, 1), False, local=True),
    'ResNet v2, statistics of the batch': resnet(
        'res_net', (1, 1, 1, 1), True, local=True),
    'ResNet18': resnet('res_net18', (2, 2, 2, 2), False, False,
                       (False, True, True, True)),
    'ResNet34': resnet('res_net34', (3, 4, 6, 3), True, False,
                       (False, True, True, True)),
    'ResNet50': resnet('res_net50', (3, 4, 6, 3), False),
    'MobileNetV1': mobilenet(
        (1, 2, 1, 2, 1, 2, 1, 1, 1, 1, 1, 2, 1),
        (64, 128, 128, 256, 256, 512, 512, 512, 512, 512, 512, 1024, 1024)),
    'MobileNetV1, small': mobilenet((1, 2), (8, 6), False),
}


def rule_formulas(R):
  for label, prog, want, opts in PROGRAMS:
    spec = SPECS.get(label)
    if spec is None:
      continue

    def scen(I, label=label, prog=prog, opts=opts, spec=spec):
      r = run_program(R, I, label, prog, opts)
      if r is None:
        return
      A, t, P, st, pn, sn = r
      for train in ((True, False) if opts.get('mode') else (True,)):
        TRAIN[0] = train
        o = attempt(I, I.getattr(t, 'apply'), [P, st, S('rng')])
        c = label + ('' if train else ' in inference')
        if not o.ok:
          R.need(None, 'run', c, f'apply ends with {o!r}', last_loc(I))
          continue
        outs, state = spec(Env(pn, sn, A), train)
        got = dict(leaves(I, o.v.items[0]))
        X = Tensor(A, OPAQUE)
        for k, w in outs.items():
          same(R, I, X, f'{c} {k}', got.get(k), w.t, 'formula')
        if state:
          after = content(I, o.v.items[1])
          for k, w in state.items():
            m, _, n = k.rpartition('/')
            same(R, I, X, f'{c} {k}', after.get((m, n)), w.t, 'state-formula')
    R.explore(label, scen)


def same(R, I, X, what, got, want, rule):
  compare(R, I, X, what, got, want, rule)
  if rule == 'formula' and got is not None:
    compare(R, I, Tensor(X.A, OPAQUE, True), what, got, want, 'gradient')


def compare(R, I, X, what, got, want, rule):
  if got is None:
    R.need(None, rule, what, 'absent', last_loc(I))
    return
  ok = X.same(norm_copy(got), want)
  msg = ''
  if ok is False:
    a, b = X.last
    msg = f'computes {X.show(a)} instead of {X.show(b)}'
  elif ok is None:
    msg = f'not decided: {norm_copy(got)!r}'[:300]
  R.need(ok, rule, what, msg, last_loc(I))
