"""Layers carry the name they are given, and so does all they own."""
from ..harness import *
from .initial import CORES
from .numeric import PROGRAMS, TRAIN, accepts, arrays, cell, core, lay, mods
from .params import last_loc
from .structures import content

N = 'given'


EXTRA = [
    ('Flatten', lay('Flatten', on='x4')), ('Reshape', lay(
        'Reshape', Tup([K(-1)]), on='x4')),
    ('deep_rnn_with_skip_connections', cell(
        'deep_rnn_with_skip_connections', mods(
            core('VanillaRNN', K(8)), core('VanillaRNN', K(8))))),
    ('Sequential', lay('Sequential', mods(core('Linear', K(8))))),
]
# constructed only
MADE = [(n, [K(4)]) for n in (
    'nets.ResNet101', 'nets.ResNet152', 'nets.ResNet200')] + [
        ('IdentityCore', []), ('ConvNDTranspose', [K(2), K(4), K(3)])]


def keys(I, v):
  return set(content(I, v))


def rule_named(R):
  """hk.X(..., name=n) makes a module named n owning everything it makes."""
  for label, prog, *_ in PROGRAMS + EXTRA:
    if not hasattr(prog, 'named'):
      continue

    def scen(I, label=label, prog=prog):
      A = arrays(I)
      TRAIN[0] = True
      seen = []
      for make in (prog.make, prog.named(N)):
        def run(I, a, k, make=make):
          m = make(I)
          seen.append(I.getattr(m, 'module_name'))
          return prog.use(I, m)
        t = transformed(I, run)
        o = attempt(I, I.getattr(t, 'init'), [S('rng')])
        if not o.ok:
          accepts(R, I, label, 'init', o)
          return
        seen += [keys(I, x) for x in o.v.items]
      was, p0, s0, now, p1, s1 = seen
      R.need(isinstance(now, K) and now.v == N, 'named', label,
             f'given the name {N!r} it is called {now!r}', last_loc(I))

      def move(ks):
        return {((N + m[len(was.v):] if m.split('/')[0] == was.v else m), n)
                for m, n in ks}
      for what, a, b in (('parameters', p0, p1), ('state', s0, s1)):
        R.need(move(a) == b, 'owned', f'{label} {what}',
               f'given the name {N!r} it has the {what} {sorted(b)}',
               last_loc(I))
    R.explore(label, scen)
  for api, args in MADE:
    def scen(I, api=api, args=args):
      arrays(I)
      out = []

      def run(I, a, k):
        out.append(I.getattr(hk(I, api, *args, name=K(N)), 'module_name'))
        return K(0)
      o = attempt(I, I.getattr(transformed(I, run), 'init'), [S('rng')])
      if not o.ok:
        accepts(R, I, api, 'construction', o)
        return
      R.need(out == [K(N)], 'named', api,
             f'given the name {N!r} it is called {out!r}', last_loc(I))
    R.explore(api, scen)
