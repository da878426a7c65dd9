#!/usr/bin/env python3
"""Decides one property by static analysis of /repo's current source.

usage: check.py PROPERTY [--strict]

exit 0  every obligation of the property's rules that could be decided holds
exit 1  a rule found a violation (VIOLATION property=<id> replay=<path>)
exit 2  the check has no answer (an entry point it starts from is gone, or
        nothing could be decided)

With --strict an undecided obligation is an error too (exit 3); this is how the
rules are kept honest on the unchanged tree during development.
"""
import importlib
import json
import os
import sys
import threading
import time
import traceback

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def known(pid):
  out = {}
  path = os.path.join(HERE, 'known_findings.txt')
  if os.path.exists(path):
    for line in open(path, encoding='utf8'):
      if line.startswith(f'known: property={pid} '):
        d = json.loads(line.split(' ', 2)[2])
        out[(d['rule'], d['construct'])] = d['what']
  return out


def main(argv):
  from sa import catalog, harness
  pid = argv[0]
  strict = '--strict' in argv
  tier = os.environ.get('VERIF_TIER', 'quick')
  if tier not in ('quick', 'thorough'):
    tier = 'quick'
  seed = int(os.environ.get('VERIF_SEED', '1') or 1)
  entry = catalog.BY_ID[pid]
  t0 = time.time()
  harness.DEADLINE[0] = t0 + (600 if tier == 'quick' else 800)
  R = harness.Report(pid, tier)
  error = None
  for spec in entry['rules']:
    mod, fn = spec.split(':')
    try:
      m = importlib.import_module('sa.rules.' + mod)
      getattr(m, fn)(R)
    except harness.Anchor as e:
      error = f'{spec}: {e}'
    except (harness.Undecided, harness.AbsRaise, RecursionError) as e:
      R.undec[('rule', spec)] = (f'{type(e).__name__}: {e}', None)
    except Exception:  # pylint: disable=broad-except
      R.undec[('rule', spec)] = (traceback.format_exc()[-2000:], None)
  kn = known(pid)
  new = [v for k, v in R.viol.items() if k not in kn]
  old = [(k, v) for k, v in R.viol.items() if k in kn]
  decided = sum(R.nob.values()) - 0
  ok = sum(R.nok.values())
  fns = set()
  for I in harness._SESSIONS.values():  # pylint: disable=protected-access
    if id(I) in R.sessions:
      fns |= {f for f in I.fnset if not f[0].endswith('client.py')}
  rel = lambda p: os.path.relpath(p, harness.ROOT)
  ev = dict(
      property=pid, tier=tier, seed=seed, level='other',
      coverage=dict(
          explanation=(
              'Static analysis (' + entry['technique'] + '): the library '
              'source is parsed and interpreted abstractly, never imported; '
              'each obligation below is one rule instance checked at one '
              'construct on one trace partition.'),
          obligations=decided, discharged=ok,
          checker_cmd=f'python3 check.py {pid}',
          rules={r: dict(instances=R.nob[r], holds=R.nok[r])
                 for r in sorted(R.nob)},
          scenarios=len(R.scen),
          trace_partitions=sum(s['partitions'] for s in R.scen.values()),
          analysed_functions=len(fns),
          analysed_files=sorted({rel(f[0]) for f in fns}),
          events=R.events,
          undecided=[dict(rule=k[0], construct=k[1], reason=str(v[0])[:400],
                          where=harness.fmt(v[1]))
                     for k, v in list(R.undec.items())[:50]],
          undecided_count=len(R.undec),
          samples=[dict(scenario=k, **v) for k, v in list(
              R.scen.items())[:12]] + R.samples[:12],
          function_samples=sorted(f'{rel(f[0])}:{f[2]} {f[1]}' for f in fns)[
              :40]),
      assumptions=entry.get('assumptions', []) + catalog.ASSUMPTIONS,
      wall_s=round(time.time() - t0, 3), violations=len(new))
  os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
  with open(os.path.join(HERE, 'evidence', pid + '.json'), 'w',
            encoding='utf8') as f:
    json.dump(ev, f, indent=1, default=str)
  for k, v in old:
    print(f'KNOWN-FINDING: property={pid} {kn[k]}')
  if new:
    rp = os.path.join(HERE, 'evidence', f'replay-{pid}.json')
    with open(rp, 'w', encoding='utf8') as f:
      json.dump(dict(property=pid, violations=new,
                     replay=f'python3 check.py {pid}'), f, indent=1,
                default=str)
    for v in new[:10]:
      print(f'{v["where"]}: [{v["rule"]}] {v["construct"]}: {v["message"]}')
    print(f'VIOLATION property={pid} replay={rp}')
    return 1
  und = len(R.undec)
  print(f'{pid}: {ok} obligations hold over {len(R.scen)} scenarios, '
        f'{len(fns)} functions analysed, {und} undecided, '
        f'{ev["wall_s"]} s')
  if error:
    print('ERROR', error)
    return 2
  if not ok:
    print('ERROR nothing could be decided')
    return 2
  if strict and (und or R.vacuous()):
    for k, v in list(R.undec.items())[:20]:
      print('UNDECIDED', k, str(v)[:500])
    for k in R.vacuous():
      print('VACUOUS', k)
    return 3
  return 0


def run():
  try:
    RC[0] = main(sys.argv[1:])
  except BaseException:  # pylint: disable=broad-except
    traceback.print_exc()
    RC[0] = 2


RC = [2]
if __name__ == '__main__':
  threading.stack_size(1 << 29)
  sys.setrecursionlimit(60000)
  th = threading.Thread(target=run)
  th.start()
  th.join()
  sys.stdout.flush()
  os._exit(RC[0])
