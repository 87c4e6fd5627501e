"""one.py PROPERTY SEED-INDEX HASH-SEED [tier] [seed]: runs one execution of a search again and prints its trace."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
from dst.check import RUN_TIMEOUT, make_zygote  # noqa: E402

pid, index, hs = sys.argv[1:4]
tier = sys.argv[4] if len(sys.argv) > 4 else 'quick'
seed = sys.argv[5] if len(sys.argv) > 5 else '1'
z = make_zygote(pid, int(hs))
r = z.run(dict(prop=pid, seed=f'{pid}:{seed}:{index}', entropy=f'{seed}:{index}', tier=tier, want_log=True,
               full_log=True, timeout=RUN_TIMEOUT))
z.close()
for line in r.get('log', []):
    print('  ', line)
print({k: r.get(k) for k in ('status', 'signature', 'message', 'digest')})
