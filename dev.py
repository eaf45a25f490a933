"""development driver: python3-vt dev.py SUBSTR [prop]"""
import sys, importlib, pkgutil, json
sys.path.insert(0, '/verif')
import obligations
from mfsa.check import *
for m in pkgutil.iter_modules(obligations.__path__):
    importlib.import_module('obligations.' + m.name)
sel = [o for o in OBLIGATIONS if any(s in o.name or s in o.props for s in sys.argv[1].split(','))]
for r in run_all(sel, 'quick', sys.argv[2] if len(sys.argv) > 2 else None):
    st = {}
    for x in r['results']:
        st[x[1]] = st.get(x[1], 0) + 1
    print(r['status'], r['name'], r.get('sizes'), r['seconds'], st, str(r.get('detail', ''))[:200])
    for x in r['results']:
        if x[1] == 'violation':
            print('     ', x[1], x[0], str(x[2])[:700])
    for n in r['notes']:
        print('      note', n[:200])
