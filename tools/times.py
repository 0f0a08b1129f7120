"""Development aid: slowest obligations of the last run.  usage: times.py C17 [n]"""
import json, re, sys
d = json.load(open(f"/verif/evidence/{sys.argv[1]}.json"))
L = [(float(re.search(r'([\d.]+)s', o['detail']).group(1)), o['detail'], o['name']) for o in d['coverage']['obligation_list'] if 's' in o['detail']]
for t, x, n in sorted(L)[::-1][:int(sys.argv[2]) if len(sys.argv) > 2 else 12]:
    print(t, x, n)
