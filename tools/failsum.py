"""Summary of the last run's failures: python3 tools/failsum.py P03"""
import json,re,collections,sys
fs=json.load(open('/verif/.build/fails-%s.json'%sys.argv[1]))
c=collections.OrderedDict()
for f in fs:
    c.setdefault(re.sub(r':i\d+.*','',f['key']),[]).append(f)
for k,v in c.items(): print(len(v),k, sorted(set(x['key'].split(':i')[1] if ':i' in x['key'] else '' for x in v)),'|', v[0].get('detail','')[-170:])
