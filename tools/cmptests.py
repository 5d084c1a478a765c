import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=set(json.load(open(sys.argv[1]))['passed'])
print('all-pass' if b<=t else 'FAIL:'+','.join(sorted(b-t)[:4]))
