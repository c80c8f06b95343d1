import json, collections, sys
rs = [json.loads(l) for l in open('/tmp/mut/results.jsonl')]
print(collections.Counter(r['res'] for r in rs))
seen = set(json.load(open('/tmp/mut/seen.json'))) if len(sys.argv) > 1 and __import__('os').path.exists('/tmp/mut/seen.json') else set()
src = {}
for r in sorted(rs, key=lambda r: (r['file'], int(r['line']))):
    if r.get('bad'): print('BAD', {k: r[k] for k in r if k != 'bad'}, r['bad'][-200:])
    if r['res'] in ('ACCEPTED', 'SURVIVED', 'driver') and r['file'] + r['n'] not in seen:
        s = src.setdefault(r['file'], open('/repo/' + r['file']).read().split('\n'))
        print('%s:%s #%s %s [%s %s]   %s' % (r['file'], r['line'], r['n'], r['what'], r['res'], r.get('diffs', r.get('msg')), s[int(r['line']) - 1].strip()[:110]))
        seen.add(r['file'] + r['n'])
if len(sys.argv) > 1: json.dump(sorted(seen), open('/tmp/mut/seen.json', 'w'))
