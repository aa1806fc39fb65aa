import json, sys, re, os
n = int(sys.argv[1]) if len(sys.argv) > 1 else 12
w = int(sys.argv[2]) if len(sys.argv) > 2 else 260
if not os.path.exists('/tmp/d.jsonl'):
    sys.exit(0)
seen = {}
for line in open('/tmp/d.jsonl'):
    g, c, m = json.loads(line)
    key = (str(g[0]) if isinstance(g, list) else str(g), re.sub(r'[^A-Za-z ]', '', m)[:45])
    seen.setdefault(key, []).append((g, c, m))
print(len(seen), 'kinds')
for key, val in list(seen.items())[:n]:
    g, c, m = min(val, key=lambda v: len(json.dumps(v[1])))
    m = re.sub(r'\s*\^+\s*', ' ', m).replace('\n', ' | ')
    if len(m) > w:
        m = m[:w // 2] + ' ... ' + m[-w // 2:]
    print(len(val), json.dumps(g)[:80], json.dumps(c)[:160], '\n     ', m)
