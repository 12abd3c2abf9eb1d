"""One-off helper: apply statement edits to properties.jsonl.  usage: props_edit.py edits.json ({id: {key: value}})"""
import json, sys
ed = json.load(open(sys.argv[1]))
out = []
for l in open('properties.jsonl'):
    p = json.loads(l)
    for k, v in ed.get(p['id'], {}).items():
        if k == "quant": p['quantifier']['text'] = v
        else: p[k] = v
    out.append(json.dumps(p, ensure_ascii=False))
open('properties.jsonl', 'w').write("\n".join(out) + "\n")
