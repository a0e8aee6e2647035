"""record.py REPLAY NAME 'what failed' [commit]: keep a shrunk replay as a regression case and list the fix"""
import json, os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
replay, name, what = sys.argv[1:4]
commit = sys.argv[4] if len(sys.argv) > 4 else subprocess.check_output(['git', '-C', '/repo', 'log', '-1', '--format=%h'], text=True).strip()
d = json.load(open(replay))
out = os.path.join(V, 'regress', d['property'], f"{d['check']}-{name}.json")
os.makedirs(os.path.dirname(out), exist_ok=True)
json.dump(d, open(out, 'w'), indent=1); open(out, 'a').write('\n')
with open(os.path.join(V, 'known_findings.jsonl'), 'a') as f:
    f.write(json.dumps({'property': d['property'], 'kind': 'fixed', 'check': d['check'], 'commit': commit,
                        'what': f"fixed: property={d['property']} {commit} {what}"}) + '\n')
