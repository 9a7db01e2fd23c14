"""mk(id, prop, needs, breaks, edits=[(file, old, new)], demo=TypeScript body); run with /repo clean"""
import json, os, shutil, subprocess
T = os.path.join(os.path.dirname(os.path.abspath(__file__)), "seedts")
def mk(id, prop, needs, breaks, edits, demo, kit="seedts"):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    try:
        for f, o, n in edits:
            p = '/repo/' + f; s = open(p).read()
            assert s.count(o) == 1, (id, f, s.count(o), o)
            open(p, 'w').write(s.replace(o, n))
        diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    finally:
        subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    K = os.path.join(os.path.dirname(T), kit)
    for f in sorted(os.listdir(K)):
        if f != "pre.ts": shutil.copy(os.path.join(K, f), d)
    open(d + '/demo.ts', 'w').write(open(os.path.join(K, "pre.ts")).read() + demo + "\n")
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(d + '/meta.json', 'w'), indent=1)
