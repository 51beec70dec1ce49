"""Assembles /verif/seeded/<id> from a specification: text replacements against /repo's HEAD and a scenario."""
import json, os, shutil, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = os.path.join(ROOT, 'tools', 'demo')

def plant(id, prop, needs, breaks, edits, main, extra=()):
    d = os.path.join(ROOT, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    for f in os.listdir(DEMO): shutil.copy(os.path.join(DEMO, f), d)
    with open(os.path.join(d, 'main.rs'), 'w') as f:
        f.write('mod chain;\nmod rig;\nmod wide;\n#[allow(unused_imports)]\nuse rig::*;\n\nfn main() {\n' + main.strip('\n') + '\n}\n')
    out = ''
    byfile = {}
    for path, old, new in edits:
        src = byfile.get(path) or subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + path], text=True)
        assert src.count(old) == 1, (id, path, src.count(old))
        byfile[path] = src.replace(old, new)
    for path, text in byfile.items():
        t = '/tmp/plant'; shutil.rmtree(t, ignore_errors=True)
        for side, s in (('a', subprocess.check_output(['git', '-C', '/repo', 'show', 'HEAD:' + path], text=True)), ('b', text)):
            p = os.path.join(t, side, path); os.makedirs(os.path.dirname(p)); open(p, 'w').write(s)
        r = subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + path, 'b/' + path], cwd=t, capture_output=True, text=True)
        out += r.stdout
        shutil.rmtree(t)
    open(os.path.join(d, 'patch.diff'), 'w').write(out)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
