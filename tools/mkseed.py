"""Helper for planting bugs:  seed(id, prop, [(file, old, new), ...], needs, breaks, demo_cxx, libs=..., kwsys=False)
writes /verif/seeded/<id>/ from text replacements against /repo's HEAD.  try_seed.sh confirms it."""
import os, subprocess, tempfile, json, shutil
R = '/repo'; S = '/verif/seeded'
SH = '''#!/bin/bash
# exit 0: behaves as specified; nonzero: broken
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXXXX); trap 'rm -rf -- "$W"' EXIT
export HOME=$W LC_ALL=C.UTF-8; unset KWIVER_CONFIG_PATH KWIVER_PLUGIN_PATH VITAL_LOGGER_FACTORY
R=$PWD
%s
g++ -std=c++14 -w -O1 %s "$D/demo.cxx" -o "$W/demo" %s || exit 3
cd "$W" && timeout -k 5 120 %s ./demo
'''
VINC = '-I"$R" -I"$R/_build" -I"$R/_build/vital" -I"$R/_build/vital/kwiversys" -isystem /usr/include/eigen3'
def seed(id, prop, edits, needs, breaks, demo, libs=('vital', 'vital_config', 'vital_logger', 'kwiversys'), kwsys=False, pre='', inc='', run='', extra=()):
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp(prefix='mkseed'); diff = b''
    byf = {}
    for f, a, b in edits: byf.setdefault(f, []).append((a, b))
    for f, l in sorted(byf.items()):
        s = open(os.path.join(R, f), newline='').read(); n = s
        for a, b in l:
            assert n.count(a) == 1, (id, f, n.count(a), a)
            n = n.replace(a, b)
        for side, txt in (('a', s), ('b', n)):
            p = os.path.join(t, side, f); os.makedirs(os.path.dirname(p), exist_ok=True); open(p, 'w', newline='').write(txt)
        diff += subprocess.run(['git', 'diff', '--no-index', '--no-prefix', 'a/' + f, 'b/' + f], cwd=t, stdout=subprocess.PIPE).stdout
    open(os.path.join(d, 'patch.diff'), 'wb').write(diff); shutil.rmtree(t)
    if kwsys:
        cinc = '-I"$R/_build_kwsys" -I"$R/vital/kwiversys"'; cl = ' '.join('-l' + x for x in libs); ld = '-L"$R/_build_kwsys" -Wl,-rpath,"$R/_build_kwsys" %s -lpthread -ldl' % cl
    else:
        cinc = VINC; cl = ' '.join('-l' + x for x in libs); ld = '-L"$R/_build/lib" -Wl,-rpath,"$R/_build/lib" %s -lpthread -ldl' % cl
    open(os.path.join(d, 'demo.sh'), 'w').write(SH % (pre, cinc + ' ' + inc, ld, run)); os.chmod(os.path.join(d, 'demo.sh'), 0o755)
    open(os.path.join(d, 'demo.cxx'), 'w').write(demo.lstrip('\n'))
    for name, txt in extra: open(os.path.join(d, name), 'w').write(txt)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)
    print('wrote', id)
