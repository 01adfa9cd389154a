"""mkseed.py ID PROP NEEDS BREAKS < demo.c : record /tmp/sr's diff as a planted change."""
import json, os, subprocess, sys
i, prop, needs, breaks = sys.argv[1:5]
d = '/verif/seeded/' + i
os.makedirs(d, exist_ok=True)
df = subprocess.check_output(['git', '-C', '/tmp/sr', 'diff'], text=True)
assert df.strip()
open(d + '/patch.diff', 'w').write(df)
open(d + '/demo.c', 'w').write(sys.stdin.read())
extra = sys.argv[5] if len(sys.argv) > 5 else ''
body = os.environ.get('DEMOSH')
if body:
    open(d + '/demo.sh', 'w').write(open(body).read())
else:
  open(d + '/demo.sh', 'w').write('''#!/bin/bash
# run in the repository after a build
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
gcc -std=gnu99 -O1 -mavx2 -mbmi2 -I"$PWD/include" -I"$PWD/third_party" "$here/demo.c" -o "$t/demo" "$PWD/_build/lib/libfaz_ecc_avx2.a" %s || exit 3
timeout 120 "$t/demo"
''' % extra)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
subprocess.check_call(['git', '-C', '/tmp/sr', 'checkout', '-q', '--', '.'])
