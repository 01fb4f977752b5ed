"""mkseed.py ID PROPERTY FILE 'old' 'new' needs breaks: stores a planted change as seeded/ID (patch and meta; demo.c/demo.sh written separately)."""
import sys, os, json, subprocess
i, prop, f, old, new, needs, breaks = sys.argv[1:8]
d = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded', i); os.makedirs(d, exist_ok=True)
p = '/repo/src/' + f
s = open(p).read()
assert s.count(old) == 1, (s.count(old), 'occurrences')
try:
    open(p, 'w').write(s.replace(old, new))
    open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', '/repo', 'diff'], text=True))
finally: open(p, 'w').write(s)
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
if not os.path.exists(d + '/demo.sh'):
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# builds the demonstration against the library in /repo/_build and runs it
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
b=/repo/_build
gcc -O1 -w -pthread -Drestrict=__restrict -DSCOTCH_RENAME -DCOMMON_PTHREAD -DSCOTCH_PTHREAD -DCOMMON_RANDOM_FIXED_SEED \\
  -DSCOTCH_DEBUG_ALL -DCOMMON_FILE_COMPRESS_BZ2 -DCOMMON_FILE_COMPRESS_GZ -DCOMMON_FILE_COMPRESS_LZMA \\
  -I/repo/src/libscotch -I$b/src/libscotch -I$b/src/include "$d/demo.c" -o $t/demo \\
  -L$b/lib -lscotch -lscotcherr -lm -Wl,-rpath,$b/lib || exit 3
cd $t && timeout 120 ./demo
'''); os.chmod(d + '/demo.sh', 0o755)
