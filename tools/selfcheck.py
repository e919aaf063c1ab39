"""setup: parse every specification and make sure the tools are there (nothing is kept between runs)"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib  # noqa: E402

bad = 0
for f in sorted(os.listdir(vlib.SPEC)):
    if f.endswith('.tla'):
        p = subprocess.run(['java', '-cp', vlib.JAR + ':' + vlib.tlc_classpath(), 'tla2sany.SANY', f], cwd=vlib.SPEC,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        o = p.stdout.decode()
        if p.returncode != 0 or 'error' in o.lower():
            bad += 1
            print(f, o[-1500:])
print('specifications parsed, %d bad' % bad)
sys.exit(1 if bad else 0)
