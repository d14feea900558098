#!/usr/bin/env python3
"""replay.py FILE: runs the inputs of a reported violation against the real code"""
import json
import os
import subprocess
import sys

here = os.path.dirname(os.path.abspath(__file__))
job = json.load(open(sys.argv[1]))
job['id'] = 0
r = subprocess.run(['/opt/venv/bin/python', os.path.join(here, 'symx', 'concrete.py')], input=json.dumps([job]).encode(),
                   capture_output=True)
print(r.stdout.decode(), r.stderr.decode()[-2000:])
res = json.loads(r.stdout.splitlines()[0])
sys.exit(1 if res['status'] in ('fail', 'exception', 'hang') or job.get('kind') == 'loop' and res.get('exc') == 'out of memory' else 0)
