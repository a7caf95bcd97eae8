#!/usr/bin/env python3
"""reg.py PNN level technique assumptions: register a check in levels.json and regenerate"""
import json, sys, os, subprocess
d = os.path.dirname(os.path.abspath(__file__))
j = json.load(open(d + '/levels.json'))
j[sys.argv[1]] = sys.argv[2:5]
json.dump(dict(sorted(j.items())), open(d + '/levels.json', 'w'), indent=1)
for f in ('gen_properties.py', 'gen_manifest.py'):
    subprocess.check_call([sys.executable, d + '/' + f])
