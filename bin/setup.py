#!/usr/bin/env python3
"""Nothing to build: check that the tools are there and the specifications parse."""
import glob, os, subprocess, sys
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
bad = 0
from concurrent.futures import ThreadPoolExecutor


def parse(f):
    return f, subprocess.run(['java', '-XX:+UseSerialGC', '-cp', CP, 'tla2sany.SANY', os.path.basename(f)], cwd=V + '/spec',
                             stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)


with ThreadPoolExecutor(8) as ex:
    for f, p in ex.map(parse, sorted(glob.glob(V + '/spec/*.tla'))):
        if p.returncode != 0 or 'rror' in p.stdout:
            bad = 1
            print('does not parse:', f)
            print(p.stdout[-2000:])
os.makedirs(V + '/evidence', exist_ok=True)
sys.exit(bad)
