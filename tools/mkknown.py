"""Writes /verif/KNOWN_FINDINGS.jsonl: the listed findings and the repairs."""
import json, os, subprocess
V = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..'))
KNOWN = [
    dict(status='known', property='P10', clause='HalfBinShift',
         what="converting or writing a map read from a simple format to the GMX_FLOW format moves all coordinates by exactly half a bin (the centre of the first bin is written as its corner); pinned by strata/tests/test_convert.py test_convert_from_simple_to_gmx"),
]
PROP = {  # subject of the fix -> property
    'average() with quiet=True': 'P04', 'average() wrote a header': 'P04', 'recenter_maps truncated': 'P05',
    'gmx reader misplaced': 'P09', 'gmx reader hung': 'P09', 'simple binary maps': 'P10', 'simple reader gave nan': 'P10',
    'simple plain text reader': 'P10', 'contact line analysis with quiet': 'P18', 'contact line sampling always': 'P19',
    'contact line collection could not': 'P18', 'shape of contact line bins': 'P18', 'output headers need': 'P30',
    'sample_per_angle_from put': 'P22', 'sample_per_angle_from dropped': 'P22', 'sampling viscous dissipation reordered': 'P21',
    'default cutoff radius': 'P12', 'get_interface returned wrong cells': 'P13', 'get_contact_angle raised': 'P25',
    'spreading collect wrote no impact': 'P14', 'spreading times did not': 'P14', 'spreading plots used': 'P26',
    'view_spreading required': 'P26', 'spreading files with a single row': 'P26', 'interface collect command': 'P16',
    'interface view could not': 'P24', 'interface layer index': 'P16',
}
EXTRA = {}
if os.path.exists(V + '/tools/extra_fixes.json'):
    EXTRA = json.load(open(V + '/tools/extra_fixes.json'))
PROP.update(EXTRA)
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout.splitlines()
with open(V + '/KNOWN_FINDINGS.jsonl', 'w') as fp:
    for r in KNOWN:
        fp.write(json.dumps(r) + '\n')
    for l in log:
        h, s = l.split(' ', 1)
        if not s.startswith('fix: '):
            continue
        what = s[5:]
        pr = [v for k, v in PROP.items() if what.startswith(k)]
        assert len(pr) == 1, what
        fp.write(json.dumps(dict(status='fixed', property=pr[0], commit=h, what=what,
                                 line='fixed: property=%s %s %s' % (pr[0], h, what))) + '\n')
