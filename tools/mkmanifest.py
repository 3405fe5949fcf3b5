#!/usr/bin/env python3
"""Regenerate MANIFEST.json from properties.jsonl and contracts/."""
import json, os, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
 'N01': 'needs a multi-process MPI run: mpi4py is not installed, and a contract over one process cannot state the communication between ranks; the serial arithmetic each rank performs is under contract in C01.',
 'N02': 'the round trip passes through the netCDF4/HDF5, GDAL/OGR and csv C libraries; a contract would have to assume exactly the property (that bytes written are bytes read).',
 'N03': 'the regridding is done by ESMF, which is not installed; only an assumed contract on ESMF could state it.',
 'N04': 'the predicates and geometries are computed by GEOS (a C++ library, called through shapely); what ocgis makes of its answers is decided in C16, C22 and C23.',
 'N05': 'the conversion factors are computed by UDUNITS (a C library, through cf_units); ocgis only forwards to it.',
}
props = [json.loads(l) for l in open(os.path.join(V, 'properties.jsonl'))]
have = {os.path.basename(f)[:3].upper() for f in glob.glob(os.path.join(V, 'contracts', 'c[0-9]*.py'))}
import re
def contracts_of(i):
    """(name, level, bound) of every contract in the file, read from its decorators."""
    src = open(os.path.join(V, 'contracts', i.lower() + '.py')).read()
    out = []
    for m in re.finditer(r"^@contract\((.*?)\)\ndef (\w+)", src, re.S | re.M):
        a = m.group(1)
        b = re.search(r"bound=((?:\s*(?:\"[^\"]*\"|'[^']*'))+)", a)
        out.append((m.group(2), 'bounded' if "level='bounded'" in a else 'proved', eval('(%s)' % b.group(1)) if b else None))
    return out
def note(i):
    cs = contracts_of(i)
    pr, bo = [c for c in cs if c[1] == 'proved'], [c for c in cs if c[1] == 'bounded']
    t = ''
    if pr:
        t += 'Proved for all inputs of the stated preconditions (floats as reals, machine integers as mathematical ones, numpy as modelled in engine/): %s. ' % ', '.join(c[0] for c in pr)
    if bo:
        t += 'Bounded stand-ins, not proved: %s. ' % '; '.join('%s (%s)' % (c[0], c[2] or 'sampled inputs') for c in bo)
    t += 'Every contract is also evaluated on sampled inputs against the running code.'
    return ('proof' if pr else 'other'), t
checks, na = [], []
for p in props:
    i = p['id']
    if i in have:
        checks.append(dict(
            property=i, quick_cmd='./check.sh %s quick' % i, thorough_cmd='./check.sh %s thorough' % i,
            technique='contract-based deductive verification: contracts on the real functions, obligations generated by '
                      'symbolic execution of the current source (loop rule, quantified arrays), discharged by z3/cvc5',
            level=note(i)[0], level_note=note(i)[1]))
    else:
        na.append(dict(property=i, reason=NA.get(i, 'no contract built yet')))
json.dump(dict(version=1, setup_cmd='true', checks=checks, not_applicable=na,
               notes='No hooks in /repo are needed: the engine transforms the source on load, in memory.'),
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'claimed', len(na), 'not applicable')
