#!/usr/bin/env python3
"""P24: filter results do not depend on how a stream is split into buffers (in-process exploration of the real filters)."""
import os, subprocess, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
from pgb import core


def job(a):
    exe, mode, i, n, deep = a
    p = subprocess.run([exe, mode, str(i), str(n), '1' if deep else '0'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace',
                       env=dict(core.CLEAN_ENV, MALLOC_PERTURB_='85'), timeout=3000 if deep else 500)
    viol, ev = [], 0
    for ln in p.stdout.split('\n'):
        if ln.startswith('V '):
            viol.append((ln[2:], '%s %s %d %d' % (os.path.basename(exe), mode, i, n)))
        elif ln.startswith('N '):
            ev = int(ln.split()[1])
    if p.returncode or not ev:
        viol.append(('%s slice %d/%d ended with %d: %s' % (mode, i, n, p.returncode, p.stdout[-400:]), p.stdout[-3000:]))
    return dict(evals=ev, keys=range(i * 100000000, i * 100000000 + ev), viol=viol)


def main(prop, mode, src, rule, samples, slices=64, assume=(), more=None):
    c = core.Check(prop)
    exe = core.build().harness(src)
    os.chmod(exe, 0o755)
    for r in core.pmap(job, [(exe, mode, i, slices, c.thorough) for i in range(slices)]):
        c.merge(r)
    if more:
        for r in core.pmap(*more):
            c.merge(r)
    c.rule = rule
    for s in samples:
        c.sample(s)
    c.assumptions = list(assume)
    c.finish()


if __name__ == '__main__':
    main('P24', 'p24', 'filt.c',
         'every composition of streams of up to 9 bytes into chunks, and uniform chunkings of longer streams around buffer boundaries, x filter chains x buffer sizes x read and '
         'write side; every text over {letter, newline} up to 7 bytes x every composition for line, small, limited and block reads',
         ['chain hsgneEnGhs (hash, size, gz, size, encrypt, decrypt, size, gunzip, hash, size), 9 bytes as 2+3+1+3, buffer size 3'],
         assume=['page checksum filter needs page-aligned buffers by design and is decided by P31'])
