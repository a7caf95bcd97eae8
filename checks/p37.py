#!/usr/bin/env python3
"""P37: WAL position and segment arithmetic against PostgreSQL's definition (in-process exploration of the real functions)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import p24

if __name__ == '__main__':
    p24.main('P37', 'p37', 'pure.c',
             'segment sizes 1MB..1GB x 10 timelines x 12 log numbers x segment numbers within a log (all of them, or for small segments in the quick run those at the ends and around powers '
             'of two) x 5 offsets within the segment; ranges of length 0..3 with 3 stop offsets; next segment and ranges of up to 4; name and position syntax',
             ['segment size 1GB, position FFFFFFFD/FFFFFFFE: next segment is in the next log', 'segment size 16MB, range of 3 over a log boundary'])
