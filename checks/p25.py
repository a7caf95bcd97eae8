#!/usr/bin/env python3
"""P25: truncated or damaged compressed or encrypted streams are rejected (in-process exploration of the real decoders)."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import p24

if __name__ == '__main__':
    p24.main('P25', 'p25', 'filt.c',
             'every truncation length (stride for long streams), every byte changed in three ways, and extensions, of streams of each compressor/cipher x raw x sizes x buffer '
             'sizes x read and write side',
             ['gz stream of 100 text bytes cut to each of its lengths, read with 64 and 1000 byte buffers'],
             assume=['zst, raw and cipher formats carry no check of their own: only truncation must be detected there'])
