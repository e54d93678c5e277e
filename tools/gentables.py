#!/usr/bin/env python3
"""Generated spec/BKTables.tla once from the tables of the pinned sources
(kernels, tone tables). The result is committed: the specification keeps the
values the library had at the pinned commit and does not follow later edits."""
import re, sys
src = sys.argv[1]
buf = open(src + '/BKBuffer.c').read()
tone = open(src + '/BKTone.c').read()
def kernel(name):
    m = re.search(r'%s = \{ \.frames =\n\{\n(.*?)\n\}\};' % name, buf, re.S)
    rows = [[int(v) for v in re.findall(r'-?\d+', l)] for l in m.group(1).splitlines()]
    assert len(rows) == 32 and all(len(r) == 32 for r in rows)
    return rows
def table(name):
    m = re.search(r'%s \[.*?=\s*\{(.*?)\};' % name, tone, re.S)
    return [int(v) for v in re.findall(r'\d+', m.group(1))]
def seq(r): return '<<' + ', '.join(map(str, r)) + '>>'
def mat(rows): return '<<\n  ' + ',\n  '.join(seq(r) for r in rows) + '\n>>'
MAV = 32767
out = ['------------------------------ MODULE BKTables ------------------------------',
'(* Tables of the pinned sources: band-limited step kernels, indexed by the   *)',
'(* 5 bit sub-sample phase, and the tone tables (written by gentables.py).    *)',
'',
'EXTENDS Integers', '', 'KernelSinc == ' + mat(kernel('BKBufferStepPhasesSinc')), '',
'KernelHarm == ' + mat(kernel('BKBufferStepPhasesHarm')), '',
'TonePeriods == ' + seq(table('tonePeriods')), '',
'Log2Periods == ' + seq(table('log2Periods')), '',
'=============================================================================']
open(sys.argv[2], 'w').write('\n'.join(out) + '\n')
