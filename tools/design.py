#!/usr/bin/env python3
"""Writes the per-property part of DESIGN.md (between the two markers) from props.py, registry.py, the oracles below and
the last evidence (cost).  python3 tools/design.py"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import props, registry
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ORACLE = {
'C01': 'a reference block: an ordered map of (value, description) in the root; a view is (root, prefix). After every operation every block of the run is asked for every key (value, default, presence, description), its key list and its printout',
'C02': 'the same reference map with a set of frozen keys; every call is predicted to succeed or to raise the documented exception, and nothing else may change',
'C03': 'the value stored must be the value read (bit-exact for floating point); texts are converted by independent strtoll/strtod/word-list code; unconvertible texts must raise the cast exception',
'C04': 'an interpreter of the documented file format (config_model.h), written from the documentation, yielding entries, read-only marks, defining file:line, or the class of error',
'C05': 'the configuration itself: what is read back must be equal entry by entry (values trimmed), a second write must be byte-identical',
'C06': 'a reference search order built from the documentation, applied to the layout that was put on disk; also the list of directories reported',
'C07': 'return without exception <=> the complete file is on disk (byte-compared with an unconstrained write)',
'C08': 'the camera written; truncated or corrupted files must either raise or give the values a strict column reader gets, never something made up; ASan',
'C09': 'the landmark map; header permutations are predicted by a small PLY reader',
'C10': 'the track set; corrupted files are judged by a strict line-by-line reader',
'C11': 'tracks as plain vectors of (frame, id), sets as plain sets; every query is a set comprehension over them',
'C12': 'an image is a function from (i,j,k) to an address; a memory block is an array of bytes with a reference count. Every pixel, every pointer, and the ownership is compared after every operation',
'C13': 'the order by domain/time/frame as documented, computed on optionals; exact integer arithmetic for conversions',
'C14': 'the pinhole + Brown model in long double; Newton iteration on the reference model for undistortion',
'C15': 'Rodrigues formula and 3x3 products in long double',
'C16': 'exact integer determinants and cofactors; residuals of the defining equations (x2 F x1, trace condition, ...) and singular values from a Jacobi iteration',
'C17': 'field-by-field definitions on plain structs',
'C18': 'a map (interface, name) -> instance in registration order; the documented nested-configuration protocol',
'C19': 'the documented search order and module protocol applied to the directory contents of the run',
'C20': 'no data race (vector clocks), no deadlock, same logger for the same name, every message exactly once and unmixed, levels obeyed in happens-before order',
'C21': 'a reference formatter; the clock is replaced (wrapped) by the enumerated instants',
'C22': 'no data race, one instance, every module loaded exactly once before any call returns',
'C23': 'no data race and every thread gets exactly what it gets alone',
'C24': 'per handle the number of references the documentation gives it; after a history the C++ objects must be alive or dead accordingly and the number of allocated bytes must be what it was; ASan for reuse',
'C25': 'the C++ operation itself, applied to a mirror object',
'C26': 'the pairing a wrapper is documented to hand to its implementation, computed directly; a recording implementation',
'C27': 'the dense matrix; splitting by a character loop',
'K01': 'component lists with the usual climbing rules, and the real file system (stat, realpath) for everything that touches it',
'K02': 'an independent parser and backtracking matcher giving match, extent and every group (leftmost, greedy in the order of the engine\'s documentation)',
'K03': 'a reference parser over the same declarations predicting every variable, callback, position and the result',
'K04': 'RFC 4648 / RFC 1321 / Unicode definitions written out in the harness',
'K05': 'a model of the pipeline: what each program writes and reads, who is asked to start, exit codes, output per pipe, the time budget; after every run: no child, no descriptor, no allocation, no signal handler left behind',
'K06': 'std::multimap / map / set plus the address of every element (references must stay valid as documented)',
'K07': 'a snapshot (kind, bytes, mode, times, link text) of everything in the scratch directory before and after: what must have changed has, nothing else did, true <=> the documented effect holds',
'K08': 'character-by-character definitions',
'K09': 'the values the served files, limits and call results were made from; the handlers and descriptors found before',
'K10': 'the table of marks applied to the bytes of the stream; the documented colour sequences around the text formatted by snprintf',
'K11': 'a model of which pointer owns which object; every object counts its own deletions',
'K13': 'the search, layout, path and argument rules computed from the case; the record of the replaced process, and a real program that prints what it saw',
'K12': 'a model of open handles; the libraries count their own calls, the dynamic linker is asked what is loaded',
'C29': 'the arguments and the documented class hierarchy',
'C30': 'the modules put into the directories and the configuration they are compiled with',
'C28': 'the difference of the clock values set by the harness; the path under which the program or library was put on disk',
}
out = []
for p in props.PROPS:
    i = p['id']; c = registry.CHECKS.get(i)
    out.append('### %s — %s\n' % (i, p['title']))
    if not c:
        out.append('Not claimed: %s\n' % registry.NA.get(i, 'no check')); continue
    cost = ''
    try:
        e = json.load(open('%s/evidence/%s.json' % (ROOT, i)))
        if e['tier'] == 'quick' and not e['violations']:
            g = e['coverage']; cost = 'quick about %d s on 8 idle cores incl. the build (%s executions, %s distinct states, %s steps)' % (round(e['wall_s']), format(g['traces_validated_against_impl'], ','), format(g['states'], ','), format(g['transitions'], ','))
    except (OSError, KeyError): pass
    out.append('* **Method:** %s.' % c['technique'])
    out.append('* **Oracle:** %s.' % ORACLE[i])
    out.append('* **Bounds:** %s.' % c['bounds'])
    out.append('* **Limits:** %s' % c['note'])
    if cost: out.append('* **Cost:** %s.' % cost)
    out.append('* **Why tests cannot:** %s\n' % p['why_tests_cant'])
f = ROOT + '/DESIGN.md'; s = open(f).read()
a, b = '<!-- checks:begin -->\n', '<!-- checks:end -->'
s = s[:s.index(a) + len(a)] + '\n'.join(out) + s[s.index(b):]
open(f, 'w').write(s)
# planted bugs
NOTES = {}
exec(open(ROOT + '/tools/seed_notes.py').read()) if os.path.exists(ROOT + '/tools/seed_notes.py') else None
rows = ['| id | property | what it needs | caught by |', '|---|---|---|---|']
sd = ROOT + '/seeded'
for i in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open('%s/%s/meta.json' % (sd, i)))
    rows.append('| %s | %s | %s | %s |' % (i, m['property'], m['needs'].replace('|', '/'), NOTES.get(i, 'check of ' + m['property'])))
s = open(f).read(); a, b = '<!-- seeds:begin -->\n', '<!-- seeds:end -->'
s = s[:s.index(a) + len(a)] + '\n'.join(rows) + '\n' + s[s.index(b):]
open(f, 'w').write(s)
