#!/usr/bin/env python3
"""Generates the tables of DESIGN.md (everything after the marker) from
properties.jsonl, the harnesses, known_findings.json and seeded/."""
import json, os, re, glob
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MARK = '<!-- generated below by tools/design.py -->\n'

# What the assertions of each property compare the code with.
ORACLE = {
'C01': "decompress(compress(x)) compared byte by byte with x; counts with the length of the sink",
'C02': "an encoder and a decoder written from the documented format, independent of the code",
'C03': "the same, for the recursive format",
'C04': "a prefix of the output without the fault; errors.Is with the injected error; a run splitter written independently",
'C05': "x itself; gzip is a model (see Models), RLE8 is the real code",
'C06': "the exact mathematical range condition in 128-bit arithmetic; callbacks that fail on any block that does not exist",
'C07': "a flat byte array per cache plus the set of dirty blocks; state before the operation is arbitrary, so the step is inductive",
'C08': "the flat array: contents last written survive every failing transfer, errors.Is with the injected error",
'C09': "the flat array cut or extended with zeros; refused resizes change nothing",
'C10': "the bytes of a seekable stream that delivers what it likes, fails where it likes and stands where it likes",
'C11': "a POSIX-like file: size, position and a byte array, zeros in every gap",
'C12': "the table of what each access mode permits; refused operations change nothing",
'C13': "bytes handed over by the source and bytes accepted by the destination, counted independently",
'C14': "a path normaliser written from the statement, run on symbolic bytes",
'C15': "hlib.MemFS, an in-memory implementation of FileSystemImplementer that checks the contract of every call",
'C16': "MemFS records modifying calls; each is allowed only by its mount flag; an allowed operation must happen",
'C17': "a snapshot of MemFS before and after; exactly the named object appears or disappears",
'C18': "an independent path resolver over MemFS whose link targets are chosen while resolving (lazy links)",
'C19': "the list of all sentinels and messages put into the error; every sentinel not put in must not match",
'C20': "bit tables of the flags",
'C21': "the FAT8 layout written from its description: every byte of the image is compared",
'C22': "the same layout read back; the image is symbolic, in an operating system model (hos)",
'C23': "an independent decoder; all 9-byte names and all strings up to the bound",
'C24': "BPB arithmetic in 128 bits written from the FAT specification; all fields symbolic together",
'C25': "FAT date, time, attribute and name rules written from the specification, all 32-byte entries",
'C26': "hfat.Volume: a volume whose FAT is symbolic and whose sectors record who reads them; a chain walker written independently",
'C27': "hfat.Volume with the order of all changes recorded; the invariant is checked after every single change (crash points)",
'C28': "mode table and inode layout written from the V6 manual",
'C29': "products in 128-bit arithmetic",
'C30': "MemFS's directory, in its order",
'C31': "the embedded CSV, parsed by an independent parser at check time (mcsv replaces the reflection-driven csvutil)",
'C32': "hos: files, pipes and faults of the operating system are symbolic; the commands' main functions are run",
'C33': "MemFS in strict mode: counts handles, fails on use after close and on any call outside the interface's contract",
'C35': "MemFS behind handles and a file system with parts missing: nothing modifies, nothing changes, the error says so",
'C34': "cluster arithmetic and upper-casing written from the statement",
}

def harnesses(i):
    out = []
    for f in sorted(glob.glob('%s/harness/%s/*.go' % (root, i.lower()))):
        s = open(f).read()
        for m in re.finditer(r'((?://[^\n]*\n)*)func (H_\w+)\(\)', s):
            doc = ' '.join(l.lstrip('/ ') for l in m.group(1).splitlines())
            doc = re.sub(r'^%s: ' % m.group(2), '', doc)
            body = s[m.end():]
            body = body[:body.find('\n}\n')]
            b = re.findall(r'sym\.Bound\("([^"]*)", (\d+), (\d+)\)', body)
            if b:
                doc += ' [' + ', '.join('%s %s/%s' % x for x in b) + ']'
            out.append('  - `%s`: %s' % (m.group(2), doc))
    return out

o = ['## Properties, oracles and bounds', '',
     'For each property: what its assertions compare the code with, then its harnesses. Numbers in brackets are the',
     'bounds of the quick/thorough tier; everything else named in a harness is covered in full.', '']
for l in open(root + '/properties.jsonl'):
    p = json.loads(l)
    o.append('- **%s %s.** Oracle: %s.' % (p['id'], p['title'], ORACLE[p['id']]))
    o += harnesses(p['id'])
o += ['', '## Genuine defects found', '',
      'Repaired in /repo by one `fix:` commit each; the check of the property reports the failure again if it returns.', '']
k = json.load(open(root + '/known_findings.json'))
for x in k['fixed']:
    m = re.match(r'fixed: property=(\w+) (\w+) (.*)', x, re.S)
    o.append('- %s `%s` %s' % m.groups())
o.append('')
o.append('Recorded and not repaired: ' + ('; '.join(str(x) for x in k['findings']) if k['findings'] else 'none.'))
o += ['', '## Planted bugs', '',
      'Each was written from the property and the code, confirmed in a scratch copy (builds, 89 tests pass, demonstration',
      'fails), then checked. "Missed at first" names what was strengthened.', '', '| bug | property | caught by `./check` | what it breaks |', '|---|---|---|---|']
missed = json.load(open(root + '/tools/missed.json'))
for f in sorted(glob.glob(root + '/seeded/*/meta.json')):
    i = os.path.basename(os.path.dirname(f))
    d = json.load(open(f))
    o.append('| %s | %s | %s | %s |' % (i, d['property'], missed.get(i, 'yes'), d['what_it_breaks'].replace('|', '/')))
s = open(root + '/DESIGN.md').read()
s = s[:s.find(MARK)] if MARK in s else s
open(root + '/DESIGN.md', 'w').write(s.rstrip('\n') + '\n\n' + MARK + '\n'.join(o) + '\n')
