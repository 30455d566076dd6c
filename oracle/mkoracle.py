#!/usr/bin/env python3
"""Authoring-time tool (NOT run by any check): freeze the Unicode 15.1.0 data that the
contracts refer to.

Reads the Unicode Character Database JSON files shipped in the repository under
tools/ucd-tool/data/15.1.0 (plus the explicit UAX #44 / UAX #31 derivation formulas below) and
writes /verif/oracle/ucd.json.  The frozen file is committed; the checks only ever read that
file, so a change made to /repo cannot change what the contracts demand.
"""
import json, sys, os
D = sys.argv[1] if len(sys.argv) > 1 else '/repo/tools/ucd-tool/data/15.1.0/'
N = 0x110000
L = lambda f: json.load(open(os.path.join(D, f)))
def rng(k):
    a = k.split('..'); return int(a[0], 16), int(a[-1], 16)
def fill(dft):
    return [dft] * N
def setr(arr, k, v):
    a, b = rng(k)
    for i in range(a, b + 1): arr[i] = v
PVA = L('PropertyValueAliases.json')
inv = lambda p: {v: k for k, v in PVA[p].items()}
enum = {}
# --- enumerated properties: abbreviated value alias per code point
def simple(name, file, dft, conv):
    a = fill(dft)
    for k, v in L(file).items(): setr(a, k, conv(v))
    enum[name] = a
simple('gc', 'extracted/DerivedGeneralCategory.json', 'Cn', lambda v: v)
i = inv('bc')
a = fill('L')
for k, v in L('extracted/DerivedBidiClass.missing.json').items(): setr(a, k, i[v])
for k, v in L('extracted/DerivedBidiClass.json').items(): setr(a, k, v)
enum['bc'] = a
simple('ccc', 'extracted/DerivedCombiningClass.json', '0', lambda v: v)
i_dt = inv('dt'); simple('dt', 'extracted/DerivedDecompositionType.json', i_dt['None'], lambda v: i_dt[v])
i_gcb = inv('GCB'); simple('gcb', 'auxiliary/GraphemeBreakProperty.json', i_gcb['Other'], lambda v: i_gcb[v])
i_wb = inv('WB'); simple('wb', 'auxiliary/WordBreakProperty.json', i_wb['Other'], lambda v: i_wb[v])
simple('hst', 'HangulSyllableType.json', 'NA', lambda v: v)
i_insc = inv('InSC'); simple('insc', 'IndicSyllabicCategory.json', 'Other', lambda v: i_insc[v])
norm = lambda s: s.replace(' ', '').replace('-', '').replace('_', '').upper()
i_blk = {norm(v): k for k, v in PVA['blk'].items()}
simple('blk', 'Blocks.json', 'NB', lambda v: i_blk[norm(v)])
i_sc = inv('sc'); simple('sc', 'Scripts.json', 'Zzzz', lambda v: i_sc[v])
simple('age', 'DerivedAge.json', 'NA', lambda v: v)
# --- binary properties
PA = {v: k for k, v in L('PropertyAliases.json').items()}
binp = {}
def bset(ranges):
    a = bytearray(N)
    for k in ranges:
        x, y = rng(k)
        for i in range(x, y + 1): a[i] = 1
    return a
for f in ('PropList.json', 'emoji/emoji-data.json'):
    for k, v in L(f).items(): binp[PA[k]] = bset(v)
binp['CE'] = bset(L('CompositionExclusions.json'))
binp['Comp_Ex'] = bset(L('DerivedNormalizationProps.json')['Full_Composition_Exclusion'])
# --- derived properties, UAX #44 DerivedCoreProperties formulas
g = enum['gc']
def der(name, f): binp[name] = bytearray(1 if f(c) else 0 for c in range(N))
B = binp
der('Math', lambda c: g[c] == 'Sm' or B['OMath'][c])
der('Lower', lambda c: g[c] == 'Ll' or B['OLower'][c])
der('Upper', lambda c: g[c] == 'Lu' or B['OUpper'][c])
der('Alpha', lambda c: B['Upper'][c] or B['Lower'][c] or g[c] in ('Lt', 'Lm', 'Lo', 'Nl') or B['OAlpha'][c])
der('Cased', lambda c: B['Lower'][c] or B['Upper'][c] or g[c] == 'Lt')
der('CI', lambda c: enum['wb'][c] in ('ML', 'MB', 'SQ') or g[c] in ('Mn', 'Me', 'Cf', 'Lm', 'Sk'))
der('IDS', lambda c: (g[c] in ('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl') or B['OIDS'][c]) and not B['Pat_Syn'][c] and not B['Pat_WS'][c])
der('IDC', lambda c: (B['IDS'][c] or g[c] in ('Mn', 'Mc', 'Nd', 'Pc') or B['OIDC'][c]) and not B['Pat_Syn'][c] and not B['Pat_WS'][c])
der('DI', lambda c: (B['ODI'][c] or g[c] == 'Cf' or B['VS'][c]) and not B['WSpace'][c]
    and not 0xFFF9 <= c <= 0xFFFB and not 0x13430 <= c <= 0x13440 and not B['PCM'][c])
der('Gr_Ext', lambda c: g[c] in ('Me', 'Mn') or B['OGr_Ext'][c])
# --- InCB, UAX #44 15.1 derivation.  Extend = [gcb=Extend & ccc!=0] + ZWJ minus every character whose
# Indic_Syllabic_Category is Virama or Consonant, of whatever script (DerivedCoreProperties-15.1.0.txt does
# not list e.g. U+0BCD or U+0A4D; later Unicode versions do).
S6 = ('Beng', 'Deva', 'Gujr', 'Mlym', 'Orya', 'Telu')
a = fill('None')
for c in range(N):
    if enum['sc'][c] in S6 and enum['insc'][c] == 'Virama': a[c] = 'Linker'
    elif enum['sc'][c] in S6 and enum['insc'][c] == 'Consonant': a[c] = 'Consonant'
    elif ((enum['gcb'][c] == 'EX' and enum['ccc'][c] != '0') or enum['gcb'][c] == 'ZWJ') and enum['insc'][c] not in ('Virama', 'Consonant'): a[c] = 'Extend'
enum['incb'] = a
# --- decomposition mappings (UnicodeData) + Hangul arithmetic
dm = {}
for k, v in L('UnicodeData.json').items():
    d = v['dm']
    if d:
        if d.startswith('<'): d = d[d.index('> ') + 2:]
        dm[int(k.split('..')[0], 16)] = [int(x, 16) for x in d.split()]
for s in range(11172):
    c = 0xAC00 + s
    dm[c] = [0x1100 + s // 588, 0x1161 + (s % 588) // 28] if s % 28 == 0 else [c - s % 28, 0x11A7 + s % 28]
# --- XIDS / XIDC : UAX #31 NFKx closure, computed from the definition
def fullk(c):
    out = []
    st = [c]
    while st:
        x = st.pop()
        if x in dm: st.extend(reversed(dm[x]))
        else: out.append(x)
    # canonical ordering
    ch = True
    while ch:
        ch = False
        for k in range(len(out) - 1):
            if int(enum['ccc'][out[k]]) > int(enum['ccc'][out[k + 1]]) > 0:
                out[k], out[k + 1] = out[k + 1], out[k]; ch = True
    return out
full = bytearray(N)
# XID_Start/XID_Continue: remove code points whose NFKx form is not an identifier (to a fixpoint)
xs, xc = bytearray(B['IDS']), bytearray(B['IDC'])
fk = {c: fullk(c) for c in dm if not 0xAC00 <= c <= 0xD7A3}
# UAX #31 sec. 5.1.  X is dropped from XID_Continue if NFKx(X) is not all XID_Continue, and from
# XID_Start if NFKx(X) is not an identifier, or X = first char breaks closure in context.
chg = True
while chg:
    chg = False
    for c, d in fk.items():
        if xc[c] and not all(xc[x] for x in d): xc[c] = 0; chg = True
        if xs[c] and not (xs[d[0]] and all(xc[x] for x in d)): xs[c] = 0; chg = True
        if xs[c] and not xc[c]: xs[c] = 0; chg = True
binp['XIDS'] = xs; binp['XIDC'] = xc
# --- names: the listed ones, the NR2 ranges, and the Jamo short names for NR1 (Jamo.txt)
names = []; nr2 = []; hang = {}
for k, v in L('extracted/DerivedName.json').items():
    a, b = rng(k)
    if v.endswith('*'): nr2.append([a, b, v[:-1]])
    elif 0xAC00 <= a <= 0xD7A3: hang[a] = v
    else:
        assert a == b; names.append([a, v])
names.sort(); nr2.sort()
JL = 'G GG N D DD R M B BB S SS - J JJ C K T P H'.replace('-', '').split(' ')
JV = 'A AE YA YAE EO E YEO YE O WA WAE OE YO U WEO WE WI YU EU YI I'.split(' ')
JT = '- G GG GS N NJ NH D L LG LM LB LS LT LP LH M B BS S SS NG J C K T P H'.replace('-', '').split(' ')
assert (len(JL), len(JV), len(JT)) == (19, 21, 28)
for c, v in hang.items():
    i = c - 0xAC00
    assert v == 'HANGUL SYLLABLE ' + JL[i // 588] + JV[i % 588 // 28] + JT[i % 28], (c, v)
def enc(arr):
    out = []; s = 0
    for c in range(1, N + 1):
        if c == N or arr[c] != arr[s]:
            out.append([s, c - 1, arr[s]]); s = c
    return out
out = {
  'version': '15.1.0',
  'enum': {k: enc(v) for k, v in enum.items()},
  'bin': {k: [[x, y] for x, y, t in enc(v) if t] for k, v in sorted(binp.items())},
  'dm': [[c, dm[c]] for c in sorted(dm) if not 0xAC00 <= c <= 0xD7A3],
  'na': names, 'nr2': nr2, 'jamo': [JL, JV, JT],
  'aliases': {p: PVA[q] for p, q in dict(gc='gc', bc='bc', ccc='ccc', dt='dt', gcb='GCB', wb='WB', hst='hst',
        insc='InSC', incb='InCB', blk='blk', sc='sc', age='age', binary='Alpha').items()},
}
if __name__ == '__main__':
    json.dump(out, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'ucd.json'), 'w'), separators=(',', ':'))
