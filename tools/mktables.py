#!/usr/bin/env python3-vt
"""Development-time transcription of the published series tables into contracts/tables/*.json.

Run once against the pinned commit (git show BASE:src/x.cc); the checks only ever read the committed JSON files, so the
tables are part of the contracts and do not follow later changes of the source."""
import json, os, re, subprocess, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = '5a27ef6'


def src(f):
    s = subprocess.check_output(['git', '-C', '/repo', 'show', '%s:src/%s.cc' % (BASE, f)]).decode()
    s = re.sub(r'/\*.*?\*/', '', s, flags=re.S)
    return re.sub(r'//[^\n]*', '', s)


def table(s, name):
    m = re.search(r'\b%s(?:\[[^\]]*\])+\s*=?\s*\{' % name, s)
    i = m.end() - 1
    d = 0
    j = i
    while True:
        if s[j] == '{':
            d += 1
        elif s[j] == '}':
            d -= 1
            if d == 0:
                break
        j += 1
    body = s[i:j + 1].replace('{', '[').replace('}', ']')
    # numbers stay decimal strings: the contract reads them exactly
    body = re.sub(r'([-+]?)\s*(\d+\.?\d*(?:[eE][-+]?\d+)?)f?', lambda m: '"%s%s"' % ('-' if m.group(1) == '-' else '', m.group(2)), body)
    body = re.sub(r',\s*\]', ']', body)
    return json.loads(body)


def dump(name, d):
    with open(os.path.join(R, 'contracts/tables', name + '.json'), 'w') as f:
        json.dump(d, f, separators=(',', ':'))
        f.write('\n')
    print(name, {k: len(v) for k, v in d.items()})


def main():
    s = src('nutc')
    dump('nutc', {k: table(s, k) for k in ('fa_coef', 'l_psi', 'o_eps')})
    s = src('epv')
    dump('epv', {k: table(s, k) for k in ('E0', 'E1', 'E2', 'S0', 'S1', 'S2')})
    s = src('rcc')
    dump('rcc', {'fb': table(s, 'fb_coeffs')})
    s = src('evp')
    dump('evp', {k: table(s, k) for k in 'DCFEL DCEPS CCSEL DCARGS CCAMPS CCSEC DCARGM CCAMPM CCPAMV CCPAM'.split()})
    s = src('dmoon')
    dump('dmoon', {k: table(s, k) for k in 'TL ITL TB ITB TP ITP'.split()})
    s = src('moon')
    dump('moon', {k: table(s, k) for k in 'TL ITL TB ITB TP ITP'.split()})
    nut80(src('nutc80'))


def nut80(s):
    base = {'el': [1, 0, 0, 0, 0], 'elp': [0, 1, 0, 0, 0], 'f': [0, 0, 1, 0, 0], 'd': [0, 0, 0, 1, 0], 'om': [0, 0, 0, 0, 1]}

    def name(n):
        m = re.match(r'(elp|el|om|f|d)(\d?)$', n)
        k = int(m.group(2) or 1)
        return [k * x for x in base[m.group(1)]]

    def arg(t):
        v = [0] * 5
        for sg, n in re.findall(r'([-+]?)\s*([a-z]+\d?)', t):
            v = [a + (-b if sg == '-' else b) for a, b in zip(v, name(n))]
        return tuple(v)
    out = {}
    angle = None
    for m in re.finditer(r'(?:double )?angle = ([^;]*);|(dp|de) = (?:dp|de) ([-+]) ([^;]*?)std::(sin|cos)\(([^;]*)\);', s):
        if m.group(1):
            angle = arg(m.group(1))
            continue
        co = m.group(4).strip().rstrip('*').strip()
        sg = '-' if m.group(3) == '-' else ''
        if co == '':
            c = [sg + '1', '0']
        elif co[0] == '(':
            mm = re.match(r'\((-?[\d.]+) ([-+]) ([\d.]+) \* centuries\)', co)
            assert not sg
            c = [mm.group(1), ('-' if mm.group(2) == '-' else '') + mm.group(3)]
        else:
            c = [sg + co, '0']
        a = angle if m.group(6).strip() == 'angle' else arg(m.group(6))
        assert (m.group(2) == 'dp') == (m.group(5) == 'sin')
        k = out.setdefault(a, {'dp': ['0', '0'], 'de': ['0', '0']})
        assert k[m.group(2)] == ['0', '0'], (a, m.group(0))
        k[m.group(2)] = c
    rows = [list(a) + v['dp'] + v['de'] for a, v in out.items()]
    dump('nutc80', {'terms': rows})


main()
