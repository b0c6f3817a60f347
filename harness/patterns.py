"""Patterns: every small one and random big ones, specification against code."""
import json
import os
import random
import shutil

import common
from common import SEED, THOROUGH, dec, enc

NUMBERS = ['', '1', '2', '12', '21', '3', '9', '0', 'a', '1a', '-', '1-2', '123', '*', '#', '[', ']', 'a1',
           '!', '.', 'X', 'i', '+5', '22', 'N5', '-1', '1234', '2x', 'n', 'Z']
OTHERS = ['_X.', '_X!', '1', '_1', '_[12]', '_[1-3]', '_[13]', '_.', '_!', '_XX', '12', '_a', '_N', '_[2-9]',
          '_Z', '_[0-9]', '_[1-2]X', '_1.', '_1!']
# what each property looks at
FIELDS = {
    'C10': ('order',), 'C11': ('valid', 'canon', 'iscanon'),
    'C12': ('valid', 'acc', 'example', 'selfmatch')}
INVARIANTS = {
    'C10': 'OrderTotal', 'C11': 'CanonSound CanonUnique', 'C12': 'ValidAgree MeaningAgree ExampleOk'}


def specify(check, inp, init, alphabet='A', maxlen=1):
    """The records that TLC prints for the patterns, invariants checked."""
    tmp = common.scratch()
    try:
        path = os.path.join(tmp, 'pat.json')
        with open(path, 'w') as fp:
            json.dump(inp, fp)
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Alphabet <- Alpha{}\n MaxLen = {}\nINIT {}\nNEXT {}\nCHECK_DEADLOCK FALSE\nVIEW View\n'
                     'INVARIANTS {} Printed\n'.format(
                         alphabet, maxlen, init, 'Next' if init == 'Init' else 'NextGiven', INVARIANTS[check.prop]))
        out, st = common.tlc('MC_Pattern', cfg, env={'PAT_INPUT': path}, workers=8, heap='6g', timeout=3000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    return common.tagged(out, 'PAT')


def compare(check, inp, recs, chunk=4000):
    """The same facts, from the real code."""
    numbers, others = inp['numbers'], inp['others']
    fields = FIELDS[check.prop]
    jobs = []
    for lo in range(0, len(recs), chunk):
        part = recs[lo:lo + chunk]
        n = len(part)
        jobs.append({
            'id': len(jobs), 'kind': 'pattern', 'pats': [r['raw'] for r in part] + others,
            'accepts': [[i, num] for i in range(n) if part[i]['valid'] for num in numbers]
            if 'acc' in fields else [],
            'pairs': [[i, n + j] for i in range(n) if part[i]['valid'] for j in range(len(others))]
            if 'order' in fields else []})
    results = common.run_jobs(jobs, timeout=300)
    check.count('traces_validated_against_impl', len(recs))
    for job in jobs:
        part = recs[job['id'] * chunk:(job['id'] + 1) * chunk]
        res = results[job['id']]
        if 'out' not in res:
            check.violation('patterns: {}'.format(res), {'kind': 'pattern', 'job': job['id']})
            continue
        out = res['out']
        acc, order = iter(out['accepts']), iter(out['order'])
        for i, rec in enumerate(part):
            got = out['pats'][i]
            exp = dict(rec, selfmatch=True)
            if rec['valid']:
                if 'acc' in fields:
                    got['acc'] = [k + 1 for k in range(len(numbers)) if next(acc) is True]
                if 'order' in fields:
                    got['order'] = [rank(next(order), k) for k in rec['order']]
                if '[-]' in dec(rec['raw']).replace('--', '-'):
                    exp['selfmatch'] = got.get('selfmatch')     # only a dash: accepts nothing
            for field in fields:
                if field != 'valid' and not rec['valid']:
                    continue
                if got.get(field) != exp[field] or got.get('crash'):
                    check.violation('pattern {!r}: {} is {} and should be {}{}'.format(
                        dec(rec['raw']), field, shown(field, got.get(field), inp), shown(field, exp[field], inp),
                        ' ({})'.format(got['crash']) if got.get('crash') else ''),
                        {'kind': 'pattern', 'pattern': dec(rec['raw']), 'numbers': [dec(i) for i in numbers],
                         'others': [dec(i) for i in others], 'expected': exp, 'observed': got})


def rank(got, expected):
    """0 equal, 1 less, 2 greater, 9 the other one is not valid."""
    if expected == 9:
        return 9
    for value, row in ((0, [False, False, True, False, True]), (1, [True, False, False, True]),
                       (2, [False, True, False, False])):
        if isinstance(got, list) and got[:len(row)] == row:
            return value
    return got


def shown(field, value, inp):
    if field in ('canon', 'example') and isinstance(value, list):
        return repr(bytes(value))
    if field == 'acc' and isinstance(value, list):
        return [dec(inp['numbers'][i - 1]) for i in value]
    return value


def small_patterns(check):
    """Every pattern up to a length over three alphabets."""
    inp = {'pats': [], 'numbers': [enc(i) for i in NUMBERS], 'others': [enc(i) for i in OTHERS]}
    if check.prop != 'C12':
        inp['numbers'] = inp['numbers'][:12]
    if check.prop == 'C12':
        inp['others'] = []
    sizes = {'A': 5, 'B': 5, 'C': 5} if THOROUGH else {'A': 3, 'B': 4, 'C': 3}
    done = 0
    for alphabet, maxlen in sorted(sizes.items()):
        recs = specify(check, inp, 'Init', alphabet, maxlen)
        compare(check, inp, recs)
        done += len(recs)
    check.count('evaluations', done)
    check.count('distinct_nontrivial', done)
    check.coverage['small_scope'] = 'every pattern of up to {} characters over the alphabets of MC_Pattern'.format(
        sizes)


PIECES = ['X', 'x', 'Z', 'z', 'N', 'n', '.', '!', '-', '*', '#', '+', '0', '1', '2', '5', '9', 'a', 'e', 's', 'A',
          '[1-5]', '[0-9]', '[2-9]', '[1-9]', '[0-8]', '[13579]', '[a-f]', '[A-Fa-f]', '[0-9a-z]', '[*#]', '[5-1]',
          '[0-9-]', '[-0-9]', '[+0-9]', '[12]', '[123]', '[1234]', '[n]', '[x]', '[.]', '[!]', '[1-13-3]', '[12-46]',
          '[0-35-9]', '[zn]', '[Xx]', '[a]', '[01]', '[0-1]', '[1-35]', '[9-97]', '[0-24-6]', '[#-+]', '[*-9]']


def random_pattern(rng):
    n = rng.choice((1, 2, 3, 4, 5, 6, 8))
    text = ''
    for _ in range(n):
        kind = rng.random()
        if kind < .8:
            text += rng.choice(PIECES)
        else:
            text += '[' + ''.join(rng.choice('0123456789-abcnxzXNZ*#+.!') for _ in range(rng.choice((1, 2, 3, 5, 8)))) + ']'
    if rng.random() < .12:
        text = text[:rng.randint(1, len(text))]     # cut in a set, sometimes
    return ('_' if rng.random() < .85 else '') + text


def number_for(rng, pat):
    """Something near what the pattern means."""
    out = ''
    i = 1 if pat[0] == '_' else 0
    while i < len(pat):
        c = pat[i]
        if c == '[' and pat[0] == '_' and ']' in pat[i:]:
            j = pat.index(']', i)
            out += rng.choice(pat[i + 1:j] or '0') if rng.random() < .7 else rng.choice('0123456789abz')
            i = j
        elif c in '.!' and pat[0] == '_':
            out += rng.choice(('', '0', '12', 'a'))
        elif c in 'XZNxzn' and pat[0] == '_':
            out += rng.choice('0123456789')
        else:
            out += c
        i += 1
    if rng.random() < .3 and out:
        k = rng.randrange(len(out))
        out = out[:k] + rng.choice(('', '-', '1', out[k] + out[k])) + out[k + 1:]
    return out


def random_patterns(check):
    """Random longer patterns, against each other and numbers near them."""
    rng = random.Random('pat-{}-{}'.format(check.prop, SEED))
    rounds, size = (40, 150) if THOROUGH else (2, 120)
    for _ in range(rounds):
        pats = sorted({random_pattern(rng) for _ in range(size)})
        inp = {'pats': [enc(i) for i in pats], 'numbers': [], 'others': []}
        if check.prop == 'C12':
            inp['numbers'] = [enc(i) for i in sorted({number_for(rng, rng.choice(pats)) for _ in range(80)})]
        else:
            inp['others'] = [enc(i) for i in rng.sample(pats, 25)]
            inp['numbers'] = [enc(number_for(rng, rng.choice(pats))) for _ in range(30)]
        given(check, inp)
    # short ranges everywhere
    chars = [chr(i) for i in range(33, 127)]
    pats = ['_[%s-%s]' % (a, b) for n in range(1, 5) for a, b in zip(chars, chars[n:])]
    pats += ['_[%s]' % ''.join(chars[i:i + n]) for n in range(2, 5) for i in range(len(chars) - n + 1)]
    given(check, {'pats': [enc(i) for i in pats], 'numbers': [enc(i) for i in chars] if check.prop == 'C12' else [],
                  'others': [enc(i) for i in OTHERS[:8]] if check.prop == 'C10' else []})


def given(check, inp):
    recs = specify(check, inp, 'InitGiven')
    compare(check, inp, recs)
    check.count('evaluations', len(recs))
    check.count('distinct_nontrivial', len(recs))
