"""C24: how commands are found and run; spec/Dispatch.tla against the program."""
import ast
import json
import os
import random
import re
import shutil
from concurrent.futures import ThreadPoolExecutor

import commands
import common
from common import SEED, THOROUGH

DOC = 'Does a thing or two.'
LONG = ('Does a great many things, one after another, in an order that it makes up as it goes along.\n\n'
        'There is a second paragraph that has to be shown as well, with "quotes" and {braces}.')
BODY = '''
import json as _json
import sys as _sys


def main(args, envs):
    print('RAN ' + _json.dumps([{where!r}, {name!r}, list(args)]))
    {end}
'''
ENDS = {'s0': 'return 0', 's3': 'return 3', 'linked': 'return 3', 's255': 'return 255', 'none': 'return None', 'true': 'return True',
        'false': 'return False', 'text': "return 'a text'", 'raise': "raise ValueError('no')",
        'exit5': '_sys.exit(5)', 'nodoc': 'return 0', 'longdoc': 'return 0'}
TOPS = {'import': 'import no_such_module_at_all\n', 'syntax': 'def broken(:\n', 'boom': "raise RuntimeError('boom')\n"}


def stub(where, name, kind):
    head = '' if kind == 'nodoc' else '"""{}"""\n'.format(LONG if kind == 'longdoc' else DOC)
    if kind == 'nomain':
        return head + 'value = 1\n'
    return head + TOPS.get(kind, '') + BODY.format(where=where, name=name, end=ENDS.get(kind, 'return 0'))


def builtins():
    """The commands in the repository and what they say about themselves."""
    top = os.path.join(common.REPO, 'asterisklint', 'commands')
    ret = {}
    for name in sorted(os.listdir(top)):
        if re.match(r'^[a-z0-9][a-z0-9_-]*\.py$', name):
            with open(os.path.join(top, name), encoding='utf-8') as fp:
                doc = ast.get_docstring(ast.parse(fp.read()), clean=False)
            ret[name[:-3]] = (doc or '').split()
    return ret


def specify(check, names, target):
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Worlds <- AllWorlds\n Builtins = {{{}}}\n Target = "{}"\n Deep = {}\n'.format(
                ', '.join('"{}"'.format(i) for i in names), target, 'TRUE' if THOROUGH else 'FALSE'))
            fp.write('INIT Init\nNEXT Next\nVIEW View\nCHECK_DEADLOCK FALSE\n'
                     'INVARIANTS RunsAtMostOne UserFirst LsRunsNone RefusedRunsNothing NoCommandRunsNothing LsListsOnce '
                     'ArgumentsPassed Moves Printed\nPROPERTY Forward\n')
        out, st = common.tlc('MC_Dispatch', cfg, workers=8, heap='6g', timeout=3000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    recs = {}
    for rec in common.tagged(out, 'DISPATCH'):
        key = json.dumps([rec['user'], rec['argv'], [sorted(d) for d in rec['dirs']]])
        recs[key] = rec
    return [recs[k] for k in sorted(recs)]


def parse_listing(text, places):
    """[(directory, name, words)] of the output of ls; the directory is an index, 0 for builtin."""
    ret = []
    where = None
    for line in text.split('\n'):
        if line and not line.startswith(' ') and line.endswith(':'):
            where = 0 if line == 'builtin:' else places.get(os.path.normpath(line[:-1]), line[:-1])
        elif re.match(r'^  \S', line) and where is not None:
            parts = line.split()
            ret.append([where, parts[0], parts[1:]])
        elif line.startswith('    ') and line.strip() and ret:
            ret[-1][2] += line.split()
        elif not line.strip() and ret and where is not None:
            continue
    return ret


def replay(rec, top, pycache):
    home = os.path.join(top, 'home')
    os.makedirs(os.path.join(top, 'cwd'))
    os.mkdir(home)
    if rec['user'] != 'none':
        os.mkdir(os.path.join(home, '.asterisklint'))
    env = {}
    places = {}
    for i, files in enumerate(rec['dirs']):
        if rec['user'] == 'full' and i == 0:
            base = os.path.join(home, '.asterisklint')
        elif i == (1 if rec['user'] == 'full' else 0):
            base = common.REPO
        else:
            base = env['PYTHONPATH'] = os.path.join(top, 'more')
        path = os.path.join(base, 'asterisklint', 'commands')
        places[os.path.normpath(path)] = i + 1
        if base == common.REPO:
            continue
        os.makedirs(path)
        for name, kind in files:
            name_py = os.path.join(path, name + '.py')
            if kind == 'folder':
                os.mkdir(name_py)
                continue
            if kind in ('linked', 'dangling'):
                os.symlink('.'.join(('away', name)), name_py)
                if kind == 'dangling':
                    continue
                name_py = os.path.join(path, 'away.' + name)
            with open(name_py, 'w') as fp:
                fp.write(stub(i + 1, name, kind))
        with open(os.path.join(path, 'notes.txt'), 'w') as fp:
            fp.write('not a command\n')
    res = commands.run_program([commands.PROGRAM] + rec['argv'], os.path.join(top, 'cwd'), home, env, pycache)
    if res is None:
        return None
    status, out, err = res
    out = out.decode('utf-8', 'replace')
    return {'status': status, 'out': out, 'err': err.decode('utf-8', 'replace'),
            'ran': [json.loads(line[4:]) for line in out.split('\n') if line.startswith('RAN ')],
            'listed': parse_listing(out, places)}


def differences(rec, got, docs):
    if got is None:
        return ['no answer']
    ret = []
    if got['status'] != rec['status']:
        ret.append('status {} and should be {}'.format(got['status'], rec['status']))
    expected = [[r['d'], r['n'], r['a']] for r in rec['ran']]
    stubs = [i for i in expected if i[1] in dict((tuple(k) for k in rec['dirs'][i[0] - 1]))]
    if got['ran'] != stubs:
        ret.append('ran {} and should have run {}'.format(got['ran'], stubs))
    own = [i[1] for i in expected if i not in stubs]
    usage = got['out'].lower().startswith('usage:')
    if own and not (usage and own[0] in got['out'].split('\n')[0]):
        ret.append('did not run {}'.format(own[0]))
    command = [i for i in rec['argv'] if not i.startswith('-')]
    if command and not own and usage:
        ret.append('ran a command of the program')
    if command and command[0] == 'ls':
        listed = {}
        for where, name, words in got['listed']:
            listed.setdefault(name, []).append((where, words))
        if [i[0] for i in listed.pop('ls', [])] != [0]:
            ret.append('ls itself is not listed once')
        for x in rec['listed']:
            have = listed.pop(x['n'], [])
            if len(have) != 1:
                ret.append('{} is listed {} times'.format(x['n'], len(have)))
                continue
            where, words = have[0]
            if where != x['d']:
                ret.append('{} is listed in {} and should be in {}'.format(x['n'], where, x['d']))
                continue
            kind = dict(tuple(k) for k in rec['dirs'][where - 1]).get(x['n'])
            want = docs[x['n']] if kind is None else {'doc': DOC.split(), 'long': LONG.split()}.get(x['says'])
            if x['says'] == 'error':
                if not ' '.join(words).startswith('(error'):
                    ret.append('{} is broken but is described as {!r}'.format(x['n'], ' '.join(words)))
            elif want is not None and words != want:
                ret.append('{} is described as {!r}'.format(x['n'], ' '.join(words)))
        for name in listed:
            ret.append('{} should not be listed'.format(name))
    return ret


def dispatch(check):
    docs = builtins()
    names = sorted(docs)
    target = 'dialplan-check' if 'dialplan-check' in docs else names[0]
    recs = specify(check, names, target)
    check.coverage['worlds'] = len(recs)
    rng = random.Random('c24-{}'.format(SEED))
    many = [r for r in recs if len(r['argv']) > 2]
    todo = recs if THOROUGH else (rng.sample([r for r in recs if r['argv'] == ['ls']], 70) +
                                  rng.sample(many, min(len(many), 150)) + rng.sample(recs, 350))
    top = common.scratch()
    try:
        pycache = os.path.join(top, 'pycache')

        def one(n):
            place = os.path.join(top, 'w{}'.format(n))
            os.mkdir(place)
            try:
                return replay(todo[n], place, pycache)
            finally:
                shutil.rmtree(place)
        results = [one(0)]
        with ThreadPoolExecutor(8) as pool:
            results += list(pool.map(one, range(1, len(todo))))
    finally:
        shutil.rmtree(top, ignore_errors=True)
    check.count('traces_validated_against_impl', len(todo))
    check.count('evaluations', len(recs))
    check.count('distinct_nontrivial', len(recs))
    check.samples += [json.dumps(r) for r in todo[:3]]
    check.coverage['rule'] = 'all small worlds of MC_Dispatch: contents of the command directories and arguments'
    for rec, got in zip(todo, results):
        bad = differences(rec, got, docs)
        if bad:
            check.violation('arguments {} with {}: {}'.format(
                rec['argv'], {'user': rec['user'], 'dirs': rec['dirs']}, '; '.join(bad)),
                {'kind': 'dispatch', 'world': rec, 'observed': got, 'differences': bad})
