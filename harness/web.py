"""C27: the web service: its routes, its limits, what it reads, and its findings."""
import json
import os
import random
import shutil

import cases
import commands
import common
import session
from common import SEED, THOROUGH, dec, enc
from lintcases import case

HEAD = ['[general]', '', '[globals]', '', '[a]']
LINES = {'bad': 'exten => %d,1,Nosuch()', 'bg': 'exten => %d,1,Background(x)', 'BG': 'exten => %d,1,BackGround(x)',
         'plain': 'exten => %d,1,NoOp()', 'exec': '#exec "touch made"', 'self': '#include extensions.conf'}
SERVER = [('other.conf', 'exten => 1,1,Onserver()\n'), ('extensions.conf', '[general]\n[onserver]\n'), ('sub/extensions.conf', '[onserver]\n'),
          ('func_odbc.conf', '[ONSERVER]\n')]
NAMES = ['other.conf', '/etc/passwd', './extensions.conf/../other.conf', 'sub/extensions.conf', '/etc/asterisk/extensions.conf', 'nosuch.conf']


def specify(check):
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Requests <- AllRequests\n MaxRequests = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                     'INVARIANTS SentRight Alike Contained Unread Founded Printed\n'.format(3 if THOROUGH else 2))
        out, st = common.tlc('MC_Web', cfg, workers=6, timeout=3000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    return sorted(common.tagged(out, 'WEB'), key=json.dumps)


def concrete(r, rng):
    lines = list(HEAD)
    for i, e in enumerate(r['ev']):
        line = {'file': '#include ', 'try': '#tryinclude '}.get(e)
        line = line + rng.choice(NAMES) if line else LINES[e]
        lines.append(line % (100 + i) if '%' in line else line)
    return {'path': r['path'], 'method': r['method'], 'len': r['len'], 'threads': r['threads'], 'body': r['body'],
            'text': enc('\n'.join(lines) + '\n')}


def wrong(r, a, version, index):
    """How the answer a is not that of the step r of the model."""
    status = a['status'] if a['status'] < 400 or r['status'] != 500 else 500
    if status != r['status']:
        return 'status {} instead of {}'.format(a['status'], r['status'])
    if a['opened'] or a['ran']:
        return 'opened {} and ran {}'.format(a['opened'], a['ran'])
    if a['read'] != r['read']:
        return 'its body was {}read'.format('' if a['read'] else 'not ')
    page = dec(a['page'])
    if r['sent'] == 'findings':
        if [[m[0] - len(HEAD), m[1]] for m in a['msgs']] != r['msgs']:
            return 'found {}'.format(a['msgs'])
        if a['names'] != ['extensions.conf'] or a['version'] != version or page:
            return 'answered for {} by version {}'.format(a['names'], a['version'])
    elif r['sent'] != 'nothing':
        want, kind = (index, 'text/html') if r['sent'] == 'index' else ('OK\nasterisklint = {}\n'.format(version), 'text/plain')
        if page != want or not a['type'].startswith(kind) or a['msgs'] or a['names']:
            return 'sent {!r} ({})'.format(page[:80], a['type'])
    elif page or a['msgs'] or a['names']:
        return 'sent {!r} {}'.format(page[:80], a['msgs'])
    return ''


def replay(check):
    hists = specify(check)
    rng = random.Random('c27-{}'.format(SEED))
    alone = rng.sample(hists, min(len(hists), 20000 if THOROUGH else 150))
    rng.shuffle(hists)
    # the others one after another, so histories of many requests
    todo = alone + [sum(hists[i:i + 25], []) for i in range(0, len(hists), 25)]
    reqs = [[concrete(r['req'], rng) for r in h] for h in todo]
    files = case(SERVER)['files']
    jobs = [{'id': i, 'kind': 'web', 'watch': True, 'files': files, 'requests': h} for i, h in enumerate(reqs)]
    jobs.append({'id': len(jobs), 'kind': 'cmd', 'files': [], 'argv': ['-V']})
    results = common.run_jobs(jobs)
    shown = dec(results[len(todo)].get('out', {}).get('stdout', ())).split('\n')[0]
    version = shown.split(' ')[-1]
    if not shown.startswith('asterisklint ') or not version:
        check.violation('the program says its version is {!r}'.format(shown), {'kind': 'web'})
    with open(os.path.join(common.REPO, 'web', 'index.html')) as fp:
        index = fp.read()
    check.count('traces_validated_against_impl', len(todo))
    check.coverage['histories'] = len(hists)
    for i, h in enumerate(todo):
        if 'out' not in results[i]:
            check.violation('no answer: {}'.format(json.dumps(results[i])[:300]), {'kind': 'web', 'history': h})
            continue
        for n, (r, a) in enumerate(zip(h, results[i]['out']['answers'])):
            what = wrong(r, a, version, index)
            if what:
                check.violation('request {} of {}: {} ({})'.format(n + 1, [x['req'] for x in h[max(0, n - 2):n + 1]], what, a['error'] or 'no error'),
                                {'kind': 'web', 'history': h[:n + 1], 'observed': results[i]['out']['answers'][:n + 1]})
                break


def line_of(rng):
    return '\n' + rng.choice(['#include ', '#tryinclude ', '#include "', '#exec ', '#include <']) + rng.choice(NAMES + ['extensions.conf', './extensions.conf', 'x/../extensions.conf'])


def same_findings(check):
    """What is found in random files, by the service, by the program and by the specification."""
    rng = random.Random('c27r-{}'.format(SEED))
    texts = sorted({session.random_text(rng) for _ in range(9000 if THOROUGH else 400)})
    texts += [session.random_text(rng) + line_of(rng) + rng.choice(['\n', ' ; x\n', '', '"\n', '>\n']) for _ in range(3000 if THOROUGH else 120)]
    texts += [''.join('exten => %d,1,%s\n' % (i, rng.choice(['NoOp()', 'Nosuch()', 'Dial(a|b)'])) for i in range(n)) for n in (1, 200, 1200)]
    files = case(SERVER)['files']
    web = [{'id': 'w%d' % i, 'kind': 'web', 'watch': True, 'files': files, 'requests': [{'body': 'ok', 'text': enc(t)}]} for i, t in enumerate(texts)]
    cli = [{'id': 'c%d' % i, 'kind': 'cmd', 'files': case([('extensions.conf', t.encode('utf-8'))])['files'], 'argv': ['dialplan-check', 'extensions.conf'], 'distance': False}
           for i, t in enumerate(texts)]
    results = common.run_jobs(web + cli)
    check.count('traces_validated_against_impl', len(texts))
    check.count('evaluations', len(texts))
    check.count('distinct_nontrivial', len(set(texts)))
    check.coverage['rule'] = 'random posted files, distinct; the small histories of MC_Web'
    check.samples.append(texts[0])
    obs = []
    for i, t in enumerate(texts):
        a, b = results['w%d' % i], results['c%d' % i].get('out', {})
        if 'out' not in a:
            check.violation('no answer: {}'.format(json.dumps(a)[:300]), {'kind': 'web', 'input': t})
            continue
        a = a['out']['answers'][0]
        if a['opened'] or a['ran']:
            check.violation('a posted file made the service open {} and run {}'.format(a['opened'], a['ran']), {'kind': 'web', 'input': t})
        if a['refused'] and a['status'] != 400:
            check.violation('a posted file is answered with {} {}'.format(a['status'], a['error']), {'kind': 'web', 'input': t})
        obs.append({'id': i, 'c': case([('extensions.conf', t.encode('utf-8'))]),
                    'obs': {'refused': a['refused'], 'msgs': [{'l': m[0], 'c': m[1], 'd': enc(m[2])} for m in a['msgs']],
                            'cli': [] if a['refused'] else [commands.lines_of(b.get('stderr', ()))]}})
    tmp = common.scratch()
    try:
        path = os.path.join(tmp, 'in.json')
        with open(path, 'w') as fp:
            json.dump({'cases': obs}, fp)
        out, st = common.tlc('Trace_Session', env={'SESSION_INPUT': path}, workers=6)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    verdicts = {v['id']: v for v in common.tagged(out, 'VERDICT')}
    if len(verdicts) != len(obs):
        raise common.MachineryError('verdicts are missing\n' + out[-2000:])
    for o in obs:
        v = verdicts[o['id']]
        if not v['ok']:
            check.violation('a posted file is answered {} and should be {}; the program prints {}'.format(
                'refused' if o['obs']['refused'] else [(m['l'], m['c'], dec(m['d'])) for m in o['obs']['msgs']][:6], 'refused' if v['refused'] else v['msgs'][:6],
                [dec(l) for i in o['obs']['cli'] for l in i][:6]), {'kind': 'web', 'input': texts[o['id']], 'expected': v})
