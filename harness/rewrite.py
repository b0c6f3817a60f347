"""C21: the rewriting tools, against spec/Rewrite.tla."""
import json
import os
import random
import shutil

import cases
import common
import gen
from cases import mix
from common import SEED, THOROUGH, enc
from lintcases import split_lines

SCRIPTS = {'canonical': 'make_patterns_canonical.py', 'convert': 'convert_dp_104_to_1100.py'}
INVARIANTS = ('AllOrNothing OldIsOld FinalNew NothingUnlessYes OthersUntouched FailingStaysOld AttributesStay LinksStay '
              'NoTempLeft DoneMeansNoError Printed')


class World(object):
    """Files and links; becomes a case of Trace_Rewrite and a job."""
    def __init__(self, files, links=(), attrs=None, tool='canonical', typed='y\n', path='extensions.conf', fault='none', at=0):
        self.files = [(n, d if isinstance(d, bytes) else d.encode('utf-8')) for n, d in files]
        self.links = dict(links)
        self.attrs = attrs or {}
        self.tool, self.typed, self.path, self.fault, self.at = tool, typed, path, fault, at

    def with_fault(self, fault, at):
        ret = World(self.files, self.links, self.attrs, self.tool, self.typed, self.path, fault, at)
        return ret

    def resolve(self, name):
        for _ in range(10):
            for link, target in self.links.items():
                if name == link or name.startswith(link + '/'):
                    name = os.path.normpath(os.path.join(os.path.dirname(link), target) + name[len(link):])
                    break
            else:
                return name
        return name

    def names(self):
        """Every name that a file has."""
        have = [n for n, _ in self.files]
        ret = list(have)
        for link in self.links:
            real = self.resolve(link)
            ret += [link] if real in have else [link + n[len(real):] for n in have if n.startswith(real + '/')]
        return ret

    def case(self):
        names = self.names()
        data = dict(self.files)
        return {'c': {'files': [{'name': enc(n), 'lines': split_lines(data[self.resolve(n)])} for n in names],
                      'runs': [{'mode': 'dialplan', 'root': enc(self.path)}], 'ver': 'v13', 'odbc': [],
                      'links': [{'name': enc(a), 'to': enc(b)} for a, b in self.links.items()]},
                'real': [names.index(self.resolve(n)) + 1 for n in names],
                'tool': self.tool, 'answer': enc(self.typed.split('\n')[0]),
                'fault': {'none': 'none', 'kill': 'kill'}.get(self.fault, 'error')}

    def job(self, n):
        ret = {'id': n, 'kind': 'rewrite', 'script': SCRIPTS[self.tool], 'path': self.path, 'typed': enc(self.typed),
               'fault': self.fault, 'at': self.at, 'files': [],
               'links': [{'name': enc(a), 'target': enc(b)} for a, b in self.links.items()]}
        for name, data in self.files:
            mode, uid, gid = self.attrs.get(name, (0o644, 0, 0))
            ret['files'].append({'name': enc(name), 'lines': [list(data)], 'mode': mode, 'uid': uid, 'gid': gid})
        return ret

    def observed(self, res):
        if 'out' not in res:
            return None
        o = res['out']
        files = []
        for name in self.names():
            real = self.resolve(name)
            f = dict(o['files'][real])
            if name != real:
                f['link'] = all(v for k, v in o['links'].items() if name == k or name.startswith(k + '/'))
            files.append(f)
        return {'status': o['status'], 'asked': o['asked'], 'extra': o['extra'], 'files': files}

    def show(self):
        return '\n'.join('--- {}{}\n{}'.format(n, ' {}'.format(self.attrs[n]) if n in self.attrs else '', d.decode('latin-1'))
                         for n, d in self.files) + '\n' + json.dumps(
                             {'links': self.links, 'tool': self.tool, 'typed': self.typed, 'path': self.path,
                              'fault': self.fault, 'at': self.at})


# ---- random worlds ----

def canonical_line(rng):
    pat = rng.choice(gen.EXTENS) if rng.random() < .5 else cases.pattern(rng)
    prio = rng.choice(['1', '1', 'n', '2', '1(%s)' % pat, 'n(l)'])
    data = mix(rng, (4, lambda: 'NoOp(%s)' % pat), (3, lambda: 'Goto(%s,1)' % pat), (2, lambda: 'Dial(${X})'), (1, lambda: gen.app(rng)))
    arrow = rng.choice([' => '] * 6 + ['=', '=>', ' = ', ' =>'])
    return mix(rng, (12, lambda: 'exten%s%s,%s,%s' % (arrow, pat, prio, data)), (2, lambda: 'same => n,' + data),
               (.5, lambda: 'exten => %s' % pat), (.5, lambda: '\texten => %s,1,%s' % (pat, data)))


def convert_line(rng):
    inner = lambda: rng.choice(['NoOp', 'Set,a=1', 'Goto,a,s,1', 'Dial,SIP/x,,T', 'noop', 'Hangup', 'NoOp,${X:1:2}', 'NoOp,é', 'NoOp,"a,b"', 'NoOp,(x,y)', '', 'Set|a'])
    cond = lambda: rng.choice(['${X}', '$[1=1]', '1', '$[${A} = "b"]', '', '1 ', '${X', '${LEN(x)}', '${X:1:}', '${X:01}', '$["é"]'])
    data = mix(rng, (8, lambda: 'ExecIf(%s,%s)' % (cond(), inner())), (3, lambda: 'ExecIf(%s?NoOp(1):Hangup())' % cond()),
               (1, lambda: 'GotoIf(%s,a,s,1)' % cond()), (1, lambda: 'execif(%s,%s)' % (cond(), inner())),
               (1, lambda: 'ExecIf (%s,%s)' % (cond(), inner())), (.5, lambda: 'ExecIf,%s' % inner()), (3, lambda: gen.app(rng)),
               (1, lambda: 'ExecIf(%s?ExecIf(1,NoOp):ExecIf(2,Hangup,x))' % cond()), (1, lambda: 'ExecIf(1,1)'), (.5, lambda: 'GosubIf(1,2)'))
    return mix(rng, (8, lambda: 'exten => %s,%s,%s' % (rng.choice(['1', 's', '_X.', '_[1]x']), rng.choice(['1', 'n', '2(a)']), data)),
               (6, lambda: 'same => n,' + data), (.5, lambda: 'exten=1,n,' + data))


def random_world(rng):
    tool = rng.choice(sorted(SCRIPTS))
    line = canonical_line if tool == 'canonical' else convert_line
    names = ['extensions.conf', 'x.conf', 'sub/y.conf', 'sub/z.conf'][:rng.randint(1, 4)]
    dashed = rng.random() < .6
    links = {}
    if 'x.conf' in names and rng.random() < .5:
        links['l.conf'] = rng.choice(['x.conf', './x.conf', 'sub/../x.conf'])
        if rng.random() < .4:
            links['sub/ll.conf'] = '../l.conf'
    if 'sub/y.conf' in names and rng.random() < .4:
        links['yy.conf'] = 'sub/y.conf'
    if 'sub/y.conf' in names and rng.random() < .2:
        links['alias'] = 'sub'
    path = rng.choice(['extensions.conf', './extensions.conf', 'sub/../extensions.conf'])
    if rng.random() < .15:
        links['root.conf'] = 'extensions.conf'
        path = 'root.conf'
    w = World([(n, b'') for n in names], links)
    every = [n for n in w.names() if dashed or n not in links]
    inc = [n[4:] if n.startswith('sub/') and rng.random() < .1 else n for n in every] + ['./x.conf', 'sub/../x.conf', 'nosuch.conf']
    files = []
    for i, name in enumerate(names):
        ls = ['[general]', '', '[globals]', '', '[a]'] if i == 0 and rng.random() < .8 else []
        for _ in range(rng.randint(0, 5)):
            text = mix(rng, (6, lambda: line(rng)), (1, lambda: gen.header(rng)), (1, lambda: ''), (.4, lambda: gen.junk(rng)),
                       (2 if i == 0 else .5, lambda: '#include ' + rng.choice(inc)))
            ls.append(gen.comment(rng, text))
        if i == 0:
            ls += ['#include ' + n for n in every[1:] if rng.random() < .6]
        data = cases.bytesnoise(rng, cases.endings(rng, ls, .6), .05)
        files.append((name, data))
    attrs = {n: (rng.choice([0o644, 0o600, 0o640, 0o444, 0o755, 0o4755, 0o2750, 0o666]), rng.choice([0, 0, 1, 65534]), rng.choice([0, 0, 1, 8]))
             for n in names if rng.random() < .5}
    typed = rng.choice(['y\n'] * 30 + ['y', 'n\n', 'Y\n', '\n', '', 'yes\n', ' y\n', 'y \n', 'n\ny\n', 'y\nn\n'])
    fault = rng.choice(['none'] * 6 + ['error'] * 6 + ['kill'] * 4 + ['interrupt'] * 3 + ['late'] * 2 + ['full'] * 3)
    at = rng.randint(1, rng.choice([4, 12, 30, 60]))
    return World(files, links, attrs, tool, typed, path, fault, at if fault != 'full' else rng.randint(0, 120))


def run(worlds):
    return common.run_jobs([w.job(i) for i, w in enumerate(worlds)])


def judge(check, worlds, results, chunk=3000):
    tmp = common.scratch()
    verdicts = {}
    try:
        for lo in range(0, len(worlds), chunk):
            path = os.path.join(tmp, 'in.json')
            todo = []
            for i in range(lo, min(lo + chunk, len(worlds))):
                obs = worlds[i].observed(results[i])
                if obs is not None:
                    todo.append(dict(worlds[i].case(), id=i, obs=obs))
            with open(path, 'w') as fp:
                json.dump({'cases': todo}, fp)
            out, st = common.tlc('Trace_Rewrite', env={'REWRITE_INPUT': path}, workers=6)
            common.require_clean(out, st)
            for v in common.tagged(out, 'VERDICT'):
                verdicts[v['id']] = v
            check.count('states', st['states'])
            check.count('transitions', st['transitions'])
            if len([t for t in todo if t['id'] in verdicts]) != len(todo):
                raise common.MachineryError('verdicts are missing\n' + out[-3000:])
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return verdicts


def report(check, worlds, results, verdicts):
    for i, w in enumerate(worlds):
        v = verdicts.get(i)
        if v is None:
            check.violation('no answer: {}'.format(json.dumps(results[i])[:300]), {'kind': 'rewrite', 'input': w.show()})
        elif not v['ok']:
            check.violation('{} fault {} at {}: wrong {}; {}'.format(
                w.tool, w.fault, w.at, ' '.join(sorted(v['what'])), results[i]['out'].get('error', '')),
                {'kind': 'rewrite', 'input': w.show(), 'observed': results[i]['out'], 'should': v['new']})


def random_rewrites(check):
    rng = random.Random('c21-{}'.format(SEED))
    worlds = [random_world(rng) for _ in range(12000 if THOROUGH else 700)]
    results = run(worlds)
    verdicts = judge(check, worlds, results)
    check.count('traces_validated_against_impl', len(worlds))
    check.count('evaluations', len(worlds))
    check.count('distinct_nontrivial', len([1 for v in verdicts.values() if v['issues']]))
    check.coverage['rule'] = ('random files, links, attributes, answers and faults, non-trivial: there is a line at issue; '
                              'and the worlds of MC_Rewrite with faults at every step')
    check.samples += [w.show() for w in worlds[:2]]
    report(check, worlds, results, verdicts)


# ---- the worlds of the model ----

def specify(check):
    tmp = common.scratch()
    try:
        cfg = os.path.join(tmp, 'mc.cfg')
        with open(cfg, 'w') as fp:
            fp.write('CONSTANTS\n Worlds <- AllWorlds\n Deep = {}\nINIT Init\nNEXT Next\nCHECK_DEADLOCK FALSE\n'
                     'INVARIANTS {}\nPROPERTY OneChange\n'.format('TRUE' if THOROUGH else 'FALSE', INVARIANTS))
        out, st = common.tlc('MC_Rewrite', cfg, workers=8, heap='8g', timeout=3000)
        common.require_clean(out, st)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    check.count('states', st['states'])
    check.count('transitions', st['transitions'])
    ends = {}
    for rec in common.tagged(out, 'REWRITE'):
        key = json.dumps(rec['w'], sort_keys=True)
        ends.setdefault(key, {}).setdefault(rec['fault'], set()).add((tuple(rec['files']), rec['temp']))
    return ends


PLACES = [('f1.conf', 'sub/l1.conf', '../f1.conf'), ('sub/f2.conf', 'l2.conf', 'l2b.conf'), ('f3.conf', 'l3.conf', './f3.conf')]


def concrete(world, tool):
    """A world of the model as files."""
    root = ['[general]', '', '[globals]', '', '[a]']
    files, links, attrs, news = [], {}, {}, []
    for i, f in enumerate(world['files']):
        own, link, target = PLACES[i]
        ls, new = [], []
        for j, kind in enumerate(f['lines']):
            n = 10 * i + j + 100
            if tool == 'convert':
                pair = {'keep': ('exten => %d,1,NoOp(1,2) ; ExecIf(1,2)' % n,) * 2,
                        'issue': ('exten => %d,1,ExecIf(${A},NoOp,x) ; ExecIf(${A},NoOp,x)' % n,
                                  'exten => %d,1,ExecIf(${A}?NoOp(x)) ; ExecIf(${A},NoOp,x)' % n),
                        'fail': ('exten => %d,1,GotoIf(${A},a,100,1)' % n,) * 2}[kind]
            else:
                pair = {'keep': ('exten => _%dX,1,NoOp(_[1]x)' % n,) * 2,
                        'issue': ('exten => _%d[1]X,1,Goto(_%d[1]X,1)' % (n, n), 'exten => _%d1X,1,Goto(_%d[1]X,1)' % (n, n))}[kind]
            ls.append(pair[0])
            new.append(pair[1])
        files.append((own, '\n'.join(ls) + '\n'))
        news.append(('\n'.join(new) + '\n').encode())
        if 'link' in f['names']:
            links[link] = target
            if target == 'l2b.conf':
                links[target] = own
        root += ['#include ' + {'own': own, 'link': link}[n] for n in sorted(f['names'])]
        attrs[own] = (f['mode'], f['owner'], f['owner'])
    typed = '' if world['answer'] == 'EOF' else world['answer'] + '\n'
    return World([('extensions.conf', '\n'.join(root) + '\n')] + files, links, attrs, tool, typed), news


def outcome(w, news, res):
    """What became of the files: old, new or neither."""
    ret = []
    for (name, old), new in zip(w.files[1:], news):
        f = res['out']['files'][name]
        data = b''.join(bytes(i) for i in f['lines'])
        ret.append('old' if f['same'] else 'new' if data == new != old else 'neither')
    return tuple(ret)


def replay_worlds(check):
    ends = specify(check)
    rng = random.Random('c21w-{}'.format(SEED))
    keys = sorted(ends)
    if not THOROUGH:
        keys = rng.sample(keys, 150)
    elif len(keys) > 3000:
        keys = rng.sample(keys, 3000)
    base = []
    for key in keys:
        world = json.loads(key)
        fails = any('fail' in f['lines'] for f in world['files'])
        for tool in (['convert'] if fails else ['convert', 'canonical'] if THOROUGH else [rng.choice(['convert', 'canonical'])]):
            base.append((key, tool) + concrete(world, tool))
    first = run([b[2] for b in base])
    todo = []
    for i, b in enumerate(base):
        todo.append((b, 'none', 0, first[i]))
    later = []
    for i, b in enumerate(base):
        if 'out' not in first[i]:
            continue
        steps = len(first[i]['out']['steps'])
        faults = [(k, n) for n in range(1, steps + 1) for k in ('kill', 'error', 'interrupt', 'late')]
        faults += [('full', n) for n in range(0, 140, 7)]
        for k, n in (faults if THOROUGH else rng.sample(faults, 5)) if steps else []:
            later.append((b, k, n))
    again = run([b[2].with_fault(k, n) for b, k, n in later])
    todo += [later[i] + (again[i],) for i in range(len(later))]
    check.count('traces_validated_against_impl', len(todo))
    for b, kind, at, res in todo:
        key, tool, w, news = b
        if 'out' not in res:
            check.violation('no answer: {}'.format(json.dumps(res)[:300]), {'kind': 'rewrite', 'input': w.show()})
            continue
        o = res['out']
        got = outcome(w, news, res)
        allowed = set(ends[key].get('none', ()))
        if kind != 'none':
            allowed |= set(ends[key].get('kill' if kind == 'kill' else 'error', ()))
        bad = []
        if got not in {f for f, _ in allowed}:
            bad.append('files are {} and may be {}'.format(got, sorted({f for f, _ in allowed})))
        if o['extra'] and (got, True) not in allowed:
            bad.append('left behind {}'.format([common.dec(i) for i in o['extra']]))
        if o['status'] == 0 and kind != 'none' and got not in {f for f, _ in ends[key].get('none', ())}:
            bad.append('reported success')
        bad += ['attributes of {}'.format(n) for n, f in o['files'].items() if not f['attrs']]
        bad += ['link {}'.format(n) for n, ok in list(o['links'].items()) + [(n, f['link']) for n, f in o['files'].items()] if not ok]
        if not o['files']['extensions.conf']['same']:
            bad.append('touched extensions.conf')
        if bad:
            check.violation('{} in {} with fault {} at {}: {}; {}'.format(tool, key, kind, at, '; '.join(bad), o['error']),
                            {'kind': 'rewrite', 'input': w.with_fault(kind, at).show(), 'observed': o})
