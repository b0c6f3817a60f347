"""The generators: one function per property, rng -> case for lintcases."""
import itertools

import gen
from gen import weighted, chars
from common import dec, enc
from lintcases import case

NAMES = ['extensions.conf', 'x.conf', 'sub/y.conf', 'y.conf', 'z.conf', 'sub/deep/w.conf']


class Large(object):
    """Within this, inputs are several times as large: longer files and chains of includes, more names, deeper data."""
    def __enter__(self):
        gen.LARGE = True

    def __exit__(self, *args):
        gen.LARGE = False


def endings(rng, lines, plain=.5):
    """Lines to bytes, in the various line endings."""
    r = rng.random()
    if r < plain:
        t = '\n'.join(lines) + '\n'
    elif r < plain + .12:
        t = '\n'.join(lines)
    elif r < plain + .24:
        t = '\r\n'.join(lines) + '\r\n'
    elif r < plain + .34:
        t = '\r\n'.join(lines)
    else:
        t = ''.join(i + rng.choice(['\n', '\r\n', '\n']) for i in lines)
        if rng.random() < .3:
            t = t.rstrip('\r\n')
    return t.encode('utf-8', 'surrogateescape')


NASTY = [b'\xc3\xa9', b'\xe9', b'\x81', b'\x07', b'\xf0\x9f\x98\x80', b'\xed\xa0\x80', b'\x0c', b'\x85', b'\xc2\x85',
         b'\r', b'\x00', b'\x1f', b'\x7f', b'\xc0\x80', b'\xe2\x82\xac', b'\xe2\x82', b'\xf4\x90\x80\x80', b'\xff',
         b'\xef\xbb\xbf', b'\xc2\xa0', b'\x9d', b'\xe0\x80\x80', b'\xf0\x80\x80\x80', b'\x0b', b'\x08', b'\x1b', b' ', b'\t']
SAFE = [i for i in NASTY if i not in (b'\x1f',)]


def bytesnoise(rng, data, p=.15, pool=SAFE):
    if rng.random() >= p or not data:
        return data
    b = bytearray(data)
    for _ in range(rng.randint(1, 3)):
        i = rng.randrange(len(b))
        b[i:i] = rng.choice(pool)
    return bytes(b)


def mix(rng, *pairs):
    return weighted(rng, pairs)()


def dp_lines(rng, n, names, mkline=None, head=.8, ctxs=gen.CTXS, hdr=2, blank=2, junk=.4, inc=.6, com=True):
    mkline = mkline or gen.dialline
    ls = []
    if rng.random() < head:
        ls += ['[general]', '[globals]', '', '[%s]' % rng.choice(ctxs)]
    for _ in range(n):
        line = mix(rng, (14, lambda: mkline(rng)), (hdr, lambda: gen.header(rng, ctxs)), (blank, lambda: gen.blank(rng)),
                   (junk, lambda: gen.junk(rng)), (inc if len(names) > 1 else .1, lambda: gen.include(rng, names)),
                   (.2, lambda: gen.setting(rng)))
        ls.append(gen.comment(rng, line) if com else line)
    return ls


def conf_lines(rng, n, names, w=None, com=True):
    w = dict({'set': 6, 'hdr': 2, 'blank': 4, 'junk': 1, 'inc': 1.5}, **(w or {}))
    ls = []
    for _ in range(n):
        line = mix(rng, (w['set'], lambda: gen.setting(rng)), (w['hdr'], lambda: gen.header(rng)),
                   (w['blank'], lambda: gen.blank(rng)), (w['junk'], lambda: gen.junk(rng)),
                   (w['inc'], lambda: gen.include(rng, names)))
        ls.append(gen.comment(rng, line) if com else line)
    return ls


def chain(rng, mk, size, mode, noise, plain, first='extensions.conf', **kw):
    """Files that each include the next one, seldom twice."""
    names = [first] + ['%sc%d.conf' % (rng.choice(['', '', '', 'sub/']), i) for i in range(rng.choice([1, 2, 4, 12]) - 1)]
    files = []
    for i, name in enumerate(names):
        ls = mk(rng, rng.randint(*size) * (6 if len(names) < 3 else 2 if len(names) < 6 else 1), ['nosuch1.conf', 'nosuch2.conf'])
        if i + 1 < len(names):
            target = ('../' if '/' in name else '') + names[i + 1]
            for _ in range(rng.choice([1, 1, 1, 1, 1, 2]) if i < 3 else 1):
                ls.insert(rng.randint(0, len(ls)), '#include ' + target)
        files.append((name, bytesnoise(rng, endings(rng, ls, plain), noise)))
    return case(files, runs=[(mode, first)], **kw)


def tree(rng, mk, lo=1, hi=5, size=(0, 12), sub=(0, 6), mode='dialplan', noise=.1, plain=.5, **kw):
    if gen.LARGE:
        return chain(rng, mk, (size[0], max(size[1], sub[1])), mode, noise, plain, **kw)
    names = NAMES[:rng.randint(lo, hi)]
    files = []
    for i, name in enumerate(names):
        n = rng.randint(*(size if i == 0 else sub))
        files.append((name, bytesnoise(rng, endings(rng, mk(rng, n, names), plain), noise)))
    return case(files, runs=[(mode, 'extensions.conf')], **kw)


def dp(rng, mkline=None, size=(2, 14), ver=None, more=(), **kw):
    """A dialplan in one file, plain line endings."""
    ls = dp_lines(rng, rng.randint(*size) * (5 if gen.LARGE else 1), ['extensions.conf'], mkline, inc=0, **kw) + list(more)
    return case([('extensions.conf', '\n'.join(ls) + '\n')], ver=ver or rng.choice(['v13', 'v13', 'v13', 'v11', 'vall']))


# ---- C01, C02: places, encodings, endings ----

def g01(rng):
    r = rng.random()
    if r < .02:
        return big_tree(rng)
    if r < .25:
        c = tree(rng, dp_lines, 2, 6, (1, 10), (0, 5))
    elif r < .45:
        c = tree(rng, lambda r_, n, names: marked_lines(r_, n, names), 2, 6, (1, 8), (0, 5), mode='conf')
    elif r < .7:
        c = tree(rng, lambda r_, n, names: marked_lines(r_, n, names), 3, 6, (1, 8), (0, 5),
                 mode=rng.choice(['dialplan', 'dialplan', 'odbc']))
    elif r < .9:
        c = tree(rng, lambda r_, n, names: conf_lines(r_, n, names, {'inc': 3}), 2, 6, (1, 8), (0, 5), mode='conf')
    else:
        c = tree(rng, conf_lines, 1, 1, (0, 12), mode='reader')
    if rng.random() < .25:
        c['disk'] = True
    return c


def marked_lines(rng, n, names):
    """Lines that all leave a trace, and plenty of includes."""
    ls = []
    for i in range(n):
        ls.append(mix(
            rng, (3, lambda: 'x%d=%d' % (i, rng.randint(0, 9))), (2, lambda: '[%s]' % rng.choice(gen.CTXS)), (2, lambda: 'bad line %d' % i),
            (2, lambda: 'trail%d=1 ' % i), (4, lambda: gen.include(rng, names, .1)), (1, lambda: ''), (1, lambda: 'k => v ; c'),
            (2, lambda: 'exten => %d,1,NoSuch%d()' % (i, i)), (1, lambda: 'exten => %d,n,Goto(nowhere,s,%d)' % (i, i)),
            (1, lambda: ' same => n,Goto(a,s,%d)' % i), (1, lambda: 'exten => s,1,NoOp(${a%d' % i)))
    return ls


def big_tree(rng):
    n = rng.choice([300, 700])
    long = rng.choice([5000, 9000])
    main = ['a%d=%d' % (i, i) for i in range(n)]
    main[rng.randrange(n)] = '#include x.conf'
    main[rng.randrange(n)] = 'bad line'
    main[-1] = 'bad end'
    sub = ['[s]', 'x=' + 'y' * long, '', 'bad ; x', 'z=1']
    return case([('extensions.conf', '\n'.join(['[a]'] + main) + '\n'), ('x.conf', rng.choice(['\n', '\r\n']).join(sub))],
                runs=[('conf', 'extensions.conf')])


def g02(rng):
    mode = rng.choice(['reader', 'conf', 'conf', 'dialplan'])
    simple = lambda r, n, names: [
        mix(r, (4, lambda: 'a=%s' % chars(r, 'xyz', 1, 3)), (1, lambda: ''), (2, lambda: '[b]'), (1, lambda: '; c'),
            (1.5 if len(names) > 1 and mode != 'reader' else 0, lambda: gen.include(r, names, 0))) + r.choice(['', '', '', ' ', '\t', '  ', ' \t'])
        for _ in range(n)]
    c = tree(rng, simple, 1, 3, (0, 5), (0, 4), mode=mode, noise=.6, plain=.2)
    if rng.random() < .2:
        c['disk'] = True
    return c


# ---- C03: comments ----

def g03(rng):
    def line(r):
        body = chars(r, 'ab\\; \t=;\\', 0, 9)
        return mix(r, (4, lambda: 'k=' + body), (2, lambda: body), (2, lambda: '[c]' + body), (1, lambda: 'k => ' + body),
                   (2, lambda: 'exten => 1,n,NoOp(%s' % body), (1, lambda: ' same => n,NoOp(%s' % body), (1, lambda: '#include ' + body),
                   (1, lambda: ';' + body), (.3, lambda: 'v=' + 'ab\\;' * r.randint(1, 6) + body))
    mode = rng.choice(['reader', 'conf', 'conf', 'dialplan'])
    ls = ['[c]'] if rng.random() < .7 else []
    if mode == 'dialplan':
        ls += ['exten => 1,1,NoOp()']
    ls += [line(rng) for _ in range(rng.randint(1, 8))]
    return case([('extensions.conf', endings(rng, ls, .7))], runs=[(mode, 'extensions.conf')])


# ---- C04: classification ----

def g04(rng):
    def line(r):
        ws = lambda: r.choice(['', '', '', ' ', '\t', '  ', ' \t'])
        return mix(r,
                   (3, lambda: ws() + chars(r, 'ab c-', 0, 3) + ws() + r.choice(['=', '=>', '= >', '==', '=>=', '>=']) + ws() + chars(r, 'xy=>[] ;', 0, 4)),
                   (3, lambda: gen.setting(r)), (2, lambda: gen.header(r)),
                   (1, lambda: ws() + '[' + chars(r, 'ab] [=', 0, 4) + ']' + ws() + r.choice(['', '', '(!)', '(a)', '(+)', '()', '(a,b)', 'x', '=', '(!)x'])),
                   (1, lambda: gen.junk(r)), (1, lambda: chars(r, 'a[]=>#(!) ', 0, 8)), (1, lambda: gen.blank(r)), (.5, lambda: ws() + 'same' + ws() + '=> 1'),
                   (.4, lambda: gen.include(r, ['extensions.conf', 'x.conf'])))
    mode = rng.choice(['conf', 'conf', 'conf', 'dialplan'])
    mk = lambda r, n, names: [gen.comment(r, line(r)) for _ in range(n)]
    c = tree(rng, mk, 1, 2, (1, 9), (0, 4), mode=mode, noise=.05, plain=.7)
    return c


# ---- C05: blank lines ----

def g05(rng):
    mode = rng.choice(['conf', 'conf', 'dialplan', 'odbc'])

    def mk(r, n, names):
        out = []
        many = lambda: r.choice([1, 1, 1, 1, 4, 8]) if gen.LARGE else 1
        for _ in range(n):
            out += mix(r, (4, lambda: ['a=1'] * r.randint(1, 4) * many()), (4, lambda: ['[%s]' % r.choice('abc')]), (3, lambda: [''] * r.randint(1, 3) * many()),
                       (2, lambda: [r.choice([';c', ' ;c', ';'])] * r.randint(1, 2)), (.6, lambda: [r.choice(['bad', '#exec x', ' ', '\t', '#bad'])]),
                       (1.5 if len(names) > 1 else 0, lambda: [gen.include(r, names, .1)]),
                       (.5 if mode == 'dialplan' else 0, lambda: ['exten => s,1,NoOp()', 'same => n,NoOp()']),
                       (.4 if mode == 'dialplan' else 0, lambda: [r.choice(['[general]', '[globals]'])]))
        return out
    return tree(rng, mk, 1, 4, (0, 8), (0, 4), mode=mode, noise=0, plain=.8)


# ---- C06: preprocessor ----

def g06(rng):
    if rng.random() < .06:
        return linked(rng)
    def line(r, names):
        return mix(r, (6, lambda: gen.include(r, names, .4)), (2, lambda: 'a=%d' % r.randint(0, 9)), (1, lambda: '[c%d]' % r.randint(0, 3)),
                   (1.5, lambda: gen.junk(r)),
                   (2, lambda: r.choice(['#', '##', ' ', '\t', '']) + r.choice(['include', 'tryinclude', 'exec', 'Include', 'inc', 'includes', '']) +
                    r.choice([' ', '  ', '\t', ' \t', '', '\x0b', '\x0c', '\r']) + r.choice(['', '"', '<', "'", '(']) + r.choice(names + ['', 'nosuch', '.', '/', './/x.conf', '../x.conf', 'sub', 'sub/../x.conf', 'y.conf']) +
                    r.choice(['', '', '"', '>', "'", ')'])),
                   (1, lambda: '#exec ' + r.choice(['touch /nonexistent/x', '"ls"', 'sh -c "exit 1"'])), (.5, lambda: ''))
    mk = lambda r, n, names: [gen.comment(r, line(r, names)) if r.random() < .3 else line(r, names) for _ in range(n)]
    return tree(rng, mk, 1, 6, (1, 8), (0, 4), mode=rng.choice(['conf', 'conf', 'conf', 'dialplan', 'odbc']), noise=.03, plain=.7)


def linked(rng):
    """Files and directories with more than one name."""
    names = ['extensions.conf', 'x.conf', 'sub/y.conf', 'sub/z.conf'][:rng.randint(1, 4)]
    links = {}
    for _ in range(rng.randint(1, 3)):
        name, to = rng.choice([('d', '.'), ('d', 'sub'), ('sub/up', '..'), ('sub/d', '.'), ('l.conf', 'x.conf'), ('l.conf', './extensions.conf'), ('sub/l.conf', '../x.conf'),
                               ('k.conf', 'l.conf'), ('d2', 'd'), ('l.conf', 'nosuch'), ('k.conf', 'sub/l.conf')])
        links[name] = to
    dirs = [''] + [i for i in links if i[-5:] != '.conf'] + ['sub'] * any(i.startswith('sub/') for i in names)
    files = [i.split('/')[-1] for i in names + list(links) if i.endswith('.conf')]

    def path():
        ret = ''
        for _ in range(rng.choice([0, 0, 1, 1, 1, 2])):
            ret += rng.choice(['d', 'd', 'sub', 'up', '..', '.', 'sub/up']) + '/' if rng.random() < .5 else (rng.choice(dirs) + '/').lstrip('/')
        ret += rng.choice(files)
        return ret if '/../' not in ret.lstrip('./') else rng.choice(files)
    out = []
    for name in names:
        ls = ['%s=%d' % (name[-6], i) if rng.random() < .4 else rng.choice(['#include ', '#include ', '#tryinclude ']) + path() for i in range(rng.randint(1, 5))]
        out.append((name, '[%s]\n' % name + '\n'.join(ls) + '\n'))
    c = case(out, runs=[('conf', rng.choice(['extensions.conf', 'extensions.conf'] + ['l.conf'] * (links.get('l.conf') == 'x.conf' and 'x.conf' in names)))])
    c['disk'] = True
    c['links'] = [{'name': enc(a), 'to': enc(b)} for a, b in links.items()]
    return c


# ---- C07, C08, C09, C10: the dialplan ----

def simple(rng):
    return rng.choice(['NoOp()', 'Answer()', 'Hangup()', 'NoOp(x)', 'Verbose(1,a)', 'NoOp(${EXTEN})', 'Playback(a)'])


def few(rng, pool, n):
    if gen.LARGE:
        pool = list(pool) + [i + k for i in pool[:5] for k in '12' if i[-1:] not in '.!']
        n = min(len(pool), 3 * n)
    return rng.sample(pool, n)


def prio7(r, labels):
    p = mix(r, (8, lambda: 'n'), (5, lambda: '1'), (5, lambda: str(r.randint(1, 5))), (1, lambda: str(r.choice([9, 10, 99, 100, 0]))), (.35, lambda: gen.long_number(r)),
            (1.2, lambda: r.choice(['0', '00', 'hint', 'x', '', '-1', '1x', '01', '002', 'N', ' 1', '1 ', ' n', 'n ', 'n+1', '+1', 's', '1.0', '1e1', '4294967296', '99999999999999999999', '\u00b2', 'nn', 'hints', 'next'])))
    return p + mix(r, (9, lambda: ''), (2, lambda: '(%s)' % r.choice(labels)), (.3, lambda: r.choice(['(', '()', '(x', '(x)y', '((x))', '(a(b)', ')'])))


SAME = [['_12', '_1-2', '_1-2-', '12', '1-2'], ['_X', '_[0-9]', '_x', '_[0-45-9]', '_[9876543210]'], ['1-0-0', '100', '10-0', '_100', '_1-00'],
        ['_Z', '_[1-9]', '_z', '_[2-91]', '_Z-'], ['_N', '_[2-9]', '_n', '_[23-9]'], ['_[5]', '_5', '5', '_[55]', '_[5-5]', '-5'], ['_X.', '_x.', '_[0-9].', '_X!', '_X'],
        ['s', 'S', '_s', '_[s]'], ['_[1-3]', '_[123]', '_[321]', '_[13-2]', '_[2-31]'], ['a-b', 'ab', '_ab', 'AB', '_a-b'], ['_1[2]3', '_123', '123', '_1[2-2]3'],
        ['_[ab]', '_[ba]', '_[a-b]', '_[AB]', '_[aB]'], ['_X1', '_[0-9]1', '_X-1', '_-X1']]


def g07(rng):
    pats = few(rng, gen.EXTENS + ['s', '100', '_X'], 3)
    if rng.random() < .35:
        pats = few(rng, rng.choice(SAME), 2) + pats[:rng.choice([0, 0, 1])]
    ctxs = few(rng, gen.CTXS, 2)

    def line(r):
        return mix(r, (8, lambda: 'exten => %s,%s,%s' % (r.choice(pats), prio7(r, gen.LABELS), simple(r))),
                   (8, lambda: ' same => %s,%s' % (prio7(r, gen.LABELS), simple(r))), (1.5, lambda: '[%s]' % r.choice(ctxs + ['general', 'globals'])),
                   (.6, lambda: 'include => %s' % r.choice(ctxs)), (.6, lambda: r.choice(['exten => ', 'exten => s', 'exten => s,', 'exten => ,1,NoOp()', 'exten => _,1,NoOp()', 'exten => _[],1,NoOp()', 'same => ', ' same => n', 'exten => s,n', 'exten => _[1,n,NoOp()', 'exten => -,1,NoOp()', 'exten => _-,1,NoOp()'])),
                   (.3, lambda: 'exten => %s,%s' % (r.choice(pats), prio7(r, gen.LABELS))))
    return dp(rng, line, hdr=.3, com=False, ctxs=ctxs, size=(3, 14))


def g08(rng):
    ctxs = few(rng, gen.CTXS, 3) + ['general', 'globals', 'General', 'GLOBALS', 'general ']
    names = NAMES[:rng.choice([1, 1, 2, 3])]

    def mk(r, n, nm):
        ls = []
        if r.random() < .3:
            ls += ['[general]', 'x=1', '[globals]', 'y=2']
        for _ in range(n):
            ls.append(mix(r, (6, lambda: '[%s]%s' % (r.choice(ctxs), r.choice(['', '', '', '', '(!)', '(+)', '(a)']))),
                          (3, lambda: 'exten => %s,%s,%s' % (r.choice(['s', '1', '_X']), r.choice(['1', 'n', '2']), simple(r))), (2, lambda: ' same => n,NoOp()'),
                          (2, lambda: 'include%s%s' % (gen.arrow(r), r.choice(ctxs))), (.8, lambda: 'switch%sx' % gen.arrow(r)), (.8, lambda: 'ignorepat%s9' % gen.arrow(r)),
                          (2, lambda: '%s%s%s' % (r.choice(['foo', 'Exten', 'extens', 'same ', 'SAME', 'includes', 'a', 'static', '']), r.choice(['=', ' => ']), r.choice(['x', 's,1,NoOp()', '']))),
                          (1, lambda: gen.blank(r)), (.5, lambda: gen.junk(r)), (1.5 if len(nm) > 1 else 0, lambda: gen.include(r, nm, .1)),
                          (.5, lambda: 'exten=%s,1,NoOp()' % r.randint(1, 9))))
        return ls
    return tree(rng, mk, len(names), len(names), (1, 12), (0, 5), noise=0, plain=.9)


def g09(rng):
    fam = rng.choice([['_X', '_[0-9]', '_x', '_[9-0]'], ['100', '1-00', '_100', '_1-0-0', '_10[0]'], ['_N', '_n', '_[2-9]', '_[23456789]', '_-N'],
                      ['_[13]', '_[31]', '_[1-13]', '_[1133]'], ['s', '_s', 'S'], ['_X.', '_[0-9].', '_X-.', '_X!'], ['_[0-35]', '_[01235]', '_[0-25]', '_[5-5321-0]'],
                      ['_Z', '_[1-9]', '_z', '_[9-1]'], ['abc', '_abc', '_[a]bc', 'a-bc', 'ABC']])
    pats = fam + few(rng, gen.EXTENS, 1)
    if gen.LARGE:
        pats = pats * 3 + ['%d' % i for i in range(rng.choice([2, 12, 40]))]
    ctxs = few(rng, gen.CTXS, 2)[:rng.choice([1, 2, 9])]
    labels = few(rng, gen.LABELS + ['one', 'x'], 3) + ['x']

    def line(r):
        p = lambda: mix(r, (4, lambda: 'n'), (4, lambda: '1'), (4, lambda: str(r.randint(1, 3))), (.3, lambda: '01'))
        lab = lambda: mix(r, (3, lambda: ''), (4, lambda: '(%s)' % r.choice(labels)), (.2, lambda: '()'))
        return mix(r, (9, lambda: 'exten => %s,%s%s,%s' % (r.choice(pats), p(), lab(), simple(r))), (4, lambda: ' same => %s%s,%s' % (p(), lab(), simple(r))),
                   (2, lambda: '[%s]' % r.choice(ctxs)), (.3, lambda: 'include => x'))
    names = NAMES[:rng.choice([1, 1, 1, 2])]
    mk = lambda r, n, nm: dp_lines(r, n, nm, line, hdr=.3, ctxs=ctxs, com=False, junk=.1, blank=.5)
    return tree(rng, mk, len(names), len(names), (3, 14), (1, 6), noise=0, plain=.95)


def pattern(rng):
    """A random pattern."""
    if rng.random() < .25:
        return chars(rng, '0123456789abcsixnzXNZ*#+-', 1, 5)
    one = lambda: mix(rng, (6, lambda: rng.choice('0123456789')), (3, lambda: rng.choice('XZNxzn')), (2, lambda: rng.choice('abcsi*#+-')), (5, lambda: charset(rng)))
    return '_' + ''.join(one() for _ in range(rng.randint(0, 4))) + rng.choice(['', '', '', '.', '!', '-', '.x', '!.'])


def charset(rng):
    part = lambda: mix(rng, (5, lambda: rng.choice('0123456789')), (4, lambda: '%s-%s' % tuple(rng.choice('0123456789') for _ in 'ab')),
                       (2, lambda: rng.choice('abcxyzXNZABC')), (1, lambda: '%s-%s' % tuple(rng.choice('abcdwxyz') for _ in 'ab')), (1, lambda: rng.choice('*#+.!-')))
    return '[' + ''.join(part() for _ in range(rng.randint(1, 4))) + ']'


def g10(rng):
    pats = [p for p in (pattern(rng) if rng.random() < .5 else rng.choice(gen.EXTENS) for _ in range(rng.randint(2, 6)))]
    ctxs = few(rng, gen.CTXS, 3)
    apps = ['NoOp', 'Answer()', 'NoOp(x', 'Verbose(1,%s)' % ('long ' * 9), 'Dial(SIP/${EXTEN},30)', '', 'NoOp(a)b', 'NoOp)', 'Goto(s,1)']

    def line(r):
        return mix(r, (8, lambda: 'exten => %s,%s%s,%s' % (r.choice(pats), r.choice(['1', '1', 'n', '2', '3', '10', '999']), r.choice(['', '', '(l%d)' % r.randint(1, 30), '(averylonglabelindeed)']), r.choice(apps))),
                   (6, lambda: ' same => n%s,%s' % (r.choice(['', '', '(m%d)' % r.randint(1, 30)]), r.choice(apps))), (1.5, lambda: '[%s]' % r.choice(ctxs)),
                   (1.2, lambda: 'include => %s' % r.choice(ctxs + ['nosuch', 'averylongcontextnamethatgoesbeyondthecolumnindeed'])))
    return dp(rng, line, hdr=.2, blank=.3, com=False, ctxs=ctxs, size=(3, 16), junk=.1)


def g11(rng):
    pats = [pattern(rng) for _ in range(4)]
    line = lambda r: 'exten => %s,%s,NoOp()' % (r.choice(pats), r.choice(['1', 'n', '2']))
    return dp(rng, line, hdr=.3, blank=.3, com=False, junk=.05, size=(2, 6))


# ---- C13: gotos ----

def g13(rng):
    ctxs = few(rng, gen.CTXS, 3)
    labels = few(rng, gen.LABELS, 3)
    pats = few(rng, ['s', '100', '101', '_X', '_1XX', '_X.', '_N', 'i', '_[a-c]bc', '_!', 'h', '_100', '_Z', '_2[0-2]', '1-0-1', '_abc', '*1', '_1!'], 4)
    extens = ['s', '100', '101', '1', '5', '200', 'abc', '*1', 'i', '21', '12345', '1-01', '-', 'x']
    d = lambda r: gen.dest(r, ctxs=ctxs, extens=extens, labels=labels)

    def a(r):
        return mix(r, (5, lambda: 'Goto(%s)' % d(r)), (2, lambda: 'Gosub(%s%s)' % (d(r), gen.gosubargs(r))), (2, lambda: 'GotoIf($[${x}]?%s:%s)' % (d(r), d(r))),
                   (1, lambda: 'GotoIf(${x}?%s)' % d(r)), (1, lambda: 'GotoIf(${x}?:%s)' % d(r)), (1, lambda: 'GosubIf($[${x}]?%s%s:%s)' % (d(r), gen.gosubargs(r), d(r))),
                   (1, lambda: 'ExecIf($[${x}]?Goto(%s):Gosub(%s))' % (d(r), d(r))), (4, lambda: simple(r)), (.5, lambda: 'ExecIf(${x}?GotoIf(${y}?%s))' % d(r)),
                   (.3, lambda: 'GotoIfTime(*,*,*,*?%s)' % d(r)), (.2, lambda: 'Macro(%s)' % d(r)), (.2, lambda: 'goto(%s)' % d(r)))

    def line(r):
        p = lambda: r.choice(['1', 'n', 'n', '2', '3']) + r.choice(['', '', '(%s)' % r.choice(labels)])
        return mix(r, (8, lambda: 'exten => %s,%s,%s' % (r.choice(pats), p(), a(r))), (6, lambda: ' same => %s,%s' % (p(), a(r))),
                   (1.5, lambda: '[%s]' % r.choice(ctxs)), (1.8, lambda: 'include => %s' % r.choice(ctxs + ['nosuch'])))
    more = []
    if gen.LARGE and rng.random() < .7:
        for i in rng.sample(ctxs, 2):
            more += ['[%s]' % i] + ['include => %s' % k for k in rng.sample(ctxs, rng.randint(3, len(ctxs)))]
    return dp(rng, line, hdr=.2, blank=.3, com=False, ctxs=ctxs, size=(4, 16), junk=.1, more=more)


# ---- C14, C15, C16, C25: application data ----

def body(rng, mkapp, size=(1, 8)):
    n = rng.randint(*size) * (4 if gen.LARGE else 1)
    ls = ['[general]', '[globals]', '', '[a]', 'exten => _X,1,%s' % mkapp(rng)]
    ls += [' same => n%s,%s' % (rng.choice(['', '', '', '(l%d)' % i]), mkapp(rng)) for i in range(n)]
    return case([('extensions.conf', '\n'.join(i.replace('\n', ' ') for i in ls) + '\n')], ver=rng.choice(['v13', 'v13', 'v13', 'v11', 'vall']))


def pick_app(rng, names, **kw):
    for _ in range(200):
        a = gen.app(rng, **kw)
        if a.strip(' \t').split('(')[0].strip().lower() in names:
            return a
    return a


def wild(rng, n=(0, 12)):
    return chars(rng, 'ab1,,,|()[]""\\\\?:&{}\'$', *n).replace(';', '')


def g14(rng):
    def a(r):
        return mix(r, (5, lambda: pick_app(r, ('voicemail', 'milliwatt', 'originate', 'goto', 'gosub'))),
                   (3, lambda: gen.wrap(r, r.choice(['VoiceMail', 'Milliwatt', 'Originate', 'Goto', 'Gosub', 'NoOp', 'voicemail', 'Dial']), wild(r))),
                   (2, lambda: 'VoiceMail(%s,%s)' % (wild(r, (0, 5)), chars(r, 'bgsuUPdzx${}', 0, 4))),
                   (1, lambda: 'Originate(%s,%s,%s)' % (wild(r, (0, 4)), r.choice(['app', 'exten', 'x', '"app"', '\\app', ' app']), wild(r, (0, 5)))), (2, lambda: gen.app(r)),
                   (1, lambda: gen.wrap(r, r.choice(['NoOp', 'Answer', ' NoOp', 'NoOp ', 'noop', '\tDial', '']), '')))
    return body(rng, a)


def g15(rng):
    names = ('gotoif', 'gosubif', 'execif', 'gotoiftime', 'execiftime')

    def a(r):
        inner = lambda: mix(r, (3, lambda: simple(r)), (2, lambda: gen.app(r)), (1, lambda: 'Goto(%s)' % gen.dest(r)), (1, lambda: r.choice(['noop', 'Foo()', 'NoOp', 'answer()', '${x}(a)', 'Set(a=b)', 'Foo(']))
                                , (1, lambda: 'ExecIf(%s?%s)' % (gen.condition(r), simple(r))))
        return mix(r, (5, lambda: pick_app(r, names)), (2, lambda: 'ExecIf(%s?%s:%s)' % (gen.condition(r), inner(), inner())),
                   (1, lambda: 'ExecIf(%s?%s)' % (gen.condition(r), inner())), (1, lambda: 'ExecIf(%s?:%s)' % (gen.condition(r), inner())),
                   (2, lambda: '%s(%s)' % (r.choice(['GotoIf', 'GosubIf', 'ExecIf', 'GotoIfTime', 'ExecIfTime', 'gotoif']), wild(r))),
                   (2, lambda: '%s(%s?%s)' % (r.choice(['GotoIf', 'GosubIf', 'ExecIf', 'GotoIfTime', 'ExecIfTime']), gen.condition(r), wild(r))),
                   (1, lambda: 'GotoIf(%s?%s:%s)' % (r.choice(['"?"', '[?]', '(?)', '\\?', '${a?b}', '$[a?b]', '?', '']), gen.dest(r), gen.dest(r))),
                   (1, lambda: 'GotoIf($[${a}]?%s:%s)' % (r.choice(['"a:b",s,1', '(a:b)', '[a:b],1', 'a\\:b,1', 'a:b:c', '::', ' ', ' : ', 'a,s,1,2', 'one:', ':two']), gen.dest(r))))
    return body(rng, a)


def g16(rng):
    def a(r):
        data = lambda: mix(r, (5, lambda: gen.text(r)), (3, lambda: gen.ref(r)), (2, lambda: ''.join(gen.ref(r) for _ in range(r.randint(1, 3)))),
                           (2, lambda: chars(r, '${}[]()ab:1-', 0, 14)), (1, lambda: '${foo%s}' % gen.slice_(r)), (1, lambda: '${LEN(%s)%s}' % (gen.text(r), gen.slice_(r))))
        return mix(r, (6, lambda: '%s(%s)' % (r.choice(['NoOp', 'Set', 'Verbose', 'Dial', 'Goto', 'GotoIf', 'ExecIf']), data())), (2, lambda: 'Set(%s=%s)' % (data(), data())), (2, lambda: gen.app(r)),
                   (1, lambda: 'NoOp(%s' % data()), (1, lambda: 'Set(%s(%s)=%s)' % (r.choice(gen.FUNCS), data(), data())), (.5, lambda: '%s(%s)' % (data(), data())))
    return body(rng, a)


def g17(rng):
    names = catalogue_names()

    def nm(r, pool):
        n = r.choice(pool)
        return mix(r, (6, lambda: n), (1, lambda: n.lower()), (1, lambda: n.upper()), (1, lambda: n.swapcase()), (.5, lambda: n[:-1]), (.5, lambda: n + 'x'), (.3, lambda: n.capitalize()),
                   (.4, lambda: r.choice(['Unknown', 'unknown', 'UNKNOWN', 'BackGround', 'Background', 'background', 'ODBC_FOO', 'odbc_foo', 'ODBC_FETCH', 'DB_KEYS', 'SIP_HEADER', 'db_keys'])))

    def a(r):
        app_ = lambda: nm(r, names['app'])
        func = lambda: nm(r, names['func'])
        return mix(r, (6, lambda: '%s(x)' % app_()), (4, lambda: 'NoOp(${%s(x)})' % func()), (2, lambda: 'Set(%s(x)=y)' % func()), (1, lambda: 'ExecIf(${x}?%s(a):%s(b))' % (app_(), app_())),
                   (1, lambda: 'NoOp(${%s(${%s(x)})})' % (func(), func())), (.5, lambda: '%s' % app_()), (1, lambda: 'NoOp($[${%s(a)}])' % func()), (1, lambda: gen.app(r)))
    c = body(rng, a, (3, 12))
    c['ver'] = rng.choice(['v13', 'v11', 'vall'])
    return c


_names = {}


def catalogue_names():
    """All names of all versions, from the specification."""
    if not _names:
        import os
        import re
        import common
        text = open(os.path.join(common.SPEC, 'Catalogue.tla')).read()
        app, func = set(), set()
        cur = None
        for line in text.splitlines():
            m = re.match(r'(App|Func)List_', line)
            if m:
                cur = m.group(1)
            m = re.match(r'\s*<<"([^"]+)",', line)
            if m:
                (func if cur == 'Func' else app).add(m.group(1))
        _names['app'], _names['func'] = sorted(app), sorted(func)
    return _names


def g_modules(rng):
    """Many names of few modules, in any order, and many that no module has."""
    names = catalogue_names()
    c = {}

    def pick(pool):
        k = rng.choice([3, 8, 20, 60])
        lo = rng.randrange(len(pool))
        ls = rng.sample(pool, min(k, len(pool))) if rng.random() < .6 else (pool[lo:] + pool[:lo])[:k]
        ls += [gen.chars(rng, 'abcXYZ_1', 3, 9) for _ in range(rng.choice([0, 2, 5, 12]))]
        ls = [mix(rng, (8, lambda: i), (1, lambda: i.lower()), (1, lambda: i.upper())) for i in ls]
        rng.shuffle(ls)
        return ls
    lines = ['[general]', '[globals]', '[a]']
    apps, funcs = pick(names['app']), pick(names['func'])
    for i, n in enumerate(apps):
        lines.append('exten => %d,1,%s(x)' % (i, n))
    for i, n in enumerate(funcs):
        lines.append('exten => f%d,1,%s' % (i, rng.choice(['NoOp(${%s(x)})', 'Set(%s(x)=y)', 'NoOp(${%s()})']) % n))
    c = case([('extensions.conf', '\n'.join(lines) + '\n')])
    c['ver'] = 'v13'
    return c


ODBC_KEYS = ['prefix', 'synopsis', 'dsn', 'escapecommas', 'mode', 'rowlimit', 'readhandle', 'writehandle', 'readsql', 'writesql', 'insertsql', 'read', 'write']


def odbc_lines(rng, n, names):
    ls = []
    secs = ['FOO', 'BAR', 'A_B', 'foo', '_X', 'A__B', 'X1', '9', 'A_', 'FOO', 'FETCH']
    for _ in range(n):
        if rng.random() < .06:
            # the name of a function of Asterisk
            p_, s_ = rng.choice([('', 'FETCH'), ('ODBC', 'fetch'), ('DB', 'KEYS'), ('db', 'keys'), ('SIP', 'HEADER'), ('DB', 'Exists')])
            ls += ['[%s]' % s_] + (['prefix=%s' % p_] if p_ else []) + [rng.choice(['readsql=x', 'writesql=x', 'read=x', 'dsn=x'])]
        ls.append(mix(
            rng, (.4 if gen.LARGE else 2.5, lambda: '[%s]%s' % (rng.choice(secs), rng.choice(['', '', '', '', '(!)']))),
            (8, lambda: '%s%s%s' % (rng.choice(ODBC_KEYS), rng.choice(['=', '=', '=', ' => ', ' = ', '=>']), mix(
                rng, (4, lambda: rng.choice(['SELECT 1', 'x', '', 'P', 'SELECT ${ARG1}', 'yes'])), (1, lambda: 'SELECT 1\\;'), (.5, lambda: 'a\\;b')))),
            (1, lambda: 'prefix=%s' % rng.choice(['P', '', 'my', 'ODBC', 'P_'])),
            (1, lambda: '%s=x' % rng.choice(['foo', 'Prefix', 'READ', 'syntax', 'reads', '', 'readsql2', ' readsql'])),
            (1, lambda: gen.blank(rng)), (.3, lambda: gen.junk(rng)), (.7 if len(names) > 1 else 0, lambda: gen.include(rng, names, .1))))
    return ls


def g18(rng):
    names = ['func_odbc.conf', 'x.conf'][:rng.choice([1, 1, 2])]
    files = []
    for i, name in enumerate(names):
        ls = [gen.comment(rng, l) if rng.random() < .2 else l for l in odbc_lines(rng, rng.randint(1, 12 if i == 0 else 4) * (5 if gen.LARGE else 1), names)]
        if i == 0 and rng.random() < .8:
            ls = ['[FOO]'] + ls
        files.append((name, '\n'.join(ls) + '\n'))
    runs = [('odbc', 'func_odbc.conf')]
    if rng.random() < .6:
        funcs = ['ODBC_FOO', 'P_FOO', 'ODBC_BAR', 'odbc_foo', 'ODBC_A_B', 'ODBC_foo', 'P_BAR', 'ODBC_X1', 'my_FOO', 'FOO', '_FOO', 'ODBC_9', 'P__FOO', 'p_foo', 'ODBC_Foo', 'LEN', 'ODBC_FETCH', 'ODBC_fetch', 'DB_KEYS', 'db_keys', 'SIP_HEADER', 'DB_EXISTS', 'DB_Exists']
        lines = ['[general]', '[globals]', '', '[a]', 'exten => s,1,NoOp()']
        lines += [' same => n,%s' % rng.choice(['NoOp(${%s(1)})', 'Set(%s(a)=b)', 'NoOp($[${%s(${x})}])']) % rng.choice(funcs) for _ in range(rng.randint(1, 5))]
        files.append(('extensions.conf', '\n'.join(lines) + '\n'))
        runs.append(('dialplan', 'extensions.conf'))
        if rng.random() < .15:
            runs.reverse()
    return case(files, runs=runs)


def g20(rng):
    r = rng.random()
    if r < .5:
        c = tree(rng, dp_lines, 1, 5, noise=.5)
    elif r < .7:
        c = tree(rng, lambda r_, n, nm: [wild_line(r_) for _ in range(n)], 1, 2, noise=.5)
    elif r < .8:
        c = tree(rng, conf_lines, 1, 4, mode='conf', noise=.5)
    else:
        c = tree(rng, odbc_lines, 1, 3, mode='odbc', noise=.4)
    return c


def wild_line(rng):
    pre = rng.choice(['', 'exten => ', 'exten => s,1,', ' same => n,', 'exten => _', '[', '#include ', 'exten => s,n(', ' same => n,Set(', ' same => n,ExecIf(',
                      ' same => n,NoOp(${', ' same => n,Goto(', ' same => n,GotoIf(', ' same => n,Gosub(', 'include => '])
    return pre + ''.join(rng.choice(['a', 'b', '1', '0', ',', '(', ')', '[', ']', '{', '}', '$', '${', '$[', ':', '?', '=', '=>', '"', "'", '\\', '\\;', ' ', '-', '_', '.', '!', 'X', 'NoOp', 'LEN', 'EXTEN', 'SET('])
                         for _ in range(rng.randint(0, 18)))


def g25(rng):
    def a(r):
        data = lambda: mix(r, (4, lambda: chars(r, '()[]{}""\'\'ab\\', 0, 7)), (2, lambda: gen.text(r)), (3, lambda: balanced(r)), (1, lambda: nested(r)), (2, lambda: balanced(r) + chars(r, '()[]{}"\'ab', 0, 2) + balanced(r)),
                           (1, lambda: gen.ref(r) + chars(r, '()[]{}"\'', 0, 3)))
        return mix(r, (5, lambda: '%s(%s)' % (r.choice(['NoOp', 'Verbose', 'Dial', 'System', 'Playback', 'Background', 'UserEvent', 'Foo', 'Return']), data())),
                   (3, lambda: 'Set(%s=%s)' % (r.choice(['a', 'LEN(x)', 'SHELL(%s)' % data()]), data())), (3, lambda: 'NoOp(${%s(%s)})' % (r.choice(gen.FUNCS), data())), (1, lambda: gen.app(r)),
                   (1, lambda: '%s(%s)' % (r.choice(['Goto', 'VoiceMail', 'GotoIf', 'Milliwatt']), data())), (1, lambda: 'NoOp(%s' % data()), (1, lambda: 'Gosub(s,1(%s)' % data()))
    return body(rng, a)


def balanced(rng, d=0):
    if d > (14 if gen.LARGE else 3):
        return 'a'
    return ''.join(mix(rng, (3, lambda: chars(rng, 'ab,', 0, 2)), (1, lambda: '(%s)' % balanced(rng, d + 1)), (1, lambda: '[%s]' % balanced(rng, d + 1)),
                       (1, lambda: '{%s}' % balanced(rng, d + 1)), (1, lambda: '"%s"' % chars(rng, "ab)]}([{'", 0, 3)), (1, lambda: "'%s'" % chars(rng, 'ab)]}([{"', 0, 3)), (.5, lambda: '${foo}'))
                   for _ in range(rng.randint(0, 3) if d < 3 else rng.choice([0, 1, 1, 1, 1, 1, 2])))


def nested(rng):
    """Brackets in brackets, and often one of them wrong."""
    out, stack = [], []
    top = rng.choice([2, 4, 8, 20] if gen.LARGE else [2, 4])
    down = False
    while not down or stack:
        if stack and (down or rng.random() < .2):
            out.append(stack.pop())
        else:
            i = rng.choice(['()', '[]', '{}', '()'])
            out.append(i[0])
            stack.append(i[1])
        down = down or len(stack) >= top
        if rng.random() < .2:
            out.append(rng.choice(['a', ',', 'b', '"("', "']'"]))
    if rng.random() < .6:
        i = rng.randrange(len(out))
        out[i:i + rng.choice([0, 1])] = rng.choice(['', ')', ']', '}', '(', '[', '{', '"'])
    return ''.join(out)


# ---- C12: which numbers a pattern accepts, seen through gotos ----

def g12(rng):
    import patterns
    pats = []
    for _ in range(3):
        p = patterns.random_pattern(rng).replace(',', '').replace(';', '')
        pats.append(p if p else 's')
    if rng.random() < .3:
        pats.append(rng.choice(['_', '_-', '_[', '_[]', '_1[2', '_[]1]', '_[-]', '_X[', '_.[', '_--', '_[[]', '_]', '_1]', '_[1]]']))

    def num(r):
        return (patterns.number_for(r, r.choice(pats)).replace(',', '').replace(';', '') or '1')

    def app(r):
        return mix(r, (6, lambda: 'Goto(b,%s,1)' % num(r)), (2, lambda: 'Goto(1)'), (1, lambda: 'Goto(%s,1)' % num(r)),
                   (1, lambda: 'Goto(b,${EXTEN},1)'), (1, lambda: 'Goto(b,${EXTEN:%d},1)' % r.randint(-2, 2)),
                   (1, lambda: 'NoOp()'))
    ls = ['[general]', '[globals]', '', '[b]']
    ls += ['exten => %s,%s,NoOp()' % (p, rng.choice(['1', '1', '1', '2'])) for p in pats]
    ls += ['', '[a]']
    for _ in range(rng.randint(3, 8)):
        ls.append(mix(rng, (3, lambda: 'exten => %s,1,%s' % (rng.choice(pats), app(rng))), (5, lambda: ' same => n,%s' % app(rng))))
    return case([('extensions.conf', '\n'.join(ls) + '\n')])


# ---- one of every character in every place that matters ----

ONE = [chr(i) for i in range(32, 127)] + ['\t', '\r', '\x01', '\x1a', '\x7f', '\u00e9', '\u00a0', '\u20ac']
DPHEAD = ['[general]', '[globals]', '', '[a]']
SWEEPS = {
    'C03': [('reader', i) for i in ('a%s;b', 'a\\%s;b', 'a;%sb', 'a%s\\;b', '%s;', ' %s ;a', '\\;%s;\\;')],
    'C04': [('conf', i) for i in ('a%sb', 'a%s=b', 'a=%sb', '[a%sb]', '%s[a]', '[a]%s', '%s=1', 'a =%s 1', 'a%s=>1', '[a](%s)', '%s', '[a\\\\%sb]', 'a\\\\%sb=c', 'a=b\\\\%sc', '[a](b%s,c)', '%s[]', '[%s]')],
    'C05': [('conf', i) for i in ('%s', ' %s', '%s;')],
    'C06': [('conf', i) for i in ('#include%sx.conf', '#include %sx.conf', '#include x.conf%s', '%s#include x.conf', '#%sinclude x', '#include "x.conf%s',
                                  '#exec%s"a"', '#tryinclude%s<x.conf>', '#include <x.conf>%s', '#include x%s.conf', '#include <x.conf%s>', '#include <%sx.conf>',
                                  '#include "%sx.conf"', '#include "%sx.conf%s"', "#include 'x.conf%s'", '#include %s', '#include %sx.conf%s')],
    'C07': [('dp', i) for i in ('exten => 1%d,%s,NoOp()', 'exten => 1%d,1%s,NoOp()', 'exten => 1%d,1(%s),NoOp()', 'exten => 1%d,1(a)%s,NoOp()',
                                ' same => n%s,NoOp()', 'exten => 1%d%s1,NoOp()')],
    'C08': [('dp', i) for i in ('exten%s=> 1%d,1,NoOp()', 'incl%sude => b', '[b%s]', '[%sgeneral]', '[globals%s]')],
    'C09': [('dp', i) for i in ('exten => _1%s2X,1,NoOp()', 'exten => _12%sX,1,NoOp()', 'exten => _[1%s]X,1,NoOp()', 'exten => 3%s,1,NoOp()',
                                'exten => 4,n(a%s),NoOp()')],
    'C10': [('dp', i) for i in ('exten => _1%s2,1,NoOp()', 'exten => _[1%s],1,NoOp()', 'exten => 3%s,1,NoOp(%s)', 'exten => 1%d,1(%s),a%s', 'include => b%s')],
    'C11': [('dp', i) for i in ('exten => _1%s2,1,NoOp()', 'exten => _[%s],1,NoOp()', 'exten => _[1%s],1,NoOp()', 'exten => _[%s-0],1,NoOp()',
                                'exten => _[0-%s],1,NoOp()', 'exten => %s1,1,NoOp()', 'exten => _[2-%s5],1,NoOp()')],
    'C12': [('dp', i) for i in ('exten => 1%d,1,Goto(b,%s,1)', 'exten => 1%d,1,Goto(b,5%s,1)', 'exten => _[%s]9,1,Goto(a,,1)', 'exten => _8%s,1,Goto(a,,1)',
                                'exten => %s,1,Goto(a,,1)')],
    'C13': [('dp', i) for i in ('exten => 1%d,1,Goto(b%s,s,1)', 'exten => 1%d,1,Goto(b,s%s,1)', 'exten => 1%d,1,Goto(b,s,1%s)', 'exten => 1%d,1,Goto(b,s,x%s)',
                                'exten => 1%d,1,Gosub(b,s,%s(1))', 'exten => 1%d,1,Goto(b,s,%s)')],
    'C14': [('dp', i) for i in ('exten => 1%d,1,Dial(a%sb,c)', 'exten => 1%d,1,Dial(a,b,%s)', 'exten => 1%d,1,Queue(q,%s%s)', 'exten => 1%d,1,%sDial(a)',
                                'exten => 1%d,1,Dial%s(a)', 'exten => 1%d,1,Goto(a%sb,s,1)', 'exten => 1%d,1,Answer(%s)', 'exten => 1%d,1,Dial(a)%s',
                                'exten => 1%d,1,MeetMe(a,%sd,c%s,d,e)')],
    'C15': [('dp', i) for i in ('exten => 1%d,1,GotoIf(${a}%s?b:c)', 'exten => 1%d,1,GotoIf(${a}?b%s:c)', 'exten => 1%d,1,ExecIf(%s${a}?NoOp(a):NoOp())',
                                'exten => 1%d,1,GotoIf(${a}?%sb,s,1:c)', 'exten => 1%d,1,ExecIf($[1]?No%sOp(a))', 'exten => 1%d,1,GotoIf($[1]%sb:c)',
                                'exten => 1%d,1,GotoIfTime(a%s?b)', 'exten => 1%d,1,ExecIf($[1]?Set(a%sb))')],
    'C16': [('dp', i) for i in ('exten => 1%d,1,NoOp(${a%sb})', 'exten => 1%d,1,NoOp(${a:%s})', 'exten => 1%d,1,NoOp(${a:1:%s})', 'exten => 1%d,1,NoOp(${%s})',
                                'exten => 1%d,1,NoOp(${LEN(a)%s})', 'exten => 1%d,1,NoOp(${LEN(a%s)})', 'exten => 1%d,1,NoOp($%s${a})', 'exten => 1%d,1,NoOp($[1%s])',
                                'exten => 1%d,1,NoOp(${a:-%s})', 'exten => 1%d,1,NoOp(${a:1%s})')],
    'C17': [('dp', i) for i in ('exten => 1%d,1,No%sOp()', 'exten => 1%d,1,NoOp%s()', 'exten => 1%d,1,NoOp(${LE%sN(a)})', 'exten => 1%d,1,NoOp(${LEN%s(a)})',
                                'exten => 1%d,1,Set(C%sDR(a)=b)')],
    'C18': [('odbc', i) for i in ('[F%sO]', '[%s]', '[FO%s]', 'readsql=%s', 'readsql=a%s', 'prefix%s=a', 'dsn%s=a', '[A]', 'read%s=1')],
    'C25': [('dp', i) for i in ('exten => 1%d,1,Answer(%s)', 'exten => 1%d,1,Set(a=%s)', 'exten => 1%d,1,NoOp(${LEN(%s)})', 'exten => 1%d,1,UserEvent("%s)',
                                'exten => 1%d,1,UserEvent((%s)', "exten => 1%d,1,Set(a='%s')", 'exten => 1%d,1,UserEvent([%s)')],
}


WORD = ['n', 'next', 'same', 's', 'h', 'i', 't', 'hint', 'hints', 'N', 'Hint', 'HINT', 'Next', 'last', 'exten', 'include', 'general', 'globals', 'default', 'true', 'yes', 'no',
        'none', 'None', 'null', 'nan', 'inf', 'EXTEN', 'start', 'begin', 'a+1', 'n+1', 's+1', 'n-1', '1+1', '-1', '+1', '00', '01', '010', '0x1', '1e1', '1.0', '1_0', ' 1', '1 ', '1,1', '1;1', '1 1',
        '9' * 30, '9' * 31, '0' * 30 + '1', '', ' ', '_', '__', '_1', '_X', '_X.', '_.', '.', '!', 'X', '*', '#', '(', ')', '()', '(a)', '[', ']', '[]', '${', '${}', '${a}', '$[1]', '$', '"a"', "'a'",
        'ignorepat', 'switch', 'eswitch', 'lswitch', 'autohints', 'extension', 'extens', 'includes', 'Exten', 'EXTEN ', 'Same', 'Include', 'static', 'writeprotect', 'clearglobalvars',
        'noop', 'NoOp', 'NOOP', 'len', 'LEN', 'Len', 'set', 'dial', 'macro', 'exec', 'x' * 79, 'x' * 80, 'x' * 81, 'x' * 255, 'x' * 256, 'x' * 257, '1' * 79, '1' * 80, '1' * 255]
WORDS = {
    'C04': [('conf', i) for i in ('%s', '%s=1', 'a=%s', '[%s]', '[a](%s)', '%s => 1')],
    'C07': [('dp', i) for i in ('exten => 1%d,%s,NoOp()', 'exten => 1%d,1(%s),NoOp()', 'exten => %s,1,NoOp()', 'exten => %s,n,NoOp()')],
    'C08': [('dp', i) for i in ('%s => b', '%s => 1%d,1,NoOp()', '[%s]', 'include => %s')],
    'C09': [('dp', i) for i in ('exten => %s,1,NoOp()', 'exten => 1%d,1(%s),NoOp()')],
    'C10': [('dp', i) for i in ('exten => %s,1,NoOp(%d)', 'include => %s')],
    'C13': [('dp', i) for i in ('exten => 1%d,1,Goto(%s,s,1)', 'exten => 1%d,1,Goto(b,%s,1)', 'exten => 1%d,1,Goto(b,s,%s)', 'exten => 1%d,1,Goto(%s)', 'exten => 1%d,1,GotoIf(${a}?%s)',
                                'exten => 1%d,1,Gosub(%s,1)')],
    'C14': [('dp', i) for i in ('exten => 1%d,1,Dial(%s)', 'exten => 1%d,1,Queue(q,%s)', 'exten => 1%d,1,Macro(%s)')],
    'C15': [('dp', i) for i in ('exten => 1%d,1,ExecIf(${a}?%s)', 'exten => 1%d,1,ExecIf(%s?NoOp())', 'exten => 1%d,1,GotoIf(%s?a:b)')],
    'C16': [('dp', i) for i in ('exten => 1%d,1,NoOp(${%s})', 'exten => 1%d,1,NoOp(${a:%s})', 'exten => 1%d,1,NoOp($[%s])', 'exten => 1%d,1,Set(%s=1)', 'exten => 1%d,1,NoOp(${LEN(%s)})')],
    'C17': [('dp', i) for i in ('exten => 1%d,1,%s()', 'exten => 1%d,1,%s', 'exten => 1%d,1,NoOp(${%s(a)})', 'exten => 1%d,1,Set(%s(a)=b)')],
    'C18': [('odbc', i) for i in ('[%s]', '%s=a', 'prefix=%s', 'dsn=%s', 'readsql=%s')],
}


def sweeps(prop):
    """Files of lines that hold each character, or each odd word, once in the same place."""
    ret = []
    if prop == 'C02':
        all_ = [i for i in range(256) if i != 10]
        ret += [case([('extensions.conf', b''.join(mk(i) for i in all_))], runs=[('reader', 'extensions.conf')]) for mk in (
            lambda i: b'a' + bytes([i]) + b'b\n', lambda i: bytes([i]) + b'\n', lambda i: b'\xc3' + bytes([i]) + b'\r\n',
            lambda i: bytes([i, 0x80]) + b'\n', lambda i: b'\xe2' + bytes([i]) + b'\xac\n', lambda i: b'x' * i + b'\x07\n')]
        ret += [case([('extensions.conf', b'a\n' + bytes([i]))], runs=[('reader', 'extensions.conf')]) for i in all_]
        ret += [case([('extensions.conf', b'x' * i)], runs=[('reader', 'extensions.conf')]) for i in range(1, 140)]
        ret += [case([('extensions.conf', i * 1100)], runs=[('reader', 'extensions.conf')]) for i in (b'a\x07\n', b'\xe9 \n', b'\r\n')]
        ret += [case([('extensions.conf', b'a\n' * 1100 + b'b\r\n' * 1100)], runs=[('reader', 'extensions.conf')])]
        ret += [case([('extensions.conf', bytes([i, j]) + b'\xbf\xbf\nb\n')], runs=[('reader', 'extensions.conf')])
                for i in (0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5) for j in (0x7f, 0x80, 0x8f, 0x90, 0x9f, 0xa0, 0xbf, 0xc0)]
        return ret
    if prop == 'C01':
        odd = [i for i in list(range(1, 28)) + [127, 233] if i != 10]
        return ([case([('extensions.conf', '[a]\n#include x.conf\nb=1\n'), ('x.conf', b'c=1\n' + bytes([i]))], runs=[('conf', 'extensions.conf')]) for i in odd] +
                [case([('extensions.conf', b'a\n' + bytes([i]) + b'b\n' + bytes([i]) + b'\n' + bytes([i]))], runs=[('reader', 'extensions.conf')]) for i in odd])
    if prop == 'C26':
        lines = [''.join(w) + ';y' for n in range(7) for w in itertools.product('"\'()', repeat=n)]
        ret += [dict(case([('extensions.conf', '\n'.join(lines[i:i + 300]) + '\n')], runs=[('reader', 'extensions.conf')]), vg=True) for i in range(0, len(lines), 300)]
        lines = [i + c + j for c in ONE + ['\x0b', '\x0c', '\x85'] for i, j in (('', 'a'), ('a\n', 'b;c'), ('a\n ', ';c'), ('a\n;', '\n b'), ('#', 'x\n b')) if (i, c) not in (('#', '#'),)]
        lines = [i for i in lines if '\n #' not in i]
        ret += [dict(case([('extensions.conf', '\n'.join(lines[i:i + 150]) + '\n')], runs=[(mode, 'extensions.conf')]), vg=True)
                for i in range(0, len(lines), 150) for mode in ('reader', 'conf')]
    if prop == 'C06':
        odd = ['~/x.conf', '$HOME/x.conf', '*.conf', '?.conf', '[x].conf', '{x}.conf', 'x conf', '%20.conf', '\\x.conf', 'a\\b.conf', '~', '~root/x.conf', '-', '|x', 'x.conf,v',
               'a+b.conf', '(x).conf', '${X}.conf', '`x`', '$(x)', '!x', '@x', '#x', '=x', '.conf', '...', 'X.CONF', 'x.Conf', '%s.conf', 'con', 'file:x', "x'y"]
        ret += [case([('extensions.conf', 'a=1\n#include %s\n#include "%s"\n#include <%s>\n#tryinclude %s\nb=1\n' % (i, i, i, i)), (i, 'c=1\n'), ('x.conf', 'd=1\n')],
                     runs=[('conf', 'extensions.conf')]) for i in odd]
        ret += [case([('extensions.conf', 'a=1\n' + ''.join('#include %s\n' % i for i in odd)), ('x.conf', 'd=1\n')], runs=[('conf', 'extensions.conf')])]
    for mode, template, every in ([(m, t, ONE[:-3] if prop == 'C12' and '_' in t else ONE) for m, t in SWEEPS.get(prop, [])] +
                                  [(m, t, WORD) for m, t in WORDS.get(prop, [])]):
        lines = []
        for n, c in enumerate(every):
            text = template.replace('%d', '%03d' % n).replace('%s', c)
            lines.append(text)
        if mode == 'dp':
            tail = ['', '', '[b]', 'exten => s,1,NoOp()', 'exten => s,n(x),NoOp()', 'exten => _5X,1,NoOp()', 'exten => _[a-f],1,NoOp()', 'exten => 1,1,NoOp()']
            ret += [case([('extensions.conf', '\n'.join(DPHEAD + lines[i:i + 35] + tail) + '\n')], runs=[('dialplan', 'extensions.conf')])
                    for i in range(0, len(lines), 35)]
        elif mode == 'odbc':
            ret += [case([('extensions.conf', '\n'.join(j for l in lines[i:i + 35] for j in (['[F]'] if l[0] != '[' else []) + [l]) + '\n')],
                         runs=[('odbc', 'extensions.conf')]) for i in range(0, len(lines), 35)]
        else:
            ret.append(case([('extensions.conf', '[c]\n' + '\n'.join(lines) + '\n'), ('x.conf', 'y=1\n')], runs=[(mode, 'extensions.conf')]))
    return ret


# ---- C26: the dialect of contrib/commands/vg.py ----

def vg_text(r):
    return ''.join(r.choice(['a', 'b', '"', "'", '(', ')', ';', ' ', ' ;', '\\', '\\;', '=', ',', '1', '\t', '"a;b"', "'a;b'", '(a;b)'])
                   for _ in range(r.randint(1, 7)))


def vg_line(r, names, dialplan):
    return mix(r, (1.5, lambda: 'a=' + ''.join(r.choice('"\'()') for _ in range(r.randint(3, 14))) + ';y'), (4, lambda: '%s=%s' % (r.choice('abc'), vg_text(r))), (3.5, lambda: r.choice([' ', '  ', '\t', ' \t']) + vg_text(r)),
               (2, lambda: '[%s]' % r.choice('aabc')), (1.5, lambda: gen.blank(r)), (1, lambda: ';' + vg_text(r)), (1, lambda: vg_text(r)),
               (1, lambda: r.choice(['readsql', 'writesql', 'dsn', 'prefix']) + r.choice(['=', '=', ' => ']) + vg_text(r)),
               (.6, lambda: r.choice([' ', '\t', '  '])), (.8, lambda: gen.include(r, names)),
               (4 if dialplan else .2, lambda: gen.dialline(r).lstrip(' \t')), (1 if dialplan else .1, lambda: 'include => ' + r.choice('abcd')),
               (.7 if dialplan else .1, lambda: 'exten => %s,%s,Goto(%s,%s,%s)' % (r.choice('12s'), r.choice('1n'), r.choice('abcd'), r.choice('12s'), r.choice(['1', '2', 'x', 'y']))),
               (.7 if dialplan else .1, lambda: 'exten => %s,%s(%s),NoOp()' % (r.choice('12s'), r.choice('1n'), r.choice('xy'))))


def vg_files(rng, mode, hi=4):
    mk = lambda r, n, names: [i if i.lstrip(' \t')[:1] != '#' or i[0] == '#' else i.strip(' \t')
                              for i in [vg_line(r, names, mode == 'dialplan') for _ in range(n)]]
    c = tree(rng, mk, 1, hi, (1, 14), (0, 5), mode=mode, noise=0, plain=.7)
    if mode == 'dialplan' and rng.random() < .6:
        c['files'][0]['lines'][:0] = [list(i.encode()) for i in ('[general]\n', '[globals]\n', '\n', '[a]\n')]
    return [(dec(f['name']), bytes(sum(f['lines'], []))) for f in c['files']]


def g26(rng):
    mode = rng.choice(['reader', 'conf', 'conf', 'odbc', 'dialplan', 'dialplan', 'dialplan'])
    return dict(case(vg_files(rng, mode), runs=[(mode, 'extensions.conf')]), vg=True)
