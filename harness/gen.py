"""Random inputs.  Everything takes a random.Random."""

CTXS = ['a', 'b', 'c', 'default', 'inbound', 'macro-x', 'A']
EXTENS = ['s', '100', '101', '_X', '_X.', '_X!', '_1XX', '_[0-9]', '_[1-9]', '_Z', '_N', 'i', 'h', 't',
          '_N-X', '1-0-0', '_[13579]', '_[0-2]X', '_.', '_!', '_100', '_x.', '_[12]XX', '_[135-7]', '_10[0-1]',
          'abc', '_abc', '_[a-c]bc', '_*X', '_+X.', '_[#*]', '*1', '_[n]ame', '_name', '_2[0-2]', '_2[013]']
LABELS = ['one', 'two', 'start', 'end', 'One', 'x1', '1x']
VARS = ['EXTEN', 'foo', 'bar', 'ARG1', 'ARG2', 'Foo', 'CALLERID', 'x_y', 'a b', 'x-y', '']
APPS = ['NoOp', 'Answer', 'Dial', 'Playback', 'Hangup', 'Verbose', 'Set', 'Goto', 'GotoIf', 'Gosub', 'GosubIf',
        'ExecIf', 'GotoIfTime', 'ExecIfTime', 'VoiceMail', 'Milliwatt', 'Originate', 'Background', 'BackGround',
        'noop', 'dial', 'Foo', 'SIPAddHeader', 'Return', 'While', 'System', 'Macro', 'UserEvent', 'Queue']
FUNCS = ['CALLERID', 'CUT', 'LEN', 'IF', 'SET', 'INC', 'DEC', 'AUDIOHOOK_INHERIT', 'callerid', 'Len', 'NOSUCH',
         'SHELL', 'DB', 'ODBC_FOO', 'REGEX', 'STRFTIME', 'CHANNEL']


LARGE = False   # see cases.Large


def weighted(rng, pairs):
    total = sum(w for w, _ in pairs)
    x = rng.random() * total
    for w, v in pairs:
        x -= w
        if x <= 0:
            return v
    return pairs[-1][1]


def chars(rng, alphabet, lo, hi):
    if LARGE and hi > 3:
        hi *= rng.choice([1, 1, 2, 5])
    return ''.join(rng.choice(alphabet) for _ in range(rng.randint(lo, hi)))


# ---- application data ----

def text(rng, depth=0):
    """A bit of data, with variables."""
    return ''.join(
        weighted(rng, [
            (6, lambda: chars(rng, 'abcXYZ0189', 1, 4)),
            (1, lambda: chars(rng, ' ,;:|&?=()[]{}"\'\\$', 1, 1).replace(';', '\\;')),
            (4, lambda: ref(rng, depth + 1))])()
        for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3, 9, 20] if LARGE and depth < 2 else [0, 1, 1, 1, 2, 2, 3])))


def ref(rng, depth=0):
    if depth > (9 if LARGE else 3):
        return '${foo}'
    return weighted(rng, [
        (8, lambda: '${%s}' % rng.choice(VARS)),
        (3, lambda: '${%s%s}' % (rng.choice(VARS[:4]), slice_(rng, depth))),
        (3, lambda: '${%s(%s)}' % (rng.choice(FUNCS), text(rng, depth + 1))),
        (1, lambda: '${%s(%s)%s}' % (rng.choice(FUNCS), text(rng, depth + 1), slice_(rng, depth))),
        (1, lambda: '${%s(%s)%s}' % (rng.choice(FUNCS), text(rng, depth + 1), rng.choice(['x', ':x', 'x:1', ')']))),
        (1, lambda: '${%s(%s}' % (rng.choice(FUNCS), text(rng, depth + 1))),
        (1, lambda: '${%s(%s)}' % (ref(rng, depth + 1), text(rng, depth + 1))),
        (3, lambda: '$[%s]' % text(rng, depth + 1)),
        (2, lambda: '$[%s = %s]' % (text(rng, depth + 1), text(rng, depth + 1))),
        (2, lambda: '${%s%s}' % (rng.choice(VARS), ref(rng, depth + 1))),
        (1, lambda: '${%s' % rng.choice(VARS)),
        (1, lambda: '$[%s' % text(rng, depth + 1)),
        (1, lambda: '$%s' % rng.choice(['', '$', '(x)', 'x'])),
    ])()


def slice_(rng, depth=0):
    num = lambda: weighted(rng, [
        (6, lambda: str(rng.randint(-4, 4))), (1, lambda: rng.choice(['', '-', 'x', '01', '-0', '+1', '1x', ' 1', '--1'])),
        (1, lambda: ref(rng, depth + 1)), (1, lambda: rng.choice(['10', '-10', '100', '007']))])()
    return weighted(rng, [
        (5, lambda: ':' + num()), (5, lambda: ':' + num() + ':' + num()),
        (1, lambda: ':' + num() + ':' + num() + ':' + num()), (1, lambda: ':')])()


def condition(rng):
    return weighted(rng, [
        (4, lambda: '$[%s]' % text(rng, 2)), (4, lambda: '${%s}' % rng.choice(VARS)),
        (2, lambda: '$[${foo} = 1]'), (1, lambda: rng.choice(['1', '', ' ', 'x', '"${foo}"', ' ${foo} ', '${a}${b}', '${a}&${b}',
                                                              ' ${a}', '${a} ', '\\${a}', '"1"'])),
        (1, lambda: text(rng, 1))])()


def partly(rng, name):
    """A name of which a part or more parts are variables, sometimes not quite that name."""
    for _ in range(rng.choice([1, 1, 2])):
        i = rng.randrange(len(name) + 1)
        j = min(len(name), i + rng.choice([0, 1, 1, 2]))
        if '$' in name[i:j] or '{' in name[i:j] or '}' in name[i:j]:
            continue
        name = name[:i] + rng.choice(['${foo}', '${foo}', '${x:1}', '${LEN(${x})}']) + name[j:]
    r = rng.random()
    if r < .15:
        name += rng.choice('ab1.+')
    elif r < .3:
        name = rng.choice('ab1.+') + name
    elif r < .4:
        name = name[:-1] if not name.endswith('}') else name
    return name


def dest(rng, ctxs=CTXS, extens=EXTENS, labels=LABELS):
    num = lambda: weighted(rng, [
        (5, lambda: str(rng.randint(1, 4))), (4, lambda: rng.choice(labels)),
        (1, lambda: '${foo}'), (2.5, lambda: partly(rng, rng.choice(labels))), (1, lambda: partly(rng, str(rng.choice([1, 2, 3, 12, 123])))), (1, lambda: ''),
        (1, lambda: '0%d' % rng.randint(1, 3)), (.2, lambda: long_number(rng)), (1, lambda: 'n'), (1, lambda: '%d${x}' % rng.randint(1, 2))])()
    ext = lambda: weighted(rng, [
        (5, lambda: rng.choice(['s', '100', '101', 'i', '1', '5', '200', 'abc', '*1', '1-0-1', 'nosuch', 'snake1ap'])),
        (2, lambda: rng.choice(extens)), (2, lambda: '${EXTEN}'), (1, lambda: '${EXTEN:1}'),
        (1, lambda: rng.choice(['${foo}', '1${EXTEN:1:2}', '${EXTEN:-1}', '${EXTEN:0:-1}', 'x${EXTEN}', '', '${foo:1}', '${EXTEN:${foo}}',
                                '${${foo}}', '$[${EXTEN}+1]']))])()
    ctx = lambda: weighted(rng, [
        (7, lambda: rng.choice(ctxs)), (1, lambda: 'nosuch'), (1, lambda: '${foo}'), (1, lambda: ''), (1, lambda: 'a${foo}')])()
    return weighted(rng, [
        (3, num), (3, lambda: ext() + ',' + num()), (5, lambda: ctx() + ',' + ext() + ',' + num()),
        (.3, lambda: ctx() + ',' + ext() + ',' + num() + ',x')])()


def gosubargs(rng):
    return weighted(rng, [(4, lambda: ''), (2, lambda: '(%s)' % text(rng, 2)), (1, lambda: '(a,b)'), (.5, lambda: '(a'), (.5, lambda: '()x')])()


def app(rng, **kw):
    """An application with its data, often right."""
    name = rng.choice(APPS)
    low = name.lower()
    if low == 'set':
        data = weighted(rng, [
            (5, lambda: '%s=%s' % (rng.choice(VARS[:8]), text(rng))), (1, lambda: text(rng)), (1, lambda: ''),
            (2, lambda: '%s(%s)=%s' % (rng.choice(FUNCS), text(rng, 2), text(rng, 2))),
            (.5, lambda: '${foo}(%s)=x' % text(rng, 2)), (.5, lambda: 'x )=y'), (.5, lambda: '=x'), (.5, lambda: 'a b=c')])()
    elif low == 'goto':
        data = weighted(rng, [(12, lambda: dest(rng, **kw)), (1, lambda: ''), (1, lambda: 'a|s|1'), (1, lambda: 'a,s,1,1')])()
    elif low == 'gosub':
        data = weighted(rng, [(12, lambda: dest(rng, **kw) + gosubargs(rng)), (1, lambda: ''), (1, lambda: 'a|s|1'), (1, lambda: 'a,s,1,1')])()
    elif low in ('gotoif', 'gosubif'):
        g = (lambda: gosubargs(rng)) if low == 'gosubif' else (lambda: '')
        data = weighted(rng, [
            (5, lambda: '%s?%s%s' % (condition(rng), dest(rng, **kw), g())),
            (5, lambda: '%s?%s%s:%s%s' % (condition(rng), dest(rng, **kw), g(), dest(rng, **kw), g())),
            (2, lambda: '%s?:%s%s' % (condition(rng), dest(rng, **kw), g())),
            (1, lambda: condition(rng)), (1, lambda: '%s,%s' % (condition(rng), dest(rng, **kw))),
            (1, lambda: '%s?%s?%s' % (condition(rng), dest(rng, **kw), dest(rng, **kw))),
            (1, lambda: '%s?%s:%s:%s' % (condition(rng), dest(rng, **kw), dest(rng, **kw), dest(rng, **kw))),
            (1, lambda: '%s?"%s"' % (condition(rng), dest(rng, **kw)))])()
    elif low in ('execif',):
        sub = lambda: weighted(rng, [(5, lambda: simple_app(rng)), (3, lambda: 'Goto(%s)' % dest(rng, **kw)),
                                     (1, lambda: app(rng, **kw)), (1, lambda: 'NoOp')])()
        data = weighted(rng, [
            (5, lambda: '%s?%s' % (condition(rng), sub())), (5, lambda: '%s?%s:%s' % (condition(rng), sub(), sub())),
            (1, lambda: '%s?:%s' % (condition(rng), sub())), (1, lambda: condition(rng)),
            (1, lambda: '%s,%s' % (condition(rng), sub())), (1, lambda: '%s?%s:%s:%s' % (condition(rng), sub(), sub(), sub()))])()
    elif low in ('gotoiftime', 'execiftime'):
        data = weighted(rng, [
            (5, lambda: '%s?%s' % (rng.choice(['*,*,*,*', '9:00-17:00,mon-fri,*,*', text(rng, 2), '']), dest(rng, **kw))),
            (1, lambda: text(rng))])()
    elif low == 'voicemail':
        data = weighted(rng, [
            (4, lambda: '%s,%s' % (text(rng, 2), chars(rng, 'bgsuUPdzx', 0, 3))), (2, lambda: text(rng)),
            (1, lambda: 'a,b,c'), (1, lambda: ''), (1, lambda: 'a|u'), (1, lambda: 'a,u${foo}u'), (.5, lambda: ','), (.5, lambda: 'a,${foo}${bar}')])()
    elif low == 'milliwatt':
        data = rng.choice(['', 'o', 'x', 'oo', 'o,o', 'o|o', 'ox', 'oxx'])
    elif low == 'originate':
        data = weighted(rng, [(3, lambda: 'SIP/x,%s,a' % rng.choice(['app', 'exten', 'foo', '${x}'])),
                              (1, lambda: ','.join(text(rng, 3) for _ in range(rng.randint(1, 7)))), (1, lambda: 'a|app|b')])()
    else:
        data = text(rng)
    return wrap(rng, name, data)


def wrap(rng, name, data):
    return weighted(rng, [
        (30, lambda: '%s(%s)' % (name, data)), (1, lambda: name), (1, lambda: '%s(%s' % (name, data)), (1, lambda: ' %s(%s)' % (name, data)),
        (1, lambda: '%s (%s)' % (name, data)), (1, lambda: '%s %s' % (name, data)), (1, lambda: '(%s)' % data), (.5, lambda: ''),
        (.5, lambda: '${foo}(%s)' % data), (1, lambda: '%s(%s) ' % (name, data)), (1, lambda: '\t%s()' % name)])()


def simple_app(rng):
    return weighted(rng, [
        (5, lambda: '%s(%s)' % (rng.choice(['NoOp', 'Answer', 'Verbose', 'Hangup', 'Playback']), chars(rng, 'abc', 0, 3))),
        (1, lambda: 'NoOp(${EXTEN})'), (1, lambda: 'NoOp')])()


# ---- lines ----

def long_number(rng):
    return rng.choice('0123') + rng.choice(['0', '1', '9']) * (rng.choice([8, 9, 18, 19, 28, 29, 30, 31]) - 1) + rng.choice('0123')


def prio(rng, labels=LABELS):
    p = weighted(rng, [(8, lambda: 'n'), (6, lambda: '1'), (4, lambda: str(rng.randint(1, 6))),
                       (.4, lambda: rng.choice(['0', 'hint', 'x', '', '-1', '1x', '01', '007', '10', '999', 'N', ' 1', '1 ', 'n+1', '00', '+1', 'next', 'same', 's', 'hint ', 'Hint', 'HINT', '1+1', 'n1', '1n', 'nn', 'n-1', 's+1', 'n(',
                                             'prio', '1.0', '1e1', '0x1', '1_0', '$', '*', '${n}', '1 1', 'n ', ' n'])),
                       (.15, lambda: long_number(rng))])()
    return p + weighted(rng, [(8, lambda: ''), (3, lambda: '(%s)' % rng.choice(labels)), (.2, lambda: '('), (.2, lambda: '()'),
                              (.2, lambda: '(x'), (.2, lambda: '(x)y'), (.1, lambda: '((x))')])()


def arrow(rng, p=.06):
    if rng.random() > p:
        return ' => '
    return rng.choice(['=>', '= >', ' =', '=', ' = ', ' =>', '=> ', '  =>  ', '\t=>\t', ' =>\t'])


def dialline(rng, extens=EXTENS, labels=LABELS, mkapp=None, ctxs=CTXS):
    mkapp = mkapp or app
    a = lambda: mkapp(rng)
    return weighted(rng, [
        (10, lambda: 'exten%s%s,%s,%s' % (arrow(rng), rng.choice(extens), prio(rng, labels), a())),
        (8, lambda: '%ssame%s%s,%s' % (rng.choice(['', ' ', '  ', '\t']), arrow(rng), prio(rng, labels), a())),
        (1, lambda: 'include%s%s' % (arrow(rng), rng.choice(ctxs))),
        (.2, lambda: 'switch%sRealtime/x' % arrow(rng)), (.2, lambda: 'ignorepat%s9' % arrow(rng)),
        (.3, lambda: '%s%sx' % (rng.choice(['Exten', 'foo', 'same ', 'includes', '', 'EXTEN', 'exten']), arrow(rng))),
        (.4, lambda: 'exten%s%s' % (arrow(rng), rng.choice(['', 's', 's,', 's,1', ',1,NoOp', ',', 's,n', '_,1,NoOp()', '_[,1,NoOp()', '_[],1,x',
                                                             '_[9,1,X()', '_-,1,NoOp()', 's,,NoOp()', '_1[,n,NoOp()', '-,1,NoOp()']))),
        (.2, lambda: ' exten%ss,1,NoOp()' % arrow(rng)),
    ])()


def header(rng, ctxs=CTXS):
    n = rng.choice(ctxs)
    return weighted(rng, [
        (20, lambda: '[%s]' % n), (2, lambda: '[general]'), (2, lambda: '[globals]'), (.4, lambda: ' [%s]' % n), (.4, lambda: '[%s](!)' % n),
        (.3, lambda: '[%s](+)' % n), (.3, lambda: '[%s](x)' % n), (.2, lambda: '[%s' % n), (.2, lambda: '[%s]x' % n), (.2, lambda: '[%s] (!)' % n),
        (.2, lambda: '[%s](a,b)' % n), (.2, lambda: '[]'), (.1, lambda: '[%s](x)(y)' % n), (.1, lambda: '[[%s]' % n)])()


def setting(rng):
    return weighted(rng, [
        (4, lambda: '%s=%s' % (chars(rng, 'abc', 1, 2), chars(rng, 'xyz 1=>', 0, 4))),
        (2, lambda: '%s => %s' % (chars(rng, 'abc', 1, 2), chars(rng, 'xyz 1=>', 0, 4))),
        (3, lambda: '%s%s%s' % (chars(rng, 'abc ', 0, 2), rng.choice(['=', '=>', ' = ', ' =', '= ', ' =>', '=> ', '  => ', '=>=', '==', '=\t', ' \t=']), chars(rng, 'xy ', 0, 3))),
        (1, lambda: ' %s=%s' % (chars(rng, 'abc', 1, 2), chars(rng, 'xyz', 0, 2))), (.3, lambda: '\tsame=1'), (.3, lambda: ' same => 1')])()


def junk(rng):
    return weighted(rng, [
        (2, lambda: chars(rng, 'abc []()', 1, 20)), (1, lambda: '#' + chars(rng, 'abcinclude x', 0, 8)), (1, lambda: ' x'),
        (1, lambda: chars(rng, 'ab\\;', 1, 5)), (1, lambda: '#exec %s' % chars(rng, 'ab /', 1, 5)), (.5, lambda: '#include'), (.5, lambda: '#includefoo'),
        (.5, lambda: '#tryinclude'), (.5, lambda: ' #exec x'), (.5, lambda: '#exec\tx')])()


def blank(rng):
    return weighted(rng, [(10, lambda: ''), (5, lambda: ';comment'), (1, lambda: '  '), (1, lambda: ' ; x'), (1, lambda: '\t'), (.5, lambda: ';')])()


def comment(rng, line):
    r = rng.random()
    if r < .85:
        return line
    return line + rng.choice([' ; x', ';x', '\t;y;z', ' ;', ' ', '\t', '\\;z', ' \\; x ; y', '  ', ';'])


def include(rng, names, p_bad=.2):
    n = rng.choice(names)
    if rng.random() < p_bad:
        return weighted(rng, [
            (1, lambda: '#include nosuch.conf'), (1, lambda: '#tryinclude nosuch.conf'), (1, lambda: '#include "%s' % n), (1, lambda: '#include <%s' % n),
            (1, lambda: '#include %s"' % n), (1, lambda: '#include\t%s' % n), (1, lambda: '#include \t%s' % n), (1, lambda: '#include\t\t"%s"' % n),
            (1, lambda: ' #include %s' % n), (1, lambda: '#include %s ' % n), (1, lambda: '#include ""'), (1, lambda: '#include <>'), (1, lambda: '#include "'),
            (1, lambda: '#include %s ; x' % n), (1, lambda: '#include ./%s' % n), (1, lambda: '#include "%s>' % n), (1, lambda: '#INCLUDE %s' % n),
            (1, lambda: '#include "nosuch"'), (1, lambda: '#include x/../%s' % n), (1, lambda: '#include\x0b%s' % n), (1, lambda: '#include;%s' % n)])()
    return rng.choice(['#include %s', '#include "%s"', '#include <%s>', '#tryinclude %s', '#tryinclude "%s"', '#include  %s']) % n
