"""Turns histories of MCWorld into scripts for the harness."""
import json, random, re

HIST = re.compile(r'^<<"HIST", "(.*)">>$')
PITCH = 282        # cells are 1.1 m apart, shapes 1 m wide: neighbours come close but do not touch
SHAPES = [dict(k='c', r=128, x=0, y=0), dict(k='b', hx=128, hy=128, x=0, y=0),
          dict(k='p', v=[[-128, -128], [128, -128], [128, 128], [-128, 128]])]


def parse(text):
    seen = {}
    for line in text.split('\n'):
        m = HIST.match(line.strip())
        if m:
            seen.setdefault(m.group(1).replace('\\"', '"'), None)
    return [json.loads(x) for x in seen]


def joint(rng, name, o, x):
    a, b = o['a'], o['b']
    mid = (x[a] + x[b]) // 2
    kind = rng.choice(['distance', 'revolute', 'weld', 'wheel', 'prismatic', 'friction', 'motor'])
    j = dict(op='create_joint', id=name, a=a, b=b, cc=o['cc'], jt=kind)
    if kind == 'distance':
        j.update(x=x[a], y=0, x2=x[b] + 16, y2=8, k=0, d=0)
    elif kind in ('friction', 'motor'):
        j.update(x=mid, y=0, mf=1280, mt=640)
    else:
        j.update(x=mid, y=0, ax=4, ay=3, el=False, em=False, lo=-128, hi=128, ms=256, mt=2560, k=0, d=0)
    return j


def script(hist, start, cells, rng):
    """The operations of one world; start: body -> type, cells: body -> cell."""
    types = dict(start)
    at = lambda b, c: c * PITCH + int(b[1:]) * 24
    x = {b: at(b, cells[b]) for b in start}
    out = [dict(op='New', prof='hist', gx=0, gy=rng.choice([0, 0, -2560]), cf=0, cont=rng.choice([0, 0, 1]), sub=False,
                dis=0, ws=True, acf=True, **{'as': True})]
    count = {}

    def fresh(base):
        count[base] = count.get(base, 0) + 1
        return base if count[base] == 1 else '%sx%d' % (base, count[base])
    cur = {}

    def fixture(b, base):
        cur[base] = fresh(base)
        return dict(op='create_fixture', b=b, id=cur[base], sh=rng.choice(SHAPES), de=256, fr=51, re=0, se=False,
                    cat=1, mask=65535, grp=0)
    for b in sorted(start):
        out.append(dict(op='create_body', id=b, ty=types[b], x=x[b], y=0, ang=0, vx=0, vy=0, w=0,
                        aw=True, en=True, sl=True, bu=False, fr=False))
        out.append(fixture(b, 'f' + b[1:]))
    step = lambda: dict(op='step', dt=rng.choice([16, 16, 16, 32]), vi=6, pi=3)
    if rng.random() < 0.7:
        out.append(step())
        if rng.random() < 0.5:
            out += [step() for _ in range(rng.choice([1, 2, 40]))]
    often = rng.random() < 0.4
    for o in hist:
        o = dict(o)
        op = o['op']
        if op == 'step':
            out.append(step() if o['dt'] else dict(op='step', dt=0, vi=6, pi=3))
            continue
        if op == 'create_fixture':
            out.append(fixture(o['b'], o['id']))
        elif op == 'create_joint':
            cur[o['id']] = fresh(o['id'])
            out.append(joint(rng, cur[o['id']], o, x))
        elif op == 'set_transform':
            x[o['b']] = at(o['b'], o['c'])
            out.append(dict(op=op, b=o['b'], x=x[o['b']], y=0, ang=0))
        else:
            for key in ('f', 'j'):
                if key in o:
                    o[key] = cur[o[key]]
            out.append(o)
        if often:
            out.append(step())
    out += [step(), step(), step()]
    return out


BROAD = [[0, 0], [0, 1], [0, 1, 2], [0, 0, 1]]


def fits(h, n):
    """A history names the proxies in the order of their creation, after the n it starts with."""
    live = set(range(1, n + 1))
    for o in h:
        if o['op'] == 'create':
            n += 1
            if o['p'] != n:
                return False
            live.add(n)
        elif o['op'] != 'update':
            if o['p'] not in live:
                return False
            if o['op'] == 'destroy':
                live.discard(o['p'])
    return True


def broad(h, start, rng):
    """One history of MCBroad. A cell is 1.25 m wide; a displacement of one cell stretches the box over the next."""
    up = rng.random() < 0.5
    far = rng.choice([0, 0, -4096, 2048])
    out = [dict(op='New')]

    def box(c, j):
        lo, other = far + 320 * c + j, rng.choice([0, 0, 40])
        return dict(zip(('y1', 'x1', 'y2', 'x2') if up else ('x1', 'y1', 'x2', 'y2'),
                        (lo, other, lo + 250, other + rng.choice([10, 200]))))
    for i, c in enumerate(start):
        out.append(dict(op='create', id='p%d' % (i + 1), **box(c, 0)))
    out.append(dict(op='update'))
    for o in h:
        p = 'p%d' % o['p']
        if o['op'] == 'create':
            out.append(dict(op='create', id=p, **box(o['c'], 0)))
        elif o['op'] == 'move':
            d = 80 * o['d']
            out.append(dict(op='move', p=p, dx=0 if up else d, dy=d if up else 0, **box(o['c'], rng.choice([0, 0, 5]))))
        elif o['op'] == 'update':
            out.append(dict(op='update'))
        else:
            out.append(dict(op=o['op'], p=p))
    out.append(dict(op='update'))
    for c in range(3):
        out.append(dict(op='query', stop=rng.choice([0, 0, 1]), **box(c, 0)))
    a, z = far - 600, far + 1600
    mid = 5
    ray = dict(y1=a, x1=mid, y2=z, x2=mid) if up else dict(x1=a, y1=mid, x2=z, y2=mid)
    out.append(dict(op='ray', mf=256, pol=rng.choice(['all', 'ignore', 'stop', 'clip']), stop=1, clip=128, **ray))
    return out


STARTS = dict(Near=(dict(b1=2, b2=2, b3=0), dict(b1=0, b2=1, b3=1)),
              Touch=(dict(b1=2, b2=2, b3=0), dict(b1=0, b2=0, b3=0)))


def write(path, hists, start, seed):
    rng = random.Random(seed)
    if start == 'Broad':
        with open(path, 'w') as f:
            for h in hists:
                for s in BROAD if len(h) < 4 else [rng.choice(BROAD)]:
                    if fits(h, len(s)):
                        for o in broad(h, s, rng):
                            f.write(json.dumps(o) + '\n')
        return
    types, cells = STARTS[start]
    with open(path, 'w') as f:
        for h in hists:
            for o in script(h, types, cells, rng):
                f.write(json.dumps(o) + '\n')
