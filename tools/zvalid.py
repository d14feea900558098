"""zvalid.py [N]: differential test of the inflater model against the real zlib, on random streams, windows and
output limits (the windows follow the three ways callers move through a stream: re-feeding the tail, feeding
fixed windows, feeding everything)."""
import os, random, sys, zlib
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
sys.setrecursionlimit(5000)
real_decompressobj = zlib.decompressobj
from symx import runner, inputs
from symx.zmodel import SxDecompress
from symx.models import m_len
runner.prepare()

TEXT = [b'tree 1 parent author committer ' * 3, b'a' * 700, b'abcabcabcd' * 20, os.urandom(0) + bytes(range(60))]


def plan(r):
    parts = []
    for i in range(r.randint(0, 4)):
        k = r.choice(['stored', 'stored', 'raw', 'flush'])
        parts.append((k, r.choice(TEXT)) if k == 'raw' else (k,) if k == 'flush' else (k, inputs.mat_src('p%d' % i, {'n': r.choice([0, 1, 7, 8, 9, 60, 300]), 'p': []})))
    e = r.random()
    if e < .25:
        parts.append(('last', inputs.mat_src('l', {'n': r.choice([0, 1, 20]), 'p': []})))
    elif e < .5:
        parts.append(('rawlast', r.choice(TEXT)))
    elif e < .7:
        parts.append(('short',))
    real = inputs.build_real(parts)
    extra = inputs.mat_src('x', {'n': r.choice([0, 0, 1, 5, 40, 3000]), 'p': []})
    data = real + extra
    cut = r.choice([None] * 4 + [r.randint(0, len(real))])
    if cut is not None:
        data = data[:cut]
    d = real_decompressobj()
    steps, want = [], []
    start = 0
    mode = r.choice(['refeed', 'window', 'mixed'])
    try:
        for _ in range(r.randint(1, 40)):
            win = r.choice([1, 3, 8, 9, 20, 64, 500, 100000])
            room = r.choice([0, 1, 2, 8, 50, 300, 5000])
            part = data[start:start + win]
            out = d.decompress(part, room)
            steps.append((start, len(part), room))
            want.append((len(out), len(d.unconsumed_tail), len(d.unused_data), d.eof))
            start += len(part) - len(d.unconsumed_tail) if not d.eof else len(part)
            if d.eof and r.random() < .3:
                break
    except zlib.error as e:
        steps.append((start, len(part), room))
        want.append('error')
    return parts, extra, cut, steps, want


def case(H, parts, extra, cut, steps, want):
    z = H.zstream('z', parts)
    data = z + extra
    if cut is not None:
        data = data[:cut]
    d = SxDecompress()
    for (a, n, room), w in zip(steps, want):
        try:
            out = d.decompress(data[a:a + n], room)
            g = (m_len(out), m_len(d.unconsumed_tail), m_len(d.unused_data), d.eof)
        except zlib.error:
            g = 'error'
        if g != w:
            raise AssertionError('%r %r: model %r, zlib %r' % ((a, n, room), steps, g, w))


if __name__ == '__main__':
    bad = 0
    for s in range(int(sys.argv[1]) if len(sys.argv) > 1 else 2000):
        r = random.Random(s)
        p = plan(r)
        names = ('parts', 'extra', 'cut', 'steps', 'want')
        res = runner.run_path(dict(name='z', fn=case, params=dict(zip(names, p)), bounds='', max_steps=10000), ())
        if res.status != 'done':
            bad += 1
            if bad < 8:
                print(s, res.status, [(k, len(v[0]) if v else 0) for k, *v in p[0]], 'cut', p[2], str(res.detail)[-900:])
    print('bad', bad)
