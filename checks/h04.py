import re

import numpy as np

from discretehelpers.a import bin2svg

from lib.core import scenario

PROPERTY = 'H04'
RULE = ('All images of up to 3 x 3 pixels and all 2 x 4 and 4 x 2 ones (striped over the cases), then random, sparse, dense, checkerboard, nested-frame, diagonal, comb and spiral images up to 24 x 24 and thin ones of up to 300 pixels, as arrays and nested lists. '
        'The emitted path is replayed: the loops must be closed, rectilinear, on the grid, without repeated edges, and even-odd filling as well as the winding number must give exactly the set pixels. A state is the image; trivial for empty images.')
REQUIRED = ['syntax', 'closed', 'grid', 'edges', 'fill', 'winding', 'unchanged']

SMALL = [(h, w) for h in (1, 2, 3) for w in (1, 2, 3)] + [(2, 4), (4, 2)]
TOTAL = sum(1 << h * w for h, w in SMALL)


def small(k):
    for h, w in SMALL:
        if k < 1 << h * w:
            return [[k >> (i * w + j) & 1 for j in range(w)] for i in range(h)]
        k -= 1 << h * w


def image(rng):
    h, w = rng.randint(1, 24), rng.randint(1, 24)
    if rng.random() < .02:                              # long thin images
        h, w = rng.sample([rng.randint(1, 3), rng.choice([127, 128, 129, 200, 255, 256, 257, 300])], 2)
    kind = rng.randrange(8)
    if kind == 0:
        return [[(i + j) % 2 for j in range(w)] for i in range(h)]
    if kind == 1:                                       # nested frames
        return [[min(i, j, h - 1 - i, w - 1 - j) % 2 ^ 1 for j in range(w)] for i in range(h)]
    if kind == 2:
        return [[int((i - j) % rng.choice([2, 3]) == 0) for j in range(w)] for i in range(h)]
    if kind == 3:                                       # comb
        return [[int(i == 0 or j % 2 == 0) for j in range(w)] for i in range(h)]
    if kind == 4:                                       # random rectangles added and removed
        m = [[0] * w for _ in range(h)]
        for _ in range(rng.randint(1, 8)):
            a, b = sorted(rng.randint(0, h) for _ in range(2))
            d, e = sorted(rng.randint(0, w) for _ in range(2))
            v = rng.randrange(2)
            for i in range(a, b):
                for j in range(d, e):
                    m[i][j] = v
        return m
    p = rng.choice([.03, .3, .5, .7, .97])
    return [[int(rng.random() < p) for _ in range(w)] for _ in range(h)]


@scenario(quick=4000, thorough=30000)
def outlines(c):
    rng = c.rng
    for k in range(c.index, TOTAL, 400) if c.index < 400 else ():
        check(c, rng, small(k))
    check(c, rng, image(rng))


def check(c, rng, img):
    h, w = len(img), len(img[0])
    c.note(img)
    c.state(tuple(map(tuple, img)), trivial=not any(map(any, img)))
    arg = rng.choice([lambda: np.array(img), lambda: [list(r) for r in img], lambda: np.array(img, dtype=bool), lambda: np.array(img, dtype=np.int8)])()
    path = bin2svg(arg)
    c.true('unchanged', np.array_equal(np.array(arg).astype(int), np.array(img)), img)
    c.true('syntax', re.fullmatch(r'(M\d+,\d+([hv]-?\d+)+)*', path) is not None, img, path)
    edges = {}
    wind = [[0] * w for _ in range(h)]
    for loop in path.split('M')[1:]:
        m = re.match(r'(\d+),(\d+)', loop)
        x, y = int(m.group(1)), int(m.group(2))
        pts = [(x, y)]
        for cmd, n in re.findall(r'([hv])(-?\d+)', loop):
            n = int(n)
            c.true('closed', n != 0, img, path)
            x, y = (x + n, y) if cmd == 'h' else (x, y + n)
            pts.append((x, y))
        # the last edge is left to the implicit closing, which must be horizontal or vertical
        c.true('closed', (pts[-1][0] == pts[0][0]) != (pts[-1][1] == pts[0][1]), img, path)
        for (x0, y0), (x1, y1) in zip(pts, pts[1:] + pts[:1]):
            c.true('grid', 0 <= x1 <= w and 0 <= y1 <= h, img, path)
            if x0 == x1:
                for y in range(min(y0, y1), max(y0, y1)):
                    edges['v', x0, y] = edges.get(('v', x0, y), 0) + 1
                    for j in range(x0, w):                # pixels to the right of the edge
                        wind[y][j] += 1 if y1 > y0 else -1
            else:
                for x in range(min(x0, x1), max(x0, x1)):
                    edges['h', x, y0] = edges.get(('h', x, y0), 0) + 1
    at = lambda i, j: img[i][j] if 0 <= i < h and 0 <= j < w else 0
    want = {('v', x, y): 1 for y in range(h) for x in range(w + 1) if at(y, x) != at(y, x - 1)}
    want.update({('h', x, y): 1 for y in range(h + 1) for x in range(w) if at(y, x) != at(y - 1, x)})
    c.eq('edges', edges, want, img, path)
    fill = [[sum(edges.get(('v', x, i), 0) for x in range(j + 1)) % 2 for j in range(w)] for i in range(h)]
    c.eq('fill', fill, img, img, path)
    c.eq('winding', [[int(v != 0) for v in r] for r in wind], img, img, path)
