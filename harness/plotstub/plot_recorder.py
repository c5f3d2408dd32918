"""Records what a script draws; stands in for matplotlib, which is not installed."""
OUT = []


def num(v):
    return repr(float(v))


class Anything:
    """Accepts every call and attribute."""
    def __init__(self, *a, **k): pass
    def __call__(self, *a, **k): return Anything()
    def __getattr__(self, n):
        if n.startswith('__'): raise AttributeError(n)
        return Anything()
    def __getitem__(self, k): return Anything()
    def __iter__(self): return iter(())


def color(colors, i):
    if colors is None: return '-'
    if isinstance(colors, str): return colors
    colors = list(colors)
    if not colors: return '-'
    c = colors[i % len(colors)]
    return c if isinstance(c, str) else '/'.join(num(x) for x in c)


class Collection:
    def __init__(self, kind, verts, colors):
        self.rows = []
        for i, p in enumerate(verts):
            pts = [(num(q[0]), num(q[1])) for q in p]
            self.rows.append(' '.join([kind, color(colors, i), str(len(pts))] + [x for q in pts for x in q]))


def PolyCollection(verts, *a, **k): return Collection('POLY', verts, k.get('facecolors', k.get('facecolor', k.get('color'))))
def LineCollection(segs, *a, **k): return Collection('LINE', segs, k.get('colors', k.get('color')))


class Axes(Anything):
    def add_collection(self, c, *a, **k): OUT.extend(getattr(c, 'rows', []))
    def text(self, x, y, s, *a, **k): OUT.append('TEXT %s %s %s' % (num(x), num(y), s))
    def scatter(self, x, y, *a, **k): OUT.extend('POINT %s %s' % (num(p), num(q)) for p, q in zip(x, y))
    def tricontourf(self, x, y, z, *a, **k):
        x, y, z = list(x), list(y), list(z)
        if not len(x) == len(y) == len(z): raise ValueError('z array must have same length as triangulation x and y arrays')
        OUT.extend('SIZE %s %s %s' % (num(p), num(q), num(r)) for p, q, r in zip(x, y, z)); return Anything()
    def lim(self, n, a, b):
        if b is None: a, b = a
        OUT.append('LIM %s %s %s' % (n, num(a), num(b)))
    def set_xlim(self, a, b=None, **k): self.lim('x', a, b)
    def set_ylim(self, a, b=None, **k): self.lim('y', a, b)


class Figure(Anything):
    def savefig(self, name, *a, **k):
        with open(str(name) + '.rec', 'w') as f: f.write('\n'.join(OUT + ['END']) + '\n')


AX, FIG = Axes(), Figure()
