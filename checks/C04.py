"""C04: front-door identification"""
from ident import *


def job(args):
    g, seed, full, *pair = args
    rnd = random.Random(seed)
    s = Session(g, rnd)
    V = g['V']
    pairs = [(x, y) for x in V for y in V if x != y]
    # the treatment is a cause of the outcome: otherwise there is nothing to identify
    de = {v: descendants(g, v) for v in V}
    pairs = [(x, y) for x, y in pairs if y in de[x]]
    rnd.shuffle(pairs)
    if pair:
        pairs = [p for p in pairs if p == tuple(pair)] + pairs[:1]
    for x, y in pairs[:4 if not full else 12]:
        rest = [v for v in V if v not in (x, y)]
        for Z in rnd.sample(list(G.subsets(rest)), min(2 ** len(rest), 5)):
            if Z:
                s.fd_valid(x, y, Z)
        for style in ('simple', 'minimal', 'all'):
            s.fd_get(x, y, style, rnd.choice(['get', 'identify']))
    return s.events


def descendants(g, v):
    d = {v}
    while True:
        n = d | {b for a, b in g['E'] if a in d}
        if n == d:
            return d - {v}
        d = n


def fd_graph(rnd):
    """graphs in which front-door sets are likely: confounded treatment and outcome with mediators between them"""
    k = rnd.choice([1, 2, 3])
    ms = ['m1', 'm2', 'm3'][:k]
    V = ['x', 'y'] + ms
    E = set()
    for m in ms:
        E |= {('x', m)} if rnd.random() < .8 else set()
        E |= {(m, 'y')} if rnd.random() < .8 else set()
    for a, b in itertools.combinations(ms, 2):
        if rnd.random() < .5:
            E.add((a, b))
    B = [('x', 'y')]
    for m in ms:
        if rnd.random() < .15:
            B.append((rnd.choice(['x', 'y']), m))
    if rnd.random() < .3:
        V.append('w')
        E |= {('w', v) for v in V if v != 'w' and rnd.random() < .4}
    return G.gjson(V, E, B)


def run():
    c = Check('C04', ['one treatment and one outcome, the treatment is a cause of the outcome',
                      'sets contain neither of them and are not empty'])
    c.model('MC_Identify', 'MC_Identify4.cfg')
    c.model('MC_Semantics')
    rnd = random.Random(SEED * 37 + 4)
    gs = graphs_for(rnd, None, None if thorough() else 120, 1200 if thorough() else 80)
    gs += [fd_graph(rnd) for _ in range(1500 if thorough() else 120)]
    jobs = [(g, rnd.randrange(2 ** 30), thorough()) for g in gs]
    jobs += [(g, rnd.randrange(2 ** 30), False, x, y) for g, x, y in gallery(rnd, 800 if thorough() else 90)]
    evs = [e for es in pmap(job, jobs, chunksize=8) for e in es]
    c.judge('Trace_Identify', evs, corrupt=corrupt)
    c.finish()


main(run)
