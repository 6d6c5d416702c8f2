"""C06: general identification"""
from ident import *


def job(args):
    g, seed, full, *pair = args
    rnd = random.Random(seed)
    s = Session(g, rnd)
    V = g['V']
    if len(V) == 3:
        qs = [([x], [y]) for x in V for y in V if x != y]
    else:
        qs = []
        for _ in range(8 if full else 4):
            nx = rnd.choice([1, 1, 2]) if len(V) > 3 else 1
            ny = rnd.choice([1, 1, 2]) if len(V) > 3 else 1
            X, Y, _r = pick_xy(rnd, V, nx, ny)
            qs.append((X, Y))
    if pair:
        qs = [([pair[0]], [pair[1]])] + qs[:1]
    for X, Y in qs:
        s.id(X, Y, rnd.choice(['id', 'identify']))
    return s.events


def run():
    c = Check('C06', ['treatments and outcomes are disjoint and not empty', 'positivity: every conditional probability is defined'])
    c.model('MC_Identify', 'MC_Identify4.cfg')
    c.model('MC_Semantics')
    rnd = random.Random(SEED * 43 + 6)
    gs = graphs_for(rnd, None, None if thorough() else 250, 1500 if thorough() else 260, sizes=(4, 5), maxarcs=5)
    jobs = [(g, rnd.randrange(2 ** 30), thorough()) for g in gs]
    jobs += [(g, rnd.randrange(2 ** 30), False, x, y) for g, x, y in gallery(rnd, 800 if thorough() else 120, most=6)]
    evs = [e for es in pmap(job, jobs, chunksize=8) for e in es]
    c.judge('Trace_Identify', evs, corrupt=corrupt)
    c.finish()


main(run)
