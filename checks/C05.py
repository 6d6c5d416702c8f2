"""C05: instruments"""
from ident import *


def job(args):
    g, seed, full = args
    rnd = random.Random(seed)
    s = Session(g, rnd)
    V = g['V']
    pairs = [(x, y) for x in V for y in V if x != y]
    rnd.shuffle(pairs)
    for x, y in pairs[:20 if full else 6]:
        s.iv_get(x, y)
        rest = [v for v in V if v not in (x, y)]
        for Z in rnd.sample(list(G.subsets(rest)), min(2 ** len(rest), 3)):
            if Z:
                s.iv_valid(x, y, Z)
    return s.events


def run():
    c = Check('C05', ['one treatment and one outcome, sets to be validated are not empty'])
    c.model('MC_Identify', 'MC_Identify4.cfg')
    rnd = random.Random(SEED * 41 + 5)
    gs = graphs_for(rnd, None, None if thorough() else 150, 2500 if thorough() else 160, sizes=(4, 5, 6))
    gs += [g for g, _, _ in gallery(rnd, 600 if thorough() else 60)]
    evs = [e for es in pmap(job, [(g, rnd.randrange(2 ** 30), thorough()) for g in gs], chunksize=8) for e in es]
    c.judge('Trace_Identify', evs, corrupt=corrupt)
    c.finish()


main(run)
