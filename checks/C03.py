"""C03: back-door identification"""
from ident import *


def job(args):
    g, seed, full, *pair = args
    rnd = random.Random(seed)
    ok, s = attempt(Session, g, rnd)
    if not ok:
        raise RuntimeError(s)
    V = g['V']
    for i in range(2 if not full else 4):
        X, Y, rest = pick_xy(rnd, V, rnd.choice([1, 1, 1, 2]) if len(V) > 3 else 1, rnd.choice([1, 1, 1, 2]) if len(V) > 4 else 1)
        if pair and i == 0:
            X, Y = [pair[0]], [pair[1]]
            rest = [v for v in V if v not in pair]
        for Z in rnd.sample(list(G.subsets(rest)), min(2 ** len(rest), 4)):
            s.bd_valid(X, Y, Z)
        for style in ('simple', 'minimal', 'all'):
            s.bd_get(X, Y, style, rnd.choice(['get', 'identify']))
        x, y, rest = pick_xy(rnd, V)
        if [y[0], x[0]] not in g['E']:
            s.bd_paths(x[0], y[0])
        # estimation, after other questions to the same model
        X, Y, rest = pick_xy(rnd, V, 1 if len(V) < 4 else rnd.choice([1, 1, 2]))
        if rnd.random() < .5:
            s.estimate(X, Y, explicit=False)
        if rnd.random() < .6:
            s.bd_get(X, Y, rnd.choice(['minimal', 'all', 'simple']), 'identify')
            s.estimate(X, Y, explicit=False, pass_roles=False) if len(X) == 1 else None
        for _ in range(2):
            Z = rnd.choice(list(G.subsets(rest)))
            k = rnd.randint(0, len(Z))
            adj, cov = list(Z[:k]), list(Z[k:])
            mode = rnd.choice(['adj', 'cov', 'both'])
            if mode == 'adj':
                s.estimate(X, Y, adj=Z)
            elif mode == 'cov':
                s.estimate(X, Y, cov=Z)
            else:
                s.estimate(X, Y, adj=adj, cov=cov)
    return s.events


def run():
    c = Check('C03', ['treatments, outcomes and the set are disjoint'])
    c.model('MC_Identify', 'MC_Identify4.cfg')
    c.model('MC_Semantics')
    rnd = random.Random(SEED * 31 + 3)
    gs = graphs_for(rnd, None, None if thorough() else 150, 1500 if thorough() else 160)
    jobs = [(g, rnd.randrange(2 ** 30), thorough()) for g in gs]
    jobs += [(g, rnd.randrange(2 ** 30), False, x, y) for g, x, y in gallery(rnd, 600 if thorough() else 70)]
    evs = [e for es in pmap(job, jobs, chunksize=8) for e in es]
    c.judge('Trace_Identify', evs, corrupt=corrupt)
    c.finish()


main(run)
