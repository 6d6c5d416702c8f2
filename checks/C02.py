"""C02: queries of causal graphs"""
import itertools
import random

from vp import *
import graphs as G


def queries(args):
    g, seed, nd = args
    rnd = random.Random(seed)
    evs = []
    ok, cg = attempt(G.make, g, rnd)
    if not ok:
        return [dict(k='pure', g=g, raised=cg)]
    V = g['V']

    def struct():
        ob = list(cg.dag.nodes)
        adj = cg.to_adj_matrix()
        x = cg.explicit_unob_var_dag
        return dict(
            parents=[dict(v=v, pa=sorted(cg.parents(v)), all=sorted(map(str, cg.parents(v, only_observed=False)))) for v in V],
            topo=list(cg.topo_order), is_dag=bool(cg.is_dag), comps=[sorted(c) for c in cg.c_components],
            arcs=sorted(sorted(a) for a in cg.latent_confounding_arcs), order=ob,
            adj=[[int(v) for v in r] for r in adj], prob=sorted(cg.prob.variables),
            x=dict(V=[str(n) for n in x.nodes], E=[[str(a), str(b)] for a, b in x.edges()]))
    ok, r = attempt(struct)
    evs.append(dict(k='struct', g=g, raised='' if ok else r, **(r if ok else {})))
    subs = list(G.subsets(V, 2))[1:]
    for S in (subs if len(V) <= 4 else rnd.sample(subs, min(8, len(subs)))):
        form = rnd.choice([set, list, tuple]) if len(S) != 1 or rnd.random() < .5 else (lambda s: s[0])
        ok, r = attempt(lambda: (sorted(cg.ancestors(form(S))), sorted(cg.descendents(form(S)))))
        evs.append(dict(k='reach', g=g, S=list(S), an=r[0] if ok else [], de=r[1] if ok else [], raised='' if ok else r))
    trip = []
    if nd is None:
        for x, y in itertools.combinations(V, 2):
            for Z in G.subsets([v for v in V if v not in (x, y)]):
                trip.append(([x], [y], list(Z)))
    else:
        for _ in range(nd):
            p = V[:]
            rnd.shuffle(p)
            i = rnd.choice([1, 1, 1, 2])
            j = i + rnd.choice([1, 1, 2])
            X, Y, rest = p[:i], p[i:j], p[j:]
            if Y:
                trip.append((X, Y, rnd.sample(rest, rnd.randint(0, len(rest)))))
    for X, Y, Z in trip:
        ok, r = attempt(lambda: bool(cg.is_d_separated(set(X), set(Y), set(Z))))
        evs.append(dict(k='dsep', g=g, X=X, Y=Y, Z=Z, out=r if ok else False, raised='' if ok else r,
                        _class=str(r)))
    ok, s = attempt(G.project, cg)
    evs.append(dict(k='pure', g=g, raised='' if ok else s, after=dict(V=s['V'], E=s['E'], B=s['B']) if ok else g))
    return evs


def cyclic(args):
    seed, = args
    rnd = random.Random(seed)
    from ylearn.causal_model import CausalGraph
    n = rnd.randint(2, 5)
    V = G.NAMES[:n]
    E = sorted({tuple(rnd.sample(V, 2)) for _ in range(rnd.randint(1, 2 * n))})
    g = G.gjson(V, E, [])
    ok, r = attempt(lambda: bool(CausalGraph({v: [a for a, b in E if b == v] for v in V}).is_dag))
    return [dict(k='acyclic', g=g, out=r if ok else False, raised='' if ok else r, _class=str(r))]


def corrupt(e):
    if e['k'] == 'dsep':
        e['out'] = not e['out']
    elif e['k'] == 'reach':
        e['an'] = e['an'] + ['zz']
    elif e['k'] == 'struct':
        e['arcs'] = e['arcs'][1:] if e['arcs'] else [['a', 'b']]
    else:
        return None
    return e


def run():
    c = Check('C02', ['the observed part of the graph is acyclic (except for the test of acyclicity itself)'])
    c.model('MC_Graph')
    if thorough():
        c.model('MC_Graph', 'MC_Graph4.cfg')
    rnd = random.Random(SEED * 77 + 2)
    jobs = [(g, rnd.randrange(2 ** 30), None) for g in G.all_graphs(3)]
    four = list(G.all_graphs(4, ordered=True))
    jobs += [(g, rnd.randrange(2 ** 30), None) for g in (four if thorough() else rnd.sample(four, 120))]
    for _ in range(1500 if thorough() else 150):
        names = rnd.choice([G.NAMES, ['U0', 'U1', 'U2', 'u', 'n', 'x1', 'x'], ['y', 'yy', 'y1', 'U_U0', 'U0', 'x', 'w']])
        g = G.rand_graph(rnd, rnd.randint(4, 7), rnd.choice([.2, .4, .6]), rnd.choice([0, .15, .3]), names=names)
        jobs.append((g, rnd.randrange(2 ** 30), 12))
    evs = [e for es in pmap(queries, jobs, chunksize=8) for e in es]
    evs += [e for es in pmap(cyclic, [(rnd.randrange(2 ** 30),) for _ in range(400)], chunksize=50) for e in es]
    c.judge('Trace_GraphQuery', evs, corrupt=corrupt)
    c.finish()


main(run)
