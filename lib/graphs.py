"""Random and exhaustive causal graphs, and the projection of the real class to the state of the specification."""
import itertools
import random

NAMES = ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h']


def gjson(V, E, B):
    return dict(V=sorted(V), E=sorted(map(list, E)), B=sorted(sorted(b) for b in B))


def make(g, rnd=None):
    """the real graph for a graph of the specification; parent lists and arcs in random order"""
    from ylearn.causal_model import CausalGraph
    V, E, B = list(g['V']), [tuple(e) for e in g['E']], [tuple(b) for b in g['B']]
    if rnd is not None:
        rnd.shuffle(V)
        rnd.shuffle(E)
        rnd.shuffle(B)
        B = [b if rnd.random() < .5 else (b[1], b[0]) for b in B]
    causation = {v: [] for v in V}
    for a, b in E:
        causation[b].append(a)
    return CausalGraph(causation, latent_confounding_arcs=B)


def project(cg):
    V = sorted(cg.causation.keys())
    E = sorted([p, k] for k, ps in cg.causation.items() for p in ps)
    B = sorted(sorted(a) for a in cg.latent_confounding_arcs)
    dagE = sorted([a, b] for a, b, k in cg.dag.edges(keys=True) if k != 'n')
    ob = cg.observed_dag
    return dict(V=V, E=E, B=B, dagV=sorted(cg.dag.nodes), dagE=dagE, obsV=sorted(ob.nodes),
                obsE=sorted([a, b] for a, b in ob.edges()))


def acyclic(V, E):
    V, E = set(V), set(map(tuple, E))
    while V:
        free = [v for v in V if not any(b == v for _, b in E)]
        if not free:
            return False
        V -= set(free)
        E = {(a, b) for a, b in E if a not in free}
    return True


def rand_graph(rnd, n, pe=.4, pb=.25, names=NAMES):
    V = list(names[:n])
    order = V[:]
    rnd.shuffle(order)
    E = [(order[i], order[j]) for i in range(n) for j in range(i + 1, n) if rnd.random() < pe]
    B = [(x, y) for x, y in itertools.combinations(V, 2) if rnd.random() < pb]
    return gjson(V, E, B)


def all_graphs(n, names=NAMES, ordered=False):
    """every ADMG over n named nodes (ordered: only those whose node order is topological, i.e. up to relabelling)"""
    V = list(names[:n])
    pairs = list(itertools.combinations(V, 2))
    dirs = [None, 0] if ordered else [None, 0, 1]
    for de in itertools.product(dirs, repeat=len(pairs)):
        E = [(p if d == 0 else (p[1], p[0])) for p, d in zip(pairs, de) if d is not None]
        if not ordered and not acyclic(V, E):
            continue
        for k in range(2 ** len(pairs)):
            B = [p for i, p in enumerate(pairs) if k >> i & 1]
            yield gjson(V, E, B)


def subsets(xs, maxlen=None):
    xs = list(xs)
    for k in range((maxlen if maxlen is not None else len(xs)) + 1):
        yield from itertools.combinations(xs, k)
