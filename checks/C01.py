"""C01: histories of editing operations on causal graphs"""
import json
import random
import sys

from vp import *
import graphs as G


def call(cg, op, x, p, new, single):
    """one editing operation of the real class; returns the new graph or None"""
    kw = dict(new=True) if new else {}
    p = [tuple(e) for e in p]
    if op == 'add_nodes':
        return cg.add_nodes(list(x), **kw)
    if op == 'add_edges':
        if single and not new and len(p) == 1:
            return cg.add_edge(p[0][0], p[0][1])
        return cg.add_edges_from(p, **kw)
    if op == 'add_arcs':
        if single and not new and len(p) == 1:
            return cg.add_edge(p[0][0], p[0][1], observed=False)
        return cg.add_edges_from(p, observed=False, **kw)
    if op == 'remove_nodes':
        return cg.remove_nodes(list(x), **kw)
    if op == 'remove_edges':
        if single and not new and len(p) == 1:
            return cg.remove_edge(p[0])
        return cg.remove_edges_from(p, **kw)
    if op == 'remove_arcs':
        if single and not new and len(p) == 1:
            return cg.remove_edge(p[0], observed=False)
        return cg.remove_edges_from(p, observed=False, **kw)
    if op == 'sub_graph':
        return cg.build_sub_graph(list(x))
    if op == 'cut_in':
        return cg.remove_incoming_edges(set(x), **kw)
    if op == 'cut_out':
        return cg.remove_outgoing_edges(set(x), **kw)
    raise ValueError(op)


def norm(g):
    return (tuple(sorted(g['V'])), tuple(sorted(map(tuple, g['E']))), tuple(sorted(tuple(sorted(b)) for b in g['B'])))


def views(s):
    return s['V'] == s['dagV'] == s['obsV'] and s['E'] == s['dagE'] == s['obsE']


def replay(t):
    """one transition of the specification, in place and as a new graph; the list of what went wrong"""
    g, op, r = t['g'], t['op'], t['r']
    bad = []
    for mode in ('new', 'inplace', 'single'):
        if op['op'] == 'sub_graph' and mode != 'new' or mode == 'single' and not op['p']:
            continue
        cg = G.make(g)
        ok, res = attempt(call, cg, op['op'], op['x'], op['p'], mode == 'new', mode == 'single')
        if not ok:
            bad.append((mode, 'raised'))
            continue
        after = res if mode == 'new' else cg
        ok, s = attempt(G.project, after)
        if not ok:
            bad.append((mode, 'raised'))
            continue
        if norm(s) != norm(r):
            bad.append((mode, 'result'))
        if not views(s):
            bad.append((mode, 'views_disagree'))
        if mode == 'new' and norm(G.project(cg)) != norm(g):
            bad.append((mode, 'other_graph_changed'))
    return bad


def history(args):
    seed, n, steps, handles = args
    rnd = random.Random(seed)
    names = list(G.NAMES[:n])
    rnd.shuffle(names)
    if rnd.random() < .4:   # names that contain one another, or look like those of latent variables
        names = ['U0', 'U1', 'x', 'xx', 'x1', 'U', 'n', 'y'][:n]
    g = G.rand_graph(rnd, rnd.randint(1, n), names=names)
    events = [dict(k='reset', raised='')]
    cgs, model = [], []

    def snapshot():
        return [G.project(c) for c in cgs]

    def log(ev, seconds=20):
        ok, st = attempt(snapshot, seconds=seconds)
        ev['st'] = st if ok else []
        ev['caller'] = '' if json.dumps(src) == src0 and json.dumps(arcs) == arcs0 else 'changed'
        if not ok:
            ev['raised'] = ev['raised'] or st
        events.append(ev)
        return ev['raised'] == ''

    from ylearn.causal_model import CausalGraph
    src = {v: [e[0] for e in g['E'] if e[1] == v] for v in g['V']}
    arcs = [list(b) for b in g['B']]
    src0, arcs0 = json.dumps(src), json.dumps(arcs)
    for _ in range(2):   # two graphs made from the same containers
        ok, cg = attempt(CausalGraph, src, latent_confounding_arcs=arcs)
        if not ok:
            events.append(dict(k='create', g=g, raised=cg, st=[], caller='', h=0, new=True))
            return events
        cgs.append(cg)
        model.append(g)
        if not log(dict(k='create', g=g, raised='', h=0, new=True)):
            return events
    for _ in range(steps):
        h = rnd.randrange(len(cgs))
        m = model[h]
        V, E, B = list(m['V']), [tuple(e) for e in m['E']], [tuple(b) for b in m['B']]
        cand = ['add_nodes']
        if len(V) >= 2:
            cand += ['add_edges', 'add_edges', 'add_arcs', 'add_arcs', 'remove_nodes', 'sub_graph', 'cut_in', 'cut_out']
        if E:
            cand += ['remove_edges', 'remove_edges']
        if B:
            cand += ['remove_arcs', 'remove_arcs']
        op = rnd.choice(cand)
        x, p = [], []
        if op == 'add_nodes':
            x = rnd.sample(names, rnd.randint(1, 2))
        elif op in ('add_edges', 'add_arcs'):
            cur = list(E)
            for _ in range(rnd.randint(1, 3)):
                a, b = rnd.sample(V, 2)
                if op == 'add_arcs':
                    p.append([a, b])
                else:
                    if not G.acyclic(V, set(cur) | {(a, b)}):
                        a, b = b, a
                    p.append([a, b])
                    cur.append((a, b))
            if op == 'add_edges' and E and rnd.random() < .3:
                p.append(list(rnd.choice(E)))     # once more
        elif op == 'remove_edges':
            p = [list(e) for e in rnd.sample(E, rnd.randint(1, min(2, len(E))))]
        elif op == 'remove_arcs':
            p = [list(b) if rnd.random() < .5 else [b[1], b[0]] for b in rnd.sample(B, rnd.randint(1, min(2, len(B))))]
        elif op == 'remove_nodes':
            x = rnd.sample(V, rnd.randint(1, min(2, len(V) - 1)))
        else:
            x = rnd.sample(V, rnd.randint(1, len(V)))
        new = op == 'sub_graph' or (rnd.random() < .5 and len(cgs) < handles)
        if op == 'sub_graph' and len(cgs) >= handles:
            continue
        single = rnd.random() < .5
        ok, res = attempt(call, cgs[h], op, x, p, new, single, seconds=20)
        ev = dict(k='op', h=h + 1, new=new, o=dict(op=op, x=x, p=p), raised='' if ok else res)
        if ok and new:
            cgs.append(res)
        alive = log(ev)
        if not alive:
            return events
        st = ev['st']
        if new:
            model.append(None)
        model = [dict(V=s['V'], E=s['E'], B=s['B']) for s in st]
    return events


def run():
    c = Check('C01', ['graphs stay acyclic and without self loops; every variable is a key of the causation',
                      'an edge that is removed exists'])
    c.model('MC_GraphEdit')
    if thorough():
        c.model('MC_GraphEdit', 'MC_GraphEdit2.cfg')
    # (A) every transition of the specification over three nodes, replayed into the code
    out = c.model('Gen_GraphEdit', workers=1)
    ts = [json.loads(json.loads(ln)[2:]) for ln in out.splitlines() if ln.startswith('"T ')]
    if len(ts) < 10000:
        raise Machinery('transitions were not generated')
    res = pmap(replay, ts, chunksize=200)
    for t, bad in zip(ts, res):
        for mode, cl in bad:
            c.failures.append(('Gen_GraphEdit', mode, dict(k='transition', mode=mode, **t), [cl]))
    c.validated += len(ts)
    c.notes['replayed_transitions'] = len(ts)
    # (B) recorded histories over many graphs
    n = 1200 if thorough() else 160
    rnd = random.Random(SEED * 1000 + 1)
    hs = pmap(history, [(rnd.randrange(2 ** 30), rnd.randint(3, 7), rnd.choice([15, 30]), rnd.randint(2, 6)) for _ in range(n)], chunksize=4)
    for h in hs:
        for e in h:
            if e['k'] == 'op':
                e['_class'] = e['o']['op'] + ('/new' if e['new'] else '')
    c.judge('Trace_GraphEdit', hs, stateful=True)
    c.finish()


main(run)
