"""The views of a graph (nesting, as_graph, leafs, text) show that graph."""
import contextlib
import io
import re

import hypothesis.strategies as st
import numpy as np

from vh import anygraph
from vh import graph as G
from vh.core import CheckModule, Facet, ensure, equal


class Tree:
    def __init__(self, obj):
        self.obj = obj
        kids = obj.parts if hasattr(obj, 'parts') else [
            getattr(obj, 'subdata', None)]
        self.kids = [Tree(k) for k in kids if hasattr(k, 'optimize')]
        self.meta = obj.meta

    def walk(self):
        yield self
        for k in self.kids:
            yield from k.walk()


def snapshot(tree):
    return [(id(t.obj), type(t.obj).__name__, repr(sorted(t.obj.meta.items(), key=str)))
            for t in tree.walk()]


def strat(leafs):
    return anygraph.cases(leafs, extra=lambda g: {
        'fields': g.pick(['auto', 'all']), 'vert': g.flip(),
        'labels': g.flip(3) is False})


def check_nesting(tree, nest):
    name = type(tree.obj).__name__
    equal(nest['type'], name, 'nesting: type')
    equal(sorted(nest['meta']), sorted(tree.meta), 'nesting: fields of ' + name)
    kids = nest.get('children', [])
    if not tree.kids:
        ensure(all(k is None or k['type'] == 'ndarray' for k in kids),
               'nesting: children of a leaf {}', kids)
        return
    equal(len(kids), len(tree.kids), 'nesting: children of ' + name)
    for a, b in zip(tree.kids, kids):
        check_nesting(a, b)


def check_meta(tree, nest):
    import kwimage
    from delayed_image.channel_spec import FusedChannelSpec
    for k, v in tree.meta.items():
        got = nest['meta'][k]
        if k == 'transform' and v is not None:
            M = np.asarray(kwimage.Affine.coerce(got)) if got else np.eye(3)
            d = np.abs(M - np.asarray(v)).max()
            scale = max(1, np.abs(np.asarray(v)).max())
            ensure(d < 1e-4 * scale, 'nesting: transform {} for {}', got,
                   np.asarray(v).tolist())
        elif k == 'channels' and v is not None:
            equal(FusedChannelSpec.coerce(got).as_list(), v.as_list(),
                  'nesting: channels')
        elif isinstance(v, (str, int, tuple, list)):
            equal(got, v, 'nesting: ' + k)
    for a, b in zip(tree.kids, nest.get('children', [])):
        check_meta(a, b)


def shown_transform(label, tf):
    """ The parameters shown are those of the transform, about """
    parts = dict(re.findall(r'(offset|scale|shearx|theta)=(\([^)]*\)|[^,}]+)',
                            label.split('transform=')[1].split('}')[0]))
    want = tf.decompose()
    for k in ('offset', 'scale', 'shearx', 'theta'):
        plain = 1 if k == 'scale' else 0
        a = np.ravel(want.get(k, plain)).astype(float)
        if k in parts:
            got = np.array([float(x) for x in parts[k].strip('()').split(',')])
        else:
            got = np.array([float(plain)])
        ensure(bool((np.abs(got - a) < .02 + .01 * np.abs(a)).all()),
               'as_graph: label {} shows {}={} instead of {}', label, k, got, a)


def check_graph(tree, graph, root, fields):
    data = graph.nodes[root]
    name = type(tree.obj).__name__
    ensure(data['obj'] is tree.obj, 'as_graph: node {} shows {} instead of {}',
           root, data['obj'], tree.obj)
    equal(data['type'], name, 'as_graph: type')
    label = data['label']
    short = name.replace('Delayed', '')
    ensure(label.split(' ')[0] == short, 'as_graph: label {} of {}', label, name)
    for k, v in tree.meta.items():
        if v is None or k in ('num_channels', 'jagged'):
            continue
        if k in ('border_value', 'antialias', 'interpolation',
                 'noop_eps') and fields == 'auto':
            continue
        if k == 'fpath':
            ensure('fname=' + str(v).split('/')[-1] in label,
                   'as_graph: label {} without file name', label)
            continue
        ensure(k + '=' in label, 'as_graph: label {} lacks {}', label, k)
        if k == 'dsize':
            text = 'dsize=({},{})'.format(*(int(a) for a in v))
            ensure(text in label, 'as_graph: label {} lacks {}', label, text)
        elif k == 'channels':
            ensure('channels=' + v.spec in label,
                   'as_graph: label {} lacks {}', label, v.spec)
        elif k == 'transform':
            shown_transform(label, v)
        elif k in ('interpolation', 'antialias', 'overview', 'backend',
                   'num_overviews') and isinstance(v, (str, int)):
            ensure('{}={}'.format(k, v) in label, 'as_graph: label {} lacks '
                   '{}={}', label, k, v)
    kids = list(graph.successors(root))
    equal(len(kids), len(tree.kids), 'as_graph: children of ' + name)
    for a, b in zip(tree.kids, kids):
        check_graph(a, graph, b, fields)


def parse(lines):
    """ Network text of one directed tree as (depth, label) lines """
    out = []
    depth = 0
    vertical = False
    for line in lines:
        body = line.lstrip(' ╎│╽')
        if not body:
            vertical = True
            continue
        at = len(line) - len(body)
        for mark in ('╙── ', '├─╼ ', '└─╼ '):
            if body.startswith(mark):
                out.append([at + 4, body[4:], False])
                break
        else:
            ensure(vertical, 'text: line {!r} without connection', line)
            out.append([at, body, True])
        vertical = False
    return out


def check_text(tree, lines, labels):
    rows = parse(lines)
    want = []

    def visit(t, indent, vert, chains):
        want.append((indent, vert))
        for k in t.kids:
            down = chains and len(t.kids) == 1
            visit(k, indent if down else indent + 4, down, chains)
    return rows, want, visit


def run(case, rec):
    stmts = case['stmts']
    x = G.build(stmts)[-1]
    rec.label(*anygraph.label(rec, stmts) and ())
    n = 0
    for how, y in [('raw', x), ('opt', x.optimize())]:
        tree = Tree(y)
        nodes = list(tree.walk())
        n = max(n, len(nodes))
        before = snapshot(tree)
        nest = y.nesting()
        check_nesting(tree, nest)
        check_meta(tree, nest)
        graph = y.as_graph(fields=case['fields'])
        equal(graph.number_of_nodes(), len(nodes), how + ': as_graph: nodes')
        roots = [v for v in graph.nodes if graph.in_degree(v) == 0]
        equal(len(roots), 1, how + ': as_graph: roots')
        check_graph(tree, graph, roots[0], case['fields'])
        equal(sorted(map(id, y.leafs())),
              sorted(id(t.obj) for t in nodes if not t.kids), how + ': leafs')
        f = io.StringIO()
        with contextlib.redirect_stdout(f):
            call = y.print_graph if case['vert'] else y.write_network_text
            call(fields=case['fields'], with_labels=case['labels'],
                 rich=False, vertical_chains=case['vert'])
        rows, want, visit = check_text(tree, f.getvalue().split('\n')[:-1],
                                       case['labels'])
        visit(tree, 4, False, case['vert'])
        equal([(a, c) for a, _, c in rows], want, how + ': text: structure')
        order = []

        def pre(v):
            order.append(graph.nodes[v]['label'] if case['labels'] else v)
            for c in graph.successors(v):
                pre(c)
        pre(roots[0])
        equal([r[1] for r in rows], order, how + ': text: labels')
        equal(snapshot(tree), before, how + ': the graph after showing it')
    rec.nontrivial(n >= 3)


@st.composite
def nets(draw):
    n = draw(st.integers(0, 7))
    directed = draw(st.booleans())
    pairs = [(a, b) for a in range(n) for b in range(n) if a != b
             or draw(st.integers(0, 9)) == 0]
    edges = draw(st.lists(st.sampled_from(pairs), unique=True, max_size=10)
                 ) if pairs else []
    labels = {str(i): draw(st.sampled_from(['x', 'yy', 'long name', 'n{}'.format(i)]))
              for i in range(n) if draw(st.integers(0, 3)) == 0}
    collapse = [i for i in range(n) if draw(st.integers(0, 9)) == 0]
    return {'n': n, 'directed': directed, 'edges': [list(e) for e in edges],
            'labels': labels, 'collapse': collapse,
            'ascii': draw(st.booleans()), 'vert': draw(st.booleans()),
            'depth': draw(st.sampled_from([None, None, None, 0, 1, 2, 3])),
            'with_labels': draw(st.sampled_from([True, True, False])),
            'sources': draw(st.sampled_from([None, None, 1, 2]))}


def run_text(case, rec):
    import networkx as nx
    from delayed_image.util import util_network_text as T
    g = nx.DiGraph() if case['directed'] else nx.Graph()
    for i in range(case['n']):
        g.add_node(i)
        if str(i) in case['labels']:
            g.nodes[i]['label'] = case['labels'][str(i)]
        if i in case['collapse']:
            g.nodes[i]['collapse'] = True
    g.add_edges_from(map(tuple, case['edges']))
    sources = None
    if case['sources'] and case['n'] >= case['sources']:
        sources = list(range(case['sources']))
    kw = dict(with_labels=case['with_labels'], sources=sources,
              max_depth=case['depth'], ascii_only=case['ascii'],
              vertical_chains=case['vert'])
    lines = list(T.generate_network_text(g, **kw))
    equal(lines, list(nx.generate_network_text(g, **kw)),
          'the text networkx gives')
    f = io.StringIO()
    T.write_network_text(g, path=f, end='\n', **kw)
    equal(f.getvalue(), ''.join(a + '\n' for a in lines), 'written text')
    got = []
    T.write_network_text(g, path=got.append, end='', **kw)
    equal(got, lines, 'text to a function')
    plain = (sources is None and case['depth'] is None and not case['collapse']
             and not case['labels'])
    if plain:
        rec.label('parsed')
        new = T.parse_network_text(lines)
        equal(sorted(new.nodes), sorted(map(str, g.nodes)), 'parsed nodes')
        if case['directed'] and g.number_of_edges():
            equal(sorted(new.edges), sorted((str(a), str(b)) for a, b in g.edges),
                  'parsed edges')
        elif g.number_of_edges():
            und = lambda es: sorted(tuple(sorted(map(str, e))) for e in es)
            equal(und(new.edges), und(g.edges), 'parsed edges')
    rec.label('directed' if case['directed'] else 'undirected')
    rec.nontrivial(len(case['edges']) >= 2)


CHECK = CheckModule('C25', [
    Facet('memory', strat(['ident', 'ident', 'nans']), run, 3000,
          rule='any graph over arrays, before and after optimizing, in each view; '
          'non-trivial = 3 or more nodes'),
    Facet('files', strat(['file', 'file', 'ident']), run, 800,
          rule='the same over files'),
    Facet('text', lambda: nets(), run_text, 4000,
          rule='network text of random graphs against networkx and parsed back; '
          'non-trivial = 2 or more edges'),
])
