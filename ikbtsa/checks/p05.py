"""Dumping a tree and loading the dump gives the same tree."""
from ..bt import *

EXPLANATION = ('Writer/reader agreement of the tree serialiser: dump and load are interpreted abstractly on tree shapes '
               'built from composites, an inverter, library leaves and a custom leaf class with opaque titles, '
               'descriptions and properties; the loaded tree is compared node by node (identity, class, child order, '
               'metadata) with the dumped one, on every abstract path.')
RULE = 'one obligation per tree shape and compared aspect'
MIN_OBLIGATIONS = 30


def run(ctx):
    from ..poly import anyexpr

    def build(it, m, shape, custom, alln):
        kind = shape[0]
        if kind == 'Again':             # the node built last, a second time
            return alln[-1]
        cls = custom[kind] if kind in custom else it.getattr(m, kind)
        if kind in ('CustomSequence', 'CustomInverter'):
            kids = [build(it, m, s, custom, alln) for s in shape[1:]]
            n = it.call(cls, [kids] if kind == 'CustomSequence' else kids, {})
        elif kind in ('Sequence', 'Priority', 'MemSequence', 'MemPriority', 'OrNode'):
            n = it.call(cls, [[build(it, m, s, custom, alln) for s in shape[1:]]], {})
        elif kind == 'Inverter':
            n = it.call(cls, [build(it, m, shape[1], custom, alln)] if len(shape) > 1 else [], {})
        else:
            n = it.call(cls, [], {})
        i = len(alln)
        n.d['title'] = 'title-%d' % i
        n.d['description'] = 'description-%d' % i if not it.user.get('bare') or kind == 'Declared' else ''
        n.d['properties'] = {'p%d' % i: anyexpr('prop%d' % i)} if not it.user.get('bare') else {}
        alln.append(n)
        return n

    def sig(it, n, ctxprops=True):
        kids = []
        if 'children' in n.d:
            kids = [sig(it, c) for c in n.d['children']]
        if n.d.get('child'):
            kids = [sig(it, n.d['child'])]
        return (n.d['id'], n.cls.name, n.d['title'], n.d['description'], tuple(sorted(map(repr, n.d['properties'].items()))),
                tuple(kids))

    leaf = ('Succeeder',)
    shapes = {
        'leaf': leaf, 'failer': ('Failer',), 'runner': ('Runner',), 'error': ('Error',), 'custom-leaf': ('Custom',),
        'empty-sequence': ('Sequence',), 'inverter-without-child': ('Inverter',),
        'sequence-2': ('Sequence', leaf, ('Failer',)),
        'sequence-3': ('Sequence', leaf, ('Failer',), ('Runner',)),
        'priority-3': ('Priority', ('Custom',), leaf, ('Custom',)),
        'or-2': ('OrNode', ('Failer',), leaf), 'memsequence-2': ('MemSequence', leaf, ('Runner',)),
        'mempriority-2': ('MemPriority', leaf, ('Runner',)),
        'inverter': ('Inverter', ('Failer',)),
        'custom-composite': ('CustomSequence', leaf, ('Custom',), ('Failer',)),
        'custom-decorator': ('Priority', ('CustomInverter', ('Custom',)), ('CustomInverter', leaf)),
        'shared-child': ('Sequence', leaf, ('Again',), ('Failer',)),
        'shared-subtree': ('Sequence', ('Priority', leaf, ('Custom',)), ('Inverter', ('Again',)), ('Again',)),
        'declared-text': ('Sequence', ('Declared',), leaf, ('Declared',)),
        'deep': ('Sequence', ('Priority', leaf, ('Inverter', ('Sequence', ('Failer',), ('Runner',))), ('Custom',)),
                 ('MemSequence', ('Custom',), leaf), ('Error',)),
    }
    bare = {k + ', bare nodes': v for k, v in shapes.items() if k in ('sequence-3', 'deep', 'custom-leaf', 'custom-decorator', 'shared-subtree')}
    for name, shape in sorted(list(shapes.items()) + list(bare.items())):
        def body(it):
            it.user['bare'] = name.endswith('bare nodes')
            m = b3(it)
            ucls = {'Custom': VClass('Custom', [it.getattr(m, 'Action')], {}, m),
                    'CustomSequence': VClass('CustomSequence', [it.getattr(m, 'Sequence')], {}, m),
                    'CustomInverter': VClass('CustomInverter', [it.getattr(m, 'Inverter')], {}, m),
                    'Declared': VClass('Declared', [it.getattr(m, 'Action')], {'title': 'class title', 'description': 'class text'}, m)}
            alln = []
            root = build(it, m, shape, ucls, alln)
            tree = new_tree(it, root)
            tree.d['title'], tree.d['description'] = 'T', 'D'
            tree.d['properties'] = {'q': anyexpr('q')}
            data = it.call(it.getattr(tree, 'dump'), [], {})
            it.user['cat'] = {k: it.getattr(c, 'category') for k, c in ucls.items()}
            t2 = it.call(it.getattr(m, 'BehaviorTree'), [], {})
            it.call(it.getattr(t2, 'load'), [data, ucls], {})
            return tree, t2, data
        for it, out in ctx.explore(body):
            if out[0] != 'return':
                ctx.ob('roundtrip/' + name, False, ctx.outcome_text(out), ctx.where(out))
                continue
            I.CUR = it
            t1, t2, data = out[1]
            cat = it.user['cat']
            try:
                s1, s2 = sig(it, t1.d['root']), sig(it, t2.d['root'])
            except Exception as e:      # noqa: the loaded tree is malformed
                ctx.ob('roundtrip/' + name, False, 'loaded tree is malformed: %r' % e, 'b3.BehaviorTree.load')
                continue
            ctx.ob('roundtrip/' + name, s1 == s2, 'dumped %r, loaded %r' % (s1, s2), 'b3.BehaviorTree')
            ctx.ob('metadata/' + name, all(t1.d[k] == t2.d[k] for k in ('title', 'description', 'properties')),
                   'tree title/description/properties', 'b3.BehaviorTree')
            want = {k for k in cat if repr(k) in repr(shape)}
            try:
                got = [c['name'] for c in data['custom_nodes']]
                kinds = [c['category'] for c in data['custom_nodes']]
            except Exception as e:      # noqa: the dump is malformed
                ctx.ob('custom-nodes/' + name, False, 'list of custom nodes is malformed: %r' % e, 'b3.BehaviorTree.dump')
                continue
            ctx.ob('custom-nodes/category/' + name, all(cat.get(n) == k for n, k in zip(got, kinds)),
                   'custom nodes %s are listed with categories %s' % (got, kinds), 'b3.BehaviorTree.dump')
            ctx.ob('custom-nodes/' + name, set(got) == want and len(got) == len(want),
                   'custom nodes listed %s, used %s' % (got, sorted(want)), 'b3.BehaviorTree.dump')
    # a node type supplied by the caller goes before a built-in one of the same name
    def body(it):
        m = b3(it)
        mine = VClass('Wait', [it.getattr(m, 'Action')], {}, m)
        data = it.call(it.getattr(new_tree(it, it.call(mine, [], {})), 'dump'), [], {})
        t2 = it.call(it.getattr(m, 'BehaviorTree'), [], {})
        it.call(it.getattr(t2, 'load'), [data, {'Wait': mine}], {})
        return t2.d['root'].cls is mine
    for it, out in ctx.explore(body):
        ctx.ob('supplied-name', out == ('return', True), ctx.outcome_text(out), ctx.where(out))
    # unknown node names are rejected with an attribute error
    def body(it):
        m = b3(it)
        tree = it.call(it.getattr(m, 'BehaviorTree'), [], {})
        data = {'title': 't', 'description': 'd', 'properties': {}, 'root': 'r', 'custom_nodes': [],
                'nodes': {'r': {'id': 'r', 'name': 'NoSuchNode', 'title': 't', 'description': 'd', 'properties': {}}}}
        return it.call(it.getattr(tree, 'load'), [data], {})
    for it, out in ctx.explore(body):
        ctx.ob('unknown-name', out[0] == 'raise' and isinstance(out[1].exc, AttributeError), ctx.outcome_text(out),
               ctx.where(out))
    # an empty tree dumps and loads as an empty tree
    def body(it):
        m = b3(it)
        tree = it.call(it.getattr(m, 'BehaviorTree'), [], {})
        data = it.call(it.getattr(tree, 'dump'), [], {})
        t2 = it.call(it.getattr(m, 'BehaviorTree'), [], {})
        it.call(it.getattr(t2, 'load'), [data], {})
        return t2.d['root']
    for it, out in ctx.explore(body):
        ctx.ob('empty-tree', out[0] == 'return' and out[1] is None, ctx.outcome_text(out), ctx.where(out))
    # a class may declare its title and description; otherwise the title is the class name
    def body(it):
        m = b3(it)
        a = it.call(VClass('Named', [it.getattr(m, 'Action')], {'title': 'my title', 'description': 'my text'}, m), [], {})
        b = it.call(VClass('Plain', [it.getattr(m, 'Action')], {}, m), [], {})
        return [it.getattr(x, k) for x in (a, b) for k in ('title', 'description')]
    for it, out in ctx.explore(body):
        ctx.ob('class-title', out[0] == 'return' and out[1] == ['my title', 'my text', 'Plain', ''],
               ctx.outcome_text(out), 'b3.BaseNode')
