# Cases of C10: generated uses of the Python interface.  draw() gives the choices, h reads the C++ objects.
import traceback
import os
import numpy as np
import h
import conduit
from conduit import Node, Schema, DataType, Generator, NodeIterator, Endianness

TYPES = ['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'float32', 'float64']
draw = h.draw


def rng(a, b): return a + draw(b - a)
def coin(): return draw(1) == 1
def pick(v): return v[draw(len(v) - 1)]
def chance(n, d): return draw(d - 1) >= d - n


class Fail(Exception): pass


def check(ok, *msg):
    if not ok: raise Fail(' '.join(str(m) for m in msg))


def same(got, want, *msg):
    if got != want: raise Fail('%s: %r, expected %r' % (' '.join(str(m) for m in msg), got, want))


def run(name):
    try:
        CASES[name]()
    except Fail as e:
        return str(e)
    except BaseException as e:
        return 'exception %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-700:])
    return None


# ---------------------------------------------------------------- models
# None | ('o', [(name, model)]) | ('l', [model]) | ('s', bytes) | (type, [bits])
def bits(a): a = np.ascontiguousarray(a); return [int(x) for x in a.reshape(-1).view('u%d' % a.itemsize)] if a.size else []
def num(ty, vals): return (ty, bits(np.array(vals, dtype=ty)))


def gen_num(ty, n):
    if ty.startswith('float'): return np.array([pick([0.0, 1.5, -2.25, 1e30, -0.0, 3.0, float('inf'), rng(-100, 100) / 8.0]) for _ in range(n)], dtype=ty)
    i = np.iinfo(ty); return np.array([pick([0, 1, i.max, i.min, i.max - 1, rng(0, 100), 7]) for _ in range(n)], dtype=ty)


def gen_array():
    """a numpy array in some layout, its elements in order"""
    ty = pick(TYPES); n = h.size(7); k = draw(9)
    a = gen_num(ty, n)
    if k <= 1: return a, (ty, bits(a)), 'array'
    if k == 2:
        b = np.zeros(2 * n + 1, dtype=ty); b[1::2] = a; return b[1::2], (ty, bits(a)), 'strided array'
    if k == 3:
        b = a[::-1].copy(); return b[::-1], (ty, bits(a)), 'reversed array'
    if k == 4:
        m = rng(1, 3); b = gen_num(ty, m * n).reshape(m, n); return b, (ty, bits(b)), '2D array'
    if k == 5:
        m = rng(1, 3); b = gen_num(ty, m * n).reshape(m, n); v = np.asfortranarray(b) if coin() else b.T.copy().T; return v, (ty, bits(b)), '2D array, columns first'
    if k == 6:
        b = a.astype(a.dtype.newbyteorder('>')); return b, (ty, bits(a)), 'array in the other byte order'
    if k == 7:
        b = np.zeros(3 * n + 2, dtype=ty); v = b[::-3][:n]; v[:] = a; return v, (ty, bits(a)), 'reversed strided array'
    if k == 8:
        st = np.zeros(n, dtype=[('p', 'i1'), ('v', ty)]); st['v'] = a; return st['v'], (ty, bits(a)), 'field of a record array'
    b = a.copy(); b.setflags(write=False); return b, (ty, bits(a)), 'read-only array'


WORDS = ['', 'a', 'word', 'two words', 'x' * 40, '"quoted"', 'back\\slash', 'line\nbreak', '{}', '0']


def gen_py(depth=0):
    """a Python value that can be stored, and its model"""
    k = draw(11 if depth < 2 else 7)
    if k == 0: v = pick([0, 1, -1, 2**63 - 1, -2**63, rng(0, 1000)]); return v, num('int64', [v]), 'int'
    if k == 1: v = pick([0.0, 1.5, -2.5, 1e300, float(rng(0, 1000))]); return v, num('float64', [v]), 'float'
    if k == 2: v = pick(WORDS); return v, ('s', v.encode()), 'str'
    if k == 3:
        ty = pick(TYPES); a = gen_num(ty, 1); return a[0], (ty, bits(a)), 'numpy scalar'
    if k in (4, 5): return gen_array()
    if k == 6:
        n = rng(1, 5); fl = coin(); v = [pick([0, 1, -5, 2**62, rng(0, 99)]) for _ in range(n)]
        if fl: v = [float(x) if coin() else x for x in v]; v[rng(0, n - 1)] = pick([0.5, -3.0, 1e10])
        m = num('float64' if fl else 'int64', v)
        return (tuple(v) if coin() else v), m, 'list of numbers'
    if k == 7:
        n = rng(1, 4); w = [pick(['a', 'word', 'x' * 7, 'z9']) for _ in range(n)]; kind = draw(4); a = np.array(w, dtype=pick([None, 'S9', 'U9', 'S7', 'U7']))
        if a.dtype.kind == 'S' and False: pass
        m = ('l', [('s', x.encode()) for x in w])
        if kind == 1:
            b = np.zeros(2 * n, dtype=a.dtype); b[::2] = a; return b[::2], m, 'strided array of strings'
        if kind == 2: return a[::-1].copy()[::-1], m, 'reversed array of strings'
        return a, m, 'array of strings'
    if k in (8, 9):
        n = h.size(4); vs = [gen_py(depth + 1) for _ in range(n)]
        if n == 0: return ([] if coin() else ()), None, 'empty list'
        v = [x[0] for x in vs]
        plain = all(isinstance(x, (int, float)) for x in v)
        if plain:
            m = num('float64' if any(isinstance(x, float) for x in v) else 'int64', v)
        else: m = ('l', [x[1] for x in vs])
        return (tuple(v) if coin() else v), m, 'list of values'
    n = Node(); m = build(n, depth + 1); return n, m, 'Node'


def fit(m): return m if m is not None else None


def build(n, depth=0):
    """fill a node, returning the model"""
    if depth >= 2 or chance(1, 3):
        v, m, _ = gen_py(2); n.set(v); return m
    k = h.size(3)
    if coin():
        kids = []
        for i in range(k):
            nm = 'abcdef'[i]; kids.append((nm, build(n.fetch(nm), depth + 1)))
        if not k: n.set(DataType.object())
        return ('o', kids)
    kids = [build(n.append(), depth + 1) for i in range(k)]
    if not k: n.set(DataType.list())
    return ('l', kids)


def value_of(m, v, where):
    """what Python gives for a stored value"""
    if m is None or m[0] in 'ol':
        check(isinstance(v, Node), where, 'gives a Node, not', type(v)); same(h.read(v), m, where)
    elif m[0] == 's': check(isinstance(v, str), where, 'is a str'); same(v.encode(), m[1], where)
    else:
        if len(m[1]) == 1: check(isinstance(v, np.generic), where, 'is a numpy scalar, not', type(v))
        else: check(isinstance(v, np.ndarray), where, 'is a numpy array, not', type(v)); same(v.ndim, 1, where, 'dimensions')
        same(str(v.dtype), m[0], where, 'type'); same(bits(np.array(v)), m[1], where)


def walk(n, m, where='node'):
    """read a node through every accessor"""
    same(h.read(n), m, where)
    value_of(m, n.value(), where + '.value()')
    k = len(m[1]) if m is not None and m[0] in 'ol' else 0
    same(n.number_of_children(), k, where, 'number_of_children')
    inf = h.info(n)
    for f in ('total_strided_bytes', 'total_bytes_compact', 'is_compact', 'is_root', 'number_of_children', 'name', 'path'): same(getattr(n, f)(), inf[f], where, f)
    if m is None or m[0] not in 'ol':
        same(len(list(n.child_names())), 0, where, 'child_names'); return
    names = [x[0] for x in m[1]] if m[0] == 'o' else []
    same(list(n.child_names()), names, where, 'child_names')
    it = n.children(); i = 0
    for c in it:
        check(h.same(c.node(), n.child(i)), where, 'iterator gives child', i)
        same(c.index(), i, where, 'iterator index')
        if m[0] == 'o': same(c.name(), names[i], where, 'iterator name')
        i += 1
    same(i, k, where, 'children iterated')
    i = 0
    for c in n: check(h.same(c.node(), n.child(i)), where, 'iteration gives child', i); i += 1
    same(i, k, where, 'children iterated')
    for i in range(k):
        sub = m[1][i][1] if m[0] == 'o' else m[1][i]
        c = n.child(i); check(h.same(c.parent(), n), where, 'parent of child', i); check(not c.is_root(), where, 'child is no root'); check(not c.python_owns(), where, 'child is owned by the node')
        check(h.same(n.child(index=i), c), where, 'child(index=)')
        value_of(sub, n[i], '%s[%d]' % (where, i))
        if m[0] == 'o':
            nm = names[i]; check(h.same(n.child(name=nm), c), where, 'child(name=)'); check(n.has_child(nm), where, 'has child', nm)
            if '/' not in nm: check(h.same(n.fetch(nm), c), where, 'fetch'); check(h.same(n.fetch_existing(nm), c), where, 'fetch_existing'); check(n.has_path(nm), where, 'has path', nm); value_of(sub, n[nm], '%s[%r]' % (where, nm))
        walk(c, sub, '%s/%d' % (where, i))


# ---------------------------------------------------------------- values
def case_values():
    v, m, kind = gen_py(); h.label(kind); h.desc('%s: %r -> %r' % (kind, v, m))
    if m is not None and (m[0] in 'ol' or len(m[1]) > 1): h.nontrivial()
    n = Node(); way = draw(5); root = n
    if way == 0: n.set(v)
    elif way == 1: n = Node(v); root = n
    elif way == 2: n['x'] = v; n = n.fetch('x')
    elif way == 3: n['x/y'] = v; n = n.fetch('x/y')
    elif way == 4: n.set_path('p/q', v); n = n.fetch('p/q')
    else: n = n.append(); n.set(v)
    h.desc('way %d' % way)
    walk_m = m
    same(h.read(n), walk_m, kind, 'stored'); value_of(m, n.value(), 'value of ' + kind)
    if isinstance(v, np.ndarray) and v.size and v.flags.writeable and v.dtype.kind in 'iuf': v[...] = 0; same(h.read(n), m, kind, 'is a copy')
    if isinstance(v, Node): v.reset(); same(h.read(n), m, 'stored Node is a copy')
    if m is not None and m[0] in TYPES and len(m[1]) > 1:
        w = n.value(); w[0] = 1; e = list(m[1]); e[0] = bits(np.array([1], dtype=m[0]))[0]; same(h.read(n), (m[0], e), 'value() is a view of the node')


# ---------------------------------------------------------------- programs
def get(m, path):
    for p in path:
        if m is None or m[0] != 'o': return 'no'
        d = dict(m[1])
        if p not in d: return 'no'
        m = d[p]
    return m


def put(m, path, v):
    if not path: return v
    if m is None or m[0] != 'o': kids = []
    else: kids = list(m[1])
    for i, (k, x) in enumerate(kids):
        if k == path[0]: kids[i] = (k, put(x, path[1:], v)); return ('o', kids)
    kids.append((path[0], put(None, path[1:], v))); return ('o', kids)


def gen_path(): return [pick('abc') for _ in range(rng(1, 3))]


def update(m, o):
    if o is None: return m
    if o[0] == 'o':
        kids = list(m[1]) if m is not None and m[0] == 'o' else []
        for k, x in o[1]:
            for i, (kk, xx) in enumerate(kids):
                if kk == k: kids[i] = (k, update(xx, x)); break
            else: kids.append((k, update(None, x)))
        return ('o', kids)
    return o


def case_programs():
    n = Node(); m = None; steps = rng(2, 12); h.nontrivial()
    for _ in range(steps):
        op = draw(13); p = gen_path(); path = '/'.join(p)
        if op <= 2:
            v, x, kind = gen_py(1); h.desc('n[%r] = %s' % (path, kind))
            if get(m, p) not in ('no', None): n.remove(path=path); m = remove(m, p)
            if coin(): n[path] = v
            else: n.fetch(path).set(v)
            m = put(m, p, x)
        elif op == 3:
            h.desc('fetch %s' % path); n.fetch(path)
            if get(m, p) == 'no': m = put(m, p, None)
        elif op == 4:
            h.desc('get %s' % path); e = get(m, p); same(n.has_path(path), e != 'no', 'has_path', path)
            if e != 'no': value_of(e, n[path], path)
            else:
                try: n.fetch_existing(path); check(False, 'fetch_existing of a missing path')
                except Fail: raise
                except Exception: pass
        elif op == 5:
            h.desc('remove %s' % path)
            if get(m, p) == 'no': continue
            n.remove(path=path); m = remove(m, p)
        elif op == 6:
            if m is None or m[0] != 'o' or not m[1]: continue
            i = rng(0, len(m[1]) - 1); h.desc('remove index %d' % i)
            if coin(): n.remove(index=i)
            elif coin(): n.remove(i)
            else: n.remove_child(m[1][i][0])
            m = ('o', m[1][:i] + m[1][i + 1:])
        elif op == 7:
            if m is None or m[0] != 'o' or not m[1]: continue
            i = rng(0, len(m[1]) - 1); nm = pick(['a', 'r', 's']); old = m[1][i][0]; h.desc('rename %s to %s' % (old, nm))
            if nm in dict(m[1]):
                if nm != old:
                    try: n.rename_child(old, nm); check(False, 'renaming to an existing name')
                    except Fail: raise
                    except Exception: pass
                continue
            if coin(): n.rename_child(old, nm)
            else: n.rename_child(current_name=old, new_name=nm)
            m = ('o', [(nm if k == old else k, x) for k, x in m[1]])
        elif op == 8:
            h.desc('add_child'); nm = pick(['a', 'x/y', 'z'])
            if m is not None and m[0] != 'o': continue
            c = n.add_child(nm); d = list(m[1]) if m else []
            if nm not in dict(d): d.append((nm, None))
            m = ('o', d); check(h.same(c, n.child(name=nm)), 'add_child gives the child')
        elif op == 9:
            o = Node(); x = build(o); h.desc('swap'); o.swap(n) if coin() else n.swap(o); same(h.read(o), m, 'swapped out'); m = x
        elif op == 10:
            o = Node(); x = build(o); h.desc('move'); n.move(o); same(h.read(o), None, 'moved from'); m = x
        elif op == 11: h.desc('reset'); n.reset(); m = None
        elif op == 12:
            o = Node(); x = ('o', []) ; names = [c for c in 'abd' if coin()]
            x = None
            for c in names:
                v, y, kind = gen_py(2)
                if y is None: continue
                e = get(m, [c])
                if e not in ('no', None) and m[0] == 'o' and n.has_child(c): n.remove_child(c); m = remove(m, [c])
                o[c] = v; x = put(x, [c], y)
            if m is not None and m[0] != 'o': continue
            h.desc('update %s' % names); n.update(o); m = update(m, x)
        else:
            o = Node(); h.desc('compact_to'); n.compact_to(o); same(h.read(o), m, 'compact copy'); check(o.is_compact(), 'compact copy is compact'); q = Node(); q.set(n); same(h.read(q), m, 'copy')
            info = Node(); check(not n.diff(q, info), 'a copy does not differ', info); check(not n.diff_compatible(q, info), 'a copy is compatible')
        same(h.read(n), m, 'after the step')
    walk(n, m)


def remove(m, p):
    kids = []
    for k, x in m[1]:
        if k == p[0]:
            if len(p) > 1: kids.append((k, remove(x, p[1:])))
        else: kids.append((k, x))
    return ('o', kids)


# ---------------------------------------------------------------- external memory
def case_external():
    ty = pick(TYPES); n = rng(0, 6); k = draw(5); a = gen_num(ty, n); node = Node(); h.desc('%s %d layout %d' % (ty, n, k))
    if n > 1: h.nontrivial()
    if k == 0: v = a.copy()
    elif k == 1: b = np.zeros(2 * n + 1, dtype=ty); v = b[1::2]; v[:] = a
    elif k == 2: b = np.zeros(3 * n + 2, dtype=ty); v = b[2:][::3][:n]; v[:] = a
    elif k == 3: st = np.zeros(n, dtype=[('p', 'i4'), ('v', ty), ('q', 'i1')]); v = st['v']; v[:] = a
    elif k == 4:
        # node to node
        s = Node(); s['a'] = a.copy(); s['b/c'] = 5; node.set_external(s); same(h.read(node), h.read(s), 'external Node')
        if n > 1: s['a'][0] = 9; same(h.read(node), h.read(s), 'external Node follows')
        return
    else:
        # schema and buffer
        sch = Schema(); sch['x'] = DataType(ty, n) if coin() else getattr(DataType, ty)(n); isz = np.dtype(ty).itemsize; off = isz * (n + 1)
        sch['y'] = getattr(DataType, ty)(n, off)
        buf = bytearray(2 * off); arr = np.frombuffer(buf, dtype=ty); arr[:n] = a; arr[n + 1:2 * n + 1] = a
        want = ('o', [('x', (ty, bits(a))), ('y', (ty, bits(a)))])
        if coin(): node.set_external(sch, buf); same(h.read(node), want, 'external buffer'); arr[:] = 0; z = (ty, bits(np.zeros(n, dtype=ty))); same(h.read(node), ('o', [('x', z), ('y', z)]), 'external buffer follows')
        else: src = bytes(buf) if coin() else buf; node.set(sch, src); same(h.read(node), want, 'set from a buffer'); arr[:] = 0; same(h.read(node), want, 'set from a buffer copies')
        return
    root = node
    if coin(): node = root.fetch('u')
    node.set_external(v); same(h.read(node), (ty, bits(a)), 'external array')
    if n:
        i = rng(0, n - 1); v[i] = 1; same(h.read(node), (ty, bits(np.array(v))), 'external array follows')
        if n > 1: node.value()[i] = 2; same(float(v[i]), 2.0, 'writes reach the array')
    d = node.dtype(); same(d.number_of_elements(), n, 'elements')
    if n > 1: same(d.stride(), v.strides[0], 'stride')


# ---------------------------------------------------------------- wrong uses
def case_errors():
    n = Node(); m = build(n, 0); h.desc('%r' % (m,)); k = draw(22); h.desc('error %d' % k); h.label('error %d' % k); h.nontrivial()

    def bad(f, *kinds):
        try: f()
        except (kinds or (Exception,)): pass
        else: check(False, 'no exception')
    cnt = n.number_of_children(); same_after = True
    if k == 0: bad(lambda: n[cnt + rng(0, 3)])
    elif k == 1: bad(lambda: n[-1 - rng(0, 3)])
    elif k == 2: bad(lambda: n.child(cnt + 1))
    elif k == 3: bad(lambda: n.fetch_existing('no/such/path'))
    elif k == 4: bad(lambda: n.remove(index=cnt + 2))
    elif k == 5: bad(lambda: n.child(name='nope'))
    elif k == 6: bad(lambda: Node().set(pick([None, {'a': 1}, {1, 2}, object(), 1j, b'bytes', np.array([1j]), np.array([None]), Node])), TypeError)
    elif k == 7:
        x = Node(); bad(lambda: x.set([1, 'a', None]), TypeError)
    elif k == 8: bad(lambda: n[1.5j], TypeError)
    elif k == 9:
        def dele():
            del n['a']
        try: dele()
        except Exception: pass
        else: same_after = False; check(not n.has_path('a'), 'del removes')
    elif k == 10: bad(lambda: n.set_external(pick([5, 'x', [1, 2], None])), TypeError)
    elif k == 11: bad(lambda: n.set_external(np.zeros((2, 2))), TypeError)
    elif k == 12: x = Node(); bad(lambda: x.parse('{"a": [', 'json'))
    elif k == 13: x = Node(); bad(lambda: x.load('/nonexistent/file.json', protocol='json'))
    elif k == 14: x = Node(); bad(lambda: x.set(pick([2**63, 2**70, -2**63 - 1, [1, 2**64], [0.5, 2**64]])), OverflowError, TypeError)
    elif k == 15:
        t = pick(['h\u00e9', '\u4e16']); x = Node()
        try: x.set(t)
        except Exception: pass
        else: same(x.value(), t, 'text')
    elif k == 16: x = Node(); bad(lambda: x.generate('{"a": {"dtype": "int3'));
    elif k == 17: bad(lambda: Schema(pick(['{"a": ', '{"dtype":"int33"}', 'x'])))
    elif k == 18: bad(lambda: Generator('{"a": [', pick(['json', 'conduit_json', 'nope'])).walk(Node()))
    elif k == 19:
        import conduit.blueprint as bp
        x = Node(); f = draw(3)
        if f == 0: bad(lambda: bp.mesh.examples.basic('nope', 2, 2, 0, x))
        elif f == 1: bad(lambda: bp.mesh.examples.braid(pick(['nope', 'hexs']), rng(-1, 1), 1, 1, x))
        elif f == 2: bad(lambda: bp.mesh.examples.generate('nope', x))
        else: bad(lambda: bp.mcarray.examples.xyz('nope', 3, x))
    elif k == 20:
        import conduit.relay as relay
        x = Node(); bad(lambda: relay.io.load(x, '/nonexistent/file.' + pick(['json', 'hdf5', 'conduit_bin'])))
    elif k == 21: bad(lambda: n.mmap('/nonexistent/file'))
    else: x = Node(); bad(lambda: x.set(Schema(), pick([5, 'x', None])), TypeError)
    if same_after: same(h.read(n), m, 'after a refused use')


# ---------------------------------------------------------------- descriptions
def case_describe():
    n = Node(); m = build(n, 0); h.desc('%r' % (m,))
    if m is not None and m[0] in 'ol' and len(m[1]) > 1: h.nontrivial()
    indent = rng(0, 3); depth = rng(0, 3); pad = pick([' ', '\t', '']); eoe = pick(['\n', '', '\r\n']); kw = dict(indent=indent, depth=depth, pad=pad, eoe=eoe)
    for p in ('yaml', 'json', 'conduit_json', 'conduit_base64_json'):
        same(n.to_string(p, **kw), h.text(n, 'node', p, indent, depth, pad, eoe), 'to_string', p); same(n.to_string(protocol=p), h.text(n, 'node', p, 2, 0, ' ', '\n'), 'to_string', p)
    for p in ('json', 'conduit_json', 'conduit_base64_json'): same(n.to_json(p, **kw), h.text(n, 'node_json', p, indent, depth, pad, eoe), 'to_json', p)
    same(n.to_json(), h.text(n, 'node_json', 'json', 2, 0, ' ', '\n'), 'to_json'); same(n.to_yaml(), h.text(n, 'node_yaml', 'yaml', 2, 0, ' ', '\n'), 'to_yaml'); same(n.to_yaml('yaml', **kw), h.text(n, 'node_yaml', 'yaml', indent, depth, pad, eoe), 'to_yaml')
    same(str(n), h.text(n, 'summary', '', 0, 0, '', ''), 'str'); same(repr(n), str(n), 'repr'); same(n.to_summary_string(), str(n), 'summary')
    a, b = rng(0, 4), rng(0, 6); same(n.to_summary_string(opts=mkopts(a, b)), h.text(n, 'summary', 'x', a, b, '', ''), 'summary with options')
    s = n.schema(); same(s.to_string('json', **kw), h.text(n, 'schema', 'json', indent, depth, pad, eoe), 'schema to_string'); same(s.to_json(**kw), h.text(n, 'schema_json', '', indent, depth, pad, eoe), 'schema to_json'); same(s.to_yaml(**kw), h.text(n, 'schema_yaml', '', indent, depth, pad, eoe), 'schema to_yaml')
    c = n
    while c.number_of_children(): c = c.child(rng(0, c.number_of_children() - 1))
    d = c.dtype()
    for x, v in h.dtype(c).items(): same(getattr(d, x)(), v, 'dtype', x)
    same(d.to_json(**kw), h.text(c, 'dtype_json', '', indent, depth, pad, eoe), 'dtype to_json'); same(d.to_yaml(**kw), h.text(c, 'dtype_yaml', '', indent, depth, pad, eoe), 'dtype to_yaml'); same(d.to_string('yaml', **kw), h.text(c, 'dtype', 'yaml', indent, depth, pad, eoe), 'dtype to_string')
    same(DataType.id_to_name(d.id()), d.name(), 'name of the type'); same(DataType.name_to_id(d.name()), d.id(), 'id of the type')
    p = Node(); q = Node(); txt = n.to_json(protocol='conduit_base64_json'); g = Generator(txt, 'conduit_base64_json'); g.walk(p); same(h.read(p), h.read(n), 'parsed back')
    q.parse(n.to_string('conduit_json') if False else txt, 'conduit_base64_json'); same(h.read(q), h.read(n), 'parsed back')
    it = n.children(); k = n.number_of_children(); pos = -1
    for _ in range(rng(0, 8)):
        o = draw(5)
        if o == 0: x = it.next(); pos2 = pos + 1; (check(x is None, 'next past the end') if pos2 >= k else check(h.same(x, n.child(pos2)), 'next')); pos = pos2 if pos2 < k else pos
        elif o == 1: x = it.peek_next(); (check(x is None, 'peek past the end') if pos + 1 >= k else check(h.same(x, n.child(pos + 1)), 'peek_next'))
        elif o == 2:
            same(it.has_next(), pos + 1 < k, 'has_next')
        elif o == 3: it.to_front(); pos = -1
        elif o == 4 and pos >= 1 and it.has_previous(): x = it.previous(); pos -= 1; check(h.same(x, n.child(pos)), 'previous')
        elif o == 5 and 0 <= pos < k: check(h.same(it.node(), n.child(pos)), 'node'); same(it.index(), pos, 'index')


def mkopts(a, b): o = Node(); o['num_children_threshold'] = a; o['num_elements_threshold'] = b; return o


# ---------------------------------------------------------------- schemas and types
def gen_dtype():
    ty = pick(TYPES); isz = np.dtype(ty).itemsize; n = rng(0, 5); off = rng(0, 3) * isz; st = isz * rng(1, 3); e = draw(3); end = Endianness.default_id()
    kw = dict(num_elements=n, offset=off, stride=st)
    if e == 0: d = getattr(DataType, ty)(**kw)
    elif e == 1: d = getattr(DataType, ty)(n, off, st)
    elif e == 2: d = DataType(ty, n, off, st) if coin() else DataType(DataType.name_to_id(ty), n, off, st)
    else:
        d = DataType(); d.set(getattr(DataType, ty)(1)) if coin() else d.set_id(DataType.name_to_id(ty)); d.set_number_of_elements(n); d.set_offset(off); d.set_stride(st); d.set_element_bytes(isz); d.set_endianness(end)
    return d, (ty, n, off, st, isz)


def case_schemas():
    d, w = gen_dtype(); h.desc('%r' % (w,))
    same((d.name(), d.number_of_elements(), d.offset(), d.stride(), d.element_bytes()), w, 'data type')
    for i in range(w[1]): same(d.element_index(i), w[2] + i * w[3], 'element_index')
    same(d.bytes_compact(), w[1] * w[4], 'bytes_compact'); d2, w2 = gen_dtype()
    same(bool(d.equals(d2)), w == w2, 'equals'); same(bool(d.compatible(d2)), w[0] == w2[0] and w2[1] <= w[1], 'compatible')
    # schemas as trees
    s = Schema(); m = []
    for i in range(h.size(4)):
        nm = pick('abcd'); d, w = gen_dtype()
        if coin(): s[nm] = d
        elif nm not in dict(m): s.add_child(nm).set(d)
        else: s.child(name=nm).set(d)
        if nm in dict(m): m = [(k, (w if k == nm else x)) for k, x in m]
        else: m.append((nm, w))
    if len(m) > 1: h.nontrivial()
    o = draw(4)
    if m:
        i = rng(0, len(m) - 1); nm = m[i][0]
        if o == 0: s.remove(path=nm); m.pop(i)
        elif o == 1: s.remove(index=i); m.pop(i)
        elif o == 2: s.remove_child(nm); m.pop(i)
        elif o == 3: s.rename_child(nm, 'zz'); m[i] = ('zz', m[i][1])
    same(s.number_of_children(), len(m), 'children'); same(list(s.child_names()), [x[0] for x in m], 'names')
    for i, (nm, w) in enumerate(m):
        for c in (s.child(i), s.child(name=nm), s[nm]): d = c.dtype(); same((d.name(), d.number_of_elements(), d.offset(), d.stride(), d.element_bytes()), w, 'schema entry'); check(not c.is_root(), 'entry is no root'); same(c.name(), nm, 'name'); same(c.path(), nm, 'path')
        check(s.has_path(nm) and s.has_child(nm), 'has'); check(not s.has_path(nm + '/x'), 'has not')
    check(s.is_root(), 'root')
    t = Schema(s); same(t.to_json(), s.to_json(), 'copy'); u = Schema(); u.set(s); same(u.to_json(), s.to_json(), 'set'); q = Schema(s.to_json()); same(q.to_json(), s.to_json(), 'parsed')
    c = Schema(); s.compact_to(c); same(c.total_bytes_compact(), sum(w[1] * w[4] for _, w in m), 'compact bytes'); same(s.total_strided_bytes(), sum(w[3] * (w[1] - 1) + w[4] if w[1] else 0 for _, w in m), 'strided bytes')
    n = Node(); n.set(s); same(list(n.child_names()), [x[0] for x in m], 'node of a schema')
    for nm, w in m: same(n.fetch(nm).dtype().number_of_elements(), w[1], 'elements'); same(n.fetch(nm).dtype().name(), w[0], 'type')


# ---------------------------------------------------------------- files and the other modules
def case_files():
    import conduit.relay as relay, conduit.blueprint as bp
    n = Node(); m = ('o', [])
    n.set(DataType.object())
    for nm in [c for c in 'abc' if coin()]: v, x, _ = gen_py(2); n[nm] = v; m = put(m, [nm], x)
    h.desc('%r' % (m,)); path = h.scratch() + '/f'
    if len(m[1]) > 1: h.nontrivial()
    way = draw(4); r = Node()
    if way == 0:
        p = pick(['conduit_base64_json', 'conduit_bin']); f = path + '.' + p; n.save(f, p) if coin() else n.save(path=f, protocol=p); r.load(f, protocol=p); same(h.read(r), m, 'Node save and load', p)
    elif way == 1:
        p = pick(['conduit_base64_json', 'conduit_bin', 'hdf5']); f = path + '2.' + p
        if p == 'hdf5' and any(x is None or x[0] in 'ol' or (x[0] in TYPES and not x[1]) for _, x in m[1]): return
        relay.io.save(n, f, p); relay.io.load(r, f, p); same(h.read(r), m, 'relay save and load', p)
    elif way == 2:
        f = path + '3.hdf5'
        if os.path.exists(f): os.unlink(f)
        if any(x is None or x[0] in 'ol' or (x[0] in TYPES and not x[1]) for _, x in m[1]): return
        hd = relay.io.IOHandle(); hd.open(f); check(hd.is_open(), 'open')
        for nm, x in m[1]: hd.write(n.fetch(nm), nm)
        same(sorted(hd.list_child_names()), sorted(k for k, _ in m[1]), 'names in the file')
        for nm, x in m[1]: q = Node(); hd.read(q, nm); same(h.read(q), x, 'read', nm); check(hd.has_path(nm), 'has_path')
        if m[1]: hd.remove(m[1][0][0]); check(not hd.has_path(m[1][0][0]), 'removed')
        hd.close(); check(not hd.is_open(), 'closed'); os.unlink(f)
    elif way == 3:
        mesh = Node(); nx, ny = rng(2, 4), rng(2, 4); bp.mesh.examples.basic(pick(['uniform', 'rectilinear', 'structured', 'quads', 'tris']), nx, ny, 0, mesh); info = Node(); check(bp.mesh.verify(mesh, info), 'the example verifies'); check(bp.verify('mesh', mesh, info), 'verify by name'); bad = Node(); bad['coordsets'] = 1; check(not bp.mesh.verify(bad, info), 'what is no mesh does not verify')
        f = path + '_mesh'; proto = pick(['hdf5', 'yaml', 'json']); relay.io.blueprint.save_mesh(mesh, f, proto); r = Node(); relay.io.blueprint.load_mesh(r, f + '.root'); same(r.number_of_children(), 1, 'domains read'); e = h.read(r.child(0)); check(r.child(0).has_path('topologies') and r.child(0).has_path('coordsets') and r.child(0).has_path('fields'), 'mesh read')
        idx = Node(); bp.mesh.generate_index(mesh, 'p', 1, idx); check(bp.verify('mesh/index', idx, info), 'index verifies')
    else:
        k = rng(1, 3); c = rng(0, 5); mc = Node(); src = [gen_num('float64', c) for _ in range(k)]
        for i in range(k): mc['xyz'[i]] = src[i]
        info = Node(); check(bp.mcarray.verify(mc, info), 'mcarray verifies'); o = Node(); same(bool(bp.mcarray.to_contiguous(mc, o)), True, 'to_contiguous'); check(bp.mcarray.is_interleaved(o) is not None, 'flag'); same(h.read(o), h.read(mc), 'contiguous'); o2 = Node(); bp.mcarray.to_interleaved(mc, o2); same(h.read(o2), h.read(mc), 'interleaved')
        same(conduit.utils.format('{:04d}-{}', mkargs(7, 'x')), '0007-x', 'format')


def mkargs(a, b): n = Node(); n.append().set(a); n.append().set(b); return n


CASES = dict((k[5:], v) for k, v in list(globals().items()) if k.startswith('case_'))
