"""The report: every table lists the values its columns name, for every object and every load combination."""
import ast, html, os, re
from rules.ctx import *
from rules.common import *
from rules.members import distinct
from sa.dom import DictC, ListC, MatC
from sa.repo import ROOT, PKG

RULES = ('every table of the report template has, for every object of the model (and, for results, for every load combination handed to the template), a row whose cells evaluate to the value '
         'its column heading names: the expressions of the cells are interpreted against the methods of the package; create_report hands over every collection and every setting of the caller')
FLOOR = 60
NODES = [sym('node %d' % i, 'Node3D') for i in range(2)]
OBJ = {'nodes': [('N%d' % i, n) for i, n in enumerate(NODES)], 'members': [('M1', sym('member', 'PhysMember')), ('M2', sym('member 2', 'PhysMember'))],
       'plates': [('P1', sym('plate', 'Plate3D')), ('P2', sym('plate 2', 'Plate3D'))], 'quads': [('Q1', sym('quad', 'Quad3D'))],
       'load_combos': [('a combination', sym('combo 1', 'LoadCombo')), ('another one', sym('combo 2', 'LoadCombo'))]}
SETTINGS = ['node_table', 'member_table', 'member_releases', 'plate_table', 'node_reactions', 'node_displacements', 'member_end_forces', 'member_internal_forces',
            'plate_corner_forces', 'plate_center_forces', 'plate_corner_membrane', 'plate_center_membrane']
TY_OF = {'nodes': 'Node3D', 'members': 'PhysMember', 'plates': 'Plate3D', 'quads': 'Quad3D', 'load_combos': 'LoadCombo'}
LC = 'a combination'
RELEASES = [sym('release %d' % i, 'bool') for i in range(12)]


# ---------------------------------------------------------------- what a column names
def call(o, m, *a, ty='num'):
    return mk('call', '%s.%s' % (o.ty, m), o, *a, ty=ty)


def at(m, k):
    return mk('at', m, k, 0, ty='num')


def name_of(o):
    return mk_attr(o, 'name', 'str')


def by_attr(**cols):
    return lambda o: {h: mk_attr(o, a, 'num') for h, a in cols.items()}


def nodes_cols(o):
    d = {a: mk_attr(o, a, 'num') for a in 'XYZ'}
    d.update({'Support ' + a: mk_attr(o, 'support_' + (a if len(a) == 2 else 'D' + a), 'bool') for a in ('X', 'Y', 'Z', 'RX', 'RY', 'RZ')})
    return d


def corners(o):
    if o.ty == 'Plate3D':
        w, h = call(o, 'width'), call(o, 'height')
        return dict(zip('ijmn', [(0, 0), (w, 0), (w, h), (0, h)])), (alg.mul(w, Fraction(1, 2)), alg.mul(h, Fraction(1, 2)))
    return dict(zip('ijmn', [(-1, -1), (1, -1), (1, 1), (-1, 1)])), (0, 0)


BENDING = {'Qx': ('shear', 0), 'Qy': ('shear', 1), 'Mx': ('moment', 0), 'My': ('moment', 1), 'Mxy': ('moment', 2)}
MEMBRANE = {'σx': ('membrane', 0), 'σy': ('membrane', 1), 'τxy': ('membrane', 2)}


def plate_cols(what, corner):
    def f(o):
        cs, c = corners(o)
        pts = {'%s-Node ' % k: p for k, p in cs.items()} if corner else {'': c}
        return {pre + h: at(call(o, m, p[0], p[1], True, LC, ty='mat:3,1'), k) for pre, p in pts.items() for h, (m, k) in what.items()}
    return f


def end_cols(o):
    L = mk('call', 'Member3D.L', o, ty='num')
    d = {}
    for e, x in (('i', 0), ('j', L)):
        d['P' + e], d['T' + e] = call(o, 'axial', x, LC), call(o, 'torque', x, LC)
        for a in 'yz':
            d['V%s%s' % (a, e)], d['M%s%s' % (a, e)] = call(o, 'shear', 'F' + a, x, LC), call(o, 'moment', 'M' + a, x, LC)
    return d


def extreme_cols(o):
    d = {}
    for m in ('max', 'min'):
        d['P' + m], d['T' + m] = call(o, m + '_axial', LC), call(o, m + '_torque', LC)
        for a in 'yz':
            d['V%s,%s' % (a, m)], d['M%s,%s' % (a, m)] = call(o, m + '_shear', 'F' + a, LC), call(o, m + '_moment', 'M' + a, LC)
    return d


def dget(pre, heads):
    return lambda o: {h: mk('item', mk_attr(o, a, 'dict:num'), LC, ty='num') for h, a in zip(heads, pre)}


def end_nodes(*ks):
    return lambda o: {k + '-Node': name_of(mk_attr(o, k + '_node', 'Node3D')) for k in ks}


def both(*fs):
    def f(o):
        d = {}
        for g in fs:
            d.update(g(o))
        return d
    return f


def releases(o):
    return {'%s%s%s' % (g, a, e): RELEASES[6 * (e == 'j') + 3 * (g == 'θ') + 'xyz'.index(a)] for e in 'ij' for g in 'Δθ' for a in 'xyz'}


# title: (setting, collections listed, results?, heading of the first column, columns)
TABLES = {
    'Nodes & Supports': ('node_table', ['nodes'], False, nodes_cols),
    'Members': ('member_table', ['members'], False, both(end_nodes('i', 'j'), by_attr(A='A', Iy='Iy', Iz='Iz', J='J', E='E', G='G'))),
    'Member End Releases': ('member_releases', ['members'], False, releases),
    'Plates': ('plate_table', ['plates'], False, both(end_nodes(*'ijmn'), by_attr(t='t', E='E', ν='nu'))),
    'Quads': ('plate_table', ['quads'], False, both(end_nodes(*'ijmn'), by_attr(t='t', E='E', ν='nu'))),
    'Node Reactions': ('node_reactions', ['nodes'], True, dget(['Rxn' + a for a in ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ')], ('FX', 'FY', 'FZ', 'MX', 'MY', 'MZ'))),
    'Node Displacements': ('node_displacements', ['nodes'], True, dget(('DX', 'DY', 'DZ', 'RX', 'RY', 'RZ'), ('ΔX', 'ΔY', 'ΔZ', 'θX', 'θY', 'θZ'))),
    'Member End Forces': ('member_end_forces', ['members'], True, end_cols),
    'Member Max/Min Internal Forces': ('member_internal_forces', ['members'], True, extreme_cols),
    'Plate Out-of-Plane Corner Forces': ('plate_corner_forces', ['plates', 'quads'], True, plate_cols(BENDING, True)),
    'Plate Out-of-Plane Center Forces': ('plate_center_forces', ['plates', 'quads'], True, plate_cols(BENDING, False)),
    'In-Plane (Membrane) Corner Stresses': ('plate_corner_membrane', ['plates', 'quads'], True, plate_cols(MEMBRANE, True)),
    'In-Plane (Membrane) Center Stresses': ('plate_center_membrane', ['plates', 'quads'], True, plate_cols(MEMBRANE, False)),
}


# ---------------------------------------------------------------- the template
class Table:
    def __init__(self, title, guards, line):
        self.title, self.guards, self.line = title, guards, line
        self.heads, self.rows, self.odd = [], [], []


class Row:
    def __init__(self, loops, conds, sets, line):
        self.loops, self.conds, self.sets, self.line, self.cells = loops, conds, sets, line, []


TOK = re.compile(r'\{%-?\s*(?P<stmt>.*?)\s*-?%\}|\{\{-?\s*(?P<expr>.*?)\s*-?\}\}|\{#.*?#\}|<!--.*?-->|<(?P<end>/?)(?P<tag>[A-Za-z][A-Za-z0-9]*)(?P<attrs>[^>]*)>|(?P<text>[^<{]+|.)', re.S)


def parse(src):
    """The tables of the template: headings, and the rows with the loops and conditions around them."""
    tables, stack, sets = [], [], []        # stack: ('if', cond) / ('for', var, iterable); sets: assignments in force with their depth
    title = text = None
    t = row = cell = head = None
    part = None
    for m in TOK.finditer(src):
        line = src.count('\n', 0, m.start()) + 1
        if m.group('stmt') is not None:
            s = m.group('stmt')
            k, _, rest = s.partition(' ')
            if k == 'if':
                stack.append(('if', rest))
            elif k in ('elif', 'else'):
                for i in range(len(stack) - 1, -1, -1):
                    if stack[i][0] == 'if':
                        stack[i] = ('if', '?')
                        break
            elif k == 'for':
                v, _, it = rest.partition(' in ')
                stack.append(('for', v.strip(), it.strip()))
            elif k in ('endif', 'endfor'):
                while stack and stack.pop()[0] != k[3:]:
                    pass
                sets = [x for x in sets if x[0] <= len(stack)]
            elif k == 'set' and '=' in rest:
                v, _, e = rest.partition('=')
                sets.append((len(stack), v.strip(), e.strip()))
            elif t is not None:
                t.odd.append(s)
            continue
        if m.group('expr') is not None:
            if cell is not None:
                cell.append(('e', m.group('expr')))
            elif t is not None:
                t.odd.append('expression outside of a cell')
            continue
        tag = (m.group('tag') or '').lower()
        if not tag:
            s = html.unescape(m.group('text') or '')
            if text is not None:
                text.append(s)
            elif cell is not None and s.strip():
                cell.append(('t', s))
            continue
        end = bool(m.group('end'))
        if tag in ('h1', 'h2', 'h3', 'h4') and t is None:
            if not end:
                text = []
            else:
                title, text = ' '.join(''.join(text or []).split()), None
        elif tag == 'table':
            if not end:
                t, part = Table(title, [c for c in stack], line), 'thead'
            elif t is not None:
                tables.append(t)
                t = row = cell = None
        elif t is None:
            continue
        elif tag in ('thead', 'tbody', 'tfoot'):
            part = tag
        elif tag == 'tr':
            if not end:
                row = [] if part == 'thead' else Row([x for x in stack if x[0] == 'for'], [x for x in stack[len(t.guards):] if x[0] == 'if'], [(v, e) for _, v, e in sets], line)
                (t.heads if part == 'thead' else t.rows).append(row)
        elif tag == 'th':
            if not end:
                at_ = dict(re.findall(r'(\w+)\s*=\s*["\']?(\d+)', m.group('attrs')))
                head, text = at_, []
            elif head is not None and isinstance(row, list):
                row.append((''.join(''.join(text or []).split('\n')).strip(), int(head.get('rowspan', 1)), int(head.get('colspan', 1))))
                head = text = None
        elif tag == 'td':
            if not end and isinstance(row, Row):
                cell = []
                row.cells.append(cell)
            elif end:
                cell = None
    return tables


def headings(t):
    """One label per column: the headings above it, outermost first."""
    grid = {}
    for r, row in enumerate(t.heads):
        c = 0
        for s, rs, cs in row:
            while (r, c) in grid:
                c += 1
            for i in range(rs):
                for j in range(cs):
                    grid[(r + i, c + j)] = s if i == 0 else None
            c += cs
    n = 1 + max((c for _, c in grid), default=-1)
    return [' '.join(grid[(r, c)] for r in range(len(t.heads)) if grid.get((r, c))) for c in range(n)]


def shown(e):
    """The value an output expression shows, and how it is formatted; None when it is not recognised."""
    try:
        x = ast.parse(e, mode='eval').body
    except SyntaxError:
        return None
    fmt = None
    while True:
        if isinstance(x, ast.BinOp) and isinstance(x.op, ast.BitOr):
            f, a = x.right, x.left
            n = f.func.id if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) else f.id if isinstance(f, ast.Name) else None
            if n == 'format' and isinstance(a, ast.Constant) and isinstance(a.value, str) and isinstance(f, ast.Call) and len(f.args) == 1:
                fmt, x = a.value, f.args[0]
            elif n in ('string', 'e', 'escape', 'safe', 'float'):
                x = a
            else:
                return None
        elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'format' and isinstance(x.func.value, ast.Constant) and len(x.args) == 1:
            fmt, x = '%' + str(x.func.value.value), x.args[0]
        elif isinstance(x, ast.BinOp) and isinstance(x.op, ast.Mod) and isinstance(x.left, ast.Constant) and isinstance(x.left.value, str):
            fmt, x = x.left.value, x.right
        else:
            break
    for n in ast.walk(x):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return None
    return x, fmt


# ---------------------------------------------------------------- the check
def check(ctx):
    given = handed_over(ctx)
    with ctx.group('template', 'PyNite/Report_Template.html'):
        tables_(ctx, given)


def pre(I, st):
    for a, os in OBJ.items():
        distinct(st, [o for _, o in os] + [None])
        st.loc[('r', mk_attr(MODEL, a, 'dict:' + TY_OF[a]))] = DictC((), tuple(os))
    for _, o in OBJ['members']:
        st.loc[('a', o, 'Releases')] = I.newref(st, ListC(tuple(('x', x) for x in RELEASES)))


def handed_over(ctx):
    """What create_report hands to the template: name -> the collection of the model it is, and what the caller's settings become."""
    q = 'Reporting.create_report'
    given = {}
    with ctx.group('create_report', q):
        for choice in (None, False, True):
            kw = {} if choice is None else {s: choice for s in SETTINGS}
            r = ctx.run(q, [MODEL], kw=kw, pre=pre)
            calls = []
            for e in r.log:
                find(e, calls)
            if r.dead or len(calls) != 1:
                ctx.ob('the report is rendered once', q, False if r.dead else None, 'raises' if r.dead else '%d calls of render recognised' % len(calls), q)
                return None
            v = {}
            for k, x in calls[0][-1]:
                if isinstance(k, str):
                    v[k] = x
                elif isinstance(x, Term) and x.op == 'dict' and not x.args[0]:
                    v.update(x.args[1])
                else:
                    v = None
                    break
            if v is None:
                ctx.ob('the report is rendered once', q, None, 'the arguments of render are not understood', q)
                return None
            ctx.ob('the report is rendered once', q, True, '', q)
            for s in SETTINGS:
                want = True if choice is None else choice
                got = v.get(s, 'nothing')
                ctx.ob('a setting reaches the template', '%s=%s' % (s, 'default' if choice is None else choice), None if isinstance(got, Term) else got is want, '%s is handed over' % show(got), q)
            if choice is None:
                for n, x in v.items():
                    for a, os in OBJ.items():
                        whole = mk_attr(MODEL, a, 'dict:' + TY_OF[a])
                        items = seq_items(x)
                        if x is whole or items == [k for k, _ in os]:
                            given[n] = (a, 'names')
                        elif items == [o for _, o in os]:
                            given[n] = (a, 'objects')
                        elif items is not None and items and all(i in [o for _, o in os] or i in [k for k, _ in os] for i in items):
                            given[n] = (a, 'part')
                    given.setdefault(n, ('?', '?'))
    return given


def find(e, out):
    if isinstance(e, Term):
        e = e.args
    if isinstance(e, tuple):
        if len(e) == 4 and e[0] == 'call' and e[1] == 'render':
            out.append(e)
        else:
            for x in e:
                find(x, out)


def seq_items(v):
    """The elements of a frozen sequence whose elements are all known."""
    if isinstance(v, Term) and v.op == 'seq' and isinstance(v.args[0], tuple) and all(isinstance(p, tuple) and len(p) == 2 and p[0] == 'x' for p in v.args[0]):
        return [p[1] for p in v.args[0]]
    return None


def opaque():
    o = {}
    for m in ('shear', 'moment', 'torque', 'axial', 'max_shear', 'min_shear', 'max_moment', 'min_moment', 'max_torque', 'min_torque', 'max_axial', 'min_axial', 'L'):
        o['PhysMember.' + m] = o['Member3D.' + m] = ('num', False)
    for c in ('Plate3D', 'Quad3D'):
        for m in ('shear', 'moment', 'membrane'):
            o['%s.%s' % (c, m)] = ('mat:3,1', False)
        for m in ('width', 'height'):
            o['%s.%s' % (c, m)] = ('num', False)
    return o


def tables_(ctx, given):
    mod = ctx.repo.modules['Reporting']
    rel = 'PyNite/Report_Template.html'
    names = {n.value for n in ast.walk(mod.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.endswith(('.html', '.htm', '.j2', '.jinja'))}
    path = os.path.join(ROOT, PKG, sorted(names)[0]) if len(names) == 1 else os.path.join(ROOT, rel)
    if not os.path.exists(path):
        ctx.ob('the template exists', rel, None, 'file not found', rel)
        return
    src = open(path, encoding='utf-8').read()
    ctx.repo.digest.update(src.encode())
    count, listed = 0, set()
    for t in parse(src):
        key = {k.lower(): k for k in TABLES}.get((t.title or '').lower())
        where = '%s:%d' % (rel, t.line)
        if key is None:
            ctx.ob('a table is understood', 'table "%s"' % t.title, None, 'no specification for this title', where)
            continue
        setting, colls, results, cols = TABLES[key]
        ctx.count('tables')
        guard_rule = 'a table is shown exactly when its setting is on'
        gs = [re.sub(r'\s*(==|is)\s*[Tt]rue$', '', c[1]).strip() for c in t.guards if c[0] == 'if']
        ctx.ob(guard_rule, key, None if not all(g.isidentifier() for g in gs) or any(c[0] == 'for' for c in t.guards) else gs == [setting], 'shown when %s; required: %s' % (gs, setting), where)
        heads = headings(t)
        for row in t.rows:
            if t.odd or row.conds:
                ctx.ob('a row is understood', '%s row at line %d' % (key, row.line), None, 'uses %s' % (t.odd or row.conds)[:3], where)
                listed |= {(key, c) for c in colls}
                continue
            rows(ctx, mod, key, t, row, heads, given, listed, '%s:%d' % (rel, row.line))
            count += 1
    for key, (setting, colls, results, cols) in TABLES.items():
        for c in colls:
            ctx.ob('the report has rows for every kind of object', '%s: %s' % (key, c), (key, c) in listed or (None if key.lower() not in src.lower() else False), 'no row lists the %s' % c, rel)


def rows(ctx, mod, key, t, row, heads, given, listed, where):
    setting, colls, results, cols = TABLES[key]
    loop_rule = 'a table lists every object, and results for every load combination'
    vars_ = {}
    kinds = []
    for _, v, it in row.loops:
        it = re.sub(r'\.keys\(\)$', '', it)
        g = ('?', '?') if given is None or not it.isidentifier() else given.get(it, ('nothing', 'nothing'))
        kinds.append(g[0])
        if g[0] == 'nothing':
            ctx.ob(loop_rule, '%s row at line %d: %s' % (key, row.line, it), False, '"%s" is not handed to the template: the table stays empty' % it, where)
            a = it if it in OBJ else '?'
            g = (a, 'names' if a == 'load_combos' else 'objects')
            kinds[-1] = a
        else:
            ok = None if g[0] == '?' else g[1] == ('names' if g[0] == 'load_combos' else 'objects')
            ctx.ob(loop_rule, '%s row at line %d: %s' % (key, row.line, it), ok, 'the rows are %s of the %s' % (g[1], g[0]), where)
        vars_[v] = LC if g[0] == 'load_combos' else OBJ[g[0]][0][1] if g[0] in OBJ else sym('loop variable ' + v)
    obj = [k for k in kinds if k in colls]
    if '?' in kinds or not obj:
        ctx.ob(loop_rule, '%s row at line %d' % (key, row.line), None if '?' in kinds else False, 'loops over %s' % kinds, where)
        if '?' in kinds:
            listed |= {(key, c) for c in colls}
        return
    listed.add((key, obj[0]))
    ctx.ob(loop_rule, '%s row at line %d' % (key, row.line), sorted(kinds) == sorted(obj[:1] + ['load_combos'] * results), 'loops over %s' % kinds, where)
    o = OBJ[obj[0]][0][1]
    want = cols(o)
    want[{'nodes': 'Node', 'members': 'Member', 'plates': 'Plate', 'quads': 'Quad'}[obj[0]] if not results or obj[0] not in ('plates', 'quads') else 'Plate'] = name_of(o)
    if results:
        want['LC'] = LC
    if len(heads) != len(row.cells):
        ctx.ob('a row has a cell for every column', '%s row at line %d' % (key, row.line), False, '%d cells under %d headings' % (len(row.cells), len(heads)), where)
        return
    for h in want:
        ctx.ob('a table has its columns', '%s: %s' % (key, h), h in heads or None, 'no column %s' % h, where)
    for k, (h, cell) in enumerate(zip(heads, row.cells)):
        con = '%s, %s: %s' % (key, obj[0], h)
        rule = 'a cell shows the value its column names'
        s = shown(cell[0][1]) if len(cell) == 1 and cell[0][0] == 'e' else None
        if h not in want or s is None:
            ctx.ob(rule, con, None, 'not understood: %s' % (cell,), where)
            continue
        x, fmt = s
        n = '_cell_%d_%d' % (row.line, k)
        fn = ast.parse('def %s(%s):\n%s    return None\n' % (n, ', '.join(vars_), ''.join('    %s = %s\n' % p for p in row.sets))).body[0]
        fn.body[-1].value = x
        for y in ast.walk(fn):
            y.lineno = y.end_lineno = row.line
            y.col_offset = y.end_col_offset = 0
        mod.funcs[n] = Func('Reporting.' + n, fn, mod)
        r = ctx.run('Reporting.' + n, list(vars_.values()), opaque=opaque(), pre=pre)
        del mod.funcs[n]
        ctx.count('cells')
        w = want[h]
        if r.dead:
            ctx.ob(rule, con, False, '%s raises' % ast.unparse(x), where)
            continue
        v = r.fz(r.v)
        if fmt is not None and (isinstance(v, MatC) or isinstance(v, Term) and (v.op == 'mat' or (v.ty or '').startswith(('mat', 'vec')))):
            ctx.ob('a formatted value is a number', con, False, '%s is an array, which cannot be formatted as a number' % ast.unparse(x), where)
            continue
        ctx.eq(rule, con, v, w, where, note=ast.unparse(x))
        if fmt is not None and isnumeric(w):
            m = re.fullmatch(r'%[-+ #0]*\d*(?:\.(\d+))?([gGeEfFs])', fmt) if not fmt.startswith('%{') else ()
            ctx.ob('numbers are shown with at least three significant digits', con, None if m == () else bool(m) and not (m.group(2) in 'gGeE' and m.group(1) is not None and int(m.group(1)) + (m.group(2) in 'eE') < 3), 'format %s' % fmt, where)


def isnumeric(w):
    return isinstance(w, Term) and w.ty == 'num' or isinstance(w, Poly)
