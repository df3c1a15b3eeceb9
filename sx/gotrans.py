"""Translation of a Go syntax tree (see godump) to Python source."""
from sx.core import MAGIC, Unsupported

LOWEST_MAGIC = 6e11


class Tr:
    def __init__(self, dump):
        self.d = dump
        self.types = dump['types']
        self.objs = dump['objs']
        self.lines = []
        self.ind = 0
        self.ntmp = 0
        self.boxed = set()
        self.ctx = []

    # -- helpers ----------------------------------------------------------
    def w(self, s):
        self.lines.append(' ' * self.ind + s)

    def tmp(self):
        self.ntmp += 1
        return '_t{}'.format(self.ntmp)

    def under(self, t):
        """Description of the underlying type."""
        while True:
            e = self.types[t]
            if e[0] == 'named' and e[3] >= 0:
                t = e[3]
            elif e[0] == 'alias':
                t = e[1]
            else:
                return e

    def is_struct(self, t):
        return t >= 0 and self.under(t)[0] == 'struct' or (
            t >= 0 and self.under(t)[0] == 'array')

    def basic(self, t):
        u = self.under(t)
        return u[1] if u[0] == 'basic' else u[0]

    def name(self, o):
        return '{}_{}'.format(self.objs[o][0], o)

    # -- analysis ---------------------------------------------------------
    def find_boxed(self, node, inside=None):
        """Variables whose address is taken or which closures share."""
        if not isinstance(node, list):
            return
        if node and isinstance(node[0], str):
            if node[0] == 'Unary' and node[3] == '&':
                x = node[4]
                if x[0] == 'Ident':
                    self.boxed.add(x[4])
            if node[0] == 'Method' and node[7]:
                x = node[3]
                if x[0] == 'Ident' and x[1] >= 0 and \
                        self.under(x[1])[0] != 'pointer':
                    self.boxed.add(x[4])
            if node[0] == 'Func':
                own = set()
                self.declared(node, own)
                used = set()
                self.used(node, used)
                self.boxed |= used - own
        for x in node:
            self.find_boxed(x)

    def declared(self, node, out):
        if not isinstance(node, list):
            return
        if node and node[0] == 'Assign' and node[1] == ':=':
            for x in node[2]:
                if x[0] == 'Ident':
                    out.add(x[4])
        if node and node[0] == 'Range' and node[1] == ':=':
            for x in node[2:4]:
                if x and x[0] == 'Ident':
                    out.add(x[4])
        if node and node[0] == 'Decl':
            for ids, _ in node[1]:
                for _, o, _ in ids:
                    out.add(o)
        if node and node[0] == 'Func':
            fn = node[3]
            for group in fn[:3]:
                for _, o, _ in group:
                    out.add(o)
        for x in node:
            self.declared(x, out)

    def used(self, node, out):
        if not isinstance(node, list):
            return
        if node and node[0] == 'Ident' and len(node) == 5:
            o = node[4]
            if o >= 0 and self.objs[o][1] == 'var' and not self.objs[o][3]:
                out.add(o)
        for x in node:
            self.used(x, out)

    # -- expressions ------------------------------------------------------
    def const(self, c):
        if isinstance(c, bool):
            return repr(c)
        k = c[0]
        if k == 's':
            return repr(c[1])
        if k == 'i':
            v = int(c[1])
            return 'R.K({})'.format(v) if abs(v) > LOWEST_MAGIC else str(v)
        if k == 'f':
            v = float.fromhex(c[1])
            if abs(v) > LOWEST_MAGIC:
                return 'R.K({!r})'.format(v)
            return 'R.Q({!r})'.format(c[2]) if '/' in c[2] else repr(v)
        raise Unsupported('Go constant {}'.format(c))

    def val(self, e):
        """Value of an expression as a copy."""
        s = self.expr(e)
        if e[1] >= 0 and self.is_struct(e[1]) and e[0] not in (
                'Composite', 'Call'):
            return 'R.copy({})'.format(s)
        return s

    def expr(self, e):
        if e[2] is not None and not (
                e[0] in ('Binary', 'Unary', 'Call') and self.symbolic(e)):
            return self.const(e[2])
        return getattr(self, 'e_' + e[0], self.e_unknown)(e)

    def symbolic(self, e):
        """Whether a constant is computed from a symbolic number."""
        if not isinstance(e, list):
            return False
        if e and isinstance(e[0], str) and len(e) > 2 and \
                e[0] not in ('Binary', 'Unary', 'Call') and \
                isinstance(e[2], list) and e[2] and e[2][0] in ('i', 'f'):
            return 'R.K(' in self.const(e[2])
        return any(self.symbolic(x) for x in e[3:])

    def e_unknown(self, e):
        raise Unsupported('Go expression {}'.format(e[:4]))

    def e_Type(self, e):
        return 'TY[{}]'.format(e[1])

    def e_Ident(self, e):
        name, o = e[3], e[4]
        if o < 0:
            raise Unsupported('Go identifier ' + name)
        kind = self.objs[o][1]
        if kind == 'nil':
            return 'None'
        if kind == 'var':
            n = self.name(o)
            return n + '.v' if o in self.boxed or self.objs[o][3] else n
        if kind == 'func':
            return self.name(o)
        raise Unsupported('Go identifier {} ({})'.format(name, kind))

    def e_Lit(self, e):
        raise Unsupported('literal without a value')

    def e_Qual(self, e):
        o = self.objs[e[3]]
        return 'R.lib({!r})'.format('{}.{}'.format(o[2], o[0])) if \
            o[1] == 'func' else 'R.libvar({!r})'.format(
                '{}.{}'.format(o[2], o[0]))

    def e_Composite(self, e):
        t = e[1]
        u = self.under(t)
        if u[0] == 'pointer':
            return 'R.Cell({})'.format(self.composite(u[1], e[3]))
        return self.composite(t, e[3])

    def composite(self, t, elts):
        u = self.under(t)
        if u[0] == 'struct':
            parts = []
            for i, x in enumerate(elts):
                if x[0] == 'KV':
                    parts.append('{!r}: {}'.format(x[3][3], self.val(x[4])))
                else:
                    parts.append('{!r}: {}'.format(u[1][i][0], self.val(x)))
            return 'R.struct(TY[{}], {{{}}})'.format(t, ', '.join(parts))
        if u[0] == 'slice':
            if any(x[0] == 'KV' for x in elts):
                raise Unsupported('keys in a slice literal')
            return 'R.mkslice([{}])'.format(', '.join(
                self.val(x) for x in elts))
        if u[0] == 'map':
            return 'R.mkmap([{}])'.format(', '.join(
                '({}, {})'.format(self.val(x[3]), self.val(x[4]))
                for x in elts))
        raise Unsupported('composite literal of {}'.format(u))

    def e_Func(self, e):
        n = '_f' + self.tmp()
        self.func(n, e[3], recv=False)
        return n

    def e_Field(self, e):
        if e[5] != 1:
            raise Unsupported('promoted field')
        return 'R.fields({})[{!r}]'.format(self.expr(e[3]), e[4])

    def e_Index(self, e):
        u = self.under(e[3][1])
        if u[0] == 'map':
            t = e[1]
            if self.types[t][0] == 'tuple':
                t = self.types[t][1][0]
            return 'R.mapget({}, {}, TY[{}])'.format(
                self.expr(e[3]), self.expr(e[4]), t)
        return 'R.at({}, {})'.format(self.expr(e[3]), self.expr(e[4]))

    def e_Slice(self, e):
        return 'R.reslice({}, {}, {})'.format(self.expr(e[3]), *[
            self.expr(x) if x else 'None' for x in e[4:6]])

    def e_Assert(self, e):
        t = e[4][1]
        return 'R.assert1({}, TY[{}])'.format(self.expr(e[3]), t)

    def e_Star(self, e):
        return 'R.deref({}).v'.format(self.expr(e[3]))

    def addr(self, x):
        if x[0] == 'Ident':
            return self.name(x[4])
        if x[0] == 'Composite':
            return 'R.Cell({})'.format(self.expr(x))
        if x[0] == 'Field':
            return 'R.FieldPtr(R.fields({}), {!r})'.format(
                self.expr(x[3]), x[4])
        if x[0] == 'Index' and self.under(x[3][1])[0] == 'slice':
            return 'R.elemptr({}, {})'.format(self.expr(x[3]),
                                              self.expr(x[4]))
        if x[0] == 'Star':
            return 'R.deref({})'.format(self.expr(x[3]))
        raise Unsupported('address of {}'.format(x[0]))

    def e_Unary(self, e):
        op, x = e[3], e[4]
        if op == '&':
            return self.addr(x)
        if op == '!':
            return '(not {})'.format(self.expr(x))
        if op == '-':
            return 'R.neg({}, {!r})'.format(self.expr(x), self.basic(e[1]))
        if op == '+':
            return self.expr(x)
        raise Unsupported('unary ' + op)

    def e_Binary(self, e):
        op, x, y = e[3:6]
        if op in ('&&', '||'):
            return '(bool({}) {} bool({}))'.format(
                self.expr(x), 'and' if op == '&&' else 'or', self.expr(y))
        kind = self.basic(x[1])
        if kind == 'untyped nil' or self.basic(y[1]) == 'untyped nil':
            kind = 'nil'
        return 'R.bin_({!r}, {}, {}, {!r})'.format(
            op, self.expr(x), self.expr(y), kind)

    def args(self, e, sig):
        args = e[4]
        if len(args) == 1 and args[0][1] >= 0 and \
                self.types[args[0][1]][0] == 'tuple':
            return '*' + self.expr(args[0])
        params = self.types[sig[1]][1] if sig[1] >= 0 else []
        out = [self.val(a) for a in args]
        if sig[3] and not e[5]:
            n = len(params) - 1
            out = out[:n] + ['R.mkslice([{}])'.format(', '.join(out[n:]))]
        return ', '.join(out)

    def e_Call(self, e):
        f, args = e[3], e[4]
        if f[0] == 'Type':
            return 'R.conv(TY[{}], {})'.format(f[1], self.val(args[0]))
        if f[0] == 'Ident' and f[4] >= 0 and \
                self.objs[f[4]][1] == 'builtin':
            return self.builtin(f[3], e, args)
        sig = self.under(f[1])
        if f[0] == 'Method':
            recv, mname, pkg, tname, ptr = f[3:8]
            if pkg == 'gen':
                r = self.expr(recv)
                is_ptr = recv[1] >= 0 and self.under(recv[1])[0] == 'pointer'
                if ptr and not is_ptr:
                    r = self.addr(recv)
                elif not ptr and is_ptr:
                    r = 'R.copy(R.deref({}).v)'.format(r)
                elif not ptr:
                    r = 'R.copy({})'.format(r)
                a = self.args(e, sig)
                return '{}__{}({})'.format(tname, mname,
                                           r + (', ' + a if a else ''))
            a = self.args(e, sig)
            return 'R.meth({!r})({})'.format(
                '{}.{}.{}'.format(pkg, tname, mname),
                self.expr(recv) + (', ' + a if a else ''))
        a = self.args(e, sig)
        return '{}({})'.format(self.expr(f), a)

    def builtin(self, n, e, args):
        if n == 'make':
            u = self.under(args[0][1])
            if u[0] == 'map':
                return 'R.mkmap([])'
            if u[0] == 'slice':
                return 'R.make(TY[{}], {})'.format(u[1], ', '.join(
                    self.expr(a) for a in args[1:]))
        elif n == 'new':
            return 'R.Cell(R.zero(TY[{}]))'.format(args[0][1])
        elif n == 'panic':
            return 'R.panic({})'.format(self.val(args[0]))
        elif n == 'append':
            if e[5]:
                return 'R.append({}, *R.elems({}))'.format(
                    self.expr(args[0]), self.expr(args[1]))
            return 'R.append({})'.format(', '.join(
                [self.expr(args[0])] + [self.val(a) for a in args[1:]]))
        elif n in ('len', 'cap', 'delete', 'copy', 'min', 'max'):
            return 'R.b_{}({})'.format(n, ', '.join(
                self.expr(a) for a in args))
        raise Unsupported('Go builtin ' + n)

    # -- statements -------------------------------------------------------
    def block(self, ss):
        n = len(self.lines)
        self.ind += 1
        for s in ss or ():
            self.stmt(s)
        if len(self.lines) == n:
            self.w('pass')
        self.ind -= 1

    def stmt(self, s):
        if s is None:
            return
        f = getattr(self, 's_' + s[0], None)
        if f is None:
            raise Unsupported('Go statement {}'.format(s[:2]))
        f(s)

    def s_Expr(self, s):
        self.w(self.expr(s[1]))

    def s_Empty(self, s):
        pass

    def s_Block(self, s):
        for x in s[1]:
            self.stmt(x)

    def store(self, x, v, define=False):
        """Assign the Python expression to the Go expression."""
        if x[0] == 'Ident':
            if x[3] == '_':
                self.w(v)
                return
            o = x[4]
            n = self.name(o)
            if self.objs[o][3]:
                self.w('{}.v = {}'.format(n, v))
            elif o in self.boxed:
                if define and o not in self.seen:
                    self.w('{} = R.Cell({})'.format(n, v))
                else:
                    self.w('{}.v = {}'.format(n, v))
            else:
                self.w('{} = {}'.format(n, v))
            if define:
                self.seen.add(o)
        elif x[0] == 'Field':
            self.w('R.fields({})[{!r}] = {}'.format(
                self.expr(x[3]), x[4], v))
        elif x[0] == 'Index':
            self.w('R.setitem({}, {}, {})'.format(
                self.expr(x[3]), self.expr(x[4]), v))
        elif x[0] == 'Star':
            self.w('R.deref({}).v = {}'.format(self.expr(x[3]), v))
        else:
            raise Unsupported('assignment to ' + x[0])

    def s_Assign(self, s):
        op, lhs, rhs = s[1:4]
        define = op == ':='
        if op not in ('=', ':='):
            x, y = lhs[0], rhs[0]
            self.store(x, 'R.bin_({!r}, {}, {}, {!r})'.format(
                op[:-1], self.expr(x), self.expr(y), self.basic(x[1])))
            return
        if len(lhs) == len(rhs) == 1:
            self.store(lhs[0], self.val(rhs[0]), define)
            return
        if len(rhs) == 1:
            e = rhs[0]
            if e[0] == 'Assert':
                v = 'R.assert2({}, TY[{}])'.format(self.expr(e[3]), e[4][1])
            elif e[0] == 'Index':
                u = self.under(e[3][1])
                v = 'R.mapget2({}, {}, TY[{}])'.format(
                    self.expr(e[3]), self.expr(e[4]), u[2])
            else:
                v = self.expr(e)
            ts = [self.tmp() for _ in lhs]
            self.w('{} = {}'.format(', '.join(ts), v))
        else:
            ts = [self.tmp() for _ in lhs]
            for t, e in zip(ts, rhs):
                self.w('{} = {}'.format(t, self.val(e)))
        for x, t in zip(lhs, ts):
            self.store(x, t, define)

    def s_IncDec(self, s):
        self.store(s[2], 'R.bin_({!r}, {}, 1, {!r})'.format(
            s[1][0], self.expr(s[2]), self.basic(s[2][1])))

    def s_Decl(self, s):
        for ids, values in s[1]:
            if len(values) == 1 and len(ids) > 1:
                ts = [self.tmp() for _ in ids]
                self.w('{} = {}'.format(', '.join(ts), self.expr(values[0])))
            elif values:
                ts = [self.val(v) for v in values]
            else:
                ts = ['R.zero(TY[{}])'.format(t) for _, _, t in ids]
            for (n, o, _), v in zip(ids, ts):
                if n == '_':
                    self.w(v)
                elif o in self.boxed:
                    self.w('{} = R.Cell({})'.format(self.name(o), v))
                else:
                    self.w('{} = {}'.format(self.name(o), v))
                self.seen.add(o)

    def s_Return(self, s):
        fn = self.fn
        names = fn['results']
        vals = s[1]
        if fn['defer']:
            if vals:
                if len(vals) == 1 and len(names) > 1:
                    ts = [self.tmp() for _ in names]
                    self.w('{} = {}'.format(', '.join(ts),
                                            self.expr(vals[0])))
                else:
                    ts = []
                    for v in vals:
                        t = self.tmp()
                        self.w('{} = {}'.format(t, self.val(v)))
                        ts.append(t)
                for n, t in zip(names, ts):
                    self.w('{}.v = {}'.format(n[0], t))
            self.w('return')
            return
        if not vals:
            self.w('return ' + self.result_tuple(names))
        elif len(vals) == 1:
            self.w('return ' + self.val(vals[0]))
        else:
            self.w('return ({})'.format(', '.join(
                self.val(v) for v in vals)))

    @staticmethod
    def result_tuple(names):
        rs = [n[0] + '.v' if n[1] else n[0] for n in names]
        if not rs:
            return 'None'
        return rs[0] if len(rs) == 1 else '({})'.format(', '.join(rs))

    def s_Branch(self, s):
        tok, label = s[1:3]
        if label:
            raise Unsupported('labels')
        if tok == 'break':
            self.w('break')
        elif tok == 'continue':
            c = self.ctx[-1] if self.ctx else None
            if c is None or c[0] == 'switch':
                raise Unsupported('continue in a switch')
            self.w('continue')
        else:
            raise Unsupported(tok)

    def s_If(self, s):
        init, cond, body, els = s[1:5]
        self.stmt(init)
        self.w('if {}:'.format(self.expr(cond)))
        self.block(body)
        if els is not None:
            self.w('else:')
            self.block([els] if els[0] == 'If' else els[1])

    def s_For(self, s):
        init, cond, post, body = s[1:5]
        self.stmt(init)
        first = self.tmp()
        self.w('{} = True'.format(first))
        self.w('while True:')
        self.ind += 1
        if post is not None:
            self.w('if not {}:'.format(first))
            self.block([post])
            self.w('{} = False'.format(first))
        if cond is not None:
            self.w('if not {}:'.format(self.expr(cond)))
            self.w(' break')
        self.ind -= 1
        self.ctx.append(('loop', ))
        self.block(body)
        self.ctx.pop()

    def s_Range(self, s):
        tok, key, value, x, body = s[1:6]
        u = self.under(x[1])
        k, v = self.tmp(), self.tmp()
        fn = {'map': 'R.rangemap', 'slice': 'R.rangeslice'}.get(u[0])
        if fn is None and u[0] == 'basic' and u[1] in ('int', 'int64'):
            fn = 'R.rangeint'
        if fn is None:
            raise Unsupported('range over {}'.format(u[0]))
        define = tok == ':='
        if define:
            for y in (key, value):
                if y is not None and y[0] == 'Ident' and y[3] != '_' \
                        and y[4] in self.boxed:
                    self.w('{} = R.Cell(None)'.format(self.name(y[4])))
                    self.seen.add(y[4])
        self.w('for {}, {} in {}({}):'.format(k, v, fn, self.expr(x)))
        self.ind += 1
        if key is not None and not (key[0] == 'Ident' and key[3] == '_'):
            self.store(key, k, define)
        if value is not None and not (value[0] == 'Ident' and
                                      value[3] == '_'):
            self.store(value, 'R.copy({})'.format(v), define)
        self.ind -= 1
        self.ctx.append(('loop', ))
        self.block(body)
        self.ctx.pop()

    def has_break(self, node):
        if not isinstance(node, list):
            return False
        if node and node[0] in ('For', 'Range', 'Func', 'Switch',
                                'TypeSwitch'):
            return False
        if node and node[0] == 'Branch' and node[1] == 'break':
            return True
        return any(self.has_break(x) for x in node)

    def cases(self, cases, conds):
        """Clauses of a switch as a chain of conditions."""
        brk = any(self.has_break(c[-1]) for c in cases)
        if brk:
            self.w('while True:')
            self.ind += 1
            self.ctx.append(('switch', ))
        default = None
        depth = 0
        for c, cond in zip(cases, conds):
            if c[0]:
                default = c
                continue
            self.w('if {}:'.format(cond(c)))
            self.block(c[-1])
            self.w('else:')
            self.ind += 1
            depth += 1
        n = len(self.lines)
        for x in (default[-1] if default else ()):
            self.stmt(x)
        if len(self.lines) == n:
            self.w('pass')
        self.ind -= depth
        if brk:
            self.w('break')
            self.ind -= 1
            self.ctx.pop()

    def s_Switch(self, s):
        init, tag, cases = s[1:4]
        self.stmt(init)
        if tag is not None:
            t = self.tmp()
            self.w('{} = {}'.format(t, self.val(tag)))
            kind = self.basic(tag[1])

            def cond(c):
                return ' or '.join('bool(R.bin_("==", {}, {}, {!r}))'.format(
                    t, self.expr(x), kind) for x in c[1])
        else:
            def cond(c):
                return ' or '.join('bool({})'.format(self.expr(x))
                                   for x in c[1])
        self.cases(cases or [], [cond] * len(cases or []))

    def s_TypeSwitch(self, s):
        init, x, cases = s[1:4]
        self.stmt(init)
        t = self.tmp()
        self.w('{} = {}'.format(t, self.expr(x)))
        out = []
        for c in cases or []:
            is_default, types, o, body = c
            n = len(types)
            if o >= 0:
                if n == 1 and not (types[0][0] == 'Ident'):
                    v = 'R.assert1({}, TY[{}])'.format(t, types[0][1])
                else:
                    v = t
                body = [['Python', o, v]] + body
            out.append([is_default, types, body])

        def cond(c):
            return ' or '.join(
                '{} is None'.format(t) if y[0] == 'Ident' else
                'R.has_type({}, TY[{}])'.format(t, y[1]) for y in c[1])
        self.cases(out, [cond] * len(out))

    def s_Python(self, s):
        n = self.name(s[1])
        self.w('{} = {}'.format(n, 'R.Cell({})'.format(s[2])
                                if s[1] in self.boxed else s[2]))
        self.seen.add(s[1])

    def s_Defer(self, s):
        e = s[1]
        f = e[3]
        if f[0] == 'Func':
            fn = self.expr(f)
            self.w('_defers.append((lambda f, a: lambda: f(*a))({}, ({})))'
                   .format(fn, ''.join(self.val(a) + ', ' for a in e[4])))
        else:
            raise Unsupported('defer of a call')

    # -- functions --------------------------------------------------------
    def has_defer(self, node):
        if not isinstance(node, list):
            return False
        if node and node[0] == 'Func':
            return False
        if node and node[0] == 'Defer':
            return True
        return any(self.has_defer(x) for x in node)

    def func(self, name, fn, recv=True):
        rcv, params, results, body, variadic = fn
        keep = getattr(self, 'fn', None), getattr(self, 'seen', set()), \
            self.ctx
        self.seen = set()
        self.ctx = []
        defer = self.has_defer(body)
        ps = (rcv if recv else []) + params
        names = [self.name(o) if o >= 0 and n != '_' else self.tmp()
                 for n, o, _ in ps]
        self.w('def {}({}):'.format(name, ', '.join(names)))
        self.ind += 1
        n0 = len(self.lines)
        for (n, o, _), pn in zip(ps, names):
            if o in self.boxed:
                self.w('{0} = R.Cell({0})'.format(pn))
            self.seen.add(o)
        res = []
        for n, o, t in results:
            rn = self.name(o) if n and n != '_' else self.tmp()
            box = defer or o in self.boxed
            if defer and o >= 0:
                self.boxed.add(o)
            if n or defer:
                z = 'R.zero(TY[{}])'.format(t)
                self.w('{} = {}'.format(rn, 'R.Cell({})'.format(z)
                                        if box else z))
            res.append((rn, box))
            self.seen.add(o)
        named = bool(results) and bool(results[0][0])
        self.fn = {'results': res, 'defer': defer}
        if defer:
            self.w('_defers = []')
            self.w('def _body({}):'.format(', '.join(
                '{0}={0}'.format(n) for n in names)))
            self.block(body)
            self.w('R.run_deferred(_body, _defers)')
            self.w('return ' + self.result_tuple(res))
        else:
            for s in body or ():
                self.stmt(s)
            if named and not (body and body[-1][0] == 'Return'):
                self.w('return ' + self.result_tuple(res))
        if len(self.lines) == n0:
            self.w('pass')
        self.ind -= 1
        self.fn, self.seen, self.ctx = keep

    def package(self):
        d = self.d
        for f in d['funcs'] or ():
            self.find_boxed(f[4])
        for ids, values in d['vars'] or ():
            self.find_boxed(values)
        index = []
        for name, o, recv, ptr, fn in d['funcs'] or ():
            n = '{}__{}'.format(recv, name) if recv else self.name(o)
            index.append((name, recv, n))
            self.func(n, fn)
        self.w('def _init_vars():')
        self.ind += 1
        self.seen = set()
        self.fn = {'results': [], 'defer': False}
        self.w('pass')
        cells = []
        for ids, values in d['vars'] or ():
            for n, o, t in ids:
                if n != '_':
                    cells.append((self.name(o), t))
            if len(values) == len(ids):
                for (n, o, t), v in zip(ids, values):
                    if n == '_':
                        self.w(self.val(v))
                    else:
                        self.w('{}.v = {}'.format(self.name(o), self.val(v)))
            elif values:
                raise Unsupported('initialisation of several variables')
        self.ind -= 1
        for n, t in cells:
            self.w('{} = R.Cell(R.zero(TY[{}]))'.format(n, t))
        self.w('_init_vars()')
        return '\n'.join(self.lines) + '\n', index
