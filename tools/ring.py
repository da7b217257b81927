"""Verus lemmas for commutative ring identities: `@ring name(a, b): lhs == rhs` in a unit becomes a
proof function whose body composes the verified normal-form lemmas of verus/lib/ring.rs and ends
in `assert(peq(..)) by (compute_only)`."""
import ast, re

def lemma(line):
    m = re.match(r'(\w+)\(([^)]*)\)\s*:(.*)$', line)
    name, params, eqn = m.group(1), [p.strip() for p in m.group(2).split(',') if p.strip()], m.group(3)
    lhs, rhs = eqn.split('==')
    calls = []
    def intpoly(c):
        return 'pint(%dint)' % c
    def go(n):
        """(field expression, polynomial expression)"""
        if isinstance(n, ast.Name):
            return n.id, 'pvar(%d)' % params.index(n.id)
        if isinstance(n, ast.Constant):
            if n.value == 0:
                return 'f0()', 'pint(0int)'
            if n.value == 1:
                return 'f1()', 'pint(1int)'
            return 'fint(%d)' % n.value, intpoly(n.value)
        if isinstance(n, ast.UnaryOp):
            f, p = go(n.operand)
            calls.append('lemma_pneg(%s, env);' % p)
            return 'fneg(%s)' % f, 'pneg(%s)' % p
        if isinstance(n, ast.Call) and n.func.id == 'm1':      # m1(x): (-1) * x
            f, p = go(n.args[0])
            calls.append('lemma_pneg(pint(1int), env); lemma_pmul(pneg(pint(1int)), %s, env);' % p)
            return 'fmul(fneg(f1()), %s)' % f, 'pmul(pneg(pint(1int)), %s)' % p
        l, lp = go(n.left)
        r, rp = go(n.right)
        if isinstance(n.op, ast.Add):
            calls.append('lemma_padd(%s, %s, env);' % (lp, rp))
            return 'fadd(%s, %s)' % (l, r), 'padd(%s, %s)' % (lp, rp)
        if isinstance(n.op, ast.Mult):
            calls.append('lemma_pmul(%s, %s, env);' % (lp, rp))
            return 'fmul(%s, %s)' % (l, r), 'pmul(%s, %s)' % (lp, rp)
        if isinstance(n.op, ast.Sub):
            calls.append('lemma_pneg(%s, env); lemma_padd(%s, pneg(%s), env);' % (rp, lp, rp))
            return 'fsub(%s, %s)' % (l, r), 'padd(%s, pneg(%s))' % (lp, rp)
        raise Exception(ast.dump(n))
    lf, lp = go(ast.parse(lhs.strip(), mode='eval').body)
    rf, rp = go(ast.parse(rhs.strip(), mode='eval').body)
    o = ['pub proof fn %s(%s)' % (name, ', '.join('%s: F' % p for p in params)), '    ensures %s == %s,' % (lf, rf), '{', '    let env = seq![%s];' % ', '.join(params)]
    for i in range(len(params)):
        o.append('    lemma_pvar(%d, env);' % i)
    o.append('    lemma_fint1();')
    for c in sorted({int(x) for x in re.findall(r'pint\((-?\d+)int\)', lp + rp)}):
        o.append('    lemma_pint(%d, env);' % c)
    seen = set()
    for c in calls:
        if c not in seen:
            seen.add(c)
            o.append('    ' + c)
    o.append('    assert(peq(%s, %s)) by (compute_only);' % (lp, rp))
    o.append('    lemma_peq(%s, %s);' % (lp, rp))
    o.append('}')
    return '\n'.join(o)
