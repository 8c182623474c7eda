"""Back end for equalities between rational expressions: both sides are brought to the form
numerator / denominator in the field of fractions Q(atoms); the equality holds if the numerator of
the difference is the zero polynomial (after s*s -> a for every Sqrt(a) = s) and every divisor met
on the way is shown different from zero, every such a shown non-negative, by the other back ends."""
import z3
from .values import Sqrt

class No(Exception): pass

class Conv:
    def __init__(self):
        self.atoms, self.order = {}, []
        self.den, self.sq = [], []
        self.alias, self.keep = {}, []
    def atom(self, t):
        t0 = t
        if not t.decl().eq(Sqrt): t = z3.simplify(t)
        k = t.get_id()
        self.keep.append((t0, t))
        self.alias[t0.get_id()] = k
        if k not in self.atoms:
            self.atoms[k] = len(self.order); self.order.append(t)
            if len(self.order) > 40: raise No()
            if z3.is_app(t) and t.decl().eq(Sqrt): self.collect(t.arg(0))
    def collect(self, t):
        stack, seen = [t], set()
        while stack:
            x = stack.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            k = x.decl().kind() if z3.is_app(x) else None
            if z3.is_rational_value(x) or z3.is_int_value(x): continue
            if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_UMINUS): stack.extend(x.children())
            elif k == z3.Z3_OP_POWER and z3.is_int_value(x.arg(1)): stack.append(x.arg(0))
            else: self.atom(x)
    def conv(self, t, F, gens, memo):
        i = t.get_id()
        if i in memo: return memo[i]
        k = t.decl().kind()
        if z3.is_rational_value(t) or z3.is_int_value(t):
            f = t.as_fraction() if z3.is_rational_value(t) else t.as_long()
            from sympy import QQ
            r = F(QQ(f.numerator, f.denominator)) if z3.is_rational_value(t) else F(f)
        elif k == z3.Z3_OP_ADD:
            r = F(0)
            for c in t.children(): r = r + self.conv(c, F, gens, memo)
        elif k == z3.Z3_OP_SUB:
            cs = t.children(); r = self.conv(cs[0], F, gens, memo)
            for c in cs[1:]: r = r - self.conv(c, F, gens, memo)
        elif k == z3.Z3_OP_UMINUS: r = -self.conv(t.arg(0), F, gens, memo)
        elif k == z3.Z3_OP_MUL:
            r = F(1)
            for c in t.children(): r = r * self.conv(c, F, gens, memo)
        elif k == z3.Z3_OP_DIV:
            a, b = self.conv(t.arg(0), F, gens, memo), self.conv(t.arg(1), F, gens, memo)
            if b == 0: raise No()
            if not z3.is_rational_value(t.arg(1)): self.den.append((t.arg(1), b))
            r = a / b
        elif k == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            r = self.conv(t.arg(0), F, gens, memo) ** t.arg(1).as_long()
        else: r = gens[self.atoms[self.alias[i]]]
        r = self.reduce(r, F, gens, memo)
        memo[i] = r
        return r
    def reduce(self, r, F, gens, memo):
        """s^2 -> a"""
        for j, t in enumerate(self.order):
            if not t.decl().eq(Sqrt): continue
            for part in (0, 1):
                p = (r.numer, r.denom)[part]
                if p.degree(p.ring.gens[j]) >= 2:
                    a = self.conv(t.arg(0), F, gens, memo)
                    self.sq.append(t.arg(0))
                    new = F(0)
                    for mon, co in p.terms():
                        e = mon[j]
                        m = list(mon); m[j] = e % 2
                        term = F(p.ring.from_dict({tuple(m): co}))
                        new = new + term * a ** (e // 2)
                    r = new / F(r.denom) if part == 0 else F(r.numer) / new
                    return self.reduce(r, F, gens, memo)
        return r
    def to_z3(self, p):
        out = z3.RealVal(0)
        for mon, co in p.terms():
            t = z3.RealVal(str(co))
            for j, e in enumerate(mon):
                for _ in range(e):
                    x = self.order[j]
                    t = t * (z3.ToReal(x) if x.sort() == z3.IntSort() else x)
            out = out + t
        return out

def prove(hyps, goal, check):
    """check(hyps, goal) -> bool: side conditions"""
    if not z3.is_eq(goal) or goal.arg(0).sort() != z3.RealSort(): return False
    try:
        from sympy.polys.fields import field
        from sympy import QQ
        c = Conv()
        for _ in range(3):
            n = len(c.order)
            c.collect(goal.arg(0)); c.collect(goal.arg(1))
            if len(c.order) == n: break
        if not c.order: return False
        F, *gens = field(','.join('a%d' % i for i in range(len(c.order))), QQ)
        memo = {}
        d = c.conv(goal.arg(0), F, gens, memo) - c.conv(goal.arg(1), F, gens, memo)
        d = c.reduce(d, F, gens, memo)
        if d != 0: return False
        done = set()
        for t, f in c.den:
            g = z3.Not(c.to_z3(f.numer) == 0)
            if str(f) in done: continue
            done.add(str(f))
            if not (check(hyps, z3.Not(t == 0)) or check(hyps, g)): return False
        for a in c.sq:
            if a.get_id() in done: continue
            done.add(a.get_id())
            if not check(hyps, a >= 0): return False
        return True
    except No:
        return False
    except ZeroDivisionError:
        return False
