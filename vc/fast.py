"""The z3 bindings' hot accessors without their per-call error query (they
cannot fail on the terms they are given) and without building a Python object
for a term which is visited twice."""
import z3
from z3 import z3 as Z
from z3 import z3core as K



def _c(name):
    return getattr(K, name).__defaults__[-1].f


_raw = {}
for _n in ("Z3_get_ast_kind Z3_get_app_num_args Z3_get_app_arg "
           "Z3_get_app_decl Z3_get_decl_kind Z3_get_ast_id Z3_inc_ref "
           "Z3_dec_ref Z3_get_sort Z3_get_sort_kind Z3_get_decl_name "
           "Z3_is_eq_ast Z3_get_symbol_kind").split():
    _raw[_n] = _c(_n)
    setattr(Z, _n, _raw[_n])

_kind, _nargs, _arg = (_raw["Z3_get_ast_kind"], _raw["Z3_get_app_num_args"],
                       _raw["Z3_get_app_arg"])
_sort, _sk, _id = (_raw["Z3_get_sort"], _raw["Z3_get_sort_kind"],
                   _raw["Z3_get_ast_id"])
_is_alg = _c("Z3_is_algebraic_number")
_slow = Z._to_expr_ref
APP, NUM = Z.Z3_APP_AST, Z.Z3_NUMERAL_AST
_main = z3.main_ctx()
_cref = _main.ref()
_B, _I, _R = (z3.BoolSort().ast.value, z3.IntSort().ast.value,
              z3.RealSort().ast.value)


def _ref(a, ctx):
    if ctx is not _main:
        return _slow(a, ctx)
    k = _kind(_cref, a)
    if k == APP or k == NUM:
        s = _sort(_cref, a).value
        if s == _B:
            return z3.BoolRef(a, ctx)
        if s == _I:
            return (z3.IntNumRef if k == NUM else z3.ArithRef)(a, ctx)
        if s == _R:
            if k == NUM:
                return z3.RatNumRef(a, ctx)
            if _nargs(_cref, a) == 0 and _is_alg(_cref, a):
                return z3.AlgebraicNumRef(a, ctx)
            return z3.ArithRef(a, ctx)
    return _slow(a, ctx)


def _children(self):
    c, a = self.ctx.ref(), self.as_ast()
    if _kind(c, a) not in (APP, NUM):
        return []
    x = self.ctx
    return [_ref(_arg(c, a, i), x) for i in range(_nargs(c, a))]


def _is_app(a):
    if not isinstance(a, z3.ExprRef):
        return False
    return _kind(a.ctx.ref(), a.as_ast()) in (APP, NUM)


Z._to_expr_ref = _ref
z3.ExprRef.children = _children
Z.is_app = _is_app
z3.is_app = _is_app


def subterms(es):
    """Every subterm once, as ``es`` and a stack walk visit them."""
    seen, out, st = set(), [], [(e.as_ast(), e) for e in es]
    st = list(st)
    while st:
        a, e = st.pop()
        i = _id(_cref, a)
        if i in seen:
            continue
        seen.add(i)
        if e is None:
            e = _ref(a, _main)
        out.append(e)
        if _kind(_cref, a) in (APP, NUM):
            for j in range(_nargs(_cref, a)):
                st.append((_arg(_cref, a, j), None))
    return out
