"""C04: dense factorised solvers."""
from pyvc.framework import contract

L = 'sporco.linalg.'


def _A(w, shape):
    """Matrix A that is tall, wide or of unrestricted shape."""
    N, M = w.dim('N'), w.dim('M')
    if shape == 'tall':
        w.assume(N >= M)
    elif shape == 'wide':
        w.assume(N < M)
    return w.arr('A', (N, M)), N, M


_C = [(s, m) for s in ('tall', 'wide') for m in ('lu', 'cho', 'chol')]


def _fac(w, m, A, rho):
    if m == 'lu':
        return w.fn(L + 'lu_factor')(A, rho)
    return w.fn(L + 'cho_factor')(A, rho, lower=(m == 'chol'))


@contract('C04', [L + 'lu_factor', L + 'lu_solve_ATAI', L + 'cho_factor',
                  L + 'cho_solve_ATAI'], cases=_C)
def solve_ATAI(w, case):
    shape, m = case
    np = w.np
    A, N, M = _A(w, shape)
    rho = w.real('rho', lo=0.25, hi=3.0)
    b = w.arr('b', (M, w.dim('K')))
    A0, b0 = w.keep(A), w.keep(b)
    f, p = _fac(w, m, A, rho)
    x = w.fn(L + ('lu' if m == 'lu' else 'cho') + '_solve_ATAI')(
        A, rho, b, f, p)
    w.same_shape('solution has the shape of b', x, b)
    w.eq('(A^T A + rho I) x = b', A.T.dot(A.dot(x)) + rho * x, b, tol=1e-6)
    w.unchanged('A not modified', A, A0)
    w.unchanged('b not modified', b, b0)


@contract('C04', [L + 'lu_factor', L + 'lu_solve_AATI', L + 'cho_factor',
                  L + 'cho_solve_AATI'], cases=_C)
def solve_AATI(w, case):
    shape, m = case
    np = w.np
    A, N, M = _A(w, shape)
    rho = w.real('rho', lo=0.25, hi=3.0)
    b = w.arr('b', (w.dim('K'), N))
    f, p = _fac(w, m, A, rho)
    x = w.fn(L + ('lu' if m == 'lu' else 'cho') + '_solve_AATI')(
        A, rho, b, f, p)
    w.same_shape('solution has the shape of b', x, b)
    w.eq('x (A A^T + rho I) = b', x.dot(A).dot(A.T) + rho * x, b, tol=1e-6)


@contract('C04', [L + 'solve_symmetric_sylvester'],
          cases=['mm', 'mv', 'vm', 'vv', 'tt', 'tv'], trials=40)
def sylvester(w, case):
    """A X B + alpha X = C for symmetric A and B, given as matrices ('m'),
    diagonals ('v') or eigendecompositions ('t')."""
    np = w.np
    n, m = w.dim('n', lo=2), w.dim('m', lo=2)
    C = w.arr('C', (n, m))
    alpha = w.real('alpha', pos=True)

    def arg(name, k, how):
        if how == 'v':
            d = w.arr(name + 'd', (k,))
            return d, np.diag(d), d
        S, lam, Q = w.symmetric(name, k)
        return (S if how == 'm' else (lam, Q)), S, lam
    A, Am, la = arg('A', n, case[0])
    B, Bm, lb = arg('B', m, case[1])
    if w.sym:
        w.pivots_nonzero('precondition: no product of eigenvalues of A and B '
                         'equals -alpha')
    else:
        w.assume(np.min(np.abs(np.outer(la, lb) + alpha)) > 1e-3)
    C0 = w.keep(C)
    X = w.fn(L + 'solve_symmetric_sylvester')(A, B, C, alpha)
    w.eq('A X B + alpha X = C', Am.dot(X).dot(Bm) + alpha * X, C, tol=1e-6)
    w.unchanged('C not modified', C, C0)
