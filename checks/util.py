"""helpers shared by the harnesses; work on symbolic and on real numbers"""


def dot(a, b):
    r = 0
    for i in range(len(a)):
        r = r + a[i] * b[i]
    return r


def mv(M, v):
    return [dot(M[i], v) for i in range(len(M))]


def mtv(M, v):
    """M^T v"""
    n = len(M[0])
    return [dot([M[k][i] for k in range(len(M))], v) for i in range(n)]


def mm(A, B):
    return [[dot(A[i], [B[k][j] for k in range(len(B))])
             for j in range(len(B[0]))] for i in range(len(A))]


def tr(A):
    return [[A[i][j] for i in range(len(A))] for j in range(len(A[0]))]


def any_nonzero(c, v):
    return c.Or(*[e != 0 for e in v])


def det(M):
    n = len(M)
    if n == 1:
        return M[0][0]
    if n == 2:
        return M[0][0] * M[1][1] - M[0][1] * M[1][0]
    r = 0
    for j in range(n):
        minor = [[M[i][k] for k in range(n) if k != j] for i in range(1, n)]
        t = M[0][j] * det(minor)
        r = r + t if j % 2 == 0 else r - t
    return r


def quad(B, g, p):
    """1/2 p'Bp + g'p"""
    return dot(mv(B, p), p) / 2 + dot(g, p)


def chol_spd(c, name, n):
    """arbitrary symmetric positive definite matrix as L L^T; returns (B, L)"""
    L = [[0.0] * n for _ in range(n)]
    for i in range(n):
        for j in range(i):
            L[i][j] = c.real(f'{name}L{i}{j}')
        L[i][i] = c.real(f'{name}L{i}{i}', pos=True)
    return c.array(mm(L, tr(L))), L


def tri_solve(L, v):
    """L^-1 v for lower triangular L"""
    out = []
    for i in range(len(v)):
        t = v[i]
        for j in range(i):
            t = t - L[i][j] * out[j]
        out.append(t / L[i][i])
    return out


def tri_solve_t(L, v):
    """L^-T v"""
    n = len(v)
    out = [None] * n
    for i in reversed(range(n)):
        t = v[i]
        for j in range(i + 1, n):
            t = t - L[j][i] * out[j]
        out[i] = t / L[i][i]
    return out
