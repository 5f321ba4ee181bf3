import numpy as np
def f1(n, m, b):
    a = np.zeros((n, m), dtype=complex)
    for i in range(m):
        a[:, i] += b[i]
    return a
def f2(n, m, b):
    a = np.zeros((n, m), dtype=complex)
    for i in range(m):
        a[:, i] += b[i]
        a[:, i] -= b[i]*b[i]
    return a
def f3(n, m, b, c):
    a = np.zeros((n, m), dtype=complex)
    for i in range(m):
        a[:, i] += b[i]
        a[:, i] -= b[i]*c
    return a
def f4(n, m, b, c):
    a = np.zeros((n, m), dtype=complex)
    for i in range(m):
        a[:, i] += b[i] * c
    return a
def f5(n, m, b, c):
    a = np.zeros((n, m), dtype=complex)
    for i, bb in enumerate(b):
        a[:, i] += np.sum(c*c) * b[i]
        a[:, i] += np.sum(c*c) * c
    return a
def f6(m, b, c):
    a = c.copy()
    for i in range(m):
        t = a + c*b[i]
        a[:] = t
    return a
def f7(m, b, c):
    a = c.copy()
    for i in range(m):
        a[:] = a * b[i]
    return a
def f8(m, n, b, c):
    a = np.zeros((m,n),dtype=complex)
    for i in range(m):
        for j in range(n):
            a[i,j] = b[i]
        a[i] *= c
        a[i,:] += c
    return a
