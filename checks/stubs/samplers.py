"""Functions to be tabulated (source for the interpreter; never run).  Their coefficients are set by the check."""
A = [0.0, 0.0, 0.0, 0.0, 0.0]


def curve(x):
    return A[0]*x*x + A[1]*x + A[2]


def cube(x, y, z):
    return [A[0]*x + A[1]*y + A[2]*z + A[3]*x*y*z, A[1]*x*x + A[3]*y + A[4], A[2]*z*z + A[0]*y*x + A[4]*x]


def cubetuple(x, y, z):
    return (A[0]*x + A[1]*y + A[2]*z, A[3]*y*z, A[4]*z + A[0])
