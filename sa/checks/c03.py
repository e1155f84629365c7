from checks import kernels


def run(rep):
    kernels.adjoint(rep, (2, 3, 4) if not rep.thorough else (2, 3, 4, 5, 6, 8))
