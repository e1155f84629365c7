from checks import kernels


def run(rep):
    s = (3, 4) if not rep.thorough else (2, 3, 4, 5, 7)
    kernels.wind(rep, s)
    kernels.curvature(rep, s)
