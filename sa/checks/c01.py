from checks import kernels


def run(rep):
    kernels.induction(rep)
    kernels.relwind(rep)
