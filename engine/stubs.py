"""additional models of the environment (streams), installed per harness"""


def install(ex, name):
    return None
