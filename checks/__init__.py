REGISTRY = {}


def prop(pid):
    def deco(f):
        REGISTRY[pid] = f
        return f
    return deco


from . import wellformed, tables, randomness, validation, isolation, scenario, smallscale, coefficients, pipeline, antenna, utilities, precision, tdl      # noqa: E402,F401
