"""Symbolic flags and options, shared by several harnesses."""


def flagopt(E, name, names, args, kinds=3):
    """A Flag, an OptionWithIOVar over an identifier, or one over an argument string (kind forks)."""
    from pash_annotations.datatypes.BasicDatatypes import Flag, ArgStringType
    from pash_annotations.datatypes.BasicDatatypesWithIOVar import OptionWithIOVar
    k = E.choose(name + '.kind', kinds)
    n = E.pick(name + '.name', names)
    if k == 0:
        return Flag(n)
    if k == 1:
        return OptionWithIOVar(n, ArgStringType(E.pick(name + '.arg', ['x', 'y'])))
    return OptionWithIOVar(n, E.pick(name + '.var', args))


def flagopts(E, name, nmax, names, args, kinds=3):
    n = E.choose(name + '.n', nmax + 1)
    return [flagopt(E, '%s%d' % (name, i), names, args, kinds) for i in range(n)]
