from . import identity, compiler, system, values, wire, untrusted, ast, paths, accessors, convert, encaps, printed, armor, layout, contracts, transpile
RULES = {}
for mod in (identity, compiler, system, values, wire, untrusted, ast, paths, accessors, convert, encaps, printed, armor, layout, contracts, transpile):
    for n in dir(mod):
        if len(n) == 3 and n[0].isupper() and n[1:].isdigit(): RULES[n] = getattr(mod, n)
