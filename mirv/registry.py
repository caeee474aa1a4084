"""Which contracts there are, on which crate, and which properties each is part of."""
import contracts as C, parsers as P

CORE, LIB, MACRO = 'derive_builder_core', 'derive_builder', 'derive_builder_macro'
SCOPE = {
    '<Setter as ToTokens>::to_tokens': 'C01 C07 C08 C09 C10 C11 C12 C13 C18 C20 C06',
    '<BuilderField as ToTokens>::to_tokens': 'C21 C13 C12 C10 C20 C06 C01 C18',
    'BuilderField::default_initializer_tokens': 'C16 C21 C18',
    '<Initializer as ToTokens>::to_tokens': 'C02 C03 C04 C06 C18 C20 C21 C22',
    '<BuildMethod as ToTokens>::to_tokens': 'C02 C03 C04 C05 C10 C12 C15 C18 C21 C22',
    '<Builder as ToTokens>::to_tokens': 'C10 C12 C13 C15 C16 C17 C18 C21',
    'builder_for_struct': 'C02 C03 C04 C05 C10 C12 C13 C14 C15 C16 C17 C18 C21',
}
COST = {'<Builder as ToTokens>::to_tokens': 100, '<Setter as ToTokens>::to_tokens': 50, 'Options::as_builder': 20, 'builder_for_struct': 15, '<Field as FromField>::from_field': 10, '<Options as FromDeriveInput>::from_derive_input': 10}

def norm(l):
    out = set()
    if isinstance(l, str): return set(l.split())
    for x in l or (): out |= norm(x) if not isinstance(x, str) or ' ' in x else {x}
    return {x for y in out for x in y.split()}

def scope_of(c):
    if c.key in SCOPE: return frozenset(SCOPE[c.key].split())
    out = norm(c.labels)
    try:
        d = c.spec(None, *([None] * len([a for a in c.args if a[2] not in ('toks', 'fmt')])))
        if isinstance(d, dict):
            for n, (lb, th) in d.items(): out |= norm(lb)
    except Exception: pass
    return frozenset(out)

ALL = {}
for src, crate in ((C.CONTRACTS, CORE), (P.PARSERS, CORE), (C.LIB, LIB), (C.MACRO, MACRO)):
    for k, c in src.items():
        c.crate = crate
        c.scope = scope_of(c)
        c.cost = COST.get(k, 1)
        ALL[k] = c
def crate_contracts(crate): return {k: c for k, c in ALL.items() if c.crate == crate}
def all_labels(c): return c.scope
def for_property(pid): return [k for k, c in ALL.items() if pid in c.scope]
if __name__ == '__main__':
    for k, c in ALL.items(): print(k, sorted(c.scope))
    for i in range(1, 23): print('C%02d' % i, len(for_property('C%02d' % i)), for_property('C%02d' % i))
