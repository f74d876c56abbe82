from symx.harness import Inst

BOUNDS = 'every listed medium in every letter case; unknown names of 1 to 24 printable ASCII characters, all of them'
OUTSIDE = 'names longer than 24 characters or with non-ASCII characters'


def listed(h, k):
    d = h.mod('densities')
    names = d.list_medium()
    h.true(len(set(names)) == len(names) and len(names) > 0, 'names listed once')
    n = [x for i, x in enumerate(sorted(names)) if i % 3 == k]
    n = h.choose('medium', n)
    ref = d.get_density(n)
    h.true(ref > 0, 'density is positive')
    s = h.cased('c', n)
    h.eq(d.get_density(s), ref, 'density whatever the letter case')
    h.eq(d.get_density(n.lower()), ref, 'density in lower case')


# reference values (kg/m3): the table of the documentation
REF = {'CONCRETE': 2300, 'REINFORCED_CONCRETE': 2400, 'FRESH_WATER': 1000, 'SALT_WATER': 1025, 'SAND': 1600,
       'STEEL': 7850, 'ALUMINUM': 2700, 'LEAD': 11350, 'TITANIUM': 4500, 'POLYSTYRENE': 1050, 'GASOLINE': 750,
       'DIESEL_FUEL': 850, 'ETHANOL': 789, 'AIR_20DEGC': '1.204', 'BUTANE': '2.7', 'PROPANE': '2.01',
       'HYDROGEN_-252DEGC': 70, 'NITROGEN_-195DEGC': 810}


def values(h):
    d = h.mod('densities')
    for n, v in sorted(REF.items()):
        h.true(n in d.list_medium(), 'listed: ' + n)
        h.eq(d.get_density(n), h.const(v), 'density of ' + n)


def unknown(h, n):
    d = h.mod('densities')
    s = h.chars('s', n)
    u = s.upper()
    for k in d.list_medium():
        h.assume(h.bnot(h.same_text(u, k)))
    try:
        r = d.get_density(s)
    except KeyError as e:
        h.true(h.shown(' '.join(map(str, e.args)), s), 'the error names the medium')
        return
    h.fail('an unknown medium is refused')


def table_is_private(h):
    """changing the list handed out does not change the table"""
    d = h.mod('densities')
    l = d.list_medium()
    n = len(l)
    name = l[0]
    ref = d.get_density(name)
    del l[:]
    h.eq(len(d.list_medium()), n, 'list unaffected')
    h.eq(d.get_density(name), ref, 'density unaffected')


INSTANCES = [Inst('listed-%d' % k, listed, k=k) for k in range(3)]
INSTANCES += [Inst('values', values), Inst('private', table_is_private)]
INSTANCES += [Inst('unknown-%d' % n, unknown, n=n) for n in range(1, 25)]
