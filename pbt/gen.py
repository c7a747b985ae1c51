"""Generators of xylem's data (all values are plain literals)."""
import copy

from hypothesis import strategies as st

KEYS = ['foo', 'bar', 'libc++', 'python3-x', 'a.b_c']
OSES = ['ubuntu', 'debian', 'osx', 'fedora']
VERSIONS = {
    'ubuntu': ['precise', 'trusty', 'lucid', '12.04'],
    'debian': ['wheezy', 'jessie', 'squeeze', 'precise'],
    'osx': ['mountain lion', 'lion', 'mavericks', 'trusty'],
    'fedora': ['21', '22', 'precise', 'wheezy'],
}
INSTALLERS = ['apt', 'pip', 'homebrew', 'yum', 'gem']
DEFAULTS = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew', 'fedora': 'yum'}
# the built-in OS plugins' default installers
BUILTIN_DEFAULTS = {'ubuntu': 'apt', 'debian': 'apt', 'osx': 'homebrew', 'xubuntu': 'apt'}

PACKAGES = ['p', 'q', 'libfoo-dev', 'r', 's s', 'é', '1', 'true', 'null', '-x',
            "it's", '@{r}', '', '#c', 'a: b', 'x{0}y', 'ü=2.0', '~', '[a]']

package = st.sampled_from(PACKAGES)
packages = st.lists(package, max_size=3)
key = st.sampled_from(KEYS)

scalars = st.one_of(st.none(), st.booleans(), st.integers(-3, 3), package)


def trees(leaves=scalars, max_leaves=6):
    return st.recursive(
        leaves, lambda c: st.one_of(
            st.lists(c, max_size=3),
            st.dictionaries(st.sampled_from(['a', 'b', 'packages', 'depends', 'x y']), c,
                            max_size=3)),
        max_leaves=max_leaves)


extras = st.dictionaries(
    st.sampled_from(['options', 'flag', 'formula', 'Packages', 'any_os']),
    trees(max_leaves=4), max_size=2)


@st.composite
def exp_rule(draw, simple=None):
    """Expanded installer rule without an empty depends."""
    kind = draw(st.integers(0, 4))
    rule = {}
    if kind != 4:
        rule['packages'] = draw(packages)
    if kind >= 3 and draw(st.booleans()):
        rule['depends'] = draw(st.lists(key, min_size=1, max_size=2))
    if kind >= 2:
        rule.update(draw(extras))
    return rule


def exp_installer_dict(names, min_size=1):
    return st.dictionaries(st.sampled_from(names), exp_rule(), min_size=min_size, max_size=3)


@st.composite
def exp_os_dict(draw, oses=None, any_os=True, empties=False, default=True,
                versions=None, defaults=None):
    """Expanded os dict; never names default_installer and the OS's default
    installer in the same installer dict."""
    defaults = DEFAULTS if defaults is None else defaults
    lo = 0 if empties else 1
    res = {}
    oses = oses or OSES
    chosen = draw(st.lists(st.sampled_from(oses), max_size=3, unique=True,
                           min_size=0 if (any_os or empties) and draw(st.integers(0, 4)) == 0
                           else 1))
    with_any = any_os and (draw(st.integers(0, 2)) == 0 or not chosen)
    order = draw(st.integers(0, 1)) if with_any and chosen else 0
    if with_any and not order:
        res['any_os'] = {'any_version': draw(exp_installer_dict(INSTALLERS, lo))}
    for os in chosen:
        # 'default_installer' is an error for an OS without one
        named = default and not (os in defaults and defaults[os] is None)
        names = INSTALLERS + (['default_installer'] * 2 if named else [])
        vs = (versions or VERSIONS)[os]
        vdict = {}
        for v in draw(st.lists(st.sampled_from(['any_version', 'any_version'] + vs),
                               min_size=lo, max_size=3, unique=True)):
            idict = draw(exp_installer_dict(names, lo))
            d = defaults.get(os)
            if 'default_installer' in idict and d in idict:
                del idict[d]
            # repeat an installer dict of another version
            if vdict and draw(st.integers(0, 4)) == 0:
                idict = list(vdict.values())[0]
            vdict[v] = idict
        res[os] = vdict
    if with_any and order:
        res['any_os'] = {'any_version': draw(exp_installer_dict(INSTALLERS, lo))}
    return res


def exp_rules(min_size=0, max_size=3, keys=None, **kw):
    return st.dictionaries(st.sampled_from(keys) if keys else key, exp_os_dict(**kw),
                           min_size=min_size, max_size=max_size)


# ---------------------------------------------------------------- shorthands

raw_list = st.one_of(st.none(), package, packages)


@st.composite
def raw_rule(draw):
    kind = draw(st.integers(0, 3))
    if kind < 2:
        return draw(raw_list)
    rule = {}
    if draw(st.integers(0, 4)):
        rule['packages'] = draw(raw_list)
    if draw(st.booleans()):
        rule['depends'] = draw(st.one_of(st.none(), key, st.lists(key, max_size=2)))
    if kind == 3:
        rule.update(draw(extras))
    return rule


@st.composite
def raw_installer_dict(draw, names, shorthand=True):
    if shorthand and draw(st.integers(0, 1)):
        return draw(raw_list)
    return draw(st.dictionaries(st.sampled_from(names), raw_rule(), max_size=3))


@st.composite
def raw_os_dict(draw, defaults=None, pairs=True):
    """Rules of a key in any mix of shorthands.

    :param defaults: default installers, used to avoid naming a default
        installer twice unless `pairs`
    """
    res = {}
    for os in draw(st.lists(st.sampled_from(['any_os'] + OSES), max_size=3, unique=True)):
        if os == 'any_os':
            if draw(st.booleans()):
                res[os] = {'any_version': draw(raw_installer_dict(INSTALLERS, False))}
            else:
                res[os] = draw(raw_installer_dict(INSTALLERS, False))
        elif draw(st.integers(0, 1)):
            res[os] = draw(raw_list)
        else:
            vdict = {}
            for v in draw(st.lists(st.sampled_from(['any_version', 'any_version'] + VERSIONS[os]),
                                   max_size=3, unique=True)):
                names = INSTALLERS + ['default_installer'] * 2
                idict = draw(raw_installer_dict(names))
                if vdict and draw(st.integers(0, 4)) == 0:
                    idict = copy.deepcopy(list(vdict.values())[0])
                if not pairs and isinstance(idict, dict) and 'default_installer' in idict:
                    idict.pop(defaults.get(os), None)
                vdict[v] = idict
            res[os] = vdict
    return res


def raw_rules(**kw):
    return st.dictionaries(key, raw_os_dict(**kw), max_size=3)
