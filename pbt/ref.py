"""Reference models, written from the documentation."""


def _listed(x):
    if x is None:
        return []
    if isinstance(x, str):
        return [x]
    return x


def expand(doc):
    """Canonical form of a (valid) rules document."""
    if doc is None:
        return {}
    return dict((k, dict((os, _versions(os, d)) for os, d in osd.items()))
                for k, osd in doc.items())


def _versions(os, d):
    if not isinstance(d, dict):
        d = {'any_version': _listed(d)}
    elif os == 'any_os' and 'any_version' not in d:
        d = {'any_version': d}
    return dict((v, _installers(i)) for v, i in d.items())


def _installers(i):
    if not isinstance(i, dict):
        i = {'default_installer': _listed(i)}
    return dict((name, _rule(r)) for name, r in i.items())


def _rule(r):
    if not isinstance(r, dict):
        return {'packages': _listed(r)}
    res = {}
    for k, v in r.items():
        if k in ('packages', 'depends'):
            v = _listed(v)
        if k == 'depends' and v == []:
            continue
        res[k] = v
    return res


def lookup(rules, key, os, version, default):
    """Installer name -> rule."""
    osd = rules.get(key, {})
    res = {}
    levels = [osd.get('any_os', {}).get('any_version', {}),
              osd.get(os, {}).get('any_version', {}),
              osd.get(os, {}).get(version, {})]
    for name in set(n for l in levels for n in l):
        real = default if name == 'default_installer' else name
        # most specific level that has it
        for l in reversed(levels):
            for n in l:
                if n == real or (n == 'default_installer' and real == default):
                    res[real] = l[n]
                    break
            else:
                continue
            break
    return res


def layered(layers, key, os, version, default):
    res = {}
    for rules in layers:
        for name, rule in lookup(rules, key, os, version, default).items():
            res.setdefault(name, rule)
    return res


def has_rule(osd, os, version):
    return ('any_os' in osd or version in osd.get(os, {}) or
            'any_version' in osd.get(os, {}))


# ------------------------------------------------------------- verification

KEYWORDS = {'any_os', 'any_version', 'default_installer', 'unset_installers', 'any_key'}


def ident_ok(x, allowed=()):
    if not isinstance(x, str):
        return False
    if x in KEYWORDS:
        return x in allowed
    if x == 'mountain lion':
        return True
    return x != '' and all(c.isalnum() or c in '_.’+-' for c in x)


def rule_ok(r):
    if not isinstance(r, dict):
        return False
    for k, v in r.items():
        if not isinstance(k, str):
            return False
        if k == 'packages' and not isinstance(v, list):
            return False
        if k == 'depends' and not (isinstance(v, list) and all(ident_ok(d) for d in v)):
            return False
    return True


def installers_ok(i, default):
    return isinstance(i, dict) and all(
        ident_ok(n, ('default_installer',) if default else ()) and rule_ok(r)
        for n, r in i.items())


def versions_ok(v, default):
    return isinstance(v, dict) and all(
        ident_ok(n, ('any_version',)) and installers_ok(i, default) for n, i in v.items())


def os_ok(o, default):
    return isinstance(o, dict) and all(
        ident_ok(n, ('any_os',)) and versions_ok(v, default and n != 'any_os')
        for n, v in o.items())


def rules_ok(r, default):
    return isinstance(r, dict) and all(
        ident_ok(k) and os_ok(o, default) for k, o in r.items())
