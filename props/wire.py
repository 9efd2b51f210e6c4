"""The wire format of the service's types, from their declarations: what serde
derives from names, types and attributes."""
import json
import os
import re
from common import Prog, Missing
from absint import Limit


class Wire:
    def __init__(self):
        with open(os.path.join(Prog.get().dir, 'procstar.lib.json')) as f:
            d = json.load(f)
        self.adts = {a['path']: a for a in d['adts'] if '::_::' not in a['path']}
        self.impls = d.get('impls', [])
        self.items = d.get('items', [])

    _one = None

    @classmethod
    def get(cls):
        if cls._one is None:
            cls._one = cls()
        return cls._one

    def adt(self, suffix):
        r = [a for p, a in self.adts.items() if p == 'procstar::' + suffix]
        if not r:
            raise Missing('type ' + suffix)
        return r[0]


def attrs(x):
    r = {}
    for a in x.get('serde') or []:
        if a[0] == 'serde':
            r[a[1]] = a[2]
    return r


def split(s):
    """Splits at top-level commas."""
    r, d, cur = [], 0, ''
    for c in s:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            r.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        r.append(cur.strip())
    return r


def generic(ty):
    """A type's name and its arguments."""
    if '<' in ty and ty.endswith('>'):
        n, a = ty.split('<', 1)
        return n, split(a[:-1])
    return ty, []


KNOWN = {'deny_unknown_fields', 'default', 'rename', 'rename_all', 'tag', 'with', 'skip_serializing_if', 'alias', 'rename_all_fields', 'skip', 'skip_serializing', 'skip_deserializing', 'untagged'}


def words(n):
    return [w.lower() for w in re.findall(r'[A-Z]+(?![a-z])|[A-Z][a-z0-9]*|[a-z0-9]+', n)]


def recase(n, rule, variant):
    if rule is None:
        return n
    # serde's rules: variants are written in PascalCase, fields in snake_case.
    if variant:
        snake = re.sub(r'(?<!^)([A-Z])', r'_\1', n).lower()
        return {'lowercase': n.lower(), 'UPPERCASE': n.upper(), 'PascalCase': n, 'camelCase': n[:1].lower() + n[1:], 'snake_case': snake,
                'SCREAMING_SNAKE_CASE': snake.upper(), 'kebab-case': snake.replace('_', '-'), 'SCREAMING-KEBAB-CASE': snake.upper().replace('_', '-')}[rule]
    pascal = ''.join(w[:1].upper() + w[1:] for w in n.split('_'))
    return {'lowercase': n, 'UPPERCASE': n.upper(), 'PascalCase': pascal, 'camelCase': pascal[:1].lower() + pascal[1:], 'snake_case': n, 'SCREAMING_SNAKE_CASE': n.upper(),
            'kebab-case': n.replace('_', '-'), 'SCREAMING-KEBAB-CASE': n.upper().replace('_', '-')}[rule]


class Unknown(Limit):
    """A serde attribute that is beyond this model."""


def known(x):
    a = attrs(x)
    for k in a:
        if k not in KNOWN:
            raise Unknown('serde attribute %s' % k)
    return a


def variant_name(adt, v):
    return known(v).get('rename') or recase(v['name'], known(adt).get('rename_all'), True)


def field_name(adt, v, f):
    rule = known(v).get('rename_all') or known(adt).get('rename_all_fields') if adt['enum'] else known(adt).get('rename_all')
    return known(f).get('rename') or recase(f['name'], rule, False)


def aliases(x):
    return [a[2] for a in x.get('serde') or [] if a[0] == 'serde' and a[1] == 'alias']
