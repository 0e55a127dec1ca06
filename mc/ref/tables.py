"""Registry facts (methods, statuses, headers, directives), frozen as specification data."""

import json
import os

_D = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'data')
with open(os.path.join(_D, 'tables.json'), encoding='utf-8') as _f:
    T = json.load(_f)
with open(os.path.join(_D, 'notices.json'), encoding='utf-8') as _f:
    SEVERITY = {int(k): v for k, v in json.load(_f).items()}

HEADER = T['header']
METHOD = T['method']
STATUS = {int(k): v for k, v in T['status_code'].items()}
_LOWER = {k.lower(): k for k in HEADER}


def header(name):
    """Row for a header name (any case), or {}."""
    return HEADER.get(_LOWER.get(name.lower()), {})


def canonical(name):
    return _LOWER.get(name.lower(), name)


def bad_for_trailer(name):
    return bool(header(name).get('bad_for_trailer'))


def known(name):
    return name.lower() in _LOWER
