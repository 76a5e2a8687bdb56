"""C03: a loaded config holds only values of the declared types."""
import z3
from pydv.univ import *
from pydv import univ as u
from contracts.annot import *
from contracts import fromdict
from z3 import And, Or, Not, Implies, If


LOADS = fromdict.from_dict_tasks('type', 'loads_', globals())


def kinds(t):
    fromdict.kinds_cover(t)


def defaults_typed(t):
    fromdict.try_create_defaults(t, 'type')


def replaced_typed(t):
    fromdict.replace_weak_refs(t, 'type')


def optional_types(t):
    fromdict.is_optional(t)


def instances(t):
    fromdict.instances(t)


def loading(t):
    fromdict.loading(t, 'type')


TASKS = ['optional_types', 'kinds', 'instances'] + LOADS + ['defaults_typed', 'replaced_typed', 'loading']
TECHNIQUE = 'contracts on from_dict, _try_create_defaults and _replace_weak_refs, by induction over types'
NOTE = ('"A value of type T" is spelled out level by level; every recursive call is checked against that contract, so the property holds for documents and types of '
        'any depth. Assumed: dataclasses with a generated __init__ and no __post_init__, declared defaults of the declared type, deserializers that return document '
        'values or (the last one) a value of the type; Python\'s reflection as modelled in contracts/annot.py. Keys of dicts are not judged, a bool counts as an int, '
        'Literal compares by ==, annotations outside the documented ones are not judged.')
