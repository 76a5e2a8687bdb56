"""C04: every value of a document is used; absent fields get their defaults."""
from contracts import fromdict


USES = fromdict.from_dict_tasks('used', 'uses_', globals())


def kinds(t):
    fromdict.kinds_cover(t)


def defaults_made(t):
    fromdict.try_create_defaults(t, 'used')


def values_replaced(t):
    fromdict.replace_weak_refs(t, 'used')


def optional_types(t):
    fromdict.is_optional(t)


def loading(t):
    fromdict.loading(t, 'used')


TASKS = ['optional_types', 'kinds'] + USES + ['defaults_made', 'values_replaced', 'loading']
TECHNIQUE = 'contracts on from_dict, _try_create_defaults and _replace_weak_refs, by induction over documents'
NOTE = ('What a document gives for a type is spelled out level by level (a field given, weakly given, absent with and without a default; unknown fields refused unless '
        'ignored); every recursive call is checked against that contract and passes the same rules on, so the property holds at every depth. A value returned unchanged '
        'counts as used (C03 decides whether it is of the type). Assumed: plain dataclasses, deserializers hand over the value they return, Python\'s reflection as modelled '
        'in contracts/annot.py. That valid documents are not refused is only searched for counterexamples.')
