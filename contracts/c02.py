"""C02: leaving out defaults loses no information."""
from contracts import roundtrip, wiring, c01
READS, SAVES = roundtrip.reads(globals()), []
for k in roundtrip.VKINDS:
    globals()['saves_' + k] = lambda t, k=k: roundtrip.asdict(t, k)
    SAVES.append('saves_' + k)
elides, serializers, defaults_made, defaults_are_equal, written_then_read, deserializers, dumping, loading, typed_dump, typed_load = (
    c01.elides, c01.serializers, c01.defaults_made, c01.defaults_are_equal, c01.written_then_read, c01.deserializers, c01.dumping, c01.loading, c01.typed_dump, c01.typed_load)
TASKS = ['elides', 'serializers', 'defaults_are_equal', 'defaults_made', 'typed_dump', 'written_then_read'] + READS + SAVES + ['deserializers', 'dumping', 'loading', 'typed_load']
TECHNIQUE = 'contracts on ElideDefaults, asdict, _try_create_defaults and from_dict, joined by lemmas by induction over values and types'
NOTE = ('ElideDefaults is proved to remove a field only if it has a declared default and what is saved of it compares equal to that; the lemma on defaults shows that such a value '
        'equals the default as an object; from_dict, on a document in which such fields are absent, is proved to return an object equal to the saved one (the absent field gets the '
        'default, by the contract of _try_create_defaults). Trusted and assumed: as for C01; serializers save equal values the same way each time.')
