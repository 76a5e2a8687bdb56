"""C01: dumping and loading gives back an equal object."""
from contracts import roundtrip, wiring, fromdict
READS = roundtrip.reads(globals())
SAVES = []
for k in roundtrip.VKINDS:
    globals()['saves_' + k] = lambda t, k=k: roundtrip.asdict(t, k)
    SAVES.append('saves_' + k)


def defaults_made(t):
    roundtrip.try_create_defaults(t)


def written_then_read(t):
    roundtrip.written_then_read(t)


def defaults_are_equal(t):
    roundtrip.defaults_are_equal(t)


def serializers(t):
    roundtrip.serializer(t, 'VersionedSerializer', True)
    for q in ('VersionedSerializer', 'ElideDefaults', 'LazySerializer'):
        roundtrip.transparent(t, q)


def elides(t):
    roundtrip.serializer(t, 'ElideDefaults')


def deserializers(t):
    for q in ('VersionedDeserializer', 'ScheduleDeserializer', 'LazyDeserializer'):
        roundtrip.deserializer(t, q)


def dumping(t):
    roundtrip.dumping(t)


def loading(t):
    fromdict.loading(t, 'used')


def typed_dump(t):
    wiring.typed_dump(t, {'version', 'elide', 'schedules'})


def typed_load(t):
    wiring.typed_load(t, {'version'})


TASKS = READS + SAVES + ['defaults_made', 'written_then_read', 'defaults_are_equal', 'serializers', 'elides', 'deserializers', 'dumping', 'loading', 'typed_dump', 'typed_load']
TECHNIQUE = 'contracts on asdict, from_dict and the library\'s (de)serializers, joined by lemmas by induction over values and types'
NOTE = ('"d is a document that a value v of type T was saved as" is spelled out level by level. asdict is proved to save every component; what the RON library reads of that is such '
        'a document; the (de)serializers of the library are proved to leave it one; from_dict, on such a document, is proved to return a value equal to v and to raise nothing. Every '
        'recursive call is checked against the same contract, so the property holds at every depth. Trusted: the RON library reads what it wrote (structs as dicts that keep their '
        'names), == compares containers by component, Python\'s reflection as modelled in contracts/annot.py. Assumed: plain dataclasses, values of exactly the declared classes, '
        'distinct dataclasses in a union, names that can be written (no leading underscore, no name the library uses itself), no None member in an Optional enum. Fields saved apart '
        '(blobs, schedules) are outside (C14, C15, C11).')
