"""Per property: configurations of the shards, budgets, and what the evidence says."""
BOTH = ['c', 'py'] * 4

PLANS = {
    'C02': dict(
        configs=BOTH, examples=3000, soft_s=60,
        rule='A case is a generated program (1-25 operations) over a pool of up to 12 vectors whose sizes are drawn around '
             'leaf and level changes of the tree (0..100, 1023..2081, 32767..33825; fixed programs at 2^20+32). '
             'Non-trivial: at least one operation other than a plain read was applied to a vector with more than '
             '32 elements, i.e. with a tree.',
        assumptions=['elements are compared by identity with the objects that were inserted',
                     'indices are Python ints'],
    ),
    'C04': dict(
        configs=BOTH, examples=3000, soft_s=60,
        rule='A case is a generated program (1-30 operations) over up to 5 evolvers and 12 vectors that share structure. '
             'Non-trivial: at least 3 operations, at least one persistent() and at least one vector with more than '
             '32 elements.',
        assumptions=['is_dirty is not asserted for an evolver that was written to but whose contents are unchanged',
                     'indices are Python ints'],
    ),
    'C05': dict(
        configs=BOTH, examples=1500, soft_s=60,
        rule='A case is a generated program (1-25 operations) over a pool of up to 10 maps; keys come from a palette with equal '
             'hashes (-1/-2, 0/2**61-1, a class with constant hash), cross-type equal keys (1, 1.0, True), a class with '
             'a wrong __ne__, tuples, strings and runs of up to 3000 keys. Non-trivial: some map had two keys with equal hash, or '
             'more than 8 keys (so that the table had to grow).',
        assumptions=['keys have a hash consistent with == and are equal to themselves',
                     'iteration order and the identity of equal keys are not asserted; values are compared by identity'],
    ),

    'C06': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a generated program (1-30 operations) over up to 5 evolvers of maps, sets, checked maps and checked '
             'sets and up to 10 collections sharing structure. Non-trivial: an evolver was persisted, changed and '
             'persisted again.',
        assumptions=['is_dirty is not asserted for an evolver that was written to but whose contents are unchanged',
                     'keys have a hash consistent with == and are equal to themselves'],
    ),
    'C07': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a generated program (2-25 operations) over up to 10 sets (plain, checked, key sets of maps, records '
             'and checked maps). Non-trivial: at least two operations and a set with more than five elements or with '
             'two elements of equal hash.',
        assumptions=['operands of the operators are sets (set, frozenset or persistent sets); those of the named methods any iterables'],
    ),
    'C08': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a generated program (2-25 operations) over up to 10 bags. Non-trivial: some bag has an element '
             'more than once and at least one of + - | & was applied.',
        assumptions=['operands of bag operations are bags'],
    ),
    'C09': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a generated program (1-22 operations) over up to 12 lists sharing tails. Non-trivial: at least two '
             'operations on lists with two or more elements.',
        assumptions=['split positions are not negative', 'first and rest are not assigned to by the user'],
    ),
    'C10': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a generated program (1-24 operations) over up to 12 deques with and without bounds (0..40). '
             'Non-trivial: at least three operations on deques with two or more elements.',
        assumptions=[],
    ),

    'C01': dict(
        configs=BOTH, examples=3000, soft_s=60,
        rule='A case is a generated program (1-26 steps) over a pool of up to 14 values of all kinds, up to 5 live evolvers, live '
             'iterators and the Python containers the values were built from; after every step every pooled value is compared with the '
             'snapshot taken when it was obtained. Non-trivial: at least one operation was applied and at least two values are held.',
        assumptions=['elements themselves do not change', 'private attributes and PList.first/.rest are not assigned to'],
    ),

    'C11': dict(
        configs=BOTH, examples=3500, soft_s=60,
        rule='A case is a pair of values of one kind, built by two of ten construction histories from contents that are equal or '
             'differ in one place (changed, missing, extra, duplicated or swapped element), optionally with equal elements of another '
             'type or identity, compared in all directions, hashed, and used as keys, also nested inside other collections. '
             'Non-trivial: at least two elements.',
        assumptions=['elements have == , != and hash that are consistent'],
    ),

    'C12': dict(
        configs=BOTH, examples=1500, soft_s=60,
        rule='A case is a recursively generated value (all collection kinds, checked collections, records, class instances, '
             'collection-field values, named tuples, up to 10 leaves and sizes up to 1057), a protocol 2..5 or copy/deepcopy, and one further '
             'operation; half of the pickles are also restored in a second process with another hash seed. Non-trivial: the '
             'value has at least one element of its own.',
        assumptions=['elements are picklable and keep equality through a copy', 'classes are importable by name'],
    ),
    'C13': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a recursively generated structure of Python and persistent containers and untouched leaf objects (nesting up to '
             'about 25), a direction and a strictness, or a call of a mutant function with such arguments. Non-trivial: at '
             'least two levels of containers.',
        assumptions=['subclasses of list, dict, set and tuple are not converted and not generated',
                     'what strict freeze makes of records and checked collections is not asserted'],
    ),
    'C14': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a recursively generated structure of maps, vectors, records, class instances and checked collections and 1-4 '
             '(path, command) pairs whose steps (literal keys and indices incl. missing ones, key and key-value predicates, callable '
             'objects, regular expressions, the wildcard) are resolved against the structure. Non-trivial: some path has two or more steps '
             'and something changes.',
        assumptions=['predicates are not applied to class instances', 'discard of a vector index that is out of range is not generated',
                     'paths lead through collections only'],
    ),
    'C03': dict(
        configs=['c'] * 8, examples=900, soft_s=60,
        rule='A case is a program of 1-30 operations over vectors, evolvers, maps and sets (sizes up to 33,825; indices, slices and '
             'comparands of every kind incl. wrong types and argument counts), run under the C extension and under the pure '
             'Python vector; every answer, exception type and final content is compared. Non-trivial: four or more operations of which '
             'at least three succeed.',
        assumptions=['methods are called with positional arguments', 'exception messages and object addresses are not compared'],
    ),
    'C15': dict(
        configs=BOTH, examples=2500, soft_s=60,
        rule='A case is a generated declaration (element/key/value types given as classes, tuples, nested tuples, names, enums, checked '
             'classes; invariants with single, multiple and lazy error data; optionally in a subclass) and 1-14 operations with valid and '
             'invalid elements. Non-trivial: at least one valid and one rejected operation.',
        assumptions=['invariants are total functions', 'an evolver that recorded an invariant failure is not used again',
                     'operations documented to return plain collections are only checked for contents'],
    ),
    'C16': dict(
        configs=BOTH, examples=2000, soft_s=60,
        rule='A case is a generated record class (1-5 fields, each with a type declaration, invariant, initial value, mandatory marker '
             'and factory drawn from tables; up to one global invariant) and a history of 1-14 operations with valid, invalid and unknown '
             'fields. Non-trivial: at least two accepted and one refused operation.',
        assumptions=['factories and invariants are deterministic', 'initial values are fixed points of the factory',
                     'which of several simultaneous failures is reported first is not specified'],
    ),
    'C17': dict(
        configs=BOTH, examples=2000, soft_s=60,
        rule='A case is a generated persistent class (1-5 fields, as for C16) and a history of 1-14 operations incl. attribute assignment '
             'and deletion; every factory call is counted. Non-trivial: at least two accepted and one refused operation.',
        assumptions=['factories and invariants are deterministic', 'removing a field with an initial value resets it',
                     'which of several simultaneous failures is reported first is not specified'],
    ),
    'C18': dict(
        configs=BOTH, examples=3000, soft_s=60,
        rule='A case is a generated graph of record classes, persistent classes, checked vectors, maps and sets and collection fields '
             '(nested, with inheritance levels, custom field serializers and inherited collection serializers), an instance of it, a format '
             'and a pattern of unknown keys. Non-trivial: at least one record and one level of nesting.',
        assumptions=['a field with several checked types has no unambiguous inverse and is not generated',
                     'elements of sets are plain', 'create is only asked to invert serializers that have an inverse factory'],
    ),
    'C22': dict(
        configs=BOTH, examples=2000, soft_s=60,
        rule='A case is a generated member list (0-8 names, frozen or not, given as text or sequence), 0-3 subclass levels (validating or '
             'not) and 1-12 operations. Non-trivial: two or more members, a successful set, and a refused one or a subclass.',
        assumptions=['member names are valid named tuple field names other than set'],
    ),
    'C24': dict(
        configs=BOTH, examples=2000, soft_s=60,
        rule='A case is a generated hierarchy of 3-5 record, persistent or checked collection classes (single and multiple inheritance, '
             'diamonds, plain mixins), each declaring some fields or types and invariants, and 1-8 operations on instances of one of them, '
             'judged by the union of the declarations of all its ancestors. Non-trivial: something is inherited and both accepted and '
             'refused operations occur.',
        assumptions=['a field name is declared by one class of a hierarchy only', 'an element type is declared once on a path of ancestors',
                     'persistent classes whose layouts Python cannot combine are not generated'],
    ),
    'C25': dict(
        configs=BOTH, examples=2000, soft_s=60,
        rule='A case is a record or persistent class with 1-4 vector, set or map fields (item types as classes, tuples, names and checked '
             'classes; optional; initial contents; item and field invariants) and 1-12 operations that assign, extend, transform and copy '
             'their contents from every kind of source. Non-trivial: an accepted and a refused operation and a non-empty field.',
        assumptions=['item invariants are declared for item types of their own (known finding)', 'one-shot iterators are assigned once'],
    ),
    'C19': dict(
        configs=['c', 'c', 'c', 'asan', 'c', 'asan', 'c', 'asan'], examples=1500, soft_s=75, scale={'asan': 0.6},
        rule='A case is a generated program (1-24 operations) over up to 8 C vectors, 4 evolvers and 4 iterators with drops, garbage '
             'collections and failing calls at generated points: (alive) every element is only weakly known to the harness and must be '
             'alive exactly while the model says it is held; (loop) the program is repeated and reference counts and allocated blocks must not '
             'change; (reentrant) finalizers and weak reference callbacks operate on the same collections; (deep) nesting of '
             '200,000 vectors is released. Three shards run under AddressSanitizer without the node free list. Non-trivial: '
             'three or more operations and a vector with a tree, or at least one finalizer action.',
        assumptions=['an evolver may keep the elements of the vector it was made from, an exhausted iterator those of its vector',
                     'unreachable cycles through vectors that share nodes need not be collected',
                     'contents of an evolver changed by a finalizer during its own operation are not specified, only memory safety'],
    ),
    'C20': dict(
        configs=BOTH, examples=2500, soft_s=60, level='fault_enumeration',
        rule='A case is one of about 210 operations that call user code (iterators, mappings, element ==, !=, <, hash, repr and pickling, '
             'update, transform and predicate functions, factories, invariants and their messages, initial values, serializers, constructors) on '
             'collections of generated sizes, or one of 27 evolver operations; the calls of user code are counted, and the operation is '
             'repeated in fresh equal worlds with a failure at every call (all calls up to 45, otherwise both ends and a systematic part of the '
             'middle). Non-trivial: the operation calls user code at all.',
        assumptions=['failures out of element methods and mappings are of exception classes that nothing else raises, since a KeyError there may be taken '
                     'for a missing key; supplied functions and iterators also fail with KeyError, IndexError, AttributeError, TypeError and ValueError'],
    ),
    'C21': dict(
        configs=BOTH, examples=220, soft_s=60, round_size=20,
        rule='A case is a collection of 3,000 to 66,000 elements (thorough: 262,144) built in one of six ways, 1-10 single-element updates '
             'and a chain of 60 updates; the memory that the result of each update keeps in addition to the original is measured with '
             'tracemalloc and must be below 9,000 bytes (copying such a collection takes 24,000 bytes and more), and the '
             'calls promised to return the original must. Non-trivial: every case.',
        assumptions=['an update of a map, set or bag may grow the table once; the next update then must not',
                     'memory taken from free lists of the interpreter is not counted'],
    ),
    'C23': dict(
        configs=BOTH, examples=260, soft_s=90, round_size=20,
        rule='Every operation of every kind is run by two threads at once (enumerated, one interruption). A generated case is 1-3 shared values of all kinds and 2-3 threads with 1-3 operations each (reading, hashing, comparing, deriving, own '
             'evolvers, pickling, declaring classes). With two threads, every line at which the first can be interrupted is tried '
             '(up to 30, otherwise spread evenly) with the other thread running to its end there, in both orders; other cases run generated '
             'schedules of up to 90 switches at lines or bytecodes. Every result is compared with that of running the thread alone. '
             'Non-trivial: a schedule in which a thread was interrupted.',
        assumptions=['threads switch between source lines or bytecodes of Python code, including code of elements called from C',
                     'the C extension itself runs under the interpreter lock'],
    ),
}
