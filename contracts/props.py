"""Properties: contracts, harnesses, bounds and assumptions of each check."""
PROPS = {
    'C01': dict(contracts=[('cdv', ['Axis(', 'Axis::index', 'to_axis_parameter_index', 'computeBufferIndex'])], harness=['h_cdv'],
                bounded='request selection for a chunk (RequestManipulation, ViewPart::at, AxisMapper::mapRequestToAxis) against brute force enumeration',
                bounds='axes of up to 3 parameters with up to 4 values; all boxes'),
    'C02': dict(contracts=[('cdv', ['BoundingBox', 'chunkSizeCheck', 'extensibleWith'])], harness=['h_cdv'],
                bounded='whole views over an in-memory archive (ChunkedDataViewImpl, ViewPart, GribExtractor) compared value by value with the source fields',
                bounds='1-3 parts, 2 axes (one compound), real GRIB messages of 4 values, all chunk indices'),
    'C03': dict(contracts=[('keys', [''])], harness=['h_key'],
                bounded='sequences of key operations against a reference map with order, matching against brute force, canonical values of nine key types, stream round trip',
                bounds='random sequences of up to 14 operations over 8 keywords and 10 values, seed printed in the evidence'),
    'C05': dict(contracts=[('index', ['Index', 'matchValues'])], harness=['h_index'],
                bounded='random histories of insert, merge, wipe, encode/decode (versions 1 to 3) and release of shared read-only axes against a reference map of sets',
                bounds='up to 8 keys over 5 keywords and 9 values per history'),
    'C06': dict(contracts=[('rules', ['MatchValue', 'MatchAny', 'ExcludeAll', 'MatchAlways', 'MatchOptional', 'Predicate'])], harness=['h_rules'],
                bounded='random schemas as text, parsed, dumped and parsed again, sent through a stream, and damaged, against a reference reading of the grammar',
                bounds='up to 3 rules of 3 levels, 8 keywords, 10 values, 500 schemas (4000 thorough)'),
    'C07': dict(contracts=[('rules', ['Rule::match', 'Rule::findMatchingKey', 'Rule::tryFill', 'Schema::'])], harness=['h_rules'],
                bounded='archive and retrieve expansion, fingerprints and placeholder expansion of random schemas against a reference that enumerates the product of the values',
                bounds='up to 3 rules of 3 levels, 8 keywords of up to 3 values, 350 schemas (3000 thorough)'),
    'C09': dict(contracts=[('control', ['']), ('lock', ['']), ('archive', ['selectDatabase'])], harness=['h_e2e'],
                bounded='random histories of disabling and enabling list, retrieve, archive and wipe on databases of a local archive, followed by all of these operations, against a model of what is disabled',
                bounds='4 databases, up to 4 control operations per history, 60 histories (600 thorough)'),
    'C10': dict(contracts=[('wipe', ['']), ('wipemark', ['visitIndex', 'TocCatalogue::', 'TocStore::'])], harness=['h_e2e'],
                bounded='random histories of archiving and wiping a local archive (dry runs, parts of databases, foreign files in the directory) compared with a model: directory contents, listings and retrieved bytes',
                bounds='4 databases of up to 20 fields, up to 3 wipes per history, 60 histories (600 thorough)'),
    'C11': dict(contracts=[('purge', ['PurgeVisitor', 'visitDatum'])], harness=['h_e2e'],
                bounded='random histories of archiving the same fields again and purging (dry and real) a local archive compared with a model: directory contents, listings and retrieved bytes',
                bounds='4 databases of up to 24 fields, up to 2 purges per history, 60 histories (600 thorough)'),
    'C12': dict(contracts=[('archive', ['']), ('writer', [''])], harness=['h_e2e'],
                bounded='random histories of two writers that archive, flush and close on a local archive, with and without sub-TOCs, against a model of the latest flushed value of each field',
                bounds='4 databases, up to 20 operations per history, 60 histories (600 thorough)'),
    'C14': dict(contracts=[('toc', ['Stats']), ('purge', ['visitDatum'])], harness=['h_e2e'],
                bounded='statistics of random local archives against a full listing',
                bounds='4 databases of up to 20 fields, 60 archives (600 thorough)'),
    'C13': dict(contracts=[('fio', ['FieldHandle', 'HandleGatherer'])], harness=['h_io'],
                bounded='random sequences of open, read, seek, rewind and close on handles over in-memory fields (seekable or not, short reads, empty fields) against the concatenation of their bytes; gathering of handles',
                bounds='up to 5 fields of up to 9 bytes, up to 14 operations, 6000 handles (60000 thorough)',
                note='FieldHandle is proved against a byte-level model: memory, the bytes and the state of every data handle are ghost state; eckit data handles are trusted to return something unless at their end. Its constructor is only covered by the bounded stand-in.'),
    'C19': dict(contracts=[('fio', ['ListIterator', 'KeyStore', 'toReplace'])], harness=['h_io'],
                bounded='listings of random elements spread over several sources in all modes, the compact form parsed back and expanded, combined keys, against a reference',
                bounds='up to 13 elements over 2 x 2 databases, 4 index keys and 6 datum keys, 2000 listings (20000 thorough)'),
    'C15': dict(contracts=[('lanes', ['SelectMatcher', 'KeyAccessor', 'SelectFDB', 'APIAggregateIterator'])], harness=['h_select'],
                bounded='random lanes with select and exclude expressions over recording FDBs; keys archived, requests of every kind, flushes, against a reference of the routing',
                bounds='up to 4 lanes, expressions over 4 keywords and 4 values, 15000 operations (120000 thorough)',
                note='Matching of one expression is that of metkit (trusted, also exercised by the bounded stand-in); construction of the lanes from the configuration is only covered by the bounded stand-in.'),
    'C18': dict(contracts=[('roots', ['Root', 'FileSpace', 'DbPathNamer'])], harness=['h_roots'],
                bounded='random file spaces, roots (absent, not directories, with and without rights), tables of database names, existing databases in several roots and under other cases of letters, against a reference of the choice',
                bounds='up to 3 spaces of up to 3 roots, up to 2 names over 4 keywords, 700 configurations of 10 operations (6000 thorough)',
                note='That a root is a directory, and which databases exist, is taken as not changing during a call; the handlers other than the first-root one and the search of a directory in any case of letters (getFullDB) are only covered by the bounded stand-in.'),
}
