"""Texts of the properties; tools/mkmanifest.py writes properties.jsonl and MANIFEST.json from these and contracts/props.py"""
DEFS = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None, na=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a['state'] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = None
    DEFS.append((dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why, anchors=a), na))


P('C01', 'Chunked view: every field lands at its own row-major position',
  'In the chunked data view an axis merged from several keywords enumerates the Cartesian product of their values in row-major order (last keyword fastest): position to keyword indices and keyword values to position are inverse to each other for every position below the axis size, which is the product of the value counts. '
  'A field is written to the buffer slot given by its row-major position in the chunk, and keys that lack a keyword or hold a value outside the axis, positions at or beyond the size and slots outside the buffer are rejected with an error. '
  'The request made for an aligned sub-range of an axis selects exactly the values of that range, and a range that is not a product of values is rejected.',
  ['inputs'], 'every list of keywords and value counts (including products beyond 32 bits), every position, every key, every part offset and buffer extent',
  'tests sample a few two- and three-keyword axes with small sizes; the claim is for every number of keywords, every size and every position, including sizes beyond 32 bits',
  ['src/chunked_data_view/Axis.cc', 'src/chunked_data_view/mapping/IndexMapper.cc', 'src/chunked_data_view/RequestManipulation.cc', 'src/chunked_data_view/ViewPart.cc', 'src/chunked_data_view/mapping/AxisMapper.cc'],
  [('key to position', 'chunked_data_view::Axis::index'), ('position to indices', 'index_mapping::to_axis_parameter_index'), ('buffer slot', 'index_mapping::computeBufferIndex'), ('axis size', 'Axis::Axis / combinedSize'), ('request selection', 'RequestManipulation::updateRequest')],
  observe=['returned indices and thrown exceptions', 'the MARS request handed to the archive'])

P('C02', 'Chunked view: boxes are exact and chunks tile the view',
  'Boxes of positions behave as closed integer boxes: intersection, containment, translation, extent and number of entries are exact for every dimension count, boxes that touch in a single cell intersect, and ill-formed boxes, translations below zero and mismatched dimensions are rejected. '
  'A fixed chunk size is accepted exactly when each chunk holds complete groups of the faster keywords and divides the next slower one, chunks tile the axis exactly, and parts may be joined only when they agree on every axis but the extension axis. '
  'Reading any chunk of a view returns the value of the field at each global position, the fill value where the field has a missing value, and an error when a field is absent or the chunk index is outside the grid.',
  ['inputs'], 'every dimension count and corner, every chunk size and value counts, every part layout and chunk index',
  'tests fix two or three boxes and chunk sizes; off-by-one errors at touching boxes, unusual divisors and multi-part layouts need all inputs',
  ['src/chunked_data_view/ViewPart.cc', 'src/chunked_data_view/ViewPart.h', 'src/chunked_data_view/mapping/AxisMapper.cc', 'src/chunked_data_view/ChunkedDataViewImpl.cc', 'src/chunked_data_view/GribExtractor.cc'],
  [('box algebra', 'chunked_data_view::BoundingBox'), ('chunk size rule', 'AxisMapper::chunkSizeCheck'), ('compatible parts', 'ViewPart::extensibleWith'), ('chunk reading', 'ChunkedDataViewImpl::at, GribExtractor::extractInto')],
  observe=['returned boxes, shapes and buffers, thrown exceptions'])

P('C03', 'Keys are ordered keyword maps; matching and canonical forms are exact',
  'A key maps keywords to values and remembers the order in which keywords were first given: setting stores the lower-case value and keeps the place of a keyword that is already there, pushing appends, popping removes the last keyword and rejects any other, unsetting removes keyword and place, pushing or popping all keywords of another key does so in order, and no operation touches other keywords. Reading an absent keyword is an error. '
  'The values string lists the values in that order separated by colons. A key matches another key when it holds every keyword of it with the same non-empty value, matches a request when every requested keyword is present with one of the requested values, and matches partially when no keyword of the key is excluded by the request; validation fails exactly when a keyword of the other key is missing (or has another value, when values are compared). '
  'The tidy and canonical forms of a typed key hold, in the same order, each keyword (its alias for the canonical form) with its value converted by the type of that keyword, empty values staying empty.',
  ['inputs', 'histories'], 'every sequence of operations on keys and every pair of key and key or request',
  'tests exercise a few keys with two or three keywords; the claim quantifies over every key, every order of operations and every request',
  ['src/fdb5/database/BaseKey.cc', 'src/fdb5/database/Key.cc'],
  [('keyword map and order', 'fdb5::BaseKey::{set,unset,push,pop,pushFrom,popFrom,get,keys,clear}'), ('matching', 'fdb5::Key::{match,partialMatch,matchValues,validateKeys}'), ('values string', 'fdb5::Key::valuesToString'), ('canonical values', 'fdb5::TypedKey::{tidy,canonical}')],
  observe=['returned values and thrown exceptions'])

P('C05', 'Index axes never hide a field and hold nothing else',
  'The axes of an index hold, for each keyword, exactly the set of values of the keys put into it (or merged into it from another index): a key that was put is always reported as possibly contained, fully and for any part of its keywords, and a request is rejected only when it names, for some axis, values none of which is on that axis. Keywords that only the request or only the axis knows do not reject. '
  'Axes read back from a stream (any supported version) are equal to those written, are read only, and keep their values whatever happens to other axes that shared their storage; merging leaves the source unchanged; equality of axes is equality of keywords and values.',
  ['inputs', 'histories'], 'every set of axes, every key and request, every history of insertions and merges',
  'a missed field shows only for particular combinations of keys, empty values and merges; tests use a few fixed axes',
  ['src/fdb5/database/IndexAxis.cc', 'src/fdb5/database/Index.cc', 'src/fdb5/database/AxisRegistry.cc', 'src/fdb5/database/Key.cc'],
  [('membership', 'fdb5::IndexAxis::{contains,containsPartial,partialMatch}'), ('growth', 'fdb5::IndexAxis::{insert,merge,wipe}'), ('sharing', 'fdb5::AxisRegistry::{deduplicate,release}'), ('index filter', 'fdb5::IndexBase::{mayContain,mayContainPartial,partialMatch,put}'), ('serialisation', 'fdb5::IndexAxis::{encode,decode}')],
  observe=['returned booleans and value sets', 'streams'])

P('C06', 'A schema accepts what its text says',
  'For every schema text, each predicate accepts exactly what is written: no value list accepts every value, a value or a list accepts those values, a list that starts with ! accepts every value except those (also a list of one), "?" makes the keyword optional with the given default and "-" makes it ignored. '
  'The type of a keyword is the one given in the rule itself, then in the enclosing rules, then at the top of the schema. Writing the schema out and reading it again, or sending it through a stream, gives a schema that accepts the same keys. Text with unbalanced brackets is refused.',
  ['inputs'], 'every schema, every key and value',
  'tests read a few production schemas that use a small part of the grammar; exclusion, nested types and round trips are not sampled',
  ['src/fdb5/rules/SchemaParser.cc', 'src/fdb5/rules/Predicate.cc', 'src/fdb5/rules/ExcludeAll.cc', 'src/fdb5/rules/MatchAny.cc', 'src/fdb5/rules/MatchOptional.cc', 'src/fdb5/rules/MatchValue.cc', 'src/fdb5/types/TypesRegistry.cc', 'src/fdb5/rules/Rule.cc'],
  [('parser', 'fdb5::SchemaParser'), ('matchers', 'fdb5::{MatchValue,MatchAny,ExcludeAll,MatchAlways,MatchOptional,MatchHidden}::match'), ('types', 'fdb5::TypesRegistry::lookupType'), ('dump and stream', 'fdb5::{Schema,Rule,Matcher}::{dump,encode}')],
  observe=['matching of keys and values', 'dumped text', 'streams'])
P('C07', 'Every request and field is mapped to the right database, index and datum',
  'A field is archived under the first rule, in the order of the schema, all of whose predicates it matches at all three levels; the key of each level holds exactly the keywords of the predicates, in their order, with the canonical value of the field (empty where an optional keyword is absent). '
  'A request is expanded to exactly the product of its values that each predicate accepts, each combination once, level by level; a keyword that is missing and not optional yields nothing. The database rule found for a key, and the rule found for a database and index key, is the first that matches, and no match is an error. '
  'Building a key from a fingerprint and writing its fingerprint are inverse.',
  ['inputs'], 'every schema, field and request',
  'the number of combinations of optional, hidden, excluded and typed keywords is far beyond the requests a test can list',
  ['src/fdb5/rules/Rule.cc', 'src/fdb5/rules/Schema.cc', 'src/fdb5/database/Key.cc', 'src/fdb5/types/Type.cc'],
  [('key of a field', 'fdb5::Rule::findMatchingKey'), ('keys of a request', 'fdb5::Rule::findMatchingKeys'), ('expansion', 'fdb5::{RuleDatabase,RuleIndex,RuleDatum}::expand'), ('rule of a key', 'fdb5::Schema::matchingRule'), ('fingerprints', 'fdb5::Rule::{makeKey,fill,tryFill}')],
  observe=['the calls made on the visitor', 'returned keys and rules'])

P('C09', 'What is disabled on a database stays disabled, and only that',
  'Control identifiers are sets of operations: adding identifiers gives their union and an operation is enabled exactly when none of its bits is set. '
  'After an operation (list, retrieve, archive, wipe) has been disabled for the databases of a request, it does nothing on exactly these databases - listing and retrieval skip them, archiving and wiping are refused and change nothing - until it is enabled again; all other operations and databases work as before. '
  'Control reports exactly the databases of the request, and status and control report exactly what is disabled.',
  ['inputs', 'histories'], 'every history of disabling and enabling, every set of databases and operations',
  'tests disable one operation on one database; independence of operations and databases needs all combinations',
  ['src/fdb5/api/helpers/ControlIterator.cc', 'src/fdb5/api/local/ControlVisitor.cc', 'src/fdb5/toc/TocHandler.cc', 'src/fdb5/toc/TocCatalogue.cc', 'src/fdb5/api/local/ListVisitor.cc', 'src/fdb5/database/Archiver.cc', 'src/fdb5/database/MultiRetrieveVisitor.cc'],
  [('sets of operations', 'fdb5::ControlIdentifiers'), ('lock files', 'fdb5::TocHandler::{enabled,control}'), ('who is controlled', 'fdb5::api::local::ControlVisitor'), ('enforcement', 'ListVisitor::visitDatabase, Archiver::database, Inspector, WipeVisitor')],
  observe=['listings, retrieved bytes, refused operations, control and status reports'])
P('C10', 'Wipe removes exactly what was asked for and never what is safe',
  'A wipe state keeps three groups of files apart: marking a file for deletion never marks one that is safe, adds nothing else and leaves the other groups alone; declaring data missing only moves it out of the data group; states that hold a file in two groups are refused, and a signed store state accepts no more data. '
  'Wiping the databases or indexes of a request removes exactly the fields whose index it selects: they are no longer listed or retrieved and their files go when nothing else uses them, all other fields keep their bytes, a database all of whose indexes are wiped disappears with its directory. '
  'A dry run changes no file. Files that do not belong to the database are never removed unless this is asked for explicitly: the wipe of such a database is refused as a whole.',
  ['inputs', 'histories'], 'every history of archiving and wiping, every request, every set of files in the directory',
  'tests wipe one or two databases of fixed shape; shared data files, partial wipes and foreign files need every history',
  ['src/fdb5/database/WipeState.cc', 'src/fdb5/api/local/WipeVisitor.cc', 'src/fdb5/toc/TocCatalogue.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/database/WipeCoordinator.cc', 'src/fdb5/toc/TocWipeVisitor.cc'],
  [('groups of files', 'fdb5::WipeState, fdb5::StoreWipeState'), ('what is marked', 'fdb5::TocCatalogue::markIndexForWipe, WipeCatalogueVisitor'), ('removal', 'fdb5::{TocCatalogue,TocStore}::doWipeURIs, WipeCoordinator::wipe')],
  observe=['directory contents, listings, retrieved bytes'])
P('C11', 'Purge removes only what is superseded',
  'Purging a database changes no answer: every listing and retrieval gives the same fields and bytes before and after it. It removes an index only when every field in it is superseded by a later one, and a data file only when no field that is left refers to it. A dry run changes no file.',
  ['inputs', 'histories'], 'every history of archiving the same fields again, every request',
  'tests purge one database where whole files are superseded; partial overlap of indexes and data files needs every history',
  ['src/fdb5/toc/TocPurgeVisitor.cc', 'src/fdb5/toc/TocStats.cc', 'src/fdb5/api/local/PurgeVisitor.cc', 'src/fdb5/toc/TocHandler.cc'],
  [('usage counts', 'fdb5::TocStatsReportVisitor::visitDatum'), ('decision and removal', 'fdb5::TocPurgeVisitor::{purge,gatherAuxiliaryURIs,report}')],
  observe=['directory contents, listings, retrieved bytes'])
P('C12', 'What was flushed is found, latest version first',
  'After a flush (or the clean end of a writer) every field archived before it is found by listings and retrievals of every reader that opens the database afterwards, with exactly the bytes that were archived, and the last flushed version of a field hides the earlier ones; nothing that was not archived is found. '
  'A flush makes the data of every open database durable first and then publishes its indexes, for exactly as many fields as the store has written; a writer keeps one index and one data file per index key until it is closed.',
  ['inputs', 'histories'], 'every history of archiving, flushing and closing by successive writers, with and without sub-TOCs',
  'tests archive a few fields in one order; out-of-order index keys, several writers and repeated fields need every history',
  ['src/fdb5/database/Archiver.cc', 'src/fdb5/database/ArchiveVisitor.cc', 'src/fdb5/toc/TocCatalogueWriter.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/toc/TocHandler.cc', 'src/fdb5/toc/TocCatalogueReader.cc'],
  [('flush', 'fdb5::Archiver::{flush,flushDatabase}, TocStore::flush, TocCatalogueWriter::flush'), ('selection of index and file', 'fdb5::TocCatalogueWriter::{selectIndexUnlocked,archive}, TocStore::getDataPath'), ('reading', 'fdb5::TocHandler::loadIndexes, TocCatalogueReader::retrieve')],
  observe=['listings and retrieved bytes'])
P('C14', 'Statistics count every field once',
  'The statistics of a database agree with its full listing: number and bytes of all fields, and of those that are superseded by a later version. Statistics of indexes and databases add up member by member, start from zero, and adding to one counter changes no other.',
  ['inputs', 'histories'], 'every archive content, every order of adding statistics',
  'tests compare one or two databases; superseded fields across several indexes and repeated versions need every history',
  ['src/fdb5/toc/TocStats.cc', 'src/fdb5/api/local/StatsVisitor.cc', 'src/fdb5/database/IndexStats.cc', 'src/fdb5/database/DbStats.cc'],
  [('addition', 'fdb5::{TocIndexStats,TocDbStats,TocDataStats}::operator+='), ('counting', 'fdb5::TocStatsReportVisitor::visitDatum')],
  observe=['reported statistics'])

P('N01', 'Concurrent writers and readers of one database never see torn records',
  'Whatever the interleaving of processes and threads that archive, flush, list and retrieve in one database, every reader sees a prefix of whole TOC records, each appended record is whole, and no record or field that was flushed is lost.',
  ['schedules'], 'every interleaving of writers, readers and threads',
  'interleavings cannot be enumerated by tests',
  ['src/fdb5/toc/TocHandler.cc', 'src/fdb5/api/local/QueryQueue.h', 'src/fdb5/toc/TocCatalogueWriter.cc'],
  [('atomic append', 'fdb5::TocHandler::append')],
  na='the guarantee rests on O_APPEND and lock semantics of the file system and on thread interleavings; contracts here are sequential (no concurrent separation logic for C++ is available)')
P('N02', 'A crash loses nothing that was flushed',
  'If a writer dies at any point, every field flushed before is still found by later readers, later writers can go on, and no reader sees part of a record.',
  ['crash_points'], 'every crash point of every history of archiving and flushing',
  'crash points cannot be enumerated by tests',
  ['src/fdb5/toc/TocHandler.cc', 'src/fdb5/toc/TocStore.cc', 'src/fdb5/toc/TocCatalogueWriter.cc'],
  [('order of writes', 'fdb5::Archiver::flushDatabase, TocStore::flush, TocCatalogueWriter::flush')],
  na='needs a crash model of the file system and of the B-tree file of eckit (external); the order in which data and index are made durable is proved as part of C12')
P('N03', 'A remote archive behaves like a local one',
  'Through any network fault or server failure, a remote client sees every request either complete with the answer the local archive would give or fail with an error; it never hangs, loses or repeats an archived field.',
  ['schedules', 'histories'], 'every message interleaving and fault',
  'faults and interleavings cannot be enumerated by tests',
  ['src/fdb5/remote/client/ClientConnection.cc', 'src/fdb5/remote/server/ServerConnection.cc', 'src/fdb5/remote/server/StoreHandler.cc'],
  [('connection', 'fdb5::remote::{ClientConnection,ServerConnection}')],
  na='liveness and fault behaviour of concurrent processes; partial-correctness contracts of sequential code cannot express it')

P('C13', 'Several fields read as one stream of bytes',
  'A handle over several fields reads as the concatenation of their bytes in the order in which they were found: reads of any size return the next bytes, as many as were asked for unless the end comes first, and the position is the number of bytes before the next one; the size is the sum of the sizes. '
  'Seeking continues at the byte asked for (any byte when all fields can seek, otherwise any byte of the current or a later field; all else is refused), rewinding starts again from the first byte, and a handle that was closed, also after it was read to its end, can be opened and read again. '
  'Every data handle is opened at most once at a time and released exactly once, and gathering handles keeps the bytes of all of them, in order unless sorting was asked for.',
  ['inputs', 'histories'], 'every list of fields (seekable or not) and every sequence of operations on the handle',
  'tests read a handle from start to end; seeks, rewinds, mixed kinds of handles, odd read sizes and reuse after closing need every sequence',
  ['src/fdb5/io/FieldHandle.cc', 'src/fdb5/io/HandleGatherer.cc'],
  [('reading', 'fdb5::FieldHandle::{read,read1,openCurrent}'), ('moving', 'fdb5::FieldHandle::{seek,rewind,position}'), ('life cycle', 'fdb5::FieldHandle::{openForRead,close}'), ('gathering', 'fdb5::HandleGatherer::{add,dataHandle}')],
  observe=['bytes and counts returned, positions, thrown exceptions, state of the data handles'])
P('C19', 'A listing shows each field once, in every form',
  'A full listing gives every version found, in order; a deduplicated one gives exactly the first version found of each field, whatever the number of databases and sources; a listing of duplicates gives exactly the others. '
  'Two elements are the same field exactly when the values of their keys agree level by level. The compact form counts each field and its bytes once and its requests cover exactly the fields listed, each once; of two versions the one with the later time replaces the other.',
  ['inputs'], 'every sequence of elements, spread in any way over any number of sources',
  'tests list a handful of fields of one database; repeated fields across databases and partial hypercubes need all inputs',
  ['src/fdb5/api/helpers/ListIterator.cc', 'src/fdb5/api/helpers/ListIterator.h', 'src/fdb5/api/helpers/ListElement.cc', 'src/fdb5/api/helpers/APIIterator.h'],
  [('modes', 'fdb5::ListIterator::next'), ('identity of a field', 'fdb5::KeyStore::tryInsert'), ('compact form', 'fdb5::ListIterator::dumpCompact'), ('later version', 'fdb5::ListElementDeduplicator::toReplace')],
  observe=['elements given, in order, and the text of the compact form'])

P('C15', 'A selecting FDB sends fields and requests to the right lanes',
  'With several FDBs behind select expressions, a field goes, once and unchanged, to the first lane whose select expression matches its key and none of whose exclude expressions does (a keyword that is missing does not match), and is refused when there is none; retrieval asks every lane that matches the request in the same way. '
  'Every other operation (list, dump, status, wipe, purge, stats, control, axes) reaches every lane that could hold a match - keywords missing from the request do not rule a lane out, an exclusion does only when all values named are excluded - and all lanes when everything is asked for; its arguments reach the lanes unchanged and lanes that cannot match are left alone. '
  'The answers of all lanes asked are given, each once, one lane after the other, and a flush reaches every lane in use.',
  ['inputs', 'histories'], 'every configuration of lanes, every key and request, every history of operations',
  'tests use two or three lanes with one expression each; overlapping lanes, partial requests and exclusions of several values need all inputs',
  ['src/fdb5/api/SelectFDB.cc', 'src/fdb5/rules/SelectMatcher.cc', 'src/fdb5/api/helpers/APIIterator.h'],
  [('lane of a field', 'fdb5::SelectFDB::archive'), ('lanes of a request', 'fdb5::SelectFDB::{inspect,queryInternal}'), ('expressions', 'fdb5::SelectMatcher::match'), ('answers together', 'fdb5::APIAggregateIterator::next'), ('flush', 'fdb5::SelectFDB::flush')],
  observe=['calls made on the lanes with their arguments, answers, thrown exceptions'])

P('C18', 'Databases live in the right root, under the right name',
  'An archive root is used only for what it allows and only while it is there: listing visits exactly the roots that may be listed of the spaces whose expression matches the values of the key (every space when no value is given), new databases and moves go only to roots that allow archiving or moving. '
  'A database that exists in a root of the first space matching its key is found there, with the rights of that root, and must not be in two of them unless duplicates are allowed; otherwise it is placed in a root of that space that may be archived to (the first one by default), and is refused when there is no such space or root. '
  'Its name is that of the first format whose keywords are those of the key and whose expressions match, with the values of the key put in, or else the values of the key joined; for a partial key every matching format gives one name, in order, with the unknown values replaced by their expressions.',
  ['inputs'], 'every configuration of spaces, roots and names, every key, every set of existing databases',
  'tests use one or two roots that exist; absent roots, overlapping expressions, mixed rights, partial names and existing databases in later roots need all inputs',
  ['src/fdb5/toc/RootManager.cc', 'src/fdb5/toc/FileSpace.cc', 'src/fdb5/toc/Root.cc', 'src/fdb5/toc/FileSpaceHandler.cc'],
  [('roots', 'fdb5::RootManager::{visitableRoots,canArchiveRoots,canMoveToRoots}'), ('directory of a database', 'fdb5::RootManager::directory, fdb5::FileSpace::filesystem'), ('existing databases', 'fdb5::FileSpace::existsDB'), ('names', 'fdb5::RootManager::{dbPathName,possibleDbPathNames}, fdb5::DbPathNamer::*'), ('rights of a root', 'fdb5::Root::<ctor>')],
  observe=['paths and control identifiers returned, thrown exceptions'])
