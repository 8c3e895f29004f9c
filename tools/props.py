T_RES = 'interprocedural typestate (acquire/release) over compiler IR with branch correlation'
WHY_RES = ('Leaks and double releases sit on error, exception and early-exit paths; the tests drive a few success paths and '
           'never count what is still held.')
P = [
 dict(id='R01', title='Files, sockets, directories and mappings are closed exactly once',
  statement='Every file, socket, directory handle and file mapping that the servers, indexers and crawler open is closed exactly once: by the operation that opened it, on success, on error and when an exception passes through it, or at the end of life of the object that keeps it open. It is not used after it was closed. What a command line program still holds when it exits is exempt.',
  over=['inputs', 'fault_sequences', 'histories'], qtext='every path through the opening operations, with any of their library calls failing, and every owner lifecycle open; operation; destroy',
  why=WHY_RES, files=['src/common/utils/mmap.c', 'src/common/utils/util.cpp', 'src/common/socket/InSocket.cpp', 'src/common/socket/OutSocket.cpp', 'src/crawler/harvests2json.cpp', 'src/mws/index/IndexBuilder.cpp', 'src/mws/index/IndexLoader.cpp', 'src/mws/daemon/Daemon.cpp'],
  mech=[('close on every exit', 'mmap_load / mmap_unload, getPathsInDirectory, loadHarvests, getFileContents'), ('owner destructors', 'InSocket, OutSocket, MemStream, IndexLoader')],
  tech=T_RES, note='Decides release pairing for fd, FILE*, DIR* and mmap sites on all interprocedural paths to depth 8; values beyond small integer ranges are abstracted.'),
 dict(id='R02', title='XML and JSON library objects are freed or handed over exactly once',
  statement='Every XML document, parser, XPath context, XPath result, XML string, text writer, output buffer and JSON value created while parsing harvests, queries or web pages and while writing answers is freed or handed to its new owner exactly once, whichever of the intermediate steps fails. None is used after it was freed.',
  over=['inputs', 'fault_sequences'], qtext='every path through the functions that create such objects, any library call failing',
  why=WHY_RES, files=['src/crawler/utils/MwsGetMath.cpp', 'src/crawler/parser/XmlParser.cpp', 'src/mws/xmlparser/readMwsQuery.cpp', 'src/mws/xmlparser/processMwsHarvest.cpp', 'src/crawler/parser/MathParser.cpp', 'src/mws/xmlparser/MwsJsonResponseFormatter.cpp'],
  mech=[('free on every exit', 'getXMLDoc, get_XMLNodeset, get_math_xhtml, readMwsQuery, processMwsHarvest'), ('ownership transfer', 'json_object_object_add / json_object_array_add / xmlNewTextWriter')],
  tech=T_RES, note='Decides release pairing per acquisition site over all interprocedural paths; the text writer kept across SAX callbacks is followed only to the callback exit.'),
 dict(id='R03', title='Raw memory buffers are freed exactly once',
  statement='Every memory buffer obtained from the C allocator or as an array (request fields, downloaded pages, robots.txt text, formula text, index iterators, encoding buffers) is freed exactly once on every path: by its user, by the object keeping it, when the connection it belongs to completes, or by the library it was handed to. None is used after being freed.',
  over=['inputs', 'fault_sequences', 'histories'], qtext='every path and every owner lifecycle (create; operation; destroy), (connection start; any post fields, repeated; completion)',
  why=WHY_RES, files=['src/crawler/daemon/CrawlerDaemon.cpp', 'src/crawler/types/Robotstxt.cpp', 'src/crawler/utils/Page.cpp', 'src/crawler/utils/MwsGetMath.cpp', 'src/mws/query/SearchContext.cpp', 'src/mws/daemon/Daemon.cpp', 'src/common/types/Parcelable.cpp'],
  mech=[('free on every exit', 'Robotstxt, Page::downloadContent, get_math_xhtml'), ('completion callback', 'cd_RequestCompletedCallback'), ('owner destructors', 'RangeCtxt, ParcelEncoder, MemStream')],
  tech=T_RES, note='Decides malloc/strdup/open_memstream/new[] and curl handles; single objects from new are covered by R04 only for connection state.'),
 dict(id='R04', title='Each HTTP request gets one response and leaves nothing behind',
  statement='For every HTTP request to the query and crawler servers, a complete request gets exactly one response, never two, and a queued response is not withdrawn by refusing the request. Everything acquired for the request (response object, post data processor, upload buffer) is released exactly once when it is answered, refused or aborted at any point, and servers are stopped when their owner is destroyed.',
  over=['inputs', 'fault_sequences', 'histories'], qtext='every path of the access callbacks in each phase (first call, upload, complete request), every sequence of post data iterations, and completion after any of them',
  why='Aborted uploads, failing library calls and repeated form fields are never produced by the tests, which start the daemon at most on the ordinary path.',
  files=['src/mws/daemon/Daemon.cpp', 'src/mws/daemon/GenericHttpResponses.hpp', 'src/crawler/daemon/CrawlerDaemon.cpp'],
  mech=[('access callback', 'accessHandlerCallback, cd_AccessHandlerCallback'), ('completion callback', 'requestCompletedCallback, cd_RequestCompletedCallback'), ('response helpers', 'GenericHttpResponses.hpp')],
  tech='typestate of the HTTP exchange over compiler IR', note='All paths of both access callbacks from three protocol states; libmicrohttpd behaviour is assumed from its documentation.'),
 dict(id='S03', title='HTTP status codes agree with the outcome of the query',
  statement='The query server answers 200 to a POST only when the query was parsed, answered and its answer written without error; a request that cannot be parsed gets 400, and a failure (or exception) while answering or writing gets 500. OPTIONS and GET of the root page get 200, and any other method gets 405.',
  over=['inputs', 'fault_sequences'], qtext='every path of the access callback with every outcome of parsing, answering (including exceptions) and writing',
  why='The tests never make the query handler or the formatter fail inside the server.', files=['src/mws/daemon/Daemon.cpp', 'src/mws/daemon/GenericHttpResponses.hpp'],
  mech=[('status selection', 'accessHandlerCallback in src/mws/daemon/Daemon.cpp')],
  tech='typestate of stage outcomes against status constants over compiler IR', note='All paths of the access callback; the three stages are nondeterministic (null/non-null/exception, negative/non-negative).'),
 dict(id='I02', title='A failed index build is never reported or served as success',
  statement='If any operation that writes the compressed index image or the meaning dictionary fails (opening, writing, flushing, positioning or closing a file, creating the data directory), building the index is reported as failed, never as success; success is reported only once what was written has been closed. A program that was asked to build an index and could not exits with failure and does not start serving.',
  over=['fault_sequences', 'crash_points'], qtext='every write, flush, seek, open or close of the index files failing, on every path from the build entry to program exit',
  why='The tests never run on a full or failing disk, and a truncated image is only noticed by a later load.',
  files=['src/mws/index/memsector.c', 'src/mws/index/IndexWriter.cpp', 'src/mws/index/IndexBuilder.cpp', 'src/mws/index/MeaningDictionary.hpp', 'src/mws/mwsd.cpp', 'src/mws/mws-index.cpp'],
  mech=[('image writer', 'memsector_create / memsector_write / memsector_save in memsector.c'), ('build entry', 'createCompressedIndex in IndexBuilder.cpp'), ('programs', 'main of mwsd and mws-index')],
  tech='failure injection by abstract interpretation of compiler IR', note='One failing library call at a time, all paths from it to the entry function and to program exit; process kills between calls are not modelled.'),
 dict(id='I06', title='Formula database failures are not mistaken for data',
  statement='When the formula database cannot be opened, read, iterated or written, the operation that needed it fails (exception or failing result) and the failure reaches its caller: an index is not loaded, a query is not answered from incomplete data. During index construction a formula whose record was not stored does not change the number of solutions of its expression, and each stored record is counted exactly once.',
  over=['fault_sequences', 'inputs'], qtext='every database call returning an error status, and every iteration ending in an error, on every path to the handlers and loaders',
  why='The tests use a healthy database; an error status that is dropped looks like an empty answer.',
  files=['src/mws/dbc/LevFormulaDb.cpp', 'src/mws/dbc/LevCrawlDb.cpp', 'src/mws/dbc/DbQueryManager.cpp', 'src/mws/index/IndexBuilder.cpp', 'src/mws/index/IndexLoader.cpp', 'src/mws/daemon/IndexQueryHandler.cpp', 'src/mws/daemon/HarvestQueryHandler.cpp'],
  mech=[('status checks', 'LevFormulaDb, LevCrawlDb'), ('counting', 'IndexBuilder / TmpIndex leaf solutions'), ('query path', 'handleQuery of the query handlers')],
  tech='failure injection by abstract interpretation of compiler IR', note='One failing LevelDB call at a time; LevelDB itself is trusted to report errors through Status.'),
 dict(id='O02', title='Errors while writing an answer are reported to the caller',
  statement='When any step of writing an answer document fails (creating the writer or output buffer, writing an element, attribute or text, writing to the output stream, including a short write), the formatter returns a negative value instead of success, whatever it does afterwards.',
  over=['fault_sequences'], qtext='each library call of each formatter failing, all paths from there to its return',
  why='The tests write to healthy streams and ignore the return value.',
  files=['src/mws/xmlparser/MwsXmlResponseFormatter.cpp', 'src/mws/xmlparser/MwsJsonResponseFormatter.cpp', 'src/mws/xmlparser/MwsIdsResponseFormatter.cpp', 'src/mws/xmlparser/SchemaXmlResponseFormatter.cpp', 'src/mws/xmlparser/SchemaJsonResponseFormatter.cpp'],
  mech=[('writer status', 'writeData of each response formatter'), ('short writes', 'the xmlOutputBufferCreateIO write callback')],
  tech='failure injection by abstract interpretation of compiler IR', note='One failing call at a time, all five formatters; libxml2 buffered errors are assumed to surface at the flush.'),
 dict(id='S04', title='No exception terminates a server or crosses a C library',
  statement='No exception thrown by the project (or by the number conversions and checked accesses it uses) propagates out of a function that a C library calls back (XML parser, HTTP server, thread start, download, query engine), out of a function that must not throw, or out of the main function of a program.',
  over=['inputs', 'fault_sequences'], qtext='every throwing construct on every call path to a callback, a non-throwing function or a program entry',
  why='One unexpected input or database failure then ends the process; the tests only use inputs which do not throw.',
  files=['src/mws/daemon/Daemon.cpp', 'src/mws/xmlparser/processMwsHarvest.cpp', 'src/mws/xmlparser/readMwsQuery.cpp', 'src/mws/query/engine.c', 'src/common/thread/ThreadWrapper.cpp', 'src/mws/mwsd.cpp', 'src/crawler/docs2harvest.cpp', 'src/crawler/harvests2json.cpp'],
  mech=[('callbacks', 'functions registered with libxml2, libmicrohttpd, libcurl, pthread_create and the query engine'), ('programs', 'main functions')],
  tech='interprocedural exception effect analysis over compiler IR', note='Effects are propagated over the whole call graph with handler types; memory exhaustion is excluded.'),
 dict(id='N01', title='Missing results are never used as if they were there',
  statement='When an operation yields no result (a null pointer from a library function or from a function of the project, or a lookup that finds nothing), the missing result is not dereferenced or passed on to something that requires a value, on any path. A member that is null until it is set up is not used before. Exhausted memory is exempt.',
  over=['inputs', 'fault_sequences'], qtext='each possibly missing result being missing, on every path from there, also through callers it is handed to',
  why='Missing files, attributes, elements and map entries depend on external data that the tests always supply.',
  files=['src/crawler/parser/MathParser.cpp', 'src/crawler/parser/XmlParser.cpp', 'src/crawler/harvests2json.cpp', 'src/crawler/docs2harvest.cpp', 'src/crawler/utils/MwsGetMath.cpp', 'src/crawler/crawler/MwsCrawler.cpp', 'src/mws/types/CmmlToken.cpp', 'src/mws/query/SearchContext.cpp', 'src/mws/daemon/Daemon.cpp'],
  mech=[('null results', 'every call of a nullable library function or project function'), ('failed lookups', 'find on maps and sets'), ('members set later', 'pointer members that the program compares with null')],
  tech='failure injection by abstract interpretation of compiler IR', note='One missing result at a time, all paths, followed into callers and callees; asserts are taken as stated invariants.'),
 dict(id='L01', title='Locks protect the data shared between threads',
  statement='Data kept next to a lock (the crawl queue, the thread counters and attributes) is only accessed by running threads while that lock is held, and an element is taken from a shared queue only after the queue was found non-empty under the same hold of the lock. Every lock taken is released on every path (also on early returns, failures and exceptions), never released when not held, never taken again by its holder, and nobody sleeps or waits for the network while holding one.',
  over=['schedules', 'fault_sequences'], qtext='every path of every thread entry, callback and program, with any called operation failing or throwing',
  why='A missing lock or unlock shows only under a particular interleaving or on an error path; the tests run one thread.',
  files=['src/crawler/types/SharedQueue.hpp', 'src/crawler/crawler/MwsCrawler.cpp', 'src/crawler/daemon/CrawlerDaemon.cpp', 'src/common/thread/ThreadWrapper.cpp', 'src/common/thread/ThreadWrapper.hpp', 'src/mws/xmlparser/processMwsHarvest.cpp', 'src/mws/xmlparser/readMwsQuery.cpp'],
  mech=[('crawl queue', 'SharedQueue.lock in MwsCrawler::run and the crawler daemon callbacks'), ('thread counters', 'ThreadWrapper::lock'), ('XML library lock', 'readMwsQuery, processMwsHarvest')],
  tech='lock typestate and guarded-data analysis over compiler IR', note='All paths from every entry; which lock guards which data is derived from being declared in the same class.'),
 dict(id='S01', title='Answering queries does not modify what concurrent requests share',
  statement='The query server answers each connection in its own thread with one shared query handler, index, dictionary and set of response formatters. Answering a request and writing its answer never modifies those shared objects nor any global or static variable unless a lock is held, and calls no library function that keeps its state for the whole process.',
  over=['schedules', 'inputs'], qtext='every store and library call on every path of answering a request and writing its answer',
  why='A data race needs two requests at one moment; the tests send one query at a time.',
  files=['src/mws/daemon/Daemon.cpp', 'src/mws/daemon/HarvestQueryHandler.cpp', 'src/mws/daemon/IndexQueryHandler.cpp', 'src/mws/daemon/SchemaQueryHandler.cpp', 'src/mws/dbc/MemFormulaDb.cpp', 'src/mws/dbc/MemCrawlDb.cpp', 'src/mws/query/SearchContext.cpp', 'src/mws/query/engine.c', 'src/common/types/IdDictionary.hpp'],
  mech=[('shared handlers', 'handleQuery of the query handlers'), ('shared formatters', 'writeData of the response formatters'), ('HTTP callbacks', 'accessHandlerCallback')],
  tech='interprocedural effect analysis over compiler IR', note='All paths to call depth 14; an address is shared if it is reached from the handler, formatter or a global, also through closures and iterators.'),
 dict(id='C01', title='The crawler queues only links which its filters admit',
  statement='A link found on a crawled page is queued only if the robots rules and the exclusions given by the user allow it, it is on the host of that page, and it was not queued before in this crawl. Every queued link is remembered before the next one is judged. The start URL is exempt.',
  over=['inputs', 'schedules'], qtext='every path from extracting the links of a page to queueing one',
  why='No test crawls a site; a dropped filter floods other hosts or disallowed pages, or never ends.',
  files=['src/crawler/crawler/MwsCrawler.cpp', 'src/crawler/types/Page.cpp', 'src/crawler/types/Robotstxt.cpp', 'src/crawler/types/SharedQueue.hpp'],
  mech=[('link filter', 'MwsCrawler::run'), ('robots rules', 'Robotstxt::allows'), ('host comparison', 'Page / WebAddress')],
  tech='path-sensitive guard analysis over compiler IR', note='All paths of the crawl loop; whether a rule textually matches a URL is not decided.'),
 dict(id='L03', title='Termination signals end the servers and are never lost',
  statement='The handlers that the servers install for SIGINT and SIGTERM only set a flag (or call functions that are safe in a handler), the flag is tested and waited for with the signals blocked and an atomic wait, so a signal that arrives at any moment ends the server, and the saved actions are restored for the signals they were saved for. Handlers of crash signals end the process.',
  over=['schedules', 'inputs'], qtext='every moment at which a signal can arrive, between any two operations of the server',
  why='A lost or deadlocking signal needs one specific moment; the tests send none.',
  files=['src/mws/mwsd.cpp', 'src/mws/schemad.cpp', 'src/crawler/crawlerd.cpp'],
  mech=[('termination flag', 'main of mwsd, schemad, crawlerd'), ('signal handlers', 'handlers registered with sigaction/signal')],
  tech='signal typestate and handler effect analysis over compiler IR', note='All paths of the three main functions and of every registered handler.'),
 dict(id='I01', title='A damaged or unfinished index image is rejected',
  statement='Loading an index image fails, without reading beyond the end of the file, if the file is too short for the header, has the wrong magic number or format version, claims more content than the file holds, has a stored checksum that differs from that of the content the header describes, places its root outside of the file, or was never completed; an intact image is accepted. A program whose index image was rejected exits with failure and neither serves nor searches it.',
  over=['inputs', 'crash_points'], qtext='every value of every header field and every file size, for each way in which an image can be damaged',
  why='The tests load one intact image; the searcher follows the image without further checks, so an accepted damaged image means reads at arbitrary addresses.', files=['src/mws/index/memsector.c', 'src/common/utils/mmap.c', 'src/mws/index/IndexLoader.cpp', 'src/mws/mwsd.cpp', 'src/mws/analytics/analytics.cpp'],
  mech=[('image loader', 'memsector_load'), ('index loader', 'IndexLoader constructor'), ('programs', 'mwsd, analytics')],
  tech='abstract interpretation of the loader on abstract images, over compiler IR', note='One abstract image per kind of damage, sizes near all limits; damage inside the content that keeps the 32-bit checksum is out of reach.'),
 dict(id='I03', title='An existing index is destroyed or overwritten only on request',
  statement='Unless the user asked for old data to be deleted, building an index never deletes, truncates or writes into any part of an existing index (databases, meaning dictionary, image): it fails instead. A program asks for old data to be deleted only when its option for that is given.',
  over=['inputs', 'histories'], qtext='every path of the index build with any step failing, and every combination of command line options without the deletion option',
  why='The tests always build into a fresh directory or always delete.', files=['src/mws/index/IndexWriter.cpp', 'src/mws/index/IndexWriter.hpp', 'src/mws/dbc/LevCrawlDb.cpp', 'src/mws/dbc/LevFormulaDb.cpp', 'src/mws/mwsd.cpp', 'src/mws/mws-index.cpp'],
  mech=[('index build', 'createCompressedIndex'), ('database creation', 'LevCrawlDb::create_new, LevFormulaDb::create_new'), ('programs', 'mwsd, mws-index')],
  tech='effect analysis of file operations by abstract interpretation of compiler IR', note='Parts of an index are those the index loader opens; names are followed through string operations.'),
 dict(id='I04', title='The header of an index image describes exactly what was written',
  statement='While an index image is written, its offset and checksum cover exactly the bytes written so far, in order, and nothing already written is overwritten. Completing the image writes at its start a header with the magic number, the version, the size of everything after the header, the checksum and the position of the root it was given, and closes the file.',
  over=['inputs', 'histories'], qtext='every sequence of writes of every size',
  why='The tests compare one small image; a size or checksum that is wrong only for some writes makes a finished index unloadable.', files=['src/mws/index/memsector.c', 'src/mws/index/memsector.h', 'src/mws/index/index.h'],
  mech=[('image writer', 'memsector_create / memsector_write / memsector_save and the node writers')],
  tech='symbolic linear forms in abstract interpretation of the writer functions', note='Invariant of each writer function for arbitrary sizes; that the content is a correct index is not decided.'),
 dict(id='I08', title='An interrupted index build is never taken for a complete index',
  statement='When an index is built over a previous one, the image of the previous index is deleted or truncated before any other part of it is deleted or overwritten, and the new image becomes valid only after all other parts were written and closed. Nothing is deleted, created or written after that, so a process killed at any moment leaves an index that is either complete or rejected; success is only reported with all parts written.',
  over=['crash_points', 'fault_sequences'], qtext='every prefix of every path of the index build, with and without deletion of old data',
  why='Needs a kill between two file operations.', files=['src/mws/index/IndexWriter.cpp', 'src/mws/index/memsector.c', 'src/mws/dbc/LevCrawlDb.cpp', 'src/mws/dbc/LevFormulaDb.cpp'],
  mech=[('index build', 'createCompressedIndex'), ('image completion', 'memsector_save')],
  tech='typestate over file operations by abstract interpretation of compiler IR', note='File operations are taken in program order; reordering by the operating system after a power failure is out of scope.'),
 dict(id='O03', title='A conversion whose output could not be written fails',
  statement='When creating, writing, flushing or closing its output file fails, a program that converts documents to harvests or harvests to JSON ends with a failure status. Where an output file that exists already is skipped as converted earlier, an output file that could not be completed is deleted.',
  over=['fault_sequences'], qtext='every library call on an output file failing, on every path of both programs',
  why='A full disk is not something a unit test arranges; the truncated result of a silent failure is indexed, or never converted again.', files=['src/crawler/docs2harvest.cpp', 'src/crawler/harvests2json.cpp', 'src/common/utils/util.cpp'],
  mech=[('programs', 'docs2harvest and harvests2json: main'), ('record writer', 'writeParseResultToFile'), ('directory walk', 'foreachEntryInDirectory')],
  tech='failure injection by abstract interpretation of compiler IR', note='Failures are those the C library reports; that a stream keeps its error indicator is assumed.'),
 dict(id='S05', title='A program that cannot start ends with a failure status',
  statement='A program whose command line is invalid ends with a failure status. So does a server that cannot redirect its output, detach, write its process id file, create its worker thread or open its port, without waiting for requests. A server only listens on a port between 1 and 65535.',
  over=['inputs', 'fault_sequences'], qtext='each start-up step failing, on every path of every program; every number given as port',
  why='Supervisors and scripts rely on the status; the tests never start a server whose port is taken or whose log file cannot be opened.', files=['src/mws/mwsd.cpp', 'src/mws/schemad.cpp', 'src/crawler/crawlerd.cpp', 'src/mws/daemon/Daemon.cpp', 'src/common/thread/ThreadWrapper.cpp', 'src/common/utils/save_pid_file.c'],
  mech=[('programs', 'main of mwsd, schemad, crawlerd, mws-index, analytics, docs2harvest, harvests2json'), ('server start', 'Daemon and CrawlerDaemon'), ('threads', 'ThreadWrapper::run')],
  tech='failure injection and interval analysis by abstract interpretation of compiler IR', note='Failures of signal set-up and of mutex creation are not considered.'),
 dict(id='Q01', title='Encoded formulas are well formed',
  statement='Encoding a formula emits exactly one token per node, parents before children and children in order. Its arity is the number of children for a constant and 0 for a variable or a range, which are leaves whatever they contain. The ids of named variables, anonymous variables, ranges and constants are kept apart, those of variables also between queries and indexed formulas, and each is recognised as what it is; a formula that does not fit, or a query with an unknown symbol, is refused.',
  over=['inputs'], qtext='every formula of every size and shape, encoded for indexing and for querying',
  why='The index and both search engines walk token sequences by arity alone: one wrong token corrupts the index or reads beyond it. Tests encode a few small formulas.', files=['src/mws/index/ExpressionEncoder.cpp', 'src/mws/index/encoded_token.h', 'src/mws/types/CmmlToken.cpp'],
  mech=[('encoding', 'ExpressionEncoder::encode'), ('offsets per kind', 'HarvestEncoder and QueryEncoder'), ('classification', 'encoded_token_is_var, _is_range, _is_anon_var')],
  tech='abstract interpretation of compiler IR with bit fields, intervals and a typestate per node', note='Renaming of identifiers is not part of the property.'),
 dict(id='Q02', title='A symbol keeps its number',
  statement='The dictionary of meanings gives a new meaning the next unused number and a known meaning the number it was given first, never the number that stands for unknown meanings; looking a meaning up changes nothing. A dictionary that is saved and loaded again numbers all its meanings as before. Encoders, decoder and reverse table shift these numbers alike, and encoding a query adds no meanings.',
  over=['inputs', 'histories'], qtext='every sequence of insertions and look-ups, and every saved dictionary',
  why='Every hit depends on a symbol having the same number at indexing time, in the saved index and at query time; tests insert a handful of keys.', files=['src/common/types/IdDictionary.hpp', 'src/mws/index/ExpressionEncoder.cpp'],
  mech=[('numbering', 'IdDictionary::put and get'), ('saving and loading', 'IdDictionary::save and its constructor'), ('reverse table', 'IdDictionary::getReverseLookupTable')],
  tech='abstract interpretation of compiler IR with linear forms', note='Meanings are assumed to be non-empty and free of the separator byte.'),
 dict(id='X01', title='Every nesting of elements of a harvest or query is read as the format says',
  statement='Each formula directly below an expression element of a harvest or query becomes one tree with the elements, text and attributes of the document; at its end it is handed over exactly once, in a harvest with the URL and data id given by its own expression element. A data element is copied with everything in it and handed over exactly once if data is wanted; any other element is skipped with all its content and reading resumes after it. After an XML error nothing more of a harvest is handed over, and no nesting of elements ends the program.',
  over=['inputs'], qtext='every document, with any nesting and order of known and unknown elements and with errors anywhere',
  why='Harvests come from crawled pages and queries from clients. One wrong state or depth of the hand-written state machines mixes formulas or loses the rest of a harvest; tests read a few clean documents.', files=['src/mws/xmlparser/processMwsHarvest.cpp', 'src/mws/xmlparser/readMwsQuery.cpp'],
  mech=[('harvest reader', 'callbacks registered by processHarvestFromFd'), ('query reader', 'callbacks registered by readMwsQuery')],
  tech='abstract interpretation of compiler IR: fixpoint of the callbacks over abstract document positions', note='Attribute lists are analysed up to three attributes; everything else is for all depths and lengths.'),
 dict(id='Q03', title='Answers are rendered by a formatter made for them and for the requested format',
  statement='The formatter of a query, by default or by the output format the query asks for, is always one made for the answers of the server that handles it. A request for xml or json is answered in that format, and the content type sent with an answer is the one of the text that was written.',
  over=['inputs'], qtext='every query document and output attribute, on every server',
  why='Formatters cast the answer to the type they expect: the wrong one reads foreign memory. The choice depends on the parser mode, defaults and attribute together, in three servers.', files=['src/mws/xmlparser/readMwsQuery.cpp', 'src/mws/daemon/Daemon.cpp', 'src/mws/xmlparser/MwsXmlResponseFormatter.cpp', 'src/mws/xmlparser/SchemaJsonResponseFormatter.cpp'],
  mech=[('choice', 'start element callback of readMwsQuery and its default'), ('mode', 'accessHandlerCallback'), ('content type', 'getContentType of each formatter')],
  tech='abstract interpretation of compiler IR: values of function and vtable pointers, type of the casts', note=''),
 dict(id='Q04', title='A malformed or empty query is refused',
  statement='When the body of a request is not a well-formed document, wherever the error is, or contains no formula, no query handler sees it and the client receives a client error status. A well-formed document always yields a query.',
  over=['inputs'], qtext='every request body, with an error at any position',
  why='A partly read query would be answered as if it were the whole one. Tests send one malformed document.', files=['src/mws/xmlparser/readMwsQuery.cpp', 'src/mws/daemon/Daemon.cpp'],
  mech=[('error state', 'callbacks registered by readMwsQuery'), ('refusal', 'accessHandlerCallback')],
  tech='abstract interpretation of compiler IR: fixpoint over callbacks and paths of the access handler', note='The XML library is trusted to report errors to the callback.'),
 dict(id='I05', title='A recorded hit is read back from the index databases as it was recorded',
  statement='While harvests are indexed into the databases of an index, each recorded hit carries the URI and page data id of its expression and the XPath of the indexed subexpression, is stored under the number of its formula, and is counted once in the hits of that formula. Reading the hits of a formula gives exactly its own hits after the requested number of skipped ones and up to the requested limit, each with the URI, XPath and page data it was recorded with. Each becomes one answer with these values; a hit that cannot be reported is an error.',
  over=['inputs', 'histories'], qtext='every value of the recorded strings and numbers, every number of hits skipped and wanted',
  why='The answers of a server come from these databases, never from the harvests. A wrong offset, key or field attaches results to the wrong page; tests store a few short strings.', files=['src/mws/dbc/LevFormulaDb.cpp', 'src/mws/dbc/LevCrawlDb.cpp', 'src/mws/dbc/DbQueryManager.cpp', 'src/common/types/Parcelable.cpp', 'src/mws/types/FormulaPath.hpp', 'src/mws/index/IndexBuilder.cpp'],
  mech=[('recording', 'IndexBuilder::indexContentMath, HarvestIndexer::processData'), ('stored record', 'LevFormulaDb::insertFormula, LevCrawlDb::putData'), ('read record', 'DbQueryManager::query'), ('answer', 'callbacks given to DbQueryManager::query')],
  tech='abstract interpretation of compiler IR: symbolic strings and linear byte positions of records, from what is stored to what is reported', note='Reading is analysed for up to three stored hits, two skipped and five wanted; LevelDB is trusted to iterate in key order. The in-memory databases are not covered.'),
 dict(id='Q05', title='A page of results holds exactly the hits that were asked for',
  statement='Hits are counted in the order in which matching formulae are found. For each matching formula the databases are asked for exactly those of its hits whose position lies between the offset and the offset plus the size of the query (the numbers of its attributes limitmin and answsize), and below the limit of hits to count: none of the page is left out and none outside it is asked for, with either query engine. The reported total grows by the hits of each formula up to that limit.',
  over=['inputs'], qtext='every offset, size and limit of a query, every number of hits before and of a formula',
  why='Clients page through results: one off-by-one repeats or loses hits at each page that starts or ends within the hits of a formula. The bounds interact in unsigned arithmetic; tests use the first page.', files=['src/mws/query/SearchContext.cpp', 'src/mws/daemon/IndexQueryHandler.cpp', 'src/mws/daemon/HarvestQueryHandler.cpp'],
  mech=[('search loop', 'SearchContext::getResult'), ('experimental engine', 'result_callback of IndexQueryHandler'), ('limits', 'handleQuery of the index and harvest handlers')],
  tech='abstract interpretation of compiler IR with linear inequalities over offset, size, limit and hit counts', note='Which formulae match is not part of this property.'),
 dict(id='S06', title='Requests and answers are taken and sent whole, however many pieces they come in',
  statement='Every byte of a request body that a server reports as processed has been stored, in order and once, also when storing it succeeds only in part; the body is then read, and a written answer sent, with its full length. A form value that arrives in several pieces is kept as their concatenation, within its buffer and terminated, or not at all: the tail of a value never stands for the value, and no byte beyond a piece is read. A crawl request whose connection was aborted is not carried out.',
  over=['inputs', 'schedules', 'fault_sequences'], qtext='every split of a body or form value into pieces, every outcome of a write, every moment of an abort',
  why='How a request is cut into pieces depends on network timing and its size, so a mistake loses or garbles some requests only: long queries, values at a buffer boundary, slow clients. Tests send each request in one piece.', files=['src/mws/daemon/Daemon.cpp', 'src/crawler/daemon/CrawlerDaemon.cpp'],
  mech=[('upload calls', 'access handlers passed to MHD_start_daemon'), ('form values', 'iterator passed to MHD_create_post_processor'), ('aborts', 'completion callbacks'), ('memory streams', 'MemStream in Daemon.cpp')],
  tech='abstract interpretation of compiler IR with linear arithmetic over piece offsets and sizes and the outcomes of partial writes', note='What the formatters write into an answer is not part of this property.'),
 dict(id='C02', title='What the crawler finds is stored once and completely, or kept',
  statement='The formulae found on a crawled page are kept until a file that holds each of them was written and closed without error, and a crawl does not end without having tried to store them. Every pack is stored in a new file: a file that exists is never overwritten, and one that could not be completed is deleted. A page whose download failed contributes nothing of what was received of it, neither then nor to a later attempt.',
  over=['inputs', 'faults', 'histories'], qtext='every crawl, every number of formulae per page, every outcome of a download and of opening, writing and closing a file',
  why='A full disk, two packs stored within a second, or a connection that breaks half way lose or mix formulae silently; tests would have to provoke each of them.',
  files=['src/crawler/crawler/MwsCrawler.cpp', 'src/crawler/utils/Page.cpp'],
  mech=[('packs', 'Crawler::addMath, Crawler::storeMath, Crawler::start, ~Crawler'), ('downloads', 'Page::downloadContent, Page::downloadHeader')],
  tech='typestate by abstract interpretation of compiler IR over the formulae held, the files written and the outcomes of downloads', note='Which formulae are found on a page is not part of this property. What a crawler holds when storing fails again at its end is lost.'),
 dict(id='I07', title='Nodes of the index are read and walked as they were written',
  statement='The entries of a node of an index image are read in the layout (short or long offsets) that the node announces and are written in that layout; short offsets are used only when they fit, and long ones are never cut. A loop over the entries of a node visits each of them once, from the first to the last that the node has; the search for an entry covers all of them and follows the order the entries are written in. An offset leads to the child it was written for: it counts from the node it was read from, in the same unit in which it was written.',
  over=['inputs'], qtext='every index image, every size of node and image, and every query',
  why='Long offsets occur only in images of more than 16 GB and large nodes only with large dictionaries; tests cover neither, and a walk that skips an entry silently loses results.',
  files=['src/mws/index/index.h', 'src/mws/index/memsector.h', 'src/mws/index/IndexAccessor.hpp', 'src/mws/index/TmpIndex.cpp', 'src/mws/types/VectorMap.hpp', 'src/mws/query/engine.c'],
  mech=[('layouts', 'memsector_write_inode_begin, memsector_write_inode_encoded_token_entry, IndexAccessor'), ('walks and searches', 'match_var_to_index, inode_get_child, inode_long_get_child, inode_get_max_var, VectorMap')],
  tech='dataflow of node types, loop and offset analysis over compiler IR; abstract interpretation of the node writer', note='Whether every child of a node is written, and in which order nodes are written, is not part of this property.'),
 dict(id='B01', title='Fixed-size tables and buffers are never overrun',
  statement='No access to a table or buffer of fixed size lies beyond its end: this holds for the token stacks and the table of variable instantiations of the query engine, for the list of excluded addresses in the crawler, and for every character buffer of fixed size that a library function fills. A query, document or request that needs more room than there is is refused or cut instead.',
  over=['inputs'], qtext='every query, index, request and file',
  why='An overrun corrupts the daemon silently; the limits (512 tokens, 128 variables, 128 addresses) are far above what tests send.',
  files=['src/mws/query/engine.c', 'src/mws/query/engine.h', 'src/crawler/daemon/CrawlerDaemon.cpp', 'src/crawler/types/Robotstxt.cpp', 'src/common/utils/util.cpp', 'src/common/utils/getSockAddrLog.cpp', 'src/common/utils/TimeStamp.hpp', 'src/common/socket/OutSocket.cpp'],
  mech=[('stacks and instantiations', 'token_stack_push, token_stack_pop, query_engine_run, match_var_to_index, match_var_to_stack'), ('addresses', 'cd_IteratePostRequest')],
  tech='interval analysis (upper bounds) with field invariants over compiler IR', note='Only the upper end is decided; pointers that walk through a table and memory of computed size are not judged.'),
 dict(id='O01', title='Text put into XML or JSON is encoded for it, exactly once',
  statement='Every text from outside (page addresses, ids, document text, metadata, token text, document ids of harvests) that the programs put between tags, into an attribute value or into a JSON string is encoded for that place first, exactly once. The encoders written by hand replace every character that has a meaning there and no other character changes, so a reader gets the original text back.',
  over=['inputs'], qtext='every page, document, harvest and query',
  why='One unescaped & or quote makes a whole harvest or bulk file unreadable, or lets a page inject formulas; tests use tame text.',
  files=['src/crawler/parser/MathParser.cpp', 'src/crawler/parser/XmlParser.cpp', 'src/crawler/utils/MwsGetMath.cpp', 'src/crawler/harvests2json.cpp', 'src/common/utils/util.cpp', 'src/mws/types/CmmlToken.cpp', 'src/mws/xmlparser/processMwsHarvest.cpp'],
  mech=[('harvest elements', 'createHarvestFromDocument, escapeXml'), ('crawled formulas', 'get_math_html, get_math_xhtml'), ('bulk file', 'writeParseResultToFile, escapeJsonString'), ('tokens', 'CmmlToken::toString'), ('harvest data', 'my_characters')],
  tech='provenance analysis of text pieces over compiler IR, with a context automaton and per-character evaluation of encoders', note='Output made through the XML writer and JSON libraries is encoded by them; markup copied verbatim out of a page is taken as it is.'),
]
