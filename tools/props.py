"""The properties and how each is decided (see gen.py)"""

NOT_APPLICABLE = {}

PROPS = []


def prop(*args, **kws):
    kws.update(zip(('id', 'title', 'statement'), args))
    PROPS.append(kws)


prop(
    id='C01',
    title='The buffered pipe is a bounded FIFO byte stream',
    statement='Whatever sequence of reads, writes, flushes, EOFs and closes is'
    ' performed on the pipe, the bytes read are exactly the bytes accepted'
    ' from writers, in order, without loss, duplication or corruption.  The'
    ' buffer never exceeds its bound, would-block, timeout and end of file are'
    ' reported exactly when they apply, and reading operations that match,'
    ' count or drain the data return what a plain byte queue would.  A stream'
    ' wrapped to make it seekable reads and seeks like a file of the same'
    ' content.',
    over=['histories', 'inputs'],
    text='All operation histories to depth 4-6 over a menu of ~20 calls, '
    'buffer sizes 1-4 and blocking/non-blocking modes; wrapper: all sources, '
    'read/seek histories to depth 4',
    why='The tests drive a few fixed conversations; the buffering logic has '
    'separate paths for split chunks, partial writes, consolidation and EOF '
    'that only meet in particular histories',
    files=['pyslet/streams.py'],
    mechanism=[('bounded deque of chunks', 'Pipe.write, Pipe.readinto'),
               ('match buffer consolidation', 'Pipe.readmatch'),
               ('EOF marker', 'Pipe.write_eof'),
               ('seekable wrapper', 'BufferedStreamWrapper')],
    technique='bounded-exhaustive model checking of the implementation '
    'against a byte-queue model',
    level='model_checking',
    level_note='Exhaustive to the stated depth and sizes, on the real code; '
    'longer histories and larger buffers are not covered.')

prop(
    id='C02',
    title='Concurrent pipe users never lose data, deadlock or wake too late',
    statement='With readers, writers, waiters and closers in different threads'
    ' sharing one pipe, every schedule delivers the written bytes in order,'
    ' and every blocked operation completes as soon as data, space, EOF, close'
    ' or its timeout permits.  No schedule deadlocks, reports a timeout early,'
    ' or misses a wake-up.',
    over=['schedules'],
    text='All schedules of 26 scenarios with 2-3 threads up to 3 preemptions '
    'at synchronisation points and 1 preemption at any line of the code, with '
    'virtual time',
    why='Tests run each concurrent conversation once or a few times under the '
    'operating system scheduler',
    files=['pyslet/streams.py'],
    mechanism=[('condition variable and notification',
                'Pipe.read_wait, Pipe.write_wait'),
               ('read event', 'Pipe.set_rflag'),
               ('time limits', 'Pipe._wait helpers')],
    technique='stateless model checking: preemption-bounded exploration of '
    'thread schedules of the real code',
    level='model_checking',
    level_note='Exhaustive within preemption bounds for the listed '
    'scenarios, under a controlled scheduler with virtual time; assumes '
    'context switches inside a line of Python do not matter.')

prop(
    id='C03',
    title='Stored streams behave as files and never lose or leak blocks',
    statement='A stream opened from a stream store reads, writes, seeks and'
    ' truncates like a file of the same content in each access mode, and what'
    ' was written is there when it is reopened, with the recorded size,'
    ' modification data and digest matching the content.  Content is split'
    ' into content-addressed blocks which are shared but are kept as long as'
    ' any stream uses them, and removed when none does.',
    over=['histories'],
    text='All operation histories to depth 3-6 on 1-2 streams, block size 3, '
    'over dictionary, file, in-memory EDM and SQLite block stores',
    why='Tests write and read back a few fixed contents; block boundaries, '
    'sharing, reopening and seeking interact only in particular histories',
    files=['pyslet/blockstore.py'],
    mechanism=[('block list rewriting', 'BlockStream.write/flush/close'),
               ('reference counting by query', 'StreamStore.delete_block'),
               ('content addressing', 'BlockStore.key')],
    technique='bounded-exhaustive model checking of the implementation '
    'against an in-memory file model',
    level='model_checking',
    level_note='Exhaustive to the stated depth on the real code over four '
    'kinds of block store; single process, no faults.')

prop(
    id='C04',
    title='The lock store gives mutual exclusion between its users',
    statement='At most one owner at a time holds the lock on a key within its'
    ' validity period, whichever way the owners\' steps interleave, and an'
    ' expired lock is taken over by exactly one waiter.  Releasing never'
    ' removes somebody else\'s lock, waiters get the lock once it is free or'
    ' give up at their timeout, and locks on different keys do not interfere.',
    over=['schedules'],
    text='All schedules of 10 scenarios with 2-3 owners up to 2 deviations at '
    'synchronisation and back-off points and 1 at any line, with virtual time',
    why='The tests use single threads and real time; takeover and release '
    'races need particular interleavings at the expiry time',
    files=['pyslet/blockstore.py', 'pyslet/odata2/sqlds.py'],
    mechanism=[('insert as test-and-set', 'LockStore.lock'),
               ('optimistic concurrency on takeover', 'LockStore.lock, '
                'SQLEntityCollection.update_entity_sql'),
               ('owner check', 'LockStore.unlock')],
    technique='stateless model checking: deviation-bounded exploration of '
    'thread schedules of the real code',
    level='model_checking',
    level_note='Exhaustive within the bounds for the listed scenarios; '
    'clocks of all owners agree; expiry takeover is checked over SQLite '
    'because the in-memory service has no optimistic concurrency.')

prop(
    id='C05',
    title='ISO 8601 dates agree with the Gregorian calendar in every form',
    statement='Every date of years 1-9999 converts exactly between its'
    ' calendar, ordinal, week, day-number, Julian and string forms, dates are'
    ' ordered and offset as in the proleptic Gregorian calendar, and strings'
    ' that do not denote a date are rejected.  Truncated strings denote the'
    ' earliest matching date on or after the base date.',
    over=['inputs'],
    text='All 3652059 days; all digit combinations of each date format for '
    'chosen years; all truncated forms against 78 base days; all strings to '
    'length 5 over a small alphabet',
    why='Tests use a few dozen dates; leap years, week years and roll-over '
    'rules are wrong only on particular days',
    files=['pyslet/iso8601.py'],
    mechanism=[('day arithmetic', 'Date._set_from_absolute_day, '
                'Date.get_ordinal_day, Date.get_week_day'),
               ('truncation', 'Date._set_from_*'),
               ('parser', 'ISO8601Parser.parse_date_format')],
    technique='exhaustive enumeration of inputs against an independent model',
    level='model_checking',
    level_note='All days of the calendar; strings exhaustive over the stated '
    'ranges of component values; trailing characters not judged.')

prop(
    id='C06',
    title='ISO 8601 times, zones, time points and durations are exact',
    statement='Every time of day, zone offset and time point parses, formats,'
    ' compares, hashes, offsets and converts to Unix time and between zones'
    ' as the instant it denotes, with overflow into days reported exactly.'
    '  Truncated times denote the first match at or after their base,'
    ' durations round-trip component by component, and malformed or'
    ' inconsistent strings are rejected.',
    over=['inputs'],
    text='All 86400 seconds; 599x31 zone pairs; all component values of each '
    'time format with fractions and zones; truncated forms against 80 bases; '
    'all subsets of duration components',
    why='Tests use a few dozen values; rollover, fractions, reduced precision '
    'and zone combinations fail only at particular values',
    files=['pyslet/iso8601.py'],
    mechanism=[('time arithmetic', 'Time.offset, Time.shift_zone, '
                'Time.extend'),
               ('comparison in UTC', 'TimePoint.sortkey'),
               ('parser', 'ISO8601Parser.parse_time_format, '
                'parse_duration')],
    technique='exhaustive enumeration of inputs against an independent model',
    level='model_checking',
    level_note='Exhaustive over the stated ranges; fractions with up to three '
    'decimal places; trailing characters not judged.')

prop(
    id='C07',
    title='URIs and URNs parse into their components, compare and escape correctly',
    statement='Every valid URI reference is split into exactly the scheme,'
    ' authority, path, query and fragment the URI specification defines and'
    ' formats back to itself; invalid ones are refused.  Canonical forms are'
    ' stable and two URIs (or URNs) are equal, hash alike and sort alike'
    ' exactly when their canonical forms are identical: scheme, host and'
    ' namespace case, default ports and unnecessary escapes never matter, and'
    ' no other component is ignored.  Escaping any octets and unescaping them'
    ' returns the octets, and leaves no character that is not allowed.',
    over=['inputs'],
    text='All strings of up to 6 characters over the URI delimiters, 24,052 '
    'compositions of components, all pairs of a subset, all octet pairs',
    why='The tests list examples from the RFC; the parser is a hand-written '
    'state machine whose corners are combinations of empty components',
    files=['pyslet/rfc2396.py', 'pyslet/urn.py', 'pyslet/http/params.py'],
    mechanism=[('URI state machine', 'URI.parse_scheme_specific_part'),
               ('canonical comparison', 'URI._pre_cmp, canonicalize'),
               ('escaping', 'escape_data, unescape_data')],
    technique='bounded-exhaustive enumeration of inputs to the '
    'implementation against a model built from the RFC grammar',
    level='model_checking',
    level_note='Exhaustive to the stated lengths and menus, on the real '
    'code; the model is the regular expression of RFC2396 appendix B.')

prop(
    id='C08',
    title='Relative URIs resolve as specified and relativising is the inverse',
    statement='Resolving a reference against a base gives the URI RFC2396'
    ' section 5.2 defines, resolving in one step or through an intermediate'
    ' relative URI gives the same answer, and expressing a URI relative to a'
    ' base and resolving the result against that base returns the URI.  It is'
    ' refused exactly when no such relative form exists.  File paths convert'
    ' to file URLs and back without change.',
    over=['inputs'],
    text='All pairs of bases and references composed of up to 3 path '
    'segments (4 in the thorough run) with authorities, queries, fragments',
    why='The tests use one base URI; segments that are empty, contain '
    'colons, or climb with dots only interact in other pairs',
    files=['pyslet/rfc2396.py'],
    mechanism=[('resolution', 'URI.resolve, normalize_segments'),
               ('relativising', 'URI.relative, _relativize_segments')],
    technique='bounded-exhaustive enumeration of inputs to the '
    'implementation against the RFC algorithm as string rewriting and '
    'algebraic laws',
    level='model_checking',
    level_note='Exhaustive over the stated segments and lengths, on the '
    'real code.')

prop(
    id='C09',
    title='Character classes behave as sets and the basic parser as a cursor',
    statement='A character class holds exactly the characters added and not'
    ' subtracted, whatever the history of additions, subtractions, unions and'
    ' negations of characters, ranges and classes; it tests, compares, prints'
    ' as a regular expression and copies as that set, and changing a copy'
    ' never changes the original.  The Unicode categories partition the code'
    ' points.  Every parse operation of the basic parser consumes exactly'
    ' what it returns and moves nothing when it fails, over text or bytes.',
    over=['histories', 'inputs'],
    text='All subsets of 8 consecutive code points at 6 places x every '
    'operation (a closed state space), 2048 subsets as regular expressions, '
    'every code point, all parser histories of 2-3 operations',
    why='Range splitting and merging has a case for each way two ranges can '
    'touch; tests try some of them, once each',
    files=['pyslet/unicode5.py'],
    mechanism=[('sorted range list', 'CharClass.add_range, subtract_range'),
               ('block cache', 'CharClass.test'),
               ('cursor', 'BasicParser.setpos, parse_production')],
    technique='explicit-state exploration of the implementation to closure '
    'over a window of code points, against sets; bounded histories of the '
    'parser against a cursor model',
    level='model_checking',
    level_note='Closed under every history within each window because the '
    'representation is checked to be canonical; on the real code.')

prop(
    id='C10',
    title='Virtual file paths follow path algebra and the memory file system is a tree',
    statement='Joining, splitting, normalising and making paths absolute'
    ' agree with POSIX path semantics in every file system, for text and byte'
    ' paths, and paths convert to file URLs and back unchanged.  The'
    ' in-memory file system behaves as a tree of directories and files under'
    ' any history of operations: files exist only in directories, reading'
    ' returns what was last written, missing files do not open, listings'
    ' and queries agree with the tree, removal removes all and only what was'
    ' named, failed operations change nothing and open files are protected.',
    over=['histories', 'inputs'],
    text='Path strings over 4 characters to length 8, pairs to length 3; '
    'file system: all model states within 4 operations x 80 operations',
    why='Tests follow one script per method; path normalisation and tree '
    'changes interact through the working directory and dot segments',
    files=['pyslet/vfs.py'],
    mechanism=[('path algebra', 'VirtualFilePath.join, split, normpath'),
               ('dictionary of canonical paths', 'MemFilePath._fsdir'),
               ('open file protection', 'MemFile.is_open')],
    technique='explicit-state exploration of a tree model, every transition '
    'replayed on the implementation; bounded-exhaustive path strings '
    'against posixpath',
    level='model_checking',
    level_note='Exhaustive to the stated depth and lengths on the real '
    'code.  Moving and walking are not implemented for memory files.')

prop(
    id='C11',
    title='HTTP message bodies are framed and decoded exactly',
    statement='A message sent and received through the HTTP message classes'
    ' arrives with the same start line, headers and entity body whatever its'
    ' framing (Content-Length, chunked, gzip, delimited by close), however'
    ' the reads and writes are split and wherever a pipe blocks.  No more'
    ' bytes are consumed than belong to the message.  A message cut short is'
    ' never taken for a complete one, and malformed lengths, chunks, codings'
    ' and start lines are reported as protocol errors.',
    over=['inputs', 'histories', 'faults'],
    text='All combinations of framings x bodies x split points x truncation '
    'points x blocking patterns up to 3-4 deviations; menus of malformed '
    'headers and chunks',
    why='Framing code is a state machine driven by how the network splits '
    'the data; tests feed whole messages',
    files=['pyslet/http/messages.py', 'pyslet/http/params.py'],
    mechanism=[('transfer state machine', 'messages.Message.recv, '
                'send_body'),
               ('chunked coding', 'messages.ChunkedReader'),
               ('content length', 'messages.Message.recv_transferlength')],
    technique='exhaustive enumeration of framings, split points, truncations '
    'and blocking patterns run on the implementation against an independent '
    'framing model',
    level='model_checking',
    level_note='Exhaustive within the stated menus and deviation bounds, on '
    'the real code.')

prop(
    id='C12',
    title='Every HTTP request gets its own complete response or reports a failure',
    statement='However the network fragments, delays, drops or closes the'
    ' connection, each request handled by the HTTP client ends exactly once,'
    ' with the status, headers and body the server sent for it or with an'
    ' error; a truncated response is never presented as complete; responses'
    ' on a kept alive or pipelined connection are never crossed; requests'
    ' that are not idempotent are not silently repeated after the server may'
    ' have acted on them; time limits are respected; redirections and'
    ' authentication challenges are followed as HTTP requires and credentials'
    ' are only sent within the protection space they were given for.',
    over=['faults', 'histories', 'inputs'],
    text='Every single fault (close, reset, stall) at every byte and '
    'combinations of deviations up to the bound over one- to three-request '
    'conversations; menus of redirects, challenges and credentials',
    why='Tests talk to a friendly server over loopback; the failure paths '
    'depend on the exact byte at which the connection breaks',
    files=['pyslet/http/client.py', 'pyslet/http/messages.py',
           'pyslet/http/auth.py'],
    mechanism=[('connection task loop', 'client.Connection.connection_task'),
               ('retry decision', 'client.ClientRequest.disconnect'),
               ('redirect and authorisation', 'client.ClientRequest.response_finished, '
                'ClientResponse')],
    technique='stateless model checking of the real client against a '
    'scripted server over simulated sockets and virtual time, '
    'deviation-bounded',
    level='model_checking',
    level_note='Exhaustive within the deviation bound for the stated '
    'conversations; TLS is not covered.')

prop(
    id='C13',
    title='The HTTP connection pool never loses, shares or leaks connections',
    statement='With several threads sending requests through one client,'
    ' every request is answered, no connection is used by two threads at'
    ' once, no more connections exist than allowed, waiting threads proceed'
    ' as soon as a connection is free, and closing the client or killing idle'
    ' or active connections neither loses requests silently nor leaves'
    ' connections open or the client stuck, under every schedule.',
    over=['schedules'],
    text='All schedules of scenarios with 2-3 threads up to the preemption '
    'bound, at synchronisation points and at lines of the pool code',
    why='Races between taking, returning, killing and closing connections '
    'need particular interleavings',
    files=['pyslet/http/client.py'],
    mechanism=[('pools of idle and active connections',
                'client.Client.next_connection, _idle, cActiveThreadTargets'),
               ('killing connections', 'client.Client.idle_cleanup, '
                'active_cleanup, close')],
    technique='stateless model checking: preemption-bounded exploration of '
    'the schedules of the real pool under a controlled scheduler',
    level='model_checking',
    level_note='Exhaustive up to the preemption bound; the connections '
    'themselves are stand-ins (C12 covers the real ones).')

prop(
    id='C14',
    title='The HTTP server answers each request once, in order, with the right data',
    statement='For every sequence of requests on a connection, however the'
    ' bytes are split and the threads of the server interleave, each complete'
    ' well-formed request reaches the WSGI application once with its own'
    ' method, path and body, and gets exactly one response, in order and'
    ' correctly framed.  A failing application or malformed or truncated'
    ' request yields an error response or a closed connection, never a'
    ' response that looks complete, and never data of a truncated body passed'
    ' off as the whole.  Results are closed, connections end when either side'
    ' says so, and no thread or connection is left behind when the client'
    ' hangs up at any point.',
    over=['schedules', 'faults', 'histories', 'inputs'],
    text='All pairs of ~150 request/application kinds, splits and truncation '
    'at every byte, hang-up at every byte, and all schedules up to the '
    'preemption bound at synchronisation points and lines of the server',
    why='Three threads cooperate on every request through pipes and events; '
    'tests see one schedule and polite clients',
    files=['pyslet/http/server.py', 'pyslet/http/messages.py',
           'pyslet/streams.py'],
    mechanism=[('receive loop', 'server.Connection.handle_requests'),
               ('response queue', 'server.Connection.handle_responses'),
               ('application thread', 'server.ServerResponse.launch_app')],
    technique='stateless model checking of the real server over a simulated '
    'socket under a controlled scheduler; exhaustive fault points',
    level='model_checking',
    level_note='Exhaustive within the stated pipelines and preemption '
    'bounds, on the real code with virtual time.')

prop(
    id='C15',
    title='Entities and links of a data store follow the entity model',
    statement='For the in-memory and SQL (SQLite) data services: after any'
    ' history of inserts, updates, deletes, deep inserts and additions,'
    ' removals and replacements of links, the entities and the links between'
    ' them are exactly those of a relational model: keys are unique, both'
    ' ends of an association agree, links only join entities that exist, the'
    ' multiplicity of each end is respected (0..1-0..1 is not supported by'
    ' SQL), deleting an entity removes its links and cascades to the'
    ' entities that require it, lookup, membership, length and expansion'
    ' agree, and an operation that fails changes nothing.',
    over=['histories', 'states'],
    text='All reachable states of two entity sets with two keys each for all '
    '27 (24 for SQL) associations, every operation from every state',
    why='Failures depend on the combination of multiplicities, '
    'navigation properties, what is already linked and how',
    files=['pyslet/odata2/csdl.py', 'pyslet/odata2/memds.py',
           'pyslet/odata2/sqlds.py'],
    mechanism=[('in-memory store', 'memds.InMemoryEntityStore'),
               ('association index', 'memds.InMemoryAssociationIndex'),
               ('SQL inserts', 'sqlds.SQLEntityCollection.insert_entity_sql'),
               ('SQL navigation', 'sqlds.SQLForeignKeyCollection')],
    technique='explicit-state exploration of the real data stores from every '
    'reachable state against a relational model',
    level='model_checking',
    level_note='Closure of the reachable states of the real stores, two keys '
    'per set; SQL through SQLite.')

prop(
    id='C16',
    title='A change to an SQL data service is all or nothing',
    statement='Whichever call to the database fails while an entity is'
    ' inserted, updated or deleted or a link is made, replaced or removed'
    ' (including deep inserts and cascading deletes), and whether the call'
    ' is refused, fails once, the connection is lost or only the reply is'
    ' lost: an operation that raises leaves the database as it was (unless'
    ' the reply to the final commit was lost), one that returns has made the'
    ' complete change, no transaction or lock is left behind and the service'
    ' can still be used.',
    over=['faults', 'histories'],
    text='Every failure kind at every statement and commit of every '
    'operation in every reachable state of two linked entity sets',
    why='One operation is several statements in nested transactions over '
    'shared connections; tests do not inject failures',
    files=['pyslet/odata2/sqlds.py'],
    mechanism=[('transactions', 'sqlds.SQLTransaction'),
               ('retries', 'sqlds.retry_decorator')],
    technique='exhaustive fault injection at every database call from every '
    'reachable state of the real data service',
    level='model_checking',
    level_note='SQLite behind a wrapper that injects the failures.')

prop(
    id='C17',
    title='The SQL connection pool never shares, leaks or forgets connections',
    statement='However threads that acquire, nest, use and release'
    ' connections interleave, with the pool cleaner, threads that die,'
    ' connections that cannot be opened and close of the container: no'
    ' connection is used by two threads at a time (nor ever by another'
    ' thread, or another connection alongside it, where the database module'
    ' forbids that), none is used after it has been closed (unless close had'
    ' to force it after its timeout) and no more than the maximum are open;'
    ' a waiting thread gets a connection once one is free, gives up when its'
    ' timeout passes and not before, and gives up when the container is'
    ' closed; no connection or room in the pool is lost and close closes'
    ' every connection.',
    over=['schedules', 'faults'],
    text='All schedules up to the preemption bound of 24 scenarios for '
    'thread safety levels 0, 1 and 2, at synchronisation points and lines',
    why='The outcome depends on who is woken and who gets there first',
    files=['pyslet/odata2/sqlds.py'],
    mechanism=[('acquire', 'SQLEntityContainer.acquire_connection'),
               ('release', 'SQLEntityContainer.release_connection'),
               ('cleaner', 'SQLEntityContainer.pool_cleaner'),
               ('close', 'SQLEntityContainer.close')],
    technique='stateless model checking of the real connection pool under a '
    'controlled scheduler with preemption bounds',
    level='model_checking',
    level_note='Virtual time; the database connections are stand-ins that '
    'record who uses them.')

prop(
    id='C18',
    title='OData expressions are parsed, printed and evaluated correctly',
    statement='Parsing the text of a $filter or $orderby expression gives the'
    ' structure that the precedence and left associativity of the operators'
    ' define, whatever brackets, spaces, unary operators, methods, type'
    ' tests, parameters and property names it contains, and text that is not'
    ' an expression is refused with ValueError; printing an expression gives'
    ' text that parses to the same structure again. Evaluating an operator or'
    ' method on any combination of operand types, nulls included, gives the'
    ' value and type the OData rules of promotion, null propagation and'
    ' truncation give (exactly for integers and decimals) or EvaluationError'
    ' (ValueError if the result is out of range). Literals of every type'
    ' survive being written in expressions, URIs and keys and read back.',
    over=['inputs'],
    text='Expressions of up to three operators in every shape, every sequence '
    'of up to five tokens, operators and methods on all pairs of operands of '
    'all types, all number texts of up to five characters',
    why='Structure depends on combinations of operators and operands, tests '
    'sample few',
    files=['pyslet/odata2/core.py', 'pyslet/odata2/csdl.py'],
    mechanism=[('parser', 'Parser.parse_common_expression'),
               ('printing', 'CommonExpression.__unicode__'),
               ('evaluation', 'BinaryExpression.evaluate, CallExpression'),
               ('literals', 'Parser.parse_uri_literal, uri_literal_to_str')],
    technique='bounded exhaustive enumeration of expressions, token sequences '
    'and operand combinations on the real parser, printer and evaluator '
    'against an independent precedence-climbing parser and evaluator',
    level='model_checking',
    level_note='Expressions beyond three operators are not enumerated.')

prop(
    id='C19',
    title='Filters, orderings and pages select exactly the right entities',
    statement='On both the in-memory and the SQL data service, and on entity'
    ' sets as well as collections reached by navigation: iterating over,'
    ' counting, looking up keys in and paging through a collection with a'
    ' filter give exactly the entities for which the filter is true, whatever'
    ' operators, functions, brackets, nulls, wildcards and types it'
    ' combines; an ordering sorts by its expressions (nulls first when'
    ' ascending) with ties in key order; and the pages delimited by skip, top'
    ' and the page limit, followed with next pages or skiptokens, contain'
    ' every selected entity exactly once, in order, with no token after the'
    ' last page, whatever values and lengths the ordering has. Selecting'
    ' properties changes only which properties have values. Entities that are'
    ' inserted or deleted meanwhile do not disturb iteration in memory.',
    over=['inputs', 'histories'],
    text='Comparisons of all pairs of operands, arithmetic with two '
    'operators, three conditions combined, string functions; orderings by up '
    'to two of eleven expressions; all small skips, tops and limits',
    why='Translation to SQL, nulls, ties and page boundaries interact, tests '
    'sample few',
    files=['pyslet/odata2/sqlds.py', 'pyslet/odata2/memds.py',
           'pyslet/odata2/csdl.py', 'pyslet/odata2/core.py'],
    mechanism=[('SQL translation', 'SQLCollectionBase.sql_expression'),
               ('SQL paging', 'SQLCollectionBase.page_generator'),
               ('memory', 'memds.EntityCollection.itervalues'),
               ('paging', 'csdl.EntityCollection.iterpage')],
    technique='bounded exhaustive enumeration of filters, orderings and page '
    'sizes on the real data services, compared with a model that filters, '
    'sorts and slices a list with an independent evaluator',
    level='model_checking',
    level_note='Null or true is left open in SQL, and not, negate, mod, '
    'replace, isof, cast and rounding are not supported there.')

prop(
    id='C20',
    title='XML documents are accepted, refused and read as XML 1.0 defines',
    statement='Whatever the text of a document (up to any combination of'
    ' markup, names, quotes, comments, processing instructions, CDATA,'
    ' character and entity references, element, attribute, entity and'
    ' notation declarations in the internal subset, line ends and'
    ' characters) XMLParser.parse_document raises an XMLFatalError if it is'
    ' not well-formed and otherwise returns the tree of elements, attributes'
    ' and text that XML 1.0 defines: references replaced, attribute values'
    ' normalized by type and defaulted, the first declaration of an entity'
    ' or attribute binding, recursion and markup that crosses entity'
    ' boundaries refused. With check_validity the declarations in parameter'
    ' entities are read; without, those after a skipped parameter entity'
    ' reference are ignored. The result does not depend on the encoding, the'
    ' byte order mark or how many characters are read at a time, illegal'
    ' characters and bytes are fatal errors, and no document makes parsing'
    ' go on for ever.',
    over=['inputs'],
    text='All sequences of up to four tokens, strings of up to eight '
    'characters within each kind of markup, six parts of each declaration, '
    'all pairs of 35 entities and 16 uses, all characters, encodings',
    why='Acceptance depends on arbitrary combinations of characters and '
    'entity boundaries, tests sample few',
    files=['pyslet/xml/parser.py', 'pyslet/xml/structures.py'],
    mechanism=[('content', 'XMLParser.parse_content, parse_element'),
               ('entities', 'XMLParser.parse_entity_ref, push_entity'),
               ('attributes', 'XMLParser.parse_att_value, check_attributes'),
               ('declarations', 'XMLParser.parse_int_subset'),
               ('characters', 'XMLEntity.next_char')],
    technique='bounded exhaustive enumeration of documents on the real '
    'parser, each outcome and tree compared with that of expat',
    level='model_checking',
    level_note='Documents are small; external entities are not loaded; names '
    'are those of the fifth edition.')

prop(
    id='C21',
    title='XML documents are written so that they read back the same',
    statement='Elements and attributes in a document with namespaces are read'
    ' with the expanded names that Namespaces in XML defines, and any tree of'
    ' elements (read, built, copied or moved between documents, whatever'
    ' namespaces, prefixes, default namespaces and names without a namespace'
    ' it mixes) is written, as text or bytes, with either escape function, as'
    ' a document or a single element, so that it reads back with the same'
    ' expanded names, attribute values and text. Every character is escaped'
    ' where needed, including line ends and tabs in attributes. White space'
    ' is written exactly where xml:space is preserve and otherwise collapsed'
    ' as documented; indentation is added only within elements that have'
    ' element content and are not subject to xml:space="preserve".',
    over=['inputs', 'histories'],
    text='Documents of two or three nested elements with all combinations of '
    'declarations, names and attributes; built and moved trees; texts of up '
    'to three special characters',
    why='Prefixes interact with every enclosing declaration and with '
    'earlier output, tests sample few',
    files=['pyslet/xml/namespace.py', 'pyslet/xml/structures.py'],
    mechanism=[('prefixes', 'NSNode.get_prefix, make_prefix, write_nsattrs'),
               ('reading', 'XMLNSParser.parse_nsattrs, expand_qname'),
               ('writing', 'NSElement.generate_xml, Element.generate_xml, '
                'write_xml_attributes'),
               ('escaping', 'escape_char_data, escape_char_data7, '
                'escape_cdsect'),
               ('white space', 'get_canonical_children, collapse_space, '
                'can_pretty_print')],
    technique='bounded exhaustive enumeration of documents, trees and texts '
    'on the real code, each output read with expat and with pyslet',
    level='model_checking',
    level_note='Documents that break the namespace rules are not compared.')


prop(
    id='C22',
    title='OData clients and servers carry every operation to the store',
    statement='A Client connected to a Server (over WSGI, with or without a'
    ' path prefix) is a transparent view of the store behind it: inserting,'
    ' updating, deleting, linking, replacing and unlinking entities, reading'
    ' navigation properties, properties and complex values, testing for keys,'
    ' counting and iterating through the client give the results that the'
    ' same operation gives on the store itself and leave the store in the'
    ' same state, and operations that the store refuses are refused with the'
    ' same kind of error. Every value of every simple type and every key'
    ' (quotes, percent signs, slashes, white space, characters outside ASCII,'
    ' composite keys) arrives unchanged. Filters, orders, pages, selections'
    ' and expansions set on client collections select what they select on the'
    ' store. An operation that takes several requests may be left half done'
    ' when a later one is refused.',
    over=['inputs', 'histories'],
    text='All operations in all reachable states of small stores with each '
    'kind of association; tables of values and keys of every type; all '
    'filters, orders and expansions of small grammars',
    why='Client, URL syntax, Atom payloads, server and store must agree on '
    'every operation in every state; tests sample fixed exchanges',
    files=['pyslet/odata2/client.py', 'pyslet/odata2/server.py',
           'pyslet/odata2/core.py', 'pyslet/odata2/memds.py'],
    mechanism=[('client', 'client.EntityCollection, NavigationCollection'),
               ('server', 'Server.handle_request, return_*, '
                'get_resource_from_uri'),
               ('payloads', 'Entry.get_value, Entry.set_value, Property'),
               ('URLs', 'ODataURI, Entity.get_location, '
                'CommonExpression.to_str')],
    technique='explicit-state exploration of the real client and server, '
    'joined in process, against a model of the store; bounded exhaustive '
    'enumeration of values, keys and queries',
    level='model_checking',
    level_note='Equality filters on Boolean, SByte, Time and Binary values '
    'are not tested; memory store only.')


prop(
    'C23', 'HTTP cookies are parsed, stored, sent and confined as in RFC 6265',
    'Set-Cookie strings, cookie dates and Cookie headers, however malformed,'
    ' are read as the algorithms of RFC 6265 section 5 read them: name,'
    ' value, expiry (Max-Age before Expires), domain, path (the last one'
    ' wins, defaults otherwise) and flags; bad attributes are ignored.'
    ' Cookies made by an application read back the same from what is'
    ' written. In every history of a cookie store, set_cookie accepts or'
    ' refuses as section 5.3 says and search returns exactly the unexpired'
    ' cookies that match the domain, path and scheme of the URL, longest'
    ' path first and then oldest first; a replaced cookie keeps its creation'
    ' time; ending a session removes session cookies; cookies are never'
    ' accepted for public or foreign domains or sent outside their domain,'
    ' path, or (if Secure) over plain HTTP. Public suffix rules (with wildcards'
    ' only as the first label) give the registered'
    ' domain of every domain as the public suffix algorithm'
    ' does. A client with a store sends exactly those cookies and stores'
    ' those it gets, and a bad cookie affects nothing else.',
    over=['inputs', 'histories'],
    text='Set-Cookie strings from all sequences of three attributes of a '
    'pool, dates from all sequences of tokens, all histories of a store to '
    'depth 3 to 5, all lists of suffix rules of a pool, all histories of '
    'responses to a client',
    why='What is sent where depends on the whole history of what was set, '
    'replaced and expired; tests sample a few exchanges',
    files=['pyslet/http/cookie.py', 'pyslet/http/client.py',
           'pyslet/http/messages.py'],
    mechanism=[('parsing', 'CookieParser, Cookie.from_str, Cookie.to_bytes'),
               ('store', 'CookieStore.set_cookie, search, expire_cookies, '
                'end_session'),
               ('suffixes', 'CookieStore.set_public_list, '
                'get_registered_domain, test_public_domain'),
               ('client', 'ClientRequest.send_header, response_finished')],
    technique='explicit-state exploration of all bounded histories of the '
    'real cookie store and client against a model of RFC 6265, and bounded '
    'exhaustive enumeration of cookie strings, dates and suffix lists',
    level='model_checking',
    level_note='Secure and HttpOnly after a space are a known finding.')


prop(
    'C24', 'XML Schema values and regular expressions are exact',
    'Schema regular expressions are accepted exactly when they follow the'
    ' grammar (branches, quantifiers, groups, escapes, character classes'
    ' with ranges, negation and subtraction, category and block escapes) and'
    ' match a string exactly when the whole string is in the language,'
    ' whatever the order of the branches. Integers, decimals, floats and'
    ' doubles are read from exactly their lexical forms to the nearest'
    ' value (infinite out of range) and written in canonical form, correctly'
    ' rounded to the digits asked for, so that they read back the same to'
    ' the precision of the format; booleans, special values and signed'
    ' durations read and write as the schema says; white space is replaced'
    ' and collapsed as the schema says; enumerations decode values, lists and'
    ' dictionaries of names, with each case folding, and write them back in'
    ' canonical form.',
    over=['inputs'],
    text='Every string over the syntax characters to length 4 (classes to 6, '
    'branches to 7) as a regular expression with every target to length 3 '
    'or 5; every string to length 6 as a number; tables of digits and '
    'exponents; every sequence of enumeration names',
    why='The expressions are translated to those of Python and errors show '
    'up only for particular combinations of branches, classes and targets',
    files=['pyslet/xml/xsdatatypes.py', 'pyslet/unicode5.py'],
    mechanism=[('expressions', 'RegularExpression, RegularExpressionParser'),
               ('numbers', 'decimal_from_str, decimal_to_str, '
                'double_from_str, double_to_str, float_from_str'),
               ('enumerations', 'Enumeration.list_from_str, dict_from_str'),
               ('white space', 'white_space_collapse')],
    technique='bounded exhaustive enumeration of expressions, targets and '
    'literals against an independent parser and matcher working on sets of '
    'positions',
    level='model_checking',
    level_note='Dates are under C05 and C06; the readings of - in classes '
    'that the schema leaves open follow the library.')

prop(
    'C25', 'QTI expressions, mappings and rules give the defined results',
    'For all operand values (NULL, every base type, single, ordered, multiple'
    ' and record cardinality) the QTI 2.1 operators of the library give the'
    ' defined result: NULL operands give NULL except that and, or, not and'
    ' anyN answer when every value the NULLs could stand for gives the same'
    ' answer; operands of the wrong type or cardinality are refused;'
    ' containers are built, indexed, searched, compared and deleted from with'
    ' their order or the number of times each value occurs; comparison,'
    ' equality with tolerances, rounding, integer division, modulus,'
    ' arithmetic and string operators are exact; division by zero, undefined'
    ' powers and overflow give NULL; random operators reach every permitted'
    ' value and no other; inside tests shapes. mapResponse adds each distinct'
    ' value once, mapResponsePoint each area once, within the bounds; match'
    ' and interpolation tables choose the first matching entry or the'
    ' default. Assigning or copying a value keeps it, or is refused without'
    ' effect when types differ. Response and template rules run the first'
    ' true branch, in order, until an exit.',
    over=['inputs'],
    text='Every operator with every pair of about 190 operand values, longer '
    'containers, tables of numbers, every outcome of random choices; every '
    'mapping, area mapping and table of a few entries with every value; '
    'every program of up to three rules with nested conditions',
    why='There are too many combinations of types, cardinalities and NULLs '
    'for the tests, which use one or two of each operator',
    files=['pyslet/qtiv2/expressions.py', 'pyslet/qtiv2/variables.py',
           'pyslet/qtiv2/processing.py', 'pyslet/qtiv2/core.py'],
    mechanism=[('operators', 'the evaluate methods of expressions'),
               ('values', 'Value, SingleValue, OrderedContainer, '
                'MultipleContainer'),
               ('mappings', 'Mapping.map_value, AreaMapping.map_value, '
                'MatchTable.lookup, InterpolationTable.lookup'),
               ('rules', 'ResponseCondition, TemplateCondition, '
                'SetOutcomeValue, StopProcessing')],
    technique='bounded exhaustive enumeration of operands, mappings and rule '
    'programs against an independent evaluation; random choices are explored '
    'as nondeterminism',
    level='model_checking',
    level_note='Integer results out of range may be refused or NULL; points '
    'on the right and lower edges of shapes are left open.')

prop(
    'C26', 'HTTP header values are read, written and chosen from as defined',
    'For every byte string the tokens, text, comments, quoted strings and '
    'words of HTTP/1.1 (RFC 2616) are recognised exactly, and quoting a '
    'string gives a token or quoted string that decodes to it. Media types '
    'and ranges, Accept headers, versions, transfer codings, chunk headers, '
    'product and language and entity tags, Content-Range, Accept-Ranges, '
    'Allow, Cache-Control and authentication challenges, and lists of them, '
    'read to the values the grammar gives whatever white space separates '
    'their words, are refused with ValueError when malformed, and read back '
    'the same when written. Values that mean the same are equal and hash '
    'alike, others are consistently ordered; versions order numerically. '
    'Accept lists choose the acceptable alternative of the highest quality, '
    'the first of equals, each judged by its most specific range. The three '
    'HTTP date formats give the exact time, wrong days are refused, dates '
    'are written in GMT. Basic credentials carry any user and password. '
    'Header names ignore case; headers can be set, appended, replaced and '
    'removed.',
    over=['inputs', 'histories'],
    text='Every string of up to 4 delimiters, every sequence of up to 7 '
    'words for 22 kinds of header value and longer continuations of '
    'well-formed ones, with every placement of white space; every pair of '
    'values; every accept list of a few ranges with every menu; every day of '
    '140 years; every history of three header changes',
    why='A parser has to give the right answer for every string, and '
    'negotiation for every combination of ranges and qualities; the tests '
    'have a few examples of each',
    files=['pyslet/http/grammar.py', 'pyslet/http/params.py',
           'pyslet/http/messages.py', 'pyslet/http/auth.py'],
    mechanism=[('octets and words', 'OctetParser, WordParser, quote_string, '
                'decode_quoted_string'),
               ('values', 'ParameterParser, HeaderParser, '
                'AuthorizationParser and the classes they create'),
               ('choosing', 'AcceptList.select_type, '
                'AcceptTokenList.select_token and its subclasses'),
               ('messages', 'Message.get_header, set_header and accessors')],
    technique='bounded exhaustive enumeration of strings, word sequences, '
    'accept lists and dates against an independent model of the grammar',
    level='model_checking',
    level_note='Null elements of lists, repeated parameters, qualities over '
    '1 and white space inside media types are left open.')

prop(
    'C27', 'Web applications route, protect and keep the sessions of requests',
    'A WSGI request is routed to the method registered with the pattern that '
    'matches its path, named segments before wildcards and a trailing '
    'wildcard last, or answered with 404; exceptions become the documented '
    'error statuses and responses carry exactly the data given, its length '
    'and type. The static page serves exactly the files below its directory '
    'whose path has only plain labels and one extension, and nothing else. '
    'Data encrypted or signed with an application key is read back after any '
    'history of key changes, restarts and waits, changes take effect at the '
    'time set, and a changed signature, or one for another message or key, '
    'is refused with ValueError. Whatever a browser and an attacker do, a '
    'session page runs only for a browser that returns cookies, with a '
    'session whose id never appeared in a URL, kept while it is used within '
    'its timeout, replaced after it or when its cookie was changed; a POST '
    'runs only with the id of the session in its own signed cookie; tampered '
    'or mismatched cookie tests are answered 400 and redirects stay within '
    'the application; a first visit ends at the page requested. URLs, '
    'queries, forms and cookies read to the values sent.',
    over=['inputs', 'histories'],
    text='Every set of up to 3 path patterns with every path of up to 3 '
    'segments; every path of up to 3 segments of static files; every history '
    'of 4 key changes, waits and restarts; every one-character change to '
    'signatures; every sequence of 6 steps of a browser and an attacker; '
    'every octet of a URL, query, form and cookie',
    why='Access control and CSRF protection must hold for every order of '
    'requests, times and forged inputs; the tests have single examples',
    files=['pyslet/wsgi.py', 'pyslet/wsgi_metadata.xml'],
    mechanism=[('dispatch', 'WSGIApp.set_method and __call__'),
               ('files', 'WSGIApp.static_page'),
               ('keys', 'AppCipher, AESAppCipher'),
               ('sessions', 'SessionApp, CookieSession, session_decorator')],
    technique='explicit-state exploration of a browser and an attacker '
    'against the real application, bounded exhaustive enumeration of paths, '
    'patterns, key histories and signatures, against a model',
    level='model_checking',
    level_note='Paths with empty segments before the last, the choice between '
    'several unexpired keys and malformed escapes in messages are left open; '
    'AES itself is replaced by a toy cipher as it is not installed.')

prop(
    'C28', 'LTI launches are authenticated and open only what was launched',
    'A basic LTI launch is accepted only if it is signed with the secret of '
    'a known consumer over exactly the parameters and URL received, with a '
    'recent timestamp and a nonce that consumer has not used within 90 '
    'minutes: others are answered 403, and bad message types, versions or a '
    'missing resource 400, and store nothing. An accepted launch ends, '
    'whether or not cookies are blocked, at the resource launched, for the '
    'user launched, with the permissions of the roles given: those of '
    'Instructor and Learner and their sub-roles, none for other roles. After '
    'any history of launches by two browsers a session can open exactly the '
    'resources launched in it, with the details of the latest launch, except '
    'those of the same consumer launched earlier for another user, and none '
    'after it times out or its cookies are lost. The same resource, user and '
    'context of one consumer are always the same records, hold the latest '
    'details given, are different for different consumers and are shown '
    'escaped. Consumers loaded from and saved to files keep their keys and '
    'secrets, comments are skipped and duplicate keys refused.',
    over=['inputs', 'histories'],
    text='Every single change to a signed launch; every history of 3 nonces, '
    'consumers and waits; every history of up to 4 launches, windows, waits '
    'and lost cookies up to model states; every pair of 58 roles; every pair '
    'of sets of details; every file of 2 lines',
    why='Authentication and the separation of users must hold for every '
    'order of launches; the tests have a single launch',
    files=['pyslet/imsbltiv1p0.py', 'pyslet/imsbltiv1p0_metadata.xml'],
    mechanism=[('launch', 'ToolProvider.launch and its validation methods'),
               ('visits', 'ToolProviderApp.new_visit, find_visit, '
                'establish_session, merge_session, load_visit'),
               ('records', 'ToolConsumer.get_context, get_resource, get_user'),
               ('roles', 'split_role, is_subrole, get_permissions')],
    technique='explicit-state exploration of histories of launches, replayed '
    'on the real application with an SQLite database, and bounded exhaustive '
    'enumeration of changed launches, against a model',
    level='model_checking',
    level_note='OAuth signatures are made with oauthlib, which the code uses '
    'to check them.')
