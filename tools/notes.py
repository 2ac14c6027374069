"""What each check explores and compares with, for DESIGN.md"""

NOTES = {
    'C01': (
        'Part `pipe-*`: histories of read, readline, readmatch, readall, '
        'readinto, peek, write, flush, EOF, close, rstream/wstream calls; '
        'part `wrapper`: the seekable wrapper around every source that '
        'returns short reads or None.',
        'A bytes object with a read position; would-block exactly when the '
        'model has no data and is not at EOF.'),
    'C02': (
        'Scenarios mix blocking readers and writers, wait with timeouts, '
        'flush, EOF and close.',
        'FIFO content of the stream, terminal state analysis (nobody waits '
        'whose condition holds), deadlines of virtual time.'),
    'C03': (
        'Streams are opened in every mode over an existing or missing stream '
        'of every length class, read, written, seeked past the end, '
        'truncated, closed and deleted; two streams may share a store.',
        'A bytearray per stream; after every history the set of blocks left '
        'in the store is compared with those reachable.'),
    'C04': (
        'Owners lock, unlock, extend and crash (never unlock) over in-memory '
        'and SQLite lock entities.',
        'At most one owner inside the critical section before expiry; waiters '
        'get the lock or time out in virtual time.'),
    'C05': (
        'Every day of the calendar in calendar, ordinal and week form; every '
        'digit string of each format; truncated forms with a base.',
        'Python\'s proleptic datetime.date arithmetic and an own grammar of '
        'the formats.'),
    'C06': (
        'All seconds of a day, all zone offsets, fractions, truncated forms, '
        'durations with any subset of components.',
        'Integer arithmetic in milliseconds and an own grammar.'),
    'C07': (
        'All strings to a length over `:/?#[]@%a1` etc., all compositions of '
        'component values.',
        'The regular expression and reconstruction algorithm of RFC 2396 '
        'appendix B, equality by canonical tuples.'),
    'C08': (
        'All (base, reference) pairs over segments `a`, `b`, `.`, `..`, empty '
        'and with colons.',
        'RFC 2396 5.2 written as string rewriting; relativise then resolve '
        'must be the identity.'),
    'C09': (
        'All subsets of a window of 8 code points at six interesting places, '
        'all operations; every parser history to depth 2-3.',
        'Python sets; a (string, position) cursor; unicodedata.'),
    'C10': (
        'The reachable states of a file tree to 4 operations and 80 '
        'operations from each.',
        'posixpath for paths, a dictionary tree for the file system.'),
    'C11': (
        'Each body is sent by the real encoder and received by the real '
        'decoder in every split, truncated at every byte, blocked at every '
        'point.',
        'Own framing model of RFC 2616 4.4 on bytes.'),
    'C12': (
        'A scripted server answers over simulated sockets; every prefix of '
        'every conversation ends in close, reset or silence; writes and reads '
        'are short or would block.',
        'The script knows which bytes belong to which response; a request '
        'must end with exactly that response or an error status.'),
    'C13': (
        'Threads use, kill, expire and close connections of the pool.',
        'Ownership ledger kept by stand-in connections; terminal states.'),
    'C14': (
        'All pairs of requests x application behaviours; truncation and '
        'hang-up at every byte; schedules of several connections.',
        'Own HTTP/1.1 response parser and an expected list of responses; '
        'recorded WSGI environments.'),
    'C15': (
        'For every combination of multiplicities and navigation properties, '
        'the closure of the states reachable by insert, update, delete, link, '
        'unlink and replace, on memds and sqlds.',
        'A relational model: sets of entities and pairs with multiplicity '
        'constraints; refused operations leave the state unchanged.'),
    'C16': (
        'The DB API connection is wrapped: at each execute/commit the call '
        'is refused, fails once, succeeds but reports failure, or fails '
        'after the effect.',
        'State afterwards is the one before or the one after; an error is '
        'reported whenever it is the one before.'),
    'C17': (
        'Threads acquire, nest, release, die, with the cleaner and close.',
        'Ownership ledger of stand-in connections, limits, terminal states.'),
    'C18': (
        'Parts: structure (ASTs), grammar (token sequences), evaluation, '
        'params, orderby, numbers, literals.',
        'Own precedence-climbing parser and evaluator with Python ints, '
        'Decimals and floats.'),
    'C19': (
        'every filter made of two operands (literals, properties of every type, nulls) and a comparison, arithmetic with two operators, three conditions joined by and/or/not and brackets, string functions; orderings by up to two of eleven expressions with nulls and ties; all small skip, top and page limits with tokens; histories of changes during iteration',
        'a Python model of the entities that filters, sorts and cuts with its own evaluator; iteration, count, key lookup and pages must agree with it for both services'),
    'C20': (
        'token sequences, character strings within every kind of markup, declarations built from parts, pairs of general and parameter entities with uses, attribute types with values, every character in names and content, encodings with read sizes 1–8192, malformed UTF-8',
        'the tree or the refusal of the same text by expat (pyexpat), with parameter entities when validating; name characters from the fifth edition'),
    'C21': (
        'documents of up to three nested elements over all declarations of two prefixes and the default namespace, element and attribute names in and out of namespaces; trees built with the API from all expanded names and prefixes; elements copied and moved between documents with every pair of declarations; all texts of up to three special characters in text and attributes with both escape functions; white space under every combination of xml:space; pretty printing',
        "expat's reading of the output (with and without namespaces) and the tree that was built; pyslet's own reading compared to expat's"),
    'C22': (
        "every operation (insert with and without bindings, update, delete, links set, added, replaced, removed, reads) in every reachable state of stores with two entity sets and each multiplicity of association; every value of tables of each simple type with null, plain and in complex types; single and composite keys of each type, in entities, links and navigation; the filters and orders of C19's grammar and expansions by URL",
        'the same model of the store as C15 (with the prefixes of operations that take several requests allowed after a refusal), and the direct collections of the store'),
    'C23': (
        'Set-Cookie strings: every sequence of up to three attributes after the first from 33 (case, spaces, missing and bad values); cookie dates: every sequence of tokens and byte; every history of up to 5 operations of the store (2 with the full alphabet) with 27 URLs searched at the end; all lists of up to 4 suffix rules; all histories of 3 responses to a real client over the fake network, virtual clock',
        'an independent model of RFC 6265 sections 5.1-5.4 and of the public suffix algorithm'),
    'C24': (
        'every string of up to 4 of 17 syntax characters as an expression (character classes to 6, branches and groups to 7), every pair of 21 quantifiers, every escape; every accepted one with up to 60 targets; categories over all code points below U+3100 and a stride above; every string of up to 6 of 10 characters as a number; 1000 digit strings by 67 exponents written',
        'an independent recursive descent parser and a matcher over sets of positions; lexical grammars and Python decimals'),
    'C25': (
        'Operands are (cardinality, base type, value) tuples and each operator has a separate model in exact arithmetic; three-valued logic is modelled by trying every value a NULL could have. The functions of the random module are replaced by an explorer so that every outcome is seen.',
        'Rule programs are written as items, read as documents and run; the model is an interpreter of the same trees.'),
    'C26': (
        'Words are joined with the least white space that keeps them apart and then every gap that the grammar leaves open is filled with a space, a tab and a folded line. Longer values continue well-formed beginnings. Accept lists are given in every order, with the qualities absent, 0, 0.3 and 0.75, and every ordered menu of up to three alternatives is offered. Dates: each day of 1968-2100 and of century years in each format, the wrong days of the week and days 0 to 32 of each month; each second of a day.',
        "A model written from RFC 2616 and 2617: regular expressions for the octet productions and word splitting, a recursive reader of word sequences for each header giving a value, a refusal or 'left open'; negotiation by explicit rank of ranges; dates from Python's datetime."),
    'C27': (
        'path patterns and paths, key histories, changed signatures, states of a browser and an attacker',
        'a model of dispatch, keys and sessions; hashes computed independently'),
    'C28': (
        'changed launches, histories of nonces and launches up to model states, roles, files of consumers',
        'a model of visits and permissions; launches signed with the oauthlib client'),
}
