"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/gen.py)."""

P = []


def prop(id_, title, statement, over, text, why, files, mechanism,
         state=(), observe_at=()):
    P.append({
        'id': id_, 'title': title, 'statement': ' '.join(statement.split()),
        'quantifier': {'over': over, 'text': ' '.join(text.split())},
        'why_tests_cant': ' '.join(why.split()),
        'anchors': {
            'files': files,
            'state': [dict(zip(('name', 'meaning', 'where'), s)) for s in state],
            'mechanism': [dict(zip(('name', 'where'), m)) for m in mechanism],
            'observe_at': list(observe_at), 'hook_needed': None}})


H = 'httpolice/'

prop('C01', 'Well-formed HTTP/1.x connections are reconstructed exactly', '''
For every sequence of well-formed HTTP/1.x requests and responses written on a connection
(pipelining, interim responses, HEAD, CONNECT, 204/304, every body framing), the analysis yields
exactly those exchanges in order, with the same method, target, version, status, reason, header
fields, body and trailers. No byte of one message is attributed to another, and no framing problem
is reported.''',
     ['histories', 'inputs'], '''All sequences of up to 3 request/response exchanges over an
     alphabet of message shapes that covers every framing rule.''',
     '''Tests replay a few dozen hand-made captures; desynchronisation shows only for particular
     successions of messages and framings.''',
     [H + 'framing1.py', H + 'stream.py', H + 'exchange.py', H + 'message.py'],
     [('request/response alternation and interim responses', 'framing1.parse_streams'),
      ('body delimitation', 'framing1._parse_request_body, _parse_response_body, _parse_chunked'),
      ('line and block reading', 'stream.Stream')],
     [('stream position and sanity', 'how much of each direction is consumed, and whether parsing may go on',
       'stream.Stream.good/sane/eof')],
     ['exchanges returned by framing1.parse_streams and by the streams input'])

prop('C02', 'Every byte of a damaged stream is parsed or reported', '''
For arbitrary bytes in either direction (truncated, corrupted, desynchronised), every message
before the damage is reconstructed with the framing HTTP/1.x prescribes, and what cannot be
understood is reported as a problem at that point: an unparseable message, an incomplete body, bad
chunks, leftover bytes, or a response with no matching request. Nothing that was received is ever
silently dropped, and no message that was not received is invented.''',
     ['inputs', 'histories'], '''All token sequences up to a bound over an alphabet of HTTP
     fragments, and every truncation point and every single-byte corruption from a set of
     critical bytes at every offset of a corpus of connections.''',
     '''The tests contain a handful of broken captures; the space of damage points times framing
     states cannot be sampled by hand.''',
     [H + 'framing1.py', H + 'stream.py', H + 'exchange.py'],
     [('complaint boxes for unparseable input', 'framing1.complaint_box and its callers'),
      ('error recovery decisions', 'framing1._process_chunked, _parse_request_body, _parse_response_body')],
     [('stream sanity', 'set when the direction can no longer be understood', 'stream.Stream.sane')],
     ['exchanges and notices'])

prop('C03', 'The verdict depends on the bytes, not on how they are delivered', '''
The same connection gives the same exchanges and the same notices however its bytes are delivered:
in reads of any size, and whether it is given as a pair of stream files, a combined file, a tcpflow
directory or a tcpick directory. A single-direction input gives the same verdict on its messages as
the library given that direction alone.''',
     ['schedules', 'inputs', 'configurations'], '''Every split of the stream into reads (exhaustively
     for short streams, every single split point and every fixed read size for longer ones), times
     buffer sizes, times input formats, over a corpus of connections.''',
     '''Tests read each capture in one way, from a regular file; short reads and buffer boundaries
     never occur in them.''',
     [H + 'stream.py', H + 'inputs/streams.py', H + 'framing1.py'],
     [('buffered peeking and reading', 'stream.Stream'), ('input formats', 'inputs/streams.py')],
     [], ['exchanges and notices'])

prop('C04', 'Message bodies survive every framing and coding', '''
A body that was encoded with any supported sequence of content codings (gzip, deflate, and their
aliases) and transfer codings, in any chunking with any chunk extensions and trailers, is recovered
exactly; trailer fields are merged as header fields where that is allowed. If the codings are
unknown, misused or the data is corrupt, the body is reported as unavailable with a notice saying
so, never as wrong data.''',
     ['inputs'], '''All bodies of a small set times all coding stacks up to length 3 times all
     chunkings of small bodies times chunk-syntax variants, and every truncation of coded data.''',
     '''Tests have about ten encoded bodies; the combinations of coding order, chunk borders and
     corruption are not covered.''',
     [H + 'framing1.py', H + 'codings.py', H + 'message.py'],
     [('transfer decoding', 'framing1._decode_transfer_coding, _process_chunked'),
      ('content decoding', 'message.Message.decoded_body, codings.py')], [],
     ['message.body, decoded_body, unicode_body and notices'])

prop('C05', 'Checking and reporting never crash', '''
For any exchange that can be built through the API (any strings and bytes for method, target,
version, status, reason, header names and values, body, trailers, including unavailable ones),
checking it and rendering it in every report format finishes without raising an exception.''',
     ['inputs'], '''Products of per-field alphabets of extreme values (empty, huge numbers, wrong types
     of syntax, non-ASCII, control characters, out-of-range dates) over every known header, status
     code, method and body type; all pairs of headers.''',
     '''Unit tests exercise plausible values only; a crash needs a value that reaches an unguarded
     conversion.''',
     [H + 'message.py', H + 'request.py', H + 'response.py', H + 'header.py', H + 'structure.py',
      H + 'parse.py', H + 'reports/html.py', H + 'reports/text.py', H + 'syntax/'],
     [('lenient typed access', 'header.HeaderView, structure.Unavailable'),
      ('memoised derived properties', 'util.data / structure.derived_property')], [],
     ['httpolice.check_exchange, html_report, text_report'])

prop('C06', 'The command line always ends in a report or a clear error', '''
For any content of the input files, any HAR document, and any file names in an input directory, the
command-line tool either writes a complete report or prints one error message naming what is wrong
with the input and exits with status 1. It never ends with a traceback and never hangs.''',
     ['inputs', 'configurations', 'fault_sequences'], '''All input formats times a space of contents: every
     structural mutation (delete, retype, duplicate) of every node of HAR documents, every truncation of
     combined files, file names near each naming scheme, and every injected read error.''',
     '''Tests have a few malformed inputs per format.''',
     [H + 'cli.py', H + 'inputs/har.py', H + 'inputs/streams.py', H + 'inputs/common.py'],
     [('input errors', 'inputs.common.InputError'), ('top-level handling', 'cli.run_cli')], [],
     ['exit status, stdout and stderr of the command'])

prop('C07', 'A verdict does not depend on what was analysed before', '''
The notices and reports for an exchange are the same whatever other exchanges were analysed earlier
in the same process, in any order and number. No content of one exchange ever appears in the
verdict on another.''',
     ['histories'], '''All ordered sequences up to a bound over an alphabet of exchanges chosen to
     collide in caches and shared tables (same bytes parsed by different rules, same values in
     different contexts), with and without overflow of every cache between them.''',
     '''Each test checks one capture in a fixed order; cross-talk needs a particular history.''',
     [H + 'parse.py', H + 'known/__init__.py', H + 'header.py', H + 'reports/html.py'],
     [('parse memo', 'parse.py _memo'), ('lazy registries', 'known.Knowledge')],
     [('parse memo', 'LRU of recent parse results', 'parse._memo'),
      ('processed registry entries', 'lazily filled', 'known.Knowledge.processed_by_key')],
     ['check_exchange, html_report, text_report'])

prop('C08', 'Checking and reporting only observe the exchange', '''
Checking an exchange, asking for its derived values and rendering reports never change the method,
target, version, status, reason, header fields, body or trailers that were given. Rendering a
report does not change what a later report says, and producing both reports in either order gives
the same texts.''',
     ['histories'], '''All sequences up to length 4 of the operations check / text report / HTML report /
     read derived values, over a corpus of exchanges.''',
     '''Tests check, render once and throw the exchange away.''',
     [H + 'message.py', H + 'exchange.py', H + 'blackboard.py', H + 'reports/'],
     [('complaint collection', 'blackboard.Blackboard'), ('report rendering', 'reports/')], [],
     ['raw fields, notices, report bytes'])

prop('C09', 'Silencing hides exactly the named notices', '''
Silencing a set of notices (on the command line, through the API, or with HTTPolice-Silence headers
in the request or the response) removes exactly the notices with those ids within that scope, and changes nothing
else: all other notices, their order and details stay the same, everywhere they are shown. A
silence header in a response affects that response only; one in a request affects the request, and
with "resp" its responses.''',
     ['inputs', 'configurations'], '''All subsets up to size 3 of the notices each corpus exchange raises
     (plus ids it does not raise) times all silencing scopes times header syntax variants.''',
     '''Tests silence two or three notices in two places.''',
     [H + 'blackboard.py', H + 'exchange.py', H + 'message.py', H + 'request.py', H + 'response.py', H + 'cli.py'],
     [('silence lists', 'blackboard.Blackboard.silence, Exchange.silence'),
      ('silence header', 'HTTPolice-Silence handling in request.py/response.py')], [],
     ['notices and reports'])

prop('C10', 'Reports and exit status agree with the notices', '''
Every report format shows every exchange, in order, and every notice of every message exactly once
under its message, with its number, severity and title, and nothing more. The exit status is
nonzero exactly when the requested failure threshold is reached by some notice shown.''',
     ['inputs', 'configurations'], '''All multisets up to size 3 of notices (every known notice at least once) placed
     on every combination of request, interim and final responses, times failure thresholds, times
     formats, through the library and the command line.''',
     '''Tests compare a few reports by eye or by substring.''',
     [H + 'reports/text.py', H + 'reports/html.py', H + 'reports/common.py', H + 'cli.py', H + 'notice.py'],
     [('renderers', 'reports/'), ('exit status', 'cli.run_cli')], [],
     ['report text and HTML, exit status'])

prop('C11', 'Hostile message content cannot break a report', '''
No content of a message (in any field) can introduce markup, attributes or script into the HTML report, nor add
or split report lines in the text report: the structure of a report depends only on the number
and kind of messages and notices. Both reports are always valid UTF-8.''',
     ['inputs'], '''Every field of a message times an alphabet of hostile strings (markup, quotes,
     CR/LF, control, non-Latin and surrogate characters) times all pairs of fields.''',
     '''Tests never put markup or line breaks in most fields.''',
     [H + 'reports/html.py', H + 'reports/text.py', H + 'reports/common.py', H + 'util/text.py'],
     [('escaping by the HTML builder', 'reports/html.py'), ('printable, ellipsize', 'util/text.py')], [],
     ['report bytes'])

prop('C12', 'The grammar engine accepts exactly the language of the grammar', '''
For every grammar that can be written with the grammar notation (sequence, ordered alternatives, optional,
repetition, counted repetition, exclusion, recursion), the parser accepts exactly the strings
the notation denotes, and the value it returns is the one prescribed by the grammar's
actions for a parse of the whole string.''',
     ['programs', 'inputs'], '''All grammars up to a size bound over the combinators with an alphabet of
     2-3 symbols, times all strings up to a length bound.''',
     '''Tests have about fifteen hand-made grammars; an engine error shows for particular nestings
     of nullable, repeated and ambiguous parts.''',
     [H + 'parse.py'],
     [('Earley recogniser and tree extraction', 'parse.py'), ('grammar combinators', 'parse.py')],
     [], ['parse.parse'])

prop('C13', 'A header is reported as malformed exactly when it breaks its grammar', '''
For every header whose syntax the tool knows, a value is reported as a syntax error if and only if
it is outside the grammar in the specification that defines it (including the list and
whitespace rules of HTTP). The same holds for request targets,
methods, header field names, reason phrases, and the arguments of known directives and parameters.''',
     ['inputs'], '''Per header: all strings over a small token alphabet up to a length bound, and all
     single-token edits of a set of valid seeds.''',
     '''Tests have a few valid and invalid values for each header.''',
     [H + 'syntax/', H + 'header.py', H + 'known/header.csv', H + 'parse.py'],
     [('grammars', 'syntax/rfc*.py'), ('header views', 'header.py')], [],
     ['presence of syntax-error notices'])

prop('C14', 'A syntax error is located where the text first goes wrong', '''
When a text does not match its grammar, the error names the first position at which no valid
continuation exists, the character found there, and exactly the set of things the grammar could
have accepted at that position (where it says as part of which construct, exactly the nearest enclosing constructs
that are marked to be named, if any). A syntax error is never reported for a matching text.''',
     ['programs', 'inputs'], '''All strings up to a bound against all small grammars of C12, and all single
     edits of valid values against the real header grammars.''',
     '''Tests check the position for four inputs.''',
     [H + 'parse.py', H + 'reports/html.py'],
     [('error reporting', 'parse.py ParseError construction')], [],
     ['ParseError attributes, text of the syntax-error notices'])

prop('C15', 'Equivalent spellings get equal verdicts', '''
Rewriting a message in a way that HTTP defines as meaningless does not change its set of notices:
letter case of header names and of case-insensitive values, whitespace around header values and list items, splitting a list
header into several fields or joining them, empty list elements, and the relative order of fields with different
names.''',
     ['inputs'], '''Every corpus message times every applicable single rewriting at every position, and
     all pairs of rewritings.''',
     '''Each test uses one spelling.''',
     [H + 'header.py', H + 'structure.py', H + 'syntax/', H + 'request.py', H + 'response.py', H + 'message.py'],
     [('header views', 'header.py'), ('case-insensitive strings', 'structure.py')], [],
     ['notice ids'])

prop('C16', 'Method and status rules are applied in exactly the right contexts', '''
Requirements that tie a header, a body, a method or a status code to each other (which responses
may have a body or Content-Length, which methods a header is defined for, required headers such as Allow, Location,
WWW-Authenticate, Upgrade, Host and Content-Type) are reported exactly when their condition holds
for that combination of request and response.''',
     ['inputs', 'configurations'], '''Full products of methods x status codes x versions x relevant
     header sets x body states, judged by an independent model of the rules.''',
     '''Tests check one or two points for each rule; a wrong range or a missed exemption lies between them.''',
     [H + 'request.py', H + 'response.py', H + 'message.py', H + 'known/'],
     [('rules', 'request.check_request, response.check_response_*'), ('registries', 'known/*.csv')], [],
     ['notice ids of each message'])

prop('C17', 'Cacheability, freshness and staleness are judged correctly', '''
Whether a response came from a cache, is heuristically cacheable, is stale, or contradicts
its caching headers (Cache-Control, Pragma, Expires, Age, Date, Last-Modified, Vary, Warning) is decided as the HTTP caching
specification prescribes for every combination of those headers, method and status, and notices
about caching appear exactly when their conditions hold.''',
     ['inputs', 'configurations'], '''Products of directive subsets x ages x dates x status codes x
     methods around every boundary value, judged by an independent model.''',
     '''Tests cover a few combinations; arithmetic and boundary errors lie between them.''',
     [H + 'response.py', H + 'request.py', H + 'header.py', H + 'known/cache_directive.csv'],
     [('derived caching facts', 'response.Response.from_cache/stale/heuristic_expiration/...'),
      ('cache directive rules', 'message/response checks')], [],
     ['notice ids, derived values'])

prop('C18', 'Sequences of responses to one request are judged correctly', '''
For any sequence of interim and final responses to a request, the tool reports exactly the
sequencing faults present: a response after the final one, an interim response that is
not allowed for the version of the request, a 101 switch that is out of place (not asked for, without Upgrade, or before
an expected 100), a rejected or accepted upgrade that says the opposite, and a needless or unasked expectation.''',
     ['histories'], '''All sequences up to length 4 of responses from an alphabet of status codes and
     versions, for requests with every combination of version, Expect and Upgrade.''',
     '''Tests have five such sequences.''',
     [H + 'response.py', H + 'request.py', H + 'exchange.py'],
     [('sequence rules', 'response.check_responses')], [],
     ['notice ids'])

prop('C19', 'Capture files of one connection are paired and none is lost', '''
Given a directory of per-direction capture files (tcpflow or tcpick naming), the two
directions of each connection are paired with each other and with no other, client and server roles are
recognised, one-sided or unrecognisable connections are reported, and no file is
silently ignored unless documented. The outcome does not depend on the order in which the
operating system lists the directory.''',
     ['schedules', 'inputs'], '''All subsets of a set of stream files (both directions, several connections, reused
     ports, extra files) times all directory listing orders.''',
     '''Tests have four directories in one listing order.''',
     [H + 'inputs/streams.py'],
     [('file name parsing and pairing', 'inputs/streams.py tcpick_input, tcpflow_input'),
      ('direction sniffing', 'inputs/streams.py _sniff_direction')], [],
     ['exchanges and notices'])

prop('C20', 'Exchanges of several connections are reported in time order', '''
When a directory holds several connections, the exchanges of each connection stay in
order, every exchange is reported exactly once, and exchanges of different connections are interleaved
by the time known for them.''',
     ['schedules', 'histories'], '''All assignments of times (including unknown) to the exchanges of up to
     3 connections with up to 3 exchanges each.''',
     '''Tests have one such directory.''',
     [H + 'inputs/streams.py'],
     [('merge', 'inputs/streams.py _rearrange_by_time')], [],
     ['order of exchanges'])

prop('C21', 'A HAR file is imported faithfully', '''
Every entry of a HAR file becomes exactly one exchange, in order, with the method, target, version,
headers, status, reason and body that the entry records, allowing for the documented quirks of the
known producers; anything the HAR file does not reliably tell (a version, a body, its encoding) is
treated as unknown rather than guessed.''',
     ['inputs', 'configurations'], '''Products of values for every HAR field the importer reads, times creator
     names.''',
     '''Tests import eight real files.''',
     [H + 'inputs/har.py'],
     [('import', 'inputs/har.py')], [], ['exchanges'])

prop('C22', 'Not knowing something only removes the complaints that depend on it', '''
If part of an exchange is unknown (the version of a message, the scheme, a body, the reason phrase, or the whole request
that goes with a response), then every error or comment reported about it is also reported, about the same message, however the unknown
part is filled in (consistently with the rest: a response to HEAD has no body, and neither does a request in HTTP/1.x without Content-Length and
Transfer-Encoding). Conversely, an error or comment that is reported whatever the version, body, reason phrase or scheme is
also reported when that is unknown (except those that compare URIs, when the scheme is unknown).''',
     ['inputs', 'configurations'], '''Every corpus exchange times every subset of fields made unknown, compared
     with all completions from a set.''',
     '''Tests use incomplete exchanges only in HAR files.''',
     [H + 'message.py', H + 'request.py', H + 'response.py', H + 'structure.py', H + 'header.py'],
     [('unknown values', 'structure.Unavailable, okay, None versions')], [], ['notice ids'])

prop('C23', 'Structured headers are judged by what they say', '''
For headers that carry directives or parameters (Cache-Control, Strict-Transport-Security, Prefer,
Preference-Applied, Forwarded, Content-Disposition, WWW-Authenticate, Authorization, Link, Accept,
Alt-Svc), every notice about a missing, duplicated, conflicting, unknown or ill-formed
directive or parameter appears exactly when that is true of the value.''',
     ['inputs'], '''All sequences up to length 3 over per-header alphabets of directives and parameters (valid, duplicated,
     case-varied, quoted, valueless, wrong-valued), judged by an independent model.''',
     '''Tests have one or two values for each notice.''',
     [H + 'header.py', H + 'request.py', H + 'response.py', H + 'message.py', H + 'syntax/', H + 'known/'],
     [('directive views', 'header.DirectivesView and subclasses'), ('rules', 'request.py, response.py')],
     [], ['notice ids'])

prop('C24', 'Conforming exchanges are never accused', '''
An exchange that follows the HTTP specifications, in any combination of standard methods,
statuses, headers and bodies, gets no notice of severity "error", and every standard header, method, status code,
directive and media type is recognised as known.''',
     ['inputs', 'configurations'], '''All combinations from a generator of conforming messages (optional
     parts on or off, alternative spellings), all registry entries.''',
     '''Tests of clean captures are a handful; a false alarm needs a legal combination nobody wrote down.''',
     [H + 'request.py', H + 'response.py', H + 'message.py', H + 'known/', H + 'syntax/', H + 'header.py'],
     [('rules', 'request.py, response.py, message.py'), ('registries', 'known/*.csv')], [],
     ['notice ids and severities'])

prop('C25', 'Bodies are checked against their declared type', '''
A body declared as JSON, XML, a URL-encoded form or multipart, in any character encoding, is
reported as malformed exactly when it is (after decoding), problem documents and
patches are typed by their media type, and nothing is reported about a body whose type is not declared, that is partial or unavailable,
or that the message does not have (1xx, 204, 304, HEAD, a request without body).''',
     ['inputs'], '''Media types x charsets x all short bodies over a token alphabet of each format, x
     content codings.''',
     '''Tests have one good and one bad body for each type.''',
     [H + 'message.py', H + 'known/media_type.csv', H + 'util/text.py'],
     [('payload properties', 'message.Message.json_data, xml_data, url_encoded_data, multipart_data')],
     [], ['notice ids, payload values'])

prop('C26', 'Conversion helpers translate faithfully', '''
pop_pseudo_headers takes exactly the HTTP/2 pseudo-headers out of a header list and returns them, leaving the
other entries in place and in order; headers_from_cgi yields exactly the header fields of the CGI/WSGI environment, Host first,
with their values, and nothing else, so that checking a message built with these helpers gives the same notices
as checking the message itself.''',
     ['inputs'], '''All lists of up to 4 entries over an alphabet of pseudo- and ordinary headers; all
     environments over an alphabet of variables.''',
     '''Tests have two examples for each helper.''',
     [H + 'helpers.py'], [('helpers', 'helpers.py')], [], ['return values'])

prop('C27', 'Version, proxy, TLS and upgrade rules follow the context', '''
Rules that depend on the protocol version, on TLS, or on whether the request was sent to a proxy
(target forms, hop-by-hop and connection headers, Transfer-Encoding, Upgrade, Via, HTTP/2 restrictions,
https-only headers) are applied exactly in the contexts where they hold, in both directions of the exchange.''',
     ['inputs', 'configurations'], '''Full products of request and response versions x schemes x target forms x
     proxy knowledge x connection headers, judged by an independent model.''',
     '''Tests check single points of this product.''',
     [H + 'request.py', H + 'response.py', H + 'message.py', H + 'exchange.py'],
     [('rules', 'request.check_request, message.check_message, response.check_response_in_context'),
      ('context derivation', 'request.Request.is_to_proxy, is_tls, effective_uri')], [], ['notice ids'])

prop('C28', 'Conditional and range requests are judged correctly', '''
For every combination of preconditions, validators, range requests and partial or not-modified
responses, the notices about them (wrong status, missing or conflicting headers, ranges that do
not match the request or each other, weak or mismatched validators) appear exactly when their conditions hold.''',
     ['inputs', 'configurations'], '''Products of precondition headers x validators x ranges x statuses x
     multipart forms, judged by an independent model.''',
     '''Tests check single points.''',
     [H + 'response.py', H + 'request.py', H + 'syntax/rfc7232.py', H + 'syntax/rfc7233.py'],
     [('rules', 'response.check_response_in_context and request rules')], [], ['notice ids'])

prop('C29', 'A report points at what each notice is about', '''
In the HTML report, every reference from a notice leads to the header field, body, trailer or
start line that the notice is about, of the message it is about (within one exchange), and
the header names and values quoted in a notice's text are those of the message.''',
     ['inputs'], '''Every notice-raising corpus exchange, alone and in all ordered pairs, with its
     headers duplicated and permuted.''',
     '''Tests never look at the references in a report.''',
     [H + 'reports/html.py', H + 'notice.py', H + 'header.py'],
     [('reference resolution', 'reports/html.py')], [], ['HTML report'])

prop('C30', 'The report shows every message as it was received', '''
The HTML report shows, for each message, its method, target, version, status, reason, all header
fields in order with their values, its body and trailers, with the text as received (with unprintable characters
replaced), whatever annotations are added to it. Instead of a reason that was not given, the registered one is shown.''',
     ['inputs'], '''Every header with valid values from its grammar, all message shapes, all body kinds.''',
     '''Tests never compare the displayed message with the original.''',
     [H + 'reports/html.py', H + 'parse.py', H + 'message.py', H + 'header.py'],
     [('annotated rendering', 'reports/html.py'), ('annotation extraction', 'parse.py')], [], ['HTML report'])

prop('C31', 'The same input always gives the same report', '''
Analysing the same input gives the same report, byte for byte, in every process, for any hash
seed.''',
     ['schedules', 'configurations'], '''A corpus of inputs that raises every kind of notice, under all hash
     seeds of a set and repeated processes.''',
     '''Tests run in one process with one hash seed.''',
     [H + 'parse.py', H + 'reports/', H + 'request.py', H + 'response.py'],
     [('ordering of sets in reports', 'reports/html.py')], [], ['report bytes'])

prop('C32', 'A notice names exactly the parts that break its rule', '''
When a rule is about parts of a message (header or trailer fields, list elements, directives, warning
codes, parameters, preferences, media types, credentials, parts of a multipart body), every part that breaks the rule
is named by a notice, whatever other parts (breaking or innocent) surround it and in whatever
order, and no innocent part is named; a rule that by design names only one of them names the first.''',
     ['inputs'], '''All sequences of up to 3 of 5 to 18 breaking and innocent elements of each header with
     elements or parameters, on one line, on several lines and across header and trailers; all sets of up to 3 of
     a space of fields; all sequences of up to 4 body parts and responses.''',
     '''Tests raise each notice once, for one part, and look at its number only; a loop that stops at the first culprit,
     or names the wrong one, passes them.''',
     [H + 'message.py', H + 'request.py', H + 'response.py', H + 'header.py', H + 'syntax/', H + 'structure.py'],
     [('loops over fields and elements', 'message.check_message, request.check_request, response.check_response'), ('arguments of directives', 'header.ArgumentsView')], [], ['variables of the notices'])
