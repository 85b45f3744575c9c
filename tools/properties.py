def P(id, title, statement, over, text, why, files, mechanism, state=(), observe=()):
    d = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
         'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mechanism]}}
    if state:
        d['anchors']['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in state]
    if observe:
        d['anchors']['observe_at'] = list(observe)
    return d
PROPERTIES = [
P('C01', 'Reading untrusted JSON, form or binary data never leaves the data',
  'Whatever bytes are given to the JSON, HTML form or binary reader and in whatever order its functions are called, it reads only inside the given bytes and its own objects, '
  'and the strings it returns (values and member names) lie in memory that is valid when they are returned.',
  ['inputs', 'histories'], 'every byte sequence, complete or truncated anywhere; every sequence of calls of IStructuredInput with every combination of flags, including stored and restored positions; array functions are called only between start and end',
  'The tests parse a dozen well formed texts; reading past the end needs text truncated inside a particular token.',
  ['bomba_json.hpp', 'bomba_http.hpp', 'bomba_binary_protocol.hpp', 'bomba_core.hpp'],
  [('JSON reader', 'bomba_json.hpp BasicJson::Input'), ('form reader', 'bomba_http.hpp HtmlMessageEncoding::Input, demangleHttpResponse'), ('binary reader', 'bomba_binary_protocol.hpp BinaryFormat::Input, LittleEndianNumberFormat')],
  state=[('_position', 'next byte to read, never beyond the end', 'each Input')],
  observe=['IStructuredInput']),
P('C02', 'The HTTP server never leaves the memory it was given, whatever clients send',
  'Whatever bytes a client sends, however they are cut into pieces and whatever the user\'s responders do, the HTTP server reads and writes only inside the received data and its own objects. '
  'The path, content type and body given to responders lie inside the received data, and no null or ended object is used.',
  ['inputs', 'histories'], 'every byte sequence, every division of it into pieces, every number of requests on a connection, every behaviour of the responders',
  'The tests send a handful of well formed requests and one cut in the middle; a missing bound shows only with input truncated at a particular place.',
  ['bomba_http.hpp', 'bomba_core.hpp'], [('incremental header parser', 'bomba_http.hpp HttpParseState::parse'), ('request line and header readers', 'bomba_http.hpp HttpServer::Session::ParseState'), ('response writer', 'bomba_http.hpp HttpServer::Session::respond')],
  observe=['ITcpResponder::respond', 'IHttpGetResponder::get', 'IHttpPostResponder::post']),
P('C03', 'Output buffers never write outside the memory they own',
  'Whatever sequence of characters and ranges is appended to any of the output buffers (streaming, fixed size, growing), every write lands inside memory the buffer owns and everything it hands out (to its writer or as its contents) lies inside that memory.',
  ['inputs', 'histories'], 'every sequence of appended characters and ranges of every length up to 2^30, interleaved with reading and clearing',
  'The tests append a few short strings; the boundaries (a range that ends exactly at, one before or far beyond the capacity, after a clear) are not sampled.',
  ['bomba_core.hpp'], [('appending', 'bomba_core.hpp GeneralisedBuffer'), ('flushing and growing', 'bomba_core.hpp NonOwningStreamingBuffer, NonExpandingBuffer, ExpandingBuffer')],
  observe=['appending operators', 'conversion to a view', 'the writer callback']),
P('C05', 'Every HTTP request gets exactly one response, never early and never two',
  'Whatever a client sends and whatever the responder does (answers, refuses, answers without writing, throws before or after it started to write), a request that the server finishes processing without closing the connection gets exactly one response and the responder is called at most once for it. '
  'Nothing is sent and no responder is called before the request is complete; when the server closes the connection, it has sent at most one response to that request.',
  ['inputs', 'histories', 'faults'], 'every byte sequence in every division into pieces, every number of requests on a connection, every way a responder may answer or fail',
  'The tests check the response to a few well formed requests with responders that succeed; a second response after a late exception or a response to half of a request needs a particular combination of failure and cut.',
  ['bomba_http.hpp'], [('answering a request', 'bomba_http.hpp HttpServer::Session::respond'), ('writing a response', 'bomba_http.hpp HttpServer GetResponse/WriteStarter')],
  observe=['the writer callback of ITcpResponder::respond', 'the reaction returned']),
P('C06', 'An HTTP request consumes exactly its own bytes, wherever it is cut',
  'When the HTTP server reports a request as processed, the number of consumed bytes is positive, no more than what was received and, for requests with a body, it ends exactly where the body given to the responder ends, so that the next request starts at the right place. '
  'A request of which only a part has arrived is waited for and is not processed, and when the rest comes, it is consumed as a whole and the bytes that follow it are left, independently of where it was cut and of earlier requests.',
  ['inputs', 'histories'], 'every byte sequence and division into pieces for the first part; four fixed requests (GET, typed POST, untyped and empty POST, POST with Connection: close) at every place of cutting after any earlier request and followed by any bytes for the second part',
  'The tests cut one request at one place; pipelined requests and cuts inside line endings or numbers are not sampled.',
  ['bomba_http.hpp'], [('incremental header parser', 'bomba_http.hpp HttpParseState::parse'), ('body length', 'bomba_http.hpp HttpServer::Session::respond')],
  observe=['the reaction and number of bytes returned by ITcpResponder::respond']),
P('C07', 'Earlier requests on a connection never influence what a later request means',
  'After any earlier request on the same connection (or none), a complete well formed request is given once to the responder of its method with its own path, content type and body, is answered after the responder decided, and the connection is kept or closed as that request asks. '
  'No method, path, content type, body length or Connection header left from an earlier request takes part.',
  ['inputs', 'histories'], 'every earlier request, answered in every way and received in any pieces; four fixed requests (GET, typed POST, untyped and empty POST, POST with Connection: close) cut at every place',
  'The tests send at most two similar requests on one connection; leftovers show only for particular pairs of requests (POST then GET, close, typed then untyped).',
  ['bomba_http.hpp'], [('per request state', 'bomba_http.hpp HttpServer::Session::ParseState, HttpParseState'), ('state reset', 'bomba_http.hpp HttpServer::Session::respond')],
  state=[('ParseState', 'what was parsed from the request that is being received', 'bomba_http.hpp HttpServer::Session')],
  observe=['IHttpGetResponder::get', 'IHttpPostResponder::post', 'the reaction returned by ITcpResponder::respond']),
P('C11', 'Any headers can be included in any number of source files',
  'Each header can be included alone, repeatedly and together with all others in any order of the two tried, and nothing in the headers is defined so that two source files of one program that include them conflict at linking or have separate copies of a variable.',
  ['configurations'], 'every header alone and all together (forwards and backwards), every function and variable they define; TLS headers included',
  'Every test program is a single source file, so a function that is not inline or a variable in a header links there.',
  ['bomba_core.hpp', 'bomba_http.hpp', 'bomba_json.hpp', 'bomba_rpc_object.hpp', 'bomba_sync_client.hpp', 'bomba_tcp_server.hpp'],
  [('header guards and inline functions', 'all headers')], observe=['linking two source files']),
P('C18', 'A TCP connection offers exactly the bytes received and not yet consumed',
  'Whatever amounts the network delivers and the responder consumes, each call of the responder gets a range as long as what was received and not consumed yet, lying inside memory of the connection; '
  'there is always space to receive more, this space lies inside memory of the connection, and nothing outside it is read or written when leftovers are moved or a long message is collected.',
  ['inputs', 'histories'], 'every sequence of receptions of every length, every reaction and number of consumed bytes, including messages far longer than the fixed buffer',
  'The tests send short messages over a loopback connection; the moves between the fixed buffer and the vector of long leftovers depend on exact sizes and division into packets.',
  ['bomba_tcp_server.hpp'], [('collecting and moving received data', 'bomba_tcp_server.hpp TcpServerBuffer::receive')],
  state=[('_keptStart, _keptEnd', 'range of received data not consumed yet', 'bomba_tcp_server.hpp TcpServerBuffer'), ('_longLeftovers', 'a message that does not fit the fixed buffer', 'bomba_tcp_server.hpp TcpServerBuffer')],
  observe=['ITcpServerSession::feedToResponder', 'TcpServerBuffer::space']),
P('C04', 'The TCP server keeps serving, whatever happens to single connections',
  'Whatever the network reports about connections (data, their end, errors when accepting or later) in any order and whatever the responders do (answer, refuse, throw), nothing is thrown out of the functions the network calls, '
  'the server goes on waiting for further connections, each connection waits for its data once at a time until it ends and is forgotten exactly then, and no connection or session is used after it was destroyed, '
  'even if another thread handles the next data of the connection before the handler of the previous data is done.',
  ['inputs', 'schedules', 'histories'], 'three connections with any order of events at them, one connection with any number of events, every error, every reaction of the responder',
  'The tests use one or two well behaved connections; failures of single operations and the order in which connections end are not under their control.',
  ['bomba_tcp_server.hpp'], [('handlers of accepted connections and received data', 'bomba_tcp_server.hpp TcpServer::startSession, TcpServer::Session::readSome'), ('removal of ended sessions', 'bomba_tcp_server.hpp TcpServer::destroySession')],
  state=[('_sessions, Session::_index', 'sessions of open connections and their places', 'bomba_tcp_server.hpp TcpServer')],
  observe=['the networking library: what is accepted, received, closed and destroyed']),
P('C10', 'Objects that threads share are protected by locks or atomic operations',
  'What any thread changes in a TcpServer and its sessions, in a CachingFileServer (any of its functions), or in a DynamicFileServer or HttpServer that is serving, is accessed by all threads with a common lock held (exclusively for changes) or only with atomic operations. '
  'A function returns with no lock held, however it ends, and never waits for a lock it already holds, and a session is not used after another thread can have destroyed it.',
  ['schedules'], 'every interleaving (the lock sets do not depend on it)',
  'The tests run the servers in one background thread; races need two threads at the same place at the same time and usually stay invisible.',
  ['bomba_tcp_server.hpp', 'bomba_download_server.hpp', 'bomba_http.hpp'], [('sessions and statistics', 'bomba_tcp_server.hpp TcpServer'), ('the cache of files', 'bomba_download_server.hpp CachingFileServer')],
  state=[('_sessions, _totalResponses, _totalResponseTime', 'shared by all threads of the server', 'bomba_tcp_server.hpp TcpServer'), ('_cache, _fileNames, _modifiers', 'shared by all threads that use the CachingFileServer', 'bomba_download_server.hpp')],
  observe=['accesses to shared objects and the locks held']),
P('C08', 'Written JSON and forms are well formed and denote exactly what was written',
  'For any sequence of calls of the structured output that follows its contract (values, nested arrays and objects, names, optional values, empty containers, any flags), the JSON writer produces one JSON value and the form writer a form: '
  'brackets, commas, colons, & and = are where the grammar needs them, control characters and those with a special meaning are encoded, and names and texts decode to the characters that were written, also by the readers in this library.',
  ['inputs', 'histories'], 'every sequence of calls with up to two levels of nesting and any number of elements; texts of every single character below U+0900 and at the limits of longer encodings, control characters before any other character; numbers are taken for words without inner structure',
  'The tests write one document with friendly texts; a comma missing after an empty container, a control character or an encoding at a limit shows only for particular sequences.',
  ['bomba_json.hpp', 'bomba_http.hpp'], [('JSON writer', 'bomba_json.hpp BasicJson::Output'), ('form writer', 'bomba_http.hpp HtmlMessageEncoding::Output, mangleHttpResponse')],
  observe=['IStructuredOutput and the text it produces']),
P('C12', 'Values are read as the format defines them and skipped as a whole',
  'Reading a number, text, truth value, null, array or object from JSON or the binary format gives the value that the format (or the writer in this library) put there and ends exactly where it ends; escape sequences mean the right characters, the type of a JSON value is identified from its beginning, '
  'every member and element is visited exactly once in order, and skipping a value of any type skips it as a whole and nothing after it.',
  ['inputs'], 'all numbers of each binary type (64-bit ones below 2^58), all characters of texts, arrays and objects of up to three elements in the binary format; all escape sequences and sixteen kinds of JSON values with any letters inside and with or without spaces around',
  'The tests read what a few friendly values were written as; escapes at the limits of encodings, values of some type skipped before another, quotes and brackets inside of texts are not sampled.',
  ['bomba_json.hpp', 'bomba_binary_protocol.hpp'], [('JSON reader', 'bomba_json.hpp BasicJson::Input'), ('binary reader and writer', 'bomba_binary_protocol.hpp BinaryFormat, LittleEndianNumberFormat')],
  observe=['IStructuredInput']),
P('C13', 'Objects of user defined types come back as they were written',
  'A Serialisable object (with numbers, truth values, arrays and other objects inside) and the supported containers (optional values, pointers, arrays, vectors, texts, maps) that are written as JSON or in the binary format are equal after reading, whatever was in the object read into before. '
  'Members are found by their names in any order, unknown ones are skipped and missing ones keep their values.',
  ['inputs', 'histories'], 'one type of object with nested objects and arrays, with any values (binary) or values at the limits (JSON), members in any order with one of four unknown ones anywhere; containers of up to two elements, read into containers with up to three',
  'The tests write and read one object in one order; leftovers of earlier contents, unknown members between known ones and the layout found by the reflection for particular types are not sampled.',
  ['bomba_object.hpp', 'bomba_core.hpp', 'bomba_json.hpp', 'bomba_binary_protocol.hpp'], [('reflection', 'bomba_object.hpp Serialisable::setup, ObjectInfo'), ('serialisation of types', 'bomba_core.hpp TypedSerialiser')],
  observe=['TypedSerialiser::serialiseMember, TypedSerialiser::deserialiseMember']),
P('C14', 'A JSON-RPC client takes results only from successful responses to its request',
  'Whatever comes back, in whatever order of members: the client reports a response as received and hands a value to its reader only if the transport succeeded, the member is the result, and the response has no error, no id of another request and no other protocol version; anything else is reported as an error or as not received. '
  'A request it sends has version 2.0, the id under which the response will be awaited, the method and params, each exactly once.',
  ['inputs'], 'all responses as sequences of members with any values and failures at any place, all outcomes of the transport, all requests',
  'The tests read a handful of responses with fixed members in one order; mismatched ids, errors after results, missing results and transport failures in combination are not sampled.',
  ['bomba_json_rpc.hpp'], [('reading a response', 'bomba_json_rpc.hpp JsonRpcClientProtocol::getResponse'), ('writing a request', 'bomba_json_rpc.hpp JsonRpcClientProtocol::send')],
  observe=['getResponse and its reader', 'what the transport is asked to send']),
P('C20', 'A JSON-RPC request with id gets one response: same id, a result or an error',
  'Whatever the members of the request are, in any order and number, and whatever the method does (returns, throws, reports an error, is not a method): a request with an id gets one response object with the version, the same id (same type and value) and exactly one result or error, a request without id gets none. '
  'The method is called at most once, with the params of its request wherever they stand (or none when there are none), and exactly once if the request is right; a call that succeeded is answered by a result and one that failed by an error. '
  'In an array of requests each is handled by itself: the next is read from where the previous one ends even if that one failed, and the responses form one array.',
  ['inputs', 'faults'], 'all sequences of members of one request with any values and failures at any place, all behaviours of methods, arrays of any number of requests (there with members in a fixed order)',
  'The tests have a few requests in two or three orders of members with methods that succeed; the order of members decides when and how the method is called, duplicates and failures in the middle are not sampled.',
  ['bomba_json_rpc.hpp'], [('handling one request', 'bomba_json_rpc.hpp JsonRpcServerProtocol::respondInternal'), ('arrays of requests', 'bomba_json_rpc.hpp JsonRpcServerProtocol::post')],
  observe=['JsonRpcServerProtocol::post: the response written and the calls of IRemoteCallable']),
P('C09', 'HTTP responses are well framed and say what the user meant',
  'For every way a responder answers (a body of known or unknown size written in any parts, nothing, refusal, an exception before or during writing) and for unsupported methods, what the server sends is exactly one well formed HTTP response: '
  'the status says how the request ended, the length is said once and equals the number of bytes after the header, and the type and body are those the responder gave.',
  ['inputs', 'faults'], 'all ways of answering; bodies of eleven sizes around the places where lengths get another digit or the buffer grows, up to 150 bytes, written in three ways, containing line ends and texts that look like headers',
  'The tests look at a response or two with short bodies; a wrong length or a header written into the body shows only for sizes around the growth of the buffer or for particular failures.',
  ['bomba_http.hpp', 'bomba_core.hpp'], [('writing a response', 'bomba_http.hpp HttpServer GetResponse/WriteStarter')],
  observe=['the writer callback of ITcpResponder::respond']),
P('C15', 'HTTP requests and responses of this library fit together, wherever cut',
  'A request sent by the HTTP client arrives at the HTTP server with the path, type and body the client gave, one after another, and takes exactly its own bytes. '
  'A response is given to the reader of the request it answers, once, with its whole body and the right success, in whichever order the responses are asked for and wherever the data are cut on the way; it is announced as available exactly when it arrived as a whole.',
  ['inputs', 'schedules'], 'a GET or POST request with a body of seven sizes up to 100 bytes written in three ways and one request after it; three responses cut anywhere asked for in every order; two responses polled before they arrived',
  'The tests do one request at a time through the loopback interface, where nothing is cut and responses are taken in the order of requests.',
  ['bomba_http.hpp'], [('requests and responses of the client', 'bomba_http.hpp HttpClient'), ('requests at the server', 'bomba_http.hpp HttpServer::Session')],
  state=[('_responses and the parser state', 'how far the current response was read', 'bomba_http.hpp HttpClient')],
  observe=['HttpClient::getResponse, hasResponse', 'IHttpGetResponder::get, IHttpPostResponder::post']),
P('C16', 'A binary remote call calls the meant method once and returns its result',
  'A call through the binary protocol calls the method that was meant, once, with the arguments that were given, and its result gets to the caller, wherever the requests and responses are cut on the way and in whichever order the results are asked for. '
  'An incomplete request is waited for, a method that fails ends the connection with nothing sent, and any other bytes are handled without leaving the memory, with at most one response to one call of a method.',
  ['inputs', 'schedules', 'faults'], 'two calls, of any of five methods in a tree of three levels, any arguments and results, every place of a cut, both orders of asking; any bytes of any length given to the server',
  'The tests do single calls through one connection that does not cut anything, with methods that succeed.',
  ['bomba_binary_protocol.hpp'], [('requests at the server', 'bomba_binary_protocol.hpp BinaryProtocolServer::Session::respond'), ('requests and responses at the client', 'bomba_binary_protocol.hpp BinaryProtocolClient')],
  observe=['IRemoteCallable::call', 'BinaryProtocolClient::getResponse, hasResponse', 'the writer callback of ITcpResponder::respond']),
P('C17', 'File servers serve only files inside their folder, whole or not at all',
  'Whatever path a client asks for, DynamicFileServer opens only files inside the folder it was given, none whose name or the name of a folder on the way starts with a dot and nothing above the folder. '
  'A file is announced with its size and exactly that many bytes are sent; a file that cannot be opened is not found, and one that cannot be read to the announced end is not reported as sent. '
  'CachingFileServer opens no files when it is asked for them.',
  ['inputs', 'faults'], 'all paths of up to six characters, each a dot, a slash or any other character; files of any size up to 2^40 that end or fail at any place',
  'The tests ask for two or three files that exist; ways out of the folder and files that change while they are sent are not sampled.',
  ['bomba_download_server.hpp'], [('choosing the file', 'bomba_download_server.hpp DynamicFileServer::get'), ('sending the file', 'bomba_download_server.hpp DynamicFileServer::get')],
  observe=['files that are opened', 'IWriteStarter::writeKnownSize and its buffer']),
P('C19', 'Paths made for remote methods find these methods and no others',
  'The path that is constructed for a remote method consists of the names on the way to it divided by the separator and finds that method; a path with a name that does not exist finds nothing.',
  ['inputs'], 'a tree of three levels with names that are prefixes of each other and repeat at different levels, three separators of one or two characters, six wrong names',
  'The tests use a separator of one character and one method; separators of more characters and similar names are not sampled.',
  ['bomba_core.hpp'], [('paths', 'bomba_core.hpp PathWithSeparator')],
  observe=['PathWithSeparator::constructPath, PathWithSeparator::findCallable']),
P('C21', 'Output buffers hand out exactly what was appended to them, in order',
  'What a growing, fixed size or streaming buffer hands out (as its contents or to its writer) is what was appended since it was cleared, in the order of appending with nothing lost, repeated or changed (a fixed size buffer keeps what fits), and its size is the number of these bytes.',
  ['inputs', 'histories'], 'three appended ranges, characters or texts, the first two of every size up to beyond twice the initial capacity, with or without clearing or flushing before the third',
  'The tests append a few short strings; bytes get lost or repeated only where a range crosses the capacity of the buffer by particular amounts after particular earlier operations.',
  ['bomba_core.hpp'], [('appending', 'bomba_core.hpp GeneralisedBuffer'), ('flushing and growing', 'bomba_core.hpp NonOwningStreamingBuffer, NonExpandingBuffer, ExpandingBuffer')],
  observe=['conversion to a view or span, size', 'the writer callback']),
P('C22', 'Remote functions get the arguments given and callers get the results, once',
  'A function that is called remotely is called once, with the arguments of the request (by name in any order with unknown ones skipped, or by position; the last value of a repeated one, default values for missing ones) and the object it belongs to; each member is read once and the result is written once, after the function succeeded. '
  'A caller sends its arguments named and in order, and gets the result of its call, or an error, exactly once, also if it asks later, moves the Future or forgets it. Without a client, the function is called directly.',
  ['inputs', 'histories', 'faults'], 'functions with and without a result and an owner, with a number, a truth value and a text as arguments of any values; up to four members in any order; any outcome of the function and of the transport; the names of arguments are taken as found before main',
  'The tests call a few methods with the arguments in order and responses that succeed; repeated, missing and unknown arguments, failures and forgotten results are not sampled.',
  ['bomba_rpc_object.hpp', 'bomba_core.hpp'], [('calls at the server', 'bomba_rpc_object.hpp RpcLambdaParent::call, setArg'), ('calls at the client', 'bomba_rpc_object.hpp RpcLambdaParent::sendRequest, readResponse, Future')],
  observe=['IRemoteCallable::call', 'operator() and async() of remote functions', 'Future::get, Future::is_ready']),
P('C23', 'Functions put into holders and composed objects live as long as these do',
  'A function put into an RpcLambdaHolder or a DynamicRpcObject is the one that is called there, also after the holder or object is moved, it is destroyed exactly once when nothing holds it any more and never used afterwards; borrowed ones are not destroyed. '
  'A composed object finds what was added to it by its name and index, says that name and index, is known as the parent, finds nothing else and is not a function itself.',
  ['histories'], 'functions of three kinds (trivial, with a destructor, larger than the holder); two holders with two operations (moves both ways, a new function, borrowing) in any order; objects of up to three functions, moved and nested',
  'The tests move a holder once and have one object; functions with destructors, assignment over another function and growth of the object are not sampled.',
  ['bomba_dynamic_object.hpp', 'bomba_core.hpp'], [('ownership', 'bomba_dynamic_object.hpp RpcLambdaHolder'), ('members', 'bomba_dynamic_object.hpp DynamicRpcObject')],
  state=[('_isLocal, _owning', 'where the function is and whether it is destroyed with the holder', 'bomba_dynamic_object.hpp RpcLambdaHolder')],
  observe=['RpcLambdaHolder', 'DynamicRpcObject::getChild, childName']),
P('C24', 'Forms of web pages call the method they mean, once, with what they contain',
  'A GET request with a form in its path calls the method at that path once with the decoded values of the form, by their names in any order, and its result is the response unless a file is there, which then is the response; without a form or a method at the path, nothing is called and the file is the response or is not found. '
  'A POST request with a form calls the method at its path once; if there is none, nothing is called and the request is refused. A method or file that fails is an error and not a successful response.',
  ['inputs', 'faults'], 'eight paths to methods, groups and nothing in a tree of two levels; two orders of the values; a file of known or unknown size, no file or a failure to read; methods that succeed, report an error or fail',
  'The tests call one method with arguments in order and one file that exists; wrong paths, failures and files and methods of the same name are not sampled.',
  ['bomba_http.hpp', 'bomba_core.hpp'], [('forms in paths', 'bomba_http.hpp RpcGetResponder, DownloadIfFilePresent'), ('forms in bodies', 'bomba_http.hpp HtmlPostResponder')],
  observe=['IHttpGetResponder::get, IHttpPostResponder::post and their results', 'IRemoteCallable::call', 'IWriteStarter']),
P('C25', 'Descriptions of interfaces have each method and each type, as they are',
  'A JSON-WSP description is well formed and has one entry for each method under the name that calls it, with its documentation, its arguments in order, numbered from one, each with its type and whether it is optional, and the type of its result (null if there is none); '
  'each composed type that is used, also in a member or an element, has an entry with the names and types of its members.',
  ['inputs'], 'methods with up to two arguments of ten kinds of types and any of them or nothing as the result, groups nested twice with any of four methods, composed objects, types nested in members, optionals and lists',
  'The tests compare one description with a few methods; combinations of optional arguments, arrays, nested groups and nested types are not sampled.',
  ['bomba_json_wsp_description.hpp', 'bomba_object.hpp', 'bomba_dynamic_object.hpp', 'bomba_rpc_object.hpp'], [('descriptions', 'bomba_json_wsp_description.hpp'), ('nested types', 'bomba_object.hpp addMemberType'), ('methods', 'bomba_rpc_object.hpp RpcLambdaInformationHolder')],
  observe=['describeInJsonWsp', 'IRemoteCallable::generateDescription, listTypes']),
P('C26', 'The network client gives each response to the call it belongs to',
  'Whatever the order in which responses come and are asked for, and wherever the stream of them is cut, SyncNetworkClient gives each of them exactly once, whole and unchanged, to the call it belongs to; '
  'asking whether a response came is answered at once, with yes exactly if all of it came, and leaves it available; a response that came is never waited for, not even if processing an earlier one threw an exception; '
  'if the connection ends or fails, waiting ends with a RemoteError. Requests are sent whole and unchanged, however small parts the network accepts.',
  ['inputs', 'schedules'], 'three responses in any order cut once, two responses cut at any two places, the connection ended in any byte of a response, every way a request can be accepted in parts; responses have up to four bytes, larger ones (up to 6200 bytes) are judged by the amounts of data kept',
  'The tests use a local connection, where nothing is cut, nothing is sent in parts and no connection ends.',
  ['bomba_sync_client.hpp'], [('client', 'bomba_sync_client.hpp SyncNetworkClient'), ('its contract', 'bomba_core.hpp ITcpClient')],
  observe=['SyncNetworkClient::getResponse, tryToGetResponse, writeRequest']),
]
NOT_APPLICABLE = {
}
