"""Which analyses decide which property"""
MEMORY = ['bounds-read', 'bounds-write', 'bounds-length', 'null-read', 'null-write', 'null-call', 'use-after-free', 'double-free', 'assert']
ENGINE_ASSUMPTIONS = [
    'sizes of inputs and buffers stay below 2^30 bytes and 64-bit numbers below 2^61 in absolute value',
    'the standard library behaves as specified; its assertions (_GLIBCXX_ASSERTIONS) are obligations',
    'accesses through pointers whose target the analysis lost are not judged (they are listed as calls_treated_as_unknown where a call caused it)',
]
INTERPRETATION = ('Abstract interpretation (intervals, octagon-like relations, affine equalities, byte sets, regions) of the LLVM IR of the repository\'s '
                  'headers instantiated by a most general client: every input byte, length, split and user decision in the driver is an unknown value. '
                  'Each site counted is a place in the code where the obligation has to hold for all abstract states reaching it. ')
E2 = 'abstract interpretation of LLVM IR (own analyser, relational numeric domain, most general client)'
E2_NOTE = 'Every obligation is discharged for all abstract states, hence all concrete ones, within the stated assumptions; alarms can be false where the domain is too weak, there are none on the current tree.'
LITERAL = ['scn_http_get_request', 'scn_http_post_request', 'scn_http_close_request', 'scn_http_untyped_request']
PROPERTIES = {
    'C01': {
        'scenarios': {'json': ['scn_json_read', 'scn_json_read_nested'], 'form': ['scn_form_read', 'scn_form_read_nested'], 'binary': ['scn_binary_read', 'scn_binary_read_nested']},
        'reach': {'scn_%s_read%s' % (f, n): ['read', 'scenario returns'] for f in ['json', 'form', 'binary'] for n in ['', '_nested']},
        'explanation': INTERPRETATION + 'The client is any sequence of calls of the interface of structured inputs with any flags on any text; in the second scenario of each format, the sequence ends in reading an object or optional value whose callback makes any call.',
        'min_obligations': 25,
    },
    'C02': {
        'scenarios': {'http': ['scn_http_server_memory']},
        'reach': {'scn_http_server_memory': ['responded', 'scenario returns']},
        'explanation': INTERPRETATION + 'The client is any history of calls of the session with any bytes, divided in any way; responders answer in every way the interface permits or throw.',
        'min_obligations': 15,
    },
    'C03': {
        'scenarios': {'buffers': ['scn_streaming', 'scn_nonexpanding', 'scn_expanding']},
        'reach': {s: ['filled'] for s in ['scn_streaming', 'scn_nonexpanding', 'scn_expanding']},
        'explanation': INTERPRETATION + 'Clients append unknown sequences of characters and ranges of unknown length, look at what is stored and clear.',
        'min_obligations': 8,
    },
    'C05': {
        'scenarios': {'http': ['scn_http_server_responses']},
        'reach': {'scn_http_server_responses': ['answered', 'body', 'disconnected', 'incomplete']},
        'kinds': [],
        'explanation': INTERPRETATION + 'Monitors (whether the responder was called, whether it or the server itself sent something since the last processed message) partition the abstract states; after each call of the session they have to agree with the reaction it returned. '
                       'What the server sends on its own counts as another response when it surely starts with HTTP/.',
        'min_obligations': 5,
    },
    'C06': {
        'scenarios': {'http': ['scn_http_server_responses'], 'http_literal': LITERAL},
        'reach': dict({'scn_http_server_responses': ['answered', 'body', 'incomplete']}, **{s: ['started', 'finished'] for s in LITERAL}),
        'kinds': [],
        'explanation': INTERPRETATION + 'In the first scenario the number of bytes consumed is compared with the end of the body given to the responder, for any requests; in the others, a request whose text is known comes after an arbitrary history of the connection, is cut at every place and is followed by unknown bytes.',
        'min_obligations': 7,
    },
    'C07': {
        'scenarios': {'http_literal': LITERAL},
        'reach': {s: ['started', 'finished'] for s in LITERAL},
        'kinds': [],
        'explanation': INTERPRETATION + 'A request whose text is known comes on a connection after an unknown earlier request (or none), cut at every place; what the responders are given and what happens to the connection is compared with the text.',
        'min_obligations': 10,
    },
    'C08': {
        'scenarios': {'output': ['scn_json_write_structure', 'scn_json_write_text'], 'output_form': ['scn_form_write', 'scn_form_read_back'], 'json_text': ['scn_json_read_back']},
        'reach': {'scn_json_write_structure': ['written'], 'scn_json_write_text': ['text', 'name'], 'scn_form_write': ['member', 'written'], 'scn_form_read_back': ['read'], 'scn_json_read_back': ['read']},
        'kinds': [],
        'explanation': INTERPRETATION + 'The client is any sequence of calls of the interface of structured outputs; every character appended to the output goes through an automaton of the grammar, whose state partitions the abstract states and which decodes the texts.',
        'min_obligations': 18,
    },
    'C12': {
        'scenarios': {'json_text': ['scn_json_read_escapes', 'scn_json_skip_member', 'scn_json_skip_element', 'scn_json_identify', 'scn_json_spaces'], 'binary_back': ['scn_binary_number_back', 'scn_binary_value_back']},
        'reach': {s: ['read'] for s in ['scn_json_read_escapes', 'scn_json_skip_member', 'scn_json_skip_element', 'scn_json_identify', 'scn_json_spaces', 'scn_binary_number_back', 'scn_binary_value_back']},
        'kinds': [],
        'explanation': INTERPRETATION + 'Texts are known except for the numbers and characters that are any; what is read is compared with what the text means.',
        'min_obligations': 20,
    },
    'C13': {
        'scenarios': {'json_object': ['scn_json_object_back', 'scn_json_object_order', 'scn_json_containers_back'], 'binary_back': ['scn_binary_object_back', 'scn_binary_containers_back']},
        'reach': {s: ['read'] for s in ['scn_json_object_back', 'scn_json_object_order', 'scn_json_containers_back', 'scn_binary_object_back', 'scn_binary_containers_back']},
        'kinds': [],
        'explanation': INTERPRETATION + 'The reflection of Serialisable (finding the places of members by constructing objects in marked memory) is interpreted too; the list of members that the compiler builds is given to it, because clang builds it differently than gcc.',
        'min_obligations': 25,
    },
    'C14': {
        'scenarios': {'rpc_client': ['scn_json_rpc_client_send', 'scn_json_rpc_client_response']},
        'reach': {'scn_json_rpc_client_send': ['sent'], 'scn_json_rpc_client_response': ['received', 'failed']},
        'kinds': [],
        'explanation': INTERPRETATION + 'JSON is replaced by a structured input that yields any members with any values and fails anywhere, and a structured output that watches what is written and in which order; monitors of what the response contained partition the abstract states.',
        'min_obligations': 12,
    },
    'C20': {
        'scenarios': {'rpc': ['scn_json_rpc_request', 'scn_json_rpc_requests']},
        'reach': {'scn_json_rpc_request': ['answered', 'called'], 'scn_json_rpc_requests': ['answered', 'called']},
        'kinds': [],
        'explanation': INTERPRETATION + 'JSON is replaced by a structured input that yields any members with any values and fails anywhere, and a structured output that watches what is written and in which order; monitors of what was read, found, called and written partition the abstract states.',
        'min_obligations': 25,
    },
    'C18': {
        'scenarios': {'tcp': ['scn_tcp_buffer']},
        'reach': {'scn_tcp_buffer': ['fed', 'consumed', 'received']},
        'explanation': INTERPRETATION + 'The client is any network (any amounts received, any errors) and any responder (any reaction, any number of bytes consumed, writing to what it was given).',
        'min_obligations': 8,
    },
    'C04': {
        'scenarios': {'server': ['scn_server_one', 'scn_server_many']},
        'reach': {'scn_server_one': ['accepted', 'served', 'closed'], 'scn_server_many': ['accepted', 'served', 'done']},
        'explanation': INTERPRETATION + 'The networking library is replaced by a declaration of what it may do: operations succeed with any amounts or fail, their handlers are called in any order, also before the function that started the operation continues (another thread). Three connections, three events in any order; one connection with any number of events.',
        'min_obligations': 12,
    },
    'C10': {
        'scenarios': {'server': ['scn_server_one', 'scn_server_many'], 'threads': ['scn_caching_threads', 'scn_dynamic_threads', 'scn_http_threads']},
        'reach': {'scn_server_one': ['accepted', 'served', 'closed'], 'scn_server_many': ['accepted', 'served', 'done'],
                  'scn_caching_threads': ['served', 'reloaded', 'cleared', 'generated'], 'scn_dynamic_threads': ['served'], 'scn_http_threads': ['get', 'post']},
        'kinds': ['lock', 'use-after-free'],
        'technique': 'lock set analysis during abstract interpretation of LLVM IR (own analyser)',
        'note': 'For every byte of the shared objects and everything reachable from them: all accesses are atomic, or a lock is held in all of them (exclusively when writing), or nothing is written. Memory reached through pointers the analysis loses is not judged.',
        'explanation': INTERPRETATION + 'Each public function that threads may call runs on a shared object in an unknown state; all accesses to it found in any of them are compared by the locks held. Variables of the library itself are treated as shared too. In the scenarios of the TCP server, handlers of started operations can also run before the function that started them continues unless a lock is held.',
        'min_obligations': 40,
    },
    'C09': {
        'scenarios': {'http_frame': ['scn_http_response_sizes', 'scn_http_response_endings', 'scn_http_response_huge']},
        'reach': {'scn_http_response_sizes': ['received'], 'scn_http_response_endings': ['received']},
        'kinds': [],
        'explanation': INTERPRETATION + 'The complete text sent is known up to the bytes of the body and is parsed by the rules of HTTP; responders write bodies of every size up to the bound, in one or more parts, of known or unknown size.',
        'min_obligations': 8,
    },
    'C15': {
        'scenarios': {'http_round': ['scn_http_round_request', 'scn_http_round_response', 'scn_http_round_polled']},
        'reach': {s: ['received'] for s in ['scn_http_round_request', 'scn_http_round_response', 'scn_http_round_polled']},
        'kinds': [],
        'explanation': INTERPRETATION + 'The client of this library is connected to its server by a network that delivers everything that was sent, cut at any place; what one side was given is compared with what the other side gets.',
        'min_obligations': 8,
    },
    'C16': {
        'scenarios': {'binary_rpc': ['scn_binary_rpc_round', 'scn_binary_rpc_cut', 'scn_binary_rpc_any', 'scn_binary_rpc_many', 'scn_binary_rpc_deep']},
        'reach': {'scn_binary_rpc_round': ['received'], 'scn_binary_rpc_cut': ['received'], 'scn_binary_rpc_any': ['called', 'answered'], 'scn_binary_rpc_many': ['sent'], 'scn_binary_rpc_deep': ['refused']},
        'explanation': INTERPRETATION + 'The client of this library is connected to its server by a network that delivers everything that was sent, cut at any place; what one side was given is compared with what the other side gets. In the last scenario, the server is given any bytes.',
        'min_obligations': 10,
    },
    'C17': {
        'scenarios': {'file_server': ['scn_files_contained', 'scn_files_size', 'scn_files_cached']},
        'reach': {'scn_files_contained': ['opened', 'sent', 'done'], 'scn_files_size': ['found', 'missing', 'failed', 'sent']},
        'kinds': [],
        'explanation': INTERPRETATION + 'File streams are replaced by a declaration of what they may do (open or not, any size, reading that fails or ends early); the standard library\'s operations with paths and strings are interpreted. Whatever is opened has to lie in the folder.',
        'min_obligations': 5,
    },
    'C19': {
        'scenarios': {'path': ['scn_path_back']},
        'reach': {'scn_path_back': ['found']},
        'kinds': [],
        'explanation': INTERPRETATION + 'A tree of remote objects and methods is known; paths are constructed, followed back, changed and cut.',
        'min_obligations': 3,
    },
    'C21': {
        'scenarios': {'buffers_back': ['scn_expanding_back', 'scn_nonexpanding_back', 'scn_streaming_back']},
        'reach': {s: ['looked'] for s in ['scn_expanding_back', 'scn_nonexpanding_back', 'scn_streaming_back']},
        'kinds': [],
        'explanation': INTERPRETATION + 'Every appended byte is recorded; what the buffer returns, or gave to its writer, is compared with the record.',
        'min_obligations': 5,
    },
    'C22': {
        'scenarios': {'remote': ['scn_remote_called', 'scn_remote_called_parent', 'scn_remote_called_void', 'scn_remote_ask', 'scn_remote_ask_parent', 'scn_remote_ask_void', 'scn_remote_local']},
        'reach': dict({s: ['called'] for s in ['scn_remote_called', 'scn_remote_called_parent', 'scn_remote_called_void']}, **{s: ['asked'] for s in ['scn_remote_ask', 'scn_remote_ask_parent', 'scn_remote_ask_void', 'scn_remote_local']}),
        'kinds': ['terminate'],
        'explanation': INTERPRETATION + 'Formats and protocols are replaced by a structured input that yields members in any order with any values, an output that watches what is written in which order and a responder that may fail. The names of arguments are given to the analysis (the library finds them before main).',
        'min_obligations': 20,
    },
    'C23': {
        'scenarios': {'holder': ['scn_holder_owned', 'scn_dynamic_found', 'scn_dynamic_nested']},
        'reach': {s: ['ended'] for s in ['scn_holder_owned', 'scn_dynamic_found', 'scn_dynamic_nested']},
        'explanation': INTERPRETATION + 'Functions that know whether they exist and how many of them are put into holders and objects, moved, called and destroyed.',
        'min_obligations': 10,
    },
    'C24': {
        'scenarios': {'web': ['scn_web_get', 'scn_web_post']},
        'reach': {s: ['responded'] for s in ['scn_web_get', 'scn_web_post']},
        'explanation': INTERPRETATION + 'Files are replaced by a provider that may have the file, not have it or fail, the methods by ones that compare their arguments with the form and may fail, and the connection by one that records the response.',
        'min_obligations': 12,
    },
    'C25': {
        'scenarios': {'describe': ['scn_describe_method', 'scn_describe_tree', 'scn_describe_types', 'scn_describe_members', 'scn_describe_used', 'scn_describe_objects', 'scn_describe_text']},
        'reach': {s: ['described'] for s in ['scn_describe_method', 'scn_describe_tree', 'scn_describe_types', 'scn_describe_members', 'scn_describe_used', 'scn_describe_objects', 'scn_describe_text']},
        'explanation': INTERPRETATION + 'Methods, types and objects of various composition describe themselves to the generator of descriptions, whose output is compared with the one expected for that composition.',
        'min_obligations': 12,
    },
    'C26': {
        'scenarios': {'sync_client': ['scn_client_order_%d' % k for k in range(6)] + ['scn_client_cuts', 'scn_client_poll', 'scn_client_failing', 'scn_client_ended', 'scn_client_write', 'scn_client_large']},
        'reach': {
            **{'scn_client_order_%d' % k: ['C26 three responses in any order, cut at any place'] for k in range(6)},
            'scn_client_cuts': ['C26 two responses cut anywhere'],
            'scn_client_poll': ['C26 responses are still there after asking whether they came'],
            'scn_client_failing': ["C26 responses after one that can't be used"],
            'scn_client_ended': ['C26 a connection that ended'],
            'scn_client_large': ['C26 large responses'],
            'scn_client_write': ['C26 requests sent in pieces'],
        },
        'explanation': INTERPRETATION + 'The network is replaced by one whose other side sends known responses cut at places considered separately, may end the connection and accepts requests in pieces of any size; the container of bytes and the map are replaced by exact ones. The reader recognises every byte of every response.',
        'min_obligations': 12,
    },
    'C11': {
        'rules': ['odr'],
        'technique': 'linkage analysis of the symbols of translation units generated from the headers',
        'note': 'Complete for everything that is not a template (all of it is compiled); templates cannot break the rule.',
        'assumptions': ['the compiler is g++ in C++20 mode with the flags of the build'],
        'explanation': 'Each header is compiled as a source file of its own (twice included), then all of them in one in both orders; every symbol of the repository in the object files must have a linkage that allows other source files to define it too.',
        'min_obligations': 30,
    },
}
for p in PROPERTIES.values():
    if 'scenarios' in p:
        p.setdefault('assumptions', ENGINE_ASSUMPTIONS)
        p.setdefault('technique', E2)
        p.setdefault('note', E2_NOTE)
