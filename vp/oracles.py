"""What each property's harnesses compare the code with (for DESIGN.md)."""
ORACLE = {
'P01': 'An array model of the stored bytes kept by the harness: after every operation the result, the remaining content and all size queries must equal the model. The content is symbolic, so equality is decided for all data at once.',
'P02': 'The bytes the simulated send/recv took or gave, compared with what was queued: sent + still queued = written, in order; the reported count equals the bytes moved; errors come out as errors.',
'P03': 'The packets that were encoded (round trip), and a reference parser of the wire format written in the harness (arbitrary bytes): the same packet, the same bytes left, or the same refusal.',
'P04': 'A reference splitter of the byte string into lines with the limit.',
'P05': 'The list of values written, a model of the five flags, and a model of the content length.',
'P06': 'The original value (bitwise for floats, NaN for NaN) and a neighbour value behind it that must be untouched.',
'P07': 'The memory checks of the engine, an allocation limit, and the error flag: for every proper prefix of a valid message it must be set.',
'P08': 'Counters and recorded arguments in four handlers; the reference is the name that the caller packed.',
'P09': 'The caller\'s arguments and the handler\'s result per call; each future must give the result of its own call or an error when the connection is lost; nothing twice.',
'P10': 'A table model (id to socket) in the harness, the callbacks seen, and the simulated kernel\'s descriptors: each opened descriptor is closed exactly once.',
'P11': 'Exactly one delivery of the value, exception or broken-task error, per way of producing and consuming; instance counters and live heap blocks for leaks; deadlock and race detection by the engine.',
'P12': 'As P11 for each of several consumers; order of resumption compared with the order of registration.',
'P13': 'The status, value and order of the given results; the index named must be of a ready one at that time.',
'P14': 'Counters of starts, completions and destroyed locals; the sequence of yielded values.',
'P15': 'An instance-counting callable of all sizes, alignments and move properties: calls at most once, destroyed exactly once.',
'P16': 'Per task: how often and on which thread it ran; after shutdown, tasks that did not run must have reported the shutdown; races and deadlocks by the engine.',
'P17': 'As P16, plus the order of tasks per worker.',
'P18': 'Counters per task; wait functions must return exactly when the stated number is there (virtual time).',
'P19': 'Counters per task and the order; virtual time for delays.',
'P20': 'Firing times on the virtual clock against start + k * frequency, counters after cancel, destruction and executor shutdown.',
'P21': 'The packets given to the simulated kernel (in order), packets read back from what the server wrote, callbacks per connection; stop must end with all descriptors closed and all threads joined.',
'P22': 'The set of live blocks with their ranges and symbolic contents: disjoint, aligned, contents kept; after releasing, the space is usable again.',
'P23': 'A reference parser of address texts in the harness and the textual round trip.',
'P24': 'Reference implementations (base64, hex, md5 of RFC 1321, url encoding) written in the harness, plus the inverse function.',
'P25': 'Reference implementations on std::string and guard bytes around the buffers.',
'P26': 'The list of values written, and guard bytes.',
'P27': 'The C++ operation on the original values and types; races by the engine.',
'P28': 'The options given, the executors\' shutdown states, and a map model of the networks.',
'P29': 'A reference split of the line into words; recorded handler calls; bytes sent to the client; running state of the networks.',
'P30': 'Counters per function and argument; state after stop; futures.',
'P31': 'The sequence of messages compared with the bytes in the modelled files in order; one file per day and size limit; races by the engine.',
'P32': 'The line that the statement should give, built by the harness, and one newline at its end.',
'P33': 'A reference reader of the ini format on the symbolic file content.',
'P34': 'The records used to make the text or binary file (or a reference parser for arbitrary content), compared with all queries; saving and opening again.',
'P35': 'The set of ids of living environments.',
'P37': 'A directory tree and a descriptor table kept by the harness, and the list of directories that the name stands for.',
'P38': 'The modelled file content, the recorded signals and commands, the modelled process table.',
'P36': 'The recorded sequence of dlopen/dlsym/dlclose calls against the list of paths and names in order.',
}
