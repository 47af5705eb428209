# (module, rule[, argument])
_REPOW = {'sFopenWrite', 'fWrite', 'sFwrite', 'sFclose', 'sRename', 'sMkdir',
          'fDatasync', 'sRemove', 'sPathExists'}
_RESTW = {'sFopenWrite', 'sFwrite', 'sFclose', 'sMkdir', 'sSymlink', 'sChmod',
          'sChown', 'sLChown', 'sUtime', 'sRemove', 'sLStat', 'sPathExists'}
_READW = {'sFopenRead', 'sFread', 'sFclose', 'sLStat', 'sStat'}
_GCW = {'sRemove', 'sDirOpen', 'sDirClose', 'sLStat', 'sStat'}
RULES = {
    'P24': [('r_integrity', 'traversal'), ('r_integrity', 'passes'),
            ('r_main', 'flow_integrity'), ('r_copy', 'hashing'),
            ('r_repo', 'names'), ('r_str', 'table')],
    'P05': [('r_main', 'locking'), ('r_repo', 'lockfile')],
    'P06': [('r_main', 'consent'), ('r_info', 'summary'), ('r_info', 'saved'),
            ('r_wrap', 'readline')],
    'P02': [('r_main', 'flow_backup'), ('r_copy', 'finish_root'),
            ('r_meta', 'finished'), ('r_repo', 'writer_close'),
            ('r_wrap', 'contracts', _REPOW), ('r_wrap', 'todisk')],
    'P01': [('r_repo', 'writer_close'), ('r_copy', 'finish_blocks'),
            ('r_meta', 'finished'), ('r_effects', 'who'),
            ('r_effects', 'writers'), ('r_wrap', 'todisk'),
            ('r_wrap', 'contracts', _REPOW)],
    'P08': [('r_copy', 'hashing'), ('r_copy', 'finish_blocks'),
            ('r_changes', 'streams_ok'), ('r_wrap', 'bytesleft'),
            ('r_wrap', 'readlink_'), ('r_wrap', 'contracts', _READW)],
    'P09': [('r_copy', 'finish_content'), ('r_copy', 'writer_args'),
            ('r_copy', 'finish_blocks'), ('r_copy', 'hashing'),
            ('r_wrap', 'bytesleft'), ('r_wrap', 'contracts', _READW)],
    'P10': [('r_copy', 'finish_dedup'), ('r_copy', 'writer_args'),
            ('r_copy', 'finish_blocks'), ('r_copy', 'hashing'),
            ('r_repo', 'names'), ('r_wrap', 'bytesleft'),
            ('r_wrap', 'contracts', _READW)],
    'P11': [('r_gc', 'preserved'), ('r_gc', 'collection'),
            ('r_gc', 'removal'), ('r_repo', 'names'),
            ('r_main', 'flow_gc'), ('r_wrap', 'contracts', _GCW),
            ('r_str', 'strings'), ('r_str', 'table')],
    'P27': [('r_gc', 'removal'), ('r_wrap', 'dirnext'),
            ('r_wrap', 'contracts', _GCW)],
    'P03': [('r_effects', 'who'), ('r_effects', 'opens'),
            ('r_effects', 'writers'), ('r_copy', 'finish_dedup'),
            ('r_copy', 'writer_args'), ('r_repo', 'names'),
            ('r_repo', 'lockfile'), ('r_repo', 'writer_close'),
            ('r_main', 'flow_backup'), ('r_wrap', 'contracts', _REPOW)],
    'P04': [('r_effects', 'who'), ('r_effects', 'opens'),
            ('r_effects', 'writers'), ('r_restore', 'effects'),
            ('r_copy', 'restoring'),
            ('r_restore', 'initiate'), ('r_restore', 'children_visited'),
            ('r_gc', 'collection'), ('r_gc', 'removal'),
            ('r_repo', 'names'), ('r_repo', 'lockfile'),
            ('r_main', 'flow_backup'), ('r_main', 'flow_restore'),
            ('r_main', 'flow_gc'), ('r_main', 'flow_integrity'),
            ('r_wrap', 'contracts', _REPOW | _RESTW)],
    'P17': [('r_changes', 'changes')],
    'P12': [('r_meta', 'layout'), ('r_meta', 'written_counts'),
            ('r_meta', 'read_counts'), ('r_meta', 'numbering'),
            ('r_meta', 'position'), ('r_meta', 'finished')],
    'P13': [('r_meta', 'bounds'), ('r_meta', 'validity'),
            ('r_meta', 'position'), ('r_meta', 'layout'),
            ('r_meta', 'read_counts'), ('r_str', 'strings')],
    'P18': [('r_backup', 'counts'), ('r_backup', 'load_counts'),
            ('r_backup', 'count_writers'), ('r_meta', 'numbering')],
    'P25': [('r_repo', 'names')],
    'P07': [('r_wrap', 'failures'), ('r_wrap', 'all_wrappers')],
    'P14': [('r_restore', 'effects'), ('r_copy', 'restoring'),
            ('r_wrap', 'contracts', _RESTW), ('r_main', 'flow_restore')],
    'P15': [('r_restore', 'initiate'),
            ('r_main', 'flow_restore'), ('r_restore', 'children_visited'),
            ('r_str', 'strings')],
    'P16': [('r_restore', 'classify'), ('r_policy', 'found'),
            ('r_str', 'strings')],
    'P19': [('r_policy', 'found'), ('r_policy', 'removed'),
            ('r_policy', 'below'), ('r_policy', 'roots'),
            ('r_policy', 'discard'), ('r_backup', 'counts'),
            ('r_str', 'strings')],
    'P20': [('r_config', 'lines'), ('r_config', 'policies'),
            ('r_config', 'nodes'), ('r_config', 'inherit'),
            ('r_config', 'root'), ('r_str', 'strings'), ('r_str', 'table'),
            ('r_str', 'regex'), ('r_wrap', 'wholefile')],
    'P21': [('r_search', 'results'), ('r_search', 'new'),
            ('r_wrap', 'dirnext'),
            ('r_wrap', 'contracts', _GCW | {'sPathExists'}),
            ('r_str', 'strings'), ('r_str', 'table'), ('r_str', 'regex')],
    'P23': [('r_size', 'exact'), ('r_size', 'arithmetic'),
            ('r_size', 'allocations'), ('r_size', 'narrowing')],
    'P26': [('r_info', 'summary'), ('r_info', 'tree'), ('r_info', 'saved'),
            ('r_main', 'flow_backup'), ('r_main', 'flow_restore'),
            ('r_main', 'consent'), ('r_changes', 'changes'),
            ('r_restore', 'classify'), ('r_policy', 'found'),
            ('r_policy', 'removed'), ('r_policy', 'roots')],
    'P22': [('r_life', 'closed'), ('r_life', 'leaks'),
            ('r_life', 'handles'), ('r_repo', 'lockfile')],
    'P28': [('r_life', 'temporary'), ('r_str', 'strings')],
    'P32': [('r_life', 'absent')],
}

_SI = ('Path-sensitive symbolic summary of the source (clang AST, every '
       'function from its callers\' point of view, loops closed by their '
       'loop-carried values), compared path by path with ')
_LV = ('Decides the property for all inputs and histories at the level of '
       'the listed rules; the library calls below the wrapper layer and the '
       'third-party code are taken by contract. Not a machine-checked proof '
       'of the analyser itself.')

TECH = {
    'P03': 'a call-graph effect table (who may use which function that '
           'changes the file system), the open modes, and the conditions '
           'under which a name is taken',
    'P04': 'a call-graph effect table (who may use which function that '
           'changes the file system) and the origin of every path given to '
           'such a function',
    'P01': 'the required order write, flush, sync, close, rename, sync of '
           'directories (typestate of the repository writer)',
    'P02': 'the required order of commit steps in the main program (event '
           'order automaton over all paths)',
    'P05': 'a lock typestate over all paths of the main program and of the '
           'locking functions',
    'P06': 'an event order automaton (question, answer, first effect)',
    'P07': 'failure contracts of every wrapper (failing result of each '
           'library call must end in termination or a defined result)',
    'P12': 'each other: the canonical sequence of fields, widths and byte '
           'orders of the writer against that of the reader, for every kind '
           'of entry, and counting loops against writing and reading loops',
    'P13': 'the rule that every access to the file lies in bounds which the '
           'path established, and that every value was validated before it '
           'is kept (interval and relation facts along every path)',
    'P14': 'the table of effects required for each detected difference',
    'P15': 'the specified lookup of the recorded state',
    'P16': 'the table of type pairs and the change each must produce',
    'P19': 'a decision table: for every combination of old and new policy, '
           'recorded and found type and comparison result, the node, its '
           'mark, its states and the treatment of everything below it at '
           'the end of every path of the recursive traversal',
    'P18': 'conservation accounting: on every path each reference that '
           'appears or disappears must be paired with one change of the '
           'reference count, and each added or discarded node with one '
           'change of the number of paths',
    'P20': 'a decision table of a line of the configuration (rejected or '
           'which single effect), and the specified tree operations',
    'P21': 'a decision table of a search step (entry, node, policy, ignore '
           'expressions, file type) and the stack discipline of directories',
    'P23': 'overflow obligations: every sum, product and shift of unbounded '
           'sizes is a checked operation or proven to fit by the path, '
           'every allocation size is built from such, and the checked '
           'operations have exact path conditions',
    'P24': 'the effects required by the result of the check',
    'P25': 'simulation of the name buffer (regions written, digits, bytes '
           'of the hash covered)',
    'P08': 'the required data flow from source bytes to hash and storage '
           '(stream typestate, block transfer and comparison rules)',
    'P09': 'the required data flow of stored contents and recorded sizes',
    'P10': 'the conditions under which an existing item may be reused',
    'P11': 'the preserved set (dataflow into the string table) and the '
           'decision function of the removal',
    'P17': 'the table of compared attributes, detected changes and updates',
    'P22': 'typestate of everything that is opened (open, closed, handed '
           'out) and of regions, and pairing of handles with the callbacks '
           'of their regions',
    'P28': 'ownership: every string belongs to the buffer it was made in; '
           'using the buffer again ends its life, and every later use, '
           'store or hand-over is reported',
    'P32': 'null dereferences: the pointer of every access, on every path, '
           'against what the path knows about it (tests passed, values '
           'assigned, results of lookups that may be empty)',
    'P26': 'accounting: on every path of the recursive count, for every mark '
           'and policy of a node, the summary grows and keeps what was found '
           'below; the summary decides about asking and saving',
    'P27': 'an order and provenance automaton over all paths of the '
           'recursive removal',
}
NOTES = {i: (_SI + t, _LV) for i, t in TECH.items()}
