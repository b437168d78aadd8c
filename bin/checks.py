"""Which harnesses decide which property."""


def H(harness, variant='asan', engines=('mc',), utilities=(), **kw):
    return dict(harness=harness, variant=variant, engines=list(engines),
                utilities=list(utilities), **kw)


SEQ = 'stateless exploration of all operation sequences on the real code against a reference model'

CONC = ('stateless model checking of the real code: all interleavings up to a preemption bound under a '
        'controlled scheduler, compared with all one-at-a-time orders')

ENUM = ('exhaustive bounded enumeration of inputs, splits and call histories on the real code against an '
        'independent reference implementation')

FAULT = ('stateless exploration of the real code over a simulated file system: all call sequences with all '
         'placements of failing, short or interrupted system calls and crashes within a fault budget')

PROC = ('stateless model checking of real processes over a simulated file system: all interleavings of their '
        'system calls up to a preemption bound, with crashes')

REF = ('mc', 'ref')

SIM = ('mc', 'simfs')

SCHED = ('mc', 'sched')

UTILITIES = ('encipher', 'decipher', 'digest', 'content', 'utility')

CHECKS = {
    'C01': dict(level='exploration', technique=SEQ, harnesses=[H('list_seq')],
                note='all sequences of up to 5 list operations (thorough 6) from ten start states'),
    'C02': dict(level='exploration', technique=SEQ, harnesses=[H('map_seq')],
                note='all sequences of up to 5 map operations (thorough 6), four hash functions, '
                     'five capacities, prefills that reach collisions and growth'),
    'C03': dict(level='exploration', technique=SEQ, harnesses=[H('tree_seq')],
                note='all sequences of up to 4 tree operations (thorough 5) from the empty tree, all '
                     'insertion orders of four keys and degenerate chains, three comparisons'),
    'C04': dict(level='exploration', technique=CONC,
                harnesses=[H('list_conc', 'sched', SCHED)],
                note='all pairs of 17 calls from 0-3 elements, bounded and unbounded, 3 preemptions '
                     '(thorough 4), plus 2x2-call and 3-thread programs over 7 calls, 2 (3) preemptions'),
    'C05': dict(level='exploration', technique=CONC,
                harnesses=[H('map_conc', 'sched', SCHED)],
                note='all pairs of 12 calls on colliding keys, three capacities including growth, '
                     '2 preemptions (thorough 3), plus longer programs over 6 calls'),
    'C06': dict(level='exploration', technique=CONC,
                harnesses=[H('tree_conc', 'sched', SCHED)],
                note='all pairs of 17 calls from 0-3 nodes, 2 preemptions (thorough 3), plus longer '
                     'programs over 7 calls'),
    'C10': dict(level='exploration', technique=ENUM,
                harnesses=[H('hash_seq', engines=REF), H('hash_long', 'plain', REF)],
                note='all lengths to two blocks + 17 in all three-part splits (quick: a quarter of the '
                     'second splits), 5-call (6) histories of two objects, messages past 2^29 bytes'),
    'C11': dict(level='exploration', technique=ENUM,
                harnesses=[H('hmac_seq', engines=REF)],
                note='all key lengths to two blocks + 2, five message lengths (thorough all), four '
                     'splits, 6-call (7) histories'),
    'C12': dict(level='exploration', technique=ENUM,
                harnesses=[H('block_seq', engines=REF)],
                note='every byte position of key and block, 32 values (thorough 256), three backgrounds, '
                     'all key lengths; 5-call (6) histories of two objects'),
    'C13': dict(level='exploration', technique=ENUM,
                harnesses=[H('mode_seq', engines=REF)],
                note='4 ciphers, 5 modes, all key lengths, 4 nonces, all lengths to 3 (5) blocks + 1'),
    'C14': dict(level='exploration', technique=ENUM,
                harnesses=[H('context_seq', engines=REF)],
                note='all 4-call (5) histories of two contexts for every cipher and mode; key streams '
                     'of 16 blocks'),
    'C27': dict(level='exploration', technique=ENUM,
                harnesses=[H('encode_seq')],
                note='all byte strings to length 3, all texts of 12 letters to length 6 (8)'),
    'C30': dict(level='exploration', technique=ENUM,
                harnesses=[H('glob_seq')],
                note='all patterns of 11 letters to length 5 (6) against all 85 texts of 4 letters to '
                     'length 3'),
    'C29': dict(level='exploration', technique=ENUM,
                harnesses=[H('token_seq')],
                note='all command lines of 6 letters to length 7 (8), all texts of 20 letters to length 5 (6)'),
    'C40': dict(level='exploration', technique=ENUM,
                harnesses=[H('path_seq')],
                note='all paths of 8 letters to length 6 (7), long paths around the limit'),
    'C28': dict(level='exploration', technique=SEQ,
                harnesses=[H('string_seq')],
                note='4-call (5) sequences on two counted strings, all short inputs of the text functions'),
    'C24': dict(level='exploration', technique=FAULT,
                harnesses=[H('file_seq', 'sim', SIM)],
                note='3 (4) transfers with up to 2 (3) interrupted, short or failing system calls'),
    'C23': dict(level='exploration', technique=PROC,
                harnesses=[H('lock_proc', 'simplain', SIM)],
                note='2-3 processes or threads, 2-3 preemptions (3-4), one death at any system call'),
    'C17': dict(level='exploration', technique=SEQ,
                harnesses=[H('keyring_seq', 'sim', SIM)],
                note='3 (4) calls over five identifiers and three keys from five start states'),
    'C18': dict(level='exploration', technique=FAULT,
                harnesses=[H('keyring_crash', 'sim', SIM)],
                note='a stop at every system call and inside every write of a store into 0-2 keys'),
    'C19': dict(level='exploration', technique=FAULT,
                harnesses=[H('keyring_fault', 'sim', SIM)],
                note='every single (thorough: pair of) failing, interrupted or short system call'),
    'C20': dict(level='exploration', technique=ENUM,
                harnesses=[H('keyring_damage', 'sim', SIM)],
                note='every cut and every value of every byte of keyrings of 1-2 (3) keys'),
    'C21': dict(level='exploration', technique=PROC,
                harnesses=[H('keyring_proc', 'simplain', SIM)],
                note='2-3 processes, 1-2 preemptions or stops (2-3)'),
    'C22': dict(level='exploration', technique=SEQ,
                harnesses=[H('secret_seq', 'sim', SIM)],
                note='every pair of nine passphrases, every history of 4 calls, every failed call while a key is stored'),
    'C16': dict(level='exploration', technique=FAULT,
                harnesses=[H('reservoir', 'sim', SIM)],
                note='every truncation, byte change, failing call and stop of the reservoir'),
    'C25': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('entropy_enum')],
                note='every coder, level, pattern and length within the bounds'),
    'C26': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('entropy_damage')],
                note='every truncation and byte change of compressed messages'),
    'C39': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('option_enum')],
                note='every option name in every spelling and corruption'),
    'C41': dict(level='bounded-exhaustive', technique=SEQ,
                harnesses=[H('timer_seq', 'sim', SIM)],
                note='every sequence of 5 timer calls under a controlled clock'),
    'C42': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('memory_enum')],
                note='every pair of boundary sizes, every resize history'),
    'C33': dict(level='exploration', technique=FAULT,
                harnesses=[H('blob_seq', 'sim', SIM)],
                note='3 reads or writes per kind of source with 1 (2) split, interrupted or failing '
                     'system calls; every whole-file function, size and extent; compressed files'),
    'C34': dict(level='exploration', technique=ENUM,
                harnesses=[H('cipher_round', 'simplain', SIM, UTILITIES)],
                note='every size to two chunks + 18 (66) x ciphers x modes x coders x 5 chunk sizes; '
                     'settings in pairs; every character of a file name'),
    'C35': dict(level='exploration', technique=ENUM,
                harnesses=[H('cipher_tamper', 'sim', SIM + ('ref',), UTILITIES)],
                note='every byte of the file and of its properties changed, removed, inserted or cut, '
                     '8 settings; near-miss passphrases'),
    'C36': dict(level='exploration', technique=FAULT,
                harnesses=[H('cipher_fault', 'sim', SIM, UTILITIES)],
                note='every failing, interrupted or short call during a command; 3 modes, old output or none'),
    'C37': dict(level='exploration', technique=ENUM,
                harnesses=[H('digest_verify', 'sim', SIM + ('ref',), UTILITIES)],
                note='every hash x sizes around block and buffer boundaries, every change of a small file, '
                     'every state of three files, file names, every damaged list'),
    'C31': dict(level='exploration', technique=ENUM,
                harnesses=[H('xml_parse')],
                note='every sequence of XML tokens up to 4 (5), well-formed ones up to 5 (6), over few tokens up to 10 (12); '
                     'every order of broken pieces, document type pieces, markup bytes and UTF-16 units'),
    'C32': dict(level='exploration', technique=SEQ,
                harnesses=[H('xml_edit')],
                note='every sequence of 3 (4) edits from 3 trees, checked against an ordered-tree model and written and parsed again'),
    'C38': dict(level='exploration', technique=SEQ,
                harnesses=[H('mime_conc', 'schedsim', SCHED + ('simfs',)), H('mime_seq', 'sim', SIM)],
                note='every table of up to 3 entries from 16: every content of up to 4 (5) bytes over 4 and '
                     'every history of 3 (4) lookups; every entry of the shipped table at every length; '
                     '2-3 threads looking up and listing with 1-2 (2-3) preemptions'),
    'C08': dict(level='exploration', technique=SEQ,
                harnesses=[H('resource_seq', 'sim', SIM), H('resource_conc', 'sched', SCHED)],
                note='every sequence of 5 (6) requests, releases and limits over boundary sizes; every sequence of 3 (4) '
                     'virtual memory and temporary file calls with up to 2 (3) failing system calls; limits from the environment; '
                     '2-3 threads with 2-3 (3-4) preemptions'),
    'C07': dict(level='exploration', technique=CONC,
                harnesses=[H('semaphore_conc', 'sched', SCHED)],
                note='2-3 threads making 1-2 calls with 2-3 (3-4) preemptions'),
    'C09': dict(level='exploration', technique=SEQ,
                harnesses=[H('exception_seq'), H('exception_conc', 'sched', SCHED)],
                note='every sequence of 5 (6) calls on two objects, every interleaving of 2-3 threads making '
                     '1-2 calls with 1-3 (2-3) preemptions'),
    'C15': dict(level='exploration', technique=SEQ,
                harnesses=[H('random_conc', 'schedsim', SCHED + ('simfs',)),
                           H('random_seq', 'sim', SIM, wraps=['GetHMACDigest'])],
                note='every sequence of 4 (5) requests of boundary sizes for 13 hashes, of 5 (6) requests on two '
                     'generators; values made from extreme words'),
    'C43': dict(level='exploration', technique=SEQ,
                harnesses=[H('wipe_seq', 'simheap', SIM)],
                note='6 kinds of objects in all configurations, every history of 3-4 (4) calls, two keys each'),
    'C44': dict(level='exploration', technique=CONC,
                harnesses=[H('log_conc', 'schedlog', SCHED + ('simfs',), wraps=['seam_fopen', 'seam_fopen64']),
                           H('log_seq', 'sim', SIM)],
                note='every sequence of 4-5 (5-6) calls in every mask and limit, every format and set of outputs; 2-3 threads '
                     'making 1-2 calls with 1-2 (2-3) preemptions'),
    'C48': dict(level='exploration', technique=SEQ,
                harnesses=[H('config_conc', 'schedsim', SCHED + ('simfs',)), H('config_seq', 'sim', SIM)],
                note='every configuration of up to 3 (4) of the elements in one or two places of the '
                     'search path, looked up and listed in every order; 2-3 threads looking up and '
                     'listing with 1-2 (2-3) preemptions'),
    'C49': dict(level='exploration', technique=SEQ,
                harnesses=[H('locale_conc', 'schedsim', SCHED + ('simfs',)), H('locale_seq', 'sim', SIM)],
                note='every locale file of up to 4 (5) elements, 6 (7) of a smaller set, with every '
                     'look-up and listing; 2-3 threads looking up and listing with 1-2 (2-3) '
                     'preemptions'),
    'C50': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('size_enum')],
                note='every size within 10000 (100000) of a power of 1000 or 1024 in both units and '
                     'precisions; every text of 3 (4) letters from those of numbers and units'),
    'C51': dict(level='exploration', technique=SEQ,
                harnesses=[H('keymap_seq')],
                note='every sequence of 4 (5) calls that store, replace and generate keys under '
                     'identifiers that are prefixes of one another'),
    'C52': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('expand_enum', 'asan', ('mc',), ('utility',))],
                note='every subset of the files of a directory, every command line of 2 (3) of the '
                     'words: names, wildcards, directories, options and their parameters'),
    'C53': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('keyring_cmd', 'sim', SIM, ('keyring', 'content', 'utility'))],
                note='every state of the default keyring, two named ones and the output (missing, no '
                     'keyring, 1-3 keys), listed or exported in every way'),
    'C54': dict(level='bounded-exhaustive', technique=ENUM,
                harnesses=[H('cipher_info', 'sim', SIM + ('ref',), UTILITIES + ('cipher-info',))],
                note='every pair of settings of a file; every command with 1-3 files that are good, '
                     'missing, empty, no enciphered file, changed or cut; every byte of a header '
                     'changed, removed or added, every cut and every shortened digest'),
    'C55': dict(level='exploration', technique=FAULT,
                harnesses=[H('passphrase_fault', 'tty')],
                note='1-2 (2-3) signals, interruptions, failed reads, ends of input or a missing '
                     'terminal at any call, lines of 6 lengths typed equal and different'),
    'C58': dict(level='bounded-exhaustive', technique=SEQ,
                harnesses=[H('leak_seq', 'simheap', SIM)],
                note='every history of 2-5 (3-6) calls on 12 kinds of objects, every text of 5 (6) '
                     'characters and XML input of 4 (5) pieces, every cut and changed byte of a keyring, '
                     'every single failing call on files'),
    'C59': dict(level='bounded-exhaustive', technique=FAULT,
                harnesses=[H('refuse_seq', 'simheap', SIM)],
                note='every history of 2 (3) calls on lists, maps, trees, XML and exceptions and the calls '
                     'on every short text, with every single memory request refused'),
    'C57': dict(level='exploration', technique=FAULT,
                harnesses=[H('file_open', 'sim', SIM)],
                note='every environment, path, mode and file; opening, using, removing and closing '
                     'with up to 3 (4) failing calls at any place'),
    'C56': dict(level='exploration', technique=FAULT,
                harnesses=[H('life_seq', 'life')],
                note='every sequence of 5 (6) starts, stops and uses; every signal and handler while '
                     'idle after 3 (4); a signal at every distinguishable lock or file call of '
                     'sequences of 3 (4)'),
    'C47': dict(level='exploration', technique=ENUM,
                harnesses=[H('time_enum')],
                note='every day and quarter of an hour (minute) of 12 years in 11 time zones, '
                     'and every notation of a zone'),
}

NOT_APPLICABLE = {
    'C45': 'unpredictability is a computational claim about all adversaries; no bounded set of '
           'behaviours decides it',
    'C46': 'timing is a property of the machine code and the processor, not of the set of '
           'behaviours the explorer enumerates',
}
