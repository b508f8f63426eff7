"""The checks: harness source, bounds and what the evidence says about them."""
MC = 'model_checking'
EXH = 'bounded exhaustive enumeration of operation histories on the real code (explicit states, reference oracle)'
LOCK = 'lock-step exploration of the real code and a non-deterministic reference model (every trace replayed on the code)'
REAL = 'the executions are those of the real code compiled from the working tree; there is no abstraction to validate'
ORACLE = 'the reference (harness/ref.h, harness/model.h) says what the property says'
TIES = ('segmentations and candidates whose values differ by less than 1e-9 (relative) count as equal; a history whose set '
        'of possible model states exceeds 128 is given up and counted')
RAND = 'the sample of fast_random (fixed seed) is an input of the growth model, C23 checks it'

CHECKS = {
    'C01': dict(
        source='c01.cc', level=MC, technique=EXH,
        state_is='content of a dictionary (with the frequencies in use) after all inputs were parsed on it',
        bounds={'quick': 'all 2^14 dictionaries over {0,1} with entries up to length 3, one of 5 frequency patterns each, all '
                         'inputs over 3 symbols up to length 4 and over 2 symbols up to length 7, all exclusions of up to 6 '
                         'matching entries; dictionaries of up to 2 entries over 3 symbols under 4 namings; wide (70000 '
                         'symbols) and long (3000) cases; long entries parsed with exclusions; inputs of 66000 symbols',
                'thorough': 'as quick with all 5 frequency patterns, inputs up to length 5/9, dictionaries of up to 3 entries '
                            'over 3 symbols, inputs of 9000 symbols'},
        assumptions=[REAL]),
    'C02': dict(
        source='c02.cc', level=MC, technique=EXH,
        state_is='dictionary with its frequencies',
        bounds={'quick': 'dictionaries of {0},{1} and up to 3 longer entries of length <=3, all frequencies from {0,1,4}, all '
                         'inputs up to length 5; dictionaries over 3 symbols with up to 3 of 17 longer entries under 12 frequency '
                         'patterns up to 2^31-2; statistics dictionaries: all histories of 3 parses and updates (one in eight '
                         'third parses per initial frequency pattern); prefixes of a long word (all of them up to 70); sums beyond 32 bits; nearly equal probabilities',
                'thorough': 'up to 4 longer entries, inputs up to length 7, all third parses'},
        assumptions=[REAL, 'the optimum is computed by an independent dynamic program in double precision; a result whose log '
                           'probability is within 1e-9 of the optimum counts as optimal']),
    'C03': dict(
        source='c03.cc', level=MC, technique=EXH,
        state_is='content of the dictionary after all searches',
        bounds={'quick': 'all 2^14 dictionaries over {0,1} with entries up to length 3, all queries up to length 4 and those '
                         'with unknown symbols, all subsets of the matching entries excluded; up to 2 entries over 3 symbols '
                         'under 4 namings; prefix chains up to depth 64; 300 symbols registered by searches',
                'thorough': 'queries up to length 5, up to 3 entries over 3 symbols'},
        assumptions=[REAL, ORACLE]),
    'C04': dict(
        source='c04.cc', level=MC, technique=EXH,
        state_is='content of the dictionary built',
        bounds={'quick': 'all 2^14 sets over {0,1} with entries up to length 3, in all orders for sets of up to 4, in several '
                         'for larger ones; sets of up to 3 sequences over 3 symbols up to length 4 in all orders; lists of 8 '
                         'extreme symbols; 700 entries; long chains of prefixes with siblings',
                'thorough': 'all orders for sets of up to 5, sets of 4 sequences over 3 symbols'},
        assumptions=[REAL, ORACLE]),
    'C05': dict(
        source='c05.cc', level=MC, technique='explicit-state breadth-first search over histories, every transition replayed on a fresh real object',
        state_is='content of the dictionary in the order of ids',
        bounds={'quick': 'initial dictionaries of up to 3 of 8 entries; operations: 5 kinds x all queries of 1-2 of 5 symbols and '
                         '4 longer; breadth-first to depth 5 (statistics: 4) or 100 (25) states each; all 720 orders of '
                         'appearance of 6 symbols; 3000 symbols; 34000 symbols registered one by one',
                'thorough': 'initial dictionaries of up to 4 entries, 800 (400) states each'},
        assumptions=[REAL, ORACLE]),
    'C06': dict(
        source='c06.cc', level=MC, technique=EXH,
        state_is='entries, frequencies, code length and sufficiency of the statistics dictionary',
        bounds={'quick': '9 dictionaries x 4 initial frequencies x 3 minimal probabilities, all histories of 3 operations from a '
                         'menu of 20 parses and explicit updates; histories of 300 parses over 400 symbols; sequences of 70000 symbols',
                'thorough': 'all histories of 4 operations'},
        assumptions=[REAL, ORACLE]),
    'C07': dict(
        source='c07.cc', level=MC, san=False, technique=LOCK,
        state_is='set of states of the model of the builder that explain everything observed so far',
        bounds={'quick': 'builders created empty, from symbols, from dictionaries (also without entries for their symbols), restored (5 sizes each), fed with all words up '
                         'to length 4 over 3 symbols repeated, pairs of words in 3 proportions, quadratic texts over 2-25 '
                         'symbols, until the first growth and 700 symbols after it (at most 6000 symbols); one sequence of 3000-9000 symbols over up to 400 symbols; counts of 70000; '
                         'entries of up to 60 symbols, unused parts of other entries',
                'thorough': 'words up to length 6, all dictionaries of the pool'},
        assumptions=[ORACLE, TIES, RAND, 'the moment of the growth is taken from the code here, C09 decides it',
                     'the growth is observed where it is published: the first one of a builder that was not restored']),
    'C08': dict(
        source='c08.cc', level=MC, san=False, technique=LOCK,
        state_is='set of states of the model of the builder that explain everything observed so far',
        bounds={'quick': 'as C07, until the first pruning and 700 symbols after it (at most 20000 symbols)',
                'thorough': 'words up to length 6, all dictionaries of the pool'},
        assumptions=[ORACLE, TIES, 'the moment of the pruning is taken from the code here, C09 decides it']),
    'C09': dict(
        source='c09.cc', level=MC, san=False, technique=LOCK,
        state_is='set of states of the model of the builder that explain everything observed so far',
        bounds={'quick': 'all histories of 7 sequences from a menu of 4 for 10 restored starts, of 6 for 12 more; all periodic '
                         'histories of period up to 3 (200 sequences, many rebuild cycles) for 5 sizes; quadratic texts over '
                         '3-30 symbols; builders of all constructors; periodic histories of 12000 sequences; sequences of up to 101000 symbols, alphabets of up to 70000 symbols',
                'thorough': 'histories of 9 and 8, periods up to 4, 600 sequences'},
        assumptions=[ORACLE, TIES, RAND]),
    'C10': dict(
        source='c10.cc', level=MC, san=False, technique=EXH,
        state_is='published dictionary with frequencies',
        bounds={'quick': 'all histories of 6 sequences from a menu of 5 for 26 starts; all periodic histories of period up to 3 '
                         '(200 sequences); quadratic texts over up to 100 symbols, histories with ever new symbols (1500); the published '
                         'dictionary searched for new symbols between accepts',
                'thorough': 'histories of 8 sequences, periods up to 4, 1000 sequences'},
        assumptions=[REAL, 'which rebuilds were prunings is derived from the published frequencies']),
    'C11': dict(
        source='c11.cc', level=MC, interfaces=True, technique='exhaustive interleaving of the operations of two models of the real code, compared with each model alone',
        state_is='everything that can be read from a model, with the history',
        bounds={'quick': 'all ordered pairs of 10 kinds of models, all histories of 3 operations of the first, 2 of the second, all '
                         'interleavings; all histories of 4 operations with verbosity 1 and 2 for 7 kinds, periodic ones of 240; 8 ways to make a model from another, all histories of up to 3 before and 2 after; '
                         'what to expect comes from a new process per model',
                'thorough': 'histories of 4 (of 6 with verbosity), all starting points of the second'},
        assumptions=[REAL, 'the repository has no threads: operations are interleaved, not run at the same time']),
    'C12': dict(
        source='c12.cc', level=MC, interfaces=True, technique=EXH,
        state_is='published alphabet with frequencies and the dictionary of the builder behind it',
        bounds={'quick': 'all histories of 4-5 operations (accept of 4 sequences, update_dict) for 15 starts, 44 probe sequences '
                         'after each operation; periodic histories of 60 operations; 2500 symbols, an old published dictionary',
                'thorough': 'one operation more, 150 operations'},
        assumptions=[REAL, 'the builder is the oracle of the learned dictionary (C07-C10 check it)']),
    'C13': dict(
        source='c13.cc', level=MC, interfaces=True, technique='exhaustive enumeration of histories with observers inserted at every point, compared with the undisturbed run',
        state_is='everything that can be read from a model, with the history',
        bounds={'quick': 'all histories of 4-5 operations for 10 kinds of models, each observer alone at every point, at a single '
                         'point, and all of them; histories of 24 operations; sequences of up to 20000 symbols read, every observer called up to 1100 times',
                'thorough': 'histories of 6-7 operations'},
        assumptions=[REAL]),
    'C14': dict(
        source='c14.cc', level=MC, interfaces=True, technique=EXH,
        state_is='everything that can be read from a model at the moment of saving',
        bounds={'quick': 'all histories of up to 4 operations for 9 kinds of models, histories of 30 operations of period 3; extreme '
                         'symbols, frequencies and probabilities; learned dictionaries; all kinds of tokens; 1500 symbols or words, words of 500 letters, entries of 30000 symbols',
                'thorough': 'histories of up to 5 operations'},
        assumptions=[REAL, 'words are valid UTF-8 (JSON cannot hold other texts)', 'the number of iterations of a batch model '
                     'that was never fitted is not a part of the file']),
    'C15': dict(
        source='c15.cc', level=MC, interfaces=True, technique=LOCK,
        state_is='published alphabet with frequencies and the set of model states that explain it',
        bounds={'quick': 'all histories of up to 2 operations before saving and 4 after loading for 2 classes, 2 dictionaries, 3 '
                         'sizes; periodic histories through rebuilds before and after; text models: up to 3 before, 2 after; minimal probabilities down to 1e-12; 1000 symbols',
                'thorough': 'one operation more after loading, 80 instead of 35 operations after loading'},
        assumptions=[ORACLE, TIES, RAND]),
    'C16': dict(
        source='c16.cc', level='fault_enumeration', interfaces=True,
        technique='exhaustive enumeration of crash points (truncations) and write failures on the real code',
        rule='one case per model and 64 consecutive truncation or failure points; distinct = distinct truncated texts and '
             '(model, byte count) pairs at which writing fails',
        bounds={'quick': '37 saved models of all four classes, one of several kilobytes; every proper prefix of the JSON text '
                         'loaded; writing made to fail (RLIMIT_FSIZE) after every number of bytes; files that cannot be opened',
                'thorough': 'a larger long model'},
        assumptions=[REAL, 'a full device is represented by a limit on the file size']),
    'C17': dict(
        source='c17.cc', level=MC, interfaces=True, technique=EXH,
        state_is='symbols of the coder in the order of codes',
        bounds={'quick': 'all histories of 2 operations over all sequences of up to 3 of 3 symbols, of 3 over 2 symbols, of 4 from '
                         'two menus with extreme values; 300000 symbols',
                'thorough': 'histories of 4 and 6'},
        assumptions=[REAL, ORACLE]),
    'C18': dict(
        source='c18.cc', level=MC, interfaces=True, technique=EXH,
        state_is='text or history of texts given to a tokenizer',
        bounds={'quick': 'all strings up to 4 bytes over 12 (characters) and 6 bytes over 6 (words) representative bytes; all 256 '
                         'bytes in pairs; all histories of 5 texts; all maps of up to 3 tokens to 7 ids x all histories of 3 texts; restored maps of up to 70000 successive ids in 8 positions; 70000 words; words of up to 70000 letters',
                'thorough': 'strings up to 5 and 8 bytes, histories of 6'},
        assumptions=[REAL, ORACLE, 'LC_ALL=C']),
    'C19': dict(
        source='c19.cc', level=MC, interfaces=True, san=False, technique=EXH,
        state_is='alphabet and frequencies of a text model',
        bounds={'quick': 'stream: all histories of 4 operations for 12 starts; all texts up to 3 characters/words learned x all '
                         'texts up to 4 parsed; many cycles; batch: all training sets of up to 3 of 4 texts, 0-3 iterations, all '
                         'outcomes of the first 3 draws; all texts up to length 4 as training x all texts up to 3; word modes; long texts, 3000 words',
                'thorough': 'histories of 5 operations, word texts up to 5'},
        assumptions=[REAL, 'pieces are compared with the integer model of the same code']),
    'C20': dict(
        source='c20.cc', level=MC, interfaces=True, san=False, technique='exhaustive enumeration of the outcomes of rand() on the real code',
        state_is='alphabet and frequencies after fit',
        bounds={'quick': 'all training sets of up to 3 of 5 short texts, 0-2 iterations, all outcomes of the first 4 draws; 1-3 texts '
                         'of 100-2400 symbols, 1-3 iterations, all outcomes of the first 2-3 draws; texts whose last acceptance '
                         'leads to the rebuild; up to 70000 texts chosen in 4 orders',
                'thorough': 'all outcomes of the first 6 draws (4 for 3 long texts), a finer grid of lengths'},
        assumptions=[REAL, 'the random source of fit is rand(); a text is chosen by its low or its high digits',
                     'longer draws repeat the enumerated ones']),
    'C21': dict(
        source='c21.cc', level=MC, interfaces=True, san=False, technique='exhaustive enumeration of interruption points and continuations on the real code',
        state_is='alphabet and frequencies after the interruption, with point and continuation',
        bounds={'quick': 'all training sets of up to 3 of 4 short texts, 0-2 iterations, every poll of the hook (alone or lasting), '
                         '7 continuations, among them a second interruption at every poll; long texts with rebuilds; every '
                         'poll of transforms of all sets of up to 3 of 4 texts; training sets of up to 40 texts',
                'thorough': 'more outcomes of the draws, more sizes and lengths'},
        assumptions=[REAL, 'an interruption is seen through isTerminated() only']),
    'C22': dict(
        source='c22.cc', level=MC, technique=EXH,
        state_is='sequence printed; elements of the encoder in order of appearance',
        bounds={'quick': 'all sequences of up to 4 of 11 numbers, 1600 ranges of numbers, 100000 numbers; all histories of 2 inputs '
                         'of up to 3 elements for 7 element types, 100000 elements',
                'thorough': 'sequences of up to 6 numbers, histories of 3 inputs'},
        assumptions=[REAL, ORACLE]),
    'C23': dict(
        source='c23.cc', level=MC, technique='exhaustive evaluation over a grid of parameter vectors on the real code',
        state_is='sample returned',
        bounds={'quick': 'all vectors of length up to 5 over {1,2,5,40,1000,30000,1e7}; vectors of up to 200000 components with one '
                         'odd component; components within 8 standard deviations plus 34/(sum+1)',
                'thorough': 'vectors of length up to 7'},
        assumptions=[REAL, 'a correct sample leaves the given distance from the mean with a probability of less than 1e-12']),
    'C24': dict(
        source='c24.cc', level=MC, interfaces=True, san=False, repo_dirs=['binding/src/main/cpp'], repo_inc=['core'],
        harness_dirs=['pymodule'], technique='exhaustive enumeration of call histories in lock step with the C++ classes',
        state_is='alphabet and frequencies of a model of the module',
        bounds={'quick': 'all 4 classes, 100 ways to give the arguments; all histories of up to 3 (2 for fit) calls, everything read '
                         'after each, then saved, loaded and the same calls again; histories of 30 calls of period 3; a keyboard '
                         'interrupt at every poll of fit',
                'thorough': 'histories of up to 4 (3 for fit) calls'},
        assumptions=[REAL, 'pybind11 itself is replaced by a table that passes arguments as Python would',
                     'the C++ classes of the same code are the reference; their own behaviour is the subject of C01-C22']),
}
