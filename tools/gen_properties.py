import json
A='core/src/main/cpp/algorithm/'; I='core/src/main/cpp/interfaces/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe,hook_needed=None))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title)); P.append(d)
INT=A+'int_dict_p.cc'; STAT=A+'stat_dict_p.cc'; BLD=A+'int_vgram_builder_p.cc'
p('C01','Parsing never loses, invents or reorders symbols',
 'For every dictionary of non-empty sequences and every input sequence (also the empty one, and one with symbols the dictionary has never seen), the frequency-weighted parse, the greedy parse and the parse of a statistics dictionary return ids of existing entries whose sequences, concatenated, are exactly the input. The ids are appended after what the output already holds, and the length of the output is returned. A greedy parse takes at each position the longest entry that is not excluded, and only when entries are excluded may it skip a symbol: exactly one for which no entry is left.',
 ['inputs','histories'],'all dictionaries over small alphabets, all input sequences up to a length, all sets of excluded entries, in every order of parses on one dictionary',
 'The existing tests parse a handful of hand-written sequences with one small dictionary and compare one expected output; int_dict_test does not even compile.',
 [INT,STAT],[('dynamic programming over positions and backtracking',INT+' weightedParse'),('longest-match loop',INT+' linearParse'),('on-the-fly registration of unknown symbols',INT+' search')],['return value and output vector of parse()','get(id)','alphabet()'])
p('C02','The weighted parse is the most probable segmentation',
 'For every dictionary that holds all symbols of the input, any frequencies and any total, the weighted parse returns a segmentation whose probability - the product over its entries of (frequency+1)/(total+dictionary size), a missing frequency counting as zero - is maximal among all segmentations of the input into dictionary entries. The statistics dictionary does the same with the frequencies it was created with plus everything counted since, where a frequency given at creation belongs to the sequence it was given for, whatever order the sequences were given in.',
 ['inputs','histories'],'all small dictionaries, all frequency assignments from a small set, all inputs up to a length, all parse/update histories up to a depth',
 'Optimality quantifies over all segmentations of all inputs; tests check two or three sequences whose best segmentation is obvious.',
 [INT,STAT],[('score table over positions, walk along parent chain',INT+' weightedParse'),('parse_freqs_ and its total',STAT+' parse / constructor')],['parse() output compared with an independent optimum'])
p('C03','Search finds the longest allowed prefix entry',
 'Searching a dictionary for a sequence returns the longest entry that is a prefix of it and is not excluded. If there is none, a search with an exclusion set returns -1 and changes nothing, and a search without one registers the first symbol as a new entry and returns its id; in every other case a search changes nothing.',
 ['inputs','histories'],'all small dictionaries, all queries up to a length, all subsets of matching entries as exclusions, before and after symbols were registered',
 'Tests look up a few entries of one dictionary; which prefix is found depends on the whole sorted neighbourhood and on the exclusion set.',
 [INT,STAT],[('binary search, then parent chain',INT+' search')],['search() return value','alphabet() before and after'])
p('C04','A dictionary is the sorted set of its sequences with right prefix links',
 'A dictionary built from any list of distinct sequences, in any order, holds exactly these sequences in lexicographic order: size, entry access by id and the listed alphabet agree, and the parent of an entry is the id of the longest other entry that is its prefix, or -1. A list of symbols gives the dictionary of one-symbol sequences. A copy has the same content and lives its own life: what is registered in one is not seen in the other.',
 ['inputs'],'all subsets of the sequences up to a length over small alphabets, in many orders, with extreme symbol values',
 'Tests build one dictionary; prefix links depend on every other entry, and the sorted order on every value.',
 [INT,STAT],[('sort and prefix stack',INT+' init'),('copy constructor',INT)],['size/get/alphabet/parent'])
p('C05','Registered symbols and ids are stable and never duplicated',
 'Whatever searches and parses are run on a dictionary, an id keeps its sequence and its parent for ever and no sequence ever appears twice. The only entries that appear are one-symbol entries without parent for symbols of the queries, each registered once, and always found again afterwards.',
 ['histories'],'all histories of search and parse operations up to a depth, from several initial dictionaries',
 'Needs a history in which unknown symbols come in an order other than sorted, followed by further lookups; tests never look up a registered symbol twice.',
 [INT],[('append of unknown symbols after the sorted part',INT+' search')],['alphabet(), get(), parent() after every operation'],[('seqs_','sorted entries, then registered symbols',A+'int_dict_p.h')])
p('C06','Statistics count exactly what was parsed',
 'In a statistics dictionary the frequency of an entry is the number of times parses returned it plus what was explicitly added for it, and zero for any id without statistics. Code length per character is the entropy code length of these frequencies, (N log N - sum f log f) with N their sum, divided by the number of parsed characters, and statistics are enough for probability p exactly when N exceeds -log(p)/minimal probability.',
 ['histories','inputs'],'all histories of parse and explicit updates up to a depth over small dictionaries, with and without initial frequencies',
 'Tests check one update and one parse; the relation must hold after every history, also for entries registered while parsing.',
 [STAT],[('update_symbol, parse, code_length_per_char, enough',STAT)],['freq(), code_length_per_char(), enough()'],[('symbol_freqs_, power_, total_chars_','counters',A+'stat_dict_p.h')])
p('C07','Growth adds the best adjacent pairs and nothing else',
 'When the builder extends its dictionary, the new dictionary is the old one plus concatenations of two entries that were next to each other in the parse of one accepted sequence since the last rebuild: those with the highest estimated gain (the mean over samples of the Dirichlet posterior of pair count times the conditional probability of the second entry times the log ratio to its overall probability), never one with negative gain. At most the free capacity (size minus single symbols) is added while the dictionary has fewer than eight entries, otherwise at most 1.3 times its size. Every entry starts with the count it had, a new one with the count of its pair, and the minimal probability becomes the smaller of the old one and the smallest relative frequency of an added pair.',
 ['histories','configurations'],'all accept histories from enumerated families of sequences, all capacities, several initial alphabets',
 'Tests only check that three hand-made dictionaries are eventually found; no test looks at one growth step.',
 [STAT,BLD,A+'fast_random.cc'],[('candidate pairs, scores, selection',STAT+' expand'),('slots for growth',BLD+' update')],['result()->alphabet(), result_freqs(), get_min_probability() after accept()'],[('pairs_freqs_','adjacent pair counts since last rebuild',A+'stat_dict_p.h')])
p('C08','Pruning keeps exactly the entries that pay for themselves',
 'When the builder reduces its dictionary, every single symbol stays, and a longer entry stays exactly if it was used and coding its occurrences by its best segmentation into the other entries would lengthen the code of the data; if more of them remain than the capacity leaves room for, those with the smallest gain go first. No entry appears that was not there. Kept entries start with the counts they had, and the minimal probability becomes the smallest of the old one, one over the old dictionary size and the smoothed probability of the rarest kept longer entry.',
 ['histories','configurations'],'all accept histories from enumerated families of sequences, all capacities, several initial alphabets',
 'Tests only check that three hand-made dictionaries are eventually found; no test looks at one pruning step.',
 [STAT,BLD],[('code length without an entry',STAT+' stat_items'),('cut to the slots',STAT+' filter_stat_items, reduce')],['result()->alphabet(), result_freqs(), get_min_probability() after accept()'])
p('C09','The builder rebuilds at the right moments and follows its rules for ever',
 'After every accepted sequence the published dictionary, its frequencies, minimal probability and code length are those of the learning procedure: parse and count, and as soon as the statistics are enough for the current confidence (or a fixed maximum of counted symbols is reached) rebuild, growing and pruning in turn, publishing the result of pruning. Confidence starts at 0.1 and is multiplied by 0.8 at each rebuild after more than three in a row without a better compression rate. This holds through any number of cycles and also for a builder restored from a dictionary, frequencies, minimal probability and size.',
 ['histories','configurations'],'all accept histories up to a depth from enumerated initial dictionaries with small rebuild thresholds, through many rebuild cycles',
 'Cycle behaviour depends on the whole history; the tests run one long random history and look only at its end.',
 [BLD,STAT],[('accept/update cycle, populate_ flag, prob_found_',BLD)],['result(), result_freqs(), get_min_probability(), code_length() after every accept()'],[('current_/result_/populate_','working and published dictionary, phase',A+'int_vgram_builder_p.h')])
p('C10','The learned dictionary is always sound and within its capacity',
 'After any history of accepted sequences, every symbol accepted before the last visible rebuild (and every symbol of a given alphabet) is a one-symbol entry of the published dictionary, no entry is empty or duplicated, and every longer entry occurs contiguously in some accepted sequence or was in the initial dictionary. There is one non-negative frequency per entry. From the first pruning on, the number of entries just after it is at most the larger of the requested size and the number of distinct symbols.',
 ['histories','configurations'],'all accept histories up to a depth, all capacities from zero up, symbols first seen at any moment',
 'Capacity and survival of symbols depend on when a symbol first appears relative to rebuilds; the one test of size uses uniform noise with a given alphabet.',
 [BLD,STAT],[('capacity computed at each rebuild',BLD+' update'),('singles have maximal score',STAT)],['result()->alphabet(), result_freqs()'])
p('C11','Learning is deterministic and instances do not affect each other',
 'Two models given the same history produce identical dictionaries, frequencies, parses and saved files, whatever else the process did before or does in between with other models, and whatever verbosity they were created with. Nothing done to one model changes another, including a model made from the dictionary of another and a loaded one.',
 ['histories','schedules'],'all interleavings of the operations of two or three models up to a depth, all pairs of histories from an enumerated set',
 'Tests run one model per process and never compare two runs.',
 [BLD,STAT,A+'fast_random.cc',I+'vgram_builders/int_stream_vgram.cc',I+'vgram_builders/string_stream_vgram.cc'],[('generator created per call',A+'fast_random.cc'),('no shared mutable state','all classes')],['result(), alphabet(), freqs(), parse(), saved bytes'])
p('C12','update_dict publishes one consistent snapshot',
 'A stream model is usable from its creation; until update_dict is called its alphabet, frequencies and parses do not change, whatever is accepted. update_dict publishes the dictionary the builder holds at that moment plus a one-symbol entry for every other symbol accepted so far, with one frequency per entry belonging to that entry; calling it again changes nothing. Parsing drops exactly the symbols not accepted before the last update_dict and codes the rest losslessly with ids of the published alphabet, choosing the most probable segmentation under the published frequencies.',
 ['histories'],'all histories of accept, update_dict and parse up to a depth, for several sizes and sequence alphabets, through rebuilds',
 'No test builds this class at all; consistency depends on the order of accept, update and parse relative to hidden rebuilds.',
 [I+'vgram_builders/int_stream_vgram.cc',I+'seq_coder.cc'],[('snapshot copy with aligned frequencies',I+'vgram_builders/int_stream_vgram.cc')],['alphabet(), freqs(), parse()'])
p('C13','Reading a model never changes it',
 'Parsing, transforming, listing the alphabet or frequencies, printing and saving do not change a model (stream, batch, integer or text): every later answer, the saved file (up to the numbering of text tokens) and everything learned afterwards are the same as if they had not been called, however often and with whatever input.',
 ['histories'],'all histories up to a depth of mutating operations with any subset of observing operations inserted at every point',
 'Needs pairs of histories that differ only by observers; no test compares two histories.',
 [I+'vgram_builders/int_stream_vgram.cc',I+'vgram_builders/int_vgram.cc',I+'vgram_builders/string_stream_vgram.cc',I+'vgram_builders/string_vgram.cc',I+'saver.h',BLD],[('parse does not register symbols in the published dictionary',I+'vgram_builders/int_stream_vgram.cc parse')],['alphabet(), freqs(), parse(), saved file'])
p('C14','A saved model loads back as the same model',
 'For each of the four kinds of model in any reachable state, loading a saved file gives a model with the same alphabet, frequencies, tokens of text and parse or transform result of every input as at the moment of saving. Saving the loaded model gives an equivalent file. A fitted model stays fitted: fitting it again changes nothing.',
 ['histories','inputs','configurations'],'all states reached by all accept/update histories up to a depth (also before the first update and with symbols accepted since), all probe inputs up to a length, for all four classes and both tokenizers',
 'No test saves or loads a model; the four classes were not even built by the test build.',
 [I+'saver.h',I+'loader.h',I+'vgram_builders/int_vgram.cc'],[('coder as list in code order, alphabet with vec, freq, text',I+'saver.h'),('restoring constructors',I+'vgram_builders/')],['alphabet(), freqs(), parse(), transform(), file content'])
p('C15','A loaded model goes on learning as before',
 'A loaded stream model goes on learning from its saved dictionary with the size it was created with: it follows the learning procedure from the saved dictionary, frequencies and minimal probability, keeps entries that still pay for themselves, can grow up to its size, codes new symbols with new codes, and an update_dict before the next rebuild keeps the saved frequencies and adds what was counted since loading.',
 ['histories'],'all accept/update histories up to a depth before saving and after loading, through rebuilds',
 'Needs a save in the middle of a learning history; no test saves a model.',
 [I+'loader.h',I+'vgram_builders/int_stream_vgram.cc',BLD],[('restoring constructors',I+'vgram_builders/int_stream_vgram.cc')],['alphabet(), freqs(), parse() after load and further accepts'])
p('C16','A bad file is never loaded and a failed save never goes unnoticed',
 'Loading a missing file, or a saved file cut off at any point before the last character of its JSON text, throws an exception instead of returning a model, for every kind of model. If the file cannot be completely written, because it cannot be opened or the device fills up at any point, save throws an exception.',
 ['crash_points','fault_sequences'],'every truncation point of every saved file of a set of models of all four kinds; every byte count after which writing fails',
 'No test loads or saves; crash points must be enumerated.',
 [I+'saver.h',I+'loader.h',I+'json.h'],[('parse errors of the JSON reader',I+'loader.h'),('stream state checked after writing',I+'saver.h')],['exception or return of load_* and save'])
p('C17','Symbol coding is a stable bijection with dense codes',
 'Encoding gives every new symbol the next code 0, 1, 2, ... in order of first appearance and a known symbol its old code, for ever; decoding the codes of a sequence gives the sequence back, for any integers. Encoding without registration never changes the coder and drops exactly the unknown symbols; decoding an unknown code throws.',
 ['histories','inputs'],'all histories of encode, encode without registration and decode up to a depth over several symbol values',
 'No test uses the coder.',
 [I+'seq_coder.cc'],[('two hash maps',I+'seq_coder.cc')],['encode, encode_immutable, decode, code_map'])
p('C18','Tokenizers keep text and give every token its own stable id',
 'The character tokenizer keeps exactly the ASCII letters and digits of any byte string, lower-cased, one token each; the word tokenizer splits at spaces into the maximal runs of other bytes. Ids are given in order of first appearance, a token keeps its id for ever, different tokens have different ids - also in a tokenizer restored from any token-to-id map, whose ids it keeps - and decoding ids gives the concatenated tokens back, unknown ids being skipped.',
 ['inputs','histories'],'all byte strings up to a length over representative bytes, all single bytes, all histories of transforms up to a depth, all small restored maps',
 'No test uses the tokenizers.',
 [I+'tokenizers/base_tokenizer.cc',I+'tokenizers/char_tokenizer.cc',I+'tokenizers/word_tokenizer.cc'],[('normalize/tokenize',I+'tokenizers/'),('forward and backward maps',I+'tokenizers/base_tokenizer.cc transform')],['normalize, tokenize, transform, decode'])
p('C19','Text models return the text they were given, cut at learned pieces',
 'For every text, the pieces returned by a text model, joined together, are the normalized text without the tokens it has not learned (for the word mode, the learned words joined without spaces), and every piece is in the alphabet of the model. The pieces are those the integer model gives for the token ids; transform of the batch text model returns one line per text, its pieces separated by single spaces. A text stream model cannot be created with both word modes at once.',
 ['inputs','histories'],'all texts up to a length over representative characters, all training histories up to a depth, both tokenizers, batch and stream',
 'No test builds the text models.',
 [I+'vgram_builders/string_vgram.cc',I+'vgram_builders/string_stream_vgram.cc'],[('tokenize, parse, decode',I+'vgram_builders/string_stream_vgram.cc parse'),('transform',I+'vgram_builders/string_vgram.cc')],['parse, transform, alphabet'])
p('C20','Fitting counts every training text once, whatever was sampled',
 'For every outcome of the random choice of training texts, fit accepts exactly iterations times number-of-texts texts, each a training text chosen by the random source, and then the alphabet holds every symbol of the texts and the frequency of an entry is the number of times it is used in coding the whole training set once, so the frequencies weighted by entry lengths sum up to the size of the training set. Transforming then codes every training text losslessly and most probably under these frequencies, skips unknown symbols of other texts and does not change the model; fitting again changes nothing. The textual form lists the ids of each sequence in order, and -1 for a sequence with no ids.',
 ['schedules','inputs','configurations'],'all sequences of random choices for small training sets and iteration numbers, all training sets up to a size',
 'Random choices come from rand(); tests cannot enumerate them and do not build this class.',
 [I+'vgram_builders/int_vgram.cc'],[('sampling loop, recompute_freqs',I+'vgram_builders/int_vgram.cc fit')],['fit return value, alphabet, freqs, transform, transform_to_string'])
p('C21','An interruption at any point leaves a usable, honest model',
 'If the user interrupts fitting an integer model at any point, fit returns null and the model can still be listed, parsed (losslessly, and most probably under its frequencies), saved and fitted again; it never claims to be fitted with frequencies computed, and a later uninterrupted fit ends with frequencies of the whole training set. An interrupted transform returns the results of a prefix of the sequences, each the same as without interruption.',
 ['crash_points','schedules'],'every interruption point of every fit and transform of a set of training sets and iteration numbers, followed by every continuation from a small menu',
 'The interruption hook fires only on a signal from Python; tests have no way to enter it.',
 [I+'vgram_builders/int_vgram.cc'],[('isTerminated polled after every sequence',I+'vgram_builders/int_vgram.cc')],['fit/transform return values, saved flags, freqs'])
p('C22','Sequences print faithfully and the generic encoder numbers densely',
 'The textual form of a sequence, to a stream or to a string, is its numbers in order separated by single spaces inside parentheses, for every sequence including the empty one. The generic encoder appends for each element of any type the code of its first appearance, 0, 1, 2, ..., and its size is the number of distinct elements seen.',
 ['inputs','histories'],'all sequences up to a length over extreme values, all encode histories up to a depth',
 'No test prints a sequence or uses the encoder.',
 [A+'int_dict.cc',A+'list_dict.h'],[('operator<< and to_string',A+'int_dict.cc'),('Encoder',A+'list_dict.h')],['output text, output codes'])
p('C23','Dirichlet samples are probability vectors around the right mean',
 'For every vector of parameters not less than one the sample has the given number of components, all non-negative and summing to one, depends on nothing but the parameters, and component i lies within a few standard deviations of the Dirichlet distribution from parameter i divided by the sum.',
 ['inputs'],'all parameter vectors over a grid of values from 1 to 10^7, in every position, called in any order',
 'No test calls the sampler; growth scores silently depend on it.',
 [A+'fast_random.cc'],[('gamma variates normalised by their sum',A+'fast_random.cc')],['next_dirichlet output'])
p('C24','The Python module gives every model its C++ meaning',
 'Through the Python module, StreamVGram, IntStreamVGram, VGram and IntVGram can be created with arguments by position or by keyword (size 10000 and silent if not given), taught, read, saved and loaded, and every method returns, saves, prints and fails exactly as the C++ class does after the same history of calls. fit returns the model itself and, like transform, ignores additional arguments. A keyboard interrupt at any point of the fit of an IntVGram that was not loaded stops it and leaves the model as an interruption leaves the C++ model.',
 ['histories','inputs','configurations','crash_points'],'all ways to give the constructor arguments over a set of values, all histories of calls up to a depth before saving and after loading, a keyboard interrupt at every poll of fit',
 'No test builds the module, and the project cannot build it without pybind11.',
 ['binding/src/main/cpp/bind_vgram.cc','binding/src/main/cpp/py_int_vgram_builder.h','binding/src/main/cpp/py_vgram_builder.h'],[('table of classes, methods and default arguments','binding/src/main/cpp/bind_vgram.cc'),('fit, transform, load and the poll for signals','binding/src/main/cpp/py_int_vgram_builder.h')],['values, files, standard output and exceptions of the module functions'])
open(__import__('os').path.join(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__))),'properties.jsonl'),'w').write(''.join(json.dumps(d,ensure_ascii=False)+'\n' for d in P))
print(len(P))
import re
for d in P:
    n=len(re.findall(r'[.](?:\s|$)',d['statement'])); 
    if n>3: print(d['id'],'sentences',n)
